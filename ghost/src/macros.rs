#[macro_export]
macro_rules! rt {
    ($($m:ident $t:ty;)*) => { $(
        pub mod $m {
            #[allow(unused_imports)]
            use super::*;
            pub fn ser(v: &$t, w: &mut $crate::stub::Sink) -> Result<(), dlhn::ser::Error> { ::serde::Serialize::serialize(v, &mut dlhn::Serializer::new(w)) }
            pub fn de(r: &mut $crate::stub::Src) -> Result<$t, dlhn::de::Error> { <$t as ::serde::Deserialize>::deserialize(&mut dlhn::Deserializer::new(r)) }
        }
    )* };
}
