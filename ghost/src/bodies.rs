//! Dynamic values.
use crate::stub::*;
use dlhn::{Body, Deserializer, Header, Serializer};
use serde::Serialize;

pub mod any {
    use super::*;
    pub fn ser(v: &Body, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn de(r: &mut Src, h: &Header) -> Result<Body, dlhn::de::Error> {
        Body::deserialize(h, &mut Deserializer::new(r))
    }
    pub fn validate(v: &Body, h: &Header) -> bool {
        v.validate(h)
    }
}

/// types that have both a header and an encoding
macro_rules! st {
    ($($m:ident $t:ty;)*) => { $(
        pub mod $m {
            #[allow(unused_imports)]
            use super::*;
            pub fn ser(v: &$t, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
                Serialize::serialize(v, &mut Serializer::new(w))
            }
            pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
                <$t as dlhn::SerializeHeader>::serialize_header(w)
            }
        }
    )* };
}
use serde_bytes::ByteBuf;
use std::collections::{BTreeMap, HashMap};
type T = Tk;
st! {
    s_unit (); s_bool bool; s_u8 u8; s_u16 u16; s_u32 u32; s_u64 u64; s_i8 i8; s_i16 i16; s_i32 i32; s_i64 i64; s_f32 f32; s_f64 f64;
    s_string String; s_str &'static str; s_bytebuf ByteBuf; s_option Option<T>; s_vec Vec<T>; s_vecu8 Vec<u8>;
    s_btreemap BTreeMap<String, T>; s_hashmap HashMap<String, T>;
    s_date dlhn::Date; s_datetime dlhn::DateTime; s_biguint dlhn::BigUint; s_bigint dlhn::BigInt; s_bigdecimal dlhn::BigDecimal;
    s_tuple1 (T,); s_tuple2 (T, T); s_tuple3 (T, u8, T); s_tuple4 (T, T, T, T); s_tuple5 (T, T, T, T, T);
    s_tuple6 (T, T, T, T, T, T); s_tuple7 (T, T, T, T, T, T, T); s_tuple8 (T, T, T, T, T, T, T, T);
    s_tuple9 (T, T, T, T, T, T, T, T, T); s_tuple10 (T, T, T, T, T, T, T, T, T, T); s_tuple11 (T, T, T, T, T, T, T, T, T, T, T);
    s_tuple12 (T, T, T, T, T, T, T, T, T, T, T, T); s_tuple13 (T, T, T, T, T, T, T, T, T, T, T, T, T);
    s_tuple14 (T, T, T, T, T, T, T, T, T, T, T, T, T, T); s_tuple15 (T, T, T, T, T, T, T, T, T, T, T, T, T, T, T);
    s_tuple16 (T, T, T, T, T, T, T, T, T, T, T, T, T, T, T, T);
    s_mixed (bool, Option<(u8, T)>, (), Option<Option<bool>>, (T, (u16,)));
    s_vectuple Vec<(u8, T)>;
}
