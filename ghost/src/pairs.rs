//! Several values back to back through one codec object, and through fresh ones.
use crate::stub::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

macro_rules! pairs {
    ($($m:ident $a:ty, $b:ty, $c:ty;)*) => { $(
        pub mod $m {
            #[allow(unused_imports)]
            use super::*;
            pub fn ser(v: &($a, $b, $c), w: &mut Sink) -> Result<(), dlhn::ser::Error> {
                let mut s = dlhn::Serializer::new(w);
                v.0.serialize(&mut s)?;
                v.1.serialize(&mut s)?;
                v.2.serialize(&mut s)
            }
            pub fn de(r: &mut Src) -> Result<($a, $b, $c), dlhn::de::Error> {
                let mut d = dlhn::Deserializer::new(r);
                Ok((<$a>::deserialize(&mut d)?, <$b>::deserialize(&mut d)?, <$c>::deserialize(&mut d)?))
            }
            pub mod fresh {
                #[allow(unused_imports)]
                use super::super::*;
                pub fn ser(v: &($a, $b, $c), w: &mut Sink) -> Result<(), dlhn::ser::Error> {
                    v.0.serialize(&mut dlhn::Serializer::new(&mut *w))?;
                    v.1.serialize(&mut dlhn::Serializer::new(&mut *w))?;
                    v.2.serialize(&mut dlhn::Serializer::new(&mut *w))
                }
                pub fn de(r: &mut Src) -> Result<($a, $b, $c), dlhn::de::Error> {
                    Ok((
                        <$a>::deserialize(&mut dlhn::Deserializer::new(&mut *r))?,
                        <$b>::deserialize(&mut dlhn::Deserializer::new(&mut *r))?,
                        <$c>::deserialize(&mut dlhn::Deserializer::new(&mut *r))?,
                    ))
                }
            }
        }
    )* };
}
#[derive(Serialize, Deserialize)]
pub enum En {
    U,
    N(u16),
    S { a: Tk, b: bool },
}
#[derive(Serialize, Deserialize)]
pub struct St {
    a: Tk,
    b: i32,
}
pairs! {
    p_tokens Tk, Tk, Tk;
    p_ints u16, i32, u8;
    p_int_str u8, String, u16;
    p_str_opt String, Option<Tk>, bool;
    p_bytes serde_bytes::ByteBuf, u8, Tk;
    p_seq Vec<Tk>, Tk, u8;
    p_map BTreeMap<String, Tk>, u8, Tk;
    p_enum En, St, Tk;
    p_unit (), Option<()>, f64;
    p_char char, u8, char;
}
