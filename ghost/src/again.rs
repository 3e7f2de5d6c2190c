//! A codec object handed in, so that what an operation leaves in it can be seen.
use crate::stub::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

macro_rules! again {
    ($($m:ident $t:ty;)*) => { $(
        pub mod $m {
            #[allow(unused_imports)]
            use super::*;
            pub fn ser(v: &$t, s: &mut dlhn::Serializer<&mut Sink>) -> Result<(), dlhn::ser::Error> {
                v.serialize(s)
            }
            pub fn de(d: &mut dlhn::Deserializer<'_, Src>) -> Result<$t, dlhn::de::Error> {
                <$t>::deserialize(d)
            }
        }
    )* };
}
pub fn new_ser(w: &mut Sink) -> dlhn::Serializer<&mut Sink> {
    dlhn::Serializer::new(w)
}
pub fn new_de(r: &mut Src) -> dlhn::Deserializer<'_, Src> {
    dlhn::Deserializer::new(r)
}
#[derive(Serialize, Deserialize)]
pub enum En {
    U,
    N(u16),
    T(u8, bool),
    S { a: u8, b: bool },
}
#[derive(Serialize, Deserialize)]
pub struct St {
    a: u8,
    b: i32,
}
#[derive(Serialize, Deserialize)]
pub struct Nt(u8);
again! {
    a_u64 u64;
    a_i16 i16;
    a_f32 f32;
    a_unit ();
    a_string String;
    a_bytes serde_bytes::ByteBuf;
    a_char char;
    a_option Option<u8>;
    a_seq Vec<u8>;
    a_tuple (u8, u16);
    a_map BTreeMap<String, u8>;
    a_struct St;
    a_newtype Nt;
    a_enum En;
    a_date dlhn::Date;
    a_datetime dlhn::DateTime;
    a_bigint dlhn::BigInt;
    a_bigdecimal dlhn::BigDecimal;
}
pub mod a_header {
    use super::*;
    use dlhn::{DeserializeHeader, SerializeHeader};
    pub fn ser(v: &dlhn::Header, w: &mut Sink) -> std::io::Result<()> {
        v.serialize(w)
    }
    pub fn de(r: &mut Src) -> std::io::Result<dlhn::Header> {
        r.deserialize_header()
    }
}
