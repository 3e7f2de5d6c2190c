//! Headers: the dynamic form and the static types' own.
use crate::stub::*;
use dlhn::{DeserializeHeader, Header, SerializeHeader};
use std::collections::{BTreeMap, HashMap};

pub mod any {
    use super::*;
    pub fn ser(v: &Header, w: &mut Sink) -> std::io::Result<()> {
        v.serialize(w)
    }
    pub fn de(r: &mut Src) -> std::io::Result<Header> {
        r.deserialize_header()
    }
}

macro_rules! hd {
    ($($m:ident $t:ty;)*) => { $(
        pub mod $m {
            #[allow(unused_imports)]
            use super::*;
            pub fn ser(w: &mut Sink) -> std::io::Result<()> {
                <$t as SerializeHeader>::serialize_header(w)
            }
        }
    )* };
}
type T = Tk;
hd! {
    h_unit (); h_option Option<T>; h_bool bool;
    h_u8 u8; h_u16 u16; h_u32 u32; h_u64 u64; h_i8 i8; h_i16 i16; h_i32 i32; h_i64 i64; h_f32 f32; h_f64 f64;
    h_str &'static str; h_string String; h_bytes serde_bytes::Bytes; h_bytebuf serde_bytes::ByteBuf;
    h_vec Vec<T>; h_btreemap BTreeMap<String, T>; h_btreemap_str BTreeMap<&'static str, T>; h_hashmap HashMap<String, T>;
    h_date dlhn::Date; h_datetime dlhn::DateTime; h_biguint dlhn::BigUint; h_bigint dlhn::BigInt; h_bigdecimal dlhn::BigDecimal;
    h_tuple1 (T,); h_tuple2 (T, u8); h_tuple3 (u8, T, bool); h_tuple4 (T, u8, u16, u32); h_tuple5 (u8, u16, u32, u64, T);
    h_tuple6 (u8, u16, u32, u64, i8, T); h_tuple7 (T, u8, u16, u32, u64, i8, i16); h_tuple8 (u8, u16, u32, u64, i8, i16, i32, T);
    h_tuple9 (T, u8, u16, u32, u64, i8, i16, i32, i64); h_tuple10 (u8, u16, u32, u64, i8, i16, i32, i64, f32, T);
    h_tuple11 (T, u8, u16, u32, u64, i8, i16, i32, i64, f32, f64); h_tuple12 (u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, bool, T);
    h_tuple13 (T, u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, bool, String);
    h_tuple14 (u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, bool, String, (), T);
    h_tuple15 (T, u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, bool, String, (), Option<u8>);
    h_tuple16 (u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, bool, String, (), Option<u8>, Vec<i8>, T);
    h_nested Vec<Option<BTreeMap<String, (T, Vec<bool>)>>>;
}
#[cfg(feature = "full")]
pub mod ext {
    use super::*;
    hd! {
        h_time_date time::Date; h_offset_date_time time::OffsetDateTime; h_nb_biguint num_bigint::BigUint;
        h_nb_bigint num_bigint::BigInt; h_bd_bigdecimal bigdecimal::BigDecimal;
    }
}
