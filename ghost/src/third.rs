//! Conversions from and to the types of other crates, and the field-format helpers.
use crate::stub::*;
use dlhn::{Deserializer, Serializer};
use serde::{Deserialize, Serialize};
use std::convert::TryInto;

macro_rules! helper {
    ($($m:ident $t:ty, $f:ident, $wr:ty;)*) => { $(
        pub mod $m {
            #[allow(unused_imports)]
            use super::*;
            pub fn ser(v: &$t, w: &mut Sink) -> Result<(), dlhn::ser::Error> { dlhn::format::$f::serialize(v, &mut Serializer::new(w)) }
            pub fn de(r: &mut Src) -> Result<$t, dlhn::de::Error> { dlhn::format::$f::deserialize(&mut Deserializer::new(r)) }
            pub mod wrap {
                #[allow(unused_imports)]
                use super::super::*;
                pub fn ser(v: &$wr, w: &mut Sink) -> Result<(), dlhn::ser::Error> { v.serialize(&mut Serializer::new(w)) }
                pub fn de(r: &mut Src) -> Result<$wr, dlhn::de::Error> { <$wr>::deserialize(&mut Deserializer::new(r)) }
            }
        }
    )* };
}
helper! {
    date time::Date, date, dlhn::Date;
    date_time time::OffsetDateTime, date_time, dlhn::DateTime;
    big_uint num_bigint::BigUint, big_uint, dlhn::BigUint;
    big_int num_bigint::BigInt, big_int, dlhn::BigInt;
    big_decimal bigdecimal::BigDecimal, big_decimal, dlhn::BigDecimal;
}
macro_rules! conv {
    ($($m:ident $t:ty, $wr:ty, $res:ty, $f:ident;)*) => { $(
        pub mod $m {
            #[allow(unused_imports)]
            use super::*;
            pub fn from(v: $t) -> $wr { <$wr as From<$t>>::from(v) }
            pub fn to(v: $wr) -> $res { v.$f() }
        }
    )* };
}
conv! {
    c_date time::Date, dlhn::Date, Result<time::Date, ()>, try_into;
    c_date_time time::OffsetDateTime, dlhn::DateTime, Result<time::OffsetDateTime, ()>, try_into;
    c_big_uint num_bigint::BigUint, dlhn::BigUint, num_bigint::BigUint, into;
    c_big_int num_bigint::BigInt, dlhn::BigInt, num_bigint::BigInt, into;
    c_big_decimal bigdecimal::BigDecimal, dlhn::BigDecimal, bigdecimal::BigDecimal, into;
}
