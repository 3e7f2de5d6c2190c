//! What every configuration offers, and what each feature adds: type-level witnesses, checked by the compiler.
use dlhn::*;
use serde::{de::DeserializeOwned, Serialize};
use std::convert::TryInto;

fn value<T: Serialize + DeserializeOwned + SerializeHeader + Clone + std::fmt::Debug + PartialEq>() {}
fn hdr<T: SerializeHeader + ?Sized>() {}
fn conv<A: Into<B>, B>() {}
fn tryconv<A: TryInto<B>, B>() {}
fn eq<T: Clone + std::fmt::Debug + PartialEq>() {}
fn sendsync<T: Send + Sync + 'static>() {}
fn error<T: std::error::Error>() {}

fn everywhere() {
    value::<bool>();
    value::<u8>();
    value::<u16>();
    value::<u32>();
    value::<u64>();
    value::<i8>();
    value::<i16>();
    value::<i32>();
    value::<i64>();
    value::<f32>();
    value::<f64>();
    value::<()>();
    value::<String>();
    value::<serde_bytes::ByteBuf>();
    value::<Option<u8>>();
    value::<Vec<u8>>();
    value::<std::collections::BTreeMap<String, u8>>();
    value::<std::collections::HashMap<String, u8>>();
    value::<(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8)>();
    value::<Date>();
    value::<DateTime>();
    value::<BigUint>();
    value::<BigInt>();
    value::<BigDecimal>();
    eq::<Header>();
    eq::<Body>();
    sendsync::<Header>();
    sendsync::<Body>();
    error::<dlhn::ser::Error>();
    error::<dlhn::de::Error>();
    let _: fn(&Body, &Header) -> bool = Body::validate;
    let _: fn(&Header, &mut Vec<u8>) -> std::io::Result<()> = Header::serialize::<Vec<u8>>;
}

fn read_header<R: std::io::Read>(r: &mut R) -> std::io::Result<Header> {
    r.deserialize_header()
}

fn read_body<R: std::io::Read>(h: &Header, r: &mut R) -> Result<Body, dlhn::de::Error> {
    Body::deserialize(h, &mut Deserializer::new(r))
}

fn write<W: std::io::Write>(b: &Body, w: W) -> Result<(), dlhn::ser::Error> {
    b.serialize(&mut Serializer::new(w))
}

#[cfg(feature = "time")]
mod with_time {
    use super::*;
    fn adds() {
        conv::<time::Date, Date>();
        tryconv::<Date, time::Date>();
        conv::<time::OffsetDateTime, DateTime>();
        tryconv::<DateTime, time::OffsetDateTime>();
        hdr::<time::Date>();
        hdr::<time::OffsetDateTime>();
    }
    #[derive(serde::Serialize, serde::Deserialize)]
    struct S {
        #[serde(with = "dlhn::format::date")]
        a: time::Date,
        #[serde(with = "dlhn::format::date_time")]
        b: time::OffsetDateTime,
    }
}

#[cfg(all(feature = "num-traits", feature = "num-bigint"))]
mod with_bigint {
    use super::*;
    fn adds() {
        conv::<num_bigint::BigUint, BigUint>();
        conv::<BigUint, num_bigint::BigUint>();
        conv::<num_bigint::BigInt, BigInt>();
        conv::<BigInt, num_bigint::BigInt>();
        hdr::<num_bigint::BigUint>();
        hdr::<num_bigint::BigInt>();
    }
    #[derive(serde::Serialize, serde::Deserialize)]
    struct S {
        #[serde(with = "dlhn::format::big_uint")]
        a: num_bigint::BigUint,
        #[serde(with = "dlhn::format::big_int")]
        b: num_bigint::BigInt,
    }
}

#[cfg(feature = "bigdecimal")]
mod with_bigdecimal {
    use super::*;
    fn adds() {
        hdr::<bigdecimal::BigDecimal>();
    }
}

#[cfg(all(feature = "num-traits", feature = "num-bigint", feature = "bigdecimal"))]
mod with_all_numbers {
    use super::*;
    fn adds() {
        conv::<bigdecimal::BigDecimal, BigDecimal>();
        conv::<BigDecimal, bigdecimal::BigDecimal>();
    }
    #[derive(serde::Serialize, serde::Deserialize)]
    struct S {
        #[serde(with = "dlhn::format::big_decimal")]
        a: bigdecimal::BigDecimal,
    }
}

#[cfg(feature = "dlhn_derive")]
mod with_derive {
    use super::*;
    #[derive(SerializeHeader)]
    struct S {
        a: u8,
        b: Option<String>,
    }
    #[derive(SerializeHeader)]
    enum E {
        A,
        B(u8),
    }
    fn adds() {
        hdr::<S>();
        hdr::<E>();
    }
}
