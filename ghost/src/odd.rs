//! Requests the format has no encoding for.
use crate::stub::*;
use dlhn::{Deserializer, Serializer};
use serde::de::{self, IgnoredAny, Visitor};
use serde::{ser::Serializer as _, Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fmt;

type SR = Result<(), dlhn::ser::Error>;
pub mod s_i128 { use super::*; pub fn ser(v: &i128, w: &mut Sink) -> SR { v.serialize(&mut Serializer::new(w)) } }
pub mod s_u128 { use super::*; pub fn ser(v: &u128, w: &mut Sink) -> SR { v.serialize(&mut Serializer::new(w)) } }
pub mod s_seqnone { use super::*; pub fn ser(v: &u8, w: &mut Sink) -> SR { crate::keys::SeqNone.serialize(&mut Serializer::new(w)) } }
pub mod s_mapnone { use super::*; pub fn ser(v: &u8, w: &mut Sink) -> SR { crate::keys::MapNone.serialize(&mut Serializer::new(w)) } }

/// asks for whatever the input holds
pub struct Whatever;
impl<'de> Deserialize<'de> for Whatever {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Whatever;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("anything") }
            fn visit_unit<E>(self) -> Result<Whatever, E> { Ok(Whatever) }
            fn visit_none<E>(self) -> Result<Whatever, E> { Ok(Whatever) }
            fn visit_bool<E>(self, _: bool) -> Result<Whatever, E> { Ok(Whatever) }
            fn visit_u64<E>(self, _: u64) -> Result<Whatever, E> { Ok(Whatever) }
            fn visit_i64<E>(self, _: i64) -> Result<Whatever, E> { Ok(Whatever) }
            fn visit_str<E>(self, _: &str) -> Result<Whatever, E> { Ok(Whatever) }
            fn visit_bytes<E>(self, _: &[u8]) -> Result<Whatever, E> { Ok(Whatever) }
        }
        d.deserialize_any(V)
    }
}
macro_rules! dec {
    ($($m:ident $t:ty;)*) => { $(
        pub mod $m {
            #[allow(unused_imports)]
            use super::*;
            pub fn de(r: &mut Src) -> Result<$t, dlhn::de::Error> { <$t>::deserialize(&mut Deserializer::new(r)) }
        }
    )* };
}
dec! { d_i128 i128; d_u128 u128; d_any Whatever; d_ignored IgnoredAny; d_unit_any ((), Whatever); d_new_any Wrapped<Whatever>; d_new_ignored Wrapped<IgnoredAny>; z_units Vec<()>; z_map BTreeMap<String, ()>; }
#[derive(Deserialize)]
pub struct Wrapped<T>(T);

/// what a codec says about being human-readable
pub struct Hr(pub bool);
impl Serialize for Hr {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { let h = s.is_human_readable(); s.serialize_bool(h) }
}
impl<'de> Deserialize<'de> for Hr {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { Ok(Hr(d.is_human_readable())) }
}
#[derive(Serialize, Deserialize)]
pub struct HrS { a: Hr, b: Hr }
#[derive(Serialize, Deserialize)]
pub struct HrN(Hr);
#[derive(Serialize, Deserialize)]
pub enum HrE { N(Hr), T(Hr, Hr), S { a: Hr, b: Hr } }

macro_rules! hr {
    ($($m:ident $t:ty, $v:expr, $p:pat => $e:expr;)*) => { $(
        pub mod $m {
            #[allow(unused_imports)]
            use super::*;
            pub fn ser(w: &mut Sink) -> SR { Serialize::serialize(&$v, &mut Serializer::new(w)) }
            pub fn de(r: &mut Src) -> Result<bool, dlhn::de::Error> {
                let x = <$t as Deserialize>::deserialize(&mut Deserializer::new(r))?;
                match x { $p => Ok($e), #[allow(unreachable_patterns)] _ => Ok(false) }
            }
        }
    )* };
}
const Y: bool = false;
hr! {
    hr_plain Hr, Hr(Y), x => x.0;
    hr_option Option<Hr>, Some(Hr(Y)), Some(x) => x.0;
    hr_tuple (Hr, Hr), (Hr(Y), Hr(Y)), (x, y) => x.0 | y.0;
    hr_array [Hr; 2], [Hr(Y), Hr(Y)], [x, y] => x.0 | y.0;
    hr_struct HrS, HrS { a: Hr(Y), b: Hr(Y) }, x => x.a.0 | x.b.0;
    hr_newtype HrN, HrN(Hr(Y)), x => x.0.0;
    hr_vn HrE, HrE::N(Hr(Y)), HrE::N(x) => x.0;
    hr_vt HrE, HrE::T(Hr(Y), Hr(Y)), HrE::T(x, y) => x.0 | y.0;
    hr_vs HrE, HrE::S { a: Hr(Y), b: Hr(Y) }, HrE::S { a, b } => a.0 | b.0;
}
pub mod hr_seq { use super::*; pub fn ser(v: &Vec<Tk>, w: &mut Sink) -> SR {
    use serde::ser::SerializeSeq;
    let mut s = Serializer::new(w); let mut q = (&mut s).serialize_seq(Some(1))?; q.serialize_element(&Hr(Y))?; q.end() } }
pub mod hr_map { use super::*; pub fn ser(v: &Vec<Tk>, w: &mut Sink) -> SR {
    use serde::ser::SerializeMap;
    let mut s = Serializer::new(w); let mut q = (&mut s).serialize_map(Some(1))?; q.serialize_entry("", &Hr(Y))?; q.end() } }
