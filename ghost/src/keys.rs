//! Map keys of every kind.
use crate::stub::*;
use dlhn::Serializer;
use serde::ser::{SerializeMap, Serializer as _};
use serde::Serialize;
use std::collections::{BTreeMap, HashMap};

macro_rules! keys {
    ($($m:ident $t:ty;)*) => { $(
        pub mod $m {
            #[allow(unused_imports)]
            use super::*;
            /// one key, written through serialize_key
            pub fn ser(v: &$t, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
                let mut s = Serializer::new(w);
                let mut m = (&mut s).serialize_map(Some(1))?;
                m.serialize_key(v)
            }
            pub mod entry {
                #[allow(unused_imports)]
                use super::super::*;
                /// one key, written through serialize_entry
                pub fn ser(v: &$t, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
                    let mut s = Serializer::new(w);
                    let mut m = (&mut s).serialize_map(Some(1))?;
                    m.serialize_entry(v, &())
                }
            }
        }
    )* };
}

#[derive(Serialize)]
pub struct UnitS;
#[derive(Serialize)]
pub struct New(String);
#[derive(Serialize)]
pub struct NewTk(Tk);
#[derive(Serialize)]
pub struct TupS(String, u8);
#[derive(Serialize)]
pub struct Named { a: String }
#[derive(Serialize)]
pub enum En { U, N(String), T(String, u8), S { a: String } }
#[derive(Serialize)]
#[serde(transparent)]
pub struct Trans { a: String }

/// textual form for human-readable formats, binary form otherwise
pub struct Human(u8);
impl Serialize for Human {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if s.is_human_readable() { s.serialize_str("h") } else { s.serialize_u8(self.0) }
    }
}
/// a type that asks for a sequence, a map, ... of unknown length
pub struct SeqNone;
impl Serialize for SeqNone {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        serde::ser::SerializeSeq::end(s.serialize_seq(None)?)
    }
}
pub struct MapNone;
impl Serialize for MapNone {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        SerializeMap::end(s.serialize_map(None)?)
    }
}

keys! {
    k_string String; k_str &'static str; k_boxstr Box<str>; k_trans Trans;
    k_bool bool; k_i8 i8; k_i16 i16; k_i32 i32; k_i64 i64; k_u8 u8; k_u16 u16; k_u32 u32; k_u64 u64; k_usize usize; k_f32 f32; k_f64 f64;
    k_char char; k_bytebuf serde_bytes::ByteBuf;
    k_option Option<String>; k_optunit Option<()>; k_unit (); k_units UnitS; k_new New; k_newtk NewTk; k_enum En; k_vec Vec<u8>;
    k_tuple (String,); k_tuple2 (u8, String); k_array [u8; 2]; k_array0 [u8; 0]; k_tuples TupS; k_map BTreeMap<String, u8>; k_struct Named;
    k_human Human; k_seqnone SeqNone; k_mapnone MapNone; k_result Result<String, String>;
}
keys! { w_i128 i128; w_u128 u128; }

/// whole maps
macro_rules! maps {
    ($($m:ident $t:ty;)*) => { $(
        pub mod $m {
            #[allow(unused_imports)]
            use super::*;
            pub fn ser(v: &$t, w: &mut Sink) -> Result<(), dlhn::ser::Error> { v.serialize(&mut Serializer::new(w)) }
        }
    )* };
}
maps! {
    m_u8 BTreeMap<u8, Tk>; m_u64 HashMap<u64, Tk>; m_bool BTreeMap<bool, Tk>; m_char BTreeMap<char, Tk>; m_unit BTreeMap<(), Tk>;
    m_hashi32 HashMap<i32, Tk>;
}
