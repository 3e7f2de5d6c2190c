//! The count of fields or variants as the derive writes it, for every count.
use crate::stub::*;
#[path = "/repo/dlhn_derive/src/prefix_varint.rs"]
#[allow(dead_code)]
mod prefix_varint;
use prefix_varint::PrefixVarint;

pub mod count {
    use super::*;
    pub fn ser(v: &u16, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        use std::io::Write;
        w.write_all(&(*v).encode_prefix_varint_vec()).map_err(|_| dlhn::ser::Error::Write)
    }
}

macro_rules! x4 { ([$($t:tt)*] $($k:ident)*) => { dup! { [$($t)* $($t)* $($t)* $($t)*] $($k)* } }; }
macro_rules! dup {
    ([$($t:tt)*] x $($k:ident)*) => { x4! { [$($t)*] $($k)* } };
    ([$($t:tt)*]) => {
        #[derive(dlhn::SerializeHeader)]
        pub struct Fields($($t)*);
    };
}
dup! { [(),] x x x x x x x }
pub mod fields {
    use super::*;
    pub fn ser(w: &mut Sink) -> std::io::Result<()> {
        <Fields as dlhn::SerializeHeader>::serialize_header(w)
    }
}
