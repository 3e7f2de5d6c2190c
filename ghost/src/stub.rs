//! Stand-ins for the outside world; the analyser gives them their meaning.
use std::io::{Read, Result, Write};

/// A writer: every call is intercepted by the analyser.
pub struct Sink(u8);
impl Write for Sink {
    fn write(&mut self, _buf: &[u8]) -> Result<usize> {
        unimplemented!()
    }
    fn flush(&mut self) -> Result<()> {
        unimplemented!()
    }
}

/// A reader: every call is intercepted by the analyser.
pub struct Src(u8);
impl Read for Src {
    fn read(&mut self, _buf: &mut [u8]) -> Result<usize> {
        unimplemented!()
    }
}

/// An arbitrary type that round-trips: the analyser treats its values as opaque tokens.
pub struct Tk(u64);
impl serde::Serialize for Tk {
    fn serialize<S: serde::Serializer>(&self, _s: S) -> std::result::Result<S::Ok, S::Error> {
        unimplemented!()
    }
}
impl<'de> serde::Deserialize<'de> for Tk {
    fn deserialize<D: serde::Deserializer<'de>>(_d: D) -> std::result::Result<Self, D::Error> {
        unimplemented!()
    }
}
impl dlhn::SerializeHeader for Tk {
    fn serialize_header<W: Write>(_w: &mut W) -> Result<()> {
        unimplemented!()
    }
}
