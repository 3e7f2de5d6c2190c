// @generated by engine/derived.py
//! Type definitions that derive both the header and serialization.
use crate::stub::*;
use dlhn::{SerializeHeader, Serializer};
use serde::Serialize;

pub mod named0_ {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D {  }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod tuple0_ {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D();
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod named1_n {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { pub f0: Tk }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod tuple1_n {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(pub u16);
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod named1_s {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { #[serde(skip)] pub f0: u16 }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod tuple1_s {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(#[serde(skip)] pub Option<Tk>);
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod named1_z {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { #[serde(skip_serializing)] pub f0: Option<Tk> }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod tuple1_z {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(#[serde(skip_serializing)] pub (Tk, u8));
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod named2_nn {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { pub f0: Tk, pub f1: u16 }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod tuple2_nn {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(pub u16, pub Option<Tk>);
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod named2_ns {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { pub f0: u16, #[serde(skip)] pub f1: Option<Tk> }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod tuple2_ns {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(pub Option<Tk>, #[serde(skip)] pub (Tk, u8));
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod named2_nz {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { pub f0: Option<Tk>, #[serde(skip_serializing)] pub f1: (Tk, u8) }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod tuple2_nz {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(pub (Tk, u8), #[serde(skip_serializing)] pub bool);
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod named2_sn {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { #[serde(skip)] pub f0: (Tk, u8), pub f1: bool }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod tuple2_sn {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(#[serde(skip)] pub bool, pub Vec<Tk>);
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod named2_ss {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { #[serde(skip)] pub f0: bool, #[serde(skip)] pub f1: Vec<Tk> }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod tuple2_ss {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(#[serde(skip)] pub Vec<Tk>, #[serde(skip)] pub i32);
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod named2_sz {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { #[serde(skip)] pub f0: Vec<Tk>, #[serde(skip_serializing)] pub f1: i32 }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod tuple2_sz {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(#[serde(skip)] pub i32, #[serde(skip_serializing)] pub Tk);
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod named2_zn {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { #[serde(skip_serializing)] pub f0: i32, pub f1: Tk }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod tuple2_zn {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(#[serde(skip_serializing)] pub Tk, pub u16);
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod named2_zs {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { #[serde(skip_serializing)] pub f0: Tk, #[serde(skip)] pub f1: u16 }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod tuple2_zs {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(#[serde(skip_serializing)] pub u16, #[serde(skip)] pub Option<Tk>);
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod named2_zz {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { #[serde(skip_serializing)] pub f0: u16, #[serde(skip_serializing)] pub f1: Option<Tk> }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod tuple2_zz {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(#[serde(skip_serializing)] pub Option<Tk>, #[serde(skip_serializing)] pub (Tk, u8));
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod named3_nnn {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { pub f0: Tk, pub f1: u16, pub f2: Option<Tk> }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod tuple3_nnn {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(pub u16, pub Option<Tk>, pub (Tk, u8));
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod named3_nns {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { pub f0: u16, pub f1: Option<Tk>, #[serde(skip)] pub f2: (Tk, u8) }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod tuple3_nns {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(pub Option<Tk>, pub (Tk, u8), #[serde(skip)] pub bool);
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod named3_nnz {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { pub f0: Option<Tk>, pub f1: (Tk, u8), #[serde(skip_serializing)] pub f2: bool }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod tuple3_nnz {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(pub (Tk, u8), pub bool, #[serde(skip_serializing)] pub Vec<Tk>);
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod named3_nsn {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { pub f0: (Tk, u8), #[serde(skip)] pub f1: bool, pub f2: Vec<Tk> }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod tuple3_nsn {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(pub bool, #[serde(skip)] pub Vec<Tk>, pub i32);
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod named3_nss {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { pub f0: bool, #[serde(skip)] pub f1: Vec<Tk>, #[serde(skip)] pub f2: i32 }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod tuple3_nss {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(pub Vec<Tk>, #[serde(skip)] pub i32, #[serde(skip)] pub Tk);
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod named3_nsz {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { pub f0: Vec<Tk>, #[serde(skip)] pub f1: i32, #[serde(skip_serializing)] pub f2: Tk }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod tuple3_nsz {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(pub i32, #[serde(skip)] pub Tk, #[serde(skip_serializing)] pub u16);
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod named3_nzn {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { pub f0: i32, #[serde(skip_serializing)] pub f1: Tk, pub f2: u16 }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod tuple3_nzn {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(pub Tk, #[serde(skip_serializing)] pub u16, pub Option<Tk>);
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod named3_nzs {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { pub f0: Tk, #[serde(skip_serializing)] pub f1: u16, #[serde(skip)] pub f2: Option<Tk> }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod tuple3_nzs {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(pub u16, #[serde(skip_serializing)] pub Option<Tk>, #[serde(skip)] pub (Tk, u8));
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod named3_nzz {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { pub f0: u16, #[serde(skip_serializing)] pub f1: Option<Tk>, #[serde(skip_serializing)] pub f2: (Tk, u8) }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod tuple3_nzz {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(pub Option<Tk>, #[serde(skip_serializing)] pub (Tk, u8), #[serde(skip_serializing)] pub bool);
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod named3_snn {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { #[serde(skip)] pub f0: Option<Tk>, pub f1: (Tk, u8), pub f2: bool }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod tuple3_snn {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(#[serde(skip)] pub (Tk, u8), pub bool, pub Vec<Tk>);
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod named3_sns {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { #[serde(skip)] pub f0: (Tk, u8), pub f1: bool, #[serde(skip)] pub f2: Vec<Tk> }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod tuple3_sns {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(#[serde(skip)] pub bool, pub Vec<Tk>, #[serde(skip)] pub i32);
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod named3_snz {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { #[serde(skip)] pub f0: bool, pub f1: Vec<Tk>, #[serde(skip_serializing)] pub f2: i32 }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod tuple3_snz {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(#[serde(skip)] pub Vec<Tk>, pub i32, #[serde(skip_serializing)] pub Tk);
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod named3_ssn {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { #[serde(skip)] pub f0: Vec<Tk>, #[serde(skip)] pub f1: i32, pub f2: Tk }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod tuple3_ssn {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(#[serde(skip)] pub i32, #[serde(skip)] pub Tk, pub u16);
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod named3_sss {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { #[serde(skip)] pub f0: i32, #[serde(skip)] pub f1: Tk, #[serde(skip)] pub f2: u16 }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod tuple3_sss {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(#[serde(skip)] pub Tk, #[serde(skip)] pub u16, #[serde(skip)] pub Option<Tk>);
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod named3_ssz {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { #[serde(skip)] pub f0: Tk, #[serde(skip)] pub f1: u16, #[serde(skip_serializing)] pub f2: Option<Tk> }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod tuple3_ssz {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(#[serde(skip)] pub u16, #[serde(skip)] pub Option<Tk>, #[serde(skip_serializing)] pub (Tk, u8));
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod named3_szn {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { #[serde(skip)] pub f0: u16, #[serde(skip_serializing)] pub f1: Option<Tk>, pub f2: (Tk, u8) }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod tuple3_szn {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(#[serde(skip)] pub Option<Tk>, #[serde(skip_serializing)] pub (Tk, u8), pub bool);
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod named3_szs {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { #[serde(skip)] pub f0: Option<Tk>, #[serde(skip_serializing)] pub f1: (Tk, u8), #[serde(skip)] pub f2: bool }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod tuple3_szs {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(#[serde(skip)] pub (Tk, u8), #[serde(skip_serializing)] pub bool, #[serde(skip)] pub Vec<Tk>);
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod named3_szz {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { #[serde(skip)] pub f0: (Tk, u8), #[serde(skip_serializing)] pub f1: bool, #[serde(skip_serializing)] pub f2: Vec<Tk> }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod tuple3_szz {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(#[serde(skip)] pub bool, #[serde(skip_serializing)] pub Vec<Tk>, #[serde(skip_serializing)] pub i32);
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod named3_znn {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { #[serde(skip_serializing)] pub f0: bool, pub f1: Vec<Tk>, pub f2: i32 }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod tuple3_znn {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(#[serde(skip_serializing)] pub Vec<Tk>, pub i32, pub Tk);
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod named3_zns {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { #[serde(skip_serializing)] pub f0: Vec<Tk>, pub f1: i32, #[serde(skip)] pub f2: Tk }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod tuple3_zns {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(#[serde(skip_serializing)] pub i32, pub Tk, #[serde(skip)] pub u16);
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod named3_znz {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { #[serde(skip_serializing)] pub f0: i32, pub f1: Tk, #[serde(skip_serializing)] pub f2: u16 }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod tuple3_znz {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(#[serde(skip_serializing)] pub Tk, pub u16, #[serde(skip_serializing)] pub Option<Tk>);
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod named3_zsn {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { #[serde(skip_serializing)] pub f0: Tk, #[serde(skip)] pub f1: u16, pub f2: Option<Tk> }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod tuple3_zsn {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(#[serde(skip_serializing)] pub u16, #[serde(skip)] pub Option<Tk>, pub (Tk, u8));
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod named3_zss {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { #[serde(skip_serializing)] pub f0: u16, #[serde(skip)] pub f1: Option<Tk>, #[serde(skip)] pub f2: (Tk, u8) }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod tuple3_zss {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(#[serde(skip_serializing)] pub Option<Tk>, #[serde(skip)] pub (Tk, u8), #[serde(skip)] pub bool);
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod named3_zsz {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { #[serde(skip_serializing)] pub f0: Option<Tk>, #[serde(skip)] pub f1: (Tk, u8), #[serde(skip_serializing)] pub f2: bool }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod tuple3_zsz {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(#[serde(skip_serializing)] pub (Tk, u8), #[serde(skip)] pub bool, #[serde(skip_serializing)] pub Vec<Tk>);
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod named3_zzn {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { #[serde(skip_serializing)] pub f0: (Tk, u8), #[serde(skip_serializing)] pub f1: bool, pub f2: Vec<Tk> }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod tuple3_zzn {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(#[serde(skip_serializing)] pub bool, #[serde(skip_serializing)] pub Vec<Tk>, pub i32);
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod named3_zzs {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { #[serde(skip_serializing)] pub f0: bool, #[serde(skip_serializing)] pub f1: Vec<Tk>, #[serde(skip)] pub f2: i32 }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod tuple3_zzs {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(#[serde(skip_serializing)] pub Vec<Tk>, #[serde(skip_serializing)] pub i32, #[serde(skip)] pub Tk);
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod named3_zzz {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { #[serde(skip_serializing)] pub f0: Vec<Tk>, #[serde(skip_serializing)] pub f1: i32, #[serde(skip_serializing)] pub f2: Tk }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod tuple3_zzz {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(#[serde(skip_serializing)] pub i32, #[serde(skip_serializing)] pub Tk, #[serde(skip_serializing)] pub u16);
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod unit {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D;
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod enum_named0 {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub enum D { V0 {  }, V1 }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod enum_named1 {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub enum D { V0 { f0: u16 }, V1, V2 { #[serde(skip)] f0: Option<Tk> }, V3 { #[serde(skip_serializing)] f0: (Tk, u8) } }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod enum_named2 {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub enum D { V0 { f0: Option<Tk>, f1: (Tk, u8) }, V1, V2 { f0: (Tk, u8), #[serde(skip)] f1: bool }, V3 { f0: bool, #[serde(skip_serializing)] f1: Vec<Tk> }, V4 { #[serde(skip)] f0: Vec<Tk>, f1: i32 }, V5 { #[serde(skip)] f0: i32, #[serde(skip)] f1: Tk }, V6, V7 { #[serde(skip)] f0: Tk, #[serde(skip_serializing)] f1: u16 }, V8 { #[serde(skip_serializing)] f0: u16, f1: Option<Tk> }, V9 { #[serde(skip_serializing)] f0: Option<Tk>, #[serde(skip)] f1: (Tk, u8) }, V10 { #[serde(skip_serializing)] f0: (Tk, u8), #[serde(skip_serializing)] f1: bool }, V11 }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod enum_named3 {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub enum D { V0 { f0: (Tk, u8), f1: bool, f2: Vec<Tk> }, V1, V2 { f0: bool, f1: Vec<Tk>, #[serde(skip)] f2: i32 }, V3 { f0: Vec<Tk>, f1: i32, #[serde(skip_serializing)] f2: Tk }, V4 { f0: i32, #[serde(skip)] f1: Tk, f2: u16 }, V5 { f0: Tk, #[serde(skip)] f1: u16, #[serde(skip)] f2: Option<Tk> }, V6, V7 { f0: u16, #[serde(skip)] f1: Option<Tk>, #[serde(skip_serializing)] f2: (Tk, u8) }, V8 { f0: Option<Tk>, #[serde(skip_serializing)] f1: (Tk, u8), f2: bool }, V9 { f0: (Tk, u8), #[serde(skip_serializing)] f1: bool, #[serde(skip)] f2: Vec<Tk> }, V10 { f0: bool, #[serde(skip_serializing)] f1: Vec<Tk>, #[serde(skip_serializing)] f2: i32 }, V11, V12 { #[serde(skip)] f0: Vec<Tk>, f1: i32, f2: Tk }, V13 { #[serde(skip)] f0: i32, f1: Tk, #[serde(skip)] f2: u16 }, V14 { #[serde(skip)] f0: Tk, f1: u16, #[serde(skip_serializing)] f2: Option<Tk> }, V15 { #[serde(skip)] f0: u16, #[serde(skip)] f1: Option<Tk>, f2: (Tk, u8) }, V16, V17 { #[serde(skip)] f0: Option<Tk>, #[serde(skip)] f1: (Tk, u8), #[serde(skip)] f2: bool }, V18 { #[serde(skip)] f0: (Tk, u8), #[serde(skip)] f1: bool, #[serde(skip_serializing)] f2: Vec<Tk> }, V19 { #[serde(skip)] f0: bool, #[serde(skip_serializing)] f1: Vec<Tk>, f2: i32 }, V20 { #[serde(skip)] f0: Vec<Tk>, #[serde(skip_serializing)] f1: i32, #[serde(skip)] f2: Tk }, V21, V22 { #[serde(skip)] f0: i32, #[serde(skip_serializing)] f1: Tk, #[serde(skip_serializing)] f2: u16 }, V23 { #[serde(skip_serializing)] f0: Tk, f1: u16, f2: Option<Tk> }, V24 { #[serde(skip_serializing)] f0: u16, f1: Option<Tk>, #[serde(skip)] f2: (Tk, u8) }, V25 { #[serde(skip_serializing)] f0: Option<Tk>, f1: (Tk, u8), #[serde(skip_serializing)] f2: bool }, V26, V27 { #[serde(skip_serializing)] f0: (Tk, u8), #[serde(skip)] f1: bool, f2: Vec<Tk> }, V28 { #[serde(skip_serializing)] f0: bool, #[serde(skip)] f1: Vec<Tk>, #[serde(skip)] f2: i32 }, V29 { #[serde(skip_serializing)] f0: Vec<Tk>, #[serde(skip)] f1: i32, #[serde(skip_serializing)] f2: Tk }, V30 { #[serde(skip_serializing)] f0: i32, #[serde(skip_serializing)] f1: Tk, f2: u16 }, V31, V32 { #[serde(skip_serializing)] f0: Tk, #[serde(skip_serializing)] f1: u16, #[serde(skip)] f2: Option<Tk> }, V33 { #[serde(skip_serializing)] f0: u16, #[serde(skip_serializing)] f1: Option<Tk>, #[serde(skip_serializing)] f2: (Tk, u8) } }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod enum_tuple0 {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub enum D { V0(), V1 }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod enum_tuple1 {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub enum D { V0(u16), V1, V2(#[serde(skip)] Option<Tk>), V3(#[serde(skip_serializing)] (Tk, u8)) }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod enum_tuple2 {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub enum D { V0(Option<Tk>, (Tk, u8)), V1, V2((Tk, u8), #[serde(skip)] bool), V3(bool, #[serde(skip_serializing)] Vec<Tk>), V4(#[serde(skip)] Vec<Tk>, i32), V5(#[serde(skip)] i32, #[serde(skip)] Tk), V6, V7(#[serde(skip)] Tk, #[serde(skip_serializing)] u16), V8(#[serde(skip_serializing)] u16, Option<Tk>), V9(#[serde(skip_serializing)] Option<Tk>, #[serde(skip)] (Tk, u8)), V10(#[serde(skip_serializing)] (Tk, u8), #[serde(skip_serializing)] bool), V11 }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod enum_tuple3 {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub enum D { V0((Tk, u8), bool, Vec<Tk>), V1, V2(bool, Vec<Tk>, #[serde(skip)] i32), V3(Vec<Tk>, i32, #[serde(skip_serializing)] Tk), V4(i32, #[serde(skip)] Tk, u16), V5(Tk, #[serde(skip)] u16, #[serde(skip)] Option<Tk>), V6, V7(u16, #[serde(skip)] Option<Tk>, #[serde(skip_serializing)] (Tk, u8)), V8(Option<Tk>, #[serde(skip_serializing)] (Tk, u8), bool), V9((Tk, u8), #[serde(skip_serializing)] bool, #[serde(skip)] Vec<Tk>), V10(bool, #[serde(skip_serializing)] Vec<Tk>, #[serde(skip_serializing)] i32), V11, V12(#[serde(skip)] Vec<Tk>, i32, Tk), V13(#[serde(skip)] i32, Tk, #[serde(skip)] u16), V14(#[serde(skip)] Tk, u16, #[serde(skip_serializing)] Option<Tk>), V15(#[serde(skip)] u16, #[serde(skip)] Option<Tk>, (Tk, u8)), V16, V17(#[serde(skip)] Option<Tk>, #[serde(skip)] (Tk, u8), #[serde(skip)] bool), V18(#[serde(skip)] (Tk, u8), #[serde(skip)] bool, #[serde(skip_serializing)] Vec<Tk>), V19(#[serde(skip)] bool, #[serde(skip_serializing)] Vec<Tk>, i32), V20(#[serde(skip)] Vec<Tk>, #[serde(skip_serializing)] i32, #[serde(skip)] Tk), V21, V22(#[serde(skip)] i32, #[serde(skip_serializing)] Tk, #[serde(skip_serializing)] u16), V23(#[serde(skip_serializing)] Tk, u16, Option<Tk>), V24(#[serde(skip_serializing)] u16, Option<Tk>, #[serde(skip)] (Tk, u8)), V25(#[serde(skip_serializing)] Option<Tk>, (Tk, u8), #[serde(skip_serializing)] bool), V26, V27(#[serde(skip_serializing)] (Tk, u8), #[serde(skip)] bool, Vec<Tk>), V28(#[serde(skip_serializing)] bool, #[serde(skip)] Vec<Tk>, #[serde(skip)] i32), V29(#[serde(skip_serializing)] Vec<Tk>, #[serde(skip)] i32, #[serde(skip_serializing)] Tk), V30(#[serde(skip_serializing)] i32, #[serde(skip_serializing)] Tk, u16), V31, V32(#[serde(skip_serializing)] Tk, #[serde(skip_serializing)] u16, #[serde(skip)] Option<Tk>), V33(#[serde(skip_serializing)] u16, #[serde(skip_serializing)] Option<Tk>, #[serde(skip_serializing)] (Tk, u8)) }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod enum_mixed {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub enum D { V0, V1(Tk), V2(u16, Option<Tk>), V3 { f0: Option<Tk> }, V4 { f0: (Tk, u8), f1: bool, f2: Vec<Tk>, f3: i32 }, V5(Tk, u8, Tk, bool, Tk), V6 }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod enum_one {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub enum D { V0(Tk) }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod enum_disc {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    #[repr(u8)] pub enum D { V0 = 7, V1 = 3, V2 = 200 }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod skipped0 {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { pub f0: Tk, #[serde(skip, default)] pub f1: u16, pub f2: bool }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod skipped0_tuple {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(pub Tk, #[serde(skip)] pub u16, pub bool);
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod skipped1 {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { pub f0: Tk, #[serde(default, skip_serializing)] pub f1: u16, pub f2: bool }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod skipped1_tuple {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(pub Tk, #[serde(skip_serializing)] pub u16, pub bool);
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod skipped2 {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { pub f0: Tk, #[serde(rename = "q")] #[serde(skip)] pub f1: u16, pub f2: bool }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod skipped2_tuple {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(pub Tk, #[serde(skip)] pub u16, pub bool);
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod skipped3 {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { pub f0: Tk, #[serde(skip)] #[doc = "x"] pub f1: u16, pub f2: bool }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod skipped3_tuple {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(pub Tk, #[serde(skip)] #[doc = "x"] pub u16, pub bool);
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod skipped4 {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { pub f0: Tk, #[serde(skip_serializing, skip_deserializing)] pub f1: u16, pub f2: bool }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod skipped4_tuple {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(pub Tk, #[serde(skip_serializing, skip_deserializing)] pub u16, pub bool);
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod skipped5 {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { pub f0: Tk, #[doc = "x"] #[serde(skip_deserializing)] #[serde(skip_serializing)] pub f1: u16, pub f2: bool }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod skipped5_tuple {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(pub Tk, #[doc = "x"] #[serde(skip_deserializing)] #[serde(skip_serializing)] pub u16, pub bool);
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod skipped6 {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { pub f0: Tk, #[serde(skip_serializing, alias = "w")] pub f1: u16, pub f2: bool }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod skipped6_tuple {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D(pub Tk, #[serde(skip_serializing)] pub u16, pub bool);
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod skipped_enum {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub enum D { V0 { f0: Tk, #[serde(skip, default)] f1: u16, f2: bool }, V1 { f0: Tk, #[serde(default, skip_serializing)] f1: u16, f2: bool }, V2 { f0: Tk, #[serde(rename = "q")] #[serde(skip)] f1: u16, f2: bool }, V3 { f0: Tk, #[serde(skip)] #[doc = "x"] f1: u16, f2: bool }, V4 { f0: Tk, #[serde(skip_serializing, skip_deserializing)] f1: u16, f2: bool }, V5 { f0: Tk, #[doc = "x"] #[serde(skip_deserializing)] #[serde(skip_serializing)] f1: u16, f2: bool }, V6 { f0: Tk, #[serde(skip_serializing, alias = "w")] f1: u16, f2: bool } }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod kept0 {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { pub f0: Tk, #[serde(skip_deserializing)] pub f1: u16, pub f2: bool }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod kept1 {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { pub f0: Tk, #[serde(default)] pub f1: u16, pub f2: bool }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod kept2 {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { pub f0: Tk, #[serde(rename = "skip")] pub f1: u16, pub f2: bool }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod kept3 {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { pub f0: Tk, #[serde(alias = "skip_serializing")] pub f1: u16, pub f2: bool }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod kept4 {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { pub f0: Tk, #[doc = "skip"] pub f1: u16, pub f2: bool }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod kept5 {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { pub f0: Tk, #[doc(alias = "skip")] pub f1: u16, pub f2: bool }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod kept6 {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { pub f0: Tk, #[cfg(all())] pub f1: u16, pub f2: bool }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod kept7 {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { pub f0: Tk, #[allow(unused)] pub f1: u16, pub f2: bool }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod kept_enum {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub enum D { V0 { f0: Tk, #[serde(skip_deserializing)] f1: u16 }, V1 { f0: Tk, #[serde(default)] f1: u16 }, V2 { f0: Tk, #[serde(rename = "skip")] f1: u16 }, V3 { f0: Tk, #[serde(alias = "skip_serializing")] f1: u16 }, V4 { f0: Tk, #[doc = "skip"] f1: u16 }, V5 { f0: Tk, #[doc(alias = "skip")] f1: u16 }, V6 { f0: Tk, #[cfg(all())] f1: u16 }, V7 { f0: Tk, #[allow(unused)] f1: u16 }, #[serde(skip_deserializing)] V8(Tk), #[serde(rename = "skip")] V9(Option<Tk>), #[serde(alias = "skip_serializing")] V10((Tk, u8)), #[doc = "skip"] V11(bool), #[doc(alias = "skip")] V12(Vec<Tk>), #[cfg(all())] V13(i32), #[allow(unused)] V14(Tk) }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod container0 {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    #[serde(rename = "skip")] pub struct D { pub f0: Tk, #[serde(skip)] pub f1: u16, pub f2: Option<Tk> }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod container0_enum {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    #[serde(rename = "skip")] pub enum D { V0 { f0: Tk, #[serde(skip)] f1: u16, f2: Option<Tk> }, V1 }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod container1 {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    #[serde(rename_all = "camelCase")] pub struct D { pub f0: Tk, #[serde(skip)] pub f1: u16, pub f2: Option<Tk> }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod container1_enum {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    #[serde(rename_all = "camelCase")] pub enum D { V0 { f0: Tk, #[serde(skip)] f1: u16, f2: Option<Tk> }, V1 }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod container2 {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    #[serde(deny_unknown_fields)] pub struct D { pub f0: Tk, #[serde(skip)] pub f1: u16, pub f2: Option<Tk> }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod container2_enum {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    #[serde(deny_unknown_fields)] pub enum D { V0 { f0: Tk, #[serde(skip)] f1: u16, f2: Option<Tk> }, V1 }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod container3 {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    #[doc = "skip"] pub struct D { pub f0: Tk, #[serde(skip)] pub f1: u16, pub f2: Option<Tk> }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod container3_enum {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    #[doc = "skip"] pub enum D { V0 { f0: Tk, #[serde(skip)] f1: u16, f2: Option<Tk> }, V1 }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod transparent {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    #[serde(transparent)] pub struct D { pub f0: Tk }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod transparent_skip {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    #[serde(transparent)] pub struct D { #[serde(skip)] pub f0: Tk, pub f1: u16 }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod transparent_tuple {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    #[serde(transparent)] pub struct D(pub Tk, #[serde(skip)] pub u16);
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod other_types {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { #[serde(skip)] pub f0: Tk, pub f1: i64, pub f2: f64, pub f3: String }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod adjacent_named {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    #[serde(tag = "t", content = "c")] pub enum D { V0, V1 { f0: Tk }, V2 { f0: u16, f1: Option<Tk> }, V3 { f0: Option<Tk>, #[serde(skip)] f1: (Tk, u8) }, V4 { #[serde(skip)] f0: (Tk, u8), f1: bool, #[serde(skip_serializing)] f2: Vec<Tk> }, V5 { #[serde(skip_serializing)] f0: bool }, V6 { f0: Vec<Tk>, f1: i32, f2: Tk }, V7(), #[serde(skip)] V8 }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod adjacent_tuple {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    #[serde(tag = "t", content = "c")] pub enum D { V0, V1(Tk), V2(u16, Option<Tk>), V3(Option<Tk>, #[serde(skip)] (Tk, u8)), V4(#[serde(skip)] (Tk, u8), bool, #[serde(skip_serializing)] Vec<Tk>), V5(#[serde(skip_serializing)] bool), V6(Vec<Tk>, i32, Tk), V7(), #[serde(skip)] V8 }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod adjacent_tag_last {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    #[serde(content = "tag")] #[serde(tag = "untagged")] pub enum D { V0(Tk), V1 }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod into_number {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    #[derive(Clone)] #[serde(into = "u32")] pub struct D { pub a: u16 } impl From<D> for u32 { fn from(d: D) -> Self { d.a as u32 + 100 } }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod into_tuple {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    #[derive(Clone)] #[serde(into = "(bool, u16, u8)")] pub struct D (pub u16, pub bool); impl From<D> for (bool, u16, u8) { fn from(d: D) -> Self { (d.1, d.0, 3) } }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod into_enum {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    #[derive(Clone)] #[serde(into = "Option<u8>")] pub enum D { A, B(u8) } impl From<D> for Option<u8> { fn from(d: D) -> Self { match d { D::A => None, D::B(x) => Some(x) } } }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod nested_struct {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct N1 { pub f0: (Tk, u8), #[serde(skip)] pub f1: bool, pub f2: Vec<Tk> }
    #[derive(Serialize, SerializeHeader)]
    pub struct N3(pub u16, pub Option<Tk>);
    #[derive(Serialize, SerializeHeader)]
    pub struct D { pub f0: N1, pub f1: Tk, #[serde(skip)] pub f2: N1, pub f3: N3 }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod nested_option {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct N1 { pub f0: (Tk, u8), #[serde(skip)] pub f1: bool, pub f2: Vec<Tk> }
    #[derive(Serialize, SerializeHeader)]
    pub enum N2 { V0, V1(Tk), V2 { f0: u16, #[serde(skip_serializing)] f1: Option<Tk>, f2: (Tk, u8) } }
    #[derive(Serialize, SerializeHeader)]
    pub struct D(pub Option<N1>, pub (N2, u8));
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod nested_enum {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct N1 { pub f0: (Tk, u8), #[serde(skip)] pub f1: bool, pub f2: Vec<Tk> }
    #[derive(Serialize, SerializeHeader)]
    pub enum N2 { V0, V1(Tk), V2 { f0: u16, #[serde(skip_serializing)] f1: Option<Tk>, f2: (Tk, u8) } }
    #[derive(Serialize, SerializeHeader)]
    pub struct N3(pub u16, pub Option<Tk>);
    #[derive(Serialize, SerializeHeader)]
    pub enum D { V0(N1), V1(N2, Tk), V2 { f0: N3, #[serde(skip)] f1: N2 } }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod many_fields {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub struct D { pub f0: u8, pub f1: u8, pub f2: u8, pub f3: u8, pub f4: u8, pub f5: u8, pub f6: u8, pub f7: u8, pub f8: u8, pub f9: u8, pub f10: u8, pub f11: u8, pub f12: u8, pub f13: u8, pub f14: u8, pub f15: u8, pub f16: u8, pub f17: u8, pub f18: u8, pub f19: u8, pub f20: u8, pub f21: u8, pub f22: u8, pub f23: u8, pub f24: u8, pub f25: u8, pub f26: u8, pub f27: u8, pub f28: u8, pub f29: u8, pub f30: u8, pub f31: u8, pub f32: u8, pub f33: u8, pub f34: u8, pub f35: u8, pub f36: u8, pub f37: u8, pub f38: u8, pub f39: u8, pub f40: u8, pub f41: u8, pub f42: u8, pub f43: u8, pub f44: u8, pub f45: u8, pub f46: u8, pub f47: u8, pub f48: u8, pub f49: u8, pub f50: u8, pub f51: u8, pub f52: u8, pub f53: u8, pub f54: u8, pub f55: u8, pub f56: u8, pub f57: u8, pub f58: u8, pub f59: u8, pub f60: u8, pub f61: u8, pub f62: u8, pub f63: u8, pub f64: u8, pub f65: u8, pub f66: u8, pub f67: u8, pub f68: u8, pub f69: u8, pub f70: u8, pub f71: u8, pub f72: u8, pub f73: u8, pub f74: u8, pub f75: u8, pub f76: u8, pub f77: u8, pub f78: u8, pub f79: u8, pub f80: u8, pub f81: u8, pub f82: u8, pub f83: u8, pub f84: u8, pub f85: u8, pub f86: u8, pub f87: u8, pub f88: u8, pub f89: u8, pub f90: u8, pub f91: u8, pub f92: u8, pub f93: u8, pub f94: u8, pub f95: u8, pub f96: u8, pub f97: u8, pub f98: u8, pub f99: u8, pub f100: u8, pub f101: u8, pub f102: u8, pub f103: u8, pub f104: u8, pub f105: u8, pub f106: u8, pub f107: u8, pub f108: u8, pub f109: u8, pub f110: u8, pub f111: u8, pub f112: u8, pub f113: u8, pub f114: u8, pub f115: u8, pub f116: u8, pub f117: u8, pub f118: u8, pub f119: u8, pub f120: u8, pub f121: u8, pub f122: u8, pub f123: u8, pub f124: u8, pub f125: u8, pub f126: u8, #[serde(skip)] pub f127: Tk, pub f128: bool, pub f129: Tk }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod many_variants {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub enum D { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130(Tk) }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod many_variant_fields {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub enum D { V0, V1(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8), V2 { f0: u8, f1: u8, f2: u8, f3: u8, f4: u8, f5: u8, f6: u8, f7: u8, f8: u8, f9: u8, f10: u8, f11: u8, f12: u8, f13: u8, f14: u8, f15: u8, f16: u8, f17: u8, f18: u8, f19: u8, f20: u8, f21: u8, f22: u8, f23: u8, f24: u8, f25: u8, f26: u8, f27: u8, f28: u8, f29: u8, f30: u8, f31: u8, f32: u8, f33: u8, f34: u8, f35: u8, f36: u8, f37: u8, f38: u8, f39: u8, f40: u8, f41: u8, f42: u8, f43: u8, f44: u8, f45: u8, f46: u8, f47: u8, f48: u8, f49: u8, f50: u8, f51: u8, f52: u8, f53: u8, f54: u8, f55: u8, f56: u8, f57: u8, f58: u8, f59: u8, f60: u8, f61: u8, f62: u8, f63: u8, f64: u8, f65: u8, f66: u8, f67: u8, f68: u8, f69: u8, f70: u8, f71: u8, f72: u8, f73: u8, f74: u8, f75: u8, f76: u8, f77: u8, f78: u8, f79: u8, f80: u8, f81: u8, f82: u8, f83: u8, f84: u8, f85: u8, f86: u8, f87: u8, f88: u8, f89: u8, f90: u8, f91: u8, f92: u8, f93: u8, f94: u8, f95: u8, f96: u8, f97: u8, f98: u8, f99: u8, f100: u8, f101: u8, f102: u8, f103: u8, f104: u8, f105: u8, f106: u8, f107: u8, f108: u8, f109: u8, f110: u8, f111: u8, f112: u8, f113: u8, f114: u8, f115: u8, f116: u8, f117: u8, f118: u8, f119: u8, f120: u8, f121: u8, f122: u8, f123: u8, f124: u8, f125: u8, f126: u8, f127: u8, f128: Tk } }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod variant_skip_last {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub enum D { V0, V1(Tk), #[serde(skip)] V2(u16) }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod variant_skip_serializing_last {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub enum D { V0(Tk, u16), #[serde(skip_serializing)] V1 { f0: Tk, f1: u16 } }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod variant_skip_deserializing {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub enum D { #[serde(skip_deserializing)] V0(Tk, u16), V1 { f0: Tk, f1: u16 } }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
pub mod variant_skip_middle {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Serialize, SerializeHeader)]
    pub enum D { V0(Tk), #[serde(skip)] V1, V2(u16) }
    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {
        v.serialize(&mut Serializer::new(w))
    }
    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {
        D::serialize_header(w)
    }
}
