use crate::rt;
use crate::stub::*;
use serde::de::{self, EnumAccess, VariantAccess, Visitor};
use serde::ser::{SerializeMap, SerializeSeq, SerializeStructVariant, SerializeTupleVariant};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::collections::*;
use std::fmt;

#[derive(Serialize, Deserialize)]
pub struct Unit;
#[derive(Serialize, Deserialize)]
pub struct Newtype(Tk);
#[derive(Serialize, Deserialize)]
pub struct TupleStruct(Tk, Tk, Tk);
#[derive(Serialize, Deserialize)]
pub struct Empty {}
#[derive(Serialize, Deserialize)]
pub struct One {
    a: Tk,
}
#[derive(Serialize, Deserialize)]
pub struct Named {
    a: Tk,
    b: Tk,
    c: Tk,
    d: Tk,
    e: Tk,
}
#[derive(Serialize, Deserialize)]
pub enum Shapes {
    U,
    N(Tk),
    T(Tk, Tk),
    S { a: Tk, b: Tk, c: Tk },
    V,
}
#[derive(Serialize, Deserialize)]
pub struct Generic<T> {
    x: T,
    y: Option<T>,
    z: Vec<T>,
}
#[derive(Serialize, Deserialize)]
pub struct Borrowed<'a> {
    #[serde(skip)]
    _m: std::marker::PhantomData<&'a ()>,
    a: Tk,
}
#[derive(Serialize, Deserialize)]
pub enum Single {
    Only(Tk),
}
/// more variants than one varint byte can tell apart
#[derive(Serialize, Deserialize)]
pub enum Wide {
    V0, V1, V2, V3, V4, V5, V6, V7, V8, V9,
    V10, V11, V12, V13, V14, V15, V16, V17, V18, V19,
    V20, V21, V22, V23, V24, V25, V26, V27, V28, V29,
    V30, V31, V32, V33, V34, V35, V36, V37, V38, V39,
    V40, V41, V42, V43, V44, V45, V46, V47, V48, V49,
    V50, V51, V52, V53, V54, V55, V56, V57, V58, V59,
    V60, V61, V62, V63, V64, V65, V66, V67, V68, V69,
    V70, V71, V72, V73, V74, V75, V76, V77, V78, V79,
    V80, V81, V82, V83, V84, V85, V86, V87, V88, V89,
    V90, V91, V92, V93, V94, V95, V96, V97, V98, V99,
    V100, V101, V102, V103, V104, V105, V106, V107, V108, V109,
    V110, V111, V112, V113, V114, V115, V116, V117, V118, V119,
    V120, V121, V122, V123, V124, V125, V126, V127, V128, V129,
    V130, V131, V132, V133, V134, V135, V136, V137, V138, V139,
    V140, V141, V142, V143, V144, V145, V146, V147, V148, V149,
    V150, V151, V152, V153, V154, V155, V156, V157, V158, V159,
    V160, V161, V162, V163, V164, V165, V166, V167, V168, V169,
    V170, V171, V172, V173, V174, V175, V176, V177, V178, V179,
    V180, V181, V182, V183, V184, V185, V186, V187, V188, V189,
    V190, V191, V192, V193, V194, V195, V196, V197, V198, V199,
    Last(Tk),
}
#[derive(Serialize, Deserialize)]
pub struct Mixed {
    a: bool,
    b: u8,
    f: f32,
    j: (Tk, i8),
    i: Option<u16>,
    h: String,
    k: f64,
}
#[derive(Serialize, Deserialize)]
pub struct Mixed2 {
    c: u16,
    g: char,
    d: i16,
}
#[derive(Serialize, Deserialize)]
pub enum Kinds {
    A(u32),
    B { s: String, n: Option<u16> },
    C(Box<Kinds2>),
    D(i64, bool),
    E([u16; 2]),
}
#[derive(Serialize, Deserialize)]
pub enum Kinds2 {
    X,
    Y(u8),
}
#[derive(Serialize, Deserialize)]
#[serde(transparent)]
pub struct Transparent {
    inner: Tk,
}
rt! {
    t_mixed Mixed;
    t_mixed2 Mixed2;
    t_kinds Kinds;
    t_transparent Transparent;
    t_arru16 [u16; 2];
    t_vectuple Vec<(u8, Tk)>;
    t_optstring Option<String>;
    t_resstring Result<String, u32>;
    t_range std::ops::Range<Tk>;
    t_nested ((Tk, (Tk,)), [(u8, Tk); 2], Option<Box<(Tk, bool)>>);
    t_single Single;
    t_wide Wide;
    t_option Option<Tk>;
    t_option2 Option<Option<Tk>>;
    t_vec Vec<Tk>;
    t_vecu8 Vec<u8>;
    t_box Box<Tk>;
    t_tuple1 (Tk,);
    t_tuple2 (Tk, Tk);
    t_tuple4 (Tk, Tk, Tk, Tk);
    t_tuple16 (Tk, Tk, Tk, Tk, Tk, Tk, Tk, Tk, Tk, Tk, Tk, Tk, Tk, Tk, Tk, Tk);
    t_array0 [Tk; 0];
    t_array1 [Tk; 1];
    t_array3 [Tk; 3];
    t_array32 [Tk; 32];
    t_unit Unit;
    t_newtype Newtype;
    t_tuplestruct TupleStruct;
    t_empty Empty;
    t_one One;
    t_named Named;
    t_shapes Shapes;
    t_generic Generic<Tk>;
    t_phantom std::marker::PhantomData<Tk>;
    t_result Result<Tk, Tk>;
    t_btreemap BTreeMap<String, Tk>;
    t_hashmap HashMap<String, Tk>;
    t_variant AnyVariant;
}

/// One enum variant of every kind, at any index a u32 can hold.
pub enum AnyVariant {
    U(u32),
    N(u32, Tk),
    T(u32, Tk, Tk),
    S(u32, Tk, Tk),
}
impl Serialize for AnyVariant {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            AnyVariant::U(i) => s.serialize_unit_variant("E", *i, "U"),
            AnyVariant::N(i, a) => s.serialize_newtype_variant("E", *i, "N", a),
            AnyVariant::T(i, a, b) => {
                let mut t = s.serialize_tuple_variant("E", *i, "T", 2)?;
                t.serialize_field(a)?;
                t.serialize_field(b)?;
                t.end()
            }
            AnyVariant::S(i, a, b) => {
                let mut t = s.serialize_struct_variant("E", *i, "S", 2)?;
                t.serialize_field("a", a)?;
                t.serialize_field("b", b)?;
                t.end()
            }
        }
    }
}
struct Idx(u64);
impl<'de> Deserialize<'de> for Idx {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Idx;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("variant index")
            }
            fn visit_u64<E: de::Error>(self, v: u64) -> Result<Idx, E> {
                Ok(Idx(v))
            }
        }
        d.deserialize_identifier(V)
    }
}
/// Which kind of variant the index stands for is fixed by the type; the analyser supplies it.
pub fn kind_of(_i: u64) -> u8 {
    unimplemented!()
}
impl<'de> Deserialize<'de> for AnyVariant {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = AnyVariant;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("variant")
            }
            fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<AnyVariant, A::Error> {
                let (i, v) = a.variant::<Idx>()?;
                let n = i.0 as u32;
                match kind_of(i.0) {
                    0 => {
                        v.unit_variant()?;
                        Ok(AnyVariant::U(n))
                    }
                    1 => Ok(AnyVariant::N(n, v.newtype_variant()?)),
                    2 => {
                        struct P;
                        impl<'de> Visitor<'de> for P {
                            type Value = (Tk, Tk);
                            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                                f.write_str("pair")
                            }
                            fn visit_seq<A: de::SeqAccess<'de>>(self, mut s: A) -> Result<(Tk, Tk), A::Error> {
                                let a = s.next_element()?.ok_or_else(|| de::Error::custom("short"))?;
                                let b = s.next_element()?.ok_or_else(|| de::Error::custom("short"))?;
                                Ok((a, b))
                            }
                        }
                        let (a, b) = v.tuple_variant(2, P)?;
                        Ok(AnyVariant::T(n, a, b))
                    }
                    _ => {
                        #[derive(Deserialize)]
                        enum F {
                            #[serde(rename = "a")]
                            A,
                            #[serde(rename = "b")]
                            B,
                        }
                        struct P;
                        impl<'de> Visitor<'de> for P {
                            type Value = (Tk, Tk);
                            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                                f.write_str("fields")
                            }
                            fn visit_seq<A: de::SeqAccess<'de>>(self, mut s: A) -> Result<(Tk, Tk), A::Error> {
                                let a = s.next_element()?.ok_or_else(|| de::Error::custom("short"))?;
                                let b = s.next_element()?.ok_or_else(|| de::Error::custom("short"))?;
                                Ok((a, b))
                            }
                            fn visit_map<A: de::MapAccess<'de>>(self, mut m: A) -> Result<(Tk, Tk), A::Error> {
                                let (mut a, mut b) = (None, None);
                                while let Some(k) = m.next_key::<F>()? {
                                    match k {
                                        F::A => a = Some(m.next_value()?),
                                        F::B => b = Some(m.next_value()?),
                                    }
                                }
                                Ok((
                                    a.ok_or_else(|| de::Error::custom("no a"))?,
                                    b.ok_or_else(|| de::Error::custom("no b"))?,
                                ))
                            }
                        }
                        let (a, b) = v.struct_variant(&["a", "b"], P)?;
                        Ok(AnyVariant::S(n, a, b))
                    }
                }
            }
        }
        d.deserialize_enum("E", &[], V)
    }
}
