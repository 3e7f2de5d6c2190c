"""A family of type definitions for the header derive: the same table generates the Rust source
(ghost/src/derived.rs) and the dynamic value each of its values must have."""
import itertools
from core import *
import spec
from spec import TK, ex, elems, kinds_of

OPT, ARR = ("Optional", TK), ("Array", TK)
POOL = [("Tk", TK), ("u16", "UInt16"), ("Option<Tk>", OPT), ("(Tk, u8)", ("Tuple", TK, "UInt8")), ("bool", "Boolean"), ("Vec<Tk>", ARR), ("i32", "Int32")]
SKIP = {"n": "", "s": "#[serde(skip)] ", "z": "#[serde(skip_serializing)] "}
# other ways of writing the attributes
SKIPPED = ["#[serde(skip, default)] ", "#[serde(default, skip_serializing)] ", "#[serde(rename = \"q\")] #[serde(skip)] ", "#[serde(skip)] #[doc = \"x\"] ",
           "#[serde(skip_serializing, skip_deserializing)] ", "#[doc = \"x\"] #[serde(skip_deserializing)] #[serde(skip_serializing)] ",
           "#[serde(skip_serializing, alias = \"w\")] "]
KEPT = ["#[serde(skip_deserializing)] ", "#[serde(default)] ", "#[serde(rename = \"skip\")] ", "#[serde(alias = \"skip_serializing\")] ", "#[doc = \"skip\"] ",
        "#[doc(alias = \"skip\")] ", "#[cfg(all())] ", "#[allow(unused)] "]


class Fields:
    """style: named / tuple / unit; fields: (attribute, rust type, dynamic type or None when it is not serialized)"""
    def __init__(self, style, fields=()):
        self.style, self.f = style, list(fields)

    def src(self, vis=""):
        if self.style == "unit":
            return ""
        if self.style == "tuple":
            return "(%s)" % ", ".join(a + vis + t for a, t, _ in self.f)
        return " { %s }" % ", ".join("%s%sf%d: %s" % (a, vis, i, t) for i, (a, t, _) in enumerate(self.f))

    def kept(self, E, st, xs, bty):
        return [spec.dyn(E, st, x, d, bty) for x, (_, _, d) in zip(xs, self.f) if d is not None]


class Struct:
    def __init__(self, name, fields, attr=""):
        self.name, self.fields, self.attr = name, fields, attr

    def src(self):
        return "%spub struct %s%s%s" % (self.attr, self.name, self.fields.src("pub "), "" if self.fields.style == "named" else ";")

    def __call__(self, E, st, v, bty):
        x = ex(E, st, v)
        return Agg([Obj("Vec", elems(*self.fields.kept(E, st, x.f, bty)))], kinds_of(E, bty).index("Tuple"))


class Enum:
    """variants: (attribute, Fields, is it serialized)"""
    def __init__(self, name, variants, attr="", disc=None):
        self.name, self.v, self.attr, self.disc = name, variants, attr, disc or {}

    def src(self):
        return "%spub enum %s { %s }" % (self.attr, self.name, ", ".join(
            "%sV%d%s%s" % (a, i, f.src(), " = %d" % self.disc[i] if i in self.disc else "") for i, (a, f, _) in enumerate(self.v)))

    def __call__(self, E, st, v, bty):
        x = ex(E, st, v)
        names = kinds_of(E, bty)
        ys = self.v[x.v][1].kept(E, st, x.f, bty)
        b = Agg([], names.index("Unit")) if not ys else ys[0] if len(ys) == 1 else Agg([Obj("Vec", elems(*ys))], names.index("Tuple"))
        return Agg([mk(32, L(x.v)), Obj("Box", b)], names.index("Enum"))

    def pre(self, E, st, v):
        """serde refuses to serialize a skipped variant"""
        if not self.v[ex(E, st, v).v][2]:
            raise Stop()
        return True


class Into:
    """a type that serde converts before it is encoded: body, the type converted into, the conversion and what it means"""
    def __init__(self, name, kind, body, into, expr, conv):
        self.name, self.kind, self.body, self.into, self.expr, self.conv = name, kind, body, into, expr, conv

    def src(self):
        return "#[derive(Clone)] #[serde(into = \"%s\")] pub %s %s %s impl From<%s> for %s { fn from(d: %s) -> Self { %s } }" % (
            self.into, self.kind, self.name, self.body, self.name, self.into, self.name, self.expr)

    def __call__(self, E, st, v, bty):
        return self.conv(E, st, ex(E, st, v), kinds_of(E, bty))


def pick(attrs, start=0, always=False):
    """fields with these attributes; types cycle through the pool"""
    out = []
    for i, a in enumerate(attrs):
        t, d = POOL[(start + i) % len(POOL)]
        out.append((SKIP[a], t, d if a == "n" or always else None))
    return out


def tuple_attr(a):
    for x in ('#[serde(rename = "q")] ', '#[serde(default)] ', ', default', 'default, ', ', alias = "w"'):
        a = a.replace(x, "")
    return a


def family():
    out = []

    def add(root, *defs):
        """the last definition is the one examined"""
        out.append((root, defs))

    for n in range(4):
        for k, attrs in enumerate(itertools.product("nsz", repeat=n)):
            w = "".join(attrs)
            add("named%d_%s" % (n, w), Struct("D", Fields("named", pick(attrs, k))))
            # serde writes the field of a newtype struct whatever its attributes
            add("tuple%d_%s" % (n, w), Struct("D", Fields("tuple", pick(attrs, k + 1, n == 1))))
    add("unit", Struct("D", Fields("unit")))
    for style in ("named", "tuple"):
        for n in range(4):
            vs = []
            for k, attrs in enumerate(itertools.product("nsz", repeat=n)):
                vs.append(("", Fields(style, pick(attrs, k + n)), True))
                if k % 4 == 0:
                    vs.append(("", Fields("unit"), True))
            add("enum_%s%d" % (style, n), Enum("D", vs))
    add("enum_mixed", Enum("D", [("", Fields("unit"), True), ("", Fields("tuple", pick("n")), True), ("", Fields("tuple", pick("nn", 1)), True),
                                 ("", Fields("named", pick("n", 2)), True), ("", Fields("named", pick("nnnn", 3)), True),
                                 ("", Fields("tuple", [("", "Tk", TK), ("", "u8", "UInt8"), ("", "Tk", TK), ("", "bool", "Boolean"), ("", "Tk", TK)]), True),
                                 ("", Fields("unit"), True)]))
    add("enum_one", Enum("D", [("", Fields("tuple", pick("n")), True)]))
    add("enum_disc", Enum("D", [("", Fields("unit"), True), ("", Fields("unit"), True), ("", Fields("unit"), True)], "#[repr(u8)] ", {0: 7, 1: 3, 2: 200}))
    # spellings
    for i, a in enumerate(SKIPPED):
        fs = [("", "Tk", TK), (a, "u16", None), ("", "bool", "Boolean")]
        add("skipped%d" % i, Struct("D", Fields("named", fs)))
        add("skipped%d_tuple" % i, Struct("D", Fields("tuple", [(tuple_attr(x), t, d) for x, t, d in fs])))
    add("skipped_enum", Enum("D", [("", Fields("named", [("", "Tk", TK), (a, "u16", None), ("", "bool", "Boolean")]), True) for a in SKIPPED]))
    for i, a in enumerate(KEPT):
        fs = [("", "Tk", TK), (a, "u16", "UInt16"), ("", "bool", "Boolean")]
        add("kept%d" % i, Struct("D", Fields("named", fs)))
    add("kept_enum", Enum("D", [("", Fields("named", [("", "Tk", TK), (a, "u16", "UInt16")]), True) for a in KEPT] +
                          [(a, Fields("tuple", pick("n", i)), True) for i, a in enumerate(KEPT) if "default" not in a]))
    C = ["#[serde(rename = \"skip\")] ", "#[serde(rename_all = \"camelCase\")] ", "#[serde(deny_unknown_fields)] ", "#[doc = \"skip\"] "]
    for i, a in enumerate(C):
        add("container%d" % i, Struct("D", Fields("named", pick("nsn")), a))
        add("container%d_enum" % i, Enum("D", [("", Fields("named", pick("nsn")), True), ("", Fields("unit"), True)], a))
    add("transparent", Struct("D", Fields("named", pick("n")), "#[serde(transparent)] "))
    add("transparent_skip", Struct("D", Fields("named", pick("sn")), "#[serde(transparent)] "))
    add("transparent_tuple", Struct("D", Fields("tuple", pick("ns")), "#[serde(transparent)] "))
    add("other_types", Struct("D", Fields("named", [("#[serde(skip)] ", "Tk", None), ("", "i64", "Int64"), ("", "f64", "Float64"), ("", "String", "String")])))
    # other representations
    tagged = "#[serde(tag = \"t\", content = \"c\")] "
    for style in ("named", "tuple"):
        add("adjacent_" + style, Enum("D", [("", Fields("unit"), True)] + [("", Fields(style, pick(a, k)), True) for k, a in enumerate(("n", "nn", "ns", "snz", "z", "nnn"))] +
                                      [("", Fields("tuple"), True), ("#[serde(skip)] ", Fields("unit"), False)], tagged))
    add("adjacent_tag_last", Enum("D", [("", Fields("tuple", pick("n")), True), ("", Fields("unit"), True)], "#[serde(content = \"tag\")] #[serde(tag = \"untagged\")] "))
    add("into_number", Into("D", "struct", "{ pub a: u16 }", "u32", "d.a as u32 + 100", lambda E, st, x, k: Agg(
        [mk(32, laddc(lin_of(st.F, spec.scalar(E, st, x.f[0]), 16, False), 100))], k.index("UInt32"))))
    add("into_tuple", Into("D", "struct", "(pub u16, pub bool);", "(bool, u16, u8)", "(d.1, d.0, 3)", lambda E, st, x, k: Agg(
        [Obj("Vec", elems(Agg([x.f[1]], k.index("Boolean")), Agg([x.f[0]], k.index("UInt16")), Agg([3], k.index("UInt8"))))], k.index("Tuple"))))
    add("into_enum", Into("D", "enum", "{ A, B(u8) }", "Option<u8>", "match d { D::A => None, D::B(x) => Some(x) }", lambda E, st, x, k: Agg(
        [Agg([], 0) if x.v == 0 else Agg([Obj("Box", Agg([x.f[0]], k.index("UInt8")))], 1)], k.index("Optional"))))
    # nested definitions
    n1 = Struct("N1", Fields("named", pick("nsn", 3)))
    n2 = Enum("N2", [("", Fields("unit"), True), ("", Fields("tuple", pick("n")), True), ("", Fields("named", pick("nzn", 1)), True)])
    n3 = Struct("N3", Fields("tuple", pick("nn", 1)))
    add("nested_struct", n1, n3, Struct("D", Fields("named", [("", "N1", n1), ("", "Tk", TK), ("#[serde(skip)] ", "N1", None), ("", "N3", n3)])))
    add("nested_option", n1, n2, Struct("D", Fields("tuple", [("", "Option<N1>", ("Optional", n1)), ("", "(N2, u8)", ("Tuple", n2, "UInt8"))])))
    add("nested_enum", n1, n2, n3, Enum("D", [("", Fields("tuple", [("", "N1", n1)]), True), ("", Fields("tuple", [("", "N2", n2), ("", "Tk", TK)]), True),
                                              ("", Fields("named", [("", "N3", n3), ("#[serde(skip)] ", "N2", None)]), True)]))
    # counts beyond one byte
    add("many_fields", Struct("D", Fields("named", [("", "u8", "UInt8")] * 127 + [("#[serde(skip)] ", "Tk", None), ("", "bool", "Boolean"), ("", "Tk", TK)])))
    add("many_variants", Enum("D", [("", Fields("unit"), True)] * 130 + [("", Fields("tuple", pick("n")), True)]))
    add("many_variant_fields", Enum("D", [("", Fields("unit"), True), ("", Fields("tuple", [("", "u8", "UInt8")] * 130), True),
                                          ("", Fields("named", [("", "u8", "UInt8")] * 128 + [("", "Tk", TK)]), True)]))
    # variants that are not serialized
    add("variant_skip_last", Enum("D", [("", Fields("unit"), True), ("", Fields("tuple", pick("n")), True), ("#[serde(skip)] ", Fields("tuple", pick("n", 1)), False)]))
    add("variant_skip_serializing_last", Enum("D", [("", Fields("tuple", pick("nn")), True), ("#[serde(skip_serializing)] ", Fields("named", pick("nn")), False)]))
    add("variant_skip_deserializing", Enum("D", [("#[serde(skip_deserializing)] ", Fields("tuple", pick("nn")), True), ("", Fields("named", pick("nn")), True)]))
    add("variant_skip_middle", Enum("D", [("", Fields("tuple", pick("n")), True), ("#[serde(skip)] ", Fields("unit"), False), ("", Fields("tuple", pick("n", 1)), True)]))
    return out


def source():
    o = ["// @generated by engine/derived.py", "//! Type definitions that derive both the header and serialization.", "use crate::stub::*;",
         "use dlhn::{SerializeHeader, Serializer};", "use serde::Serialize;", ""]
    for root, defs in family():
        o.append("pub mod %s {" % root)
        o.append("    #[allow(unused_imports)]")
        o.append("    use super::*;")
        for d in defs:
            o.append("    #[derive(Serialize, SerializeHeader)]")
            o.append("    " + d.src())
        o.append("    pub fn ser(v: &D, w: &mut Sink) -> Result<(), dlhn::ser::Error> {\n        v.serialize(&mut Serializer::new(w))\n    }")
        o.append("    pub fn hdr(w: &mut Sink) -> std::io::Result<()> {\n        D::serialize_header(w)\n    }")
        o.append("}")
    return "\n".join(o) + "\n"


# ---------------------------------------------------------------- definitions no header describes
SSI = ["#[serde(skip_serializing_if = \"f\")] ", "#[serde(default, skip_serializing_if = \"f\")] ", "#[serde(skip_serializing_if = \"f\", default)] ",
       "#[serde(default)] #[serde(skip_serializing_if = \"f\")] ", "#[serde(skip_serializing_if = \"f\")] #[serde(rename = \"q\")] ",
       "#[doc = \"x\"] #[serde(skip_serializing_if = \"f\")] "]


REPR = ["#[serde(untagged)] ", "#[serde(tag = \"t\")] ", "#[serde(rename_all = \"camelCase\", untagged)] ", "#[serde(tag = \"content\", rename_all = \"camelCase\")] ",
        "#[doc = \"content\"] #[serde(tag = \"t\")] "]


def rejects():
    """(name, definition, the same definition without what makes it impossible)"""
    out = []
    for i, a in enumerate(SSI):
        for pos in range(3):
            def fs(a, pos=pos):
                return [(a if k == pos else "", t, None) for k, t in enumerate(("u8", "u16", "bool"))]
            b = a.replace("skip_serializing_if = \"f\"", "skip_deserializing")
            for style in ("named", "tuple"):
                aa, bb = (x if style == "named" else tuple_attr(x) for x in (a, b))
                out.append(("struct_%s_%d_%d" % (style, i, pos), Struct("D", Fields(style, fs(aa))).src(), Struct("D", Fields(style, fs(bb))).src()))
                for at in range(3):
                    vs = lambda x: [("", Fields(style, fs(x)), True) if k == at else ("", Fields(("unit", "named", "tuple")[k], [("", "u8", None)]), True) for k in range(3)]
                    out.append(("variant%d_%s_%d_%d" % (at, style, i, pos), Enum("D", vs(aa)).src(), Enum("D", vs(bb)).src()))
        one = lambda x: Struct("D", Fields("named", [(x, "u8", None)])).src()
        b = a.replace("skip_serializing_if = \"f\"", "skip_deserializing")
        out.append(("struct_one_%d" % i, one(a), one(b)))
        onev = lambda x: Enum("D", [("", Fields("unit"), True), ("", Fields("named", [(x, "u8", None)]), True)]).src()
        out.append(("variant_one_%d" % i, onev(a), onev(b)))
    for i, a in enumerate(REPR):
        for j, d in enumerate(("pub struct D { a: u8, b: u16 }", "pub enum D { A { a: u8 }, B { b: u16, c: bool } }", "pub enum D { A, B }")):
            if not (j == 0 and "untagged" in a):
                out.append(("repr_%d_%d" % (i, j), a + d, a.replace("untagged", "deny_unknown_fields").replace("tag =", "rename =") + d))
    for at in range(3):
        d = lambda x: "pub enum D { %s }" % ", ".join((x if k == at else "") + t for k, t in enumerate(("A", "B(u8)", "C { a: u8, b: u8 }")))
        out.append(("repr_variant_%d" % at, d("#[serde(untagged)] "), d("#[serde(rename = \"untagged\")] ")))
    out.append(("union", "pub union D { a: u8, b: u16 }", None))
    n = 65536
    out.append(("fields_named", "pub struct D { %s }" % ", ".join("f%d: ()" % i for i in range(n)), None))
    out.append(("fields_tuple", "pub struct D(%s);" % ", ".join(["()"] * n), None))
    out.append(("variant_fields_named", "pub enum D { A, B { %s } }" % ", ".join("f%d: ()" % i for i in range(n)), None))
    out.append(("variant_fields_tuple", "pub enum D { A, B(%s) }" % ", ".join(["()"] * n), None))
    out.append(("variants", "pub enum D { %s }" % ", ".join("V%d" % i for i in range(n)), None))
    out.append(("fields_skipped", "pub struct D { #[serde(skip)] s: u8, %s }" % ", ".join("f%d: ()" % i for i in range(n)), None))
    return out


if __name__ == "__main__":
    import os
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "ghost", "src", "derived.rs")
    with open(p, "w") as f:
        f.write(source())
