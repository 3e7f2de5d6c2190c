"""Reference encoder: the wire format as documented, written independently of the code.
Every function returns segments; it raises Fork where the layout depends on an undecided fact."""
from core import *
import core, seqs


def fork_ge(F, lin):
    return seqs.need(F, lin)


def E_(*vals):
    return (("E", tuple(vals)),)


def scalar(E, st, v):
    if isinstance(v, Opq):
        v = E.expand(st, v)
    if isinstance(v, Cnd):
        d = st.F.decide(v)
        if d is None:
            raise_on_cond(st.F, v)
        return int(d)
    return v


def bytes_le(F, x, w):
    b = bits_of(F, x, w)
    return tuple(from_bits(F, b[i:i + 8]) for i in range(0, w, 8))


FULL = {16: (2, 0xC0), 32: (4, 0xF0), 64: (8, 0xFF)}


def varint_bytes(F, lin, w, n):
    """the n-byte form (n = None: marker form) of the value"""
    nmax, marker = FULL[w]
    b = bits_of(F, mk(w, lin), w)
    if n is None:
        return (marker,) + tuple(from_bits(F, b[i:i + 8]) for i in range(0, w, 8))
    pay = b[:7 * n] if len(b) >= 7 * n else b + (0,) * (7 * n - len(b))
    first = pay[:8 - n] + (0,) + (1,) * (n - 1)      # LSB first: payload, a zero, n-1 ones
    rest = pay[8 - n:]
    return (from_bits(F, first),) + tuple(from_bits(F, rest[i:i + 8]) for i in range(0, len(rest), 8))


FORM = 1        # the shortest form to use (a value that does not fit takes the next one that it fits); 1: the canonical one


def varint(F, lin, w):
    nmax, marker = FULL[w]
    for n in range(FORM, nmax + 1):
        if not fork_ge(F, laddc(lin, -(1 << (7 * n)))):
            return E_(*varint_bytes(F, lin, w, n))
    return E_(*varint_bytes(F, lin, w, None))


def varint_alts(F, lin, w=64, maxv=(1 << 63) - 1):
    """all layouts with the facts that select them"""
    nmax, marker = FULL[w]
    out = []
    lo = 0
    for n in list(range(min(FORM, nmax + 1), nmax + 1)) + [None]:
        hi = (1 << (7 * n)) - 1 if n else maxv
        G = F.clone()
        if G.assume_ge(laddc(lin, -lo)) and G.assume_ge(laddc(lscale(lin, -1), hi)):
            out.append(((("ge", laddc(lin, -lo)), ("ge", laddc(lscale(lin, -1), hi))), E_(*varint_bytes(G, lin, w, n))))
        lo = hi + 1
    return out


def zigzag(F, v, w):
    return zz(F, lin_of(F, v, w, True))


def zz(F, l):
    return lscale(l, 2) if fork_ge(F, l) else laddc(lscale(l, -2), -1)


def u(E, st, v, w):
    v = scalar(E, st, v)
    if w == 8:
        return E_(v)
    return varint(st.F, lin_of(st.F, v, w, False), w)


def i(E, st, v, w):
    v = scalar(E, st, v)
    if w == 8:
        return E_(v)
    return varint(st.F, zigzag(st.F, v, w), w)


def f(E, st, v, w):
    return E_(*bytes_le(st.F, scalar(E, st, v), w))


def bool_(E, st, v):
    return E_(scalar(E, st, v))


def unit(E, st, v):
    return ()


def char(E, st, v):
    v = scalar(E, st, v)
    F = st.F
    l = lin_of(F, v, 32, False)
    b = bits_of(F, v, 32)
    if not fork_ge(F, laddc(l, -0x80)):
        return E_(1, from_bits(F, bits_of(F, v, 32)[:8]))
    b = bits_of(F, v, 32)

    def cont(k):
        return from_bits(F, b[6 * k:6 * k + 6] + (0, 1))
    if not fork_ge(F, laddc(l, -0x800)):
        return E_(2, from_bits(F, b[6:11] + (0, 1, 1)), cont(0))
    if not fork_ge(F, laddc(l, -0x10000)):
        return E_(3, from_bits(F, b[12:16] + (0, 1, 1, 1)), cont(1), cont(0))
    return E_(4, from_bits(F, b[18:21] + (0, 1, 1, 1, 1)), cont(2), cont(1), cont(0))


SCALARS = {
    "unit": unit, "bool": bool_, "char": char,
    "f32": lambda E, st, v: f(E, st, v, 32), "f64": lambda E, st, v: f(E, st, v, 64),
    "usize": lambda E, st, v: u(E, st, v, 64), "isize": lambda E, st, v: i(E, st, v, 64),
}
for _w in (8, 16, 32, 64):
    SCALARS["u%d" % _w] = lambda E, st, v, w=_w: u(E, st, v, w)
    SCALARS["i%d" % _w] = lambda E, st, v, w=_w: i(E, st, v, w)


def blob(E, st, v):
    """length prefix and content of a String / byte buffer / boxed str"""
    o = v
    for _ in range(6):
        if isinstance(o, Opq):
            o = E.expand(st, o)
        if isinstance(o, Agg):
            o = o.f[0]
            continue
        if isinstance(o, Obj) and o.k == "Box":
            o = o.d[0]
            continue
        break
    if isinstance(o, Obj) and o.k == "Vec":
        o = o.d[0]
    if not isinstance(o, Seq):
        raise Unsup("content of %r" % (v,))
    n = seqs.length(st.F, o)
    return varint(st.F, n, 64) + tuple(o.s)


# ---------------------------------------------------------------- compound values
def tok(E, st, v):
    """a component with an encoding of its own"""
    if isinstance(v, Opq):
        return (("T", v.t),)
    raise Unsup("token %r" % (v,))


def ex(E, st, v):
    for _ in range(8):
        if isinstance(v, Opq):
            v = E.expand(st, v)
        elif isinstance(v, Obj) and v.k == "Box":
            v = v.d if not isinstance(v.d, tuple) else v.d[0]
        else:
            return v
    return v


def fields(*specs):
    """fields in declaration order, nothing between them"""
    def g(E, st, v):
        v = ex(E, st, v)
        if not isinstance(v, Agg) or len(v.f) != len(specs):
            raise Unsup("fields of %r" % (v,))
        out = ()
        for s, x in zip(specs, v.f):
            if s is not None:
                out += s(E, st, x)
        return out
    return g


def boxed(s):
    return lambda E, st, v: s(E, st, Opq(("deref", v.t), E.ty(v.ty).d["args"][0]) if isinstance(v, Opq) else ex(E, st, v))


def option(s):
    def g(E, st, v):
        v = ex(E, st, v)
        return E_(0) if v.v == 0 else E_(1) + s(E, st, v.f[0])
    return g


def variants(*kinds):
    """enum: index as u32 varint, then the fields"""
    def g(E, st, v):
        v = ex(E, st, v)
        return varint(st.F, L(v.v), 32) + fields(*kinds[v.v])(E, st, v)
    return g


def array(s, n):
    def g(E, st, v):
        v = ex(E, st, v)
        if not isinstance(v, Seq):
            raise Unsup("array %r" % (v,))
        out = ()
        for sg in v.s:
            if sg[0] != "E":
                raise Unsup("array %r" % (v,))
            for x in sg[1]:
                out += s(E, st, x)
        return out
    return g


KVL = (0, ((KV, 1),))


def vec(s):
    """count as u64, then the elements"""
    def g(E, st, v):
        v = ex(E, st, v)
        if not (isinstance(v, Obj) and v.k == "Vec"):
            raise Unsup("vec %r" % (v,))
        q = v.d[0]
        out = varint(st.F, seqs.length(st.F, q), 64)
        for sg in q.s:
            if sg[0] == "E":
                for x in sg[1]:
                    out += s(E, st, x)
            elif sg[0] == "S":
                out += (("K", s(E, st, E.elem(sg[1], ladd(sg[2], KVL))), L(0), sg[3]),)
            else:
                raise Unsup("vec segment %r" % (sg,))
        return out
    return g


def strmap(s):
    """count as u64, then key string and value of every entry"""
    def g(E, st, v):
        v = ex(E, st, v)
        if not (isinstance(v, Obj) and v.k == "Map"):
            raise Unsup("map %r" % (v,))
        q = v.d[0]
        out = varint(st.F, seqs.length(st.F, q), 64)
        for sg in q.s:
            if sg[0] != "S":
                raise Unsup("map segment %r" % (sg,))
            e = E.elem(sg[1], ladd(sg[2], KVL))
            k = ex(E, st, e.f[0])
            k = k.f[0] if isinstance(k, Agg) else k
            ks = k.d[0]
            n = seqs.length(st.F, ks)
            alts = tuple((d, b + tuple(ks.s) + s(E, st, e.f[1])) for d, b in varint_alts(st.F, n))
            out += (("K", (("A", alts),), L(0), sg[3]),)
        return out
    return g


COMPOUND = {
    "option": option(tok), "option2": option(option(tok)), "vec": vec(tok), "vecu8": vec(lambda E, st, v: u(E, st, v, 8)),
    "box": boxed(tok), "tuple1": fields(tok), "tuple2": fields(tok, tok), "tuple4": fields(*[tok] * 4),
    "tuple16": fields(*[tok] * 16), "array0": array(tok, 0), "array1": array(tok, 1), "array3": array(tok, 3),
    "array32": array(tok, 32), "unit": unit, "newtype": fields(tok), "tuplestruct": fields(tok, tok, tok),
    "empty": unit, "one": fields(tok), "named": fields(*[tok] * 5),
    "shapes": variants((), (tok,), (tok, tok), (tok, tok, tok), ()),
    "generic": fields(tok, option(tok), vec(tok)), "phantom": unit, "result": variants((tok,), (tok,)),
    "btreemap": strmap(tok), "hashmap": strmap(tok),
    "variant": lambda E, st, v: anyvariant(E, st, v),
}

_S = SCALARS
COMPOUND.update({
    "single": variants((tok,)), "wide": variants(*([()] * 200 + [(tok,)])),
    "mixed": fields(_S["bool"], _S["u8"], _S["f32"], fields(tok, _S["i8"]), option(_S["u16"]), blob, _S["f64"]),
    "mixed2": fields(_S["u16"], _S["char"], _S["i16"]),
    "kinds": variants((_S["u32"],), (blob, option(_S["u16"])), (boxed(variants((), (_S["u8"],))),), (_S["i64"], _S["bool"]), (array(_S["u16"], 2),)),
    "transparent": fields(tok), "arru16": array(_S["u16"], 2), "vectuple": vec(fields(_S["u8"], tok)), "optstring": option(blob),
    "resstring": variants((blob,), (_S["u32"],)), "range": fields(tok, tok),
    "nested": fields(fields(tok, fields(tok)), array(fields(_S["u8"], tok), 2), option(boxed(fields(tok, _S["bool"])))),
})


def anyvariant(E, st, v):
    v = ex(E, st, v)
    idx = scalar(E, st, v.f[0])
    out = varint(st.F, lin_of(st.F, idx, 32, False), 32)
    for x in v.f[1:]:
        out += tok(E, st, x)
    return out


# ---------------------------------------------------------------- headers
KINDS = ["Unit", "Optional", "Boolean", "UInt8", "UInt16", "UInt32", "UInt64", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64",
         "BigUInt", "BigInt", "BigDecimal", "String", "Binary", "Array", "Tuple", "Map", "Enum", "Date", "DateTime"]
CODES = dict(zip(KINDS, [0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 13, 14, 15, 16, 17, 18, 19, 20, 21, 23, 24, 25, 26]))
TKH = ("T", ("hdr", "Tk"))


def kinds_of(E, tid):
    """variant index -> kind name, by the variants' names"""
    return [v["name"] for v in E.ty(tid).d["variants"]]


def header(E, st, v):
    """code; then one inner header, or the u16 number of entries and each entry's header"""
    names = kinds_of(E, v.ty)
    x = ex(E, st, v)
    k = names[x.v]
    out = E_(CODES[k])
    if k in ("Optional", "Array", "Map"):
        return out + tok(E, st, inner(x.f[0], E))
    if k in ("Tuple", "Enum"):
        q = E.expand(st, x.f[0]).d[0]
        return out + varint(st.F, seqs.length(st.F, q), 16) + tuple(toks(E, st, q))
    return out


def inner(b, E=None):
    """what a box holds"""
    if isinstance(b, Opq):
        return Opq(("deref", b.t), E.ty(b.ty).d["args"][0])
    return b.d[0]


def toks(E, st, q):
    for sg in q.s:
        if sg[0] == "E":
            for x in sg[1]:
                yield from tok(E, st, x)
        elif sg[0] == "S":
            yield ("K", tok(E, st, E.elem(sg[1], ladd(sg[2], KVL))), L(0), sg[3])
        else:
            raise Unsup("entries %r" % (sg,))


def too_many(E, st, v):
    """a header that no encoding exists for: more than 65535 entries"""
    x = ex(E, st, v)
    if kinds_of(E, v.ty)[x.v] not in ("Tuple", "Enum"):
        return False
    return Cnd("ge", laddc(seqs.length(st.F, E.expand(st, x.f[0]).d[0]), -65536))


def H(k, *more):
    out = E_(CODES[k])
    for m in more:
        out += m if isinstance(m, tuple) and m and isinstance(m[0], tuple) else (m,)
    return out


def _tup(*fs):
    out = E_(CODES["Tuple"], len(fs))
    for x in fs:
        out += x if isinstance(x[0], tuple) else (x,)
    return out


_U = [H("UInt8"), H("UInt16"), H("UInt32"), H("UInt64")]
_N = _U + [H("Int8"), H("Int16"), H("Int32"), H("Int64"), H("Float32"), H("Float64"), H("Boolean"), H("String"), H("Unit"),
           H("Optional", H("UInt8")), H("Array", H("Int8"))]
_T1 = (TKH,)
STATIC = {
    "h_unit": H("Unit"), "h_option": H("Optional", _T1), "h_bool": H("Boolean"), "h_u8": H("UInt8"), "h_u16": H("UInt16"), "h_u32": H("UInt32"),
    "h_u64": H("UInt64"), "h_i8": H("Int8"), "h_i16": H("Int16"), "h_i32": H("Int32"), "h_i64": H("Int64"), "h_f32": H("Float32"),
    "h_f64": H("Float64"), "h_str": H("String"), "h_string": H("String"), "h_bytes": H("Binary"), "h_bytebuf": H("Binary"),
    "h_vec": H("Array", _T1), "h_btreemap": H("Map", _T1), "h_btreemap_str": H("Map", _T1), "h_hashmap": H("Map", _T1), "h_date": H("Date"),
    "h_datetime": H("DateTime"), "h_biguint": H("BigUInt"), "h_bigint": H("BigInt"), "h_bigdecimal": H("BigDecimal"),
    "h_nested": H("Array", H("Optional", H("Map", _tup(_T1, H("Array", H("Boolean")))))),
    "h_tuple1": _tup(_T1), "h_tuple2": _tup(_T1, _N[0]), "h_tuple3": _tup(_N[0], _T1, H("Boolean")),
    "ext::h_time_date": H("Date"), "ext::h_offset_date_time": H("DateTime"), "ext::h_nb_biguint": H("BigUInt"),
    "ext::h_nb_bigint": H("BigInt"), "ext::h_bd_bigdecimal": H("BigDecimal"),
}
for _k in range(4, 17):
    _fs = [_T1] + _N[:_k - 1] if _k in (4, 7, 9, 11, 13, 15) else _N[:_k - 1] + [_T1]
    STATIC["h_tuple%d" % _k] = _tup(*_fs)


# ---------------------------------------------------------------- the dynamic value of a typed value
TK = "Tk"
DYN = {"s_unit": "Unit", "s_bool": "Boolean", "s_u8": "UInt8", "s_u16": "UInt16", "s_u32": "UInt32", "s_u64": "UInt64", "s_i8": "Int8",
       "s_i16": "Int16", "s_i32": "Int32", "s_i64": "Int64", "s_f32": "Float32", "s_f64": "Float64", "s_string": "String", "s_str": "String",
       "s_bytebuf": "Binary", "s_option": ("Optional", TK), "s_vec": ("Array", TK), "s_vecu8": ("Array", "UInt8"), "s_btreemap": ("Map", TK),
       "s_hashmap": ("Map", TK), "s_date": "Date", "s_datetime": "DateTime", "s_biguint": "BigUInt", "s_bigint": "BigInt",
       "s_bigdecimal": "BigDecimal", "s_tuple3": ("Tuple", TK, "UInt8", TK),
       "s_mixed": ("Tuple", "Boolean", ("Optional", ("Tuple", "UInt8", TK)), "Unit", ("Optional", ("Optional", "Boolean")), ("Tuple", TK, ("Tuple", "UInt16"))),
       "s_vectuple": ("Array", ("Tuple", "UInt8", TK))}
for _k in (1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16):
    DYN["s_tuple%d" % _k] = ("Tuple",) + (TK,) * _k


def dyn(E, st, v, d, bty):
    """the body that corresponds to value v of dynamic type d"""
    if callable(d):
        return d(E, st, v, bty)
    if d == TK:
        return Opq(v.t, bty)
    names = kinds_of(E, bty)
    if isinstance(d, str):
        i = names.index(d)
        if d == "Unit":
            return Agg([], i)
        if d == "String" and isinstance(v, (Opq, Ptr)) and isinstance(E.expand(st, v) if isinstance(v, Opq) else v, Ptr):
            p = E.expand(st, v) if isinstance(v, Opq) else v
            return Agg([Agg([Obj("Vec", E.deref_read(st, p))])], i)
        return Agg([v], i)
    k, i = d[0], names.index(d[0])
    x = ex(E, st, v)
    if k == "Optional":
        if x.v == 0:
            return Agg([Agg([], 0)], i)
        return Agg([Agg([Obj("Box", dyn(E, st, x.f[0], d[1], bty))], 1)], i)
    if k == "Tuple":
        return Agg([Obj("Vec", elems(*[dyn(E, st, f, t, bty) for f, t in zip(x.f, d[1:])]))], i)
    q = x.d[0]
    if d[1] == TK:
        return Agg([Obj("Vec" if k == "Array" else "Map", q)], i)
    out = ()
    for sg in q.s:
        if sg[0] == "S":
            alts = []
            e = E.elem(sg[1], ladd(sg[2], KVL))
            if isinstance(e, Opq) and E.ty(e.ty).d.get("path") == "core::option::Option":
                raise Unsup("alternatives")
            out += (("K", (("E", (dyn(E, st, e, d[1], bty),)),), L(0), sg[3]),)
        elif sg[0] == "E":
            out += (("E", tuple(dyn(E, st, e, d[1], bty) for e in sg[1])),)
        else:
            raise Unsup("dynamic value of %r" % (q,))
    return Agg([Obj("Vec", Seq(out))], i)


# ---------------------------------------------------------------- wrapper types and dynamic values
def date(E, st, v):
    """year - 2000 as i32, day of year - 1 as u16"""
    d = ex(E, st, v)
    y, o = scalar(E, st, d.f[0]), scalar(E, st, d.f[1])
    return varint(st.F, zz(st.F, laddc(lin_of(st.F, y, 32, True), -2000)), 32) + varint(st.F, laddc(lin_of(st.F, o, 16, False), -1), 16)


def decimal(E, st, v):
    """digits; a non-zero number is followed by its scale"""
    d = ex(E, st, v)
    n = seqs.length(st.F, E.expand(st, d.f[0]).d[0])
    if seqs.needeq(st.F, n):
        return E_(0)
    return blob(E, st, d.f[0]) + i(E, st, d.f[1], 64)


_K = dict(zip(KINDS[2:13], ["bool", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64"]))


def body(E, st, v, k):
    x = ex(E, st, v)
    y = x.f[0] if x.f else None
    if k in _K:
        return SCALARS[_K[k]](E, st, y)
    if k == "Unit":
        return ()
    if k in ("BigUInt", "BigInt", "String", "Binary"):
        return blob(E, st, y)
    if k == "BigDecimal":
        return decimal(E, st, y)
    if k == "Date":
        return date(E, st, y)
    if k == "DateTime":
        return fields(_S["i64"], _S["u32"])(E, st, y)
    if k == "Optional":
        return option(lambda E, st, b: tok(E, st, inner(b, E)))(E, st, y)
    if k == "Array":
        return vec(tok)(E, st, y)
    if k == "Map":
        return strmap(tok)(E, st, y)
    if k == "Tuple":
        return tuple(toks(E, st, E.expand(st, y).d[0]))
    if k == "Enum":
        return varint(st.F, lin_of(st.F, scalar(E, st, y), 32, False), 32) + tok(E, st, inner(x.f[1], E))
    raise Unsup("body kind %s" % k)


def text(E, st, v):
    """a string slice"""
    p = ex(E, st, v)
    q = E.deref_read(st, p) if isinstance(p, Ptr) else p
    return varint(st.F, seqs.length(st.F, q), 64) + tuple(q.s)


def count(E, st, v):
    return varint(st.F, seqs.length(st.F, ex(E, st, v).d[0]), 64)


def is_empty(E, st, v):
    return Cnd("eq", seqs.length(st.F, ex(E, st, v).d[0]))
