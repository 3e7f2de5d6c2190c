"""Meaning of the third-party date and number types at the crate boundary: their documented behaviour, as
abstract values.  A date is its year and day of year, an instant its unix second and nanosecond, a number the
digit bytes it was built from (or an opaque number with one canonical digit sequence)."""
from core import *
import core, seqs
from models import model, OK, ERR, SOME, NONE, sub, seq_of, OPAQUE, self_is, unwrap_ptr, VecV, u

DATE, ODT, TIME, DUR = "time::date::Date", "time::offset_date_time::OffsetDateTime", "time::time::Time", "time::signed_duration::SignedDuration"
BU, BI, BD = "num_bigint::biguint::BigUint", "num_bigint::bigint::BigInt", "bigdecimal::BigDecimal"
TS_MIN, TS_MAX = -377705116800, 253402300799
G = 1000000000


def record(st, key, val=True):
    st.F.misc = dict(st.F.misc)
    st.F.misc[key] = val


def opq_date(E, st, o, t):
    y = memo_var(("year", o.t), 32, True, "year(%s)" % show_term(o.t), -9999, 9999)
    d = memo_var(("day", o.t), 16, False, "day(%s)" % show_term(o.t), 1, 366)
    record(st, ("date", LV(y.vid), LV(d.vid)), True)
    return Obj("TDate", Sc(32, None, LV(y.vid)), Sc(16, None, LV(d.vid)))


def opq_odt(E, st, o, t):
    s = memo_var(("ts", o.t), 64, True, "second(%s)" % show_term(o.t), TS_MIN, TS_MAX)
    n = memo_var(("ns", o.t), 32, False, "nano(%s)" % show_term(o.t), 0, G - 1)
    return Obj("TOdt", Sc(64, None, LV(s.vid)), Sc(32, None, LV(n.vid)))


def keep(E, st, o, t):
    raise Unsup("inside of an opaque %s" % t.name)


OPAQUE[DATE] = opq_date
OPAQUE[ODT] = opq_odt
for _p in (TIME, DUR, BU, BI, BD):
    OPAQUE[_p] = keep


def whole(E, st, v, kind):
    """the date / instant behind a value or pointer"""
    v = unwrap_ptr(v)
    if isinstance(v, Ptr):
        v = E.deref_read(st, v)
    if isinstance(v, Opq):
        v = E.expand(st, v)
    if not (isinstance(v, Obj) and v.k == kind):
        raise Unsup("%s expected, not %r" % (kind, v))
    return v


def err(st, c, what):
    return ERR(Obj("TErr", (what,)))


# ---------------------------------------------------------------- dates
@model("time::date::Date::year")
def _(E, st, c):
    return whole(E, st, c.args[0], "TDate").d[0]


@model("time::date::Date::ordinal")
def _(E, st, c):
    return whole(E, st, c.args[0], "TDate").d[1]


@model("time::date::Date::to_ordinal_date")
def _(E, st, c):
    return Agg(whole(E, st, c.args[0], "TDate").d)


def valid_date(E, st, y, o):
    """forking: is (y, o) a date"""
    F = st.F
    for k, v in list(F.misc.items()):
        if isinstance(k, tuple) and k and k[0] == "date" and F.eq0(lsub(k[1], y)) is True and F.eq0(lsub(k[2], o)) is True:
            return v
    n = seqs.need
    if not (n(F, laddc(y, 9999)) and n(F, laddc(lscale(y, -1), 9999)) and n(F, laddc(o, -1)) and n(F, laddc(lscale(o, -1), 366))):
        return False
    if n(F, laddc(lscale(o, -1), 365)):
        return True
    if not y[1]:
        v = y[0] % 4 == 0 and (y[0] % 100 != 0 or y[0] % 400 == 0)
    else:
        v = bool(st.choice(2, "leap"))
    record(st, ("date", y, o), v)
    return v


@model("time::date::Date::from_ordinal_date")
def _(E, st, c):
    y, o = lin_of(st.F, c.args[0], 32, True), lin_of(st.F, c.args[1], 16, False)
    if valid_date(E, st, y, o):
        return OK(Obj("TDate", c.args[0], c.args[1]))
    return err(st, c, "date")


# ---------------------------------------------------------------- instants
@model("time::offset_date_time::OffsetDateTime::unix_timestamp")
def _(E, st, c):
    return whole(E, st, c.args[0], "TOdt").d[0]


@model("time::offset_date_time::OffsetDateTime::nanosecond")
def _(E, st, c):
    return whole(E, st, c.args[0], "TOdt").d[1]


@model("time::offset_date_time::OffsetDateTime::microsecond", "time::offset_date_time::OffsetDateTime::millisecond")
def _(E, st, c):
    import models
    n = lin_of(st.F, whole(E, st, c.args[0], "TOdt").d[1], 32, False)
    k = 1000 if c.cpath.endswith("microsecond") else 1000000
    return mk(32 if k == 1000 else 16, divmod_lin(st.F, n, k)[0])


def odt(s, n):
    return Obj("TOdt", Sc(64, None, s) if s[1] else s[0] & mask(64), Sc(32, None, n) if n[1] else n[0])


def in_range(E, st, s):
    return seqs.need(st.F, laddc(s, -TS_MIN)) and seqs.need(st.F, laddc(lscale(s, -1), TS_MAX))


@model("time::offset_date_time::OffsetDateTime::from_unix_timestamp")
def _(E, st, c):
    s = lin_of(st.F, c.args[0], 64, True)
    if in_range(E, st, s):
        return OK(odt(s, L(0)))
    return err(st, c, "instant")


@model("time::offset_date_time::OffsetDateTime::replace_nanosecond")
def _(E, st, c):
    o = whole(E, st, c.args[0], "TOdt")
    n = lin_of(st.F, c.args[1], 32, False)
    if seqs.need(st.F, laddc(lscale(n, -1), G - 1)):
        return OK(Obj("TOdt", o.d[0], c.args[1]))
    return err(st, c, "nanosecond")


def nanos(F, o):
    return ladd(lscale(lin_of(F, o.d[0], 64, True), G), lin_of(F, o.d[1], 32, False))


def split_nanos(st, tot):
    """(second, nanosecond) of a total in nanoseconds, forking over the carry"""
    F = st.F
    q = (0, tuple((v, k // G) for v, k in tot[1] if k % G == 0))
    r = lsub(tot, lscale(q, G))
    lo, hi = F.bounds(r)
    a, b = lo // G, hi // G
    if b - a > 12:
        raise Unsup("nanoseconds in %s" % show_lin(tot))
    for k in range(a, b):
        if seqs.need(F, laddc(lscale(r, -1), (k + 1) * G - 1)):
            return laddc(q, k), laddc(r, -k * G)
    return laddc(q, b), laddc(r, -b * G)


@model("time::offset_date_time::OffsetDateTime::unix_timestamp_nanos")
def _(E, st, c):
    return Sc(128, None, nanos(st.F, whole(E, st, c.args[0], "TOdt")))


@model("time::offset_date_time::OffsetDateTime::from_unix_timestamp_nanos")
def _(E, st, c):
    s, n = split_nanos(st, lin_of(st.F, c.args[0], 128, True))
    if in_range(E, st, s):
        return OK(odt(s, n))
    return err(st, c, "instant")


def dur(tot):
    return Obj("TDur", ("tot", tot))


def dur_of(E, st, v):
    if isinstance(v, Obj) and v.k == "TDur":
        return v.d[0][1]
    raise Unsup("duration %r" % (v,))


_UNITS = {"nanoseconds": 1, "microseconds": 1000, "milliseconds": 10 ** 6, "seconds": G}
for _n, _k in _UNITS.items():
    def _f(E, st, c, k=_k):
        t = E.ty(c.atys[0])
        if t.k != "int" or t.name != "i64":
            raise Unsup("duration from %s" % t.name)
        return dur(lscale(lin_of(st.F, c.args[0], 64, True), k))
    model(DUR + "::" + _n, "<i64 as time::ext::numerical_duration::NumericalDuration>::" + _n)(_f)


@model(DUR + "::new")
def _(E, st, c):
    return dur(ladd(lscale(lin_of(st.F, c.args[0], 64, True), G), lin_of(st.F, c.args[1], 32, True)))


def shifted(E, st, c, sign):
    v = unwrap_ptr(c.args[0])
    if isinstance(v, Opq):
        raise Unsup("arithmetic on an instant with an offset")
    s, n = split_nanos(st, ladd(nanos(st.F, whole(E, st, v, "TOdt")), dur_of(E, st, c.args[1]), sign))
    return odt(s, n) if in_range(E, st, s) else None


@model("time::offset_date_time::OffsetDateTime::checked_add", "time::offset_date_time::OffsetDateTime::checked_sub")
def _(E, st, c):
    r = shifted(E, st, c, 1 if c.cpath.endswith("add") else -1)
    return NONE() if r is None else SOME(r)


@model("<time::offset_date_time::OffsetDateTime as core::ops::arith::Add<time::signed_duration::SignedDuration>>::add")
def _(E, st, c):
    r = shifted(E, st, c, 1)
    if r is None:
        raise Panic("resulting value is out of range")
    return r


@model("time::offset_date_time::OffsetDateTime::saturating_add")
def _(E, st, c):
    v = unwrap_ptr(c.args[0])
    if isinstance(v, Opq):
        raise Unsup("arithmetic on an instant with an offset")
    s, n = split_nanos(st, ladd(nanos(st.F, whole(E, st, v, "TOdt")), dur_of(E, st, c.args[1])))
    if not seqs.need(st.F, laddc(s, -TS_MIN)):
        return odt(L(TS_MIN), L(0))
    if not seqs.need(st.F, laddc(lscale(s, -1), TS_MAX)):
        return odt(L(TS_MAX), L(G - 1))
    return odt(s, n)


# ---------------------------------------------------------------- numbers
def strip(t):
    while isinstance(t, tuple) and t and t[0] == "norm":
        t = t[1]
    return t


def zero_key(t):
    """a decimal is zero exactly when its digits are, normalised or not"""
    while isinstance(t, tuple) and t and t[0] in ("norm", "bi"):
        t = t[1]
    return ("zero", t)


def is_zero(st, t):
    k = zero_key(t)
    if k in st.F.misc:
        return st.F.misc[k]

    def alt(v):
        def f(s):
            record(s, k, v)
            return True
        return f
    raise Fork([alt(True), alt(False)], "zero")


def num(E, st, p):
    v = unwrap_ptr(p)
    if isinstance(v, Ptr):
        v = E.deref_read(st, v)
    if isinstance(v, Opq) or isinstance(v, Obj) and v.k in ("BUint", "BInt", "BDec"):
        return v
    raise Unsup("number %r" % (v,))


def bytes_zero(E, st, s, n=0):
    """forking: are all bytes of a short sequence zero"""
    F = st.F
    if not s.s:
        return True
    for x in s.s:
        if x[0] != "E":
            if seqs.needeq(F, seqs.length(F, s)):
                return True
            raise Unsup("is the number with bytes %r zero" % (s,))
    for x in s.s:
        for b in x[1]:
            if not seqs.needeq(F, lin_of(F, b, 8, False)):
                return False
    return True


def zero_num(E, st, v):
    if isinstance(v, Opq):
        return is_zero(st, v.t)
    if v.k == "BDec":
        return zero_num(E, st, v.d[0])
    return bytes_zero(E, st, v.d[0])


@model("<%s as num_traits::identities::Zero>::is_zero" % BU, "<%s as num_traits::identities::Zero>::is_zero" % BI,
       "<%s as num_traits::identities::Zero>::is_zero" % BD)
def _(E, st, c):
    return int(zero_num(E, st, num(E, st, c.args[0])))


@model("<%s as num_traits::identities::Zero>::zero" % BU)
def _(E, st, c):
    return Obj("BUint", Seq())


@model("<%s as num_traits::identities::Zero>::zero" % BI)
def _(E, st, c):
    return Obj("BInt", Seq())


@model("<%s as num_traits::identities::Zero>::zero" % BD)
def _(E, st, c):
    return Obj("BDec", Obj("BInt", Seq()), 0)


KIND = {BU: ("BUint", "digits"), BI: ("BInt", "sdigits")}


def digits(E, st, t, kind):
    """the canonical digit bytes of a non-zero opaque number"""
    src = (kind, t)
    n = memo_var(("len", src), 64, False, "len(%s)" % show_term(t), 1, E.most(1 << 47))
    return Seq((("S", src, L(0), LV(n.vid)),))


def to_bytes(kind, obj):
    def f(E, st, c):
        v = num(E, st, c.args[0])
        if zero_num(E, st, v):
            return VecV(seqs.elems(0))
        if isinstance(v, Opq):
            return VecV(digits(E, st, v.t, kind))
        raise Unsup("canonical bytes of %r" % (v,))
    return f


def number(E, st, s, kind, obj, ty):
    """the number with digit bytes s, as a value"""
    F = st.F
    if len(s.s) == 1 and s.s[0][0] == "S" and s.s[0][1][0] == kind and F.eq0(s.s[0][2]) is True:
        t = s.s[0][1][1]
        if F.eq0(lsub(s.s[0][3], seqs.length(F, digits(E, st, t, kind)))) is True:
            return Opq(t, ty)
    if s.s and all(x[0] == "E" and all(b == 0 for b in x[1]) for x in s.s):
        s = Seq()
    return Obj(obj, s)


def from_bytes(kind, obj):
    def f(E, st, c):
        p = unwrap_ptr(c.args[0])
        s = seq_of(E, st, p)
        return number(E, st, s, kind, obj, c.dty)
    return f


model(BU + "::to_bytes_le")(to_bytes("digits", "BUint"))
model(BU + "::from_bytes_le")(from_bytes("digits", "BUint"))
model(BI + "::to_signed_bytes_le")(to_bytes("sdigits", "BInt"))
model(BI + "::from_signed_bytes_le")(from_bytes("sdigits", "BInt"))


def sign_of(E, st, v):
    """forking: -1, 0, 1"""
    if zero_num(E, st, v):
        return 0
    if isinstance(v, Opq):
        key = ("sign", zero_key(v.t)[1])
        if key in st.F.misc:
            return st.F.misc[key]
        if v.t[0] == "norm" or num_type(E, v) == "BDec":
            v = Opq(("bi", v.t), None)
        r = 1 - 2 * st.choice(2, "sign")
        s = digits(E, st, v.t, "sdigits")
    else:
        while v.k == "BDec":
            v = v.d[0]
            if isinstance(v, Opq):
                return sign_of(E, st, v)
        if v.k == "BUint":
            return 1
        r, s, key = None, v.d[0], None
    top = lin_of(st.F, seqs.get(E, st, s, laddc(seqs.length(st.F, s), -1)), 8, False)
    if r is None:
        return 1 if seqs.need(st.F, laddc(lscale(top, -1), 127)) else -1
    # the sign is the top bit of the canonical bytes
    if not st.F.assume_ge(laddc(lscale(top, -1), 127) if r > 0 else laddc(top, -128)):
        raise Infeasible()
    record(st, key, r)
    return r


class Infeasible(Unsup):
    pass


@model(BI + "::sign", BD + "::sign")
def _(E, st, c):
    v = num(E, st, c.args[0])
    if isinstance(v, Opq) and num_type(E, v) == "BUint":
        raise Unsup("sign of %r" % (v,))
    return Agg([], sign_of(E, st, v) + 1)


for _n, _w in (("is_negative", -1), ("is_positive", 1)):
    def _f(E, st, c, w=_w):
        return int(sign_of(E, st, num(E, st, c.args[0])) == w)
    for _t in (BI, BD):
        model("<%s as num_traits::sign::Signed>::%s" % (_t, _n))(_f)


def small_num(E, st, c):
    x = c.args[0]
    t = E.ty(c.atys[0])
    if not isinstance(x, int) or t.k != "int":
        raise Unsup("a number from %r" % (x,))
    if t.d["s"] and x >> (t.d["bits"] - 1):
        x -= 1 << t.d["bits"]
    return x


def const_num(kind, x):
    if not x:
        return Obj(kind, Seq())
    n = (x.bit_length() + 7) // 8 if kind == "BUint" else x.bit_length() // 8 + 1 if x > 0 else (x + 1).bit_length() // 8 + 1
    return Obj(kind, seqs.elems(*(x & ((1 << 8 * n) - 1)).to_bytes(n, "little")))


for _i in ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"):
    for _t, _k in ((BU, "BUint"), (BI, "BInt"), (BD, "BDec")):
        def _f(E, st, c, k=_k):
            x = small_num(E, st, c)
            return Obj("BDec", const_num("BInt", x), 0) if k == "BDec" else const_num(k, x)
        model("<%s as core::convert::From<%s>>::from" % (_t, _i),
              "%s::convert::<impl core::convert::From<%s> for %s>::from" % (_t.rsplit("::", 1)[0], _i, _t))(_f)


def _eq(E, st, c):
    a, b = num(E, st, c.args[0]), num(E, st, c.args[1])
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Obj):
            try:
                z = zero_num(E, st, x)
            except Unsup:
                continue
            if z:
                r = zero_num(E, st, y)
                break
    else:
        keep = getattr(st, "undec", None)
        st.undec = None
        try:
            r = eqnum(E, st, a, b)
        finally:
            st.undec = keep
        if r not in (True, False):
            raise Unsup("are two numbers equal")
    return int(bool(r) == c.cpath.endswith("::eq"))


for _t in (BU, BI, BD):
    model("<%s as core::cmp::PartialEq>::eq" % _t, "<%s as core::cmp::PartialEq>::ne" % _t)(_eq)


@model(BU + "::bits", BI + "::bits")
def _(E, st, c):
    v = num(E, st, c.args[0])
    if zero_num(E, st, v):
        return 0
    if not isinstance(v, Opq):
        raise Unsup("bit length of %r" % (v,))
    x = memo_var(("bits", v.t), 64, False, "bits(%s)" % show_term(v.t), 1, 1 << 50)
    return Sc(64, None, LV(x.vid))


@model(BU + "::to_radix_le")
def _(E, st, c):
    if c.args[1] != 256:
        raise Unsup("digits in base %r" % (c.args[1],))
    return to_bytes("digits", "BUint")(E, st, c)


def numeric(E, c, inst):
    t = E.ty(c.cargs[0]) if c.cargs and isinstance(c.cargs[0], int) else None
    return t is not None and t.k == "adt" and t.d["path"] in (BU, BI, BD, DATE, ODT, TIME, DUR)


@model("core::clone::Clone::clone", when=numeric)
def _(E, st, c):
    return sub(E, st, c.args[0])


# ---------------------------------------------------------------- decimals
@model(BD + "::normalized")
def _(E, st, c):
    v = num(E, st, c.args[0])
    if isinstance(v, Opq):
        return v if v.t[0] == "norm" else Opq(("norm", v.t), v.ty)
    if zero_num(E, st, v):
        return Obj("BDec", Obj("BInt", Seq()), 0)
    raise Unsup("normal form of %r" % (v,))


def scale_of(t):
    v = memo_var(("scale", t), 64, True, "scale(%s)" % show_term(t))
    return Sc(64, None, LV(v.vid))


def parts(E, v, biy):
    if isinstance(v, Opq):
        return Opq(("bi", v.t), biy), scale_of(v.t)
    return v.d


@model(BD + "::into_bigint_and_exponent", BD + "::as_bigint_and_exponent")
def _(E, st, c):
    v = num(E, st, c.args[0])
    return Agg(parts(E, v, E.ty(c.dty).d["fields"][0]))


def decimal(F, b, s, ty):
    if isinstance(b, Opq) and b.t[0] == "bi" and F.eq0(lsub(lin_of(F, s, 64, True), lin_of(F, scale_of(b.t[1]), 64, True))) is True:
        return Opq(b.t[1], ty)
    return Obj("BDec", b, s)


@model(BD + "::new")
def _(E, st, c):
    return decimal(st.F, num(E, st, c.args[0]), c.args[1], c.dty)


@model("<%s as core::convert::From<%s>>::from" % (BD, BI))
def _(E, st, c):
    return decimal(st.F, num(E, st, c.args[0]), 0, c.dty)


# ---------------------------------------------------------------- equality of numbers
NUMS = ("BUint", "BInt", "BDec")


def num_type(E, v):
    if isinstance(v, Opq):
        if v.t[0] in ("bi", "norm"):
            return "BInt" if v.t[0] == "bi" else "BDec"
        if v.ty is None:
            return None
        t = E.ty(v.ty)
        p = t.d.get("path") if t.k == "adt" else None
        return {BU: "BUint", BI: "BInt", BD: "BDec"}.get(p)
    return v.k if isinstance(v, Obj) and v.k in NUMS else None


def quiet(E, st, a, b):
    """equality without notes: the same number may be written with different digits"""
    keep = getattr(st, "undec", None)
    st.undec = None
    try:
        return seqs.eqseq(E, st, a, b)
    finally:
        st.undec = keep


def sources(s):
    """the digit sequences a sequence is made of"""
    out = set()
    for x in s.s:
        if x[0] == "S":
            out.add(x[1])
        elif x[0] == "E":
            for b in x[1]:
                vs = set()
                vars_of(b, vs)
                for v in vs:
                    k = VARS[v].key
                    if k and k[0] == "byte":
                        out.add(k[1])
    return out


def eqnum(E, st, a, b):
    """are two numbers equal?  True / False / None; a definite difference of undetermined values is noted"""
    F = st.F
    k = num_type(E, a)
    if k is None or num_type(E, b) != k:
        return NotImplemented
    if isinstance(a, Opq) and isinstance(b, Opq) and seqs.eqterm(F, strip(a.t), strip(b.t)):
        return True
    if isinstance(a, Obj) and isinstance(b, Obj) and k != "BDec" and quiet(E, st, a.d[0], b.d[0]) is True:
        return True
    try:
        za, zb = zero_num(E, st, a), zero_num(E, st, b)
    except Unsup:
        za = zb = None
    if za is not None:
        if za != zb:
            return False
        if za:
            return True
    if k == "BDec":
        (x, s), (y, t) = parts(E, a, None), parts(E, b, None)
        for p, q in ((a, b), (b, a)):
            if isinstance(p, Obj) and isinstance(q, Opq) and isinstance(p.d[0], Obj):
                # digits and scale are compared with those of the number as given and as normalised
                for u in (q.t, ("norm", strip(q.t))):
                    if ("sdigits", ("bi", u)) in sources(p.d[0].d[0]) and quiet(E, st, p.d[0].d[0], digits(E, st, ("bi", u), "sdigits")) is True:
                        return seqs.eqv(E, st, p.d[1], scale_of(u))
        for p, q in ((x, b), (y, a)):
            # scales are comparable only between equal digits
            if isinstance(p, Opq) and p.t[0] == "bi" and isinstance(q, Opq) and strip(p.t[1]) == strip(q.t):
                r = seqs.eqv(E, st, s if p is x else t, scale_of(p.t[1]))
                return r
        r = eqnum(E, st, x, y)
        if r is True:
            return seqs.eqv(E, st, s, t)
        return None
    kind = "digits" if k == "BUint" else "sdigits"
    if isinstance(a, Opq) and isinstance(b, Opq):
        seqs.note(st, ("opq", a.t, b.t))
        return None
    sa = digits(E, st, a.t, kind) if isinstance(a, Opq) else a.d[0]
    sb = digits(E, st, b.t, kind) if isinstance(b, Opq) else b.d[0]
    if F.eq0(lsub(seqs.length(F, sa), seqs.length(F, sb))) is True:
        return seqs.eqseq(E, st, sa, sb)
    for p, q in ((sa, sb), (sb, sa)):
        # canonical digits cut short denote another number
        if len(p.s) == 1 and len(q.s) == 1 and p.s[0][0] == q.s[0][0] == "S" and p.s[0][1] == q.s[0][1] and q.s[0][1][0] == kind \
                and F.eq0(lsub(p.s[0][2], q.s[0][2])) is True and F.sign(laddc(lsub(q.s[0][3], p.s[0][3]), -1)) > 0:
            return False
    return None


import dates  # noqa: E402  the calendar
