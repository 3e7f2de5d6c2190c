"""Obligations about the library's own date and number types, their conversions from and to the types of other
crates, and the field-format helpers."""
from core import *
import seqs, spec, rec, third
from rt import MARK, ok_payload, split_on_forks

KINDS = {"date": "Date", "date_time": "DateTime", "big_uint": "BigUInt", "big_int": "BigInt", "big_decimal": "BigDecimal"}
DATES = ("date", "date_time")
NUMS = ("big_uint", "big_int", "big_decimal")
PARTS = 9


# ---------------------------------------------------------------- values
def theirs(J, kind, t=("v",)):
    """an arbitrary value of the other crate's type"""
    H = J.H
    return Opq(t, H.argty("third::%s::ser" % kind, 0))


def ours(J, kind, t=("w",)):
    """an arbitrary value of the library's type"""
    return Opq(t, J.H.argty("third::%s::wrap::ser" % kind, 0))


def pre(kind, part=None):
    """the library type's invariant, and one class of lengths"""
    def f(J, E, st):
        w = ours(J, kind)
        rec.value_pre(E, st, w, part)
        return w
    return f


def size_pre(E, st, kind, v, part):
    """one class of digit counts of a number"""
    if part is None:
        return True
    z = third.is_zero(st, v.t)
    if z:
        if part:
            raise Stop()
        return True
    t = ("bi", ("norm", v.t)) if kind == "big_decimal" else v.t
    rec.size_class(st.F, seqs.length(st.F, third.digits(E, st, t, "digits" if kind == "big_uint" else "sdigits")), part)
    return True


# ---------------------------------------------------------------- the format
def wire_theirs(kind):
    def f(E, st, v):
        F = st.F
        if kind == "date":
            d = third.whole(E, st, v, "TDate")
            y, o = lin_of(F, d.d[0], 32, True), lin_of(F, d.d[1], 16, False)
            return spec.varint(F, spec.zz(F, laddc(y, -2000)), 32) + spec.varint(F, laddc(o, -1), 16)
        if kind == "date_time":
            d = third.whole(E, st, v, "TOdt")
            return spec.i(E, st, d.d[0], 64) + spec.u(E, st, d.d[1], 32)
        if third.zero_num(E, st, v):
            return spec.E_(0)
        if kind == "big_decimal":
            n = Opq(("norm", v.t), v.ty)
            return spec.blob(E, st, third.digits(E, st, ("bi", n.t), "sdigits")) + spec.i(E, st, third.scale_of(n.t), 64)
        return spec.blob(E, st, third.digits(E, st, v.t, "digits" if kind == "big_uint" else "sdigits"))
    return f


def wire_ours(kind):
    if kind == "date":
        return spec.date
    if kind == "date_time":
        return spec.fields(spec._S["i64"], spec._S["u32"])
    if kind == "big_decimal":
        return spec.decimal
    return spec.blob


def as_ours(kind):
    """the library's value for a value of the other crate: what its fields must hold"""
    def f(E, st, v):
        if kind == "date":
            return Agg(third.whole(E, st, v, "TDate").d)
        if kind == "date_time":
            return Agg(third.whole(E, st, v, "TOdt").d)
        z = third.zero_num(E, st, v)
        if kind == "big_decimal":
            n = ("norm", v.t)
            if z:
                return Agg([Obj("Vec", Seq()), 0])
            return Agg([Obj("Vec", third.digits(E, st, ("bi", n), "sdigits")), third.scale_of(n)])
        return Agg([Obj("Vec", Seq() if z else third.digits(E, st, v.t, "digits" if kind == "big_uint" else "sdigits"))])
    return f


# ---------------------------------------------------------------- comparisons
def cases(J, name, E, st, a, want, what, key):
    """a equals want(E, state) on every refinement"""
    try:
        res = split_on_forks(st, lambda y: want(E, y))
    except Unsup as e:
        J.add(name, "undecided", "%s: %s" % (what, e))
        return
    for y, b in res:
        J.same(E, name, y, a, b, what, key)


def rest(J, name, E, st):
    J.same(E, name, st, st.src, Seq((MARK,)), "unread input after decoding", "rest", seq=True)


def decoded(J, E, st, root, bytes_):
    c = st.clone()
    c.src = Seq(bytes_.s + (MARK,))
    for f in ("eof", "nreads"):
        c.flags.pop(f, None)
    return J.H.call(E, c, root, [Ptr(c.alloc(Obj("Src")))])


# ---------------------------------------------------------------- round trips
def helper_roundtrip(J, kind, part=None):
    name = "third::" + kind

    def go(E):
        v = theirs(J, kind)
        st = J.H.init(E, {})
        for s, _ in split_on_forks(st, lambda y: size_pre(E, y, kind, v, part)):
            for o in J.encode(E, s, name + "::ser", v, name):
                J.wire(E, name, o, v, wire_theirs(kind))
                for x in decoded(J, E, o, name + "::de", o.sink):
                    r = J.returned(name, x, "decoding")
                    if r is None:
                        continue
                    if r[0] != "ok":
                        J.fail(name, x, "decoding the value's own encoding returns an error", "dec-err")
                        continue
                    J.same(E, name, x.clone(), r[1], v, "decoded value", "value")
                    rest(J, name, E, x)
    J.guarded(name, go)


def wrapper_roundtrip(J, kind, part=None):
    name = "third::%s::wrap" % kind

    def go(E):
        st = J.H.init(E, {})
        for s, w in split_on_forks(st, lambda y: pre(kind, part)(J, E, y)):
            for o in J.encode(E, s, name + "::ser", w, name):
                J.wire(E, name, o, w, wire_ours(kind))
                for x in decoded(J, E, o, name + "::de", o.sink):
                    r = J.returned(name, x, "decoding")
                    if r is None:
                        continue
                    if r[0] != "ok":
                        J.fail(name, x, "decoding the value's own encoding returns an error", "dec-err")
                        continue
                    J.same(E, name, x.clone(), r[1], w, "decoded value", "value")
                    rest(J, name, E, x)
    J.guarded(name, go)


def reads(J, kind, form, wrap, part=None):
    """the same bytes with long varints"""
    name = "third::%s%s" % (kind, "::wrap" if wrap else "")
    what = "%s/%d" % (name, form)

    def go(E):
        st = J.H.init(E, {})
        w0 = None if wrap else theirs(J, kind)
        wire = (wire_ours if wrap else wire_theirs)(kind)
        for s, v in split_on_forks(st, lambda y: pre(kind, part)(J, E, y) if wrap else (size_pre(E, y, kind, w0, part), w0)[1]):
            for y, b in split_on_forks(s, lambda y: J.long_form(E, y, v, wire, form)):
                J.read_back(E, what, decoded(J, E, y, name + "::de", Seq(b)), v)
    J.guarded(what, go)


# ---------------------------------------------------------------- conversions
def run(J, E, st, root, v):
    return J.H.call(E, st, root, [v])


def converted_from(J, kind):
    """from(v) holds what v is; to(from(v)) is v"""
    name = "third::c_%s" % kind

    def go(E):
        v = theirs(J, kind)
        for o in run(J, E, J.H.init(E, {}), name + "::from", v):
            if o.status != "ret":
                J.stuck(name + "::from", o, "converting")
                continue
            J.npaths += 1
            w = o.result
            cases(J, name + "::from", E, o.clone(), w, lambda E, y: as_ours(kind)(E, y, v), "converted value", "from")
            for x in run(J, E, o, name + "::to", w):
                if x.status != "ret":
                    J.stuck(name + "::to", x, "converting back")
                    continue
                J.npaths += 1
                r = x.result
                if kind in DATES:
                    k, r = ok_payload(r)
                    if k != "ok":
                        J.fail(name, x, "a converted value cannot be converted back", "back-err")
                        continue
                J.same(E, name, x, r, v, "value converted there and back", "back")
    J.guarded(name, go)


def converted_to(J, kind):
    """an arbitrary library value converts to what its fields denote, or is refused when they denote nothing"""
    name = "third::c_%s::to" % kind

    def go(E):
        w = ours(J, kind)
        for o in run(J, E, J.H.init(E, {}), name, w):
            if o.status != "ret":
                J.stuck(name, o, "converting")
                continue
            J.npaths += 1
            denotes(J, name, E, o, kind, w, o.result)
    J.guarded(name, go)


def denotes(J, name, E, o, kind, w, r):
    """r is the conversion of library value w"""
    d = E.expand(o, w) if isinstance(w, Opq) else w
    if kind in DATES:
        k, r = ok_payload(r)
        x, y = (E.expand(o, f) if isinstance(f, Opq) else f for f in d.f)
        if kind == "date":
            a, b = lin_of(o.F, x, 32, True), lin_of(o.F, y, 16, False)
            def want(E, s):
                return third.valid_date(E, s, a, b)
        else:
            a, b = lin_of(o.F, x, 64, True), lin_of(o.F, y, 32, False)
            def want(E, s):
                return third.in_range(E, s, a) and seqs.need(s.F, laddc(lscale(b, -1), third.G - 1))
        if k == "ok":
            if kind == "date":
                J.same(E, name, o, r, Obj("TDate", x, y), "converted date", "to")
            else:
                def total(s, v):
                    v = third.whole(E, s, v, "TOdt")
                    return third.nanos(s.F, v)
                try:
                    t = total(o, r)
                except Unsup as u:
                    J.add(name, "undecided", str(u))
                    return
                diff = lsub(t, ladd(lscale(a, third.G), b))
                q = o.F.eq0(diff)
                if q is None:
                    J.must(name, o, Cnd("eq", diff), "the converted instant is another one", "to")
                elif q:
                    J.add(name, "ok")
                else:
                    J.fail(name, o, "the converted instant is another one", "to")
            return
        for s, valid in split_on_forks(o, lambda s: want(E, s)):
            if valid:
                J.fail(name, s, "a valid value is refused by the conversion", "to-err")
            else:
                J.add(name, "ok")
        return
    J.same(E, name, o, r, denoted(E, o, kind, d, J.H.argty("third::%s::ser" % kind, 0)), "converted number", "to")


def denoted(E, st, kind, d, ty):
    b = E.expand(st, d.f[0]) if isinstance(d.f[0], Opq) else d.f[0]
    if kind == "big_uint":
        return third.number(E, st, b.d[0], "digits", "BUint", ty)
    n = third.number(E, st, b.d[0], "sdigits", "BInt", None)
    if kind == "big_int":
        return n if isinstance(n, Obj) else Opq(n.t, ty)
    return third.decimal(st.F, n, E.expand(st, d.f[1]) if isinstance(d.f[1], Opq) else d.f[1], ty)


def decoded_invariant(J, kind):
    """what decoding arbitrary bytes can put into a library value"""
    name = "third::%s::wrap" % kind

    def go(E):
        import loops
        st = J.H.init(E, dict(input="any"))
        for o in J.H.dec(E, st, name + "::de", loops.havoc_src(st)):
            r = J.returned(name, o, "decoding")
            if r is None:
                continue
            if r[0] == "err":
                J.add(name, "ok")
                continue
            d = E.expand(o, r[1]) if isinstance(r[1], Opq) else r[1]
            x, y = (E.expand(o, f) if isinstance(f, Opq) else f for f in d.f)
            if kind == "date":
                J.must(name, o, Cnd("ge", laddc(lin_of(o.F, x, 32, True), (1 << 31) - 2000)), "a decoded year cannot be written again", "year")
                J.must(name, o, Cnd("ge", laddc(lin_of(o.F, y, 16, False), -1)), "a decoded day of year is zero", "day")
            else:
                for s, e in split_on_forks(o, lambda s: seqs.needeq(s.F, seqs.length(s.F, x.d[0]))):
                    if e:
                        J.must(name, s, Cnd("eq", lin_of(s.F, y, 64, True)), "a decoded zero has a scale", "scale")
                    else:
                        J.add(name, "ok")
    J.guarded(name, go)


# ---------------------------------------------------------------- helper against wrapper
def same_bytes(J, kind, part=None):
    """helper.ser(v) writes what wrapper.ser(from(v)) writes, and the wrapper decodes it to from(v)"""
    name = "third::%s/bytes" % kind
    base = "third::" + kind

    def go(E):
        v = theirs(J, kind)
        st = J.H.init(E, {})
        for s, _ in split_on_forks(st, lambda y: size_pre(E, y, kind, v, part)):
            for o in J.encode(E, s, base + "::ser", v, name):
                first = o.sink
                for c in run(J, E, o, "third::c_%s::from" % kind, v):
                    if c.status != "ret":
                        J.stuck(name, c, "converting")
                        continue
                    w = c.result
                    for p in J.H.enc(E, c.clone(), base + "::wrap::ser", w):
                        r = J.returned(name, p, "encoding the wrapper")
                        if r is None:
                            continue
                        if r[0] != "ok":
                            J.fail(name, p, "only one of the two refuses the value", "enc-err")
                            continue
                        J.same(E, name, p, p.sink, first, "the wrapper's bytes", "bytes", seq=True)
                    for x in decoded(J, E, c, base + "::wrap::de", first):
                        r = J.returned(name, x, "decoding as wrapper")
                        if r is None:
                            continue
                        if r[0] != "ok":
                            J.fail(name, x, "the wrapper cannot decode the helper's bytes", "dec-err")
                            continue
                        J.same(E, name, x.clone(), r[1], w, "the wrapper decoded from the helper's bytes", "value")
                        rest(J, name, E, x)
    J.guarded(name, go)


def cross_decode(J, kind, part=None):
    """the helper decodes what any wrapper value writes, to what that value converts to"""
    name = "third::%s/cross" % kind
    base = "third::" + kind

    def go(E):
        st = J.H.init(E, {})
        for s, w in split_on_forks(st, lambda y: pre(kind, part)(J, E, y)):
            for o in J.encode(E, s, base + "::wrap::ser", w, name):
                bytes_ = o.sink
                for c in run(J, E, o, "third::c_%s::to" % kind, w):
                    if c.status != "ret":
                        J.stuck(name, c, "converting")
                        continue
                    k, want = ok_payload(c.result) if kind in DATES else ("ok", c.result)
                    for x in decoded(J, E, c, base + "::de", bytes_):
                        r = J.returned(name, x, "decoding with the helper")
                        if r is None:
                            continue
                        if r[0] != k:
                            J.fail(name, x, "the helper %s what the wrapper's conversion %s" %
                                   (("refuses", "accepts") if k == "ok" else ("accepts", "refuses")), "agree")
                            continue
                        if k == "err":
                            J.add(name, "ok")
                            continue
                        J.same(E, name, x.clone(), r[1], want, "the helper's value for the wrapper's bytes", "value")
                        rest(J, name, E, x)
    J.guarded(name, go)


def setup_theirs(J, E, kind, mode, part=None):
    v = theirs(J, kind)
    return [(s, v) for s, _ in split_on_forks(J.H.init(E, mode), lambda y: size_pre(E, y, kind, v, part))]


def setup_ours(J, E, kind, mode, part=None):
    return [(s, w) for s, w in split_on_forks(J.H.init(E, mode), lambda y: pre(kind, part)(J, E, y))]


def helper_described(J, kind, hdr, part=None):
    """the encoding the helper writes, decoded dynamically under the header of the other crate's type"""
    name = "third::" + kind

    def conv(E, y, v, bty):
        return Agg([as_ours(kind)(E, y, v)], spec.kinds_of(E, bty).index(KINDS[kind]))
    J.described(name, conv, part, "headers::ext::h_%s::ser" % hdr, name + "::ser", lambda E, y, v: size_pre(E, y, kind, v, part))
