"""Structural induction over headers and bodies: a recursive call on a strict part of the root value is not
entered; the part's encoding is one opaque token, exactly as for a component type."""
from core import *
import seqs, models

ROOTS = (("v",), ("h",))
HDR, BODY = "dlhn::header::Header", "dlhn::body::Body"
FACADE = {"dlhn::Header": HDR, "dlhn::Body": BODY}


def path_of(t):
    p = t.d.get("path") if t.k == "adt" else None
    return FACADE.get(p, p)


def target(E, tid):
    t = E.ty(tid)
    return E.ty(t.d["to"]) if t.k == "ptr" else t


def pointee(E, st, v):
    for _ in range(4):
        if isinstance(v, Ptr):
            v = E.walk(st, v.a, v.p)
        elif isinstance(v, Obj) and v.k == "Box":
            v = v.d[0]
        else:
            break
    return v


def on_stack(E, st, inst):
    for f in st.frames:
        if f.inst is not None and (f.inst.id == inst.id or f.inst.path == inst.path):
            return True
    return False


def stream(E, st, c, want):
    for v, t in zip(c.args, c.atys):
        s = models.find_stream(E, st, v, t, want)
        if s is not None:
            return s
    return None


def result_of(E, tid):
    """(ok type, err type) of a Result"""
    t = E.ty(tid)
    if t.k == "adt" and t.d["path"] == "core::result::Result" or t.k == "adt" and t.d["path"] == "std::result::Result":
        return tuple(v["fields"][0][1] for v in t.d["variants"])
    return None


def parts(E, st, c):
    """opaque headers and bodies among the arguments: [(kind, Opq)]"""
    out = []
    for v, t in zip(c.args, c.atys):
        p = path_of(target(E, t))
        if p in (HDR, BODY):
            x = pointee(E, st, v)
            out.append((p, x))
    return out


def hook(pairs=None):
    """pairs(E, st, h, b) -> bool: is header term h the one that belongs to body term b (round trip of bodies)"""
    def ih(E, st, inst, c):
        if c.atys is None or not (inst.local or inst.krate == "dlhn" or "dlhn" in inst.path):
            return None
        r = result_of(E, c.dty)
        ps = parts(E, st, c)
        if r is None:
            t = E.ty(c.dty)
            if t.k == "bool" and len(ps) == 2 and on_stack(E, st, inst):
                return valid_token(E, st, ps)
            return None
        ok = E.ty(r[0])
        if path_of(ok) in (HDR, BODY):
            if not on_stack(E, st, inst):
                return None
            s = stream(E, st, c, "Src")
            if s is None:
                return None
            sub = [x for p, x in ps if p == HDR]
            if not sub and all(models.find_stream(E, st, v, t, "Src") is not None for v, t in zip(c.args, c.atys)):
                E.input_recursion = inst.path
            if sub and not (isinstance(sub[0], Opq) and sub[0].t not in ROOTS):
                return None
            if not sub and st.mode.get("input") != "any":
                f = seqs.front(E, st)
                if f is not None and f[0] != "T":
                    return None
            if sub and pairs is not None and st.mode.get("input") != "any":
                f = seqs.front(E, st)
                if f is not None and f[0] == "T" and f != ("T", ("END",)) and not pairs(E, st, sub[0].t, f[1]):
                    raise Desync("an element is decoded under a header that is not its own")
            return models.take_token(E, st, c, r[0], r[1], sub[0].t if sub else None)
        if ok.k == "tuple" and not ok.d["fields"] and len(ps) == 1 and on_stack(E, st, inst):
            x = ps[0][1]
            if isinstance(x, Opq) and x.t not in ROOTS and stream(E, st, c, "Sink") is not None:
                return models.emit_token(E, st, c, x.t, stream(E, st, c, "Sink"))
        return None
    return ih


def valid_token(E, st, ps):
    h = [x for p, x in ps if p == HDR]
    b = [x for p, x in ps if p == BODY]
    if len(h) != 1 or len(b) != 1 or not isinstance(h[0], Opq) or not isinstance(b[0], Opq):
        return None
    if h[0].t in ROOTS and b[0].t in ROOTS:
        return None
    k = st.choice(2, "valid")
    tok = Seq((("T", ("valid", b[0].t, h[0].t)),))
    if k:
        st.flags["invalid"] = (b[0].t, h[0].t)
        return 0
    models.emit(E, st, tok)
    return 1


# ---------------------------------------------------------------- bodies
def body_pre(E, st, hty, bty, k, part=None):
    """an arbitrary body of kind k and an arbitrary header it matches at this level (parts match by induction)"""
    import spec
    hk, bk = spec.kinds_of(E, hty), spec.kinds_of(E, bty)
    st.F.variants[("h",)] = hk.index(k)
    st.F.variants[("v",)] = bk.index(k)
    h, b = Opq(("h",), hty), Opq(("v",), bty)
    shape_pre(E, st, k, h, b)
    if part is not None:
        size_class(st.F, seqs.length(st.F, E.expand(st, E.expand(st, E.expand(st, b).f[0]).f[0]).d[0]), part)
    return h, b


def shape_pre(E, st, k, h, b):
    F = st.F
    x, y = E.expand(st, h), E.expand(st, b)
    if k == "Tuple":
        # one length for both
        b = E.expand(st, y.f[0]).d[0].s[0]
        import core
        n = core.MEMO[("len", b[1])]
        core.MEMO[("len", ("seq", x.f[0].t))] = n
        E.expand(st, x.f[0])
        F.assume_ge(laddc(lscale(LV(n.vid), -1), 1 << 44))   # both lists are in memory
    elif k == "Enum":
        n = seqs.length(F, E.expand(st, x.f[0]).d[0])
        i = lin_of(F, E.expand(st, y.f[0]), 32, False)
        F.assume_ge(laddc(lsub(n, i), -1))
    elif k == "Date":
        date_pre(E, st, y.f[0])
    elif k == "BigDecimal":
        decimal_pre(E, st, y.f[0])


def value_pre(E, st, v, part=None):
    """what the constructors of the date and decimal types guarantee"""
    p = E.ty(v.ty).d.get("path") if E.ty(v.ty).k == "adt" else None
    if p == "dlhn::date::Date":
        date_pre(E, st, v)
    elif p == "dlhn::big_decimal::BigDecimal":
        decimal_pre(E, st, v)
        if part is not None:
            size_class(st.F, seqs.length(st.F, E.expand(st, E.expand(st, v).f[0]).d[0]), part)


def date_pre(E, st, v):
    F = st.F
    d = E.expand(st, v)
    year, day = E.expand(st, d.f[0]), E.expand(st, d.f[1])
    F.assume_ge(laddc(lin_of(F, year, 32, True), (1 << 31) - 2000))
    F.assume_ge(laddc(lin_of(F, day, 16, False), -1))


def decimal_pre(E, st, v):
    F = st.F
    d = E.expand(st, v)
    n = seqs.length(F, E.expand(st, d.f[0]).d[0])
    sc = lin_of(F, E.expand(st, d.f[1]), 64, True)
    if seqs.needeq(F, n):
        F.assume(Cnd("eq", sc))


def belongs(k):
    def f(E, st, h, b):
        import spec
        F = st.F
        if k in ("Optional", "Array", "Map"):
            return h[0] == "deref"
        if h[0] != "elem":
            return False
        if k == "Tuple":
            return b[0] == "elem" and F.eq0(lsub(h[2], b[2])) is True
        if k == "Enum":
            i = lin_of(F, E.expand(st, E.expand(st, Opq(("v",), st.mode["bty"])).f[0]), 32, False)
            return F.eq0(lsub(h[2], i)) is True
        return False
    return f


def size_class(F, n, part):
    """restrict a length to those whose varint has part + 1 bytes"""
    if not F.assume_ge(laddc(n, -(1 << (7 * part) if part else 0))):
        raise Stop()
    if part < 8 and not F.assume_ge(laddc(lscale(n, -1), (1 << (7 * part + 7)) - 1)):
        raise Stop()


# ---------------------------------------------------------------- validation
def required(E, st, k, h, b):
    """what must hold for the pair, both of kind k: (structural condition or None, run of parts (n, body src) or single pairs)"""
    F = st.F
    x, y = E.expand(st, h), E.expand(st, b)
    if k == "Optional":
        o = E.expand(st, y.f[0])
        return None, None, [spec_inner(E, o.f[0])] if o.v == 1 else []
    if k in ("Array", "Tuple"):
        q = E.expand(st, y.f[0]).d[0].s
        n = seqs.length(F, Seq(q))
        cond = None
        if k == "Tuple":
            cond = Cnd("eq", lsub(n, seqs.length(F, E.expand(st, x.f[0]).d[0])))
        return cond, n, []
    if k == "Map":
        return None, seqs.length(F, E.expand(st, y.f[0]).d[0]), []
    if k == "Enum":
        i = lin_of(F, E.expand(st, y.f[0]), 32, False)
        n = seqs.length(F, E.expand(st, x.f[0]).d[0])
        return Cnd("ge", laddc(lsub(n, i), -1)), None, [spec_inner(E, y.f[1])]
    return None, None, []


def spec_inner(E, b):
    import spec
    return spec.inner(b, E).t


def trace(F, sink):
    """validated parts: [(body term, header term, lo, hi)]; KV runs from lo to hi where the segment is a family"""
    out = []
    for s in sink.s:
        if s[0] == "T" and s[1][0] == "valid":
            out.append((s[1][1], s[1][2], None, None))
        elif s[0] == "K" and len(s[1]) == 1 and s[1][0][0] == "T" and s[1][0][1][0] == "valid":
            out.append((s[1][0][1][1], s[1][0][1][2], s[2], s[3]))
        else:
            raise Unsup("validation trace %r" % (s,))
    return out


def intervals(F, tr):
    """[(start, end)] of the part indices that were validated, every index of a run exactly once"""
    out = []
    for b, h, lo, hi in tr:
        if b[0] not in ("elem", "val"):
            raise Unsup("validated part %r" % (b,))
        i = b[2]
        if lo is None:
            out.append((i, laddc(i, 1)))
            continue
        c = dict(i[1]).get(KV, 0)
        if c == 1:
            out.append((substv(i, KV, lo), substv(i, KV, hi)))
        elif c == -1:
            out.append((laddc(substv(i, KV, hi), 1), laddc(substv(i, KV, lo), 1)))
        else:
            raise Unsup("validated part %r" % (b,))
    return out
