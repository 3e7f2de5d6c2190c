"""Operations on segment sequences."""

from core import *


def seglen(F, s):
    k = s[0]
    if k == "E":
        return L(len(s[1]))
    if k == "S":
        return s[3]
    if k == "R" or k == "F":
        return s[2]
    if k == "K":
        t = L(0)
        for x in s[1]:
            l = seglen(F, x)
            if l is None or any(v == KV for v, _ in l[1]):
                return None
            t = ladd(t, l)
        n = lsub(s[3], s[2])
        if not t[1]:
            return lscale(n, t[0])
        if not n[1]:
            return lscale(t, n[0])
        return None
    return None


def length(F, v):
    if isinstance(v, Obj) and v.k == "Vec":
        v = v.d[0]
    if not isinstance(v, Seq):
        raise Unsup("length of %r" % (v,))
    t = L(0)
    for s in v.s:
        l = seglen(F, s)
        if l is None:
            raise Unsup("length of %r" % (v,))
        t = ladd(t, l)
    return F.lnorm(t)


def norm(F, segs):
    out = []
    for s in segs:
        k = s[0]
        if k == "E":
            if not s[1]:
                continue
            if out and out[-1][0] == "E":
                out[-1] = ("E", out[-1][1] + s[1])
                continue
        elif k == "S":
            n = F.lnorm(s[3])
            if n == L(0) or F.eq0(n) is True:
                continue
            if out and out[-1][0] == "S" and out[-1][1] == s[1]:
                p = out[-1]
                if F.eq0(lsub(ladd(p[2], p[3]), s[2])) is True:
                    out[-1] = ("S", s[1], p[2], ladd(p[3], s[3]))
                    continue
        elif k == "R":
            if F.eq0(s[2]) is True:
                continue
            if out and out[-1][0] == "R" and out[-1][1] == s[1]:
                out[-1] = ("R", s[1], ladd(out[-1][2], s[2]))
                continue
        elif k == "K":
            if F.eq0(lsub(s[3], s[2])) is True:
                continue
            if out and out[-1][0] == "K" and out[-1][1] == s[1] and F.eq0(lsub(s[2], out[-1][3])) is True:
                out[-1] = ("K", s[1], out[-1][2], s[3])
                continue
        out.append(s)
    return Seq(out)


def cat(F, *parts):
    segs = []
    for p in parts:
        segs += list(p.s)
    return norm(F, segs)


def need(F, lin):
    """decide lin >= 0, forking if unknown"""
    s = F.sign(lin)
    if s == 0:
        raise Fork([lambda st: st.F.assume_ge(lin), lambda st: st.F.assume_ge(laddc(lscale(lin, -1), -1))], "ge")
    return s > 0


def needeq(F, lin):
    r = F.eq0(lin)
    if r is None:
        c = Cnd("eq", lin)
        raise Fork([lambda st: st.F.assume(c), lambda st: st.F.assume(c, False)], "eq")
    return r


def peel(s):
    """instantiate the first instance of a K segment"""
    inst = [substv(x, KV, s[2]) for x in s[1]]
    return inst, ("K", s[1], laddc(s[2], 1), s[3])


def apply_delta(F, delta):
    for d in delta:
        k = d[0]
        if k == "rng":
            v = d[1]
            if not F.assume_ge(laddc(LV(v), -d[2])) or not F.assume_ge(laddc(lscale(LV(v), -1), d[3])):
                return False
        elif k == "kb":
            for i in range(VARS[d[1]].w):
                if (d[2] >> i) & 1 and not F.assume_atom(atom(d[1], i), (d[3] >> i) & 1):
                    return False
        elif k == "ge":
            if not F.assume_ge(d[1]):
                return False
        elif k == "ne":
            if not F.assume_ne(d[1]):
                return False
        elif k == "var":
            if F.variants.get(d[1], d[2]) != d[2]:
                return False
            F.variants[d[1]] = d[2]
        elif k == "misc":
            if F.misc.get(d[1], d[2]) != d[2]:
                return False
            F.misc[d[1]] = d[2]
    return True


def choose_alt(F, s, i, segs):
    """the first segment has alternatives: pick the one consistent with the facts, or fork"""
    live = []
    for k, (delta, sg) in enumerate(s[1]):
        g = F.clone()
        if apply_delta(g, delta):
            live.append(k)
    if not live:
        raise Stop()
    if len(live) > 1:
        raise Fork([(lambda st, d=s[1][k][0]: apply_delta(st.F, d)) for k in live], "alternative")
    delta, sg = s[1][live[0]]
    apply_delta(F, delta)
    segs[i:i + 1] = list(sg)


def split(E, st, seq, off):
    """seq -> (seq[:off], seq[off:]); off is a lin within bounds"""
    F = st.F
    off = F.lnorm(off)
    left = []
    segs = list(seq.s)
    i = 0
    while i < len(segs):
        if F.eq0(off) is True:
            break
        s = segs[i]
        if s[0] == "T":
            # an opaque encoding has unknown positive size; cutting inside it is not meaningful
            raise Desync("raw bytes are read where the encoder put a whole value (%s)" % show_seg(s))
        if s[0] == "F":
            raise Unsup("split of a loop family")
        if s[0] == "A":
            choose_alt(F, s, i, segs)
            continue
        if s[0] == "K":
            n = seglen(F, s)
            if n is not None:
                d = F.sign(lsub(off, n))
                if d > 0:
                    left.append(s)
                    off = F.lnorm(lsub(off, n))
                    i += 1
                    continue
            if not need(F, laddc(lsub(s[3], s[2]), -1)):
                i += 1
                continue
            inst, rest = peel(s)
            segs[i:i + 1] = inst + [rest]
            continue
        n = seglen(F, s)
        if n[1] and F.eq0(n) is True:
            i += 1
            continue
        if need(F, lsub(off, n)):
            left.append(s)
            off = F.lnorm(lsub(off, n))
            i += 1
            continue
        # 0 < off < n  (off could be 0 only if decided above)
        if s[0] == "E":
            if off[1]:
                off = L(concretize_lin(F, off))
            k = off[0]
            if k < 0:
                raise Unsup("negative split")
            left.append(("E", s[1][:k]))
            segs[i] = ("E", s[1][k:])
        elif s[0] == "S":
            left.append(("S", s[1], s[2], off))
            segs[i] = ("S", s[1], ladd(s[2], off), lsub(s[3], off))
        elif s[0] == "R":
            left.append(("R", s[1], off))
            segs[i] = ("R", s[1], lsub(s[2], off))
        off = L(0)
        break
    else:
        if F.eq0(off) is not True and not F.ge0(lscale(off, -1)):
            raise Unsup("split past the end (%s left) of %r" % (show_lin(off), seq))
    return norm(F, left), norm(F, segs[i:])


def concretize_lin(F, lin):
    lo, hi = F.bounds(lin)
    if hi - lo > 300:
        raise Unsup("cannot enumerate %s" % show_lin(lin))
    if lo < hi:
        # the tightest entailed bounds
        a, b = lo, hi
        while a < b:
            m = (a + b + 1) // 2
            if F.ge0(laddc(lin, -m)):
                a = m
            else:
                b = m - 1
        lo = a
        a, b = lo, hi
        while a < b:
            m = (a + b) // 2
            if F.ge0(laddc(lscale(lin, -1), m)):
                b = m
            else:
                a = m + 1
        hi = b
    if lo == hi:
        return lo
    raise Fork([(lambda st, k=k: st.F.assume(Cnd("eq", laddc(lin, -k)))) for k in range(lo, hi + 1)], "enum")


def slice_(E, st, seq, off, n):
    if isinstance(seq, Obj) and seq.k == "Vec":
        seq = seq.d[0]
    F = st.F
    if F.eq0(off) is True:
        if F.eq0(lsub(n, length(F, seq))) is True:
            return seq
        return split(E, st, seq, n)[0]
    _, r = split(E, st, seq, off)
    if F.eq0(lsub(n, length(F, r))) is True:
        return r
    return split(E, st, r, n)[0]


def splice(E, st, seq, off, n, val):
    F = st.F
    if not isinstance(seq, Seq):
        raise Unsup("splice %r" % (seq,))
    a, r = split(E, st, seq, off)
    _, b = split(E, st, r, n)
    return cat(F, a, val, b)


def front(E, st):
    """expose the first segment of the input stream (peeling families, choosing alternatives); None at the end"""
    F = st.F
    segs = list(st.src.s)
    while segs:
        s = segs[0]
        if s[0] == "K":
            if not need(F, laddc(lsub(s[3], s[2]), -1)):
                segs.pop(0)
                continue
            inst, rest = peel(s)
            segs[0:1] = inst + [rest]
            continue
        if s[0] == "A":
            choose_alt(F, s, 0, segs)
            continue
        if s[0] in ("S", "R"):
            if not need(F, laddc(seglen(F, s), -1)):
                segs.pop(0)
                continue
        if s[0] == "E" and not s[1]:
            segs.pop(0)
            continue
        st.src = Seq(segs)
        return s
    st.src = Seq()
    return None


def first(E, st, s):
    """first element of a segment known to be nonempty"""
    if s[0] == "E":
        return s[1][0]
    if s[0] == "S":
        return E.elem(s[1], st.F.lnorm(s[2]))
    if s[0] == "R":
        return s[1]
    raise Unsup("first of %s" % show_seg(s))


def get(E, st, seq, idx):
    F = st.F
    if isinstance(seq, Obj) and seq.k == "Vec":
        seq = seq.d[0]
    if isinstance(seq, Opq):
        seq = E.expand(st, seq)
    if not isinstance(seq, Seq):
        raise Unsup("index of %r" % (seq,))
    idx = F.lnorm(idx)
    if len(seq.s) == 1:
        s = seq.s[0]
        if s[0] == "S":
            return E.elem(s[1], F.lnorm(ladd(s[2], idx)))
        if s[0] == "E" and not idx[1]:
            if 0 <= idx[0] < len(s[1]):
                return s[1][idx[0]]
            raise Unsup("index out of range %s in %r" % (idx, seq))
    _, r = split(E, st, seq, idx)
    if not r.s:
        raise Unsup("index out of range")
    s = r.s[0]
    if s[0] == "K":
        inst, rest = peel(s)
        if not need(F, laddc(lsub(s[3], s[2]), -1)):
            raise Unsup("index at possible end")
        s = inst[0]
    return first(E, st, s)


def put(E, st, seq, idx, val):
    F = st.F
    idx = F.lnorm(idx)
    if len(seq.s) == 1 and seq.s[0][0] == "E" and not idx[1]:
        e = seq.s[0][1]
        return Seq((("E", e[:idx[0]] + (val,) + e[idx[0] + 1:]),))
    a, r = split(E, st, seq, idx)
    _, b = split(E, st, r, L(1))
    return cat(F, a, elems(val), b)


# ---------------------------------------------------------------- equality
def eqv(E, st, a, b, depth=0):
    """are two values equal? True / False / None (unknown).  May Fork."""
    F = st.F
    if a is b:
        return True
    if isinstance(a, (Opq, Obj)) and isinstance(b, (Opq, Obj)):
        h = E.models.opq_eq(st, a, b)
        if h is not NotImplemented:
            return h
    if isinstance(a, Opq) and isinstance(b, Opq) and eqterm(F, a.t, b.t):
        return True
    if isinstance(a, Opq) and not isinstance(b, Opq):
        if isinstance(b, Agg) and a.t in F.variants and F.variants[a.t] != b.v:
            return False
        a = E.expand(st, a)
        return eqv(E, st, a, b, depth + 1)
    if isinstance(b, Opq) and not isinstance(a, Opq):
        return eqv(E, st, b, a, depth)
    if isinstance(a, Opq):
        # different terms: equal if expansions agree
        ta = E.ty(a.ty)
        if E.int_info(a.ty):
            return eqv(E, st, E.expand(st, a), E.expand(st, b), depth + 1)
        if a.t in F.variants and b.t in F.variants:
            return eqv(E, st, E.expand(st, a), E.expand(st, b), depth + 1)
        note(st, ("opq", a.t, b.t))
        return None
    if isinstance(a, Cnd) or isinstance(b, Cnd):
        for x in (a, b):
            if isinstance(x, Cnd) and F.decide(x) is None:
                raise_on_cond(F, x)
        da = int(F.decide(a)) if isinstance(a, Cnd) else a
        db = int(F.decide(b)) if isinstance(b, Cnd) else b
        return eqv(E, st, da, db)
    if isinstance(a, (int, Sc)) and isinstance(b, (int, Sc)):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        w = a.w if isinstance(a, Sc) else b.w
        if isinstance(a, Sc) and isinstance(b, Sc) and a.lin is not None and b.lin is not None:
            r = F.eq0(lsub(a.lin, b.lin))
            if r is not None:
                return r
        if isinstance(a, Sc) and isinstance(b, Sc) and a == b:
            return True
        try:
            c = compare(F, "Eq", a, b, w, False)
        except Fork:
            A, B = bits_of(F, a, w), bits_of(F, b, w)
            if A == B:
                return True
            for x, y in zip(A, B):
                if x < 2 and y < 2 and x != y or (x >= 2 and x == anot(y)):
                    return False
            note(st, ("sc", a, b))
            return None
        if isinstance(c, Cnd):
            c = F.decide(c)
        if c is None:
            A, B = bits_of(F, a, w), bits_of(F, b, w)
            if A == B:
                return True
            for x, y in zip(A, B):
                if x >= 2 and x == anot(y):
                    return False
            note(st, ("sc", a, b))
        return c
    if isinstance(a, Agg) and isinstance(b, Agg):
        if a.v != b.v or len(a.f) != len(b.f):
            return False
        r = True
        for x, y in zip(a.f, b.f):
            e = eqv(E, st, x, y, depth + 1)
            if e is False:
                return False
            if e is None:
                r = None
        return r
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a.k != b.k:
            return None
        if a.k == "Box":
            return eqv(E, st, a.d[0], b.d[0], depth + 1)
        if a.k == "Vec":
            return eqseq(E, st, a.d[0], b.d[0])
        if a.k == "Map":
            return eqseq(E, st, a.d[0], b.d[0])
        r = True
        for x, y in zip(a.d, b.d):
            e = eqv(E, st, x, y) if isinstance(x, (int, Sc, Agg, Obj, Seq, Opq, Cnd)) else (x == y or None)
            if not e:
                return e
        return r
    if isinstance(a, Seq) and isinstance(b, Seq):
        return eqseq(E, st, a, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a == b:
            return True
        return eqv(E, st, E.deref_read(st, a), E.deref_read(st, b), depth + 1)
    if a is UNDEF or b is UNDEF:
        return None
    return a == b or None


def run_len(z):
    return lsub(z[3], z[2]) if z[0] == "K" else z[3]


def unit_run(z):
    """does every index of this segment stand for exactly one element?"""
    if z[0] == "S":
        return True
    if len(z[1]) != 1:
        return False
    x = z[1][0]
    if x[0] == "A":
        return all(len(sg) == 1 and sg[0][0] == "E" and len(sg[0][1]) == 1 for _, sg in x[1])
    return x[0] == "E" and len(x[1]) == 1


def generic_cases(E, st, z, j):
    """element j of a unit run: [(state, value)]"""
    if z[0] == "S":
        return [(st, E.elem(z[1], st.F.lnorm(ladd(z[2], LV(j)))))]
    x = substv(z[1][0], KV, ladd(z[2], LV(j)))
    if x[0] == "E":
        return [(st, x[1][0])]
    out = []
    for delta, sg in x[1]:
        c = st.clone()
        if apply_delta(c.F, delta):
            out.append((c, sg[0][1][0]))
    return out


def generic_eq(E, st, s, t, n):
    """True when element j of both runs agrees for every j in 0..n"""
    from rt import split_on_forks
    v = new_var(64, False, "j%d" % len(VARS), 0, (1 << 63) - 1)
    c = st.clone()
    c.F.misc = dict(c.F.misc)
    if not c.F.assume_ge(laddc(lsub(n, LV(v.vid)), -1)):
        return True
    res = True
    if s[0] == "K" and t[0] == "K" and not (unit_run(s) and unit_run(t)):
        i1 = Seq([substv(x, KV, ladd(s[2], LV(v.vid))) for x in s[1]])
        i2 = Seq([substv(x, KV, ladd(t[2], LV(v.vid))) for x in t[1]])
        for q, r in split_on_forks(c, lambda q: eqseq(E, q, i1, i2)):
            if r is not True:
                res = None
            if r is False:
                note(q, ("false", 0, 0))
        return res
    for c1, a in generic_cases(E, c, s, v.vid):
        for c2, b in generic_cases(E, c1, t, v.vid):
            for c3, r in split_on_forks(c2, lambda q: eqv(E, q, a, b)):
                if r is not True:
                    res = None
    return res


def note(st, pair):
    """remember an undecided comparison"""
    u = getattr(st, "undec", None)
    if u is not None and len(u) < 20:
        u.append((st.F.clone(), pair))


def eqterm(F, a, b):
    if a == b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        if is_lin(a) and is_lin(b):
            return F.eq0(lsub(a, b)) is True
        return len(a) == len(b) and all(eqterm(F, x, y) for x, y in zip(a, b))
    return False


def eqsegs(F, a, b):
    return len(a) == len(b) and all(eqterm_seg(F, x, y) for x, y in zip(a, b))


def eqterm_seg(F, x, y):
    return x == y or eqterm(F, x, y)


END = ("T", ("END",))


def eqseq(E, st, a, b):
    F = st.F
    x = list(norm(F, a.s).s)
    y = list(norm(F, b.s).s)
    res = True
    guard = 0
    while x and y:
        guard += 1
        if guard > 3000:
            return None
        s, t = x[0], y[0]
        if s == t:
            x.pop(0)
            y.pop(0)
            continue
        if s[0] == "K" and t[0] == "K" and eqterm(F, s[1], t[1]) and F.eq0(lsub(s[2], t[2])) is True:
            d = F.eq0(lsub(s[3], t[3]))
            if d is True:
                x.pop(0)
                y.pop(0)
                continue
            if need(F, lsub(s[3], t[3])):
                x[0] = ("K", s[1], t[3], s[3])
                y.pop(0)
            else:
                y[0] = ("K", t[1], s[3], t[3])
                x.pop(0)
            continue
        if s[0] == "A" or t[0] == "A":
            q = x if s[0] == "A" else y
            choose_alt(F, q[0], 0, q)
            continue
        # a family of single elements against another run of single elements: compare a generic element
        if (s[0] == "K" and t[0] in ("K", "S")) or (t[0] == "K" and s[0] == "S"):
            ls, lt = run_len(s), run_len(t)
            if (unit_run(s) and unit_run(t)) or s[0] == t[0]:
                n = ls if F.eq0(lsub(ls, lt)) is True or need(F, lsub(lt, ls)) else lt
                g = generic_eq(E, st, s, t, n)
                if g is not None:
                    if g is False:
                        return False
                    for q, z, l in ((x, s, ls), (y, t, lt)):
                        if F.eq0(lsub(l, n)) is True:
                            q.pop(0)
                        elif z[0] == "K":
                            q[0] = ("K", z[1], ladd(z[2], n), z[3])
                        else:
                            q[0] = ("S", z[1], ladd(z[2], n), lsub(z[3], n))
                    continue
        if s[0] == "K" or t[0] == "K":
            for q, z in ((x, s), (y, t)):
                if z[0] == "K":
                    if not need(F, laddc(lsub(z[3], z[2]), -1)):
                        q.pop(0)
                        break
                    lo, hi = F.bounds(lsub(z[3], z[2]))
                    if hi > 64 and (t if z is s else s)[0] not in ("E", "T"):
                        return None
                    inst, rest = peel(z)
                    q[0:1] = inst + [rest]
                    break
            continue
        if s[0] == "T" or t[0] == "T":
            if s == END or t == END:
                # nothing that was written equals the end
                o = t if s == END else s
                if o[0] in ("S", "R", "F") and not need(F, laddc(seglen(F, o), -1)):
                    (y if s == END else x).pop(0)
                    continue
                return False
            if s[0] == t[0]:
                if eqterm(F, s[1], t[1]):
                    x.pop(0)
                    y.pop(0)
                    continue
                note(st, ("opq", s[1], t[1]))
            return None
        if s[0] == "S" and t[0] == "S":
            if s[1] == t[1] and F.eq0(lsub(s[2], t[2])) is True:
                d = lsub(s[3], t[3])
                e = F.eq0(d)
                if e is True:
                    x.pop(0)
                    y.pop(0)
                elif need(F, d):
                    y.pop(0)
                    x[0] = ("S", s[1], ladd(s[2], t[3]), d)
                else:
                    x.pop(0)
                    y[0] = ("S", t[1], ladd(t[2], s[3]), lscale(d, -1))
                continue
            return None
        if s[0] == "R" and t[0] == "R":
            e = eqv(E, st, s[1], t[1])
            if e is not True:
                return e
            d = lsub(s[2], t[2])
            if F.eq0(d) is True:
                x.pop(0)
                y.pop(0)
            elif need(F, d):
                y.pop(0)
                x[0] = ("R", s[1], d)
            else:
                x.pop(0)
                y[0] = ("R", t[1], lscale(d, -1))
            continue
        # elementwise
        for q, z in ((x, s), (y, t)):
            if z[0] in ("S", "R"):
                if not need(F, laddc(seglen(F, z), -1)):
                    q.pop(0)
                    break
        else:
            e = eqv(E, st, first(E, st, s), first(E, st, t))
            if e is False:
                return False
            if e is None:
                res = None
            for q, z in ((x, s), (y, t)):
                if z[0] == "E":
                    if len(z[1]) == 1:
                        q.pop(0)
                    else:
                        q[0] = ("E", z[1][1:])
                elif z[0] == "S":
                    q[0] = ("S", z[1], laddc(z[2], 1), laddc(z[3], -1))
                else:
                    q[0] = ("R", z[1], laddc(z[2], -1))
    for rest in (x, y):
        for s in rest:
            if s[0] == "T":
                return False
            n = lsub(s[3], s[2]) if s[0] == "K" else seglen(F, s)
            e = F.eq0(n)
            if e is False:
                return False
            if e is None:
                if need(F, laddc(n, -1)):
                    return False
    return res
