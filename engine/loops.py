"""Loop summaries: a loop whose trip count is symbolic is replaced by an
inductive description of its header state (numeric places linear in the
iteration number, sequences growing by a per-iteration template)."""
import os
from core import *
import seqs

DEBUG = os.environ.get("VLOOP")
MAX_UNROLL = 4200
MAX_FORK_UNROLL = 70


SIG = None


class Rec:
    __slots__ = ("n", "gen", "nosum")

    def __init__(self, n=0, gen=0, nosum=False):
        self.n, self.gen, self.nosum = n, gen, nosum


class NoTemplate(Exception):
    pass


def resume(states, rec=None, uid=None, h=None):
    for s in states:
        s.status = None
        s.where = None
        s.arr = True
        if rec is not None:
            s.frames[-1].loops[h] = rec
    return states


def at_head(E, st, f, bb, stop):
    rec = f.loops.get(bb)
    if not isinstance(rec, Rec):
        rec = Rec()
    my = (f.uid, bb, f.body.headers[bb])
    if rec.n > MAX_UNROLL:
        raise Unsup("loop unrolled %d times" % rec.n)
    s0 = st.clone()
    s0.frames[-1].loops[bb] = rec
    outs = E.explore(s0.clone(), my)
    backs = [s for s in outs if s.status == "back"]
    exits = [s for s in outs if s.status == "exit"]
    terms = [s for s in outs if s.status not in ("back", "exit")]
    if not backs:
        return resume(exits) + terms
    if s0.mode.get("input") == "any" and (s0.flags.get("eof") or len(outs) == 1 and rec.n in (2, 9)):
        for b in backs:
            if all(s0.flags.get(x) == b.flags.get(x) for x in FLAGS) and endless(E, s0, b):
                fn = s0.frames[-1].inst.name
                sure = not s0.flags.get("wide")
                E.loopprog.append((fn, "bad" if sure else "open", "a loop goes on for ever" + (" at the end of the input" if s0.flags.get("eof") else ""),
                                   b.F.clone()))
                if sure or len(outs) == 1:
                    raise Unsup("endless loop in %s" % fn)
    if len(outs) == 1 and not (rec.n in (70, 140, 300, 600, 1200) and not rec.nosum and rec.gen < 6):
        b = backs[0]
        resume(backs, Rec(rec.n + 1, rec.gen, rec.nosum), f.uid, bb)
        # deterministic progress: carry on in place
        return backs
    cut = s0.mode.get("unroll")
    if cut is not None and s0.mode.get("input") == "any" and len(outs) > 1:
        # search for definite violations: the first iterations, one by one
        if rec.n >= cut:
            E.cut += len(backs)
            return resume(exits) + terms
        return resume(exits) + terms + resume(backs, Rec(rec.n + 1, rec.gen, True), f.uid, bb)
    if s0.mode.get("input") == "any" and len(outs) > 1:
        why = None
        if not rec.nosum:
            try:
                r = widen(E, s0, outs, my, rec)
                if all(s.status is None or s.status == "ret" for s in r):
                    return r
                why = [s.where for s in r if s.status not in (None, "ret")][0]
            except Unsup as u:
                why = str(u)
            if DEBUG:
                print("LOOP unrolled", f.inst.name, "bb%d" % bb, why)
        if rec.n > MAX_FORK_UNROLL:
            raise Unsup("loop of %s over arbitrary input: %s" % (f.inst.name, why))
        return resume(exits) + terms + resume(join_all(E, backs, s0.F), Rec(rec.n + 1, rec.gen, True), f.uid, bb)
    if not rec.nosum and rec.gen < 6 and E.small is None:
        r = summarise(E, s0, backs, my, rec)
        if r is not None:
            return r
    if len(outs) == 1:
        resume(backs, Rec(rec.n + 1, rec.gen, rec.nosum), f.uid, bb)
        return backs
    if rec.n > MAX_FORK_UNROLL:
        raise Unsup("no inductive description of loop %s bb%d" % (f.inst.name, bb))
    nr = Rec(rec.n + 1, rec.gen, rec.nosum or rec.n >= 3)
    return resume(exits) + terms + resume(backs, nr, f.uid, bb)


# ---------------------------------------------------------------- liveness
def liveness(body):
    """live-in locals of every block (direct uses), address-taken locals are always live"""
    if body.live is not None:
        return body.live
    use, dfn = [], []
    taken = set()

    def opl(o, u):
        if o and o[0] in ("c", "m"):
            place_use(o[1], u)

    def place_use(pl, u):
        u.add(pl[0])
        for e in pl[1:]:
            if isinstance(e, list) and e[0] == "i":
                u.add(e[1])

    def rv(r, u):
        k = r[0]
        if k == "ref":
            place_use(r[1], u)
            if "*" not in r[1][1:]:
                taken.add(r[1][0])
        elif k in ("disc", "len"):
            place_use(r[1], u)
        elif k == "agg":
            for o in r[3]:
                opl(o, u)
        elif k in ("bin", "cbin"):
            opl(r[2], u)
            opl(r[3], u)
        elif k in ("un", "cast"):
            opl(r[2], u)
        elif k in ("use", "rep"):
            opl(r[1], u)
        else:
            raise Unsup("liveness " + k)

    for ss, t in body.blocks:
        u, d = set(), set()

        def add(us):
            for x in us:
                if x not in d:
                    u.add(x)

        def define(pl):
            if len(pl) == 1:
                d.add(pl[0])
            else:
                w = set()
                place_use(pl, w)
                add(w)
        for s in ss:
            w = set()
            if s[0] == "=":
                rv(s[2], w)
                add(w)
                define(s[1])
            elif s[0] == "sd":
                place_use(s[1], w)
                add(w)
            elif s[0] == "dead":
                d.add(s[1])
            elif s[0] == "cno":
                for o in s[1:4]:
                    opl(o, w)
                add(w)
            elif s[0] == "assume":
                opl(s[1], w)
                add(w)
        w = set()
        k = t[0]
        if k in ("sw", "assert"):
            opl(t[1], w)
        elif k == "drop":
            # dropping has no modelled effect, except for types with a destructor of interest
            if SIG is not None and SIG(t[3]):
                place_use(t[1], w)
        elif k == "call":
            if t[2]:
                opl(t[2], w)
            for o in t[3]:
                opl(o, w)
        elif k == "ret":
            w.add(0)
        add(w)
        if k == "call":
            define(t[5])
        use.append(u)
        dfn.append(d)
    import mir
    n = len(body.blocks)
    live = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for i in range(n - 1, -1, -1):
            o = set()
            for j in mir.succs(body.blocks[i][1]):
                o |= live[j]
            new = use[i] | (o - dfn[i])
            if new != live[i]:
                live[i] = new
                ch = True
    body.live = [l | taken for l in live]
    return body.live


def ptrs_in(v, out):
    if isinstance(v, Ptr):
        out.add(v.a)
    elif isinstance(v, Agg):
        for x in v.f:
            ptrs_in(x, out)
    elif isinstance(v, Obj):
        for x in v.d:
            ptrs_in(x, out)
    elif isinstance(v, Seq):
        for x in v.s:
            ptrs_in(x, out)
    elif isinstance(v, tuple):
        for x in v:
            ptrs_in(x, out)


def live_allocs(st):
    """allocations that matter at the current point (top frame at a loop header)"""
    roots = set()
    for f in st.frames:
        if f is st.frames[-1]:
            lv = liveness(f.body)[f.bb]
            roots |= {f.base + l for l in lv}
        else:
            roots |= {f.base + i for i in range(len(f.body.locals))}
    seen = set()
    work = [a for a in roots if a in st.store]
    while work:
        a = work.pop()
        if a in seen:
            continue
        seen.add(a)
        v = st.store.get(a)
        o = set()
        ptrs_in(v, o)
        for b in o:
            if b in st.store and b not in seen:
                work.append(b)
    return seen


# ---------------------------------------------------------------- templates
class AU:
    """anti-unification of a value at iteration 0 and at iteration 1"""

    def __init__(self, E, st, k, F1):
        self.E, self.st, self.k, self.F1 = E, st, k, F1
        self.F = st.F
        self.fams = []  # (fid, base segs)
        self.nhole = 0

    def lin(self, a, b):
        if a == b:
            return a
        d = lsub(b, a)
        if not d[1]:
            self.nhole += 1
            return ladd(a, lscale(LV(self.k), d[0]))
        dn = self.F1.lnorm(d)
        if not dn[1] and dn[0]:
            self.nhole += 1
            return ladd(a, lscale(LV(self.k), dn[0]))
        if not dn[1]:
            return a
        # same shape over index-dependent variables
        if a[0] == b[0] and len(a[1]) == len(b[1]):
            out = (a[0], ())
            for (v, c), (w, e) in zip(a[1], b[1]):
                if c != e:
                    raise NoTemplate("lin")
                if v == w:
                    out = ladd(out, (0, ((v, c),)))
                    continue
                x, y = VARS[v], VARS[w]
                if x.key is None or y.key is None or x.w != y.w or x.dlin is not None or x.dbits is not None:
                    raise NoTemplate("lin var")
                key = self.term(x.key, y.key)
                n = memo_var(key, x.w, x.signed, x.name, x.lo0, x.hi0)
                out = ladd(out, lscale(LV(n.vid), c))
            return out
        raise NoTemplate("lin %s / %s" % (show_lin(a), show_lin(b)))

    def term(self, a, b):
        if a == b:
            return a
        if isinstance(a, tuple) and isinstance(b, tuple):
            if is_lin(a) and is_lin(b):
                return self.lin(a, b)
            if len(a) == len(b):
                return tuple([self.term(x, y) for x, y in zip(a, b)])
        if isinstance(a, (Sc, Agg, Obj, Seq, Opq, Ptr)):
            return self.val(a, b, None)
        raise NoTemplate("term %s / %s" % (show_term(a), show_term(b)))

    def val(self, a, b, ty):
        if a is b or a == b:
            return a
        E = self.E
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, (int, Sc)) and isinstance(b, (int, Sc)):
            if isinstance(a, int) and isinstance(b, int):
                info = E.int_info(ty) if ty is not None else None
                if info is None:
                    raise NoTemplate("untyped int")
                if E.ty(ty).k == "bool":
                    raise NoTemplate("bool")
                w, s = info
                la, lb = lin_of(self.F, a, w, s), lin_of(self.F1, b, w, s)
            else:
                w = a.w if isinstance(a, Sc) else b.w
                sg = bool(E.int_info(ty)[1]) if ty is not None and E.int_info(ty) else False
                try:
                    la = a.lin if isinstance(a, Sc) and a.lin is not None else lin_of(self.F, a, w, sg)
                    lb = b.lin if isinstance(b, Sc) and b.lin is not None else lin_of(self.F1, b, w, sg)
                except Fork:
                    raise NoTemplate("fork")
            return mk(w, self.lin(la, lb))
        if isinstance(a, Agg) and isinstance(b, Agg):
            if a.v != b.v or len(a.f) != len(b.f):
                raise NoTemplate("variant")
            tys = self.ftys(ty, a.v)
            return Agg([self.val(x, y, tys[i] if i < len(tys) else None) for i, (x, y) in enumerate(zip(a.f, b.f))], a.v)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.a != b.a or len(a.p) != len(b.p):
                raise NoTemplate("ptr")
            return Ptr(a.a, self.term(a.p, b.p), self.term(a.m, b.m))
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a.k != b.k or len(a.d) != len(b.d):
                raise NoTemplate("obj")
            out = []
            for x, y in zip(a.d, b.d):
                if isinstance(x, tuple):
                    out.append(self.term(x, y))
                else:
                    out.append(self.val(x, y, None))
            return Obj(a.k, *out)
        if isinstance(a, Seq) and isinstance(b, Seq):
            return self.seq(a, b)
        if isinstance(a, Opq) and isinstance(b, Opq) and a.ty == b.ty:
            return Opq(self.term(a.t, b.t), a.ty)
        raise NoTemplate("%r / %r" % (a, b))

    def ftys(self, ty, v):
        if ty is None:
            return []
        t = self.E.ty(ty)
        if t.k == "tuple" or t.k == "closure":
            return t.d["fields"]
        if t.k == "adt":
            vs = t.d["variants"]
            if v < len(vs):
                return [f[1] for f in vs[v]["fields"]]
        return []

    def seq(self, a, b):
        x, y = list(a.s), list(b.s)
        if len(x) == len(y) and all(s[0] == t[0] for s, t in zip(x, y)):
            save = self.nhole
            try:
                return Seq([self.seg(s, t) for s, t in zip(x, y)])
            except NoTemplate:
                self.nhole = save
        d = strip_prefix(self.F1, x, y)
        if d is None:
            raise NoTemplate("seq %r / %r" % (a, b))
        fid = fresh_id()
        n = None
        try:
            ln = L(0)
            for s in d:
                l = seqs.seglen(self.F1, s)
                if l is None:
                    raise Unsup("")
                ln = ladd(ln, l)
            ln = self.F1.lnorm(ln)
            if not ln[1]:
                n = lscale(LV(self.k), ln[0])
        except Unsup:
            pass
        self.fams.append((fid, n))
        return Seq(tuple(x) + (("F", fid, n),))

    def seg(self, s, t):
        if s == t:
            return s
        k = s[0]
        if k == "E":
            if len(s[1]) != len(t[1]):
                raise NoTemplate("E")
            return ("E", tuple([self.val(p, q, None) for p, q in zip(s[1], t[1])]))
        if k == "R":
            return ("R", self.val(s[1], t[1], None), self.lin(s[2], t[2]))
        return (k,) + tuple([self.term(p, q) for p, q in zip(s[1:], t[1:])])


def strip_prefix(F, x, y):
    """y = x ++ d (segment lists) -> d, or None"""
    x, y = list(x), list(y)
    while x:
        if not y:
            return None
        s, t = x[0], y[0]
        if s == t:
            x.pop(0)
            y.pop(0)
            continue
        if s[0] == "E" and t[0] == "E" and len(t[1]) > len(s[1]) and t[1][:len(s[1])] == s[1]:
            x.pop(0)
            y[0] = ("E", t[1][len(s[1]):])
            continue
        if s[0] == "S" and t[0] == "S" and s[1] == t[1] and s[2] == t[2]:
            x.pop(0)
            y[0] = ("S", t[1], ladd(s[2], s[3]), lsub(t[3], s[3]))
            continue
        if s[0] == "R" and t[0] == "R" and s[1] == t[1]:
            x.pop(0)
            y[0] = ("R", t[1], lsub(t[2], s[2]))
            continue
        if s[0] == "K" and t[0] == "K" and s[1] == t[1] and s[2] == t[2]:
            x.pop(0)
            y[0] = ("K", t[1], s[3], t[3])
            continue
        return None
    return y


def alloc_ty(st, a):
    for f in st.frames:
        if isinstance(a, int) and f.base <= a < f.base + len(f.body.locals):
            return f.body.locals[a - f.base]
    return None


def build_template(E, s0, b, k):
    live = live_allocs(s0)
    au = AU(E, s0, k, b.F)
    T = s0.clone()
    for a in list(T.store):
        if a not in live:
            if isinstance(a, int):
                del T.store[a]
            continue
        if a not in b.store:
            T.store[a] = UNDEF
            continue
        try:
            T.store[a] = au.val(s0.store[a], b.store[a], alloc_ty(s0, a))
        except NoTemplate as e:
            raise NoTemplate("local %s: %s" % (name_of(s0, a), e))
    T.sink = au.seq(s0.sink, b.sink) if s0.sink != b.sink else s0.sink
    hv = None
    if s0.src != b.src:
        try:
            T.src = au.seq(s0.src, b.src)
        except NoTemplate:
            if s0.mode.get("input") != "any":
                raise
            T.src = havoc_src(T)
            hv = True
    T.nid = max(s0.nid, b.nid)
    for x in ("nreads",):
        T.flags.pop(x, None)
    return T, au, hv


def havoc_src(st):
    i = fresh_id()
    n = memo_var(("inlen", i), 64, False, "rest%d" % i, 0, (1 << 62))
    return Seq((("S", ("in", i), L(0), LV(n.vid)),))


def name_of(st, a):
    for f in st.frames:
        if isinstance(a, int) and f.base <= a < f.base + len(f.body.locals):
            return "%s:%s" % (f.inst.name.split("::")[-1], f.body.names.get(a - f.base, "_%d" % (a - f.base)))
    return str(a)


def eq_live(E, st, x, y):
    if x is y or x == y:
        return True
    if x is UNDEF:
        return True
    try:
        return seqs.eqv(E, st, x, y) is True
    except (Fork, Unsup):
        return False


def split_fam(seq):
    """(segments before the trailing placeholder, fid) if the sequence ends in one"""
    if seq.s and seq.s[-1][0] == "F":
        return seq.s[:-1], seq.s[-1]
    return None, None


def match(E, T, b, k, hv):
    """does back-edge state b equal T at k+1?  -> {fid: appended segs} or (None, why)"""
    deltas = {}
    up = laddc(LV(k), 1)
    if [(f.uid, f.bb) for f in T.frames] != [(f.uid, f.bb) for f in b.frames]:
        return None, "frames"

    def cmp(x, y, what):
        """x: template value (at k), y: actual"""
        if isinstance(x, Seq) and isinstance(y, Seq):
            pre, fam = split_fam(x)
            if fam is not None:
                d = strip_prefix(b.F, x.s, y.s)
                if d is None:
                    return False
                if fam[2] is not None:
                    try:
                        n = L(0)
                        for s in d:
                            l = seqs.seglen(b.F, s)
                            if l is None:
                                return False
                            n = ladd(n, l)
                    except Unsup:
                        return False
                    if b.F.eq0(lsub(n, lsub(substv(fam[2], k, up), fam[2]))) is not True:
                        return False
                if fam[1] in deltas and deltas[fam[1]] != tuple(d):
                    return False
                deltas[fam[1]] = tuple(d)
                return True
        if isinstance(x, Agg) and isinstance(y, Agg):
            return x.v == y.v and len(x.f) == len(y.f) and all(cmp(p, q, what) for p, q in zip(x.f, y.f))
        if isinstance(x, Obj) and isinstance(y, Obj) and x.k == y.k and len(x.d) == len(y.d):
            return all(cmp(p, q, what) for p, q in zip(x.d, y.d))
        x2 = substv(x, k, up)
        if isinstance(x2, tuple):
            return x2 == y or seqs.eqterm(b.F, x2, y)
        if isinstance(x2, Ptr) and isinstance(y, Ptr):
            return x2.a == y.a and seqs.eqterm(b.F, x2.p, y.p) and seqs.eqterm(b.F, x2.m, y.m)
        return eq_live(E, b, x2, y)

    for a, v in T.store.items():
        if v is UNDEF:
            continue
        if a not in b.store:
            if not isinstance(a, int):
                continue
            return None, "missing %s" % name_of(T, a)
        if not cmp(v, b.store[a], a):
            return None, "%s: %r vs %r" % (name_of(T, a), substv(v, k, up), b.store[a])
    if not cmp(T.sink, b.sink, "sink"):
        return None, "sink %r vs %r" % (T.sink, b.sink)
    if not hv and not cmp(T.src, b.src, "src"):
        return None, "src %r vs %r" % (substv(T.src, k, up), b.src)
    if hv and not (len(b.src.s) <= 1):
        return None, "src"
    for fl in ("eof", "rfault", "wfail", "write_after_fail", "short_write", "read_after_fail", "desync"):
        if T.flags.get(fl) != b.flags.get(fl):
            return None, "flag " + fl
    return deltas, None


def depends(x, k):
    s = set()
    vars_of(x, s)
    return k in s


def lost_facts(T, b, k, segs):
    """are there facts of b beyond those of T, not about iteration k, on variables of the appended segments?"""
    sv = set()
    vars_of(segs, sv)
    for v in sv:
        if v >= 0 and v != k and k not in VARS[v].deps:
            if b.F.rng.get(v) != T.F.rng.get(v) or b.F.kb.get(v) != T.F.kb.get(v):
                return True
    return False


def fact_delta(T, b, k, more=()):
    """facts of b beyond those of T that speak about iteration k"""
    out = []
    for v, (lo, hi) in b.F.rng.items():
        if (v == k or k in VARS[v].deps) and T.F.rng.get(v) != (lo, hi):
            out.append(("rng", v, lo, hi))
    for v, (m, val) in b.F.kb.items():
        if k in VARS[v].deps and T.F.kb.get(v) != (m, val):
            out.append(("kb", v, m, val))
    for g in b.F.ge:
        if g not in T.F.ge and depends(g, k):
            out.append(("ge", g))
    for g in b.F.ne:
        if g not in T.F.ne and depends(g, k):
            out.append(("ne", g))
    for t, v in b.F.variants.items():
        if T.F.variants.get(t) != v and depends(t, k):
            out.append(("var", t, v))
    for t, v in b.F.misc.items():
        if T.F.misc.get(t) != v and depends(t, k):
            out.append(("misc", t, v))
    return tuple(d for d in out if not (d[0] == "rng" and d[1] == k))


def substdelta(delta, k, val):
    out = []
    for d in delta:
        if d[0] in ("rng", "kb"):
            out.append((d[0], rename_var(d[1], k, val)) + d[2:])
        elif d[0] == "var":
            out.append(("var", substv(d[1], k, val), d[2]))
        elif d[0] == "misc":
            out.append(("misc", substv(d[1], k, val), d[2]))
        else:
            out.append((d[0], substv(d[1], k, val)))
    return tuple(out)


def family(E, T, k, alts):
    """segments appended over iterations 0..k from per-iteration alternatives [(delta facts, segs)]"""
    uniq = []
    for d, s in alts:
        if all(s != s2 for _, s2 in uniq):
            uniq.append((d, s))
        else:
            # same contents on several paths: the facts do not matter
            uniq = [((), s2) if s2 == s else (d2, s2) for d2, s2 in uniq]
    if len(uniq) == 1:
        d, segs = uniq[0]
        sv, dv = set(), set()
        vars_of(segs, sv)
        vars_of(d, dv)
        if not (sv & dv) - {k}:
            return simple_family(E, T, k, segs)
    kv = (0, ((KV, 1),))
    al = tuple((substdelta(d, k, kv), tuple(substv(x, k, kv) for x in s)) for d, s in uniq)
    for d, s in al:
        for x in s:
            if x[0] in ("K", "A"):
                raise NoTemplate("nested family")
    return (("K", (("A", al),), L(0), LV(k)),)


def simple_family(E, T, k, segs):
    kl = LV(k)
    if not segs:
        return ()
    if len(segs) == 1:
        s = segs[0]
        if s[0] == "S":
            # contiguous pieces of one source
            n = s[3]
            if not depends(n, k) and not n[1]:
                base = substv(s[2], k, L(0))
                if lsub(s[2], base) == lscale(kl, n[0]) and not depends(s[1], k):
                    return (("S", s[1], base, lscale(kl, n[0])),)
        if s[0] == "E" and len(s[1]) == 1:
            v = s[1][0]
            src = elem_source(v)
            if src is not None:
                sq, i = src
                base = substv(i, k, L(0))
                if lsub(i, base) == kl and not depends(sq, k):
                    return (("S", sq, base, kl),)
            if not depends(v, k):
                return (("R", v, kl),)
        if s[0] == "R" and not depends(s, k):
            return (("R", s[1], lscale(kl, s[2][0])),) if not s[2][1] else (("K", segs, L(0), kl),)
    kv = (0, ((KV, 1),))
    t = tuple(substv(x, k, kv) for x in segs)
    for x in t:
        if x[0] in ("K", "A"):
            raise NoTemplate("nested family")
    return (("K", t, L(0), kl),)


def elem_source(v):
    """is v the i-th element of a symbolic sequence? -> (src, i)"""
    if isinstance(v, Opq) and v.t[0] == "elem":
        return v.t[1], v.t[2]
    if isinstance(v, Sc) and v.lin is not None and v.lin[0] == 0 and len(v.lin[1]) == 1 and v.lin[1][0][1] == 1:
        x = VARS[v.lin[1][0][0]]
        if x.key and x.key[0] == "byte":
            return x.key[1], x.key[2]
    if isinstance(v, Agg) and len(v.f) == 2 and all(isinstance(x, Opq) for x in v.f) and v.f[0].t[0] == "key" and v.f[1].t[0] == "val" \
            and v.f[0].t[1:] == v.f[1].t[1:]:
        return v.f[0].t[1], v.f[0].t[2]
    return None


def replace_fams(v, fams):
    if isinstance(v, Seq):
        out = []
        ch = False
        for s in v.s:
            if s[0] == "F" and s[1] in fams:
                out.extend(fams[s[1]])
                ch = True
            elif s[0] == "E":
                n = tuple(replace_fams(x, fams) for x in s[1])
                ch = ch or n != s[1]
                out.append(("E", n))
            else:
                out.append(s)
        return Seq(out) if ch else v
    if isinstance(v, Agg):
        n = [replace_fams(x, fams) for x in v.f]
        return v if all(p is q for p, q in zip(n, v.f)) else Agg(n, v.v)
    if isinstance(v, Obj):
        n = [replace_fams(x, fams) for x in v.d]
        return v if all(p is q for p, q in zip(n, v.d)) else Obj(v.k, *n)
    return v


def summarise(E, s0, backs, my, rec):
    for b in backs[:3]:
        try:
            r = try_basis(E, s0, b, my, rec)
        except NoTemplate as e:
            if DEBUG:
                print("LOOP no template", s0.frames[-1].inst.name, "bb%d" % my[1], e)
            r = None
        if r is not None:
            return r
    return None


def try_basis(E, s0, b, my, rec):
    k = new_var(64, False, "k%d" % len(VARS), 0, (1 << 62)).vid
    T, au, hv = build_template(E, s0, b, k)
    if au.nhole == 0 and not au.fams and not hv:
        raise NoTemplate("no progress")
    T.arr = False
    T.frames[-1].loops[my[1]] = Rec(0, rec.gen, True)
    invs = ()
    for rnd in range(3):
        P = T.clone()
        for g in invs:
            if not P.F.assume_ge(g):
                raise NoTemplate("invariant infeasible")
        outs = E.explore(P.clone(), my)
        good = []
        why = None
        for s in outs:
            if s.status == "back":
                d, w = match(E, P, s, k, hv)
                if d is None:
                    why = w
                else:
                    good.append((s, d))
        if not good:
            raise NoTemplate("not inductive: %s %s" % (why, [s.where for s in outs if s.status == "unsup"][:1]))
        new = infer_invariants(E, s0, P, [s for s, _ in good], k, T)
        if set(new) <= set(invs):
            break
        invs = tuple(invs) + tuple(g for g in new if g not in invs)
    fams = {}
    for fid, n in au.fams:
        if any(lost_facts(P, s, k, d.get(fid, ())) for s, d in good):
            raise NoTemplate("facts about single iterations")
        fams[fid] = family(E, P, k, [(fact_delta(P, s, k), d.get(fid, ())) for s, d in good])
    P2 = P.clone()
    for a in list(P2.store):
        P2.store[a] = replace_fams(P2.store[a], fams)
    P2.sink = replace_fams(P2.sink, fams)
    P2.src = replace_fams(P2.src, fams)
    if fams:
        outs = E.explore(P2.clone(), my)
    res = []
    nback = 0
    ngood = 0
    for s in outs:
        if s.status == "back":
            nback += 1
            if match_fam(E, P2 if fams else P, s, k, hv, fams, good):
                ngood += 1
                continue
            res += resume([s], Rec(0, rec.gen + 1), my[0], my[1])
        elif s.status == "exit":
            res += resume([s])
        else:
            res.append(s)
    if DEBUG:
        print("LOOP ok", s0.frames[-1].inst.name, "bb%d" % my[1], "fams", {f: Seq(x) for f, x in fams.items()}, "invs", [show_lin(g) for g in invs],
              "outs", len(outs), "irregular", nback - ngood)
    return res


def match_fam(E, P2, s, k, hv, fams, good):
    if not fams:
        d, w = match(E, P2, s, k, hv)
        return d is not None
    # expected: P2 at k+1, where each family has grown by one of the verified alternatives
    up = laddc(LV(k), 1)
    gsets = {}
    for _, d in good:
        for fid, sg in d.items():
            gsets.setdefault(fid, []).append(sg)

    def cmp(x, y):
        if isinstance(x, Seq) and isinstance(y, Seq):
            for fid, fm in fams.items():
                n = len(fm)
                if n and x.s[-n:] == fm:
                    d = strip_prefix(s.F, x.s, y.s)
                    if d is not None and any(tuple(d) == tuple(g) or (len(d) == len(g) and all(p == q for p, q in zip(d, g))) for g in gsets.get(fid, ())):
                        return True
            if any(not fm for fm in fams.values()) and x == y:
                return True
        if isinstance(x, Agg) and isinstance(y, Agg):
            return x.v == y.v and len(x.f) == len(y.f) and all(cmp(p, q) for p, q in zip(x.f, y.f))
        if isinstance(x, Obj) and isinstance(y, Obj) and x.k == y.k and len(x.d) == len(y.d):
            return all(cmp(p, q) for p, q in zip(x.d, y.d))
        x2 = substv(x, k, up)
        if isinstance(x2, tuple):
            return x2 == y or seqs.eqterm(s.F, x2, y)
        if isinstance(x2, Ptr) and isinstance(y, Ptr):
            return x2.a == y.a and seqs.eqterm(s.F, x2.p, y.p) and seqs.eqterm(s.F, x2.m, y.m)
        return eq_live(E, s, x2, y)

    for a, v in P2.store.items():
        if v is UNDEF or a not in s.store:
            continue
        if not cmp(v, s.store[a]):
            return False
    if not cmp(P2.sink, s.sink):
        return False
    if not hv and not cmp(P2.src, s.src):
        return False
    for fl in ("eof", "rfault", "wfail", "write_after_fail", "short_write", "read_after_fail", "desync"):
        if P2.flags.get(fl) != s.flags.get(fl):
            return False
    return True


def infer_invariants(E, s0, P, goods, k, T):
    """linear facts learnt on the way round that hold again at the header"""
    cands = []
    for s in goods:
        for g in s.F.ge:
            if g not in P.F.ge and depends(g, k):
                cands.append(g)
        r = s.F.rng.get(k)
        if r and r != P.F.vrange(k):
            if r[1] < P.F.vrange(k)[1]:
                cands.append(laddc(lscale(LV(k), -1), r[1]))
    out = []
    for g in dict.fromkeys(cands):
        if len(out) > 12:
            break
        # only pure counters may be shifted: variables keyed on k change their meaning
        if any(v != k and v >= 0 and k in VARS[v].deps for v, _ in g[1]):
            continue
        h = substv(g, k, laddc(LV(k), -1))  # holds at header k if it held on the way round from k-1
        base = substv(h, k, L(0))
        try:
            if not s0.F.ge0(base):
                continue
            nxt = substv(h, k, laddc(LV(k), 1))
            if all(s.F.ge0(nxt) for s in goods):
                out.append(h)
        except Fork:
            continue
    return out


# ---------------------------------------------------------------- widening (arbitrary input)
def havoc(E, v, ty):
    if isinstance(v, (int, Sc, Cnd)):
        info = E.int_info(ty) if ty is not None else None
        if (info is not None and E.ty(ty).k == "bool") or (info is None and isinstance(v, Cnd)):
            return unk_bool("any%d" % fresh_id())
        if info is None:
            if not isinstance(v, Sc):
                raise Unsup("loop: untyped integer")
            info = (v.w, False)
        w, sg = info
        return mk(w, LV(new_var(w, sg, "any%d" % fresh_id()).vid))
    if isinstance(v, Seq):
        t = E.ty(ty) if ty is not None else None
        if t is not None and t.k == "array" and t.d["len"] is not None:
            return Seq((("S", ("in", fresh_id()), L(0), L(t.d["len"])),))
        return havoc_src(None)
    if isinstance(v, Obj):
        out = []
        for x in v.d:
            if isinstance(x, tuple) and is_lin(x):
                out.append(LV(new_var(64, False, "any%d" % fresh_id()).vid))
            elif isinstance(x, (Seq, Sc, Obj, Agg, Opq)):
                out.append(havoc(E, x, None))
            else:
                out.append(x)
        return Obj(v.k, *out)
    if isinstance(v, (Agg, Opq)):
        t = ty if ty is not None else (v.ty if isinstance(v, Opq) else None)
        if t is not None:
            return Opq(("hv", fresh_id()), t)
    raise Unsup("loop: no description of %s" % (repr(v)[:80],))


class Wid:
    """header state covering every iteration: places equal, linear in the iteration number, or arbitrary"""

    def __init__(self, E, s0, k):
        self.E, self.s0, self.k = E, s0, k
        self.hav = set()
        self.lin = {}
        self.new = False
        self.au = AU(E, s0, k, s0.F)

    def build(self, v, ty, path):
        if path in self.hav:
            return havoc(self.E, v, ty)
        if path in self.lin:
            w, l = self.lin[path]
            return mk(w, l)
        if isinstance(v, Agg):
            tys = self.au.ftys(ty, v.v)
            return Agg([self.build(x, tys[i] if i < len(tys) else None, path + (i,)) for i, x in enumerate(v.f)], v.v)
        return v

    def cmp(self, st, x0, x, y, ty, path, first):
        """make the description cover y (value at the back edge; x is the described value at k)"""
        if path in self.hav:
            return
        if isinstance(x0, Agg) and isinstance(x, Agg) and isinstance(y, Agg) and x0.v == y.v and len(x0.f) == len(y.f) and path not in self.lin:
            tys = self.au.ftys(ty, y.v)
            for i in range(len(y.f)):
                self.cmp(st, x0.f[i], x.f[i], y.f[i], tys[i] if i < len(tys) else None, path + (i,), first)
            return
        if x is UNDEF or x is y:
            return
        up = laddc(LV(self.k), 1)
        x2 = substv(x, self.k, up)
        try:
            if eq_live(self.E, st, x2, y):
                return
        except (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError):
            pass
        if y is UNDEF:
            self.s0.store[path[0]] = UNDEF
            self.new = True
            return
        self.new = True
        if path not in self.lin and isinstance(y, (int, Sc)) and isinstance(x0, (int, Sc)) and ty is not None:
            info = self.E.int_info(ty)
            if info and self.E.ty(ty).k != "bool":
                try:
                    a, b = lin_of(self.s0.F, x0, *info), lin_of(st.F, y, *info)
                    xl = lin_of(st.F, x, *info)
                    d = st.F.lnorm(lsub(b, xl))
                    if not d[1]:
                        self.lin[path] = (info[0], ladd(a, lscale(LV(self.k), d[0])))
                        return
                except (Fork, Unsup):
                    pass
        self.lin.pop(path, None)
        havoc(self.E, y, ty)
        self.hav.add(path)


    # -- relations between the numbers of the header state (guessed, then kept if inductive)
    def numbers(self, T):
        """places holding a number, and sequences (by their length)"""
        out = []

        def walk(v, ty, path, hav, d):
            h = hav or path in self.hav or path in self.lin
            if isinstance(v, Seq):
                out.append(((path, 64, False), h))
            elif isinstance(v, Agg) and d:
                tys = self.au.ftys(ty, v.v)
                for i, x in enumerate(v.f):
                    walk(x, tys[i] if i < len(tys) else None, path + (i,), h, d - 1)
            elif isinstance(v, Obj) and d and v.k in ("Vec", "String"):
                for i, x in enumerate(v.d):
                    walk(x, None, path + (i,), h, d - 1)
            elif isinstance(v, (Sc, int)) and ty is not None:
                info = self.E.int_info(ty)
                if info and self.E.ty(ty).k != "bool" and (h or not isinstance(v, int)):
                    out.append(((path,) + tuple(info), h))
        for a, v in T.store.items():
            if isinstance(a, int):
                walk(v, alloc_ty(T, a), (a,), False, 6)
        return out

    def num(self, st, pl):
        path, w, sg = pl
        v = st.store[path[0]]
        for i in path[1:]:
            v = v.f[i] if isinstance(v, Agg) else v.d[i]
        if isinstance(v, Seq):
            n = L(0)
            for s in v.s:
                l = seqs.seglen(st.F, s)
                if l is None:
                    raise Unsup("")
                n = ladd(n, l)
            return n
        return lin_of(st.F, v, w, sg)

    def diff(self, st, c):
        p, q, r = c
        return laddc(lsub(self.num(st, p), self.num(st, q) if q is not None else L(0)), r) if p is not None else \
            laddc(lscale(self.num(st, q), -1), r)

    def holds(self, st, c):
        try:
            return bool(st.F.ge0(self.diff(st, c)))
        except (Fork, Unsup, AttributeError, IndexError, KeyError):
            return False

    def candidates(self, T):
        ns = self.numbers(T)
        hs = [p for p, h in ns if h][:8]
        ot = [p for p, _ in ns][:16]
        out = []
        for h in hs:
            for o in ot:
                if o == h:
                    continue
                for c in ((h, o, 0), (o, h, 0)):
                    if c not in out and self.holds(self.s0, c):
                        out.append(c)
            try:
                n = self.num(self.s0, h)
                if not n[1]:
                    out += [(h, None, -n[0]), (None, h, n[0])]
            except (Fork, Unsup):
                pass
        return out


FLAGS = ("eof", "rfault", "wfail", "write_after_fail", "short_write", "read_after_fail", "desync", "tokerr", "rdead")


def widen(E, s0, outs, my, rec):
    live = live_allocs(s0)
    s0 = s0.clone()
    for a in list(s0.store):
        if a not in live and isinstance(a, int):
            del s0.store[a]
    k = new_var(64, False, "k%d" % len(VARS), 0, (1 << 62)).vid
    W = Wid(E, s0, k)
    backs = [s for s in outs if s.status == "back"]
    T, invs, extra = s0, (), []
    nidx = max(s.nid for s in outs)
    cands = None
    for rnd in range(24):
        W.new = False
        extra = []
        for b in backs:
            if [(f.uid, f.bb) for f in T.frames] != [(f.uid, f.bb) for f in b.frames]:
                raise Unsup("loop: frames")
            if any(s0.flags.get(x) != b.flags.get(x) for x in FLAGS):
                extra.append(b)
                continue
            for a in list(s0.store):
                v = T.store.get(a, UNDEF)
                if v is UNDEF:
                    continue
                W.cmp(b, s0.store[a], v, b.store.get(a, UNDEF), alloc_ty(s0, a), (a,), rnd == 0)
            if b.sink != T.sink:
                raise Unsup("loop: output in a loop over arbitrary input")
            nidx = max(nidx, b.nid)
        changed = W.new
        new = ()
        goods = [b for b in backs if b not in extra]
        if rnd and not changed:
            new = infer_invariants(E, s0, T, goods, k, T)
            if cands is None:
                cands = W.candidates(T)
                kept = False
            else:
                n = len(cands)
                cands = [c for c in cands if all(W.holds(b, c) for b in goods)]
                kept = len(cands) == n
            if set(new) <= set(invs) and kept:
                break
            invs = tuple(invs) + tuple(g for g in new if g not in invs)
        elif rnd:
            invs = ()
            cands = None
        T = s0.clone()
        T.nid = nidx
        m0 = len(VARS)
        for a in list(T.store):
            T.store[a] = W.build(s0.store[a], alloc_ty(s0, a), (a,))
        T.src = havoc_src(T)
        T.flags.pop("nreads", None)
        T.flags.pop("prog", None)
        if W.hav:
            T.flags["wide"] = True
        T.arr = False
        marks = (m0, len(VARS))
        T.frames[-1].loops[my[1]] = Rec(0, rec.gen, True)
        for g in invs:
            if not T.F.assume_ge(g):
                raise Unsup("loop: invariant infeasible")
        if cands:
            keep = []
            for c in cands:
                try:
                    d = W.diff(T, c)
                except (Fork, Unsup):
                    continue
                keep.append(c)
                if not T.F.assume_ge(d):
                    raise Unsup("loop: relation infeasible")
            cands = keep
        outs = E.explore(T.clone(), my)
        backs = [s for s in outs if s.status == "back"]
    else:
        raise Unsup("loop: description not stable in %s bb%d" % (my[0], my[1]))
    if DEBUG:
        print("LOOP widened", s0.frames[-1].inst.name, "bb%d" % my[1], "linear", W.lin, "any", [(name_of(s0, p[0]), p[1:]) for p in W.hav],
              "invs", [show_lin(g) for g in invs], "relations", len(cands or ()), "outs", len(outs), "extra", len(extra))
    E.loopprog.append(loop_progress(E, s0, T, goods, k, marks, W))
    res = []
    for s in outs:
        if s.status == "exit":
            if s0.flags.get("prog"):
                s.flags["prog"] = True
            res += resume([s])
        elif s.status != "back":
            res.append(s)
    if extra:
        if rec.gen >= 2:
            raise Unsup("loop: goes on after a failed read")
        res += resume(extra, Rec(0, rec.gen + 1), my[0], my[1])
    return res


# ---------------------------------------------------------------- progress of decoding loops
FEW = 1 << 20


def loop_progress(E, s0, T, goods, k, marks, W):
    """does every iteration of the widened loop read from the input, or is the number of iterations bounded by a
    constant or by what has been read?  -> (function, "ok" | "open" | "bad", message, facts)"""
    fn = s0.frames[-1].inst.name
    worst = (fn, "ok", "", None)
    for b in goods:
        if b.flags.get("prog"):
            continue
        room = ladd(laddc(lscale(b.flags.get("used", L(0)), 32), FEW), lscale(LV(k), -1))
        if b.F.ge0(room) or shrinks(W, s0, T, b):
            continue
        why = "iterations of a loop read nothing, and nothing read before limits their number"
        many = b.F.clone()
        if len(goods) == 1 and many.assume_ge(laddc(LV(k), -(1 << 33))) and not made_up(T, b, k, marks):
            worst = (fn, "bad", why, many)
        elif worst[1] == "ok":
            worst = (fn, "open", why, None)
    return worst


def left(v):
    """the number of items an iterator over memory still has"""
    if isinstance(v, Obj) and v.k in ("SIter", "VIter", "MIter") and len(v.d) >= 3 and all(isinstance(x, tuple) for x in v.d[1:3]):
        return lsub(v.d[2], v.d[1])
    return None


def shrinks(W, s0, T, b):
    """an iterator over memory advances, or a number that was small at the start decreases"""
    def walk(x, y, d):
        n, m = left(x), left(y)
        if n is not None and m is not None:
            return b.F.ge0(laddc(lsub(n, m), -1))
        if d and isinstance(x, Agg) and isinstance(y, Agg) and len(x.f) == len(y.f):
            return any(walk(p, q, d - 1) for p, q in zip(x.f, y.f))
        if d and isinstance(x, Obj) and isinstance(y, Obj) and x.k == y.k and len(x.d) == len(y.d):
            return any(walk(p, q, d - 1) for p, q in zip(x.d, y.d))
        return False
    for a, v in T.store.items():
        if a in b.store and walk(v, b.store[a], 5):
            return True
    for pl, h in W.numbers(T):
        try:
            n0 = W.num(s0, pl)
            if h and b.F.ge0(laddc(lsub(W.num(T, pl), W.num(b, pl)), -1)) and b.F.ge0(W.num(b, pl)) \
                    and s0.F.ge0(lsub(laddc(lscale(s0.flags.get("used", L(0)), 32), FEW), n0)):
                return True
        except (Fork, Unsup, AttributeError, IndexError, KeyError):
            pass
    return False


def made_up(T, b, k, marks):
    """does the way back to the loop head depend on values the description left arbitrary"""
    lo, hi = marks
    vids = set(range(lo, hi)) - {k}
    F, G = T.F, b.F
    for v in vids:
        if G.rng.get(v) != F.rng.get(v) or G.kb.get(v) != F.kb.get(v):
            return True
    old = set(F.ge)
    for g in G.ge:
        if g not in old and any(v in vids for v, _ in g[1]):
            return True
    return False


def endless(E, s0, b):
    """the iteration changed nothing at all"""
    if b.src != s0.src or b.sink != s0.sink or b.F.ge != s0.F.ge or b.F.rng != s0.F.rng:
        return False
    live = live_allocs(s0)
    for a in live:
        x, y = s0.store.get(a, UNDEF), b.store.get(a, UNDEF)
        if x is not y:
            try:
                if not eq_live(E, b, x, y):
                    return False
            except (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError, Fork, Unsup):
                return False
    return True


# ---------------------------------------------------------------- joining the outcomes of a call
def shape(v, d=4):
    if isinstance(v, Agg) and d:
        return (v.v, len(v.f)) + tuple([shape(x, d - 1) for x in v.f])
    if isinstance(v, Obj):
        return v.k
    return "*"


def join_call(E, st, F, dest, my):
    """run the callee to its return; outcomes of the same shape become one state that covers them all"""
    outs = E.explore(st, my)
    done = [s for s in outs if s.status == "back"]
    rest = [s for s in outs if s.status != "back"]
    return resume(join_all(E, done, F, dest)) + rest


def join_all(E, done, F, dest=None):
    groups = {}
    for s in done:
        v = None
        try:
            if dest is not None:
                v = E.read(s, *dest)
        except (Fork, Unsup):
            pass
        key = (shape(v), tuple(sorted((k, repr(x)) for k, x in s.flags.items() if k in FLAGS or k == "alloc")), s.sink)
        groups.setdefault(key, []).append(s)
    res = []
    for k, g in groups.items():
        # plain numbers keep their cases apart: arithmetic on them is what bounds things
        res += join(E, g, F) if len(g) > (5 if dest is not None and k[0] == "*" else 1) else g
    return res


def join(E, g, F):
    T = g[0].clone()
    T.F = F.clone()
    T.nid = max(s.nid for s in g)
    # knowledge shared by all
    try:
        live = live_allocs(T)
        for a in list(T.store):
            if a not in live and isinstance(a, int):
                del T.store[a]
                continue
            vs = [s.store.get(a, UNDEF) for s in g]
            T.store[a] = jval(E, vs, alloc_ty(T, a), T.frames, g)
    except Unsup:
        return g
    if any(s.src != T.src for s in g):
        T.src = havoc_src(T)
    T.flags.pop("nreads", None)
    for x in ("prog", "prog0"):
        if not all(s.flags.get(x) for s in g):
            T.flags.pop(x, None)
    T.flags["wide"] = True
    T.log = ()
    return [T]


def jval(E, vs, ty, frames, g):
    v = vs[0]
    if all(x is v or x == v for x in vs[1:]):
        return v
    if any(x is UNDEF for x in vs):
        return UNDEF
    if all(isinstance(x, Agg) and x.v == v.v and len(x.f) == len(v.f) for x in vs) and isinstance(v, Agg):
        tys = AU.ftys(_Tys(E), ty, v.v)
        return Agg([jval(E, [x.f[i] for x in vs], tys[i] if i < len(tys) else None, frames, g) for i in range(len(v.f))], v.v)
    if all(isinstance(x, Ptr) for x in vs):
        raise Unsup("join of pointers")
    if all(isinstance(x, (int, Sc)) for x in vs):
        r = hull(E, vs, ty, g)
        if r is not None:
            return r
    return havoc(E, v, ty)


def hull(E, vs, ty, g):
    """a fresh integer covering the values of every outcome"""
    info = E.int_info(ty) if ty is not None else None
    if info is None:
        ws = set(x.w for x in vs if isinstance(x, Sc))
        if len(ws) != 1:
            return None
        info = (ws.pop(), False)
    elif E.ty(ty).k == "bool":
        return None
    w, sg = info
    lo = hi = None
    for x, s in zip(vs, g):
        try:
            l, h = s.F.bounds(lin_of(s.F, x, w, sg))
        except (Fork, Unsup):
            return None
        lo, hi = l if lo is None else min(lo, l), h if hi is None else max(hi, h)
    v = new_var(w, sg, "any%d" % fresh_id(), lo, hi)
    return mk(w, LV(v.vid))


class _Tys:
    def __init__(self, E):
        self.E = E
