"""Abstract domain: integers are a linear form over input variables (mod 2^w)
and/or a per-bit provenance vector; sequences are lists of segments; everything
else is an immutable tree or an opaque term."""
import itertools

# ---------------------------------------------------------------- variables
class Var:
    __slots__ = ("vid", "w", "signed", "name", "lo", "hi", "dlin", "dbits", "key", "deps", "lo0", "hi0")

VARS = []
MEMO = {}


def reset():
    VARS.clear()
    MEMO.clear()
    _ids.__init__()


class _Ids:
    def __init__(self):
        self.n = 0

    def __call__(self):
        self.n += 1
        return self.n


_ids = _Ids()
fresh_id = _ids


def new_var(w, signed, name, lo=None, hi=None, dlin=None, dbits=None):
    v = Var()
    v.vid = len(VARS)
    v.w = w
    v.signed = signed
    v.name = name
    v.lo = lo if lo is not None else (-(1 << (w - 1)) if signed else 0)
    v.hi = hi if hi is not None else ((1 << (w - 1)) - 1 if signed else (1 << w) - 1)
    v.lo0, v.hi0 = lo, hi
    v.dlin = dlin
    v.dbits = dbits
    v.key = None
    v.deps = frozenset()
    VARS.append(v)
    return v


def vars_of(x, out):
    """vids occurring in a value, transitively through variable keys"""
    if isinstance(x, tuple):
        if is_lin(x):
            for v, _ in x[1]:
                out.add(v)
                if v >= 0:
                    out |= VARS[v].deps
            return
        if len(x) == 4 and (x[0] == "rng" or x[0] == "kb"):
            out.add(x[1])
            out |= VARS[x[1]].deps
            return
        for y in x:
            vars_of(y, out)
    elif isinstance(x, Sc):
        if x.lin is not None:
            vars_of(x.lin, out)
        elif x.bits is not None:
            for a in x.bits:
                if a >= 2:
                    v = avid(a)
                    if v not in out:
                        out.add(v)
                        out |= VARS[v].deps
    elif isinstance(x, Agg):
        vars_of(x.f, out)
    elif isinstance(x, Obj):
        vars_of(x.d, out)
    elif isinstance(x, Seq):
        vars_of(x.s, out)
    elif isinstance(x, Opq):
        vars_of(x.t, out)
    elif isinstance(x, Ptr):
        vars_of(x.a, out)
        vars_of(x.p, out)
        vars_of(x.m, out)
    elif isinstance(x, Cnd):
        vars_of(x.d, out)


def rename_var(v, vid, val):
    """the variable that v becomes when vid := val inside its defining key"""
    x = VARS[v]
    if vid not in x.deps:
        return v
    k = substv(x.key, vid, val)
    if k == x.key:
        return v
    return memo_var(k, x.w, x.signed, x.name, x.lo0, x.hi0,
                    substv(x.dlin, vid, val) if x.dlin is not None else None,
                    substb(x.dbits, vid, val) if x.dbits is not None else None).vid


def substb(bits, vid, val):
    out = []
    for a in bits:
        if a >= 2:
            v = avid(a)
            n = rename_var(v, vid, val) if v >= 0 else v
            if n != v:
                a = atom(n, aidx(a), aneg(a))
        out.append(a)
    return tuple(out)


def memo_var(key, *a, **k):
    r = MEMO.get(key)
    if r is None:
        r = MEMO[key] = new_var(*a, **k)
        r.key = key
        d = set()
        vars_of(key, d)
        if r.dlin is not None:
            vars_of(r.dlin, d)
        if r.dbits is not None:
            vars_of(Sc(len(r.dbits), r.dbits, None), d)
        r.deps = frozenset(d)
    return r


# ---------------------------------------------------------------- linear forms
def L(c):
    return (c, ())


def LV(vid):
    v = VARS[vid]
    if v.dlin is not None:
        return v.dlin
    return (0, ((vid, 1),))


def ladd(a, b, s=1):
    if not b[1]:
        return (a[0] + s * b[0], a[1])
    if not a[1] and s == 1:
        return (a[0] + b[0], b[1])
    d = dict(a[1])
    for v, c in b[1]:
        n = d.get(v, 0) + s * c
        if n:
            d[v] = n
        else:
            d.pop(v, None)
    return (a[0] + s * b[0], tuple(sorted(d.items())))


def lsub(a, b):
    return ladd(a, b, -1)


def lscale(a, k):
    if k == 0:
        return L(0)
    return (a[0] * k, tuple((v, c * k) for v, c in a[1]))


def laddc(a, k):
    return (a[0] + k, a[1])


# ---------------------------------------------------------------- bits
def atom(vid, i, neg=0):
    return 2 + 2 * (vid * 128 + i) + neg


def anot(a):
    return a ^ 1


def avid(a):
    return ((a - 2) >> 1) >> 7


def aidx(a):
    return ((a - 2) >> 1) & 127


def aneg(a):
    return a & 1


# ---------------------------------------------------------------- values
class Undef:
    def __repr__(self):
        return "UNDEF"


UNDEF = Undef()


class Sc:
    """symbolic scalar of width w; pattern == lin (mod 2^w)"""
    __slots__ = ("w", "bits", "lin")

    def __init__(self, w, bits=None, lin=None):
        self.w = w
        self.bits = bits
        self.lin = lin

    def __repr__(self):
        return "Sc%d(%s)" % (self.w, show_lin(self.lin) if self.lin else show_bits(self.bits))

    def key(self):
        return ("Sc", self.w, self.bits if self.lin is None else None, self.lin)

    def __eq__(self, o):
        return isinstance(o, Sc) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())


class Cnd:
    """symbolic boolean"""
    __slots__ = ("k", "d", "neg")

    def __init__(self, k, d, neg=False):
        self.k = k
        self.d = d
        self.neg = neg

    def __repr__(self):
        d = show_lin(self.d) if self.k in ("ge", "eq") else repr(self.d)
        return ("!" if self.neg else "") + "%s(%s)" % (self.k, d)

    def inv(self):
        return Cnd(self.k, self.d, not self.neg)

    def __eq__(self, o):
        return isinstance(o, Cnd) and (self.k, self.d, self.neg) == (o.k, o.d, o.neg)

    def __hash__(self):
        return hash((self.k, self.d, self.neg))


class Agg:
    __slots__ = ("v", "f")

    def __init__(self, f=(), v=0):
        self.v = v
        self.f = tuple(f)

    def __repr__(self):
        return "Agg%s%r" % (self.v if self.v else "", list(self.f))

    def __eq__(self, o):
        return isinstance(o, Agg) and self.v == o.v and self.f == o.f

    def __hash__(self):
        return hash((self.v, self.f))


class Ptr:
    __slots__ = ("a", "p", "m")

    def __init__(self, a, p=(), m=None):
        self.a = a
        self.p = p
        self.m = m

    def __repr__(self):
        return "&%s%s%s" % (self.a, "".join("." + str(x) for x in self.p), "" if self.m is None else "[%s]" % (self.m,))

    def __eq__(self, o):
        return isinstance(o, Ptr) and (self.a, self.p, self.m) == (o.a, o.p, o.m)

    def __hash__(self):
        return hash((self.a, self.p, self.m))


class Opq:
    """opaque value: a term and its type"""
    __slots__ = ("t", "ty")

    def __init__(self, t, ty):
        self.t = t
        self.ty = ty

    def __repr__(self):
        return "<%s>" % (show_term(self.t),)

    def __eq__(self, o):
        return isinstance(o, Opq) and self.t == o.t

    def __hash__(self):
        return hash(self.t)


class Obj:
    """built-in object (Vec, Box, map, iterator, ...) with named payload"""
    __slots__ = ("k", "d")

    def __init__(self, k, *d):
        self.k = k
        self.d = tuple(d)

    def __repr__(self):
        return "%s%r" % (self.k, list(self.d))

    def __eq__(self, o):
        return isinstance(o, Obj) and self.k == o.k and self.d == o.d

    def __hash__(self):
        return hash((self.k, self.d))


class FnV:
    __slots__ = ("i",)

    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return "fn%d" % self.i

    def __eq__(self, o):
        return isinstance(o, FnV) and o.i == self.i

    def __hash__(self):
        return hash(("fn", self.i))


UNIT = Agg()


def VecV(seq):
    return Obj("Vec", seq)


# sequence segments (a Seq is a tuple of segments)
#  ("E", (v,...))           explicit elements
#  ("S", src, off, len)     elements off..off+len of symbolic sequence src
#  ("R", v, n)              v repeated n (lin) times
#  ("K", tmpl, lo, hi)      for k in lo..hi: tmpl[KV:=k]
#  ("T", tok)               opaque encoding token (streams only)
class Seq:
    __slots__ = ("s",)

    def __init__(self, s=()):
        self.s = tuple(s)

    def __repr__(self):
        return "[" + " ".join(show_seg(x) for x in self.s) + "]"

    def __eq__(self, o):
        return isinstance(o, Seq) and self.s == o.s

    def __hash__(self):
        return hash(self.s)


def elems(*v):
    return Seq((("E", tuple(v)),) if v else ())


def show_lin(l):
    if l is None:
        return "?"
    s = []
    for v, c in l[1]:
        n = VARS[v].name if v >= 0 else "k"
        s.append(("" if c == 1 else "-" if c == -1 else str(c) + "*") + n)
    if l[0] or not s:
        s.append(str(l[0]))
    return " + ".join(s)


def show_bits(b):
    if b is None:
        return "?"
    out = []
    for a in reversed(b):
        out.append(str(a) if a < 2 else ("~" if aneg(a) else "") + "%s.%d" % (VARS[avid(a)].name, aidx(a)))
    return " ".join(out)


def is_lin(x):
    return isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], tuple)


def show_term(t):
    if isinstance(t, tuple):
        if is_lin(t):
            return show_lin(t)
        if t and isinstance(t[0], str):
            return t[0] + ("(" + ",".join(show_term(x) for x in t[1:]) + ")" if len(t) > 1 else "")
        return "(" + ",".join(show_term(x) for x in t) + ")"
    return str(t)


def show_seg(s):
    if s[0] == "E":
        return " ".join(("%02x" % x) if isinstance(x, int) else repr(x) for x in s[1])
    if s[0] == "S":
        return "%s[%s..+%s]" % (show_term(s[1]), show_lin(s[2]), show_lin(s[3]))
    if s[0] == "R":
        return "%r*(%s)" % (s[1], show_lin(s[2]))
    if s[0] == "K":
        return "for k in %s..%s {%s}" % (show_lin(s[2]), show_lin(s[3]), " ".join(show_seg(x) for x in s[1]))
    if s[0] == "T":
        return "tok(%s)" % show_term(s[1])
    if s[0] == "F":
        return "fam%d" % s[1]
    if s[0] == "A":
        return "{" + " | ".join(" ".join(show_seg(x) for x in sg) for _, sg in s[1]) + "}"
    return repr(s)


KV = -1  # formal index variable of K templates


def substv(x, vid, val):
    """substitute lin variable vid by lin val everywhere inside a value/term/segment"""
    if isinstance(x, tuple):
        if is_lin(x):
            out = None
            for v, c in x[1]:
                if v == vid:
                    t = lscale(val, c)
                else:
                    n = rename_var(v, vid, val) if v >= 0 else v
                    if n == v:
                        continue
                    t = lscale(LV(n), c)
                if out is None:
                    out = x
                out = ladd(lsub(out, (0, ((v, c),))), t)
            return x if out is None else out
        if len(x) == 4 and (x[0] == "rng" or x[0] == "kb"):
            return (x[0], rename_var(x[1], vid, val) if x[1] >= 0 else x[1]) + x[2:]
        return tuple([substv(y, vid, val) for y in x])
    if isinstance(x, Sc):
        if x.lin is not None:
            nl = substv(x.lin, vid, val)
            if nl == x.lin:
                return x
            if not nl[1]:
                return nl[0] & ((1 << x.w) - 1)
            return Sc(x.w, None, nl)
        nb = substb(x.bits, vid, val)
        return x if nb == x.bits else Sc(x.w, nb, None)
    if isinstance(x, Agg):
        return Agg([substv(y, vid, val) for y in x.f], x.v)
    if isinstance(x, Obj):
        return Obj(x.k, *[substv(y, vid, val) for y in x.d])
    if isinstance(x, Seq):
        return Seq([substv(y, vid, val) for y in x.s])
    if isinstance(x, Opq):
        return Opq(substv(x.t, vid, val), x.ty)
    if isinstance(x, Ptr):
        return Ptr(x.a, substv(x.p, vid, val), substv(x.m, vid, val))
    if isinstance(x, Cnd):
        return Cnd(x.k, substv(x.d, vid, val), x.neg)
    return x


# ---------------------------------------------------------------- control
class Fork(Exception):
    """the current step needs a case split; alts: list of fn(state)->bool"""

    def __init__(self, alts, why=""):
        self.alts = alts
        self.why = why


class Unsup(Exception):
    pass


class Panic(Exception):
    def __init__(self, msg):
        self.msg = msg


class Desync(Exception):
    """the decoder's view of the stream does not line up with the encoder's"""


class Stop(Exception):
    """infeasible"""


# ---------------------------------------------------------------- facts
class Facts:
    """path facts: ranges and known bits of variables, linear inequalities"""
    __slots__ = ("rng", "kb", "ge", "ne", "variants", "misc")

    def __init__(self):
        self.rng = {}
        self.kb = {}
        self.ge = ()
        self.ne = frozenset()
        self.variants = {}
        self.misc = {}

    def clone(self):
        f = Facts.__new__(Facts)
        f.rng = dict(self.rng)
        f.kb = dict(self.kb)
        f.ge = self.ge
        f.ne = self.ne
        f.variants = dict(self.variants)
        f.misc = dict(self.misc)
        return f

    # -- ranges
    def vrange(self, vid):
        v = VARS[vid]
        r = self.rng.get(vid)
        lo, hi = r if r else (v.lo, v.hi)
        if v.key is not None and v.key[0] == "ctlz":
            l2, h2 = self.lrange(v.key[1])
            w = v.key[2]
            return max(lo, w - max(h2, 0).bit_length()), min(hi, w - max(l2, 0).bit_length())
        if v.dlin is not None:
            l2, h2 = self.lrange(v.dlin)
            lo, hi = max(lo, l2), min(hi, h2)
        elif v.dbits is not None:
            l2, h2 = self.brange(v.dbits)
            lo, hi = max(lo, l2), min(hi, h2)
        return lo, hi

    def brange(self, bits):
        lo = hi = 0
        for i, a in enumerate(bits):
            a = self.norm_atom(a)
            if a == 1:
                lo |= 1 << i
                hi |= 1 << i
            elif a != 0:
                hi |= 1 << i
        return lo, hi

    def lrange(self, lin):
        lo = hi = lin[0]
        for v, c in lin[1]:
            a, b = self.vrange(v)
            if c > 0:
                lo += c * a
                hi += c * b
            else:
                lo += c * b
                hi += c * a
        return lo, hi

    def lnorm(self, lin):
        """fold variables with a single possible value"""
        if not lin[1]:
            return lin
        out = lin[0]
        keep = []
        for v, c in lin[1]:
            if v >= 0:
                a, b = self.vrange(v)
                if a == b:
                    out += c * a
                    continue
            keep.append((v, c))
        return (out, tuple(keep))

    def ge0(self, lin, depth=2):
        """is lin >= 0 entailed?"""
        lin = self.lnorm(lin)
        if self.lrange(lin)[0] >= 0:
            return True
        if depth == 0 or not lin[1]:
            return False
        vs = {v: c for v, c in lin[1]}
        for f in self.ge:
            # the fact must cancel a variable in the unfavourable direction
            hit = False
            for v, c in f[1]:
                if vs.get(v, 0) * c > 0:
                    hit = True
                    break
            if hit and self.ge0(lsub(lin, f), depth - 1):
                return True
        return False

    def bounds(self, lin):
        """range tightened by facts (one step)"""
        lo, hi = self.lrange(lin)
        for f in self.ge:
            r = lsub(lin, f)
            l2, _ = self.lrange(r)
            if l2 > lo:
                lo = l2
            r = ladd(lin, f)
            _, h2 = self.lrange(r)
            if h2 < hi:
                hi = h2
        return lo, hi

    def within(self, lin, lo_t, hi_t):
        """range, as far as needed to tell whether it lies in lo_t..hi_t"""
        lo, hi = self.bounds(lin)
        if lo < lo_t and self.ge0(laddc(lin, -lo_t)):
            lo = lo_t
        if hi > hi_t and self.ge0(laddc(lscale(lin, -1), hi_t)):
            hi = hi_t
        return lo, hi

    def sign(self, lin):
        """1 if lin>=0 entailed, -1 if lin<0 entailed, 0 unknown"""
        if self.ge0(lin):
            return 1
        if self.ge0(laddc(lscale(lin, -1), -1)):
            return -1
        return 0

    def eq0(self, lin):
        lin = self.lnorm(lin)
        if not lin[1]:
            return lin[0] == 0
        lo, hi = self.lrange(lin)
        if lo > 0 or hi < 0:
            return False
        if lin in self.ne or lscale(lin, -1) in self.ne:
            return False
        if self.ge0(lin) and self.ge0(lscale(lin, -1)):
            return True
        if self.ge0(laddc(lin, -1)) or self.ge0(laddc(lscale(lin, -1), -1)):
            return False
        g = 0
        import math
        for _, c in lin[1]:
            g = math.gcd(g, c)
        if g > 1 and lin[0] % g:
            return False
        return None

    # -- bits
    def norm_atom(self, a):
        if a < 2:
            return a
        vid, i = avid(a), aidx(a)
        v = VARS[vid]
        k = self.kb.get(vid)
        if k and (k[0] >> i) & 1:
            return ((k[1] >> i) & 1) ^ aneg(a)
        if v.dbits is not None:
            b = self.norm_atom(v.dbits[i])
            return b ^ aneg(a)
        lo, hi = self.vrange(vid)
        if lo < 0 and hi >= 0:
            return a
        if lo < 0:
            lo += 1 << v.w
            hi += 1 << v.w
        if (lo >> i) == (hi >> i):
            return ((lo >> i) & 1) ^ aneg(a)
        return a

    def set_range(self, vid, lo, hi):
        l0, h0 = self.vrange(vid)
        lo, hi = max(lo, l0), min(hi, h0)
        if lo > hi:
            return False
        self.rng[vid] = (lo, hi)
        x = VARS[vid].key
        if x is not None and x[0] == "ctlz":
            w = x[2]
            return self.assume_ge(laddc(x[1], -(0 if hi >= w else 1 << (w - hi - 1)))) and \
                self.assume_ge(laddc(lscale(x[1], -1), (1 << (w - lo)) - 1))
        if VARS[vid].dbits is not None and (lo > l0 or hi < h0):
            if not self._range_to_bits(vid, lo, hi):
                return False
        k = self.kb.get(vid)
        if k:
            return self._bits_to_range(vid)
        return True

    def _range_to_bits(self, vid, lo, hi):
        """the leading bits that all values of a range share"""
        v = VARS[vid]
        if lo < 0 and hi >= 0:
            return True
        if lo < 0:
            lo += 1 << v.w
            hi += 1 << v.w
        for i in range(v.w - 1, -1, -1):
            if (lo >> i) != (hi >> i):
                break
            if not self.assume_atom(v.dbits[i], (lo >> i) & 1):
                return False
        return True

    def _bits_to_range(self, vid):
        v = VARS[vid]
        m, val = self.kb[vid]
        full = (1 << v.w) - 1
        l0, h0 = self.vrange(vid)
        if (l0 >= 0 or h0 < 0) and l0 <= h0:
            # the leading bits that all values of the range share
            p = full & ~((1 << ((l0 ^ h0) & full).bit_length()) - 1)
            if (val ^ l0) & p & m:
                return False
            m |= p
            val |= l0 & p & full
        un = full & ~m
        if v.signed:
            s = 1 << (v.w - 1)
            if m & s:
                lo, hi = val, val | un
                if val & s:
                    lo -= 1 << v.w
                    hi -= 1 << v.w
            else:
                lo = (val | s) - (1 << v.w)
                hi = (val | un) & ~s
        else:
            lo, hi = val, val | un
        l0, h0 = self.vrange(vid)
        # tighten against gaps only coarsely
        if max(lo, l0) > min(hi, h0):
            return False
        self.rng[vid] = (max(lo, l0), min(hi, h0))
        if v.dlin is not None:
            return self.assume_ge(laddc(v.dlin, -self.rng[vid][0])) and self.assume_ge(
                laddc(lscale(v.dlin, -1), self.rng[vid][1]))
        return True

    def assume_atom(self, a, val):
        a = self.norm_atom(a)
        if a < 2:
            return a == val
        val ^= aneg(a)
        vid, i = avid(a), aidx(a)
        v = VARS[vid]
        if v.dbits is not None:
            return self.assume_atom(v.dbits[i], val)
        m, b = self.kb.get(vid, (0, 0))
        self.kb[vid] = (m | (1 << i), b | (val << i))
        return self._bits_to_range(vid)

    def assume_ge(self, lin):
        lin = self.lnorm(lin)
        if self.ge0(lin):
            return True
        if self.lrange(lin)[1] < 0:
            return False
        if self.ge0(laddc(lscale(lin, -1), -1)):
            return False
        if len(lin[1]) == 1:
            (v, c), = lin[1]
            # c*v + k >= 0
            lo, hi = self.vrange(v)
            if c > 0:
                lo = max(lo, -(lin[0] // c))
            else:
                hi = min(hi, lin[0] // (-c))
            return self.set_range(v, lo, hi)
        self.ge = self.ge + (lin,)
        # propagate to single variables
        for v, c in lin[1]:
            rest = (lin[0], tuple(p for p in lin[1] if p[0] != v))
            _, rh = self.lrange(rest)
            lo, hi = self.vrange(v)
            if c > 0:
                nlo = -(rh // c)
                if nlo > lo and not self.set_range(v, nlo, hi):
                    return False
            else:
                nhi = rh // (-c)
                if nhi < hi and not self.set_range(v, lo, nhi):
                    return False
        return True

    def assume_ne(self, lin):
        lin = self.lnorm(lin)
        if not lin[1]:
            return lin[0] != 0
        self.ne = self.ne | {lin}
        if len(lin[1]) == 1:
            (v, c), = lin[1]
            if lin[0] % c == 0:
                x = -lin[0] // c
                lo, hi = self.vrange(v)
                if x == lo:
                    return self.set_range(v, lo + 1, hi)
                if x == hi:
                    return self.set_range(v, lo, hi - 1)
        else:
            if self.ge0(lin):
                return self.assume_ge(laddc(lin, -1))
            if self.ge0(lscale(lin, -1)):
                return self.assume_ge(laddc(lscale(lin, -1), -1))
        return True

    # -- conditions
    def decide(self, c):
        if c is True or c is False:
            return c
        if isinstance(c, int):
            return bool(c)
        r = self._decide(c)
        if r is None and c.k in ("atoms", "in"):
            r = self.misc.get(("res", Cnd(c.k, c.d)))
        if r is None:
            return None
        return r != c.neg

    def _decide(self, c):
        if c.k == "ge":
            s = self.sign(c.d)
            return None if s == 0 else s > 0
        if c.k == "eq":
            return self.eq0(c.d)
        if c.k == "in":
            lin, lo, hi = c.d
            a = self.sign(laddc(lin, -lo))
            b = self.sign(laddc(lscale(lin, -1), hi))
            if a > 0 and b > 0:
                return True
            if a < 0 or b < 0:
                return False
            return None
        if c.k == "atoms":
            unk = False
            for a, v in c.d:
                a = self.norm_atom(a)
                if a < 2:
                    if a != v:
                        return False
                else:
                    unk = True
            return None if unk else True
        if c.k == "unk":
            return self.misc.get(c.d)
        raise Unsup("cond " + c.k)

    def assume(self, c, val=True):
        """returns False if infeasible"""
        if isinstance(c, (bool, int)):
            return bool(c) == val
        d = self.decide(c)
        if d is not None:
            return d == val
        pos = val != c.neg
        if c.k == "ge":
            return self.assume_ge(c.d if pos else laddc(lscale(c.d, -1), -1))
        if c.k == "eq":
            if pos:
                return self.assume_ge(c.d) and self.assume_ge(lscale(c.d, -1))
            return self.assume_ne(c.d)
        if c.k == "in":
            lin, lo, hi = c.d
            if pos:
                return self.assume_ge(laddc(lin, -lo)) and self.assume_ge(laddc(lscale(lin, -1), hi))
            below = Cnd("ge", laddc(lscale(lin, -1), lo - 1))
            above = Cnd("ge", laddc(lin, -hi - 1))
            b, a = self.decide(below), self.decide(above)
            if b is False:
                return self.assume(above)
            if a is False:
                return self.assume(below)
            self.misc[("res", Cnd(c.k, c.d))] = pos
            return True
        if c.k == "atoms":
            if pos:
                return all(self.assume_atom(a, v) for a, v in c.d)
            un = [(a, v) for a, v in c.d if self.norm_atom(a) >= 2]
            if len(un) == 1:
                return self.assume_atom(un[0][0], 1 - un[0][1])
            self.misc[("res", Cnd(c.k, c.d))] = pos
            return True
        if c.k == "unk":
            self.misc[c.d] = pos
            return True
        raise Unsup("assume " + c.k)


def unk_bool(name):
    return Cnd("unk", (name, fresh_id()))


# ---------------------------------------------------------------- scalar ops
def mask(w):
    return (1 << w) - 1


def var_bits(F, vid, w=None):
    v = VARS[vid]
    bits = [F.norm_atom(atom(vid, i)) for i in range(v.w)]
    if w is not None and w > v.w:
        lo, _ = F.vrange(vid)
        top = bits[-1] if v.signed and lo < 0 else 0
        bits += [top] * (w - v.w)
    elif w is not None:
        bits = bits[:w]
    return tuple(bits)


def _tz(n):
    return (n & -n).bit_length() - 1


def _disjoint(F, lin, w):
    """split of a form into a low part that fits k bits and a multiple of 2^k: no carry passes between them"""
    ks = set(_tz(c) for _, c in lin[1])
    if lin[0]:
        ks.add(_tz(lin[0]))
    for k in sorted(ks):
        if k == 0 or k >= w:
            continue
        m = 1 << k
        ts = tuple((v, c) for v, c in lin[1] if c % m)
        if not ts or len(ts) == len(lin[1]) and not lin[0] // m:
            continue
        low = (lin[0] % m, ts)
        # by the ranges of the variables themselves: the split must not depend on the path
        lo = hi = low[0]
        for v, c in ts:
            x = VARS[v]
            a, b = x.lo, x.hi
            if x.dbits is not None and not x.signed:
                a, b = 0, (1 << max([i + 1 for i, d in enumerate(x.dbits) if d], default=0)) - 1
            a, b = c * a, c * b
            lo, hi = lo + min(a, b), hi + max(a, b)
        q = lo // m
        if q != hi // m:
            continue
        low = (low[0] - q * m, ts)
        high = (lin[0] // m + q, tuple((v, c // m) for v, c in lin[1] if c % m == 0))
        return k, low, high
    return None


def _bitsum(F, lin, w):
    """bits of a form modulo 2^w as a weighted sum of bit atoms, when the weights end up distinct powers of two"""
    if len(lin[1]) < 2:
        return None
    acc, c0, m = {}, lin[0], mask(w)
    for v, c in lin[1]:
        bs = var_bits(F, v, None)
        for i, a in enumerate(bs):
            k = c << i
            if i == len(bs) - 1 and VARS[v].signed:
                k = -k
            if a == 1:
                c0 += k
            elif a:
                p = anot(a) if aneg(a) else a
                if p != a:
                    c0 += k
                    k = -k
                acc[p] = acc.get(p, 0) + k
    out = [0] * w
    for p, k in acc.items():
        k &= m
        if not k:
            continue
        if k & (k - 1):
            k = -k & m
            if k & (k - 1):
                return None
            c0 -= k
            p = anot(p)
        i = k.bit_length() - 1
        if out[i]:
            return None
        out[i] = p
    c0 &= m
    for i in range(w):
        if c0 >> i & 1:
            if out[i] and i < w - 1:
                return None
            out[i] = anot(out[i]) if out[i] else 1
    return tuple(out)


def bits_of(F, x, w):
    """bit vector (LSB first) of scalar x"""
    if isinstance(x, int):
        return tuple((x >> i) & 1 for i in range(w))
    if isinstance(x, Cnd):
        raise_on_cond(F, x)
    if x.bits is not None:
        return tuple(F.norm_atom(a) for a in x.bits)
    lin = F.lnorm(x.lin)
    if not lin[1]:
        return bits_of(F, lin[0] & mask(w), w)
    if lin[0] & mask(w) == 0 and len(lin[1]) == 1 and lin[1][0][1] == 1:
        v = VARS[lin[1][0][0]]
        lo, hi = F.vrange(v.vid)
        if v.w <= w or (lo >= 0 and hi < (1 << w)) or True:
            return var_bits(F, v.vid, w)
    if w > 1 and all(c % 2 == 0 for _, c in lin[1]):
        low = lin[0] & 1
        half = ((lin[0] - low) // 2, tuple((v, c // 2) for v, c in lin[1]))
        return (low,) + bits_of(F, Sc(w - 1, None, half), w - 1)
    if lin[0] == -1 and len(lin[1]) == 1 and lin[1][0][1] == -1:
        return tuple(anot(a) if a >= 2 else 1 - a for a in bits_of(F, Sc(w, None, LV(lin[1][0][0])), w))
    parts = _disjoint(F, lin, w)
    if parts is not None:
        k, low, high = parts
        return bits_of(F, Sc(k, None, low), k) + bits_of(F, Sc(w - k, None, high), w - k)
    parts = _bitsum(F, lin, w)
    if parts is not None:
        return parts
    lo, hi = F.within(x.lin, 0, (1 << w) - 1)
    W = 8
    while W < w:
        W *= 2
    if lin[1][0][1] < 0 and lo >= 0 and hi < (1 << w):
        # the complement of a growing form
        n = w if hi < (1 << (w - 1)) else w + 1
        return tuple(anot(a) if a >= 2 else 1 - a for a in bits_of(F, Sc(n, None, laddc(lscale(lin, -1), -1)), n)[:w])
    if len(lin[1]) == 1 and ("aux", W, True, x.lin) not in MEMO and ("aux", W, False, x.lin) not in MEMO:
        # two possible values: every bit is constant or follows the variable
        v, c = lin[1][0]
        l1, h1 = F.vrange(v)
        if h1 - l1 == 1:
            p, q = (lin[0] + c * l1) & mask(w), (lin[0] + c * h1) & mask(w)
            a = F.norm_atom(atom(v, 0))
            if a >= 2:
                one = a if h1 & 1 else anot(a)
                return tuple([(p >> i) & 1 if (p >> i) & 1 == (q >> i) & 1 else one if (q >> i) & 1 else anot(one) for i in range(w)])
    if lo >= -(1 << (W - 1)) and hi < (1 << (W - 1)) and ("aux", W, True, x.lin) in MEMO:
        a = MEMO[("aux", W, True, x.lin)]
    elif lo >= 0 and hi < (1 << w):
        a = memo_var(("aux", W, False, x.lin), W, False, "(" + show_lin(x.lin) + ")", dlin=x.lin)
    elif lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)):
        a = memo_var(("aux", W, True, x.lin), W, True, "(" + show_lin(x.lin) + ")", dlin=x.lin)
    else:
        # may wrap: split on the wrapping multiple
        top = 1 << w
        k0, k1 = lo // top, hi // top
        if k0 == k1 or (lin[0] and not lin[0] % top):
            return bits_of(F, Sc(w, None, laddc(lin, -k0 * top if k0 == k1 else -lin[0])), w)
        if k1 - k0 > 3:
            raise Unsup("bits of a widely wrapping form")
        raise Fork([lambda st, l=x.lin, k=k: st.F.assume_ge(laddc(l, -k * top)) and st.F.assume_ge(laddc(lscale(l, -1), (k + 1) * top - 1))
                    for k in range(k0, k1 + 1)], "wrap")
    return var_bits(F, a.vid, w)


def from_bits(F, bits):
    bits = tuple(F.norm_atom(a) for a in bits)
    w = len(bits)
    if all(a < 2 for a in bits):
        return sum(a << i for i, a in enumerate(bits))
    # identity of one variable?
    for a in bits:
        if a >= 2:
            break
    vids = []
    for b in bits:
        if b >= 2:
            if avid(b) not in vids:
                vids.append(avid(b))
            if len(vids) > 1:
                break
    if len(vids) == 1:
        vid = vids[0]
        v = VARS[vid]
        if var_bits(F, vid, w) == bits:
            # identity holds only if no significant bit is cut off
            lo, hi = F.vrange(vid)
            if w >= v.w or (lo >= 0 and hi < (1 << w)) or (lo >= -(1 << (w - 1)) and hi < (1 << (w - 1))):
                return Sc(w, bits, LV(vid))
    return Sc(w, bits, None)


def raise_on_cond(F, c):
    raise Fork([lambda st: st.F.assume(c, True), lambda st: st.F.assume(c, False)], "cond %r" % (c,))


def affine(F, bits):
    """c + 2^k*(v mod 2^m), or the same of the complement of v, read off a bit pattern"""
    k = 0
    while k < len(bits) and bits[k] < 2:
        k += 1
    if k == len(bits):
        return None
    vid, neg = avid(bits[k]), aneg(bits[k])
    m = 0
    while k + m < len(bits) and bits[k + m] == atom(vid, m) ^ neg:
        m += 1
    if not m or any(b >= 2 for b in bits[k + m:]):
        return None
    lo, hi = F.vrange(vid)
    u = LV(vid)
    if neg:
        lo, hi = -hi - 1, -lo - 1
        u = laddc(lscale(u, -1), -1)
    q = lo >> m
    if q != hi >> m:
        return None
    c = sum(1 << i for i, b in enumerate(bits) if b == 1)
    return laddc(lscale(laddc(u, -(q << m)), 1 << k), c)


def lin_of(F, x, w, signed):
    """exact value of scalar x read as (w, signed) integer, as a linear form"""
    if isinstance(x, int):
        if signed and x >> (w - 1):
            return L(x - (1 << w))
        return L(x)
    if isinstance(x, Cnd):
        raise_on_cond(F, x)
    lo_t, hi_t = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
    if x.lin is not None:
        lo, hi = F.within(x.lin, lo_t, hi_t)
        if lo >= lo_t and hi <= hi_t:
            return x.lin
        for k in (1 << w, -(1 << w)):
            if lo + k >= lo_t and hi + k <= hi_t:
                return laddc(x.lin, k)
        # the form may wrap
        l = x.lin
        alts = []
        for k in (0, 1 << w, -(1 << w)):
            if hi + k >= lo_t and lo + k <= hi_t:
                alts.append(lambda st, k=k: st.F.assume_ge(laddc(l, k - lo_t)) and st.F.assume_ge(laddc(lscale(l, -1), hi_t - k)))
        if len(alts) > 1 and hi - lo < (1 << (w + 1)):
            raise Fork(alts, "wrap")
        v = memo_var(("wrap", l, w, signed), w, signed, "wrap(%s)" % show_lin(l))
        return LV(v.vid)
    bits = bits_of(F, x, w)
    y = from_bits(F, bits)
    if isinstance(y, int):
        return lin_of(F, y, w, signed)
    if y.lin is not None:
        return lin_of(F, Sc(w, None, y.lin), w, signed)
    top = bits[-1]
    if not signed or top < 2:
        l = affine(F, bits)
        if l is not None:
            return laddc(l, -(1 << w)) if signed and top else l
    if not signed or top == 0:
        while w > 8 and not any(bits[w // 2:]):     # one variable for a value at every width
            w //= 2
            bits = bits[:w]
        v = memo_var(("bv", bits), w, False, "bv%d" % len(MEMO), dbits=bits)
        return LV(v.vid)
    if top == 1:
        v = memo_var(("bv", bits), w, False, "bv%d" % len(MEMO), dbits=bits)
        return laddc(LV(v.vid), -(1 << w))
    raise Fork([lambda st: st.F.assume_atom(top, 0), lambda st: st.F.assume_atom(top, 1)], "sign")


def mk(w, lin):
    """scalar of width w whose pattern is lin mod 2^w"""
    if not lin[1]:
        return lin[0] & mask(w)
    return Sc(w, None, lin)


def simp(F, x):
    if isinstance(x, Sc) and x.lin is not None:
        l = F.lnorm(x.lin)
        if not l[1]:
            return l[0] & mask(x.w)
        if len(l[1]) > 1 and any(VARS[v].dbits is not None for v, _ in l[1]):
            # slices of one value put together again
            lo, hi = F.bounds(l)
            bits = _bitsum(F, l, x.w) if lo >= 0 and hi <= mask(x.w) else None
            if bits is not None:
                y = from_bits(F, bits)
                if isinstance(y, int) or y.lin is not None:
                    return y
                y = affine(F, bits)
                if y is not None:
                    return Sc(x.w, bits, y)
    return x


def to_cnd(F, x):
    if isinstance(x, Cnd):
        return x
    if isinstance(x, int):
        return bool(x)
    if x.bits is not None:
        return Cnd("atoms", ((x.bits[0], 1),))
    return Cnd("eq", laddc(x.lin, -1))


def compare(F, op, a, b, w, signed):
    """-> bool or Cnd"""
    if isinstance(a, int) and isinstance(b, int):
        if signed:
            s = 1 << (w - 1)
            a = a - (1 << w) if a & s else a
            b = b - (1 << w) if b & s else b
        return {"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[op]
    if op in ("Eq", "Ne"):
        ab = getattr(a, "bits", None)
        bb = getattr(b, "bits", None)
        if (ab is not None or bb is not None) and (isinstance(a, int) or isinstance(b, int) or (ab is not None and bb is not None)) \
                and not (getattr(a, "lin", None) is not None or getattr(b, "lin", None) is not None):
            A, B = bits_of(F, a, w), bits_of(F, b, w)
            ats = []
            for x, y in zip(A, B):
                if x == y:
                    continue
                if x < 2 and y < 2:
                    return op == "Ne"
                if x >= 2 and y >= 2:
                    ats = None
                    break
                ats.append((x, y) if x >= 2 else (y, x))
            if ats is not None:
                if not ats:
                    return op == "Eq"
                c = Cnd("atoms", tuple(ats))
                return c if op == "Eq" else c.inv()
    la, lb = lin_of(F, a, w, signed), lin_of(F, b, w, signed)
    d = lsub(la, lb)
    if op == "Eq":
        c = Cnd("eq", d)
    elif op == "Ne":
        c = Cnd("eq", d, True)
    elif op == "Ge":
        c = Cnd("ge", d)
    elif op == "Lt":
        c = Cnd("ge", d, True)
    elif op == "Le":
        c = Cnd("ge", lscale(d, -1))
    else:
        c = Cnd("ge", lscale(d, -1), True)
    r = F.decide(c)
    return c if r is None else r


def concretize(F, x, w, why="value", limit=200):
    """fork over the possible concrete values of x"""
    if isinstance(x, int):
        return x
    l = lin_of(F, x, w, False)
    lo, hi = F.bounds(l)
    if hi - lo > limit:
        raise Unsup("cannot enumerate %s %r" % (why, x))
    if lo == hi:
        return lo
    raise Fork([(lambda st, k=k: st.F.assume(Cnd("eq", laddc(l, -k)))) for k in range(lo, hi + 1)], "enum")


def binop(F, op, a, b, w, signed, wb=None):
    """wrapping arithmetic -> scalar"""
    m = mask(w)
    op = op.replace("Unchecked", "")
    if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
        r = compare(F, op, a, b, w, signed)
        return int(r) if isinstance(r, bool) else r
    if isinstance(a, Cnd) or isinstance(b, Cnd):
        if op in ("BitAnd", "BitOr", "BitXor"):
            if isinstance(b, int):
                a, b = b, a
            if isinstance(a, int):
                if op == "BitAnd":
                    return b if a else 0
                if op == "BitOr":
                    return 1 if a else b
                return b.inv() if a else b
        raise_on_cond(F, a if isinstance(a, Cnd) else b)
    a, b = simp(F, a), simp(F, b)
    if op in ("Shl", "Shr"):
        b = concretize(F, b, wb or 32, "shift")
        b &= w - 1
        if isinstance(a, int):
            if op == "Shl":
                return (a << b) & m
            if signed and a >> (w - 1):
                return ((a - (1 << w)) >> b) & m
            return a >> b
        bits = bits_of(F, a, w)
        if op == "Shl":
            return from_bits(F, ((0,) * b + bits)[:w])
        fill = bits[-1] if signed else 0
        return from_bits(F, bits[b:] + (fill,) * b)
    if op in ("BitAnd", "BitOr", "BitXor"):
        if isinstance(a, int) and isinstance(b, int):
            return {"BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b}[op]
        A, B = bits_of(F, a, w), bits_of(F, b, w)
        out = []
        for x, y in zip(A, B):
            if x >= 2 and y < 2:
                x, y = y, x
            if op == "BitAnd":
                r = 0 if x == 0 or (x >= 2 and x == anot(y) and y >= 2) else y if x == 1 else x if x == y else None
            elif op == "BitOr":
                r = 1 if x == 1 or (x >= 2 and x == anot(y) and y >= 2) else y if x == 0 else x if x == y else None
            else:
                r = y if x == 0 else (1 - y if y < 2 else anot(y)) if x == 1 else 0 if x == y else 1 if x == anot(y) else None
            if r is None:
                # split on the atom that occurs in most positions (a sign bit, typically)
                cnt = {}
                for p, q in zip(A, B):
                    if p >= 2 and q >= 2:
                        cnt[p & ~1] = cnt.get(p & ~1, 0) + 1
                        cnt[q & ~1] = cnt.get(q & ~1, 0) + 1
                x = max(cnt, key=lambda a: cnt[a])
                raise Fork([lambda st, x=x: st.F.assume_atom(x, 0), lambda st, x=x: st.F.assume_atom(x, 1)], "bit")
            out.append(r)
        return from_bits(F, out)
    if op in ("Add", "Sub"):
        if isinstance(a, int) and isinstance(b, int):
            return (a + b if op == "Add" else a - b) & m
        la = a.lin if isinstance(a, Sc) and a.lin is not None else lin_of(F, a, w, signed)
        lb = b.lin if isinstance(b, Sc) and b.lin is not None else lin_of(F, b, w, signed)
        return simp(F, mk(w, ladd(la, lb) if op == "Add" else lsub(la, lb)))
    if op == "Mul":
        if isinstance(a, int) and isinstance(b, int):
            return (a * b) & m
        if isinstance(a, int):
            a, b = b, a
        la = lin_of(F, a, w, signed)
        if isinstance(b, int):
            lb = lin_of(F, b, w, signed)
            return simp(F, mk(w, lscale(la, lb[0])))
        v = memo_var(("mul", a.key(), b.key(), w), w, signed, "mul%d" % len(MEMO))
        return mk(w, LV(v.vid))
    if op in ("Div", "Rem"):
        la, lb = lin_of(F, a, w, signed), lin_of(F, b, w, signed)
        if not la[1] and not lb[1]:
            if lb[0] == 0:
                raise Panic("division by zero")
            q = abs(la[0]) // abs(lb[0])
            if (la[0] < 0) != (lb[0] < 0):
                q = -q
            r = la[0] - q * lb[0]
            return (q if op == "Div" else r) & m
        if lb[1] or lb[0] <= 0:
            v = memo_var((op, la, lb, w), w, signed, "%s%d" % (op, len(MEMO)))
            return mk(w, LV(v.vid))
        n = lb[0]
        neg = F.sign(la) < 0
        if not neg and not F.ge0(la):
            raise Fork([lambda st: st.F.assume_ge(la), lambda st: st.F.assume_ge(laddc(lscale(la, -1), -1))], "sign")
        if not neg and n & (n - 1) == 0:
            s = n.bit_length() - 1
            if op == "Div":
                return binop(F, "Shr", a, s, w, False)
            return binop(F, "BitAnd", a, n - 1, w, False)
        q, r = divmod_lin(F, lscale(la, -1) if neg else la, n)
        return mk(w, lscale(q if op == "Div" else r, -1 if neg else 1))
    raise Unsup("binop " + op)


def divmod_lin(F, lin, k):
    """floored quotient and remainder by a positive constant, as linear forms"""
    lin = F.lnorm(lin)
    a = (lin[0] // k * k, tuple((v, c) for v, c in lin[1] if c % k == 0))
    r = lsub(lin, a)
    lo, hi = F.bounds(r)
    lo2, hi2 = F.bounds(lin)
    if lo // k != hi // k and hi2 // k - lo2 // k < hi // k - lo // k:
        a, r, lo, hi = L(0), lin, lo2, hi2
    q = (a[0] // k, tuple((v, c // k) for v, c in a[1]))
    if lo // k == hi // k:
        return laddc(q, lo // k), laddc(r, -(lo // k) * k)
    lo0 = hi0 = r[0]
    for v, c in r[1]:
        x, y = VARS[v].lo0, VARS[v].hi0
        lo0, hi0 = lo0 + min(c * x, c * y), hi0 + max(c * x, c * y)
    lo0, hi0 = lo0 // k, hi0 // k
    w = next((w for w in (8, 16, 32, 64, 128) if (0 <= lo0 and hi0 < 1 << w) or (-1 << (w - 1) <= lo0 and hi0 < 1 << (w - 1))), None)
    if w is None:
        raise Unsup("quotient of %s" % show_lin(r))
    v = LV(memo_var(("div", r, k), w, lo0 < 0, "(%s)/%d" % (show_lin(r), k), lo0, hi0).vid)
    m = lsub(r, lscale(v, k))
    for g in (m, laddc(lscale(m, -1), k - 1), laddc(v, -(lo // k)), laddc(lscale(v, -1), hi // k)):
        F.assume_ge(g)
    return ladd(q, v), m


def overflow(F, op, a, b, w, signed):
    """condition: exact result out of range"""
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
    la, lb = lin_of(F, a, w, signed), lin_of(F, b, w, signed)
    if op == "Add":
        r = ladd(la, lb)
    elif op == "Sub":
        r = lsub(la, lb)
    elif op == "Mul":
        if not la[1]:
            la, lb = lb, la
        if lb[1]:
            a1, a2 = F.bounds(la)
            b1, b2 = F.bounds(lb)
            ps = [a1 * b1, a1 * b2, a2 * b1, a2 * b2]
            if min(ps) >= lo and max(ps) <= hi:
                return 0
            return unk_bool("mulov")
        r = lscale(la, lb[0])
    else:
        raise Unsup("overflow " + op)
    if not r[1]:
        return int(not lo <= r[0] <= hi)
    c = Cnd("in", (r, lo, hi), True)
    d = F.decide(c)
    return c if d is None else int(d)


def cast_int(F, x, w1, s1, w2):
    if isinstance(x, Cnd):
        raise_on_cond(F, x)
    if isinstance(x, int):
        if w2 > w1 and s1 and x >> (w1 - 1):
            return (x - (1 << w1)) & mask(w2)
        return x & mask(w2)
    if w2 == w1:
        return x
    if w2 < w1:
        if x.lin is not None:
            lo, hi = F.bounds(x.lin)
            if x.bits is None:
                # keeping the congruent linear form is always valid mod 2^w2
                return simp(F, Sc(w2, None, x.lin))
        return from_bits(F, bits_of(F, x, w1)[:w2])
    if x.lin is not None or not s1:
        if x.lin is None:
            return from_bits(F, bits_of(F, x, w1) + (0,) * (w2 - w1))
        return simp(F, mk(w2, lin_of(F, x, w1, s1)))
    b = bits_of(F, x, w1)
    return from_bits(F, b + (b[-1],) * (w2 - w1))
