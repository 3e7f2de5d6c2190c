"""Concretisation: an assignment of the input variables that satisfies the facts of a path.
Used only to confirm a reported mismatch; a mismatch without one is left undecided."""
import random
from core import *
import core
import os



FREE = ("opq", "len", "byte", "inlen", "in", "os", "chr", "cap", "short")
FREE_TERM = ("v", "f", "el", "elem", "key", "val", "deref", "seq", "str", "map", "opq", "dec", "bytes")


FN, PRED = {}, {}      # functions and predicates of other domains, evaluated only here


class NoWitness(Exception):
    pass


def ev_var(vid, env):
    if vid in env:
        return env[vid]
    v = VARS[vid]
    k = v.key
    if v.dlin is not None:
        r = ev_lin(v.dlin, env)
    elif v.dbits is not None:
        r = ev_bits(v.dbits, env)
        if v.signed and r >> (v.w - 1):
            r -= 1 << v.w
    elif k is not None and k[0] == "ctlz":
        r = k[2] - max(ev_lin(k[1], env), 0).bit_length()
    elif k is not None and k[0] == "wrap":
        r = ev_lin(k[1], env) & mask(k[2])
        if k[3] and r >> (k[2] - 1):
            r -= 1 << k[2]
    elif k is not None and k[0] == "div":
        r = ev_lin(k[1], env) // k[2]
    elif k is not None and k[0] == "fn":
        r = FN[k[1]](*(ev_lin(l, env) for l in k[2:]))
    elif k is not None and k[0] in ("mul", "Div", "Rem"):
        raise NoWitness("derived")
    else:
        raise KeyError(vid)
    env[vid] = r
    return r


def base(vid):
    v = VARS[vid]
    if v.dlin is not None or v.dbits is not None:
        return False
    k = v.key
    if k is None:
        return True
    if k[0] in ("ctlz", "wrap", "div", "fn"):
        return False
    if k[0] in ("mul", "Div", "Rem", "chrlen"):
        raise NoWitness("derived " + k[0])
    return True


def ev_lin(l, env):
    r = l[0]
    for v, c in l[1]:
        r += c * ev_var(v, env)
    return r


def ev_bits(bits, env):
    r = 0
    for i, a in enumerate(bits):
        if a >= 2:
            x = ev_var(avid(a), env)
            b = ((x >> aidx(a)) & 1) ^ aneg(a)
        else:
            b = a
        r |= b << i
    return r


def ev_sc(x, env):
    if isinstance(x, int):
        return x
    if isinstance(x, Sc):
        if x.lin is not None:
            return ev_lin(x.lin, env) & mask(x.w)
        return ev_bits(x.bits, env)
    raise NoWitness("value %r" % (x,))


def ev_term(t, env):
    if isinstance(t, tuple):
        if is_lin(t):
            return ev_lin(t, env)
        return tuple(ev_term(x, env) for x in t)
    return t


def free_term(t):
    return isinstance(t, tuple) and bool(t) and t[0] in FREE_TERM


def bases(vids):
    """base variables behind a set of variables"""
    out, todo, seen = set(), list(vids), set()
    while todo:
        v = todo.pop()
        if v in seen or v < 0:
            continue
        seen.add(v)
        x = VARS[v]
        if x.dlin is not None or x.dbits is not None or (x.key and x.key[0] in ("ctlz", "wrap", "div", "fn")):
            s = set()
            for d in (x.dlin, x.key if x.dlin is None else None):
                if d is not None:
                    vars_of(d, s)
            if x.dbits is not None:
                s |= {avid(a) for a in x.dbits if a >= 2}
            todo += list(s - {v})
        else:
            base(v)
            out.add(v)
    return out


def fact_vars(F):
    s = set(F.rng) | set(F.kb)
    for g in F.ge:
        s |= {v for v, _ in g[1]}
    for g in F.ne:
        s |= {v for v, _ in g[1]}
    for t in F.misc:
        if isinstance(t, tuple) and t and (t[0] == "res" or t[0] in PRED):
            vars_of(t[1:], s)
    return s


def holds(F, env):
    for v, (lo, hi) in F.rng.items():
        if not lo <= ev_var(v, env) <= hi:
            return False
    for v, (m, b) in F.kb.items():
        if (ev_var(v, env) & m) != b:
            return False
    for g in F.ge:
        if ev_lin(g, env) < 0:
            return False
    for g in F.ne:
        if ev_lin(g, env) == 0:
            return False
    for t, pos in F.misc.items():
        if isinstance(t, tuple) and t and t[0] == "res" and not ev_cnd(t[1], env, pos):
            return False
        if isinstance(t, tuple) and t and t[0] in PRED and PRED[t[0]](*(ev_lin(l, env) for l in t[1:])) != pos:
            return False
    return True


def ev_cnd(c, env, pos):
    if c.k == "atoms":
        r = all((ev_bits((a,), env)) == v for a, v in c.d)
    elif c.k == "in":
        x = ev_lin(c.d[0], env)
        r = c.d[1] <= x <= c.d[2]
    else:
        raise NoWitness("condition")
    return (r != c.neg) == pos


def tight(F, v, env):
    """range of v given the variables already assigned"""
    lo, hi = F.vrange(v)
    for g in F.ge:
        c = 0
        r = g[0]
        for x, k in g[1]:
            if x == v:
                c = k
            elif x in env:
                r += k * env[x]
            else:
                break
        else:
            if c > 0:
                lo = max(lo, -(r // c))
            elif c < 0:
                hi = min(hi, r // -c)
    return lo, hi


def pick(F, v, rnd, env):
    lo, hi = tight(F, v, env)
    if lo > hi:
        return lo
    x = VARS[v]
    k = F.kb.get(v)
    r = rnd.random()
    if r < 0.25:
        c = lo
    elif r < 0.4:
        c = hi
    elif r < 0.7:
        c = lo + rnd.randrange(0, min(hi - lo, 300) + 1)
    else:
        c = lo + rnd.randrange(0, hi - lo + 1)
    if k:
        m = mask(x.w)
        c = (c & m & ~k[0]) | k[1]
        if x.signed and c >> (x.w - 1):
            c -= 1 << x.w
    return c


def assign(F, vids, rnd, want=None):
    """one attempt at a satisfying assignment"""
    G = F.clone()
    vs = sorted(bases(vids))
    rnd.shuffle(vs)
    if rnd.random() < 0.75:
        vs.sort(key=lambda v: VARS[v].key is None)     # loop counters after the inputs
    derived = [(v, bases([v])) for v in vids if v >= 0 and v not in vs]
    env = {}
    full = {}
    # lengths of loops and of inputs first: they constrain the rest
    for v in vs:
        for _ in range(4):
            c = pick(G, v, rnd, full)
            H = G.clone()
            if H.assume_ge(laddc(LV(v), -c)) and H.assume_ge(laddc(lscale(LV(v), -1), c)):
                G = H
                break
        else:
            return None
        G.rng = dict(G.rng)
        G.rng[v] = (c, c)
        env[v] = full[v] = c
        rest = []
        for d, b in derived:
            if b <= env.keys():
                x = ev_var(d, dict(env))
                if not (G.assume_ge(laddc(LV(d), -x)) and G.assume_ge(laddc(lscale(LV(d), -1), x))):
                            return None
                full[d] = x
            else:
                rest.append((d, b))
        derived = rest
    return env


def find(F, extra=(), test=None, tries=150, seed=1):
    """an assignment satisfying F and test(env); None if none was found"""
    rnd = random.Random(seed)
    try:
        vids = fact_vars(F) | set(extra)
        for _ in range(tries):
            env = assign(F, vids, rnd)
            if env is None:
                continue
            e = dict(env)
            try:
                if holds(F, e) and (test is None or test(e)):
                    return env
            except (KeyError, IndexError):
                return None
    except NoWitness:
        return None
    return None


def differ(F, pair, seed=1):
    """can the two values differ on this path?"""
    k, a, b = pair
    if k == "false":
        return find(F, seed=seed)
    s = set()
    vars_of(a, s)
    vars_of(b, s)
    if k == "opq":
        if not (free_term(a) and free_term(b)):
            return None
        return find(F, s, lambda e: ev_term(a, e) != ev_term(b, e), seed=seed)
    return find(F, s, lambda e: ev_sc(a, e) != ev_sc(b, e), seed=seed)


def show(env):
    return {VARS[v].name: x for v, x in sorted(env.items())}
