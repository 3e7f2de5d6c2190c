"""Harness: abstract round trips and decoding of arbitrary input."""
from core import *
import core, seqs, mir
from interp import Engine, State

MARK = ("T", ("END",))


def ok_payload(r):
    """Result value -> ('ok', v) / ('err', v)"""
    if isinstance(r, Agg):
        return ("ok", r.f[0]) if r.v == 0 else ("err", r.f[0])
    raise Unsup("result %r" % (r,))



def split_on_forks(st, fn, limit=4000):
    """evaluate fn(state), splitting the state on every Fork: [(state, result)]"""
    out, work = [], [st]
    n = 0
    while work:
        s = work.pop()
        n += 1
        if n > limit:
            raise Unsup("too many cases")
        try:
            out.append((s, fn(s)))
        except Stop:
            continue
        except Fork as fk:
            for alt in fk.alts:
                c = s.clone()
                try:
                    ok = alt(c)
                except Stop:
                    ok = False
                if ok:
                    work.append(c)
    return out


class Harness:
    def __init__(self, srv):
        self.srv = srv
        self.roots = srv.roots()
        self.E = None

    def engine(self):
        core.reset()
        self.E = Engine(self.srv)
        return self.E

    def argty(self, root, i):
        b = self.srv.body(self.roots[root])
        t = self.E.ty(b.locals[1 + i])
        return t.d["to"] if t.k == "ptr" else t.id

    def init(self, E, mode=None):
        st = State()
        st.mode = dict(mode or {})
        return st

    def call(self, E, st, root, args):
        st.status = None
        st.result = None
        st.frames = []
        self.last = root
        E.start(st, self.roots[root], args)
        return E.explore(st)

    def enc(self, E, st, root, val):
        a = st.alloc(val)
        w = st.alloc(Obj("Sink"))
        st.sink = Seq()
        return self.call(E, st, root, [Ptr(a), Ptr(w)])

    def dec(self, E, st, root, src):
        r = st.alloc(Obj("Src"))
        st.src = src
        for k in ("eof", "nreads"):
            st.flags.pop(k, None)
        return self.call(E, st, root, [Ptr(r)])
