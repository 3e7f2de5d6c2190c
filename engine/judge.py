"""Obligations: run the abstract interpreter over an entry point and judge every path."""
import os, re, sys, time, traceback
from core import *
import core, seqs, rt, witness
from rt import MARK, ok_payload, split_on_forks

OK, BAD, UND = "ok", "violated", "undecided"


class Ob:
    __slots__ = ("name", "status", "msg", "key", "where", "detail", "wit")

    def __init__(self, name, status, msg="", key=None, where=None, detail=None, wit=None):
        self.name, self.status, self.msg, self.key, self.where, self.detail, self.wit = name, status, msg, key or name, where, detail, wit

    def d(self):
        return {k: getattr(self, k) for k in self.__slots__ if getattr(self, k) is not None}


def short(x, n=400):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + "..."


def clean_where(w):
    """call chain with repository frames first"""
    return short(w or "", 1500)


def paths_feasible(st):
    """a concrete instance of this path, or None"""
    e = witness.find(st.F)
    return witness.show(e) if e is not None else None


class Judge:
    def __init__(self, H):
        self.H = H
        self.obs = []
        self.npaths = 0
        self.steps = 0
        self.fns = set()
        self.ih = None
        self.t0 = time.time()

    def add(self, name, status, msg="", **k):
        self.obs.append(Ob(name, status, msg, **k))

    def merge(self, K):
        """take over what another judge found"""
        self.obs += K.obs
        self.npaths += K.npaths
        self.steps += K.steps
        self.fns |= K.fns

    def stuck(self, name, o, what):
        """a path that ended without an answer from the code"""
        self.npaths += 1
        if o.status == "unsup":
            self.add(name, UND, "%s: not analysed: %s" % (what, short(o.where, 900)))
        else:
            w = paths_feasible(o)
            kind = {"panic": "panics", "desync": "loses its place in the stream"}.get(o.status, o.status)
            if w is None:
                self.add(name, UND, "%s %s on a path without concrete instance: %s" % (what, kind, short(o.where, 900)))
            else:
                self.add(name, BAD, "%s %s" % (what, kind), key="%s/%s" % (name, o.status), where=clean_where(o.where), wit=w)

    def fail(self, name, o, msg, key):
        w = paths_feasible(o)
        if w is None:
            self.add(name, UND, msg + " (path without concrete instance)")
        else:
            self.add(name, BAD, msg, key="%s/%s" % (name, key), wit=w)

    def same(self, E, name, st, a, b, what, key, seq=False):
        """decide a == b on every refinement of the path"""
        st.undec = []
        try:
            res = split_on_forks(st, (lambda y: seqs.eqseq(E, y, a, b)) if seq else (lambda y: seqs.eqv(E, y, a, b)))
        except Unsup as u:
            self.add(name, UND, "%s: comparison not supported: %s" % (what, u))
            return
        except Desync as u:
            self.fail(name, st, "%s: %s" % (what, u), key)
            return
        except (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError) as u:
            if os.environ.get("VDEBUG"):
                raise
            self.add(name, UND, "%s: comparison failed: %r" % (what, u))
            return
        if all(r is True for _, r in res):
            self.add(name, OK)
            return
        for y, r in res:
            if r is False:
                w = paths_feasible(y)
                if w is not None:
                    self.add(name, BAD, "%s: %s instead of %s" % (what, short(a), short(b)), key="%s/%s" % (name, key), wit=w)
                    return
        for F, pair in st.undec:
            e = witness.differ(F, pair)
            if e is not None:
                self.add(name, BAD, "%s: %s instead of %s" % (what, short(pair[1]), short(pair[2])),
                         key="%s/%s" % (name, key), wit=witness.show(e))
                return
        self.add(name, UND, "%s: equality of %s and %s not decided" % (what, short(a), short(b)))

    # ------------------------------------------------------------ round trip
    def engine(self):
        E = self.H.engine()
        E.ih = self.ih
        return E

    def encode(self, E, st, root, val, name, refuse=None):
        """all successful encodings of val; refuse(F) -> the condition under which an error is right"""
        outs = self.H.enc(E, st, root, val)
        good = []
        for o in outs:
            if o.status != "ret":
                self.stuck(name, o, "encoding")
                continue
            k, v = ok_payload(o.result)
            if k != "ok":
                self.npaths += 1
                c = refuse(E, o, val) if refuse is not None else False
                if c is False:
                    self.fail(name, o, "encoding returns an error: %s" % short(v), "enc-err")
                else:
                    self.must(name, o, c, "encoding returns an error: %s" % short(v), "enc-err")
                continue
            good.append(o)
        if not good and not self.obs:
            self.add(name, UND, "no successful path")
        return good

    def roundtrip(self, name, val=None, mode=None, wire=None, decode=True, rest_only=False, expect=None, refuse=None):
        """ser of any value, then de of the result, gives the value back and stops exactly at the end.
        wire(E, st, val) -> expected bytes (may raise Fork)"""
        H = self.H

        def go(E):
            st = H.init(E, mode)
            v0 = val(E, st) if val else Opq(("v",), H.argty(name + "::ser", 0))
            for o in self.encode(E, st, name + "::ser", v0, name, refuse):
                if wire is not None:
                    self.wire(E, name, o, v0, wire)
                if not decode:
                    self.npaths += 1
                    continue
                d = H.dec(E, o.clone(), name + "::de", Seq(o.sink.s + (MARK,)))
                for x in d:
                    if x.status != "ret":
                        self.stuck(name, x, "decoding")
                        continue
                    self.npaths += 1
                    k, v = ok_payload(x.result)
                    if k != "ok":
                        self.fail(name, x, "decoding the value's own encoding returns an error: %s" % short(v), "dec-err")
                        continue
                    if not rest_only:
                        e0 = v0 if expect is None else expect(E, x, v0)
                        self.same(E, name, x.clone(), v, e0, "decoded value", "value")
                    self.same(E, name, x, x.src, Seq((MARK,)), "unread input after decoding", "rest", seq=True)
        return self.guarded(name, go)

    def reads(self, name, wire, form, out=None):
        """bytes that stand for a value in the format, with every varint at least form bytes long, decode to that value and no
        further than their end; out: the condition under which a value has no encoding"""
        H = self.H
        what = "%s/%d" % (name, form)

        def go(E):
            st = H.init(E)
            v0 = Opq(("v",), H.argty(name + "::ser", 0))
            for y, w in split_on_forks(st, lambda y: self.long_form(E, y, v0, wire, form, out)):
                if w is None:
                    continue
                self.read_back(E, what, H.dec(E, y, name + "::de", Seq(w + (MARK,))), v0)
        return self.guarded(what, go)

    def long_form(self, E, st, v0, wire, form, out=None):
        import spec
        cond = out(E, st, v0) if out else False
        if cond is not False and spec.fork_ge(st.F, cond.d):
            return None
        spec.FORM = form
        try:
            w = wire(E, st, v0)
            return w if isinstance(w, tuple) else w.s
        finally:
            spec.FORM = 1

    def read_back(self, E, what, outs, want):
        """every outcome is Ok of that value, with the input used up"""
        for x in outs:
            if x.status != "ret":
                self.stuck(what, x, "decoding")
                continue
            self.npaths += 1
            k, v = ok_payload(x.result)
            if k != "ok":
                self.fail(what, x, "decoding a long form of the value returns an error: %s" % short(v), "dec-err")
                continue
            for y, w in split_on_forks(x.clone(), lambda y: want(E, y)) if callable(want) else [(x.clone(), want)]:
                self.same(E, what, y, v, w, "decoded value", "value")
            self.same(E, what, x, x.src, Seq((MARK,)), "unread input after decoding", "rest", seq=True)

    def body_reads(self, k, form, part=None):
        import rec, spec
        H = self.H
        what = "bodies::any/%s/%d" % (k, form)

        def go(E):
            E.ih = rec.hook(rec.belongs(k))
            for st, h, v0 in self.body_setup(E, k, None, part):
                for y, w in split_on_forks(st, lambda y: self.long_form(E, y, v0, lambda E, y, v: spec.body(E, y, v, k), form)):
                    y.src = Seq(w + (MARK,))
                    hp, rp = y.alloc(h), y.alloc(Obj("Src"))
                    self.read_back(E, what, H.call(E, y, "bodies::any::de", [Ptr(rp), Ptr(hp)]), v0)
        return self.guarded(what, go)

    def wire(self, E, name, o, v0, wire):
        def cmp(y):
            want = wire(E, y, v0)
            return seqs.eqseq(E, y, y.sink, Seq(want) if isinstance(want, tuple) else want)
        c = o.clone()
        c.undec = []
        try:
            res = split_on_forks(c, cmp)
        except (Unsup, Desync) as u:
            self.add(name, UND, "wire comparison: %s" % u)
            return
        if all(r is True for _, r in res):
            self.add(name, OK)
            return
        for y, r in res:
            if r is False:
                w = paths_feasible(y)
                if w is not None:
                    self.add(name, BAD, "encoding is %s" % short(o.sink), key=name + "/wire", wit=w)
                    return
        for F, pair in c.undec:
            e = witness.differ(F, pair)
            if e is not None:
                self.add(name, BAD, "encoding has %s where the format has %s" % (short(pair[1]), short(pair[2])),
                         key=name + "/wire", wit=witness.show(e))
                return
        self.add(name, UND, "encoding not decided: %s" % short(o.sink))


    # ------------------------------------------------------------ arbitrary input
    def arbitrary(self, name, rule, args=None, faults=True, start=None, root=None):
        """decoding of arbitrary bytes (and, with faults, a reader that may fail at any call).
        rule(o) -> None (fine) or (key, message) for an outcome that breaks the property.
        First every outcome is covered (loops widened, calls joined); where that leaves something open,
        single paths are searched for a definite violation."""
        H = self.H
        root = root or name + "::de"
        n0 = len(self.obs)
        opened = []
        E = None
        try:
            E = self.engine()
            if start:
                start(E)
            st = H.init(E, dict(input="any", join=True, rfault=faults, on_event=getattr(self, "on_event", None)))
            import loops
            src = loops.havoc_src(st)
            outs = H.dec(E, st, root, src) if args is None else args(H, E, st, src)
            for o in outs:
                self.npaths += 1
                if o.status == "unsup":
                    opened.append("not analysed: " + short(o.where, 500))
                    continue
                r = rule(o)
                if r is None:
                    self.add(name, OK)
                else:
                    opened.append("%s %s" % (r[1], short(o.where or "", 300)))
        except (Unsup, Fork, Stop, Panic, Desync, AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError, RecursionError) as e:
            if os.environ.get("VDEBUG"):
                raise
            opened.append("engine: %r" % e)
        if E is not None:
            self.steps += E.steps
            self.fns |= E.visited
        if not opened:
            if len(self.obs) == n0:
                self.add(name, UND, "no path analysed")
            return self
        # search for a definite violation
        bad = False
        for cut in (0, 1, 2):
            try:
                E = self.engine()
                E.search = True
                E.max_steps = 400000
                if start:
                    start(E)
                st = H.init(E, dict(input="any", unroll=cut, rfault=faults, on_event=getattr(self, "on_event", None)))
                src = loops.havoc_src(st)
                outs = H.dec(E, st, root, src) if args is None else args(H, E, st, src)
            except (Unsup, Fork, Stop, Panic, Desync, AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError,
                    RecursionError) as e:
                opened.append("search: %r" % e)
                continue
            tried = {}
            for o in outs:
                if o.status == "unsup" or o.flags.get("wide"):
                    continue
                r = rule(o)
                if r is None or tried.get(r[0], 0) > 5:
                    continue
                tried[r[0]] = tried.get(r[0], 0) + 1
                F = r[2] if len(r) > 2 else o.F
                e = witness.find(F)
                if e is not None:
                    self.add(name, BAD, r[1], key="%s/%s" % (name, r[0]), where=clean_where(o.where), wit=witness.show(e))
                    bad = True
            if bad:
                return self
        for w in opened[:3]:
            self.add(name, UND, w)
        return self

    def progresses(self, name, args=None, root=None):
        """every loop that runs while decoding arbitrary bytes (from a reader that may fail or end at any call) reads in
        each iteration, or is bounded by a constant or by what has been read"""
        import loops
        H = self.H
        root = root or name + "::de"
        E = self.engine()
        E.input_recursion = None
        n0 = len(self.obs)
        opened = []
        try:
            st = H.init(E, dict(input="any", join=True, rfault="again"))
            src = loops.havoc_src(st)
            for o in (H.dec(E, st, root, src) if args is None else args(H, E, st, src)):
                self.npaths += 1
                if o.status == "unsup":
                    opened.append("not analysed: " + short(o.where, 500))
                else:
                    self.add(name, OK)
        except (Unsup, Fork, Stop, Panic, Desync, AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError, RecursionError) as e:
            if os.environ.get("VDEBUG"):
                raise
            opened.append("engine: %r" % e)
        self.steps += E.steps
        self.fns |= E.visited
        done = {}
        rank = {"ok": 0, "open": 1, "bad": 2}

        def note(E):
            for fn, s, why, F in E.loopprog:
                if fn not in done or rank[s] > rank[done[fn][0]]:
                    done[fn] = (s, why, F)
        note(E)
        if opened or any(s == "open" for s, _, _ in done.values()):
            # single paths, for a definite violation
            for cut in (1, 2, 3):
                if any(s == "bad" for s, _, _ in done.values()):
                    break
                E = self.engine()
                E.search = True
                E.max_steps = 400000
                try:
                    st = H.init(E, dict(input="any", unroll=cut, rfault=False))
                    src = loops.havoc_src(st)
                    H.dec(E, st, root, src) if args is None else args(H, E, st, src)
                except (Unsup, Fork, Stop, Panic, Desync, AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError, RecursionError):
                    pass
                E.loopprog = [x for x in E.loopprog if x[1] == "bad"]
                note(E)
        for fn, (s, why, F) in sorted(done.items()):
            e = witness.find(F) if s == "bad" else None
            f = re.sub(r"'[a-z_0-9]+ ?", "", fn)
            if s == "ok":
                self.add(name + " loop", OK)
            elif e is not None:
                self.add(name, BAD, why + " (in %s)" % short(f, 200), key="%s/%s" % (name, "endless" if "for ever" in why else "unread"), where=fn, wit=witness.show(e))
            else:
                self.add(name, UND, why + " (in %s)" % short(f, 200))
        for w in opened[:3]:
            self.add(name, UND, w)
        if len(self.obs) == n0:
            self.add(name, UND, "no path analysed")
        return self

    def no_panic(self, name, **k):
        def rule(o):
            if o.status == "panic":
                return ("panic", "decoding panics: %s" % short(o.where, 200))
            if o.status == "desync":
                return ("desync", "decoding loses its place: %s" % short(o.where, 200))
        return self.arbitrary(name, rule, **k)

    def no_swallow(self, name, **k):
        def rule(o):
            if o.status != "ret":
                return None
            kind, v = ok_payload(o.result)
            if kind != "ok":
                return None
            if o.flags.get("rfault"):
                return ("fault-swallowed", "the reader failed and decoding still returns a value")
            if o.flags.get("eof"):
                return ("end-swallowed", "the input ended early and decoding still returns a value")
        return self.arbitrary(name, rule, **k)

    def recursion(self, name, root):
        """no decoder calls itself with nothing but the input left to end the recursion"""
        def go(E):
            import loops
            E.input_recursion = None
            st = self.H.init(E, dict(input="any", join=True, rfault=True))
            for o in self.H.dec(E, st, root, loops.havoc_src(st)):
                self.npaths += 1
            if E.input_recursion:
                self.add(name, BAD, "the decoder calls itself with nothing but the input to end the recursion: bytes alone exhaust the stack",
                         key=name, where=E.input_recursion)
            else:
                self.add(name, OK)
        return self.guarded(name, go)

    # ------------------------------------------------------------ tags
    def guarded(self, name, fn):
        """run one group of obligations; internal limits end as undecided"""
        n0 = len(self.obs)
        E = self.engine()
        E.deadline = self.t0 + 200
        self.attempt(E, name, fn)
        if len(self.obs) == n0:
            self.add(name, UND, "no path analysed")
        st = [o.status for o in self.obs[n0:]]
        if UND in st and BAD not in st:
            self.small(name, fn)
        return self

    def attempt(self, E, name, fn):
        try:
            fn(E)
        except (Unsup, Fork, Stop, Panic, Desync, AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError, RecursionError) as e:
            if os.environ.get("VDEBUG"):
                raise
            self.add(name, UND, "engine: %r" % e)
        self.steps += E.steps
        self.fns |= E.visited

    def small(self, name, fn):
        """something is open: search the values whose sequences are short for a definite violation, loops taken step by step"""
        keep = self.obs
        for k in (2, 3):
            E = self.engine()
            E.small = k
            E.max_steps = 600000
            E.deadline = time.time() + 30
            self.obs = []
            self.attempt(E, name, fn)
            bad = [o for o in self.obs if o.status == BAD]
            if bad:
                keep += bad
                break
        self.obs = keep

    def must(self, name, o, cond, msg, key):
        """cond (a Cnd or bool) holds on the path"""
        d = cond if isinstance(cond, bool) else o.F.decide(cond)
        if d is True:
            self.add(name, OK)
            return
        if cond is False or d is False:
            self.fail(name, o, msg, key)
            return
        y = o.clone()
        if not y.F.assume(cond, False):
            self.add(name, OK)
            return
        self.fail(name, y, msg, key)

    def returned(self, name, o, what):
        """('ok'|'err', value) of a finished path, or None when it ended otherwise"""
        if o.status != "ret":
            self.stuck(name, o, what)
            return None
        self.npaths += 1
        return ok_payload(o.result)

    def first_byte(self, name, allowed, read=None, run=None):
        """Ok only if the first byte is one of allowed, and then with the value read(value) == byte.
        run(H, E, st, src): the decoding (default: the root name::de)"""
        def go(E):
            import loops
            st = self.H.init(E, dict(input="any"))
            rest = loops.havoc_src(st)
            b = new_var(8, False, "tag")
            bv = mk(8, LV(b.vid))
            src = Seq((("E", (bv,)),) + rest.s)
            for o in self.H.dec(E, st, name + "::de", src) if run is None else run(self.H, E, st, src):
                r = self.returned(name, o, "decoding")
                if r is None:
                    continue
                if r[0] == "err":
                    self.add(name, OK)
                    continue
                lo, hi = o.F.vrange(b.vid)
                if not (lo >= min(allowed) and hi <= max(allowed) and hi - lo < len(allowed)):
                    y = o.clone()
                    fits = all(y.F.assume(Cnd("eq", laddc(LV(b.vid), -a)), False) for a in allowed)
                    if fits:
                        self.fail(name, y, "a tag byte other than %s is accepted" % (allowed,), "tag")
                        continue
                if read is not None:
                    want = read(E, r[1])
                    what = "tag byte read as another value"
                    if want is None:
                        self.add(name, UND, "value %s" % short(r[1]))
                    elif isinstance(want, Cnd):
                        for a in (0, 1):
                            y = o.clone()
                            if y.F.assume(want, bool(a)):
                                self.must(name, y, Cnd("eq", laddc(LV(b.vid), -a)), what, "tag-value")
                    else:
                        self.must(name, o, Cnd("eq", laddc(LV(b.vid), -want)), what, "tag-value")
                else:
                    self.add(name, OK)
        return self.guarded(name, go)

    def after_number(self, name, num, rule, run=None, prefix=()):
        """every input: first the reference decoding of the number in front, then the decoding under test on the same input.
        rule(E, o, ('ok', number, src) | ('err',), result)"""
        def go(E):
            import loops
            st = self.H.init(E, dict(input="any", unroll=3) if prefix else dict(input="any"))
            src = loops.havoc_src(st)
            for a in self.H.dec(E, st, num + "::de", src):
                whole = Seq(tuple(prefix) + src.s)
                if a.status != "ret":
                    self.add(name, UND, "reference number: %s %s" % (a.status, short(a.where or "", 300)))
                    continue
                k, v = ok_payload(a.result)
                ref = ("ok", v, a.src) if k == "ok" else ("err",)
                for o in self.H.dec(E, a.clone(), name + "::de", whole) if run is None else run(self.H, E, a.clone(), whole):
                    r = self.returned(name, o, "decoding")
                    if r is None:
                        continue
                    if r[0] == "err":
                        self.add(name, OK)
                    else:
                        rule(E, o, ref, r[1])
            if E.cut:
                self.add(name, UND, "a loop was left after three rounds")
        return self.guarded(name, go)

    def variant_index(self, name, n):
        def rule(E, o, ref, v):
            if ref[0] == "err":
                self.fail(name, o, "a variant index that is not a u32 is accepted", "index-form")
                return
            x = E.expand(o, v) if isinstance(v, Opq) else v
            l = lin_of(o.F, ref[1], 32, False)
            self.must(name, o, Cnd("eq", laddc(l, -x.v)), "an index other than %d is read as variant %d" % (x.v, x.v), "variant %d" % x.v)
        return self.after_number(name, "scalars::t_u32", rule)

    def body_index(self):
        import spec
        name = "bodies::any::de/Enum"

        def rule(E, o, ref, v):
            hty = self.H.argty("bodies::any::de", 1)
            if ref[0] == "err":
                self.fail(name, o, "an entry index that is not a u32 is accepted", "index-form")
                return
            l = lin_of(o.F, ref[1], 32, False)
            n = seqs.length(o.F, E.expand(o, E.expand(o, Opq(("h",), hty)).f[0]).d[0])
            self.must(name, o, Cnd("ge", laddc(lsub(n, l), -1)), "an index outside the header is accepted", "index-range")
            x = E.expand(o, v) if isinstance(v, Opq) else v
            if spec.kinds_of(E, self.H.argty("bodies::any::validate", 0))[x.v] == "Enum":
                self.must(name, o, Cnd("eq", lsub(lin_of(o.F, x.f[0], 32, False), l)), "another index is read", "index-value")
        return self.after_number(name, "scalars::t_u32", rule, run=self.body_input("Enum"))

    def text(self, name, nonempty=False, run=None, prefix=()):
        import models

        def rule(E, o, ref, v):
            if ref[0] == "err":
                self.fail(name, o, "a length that does not decode is accepted", "length-form")
                return
            n = lin_of(o.F, ref[1], 64, False)
            if nonempty:
                self.must(name, o, Cnd("ge", laddc(n, -1)), "empty text is accepted", "empty")
            try:
                parts = split_on_forks(o.clone(), lambda y: seqs.split(E, y, ref[2], n)[0])
            except Desync:
                self.add(name, OK)   # longer than the input: not this property
                return
            for y, content in parts:
                r = models.utf8_status(E, y, content)
                if r is None:
                    y.F.misc[("utf8", seqs.norm(y.F, content.s).s)] = r = False
                if y.F.eq0(seqs.length(y.F, content)) is True:
                    r = True
                if r:
                    self.add(name, OK)
                else:
                    self.fail(name, y, "text that is not valid UTF-8 is accepted", "utf8")
        return self.after_number(name, "scalars::t_u64", rule, run, prefix)

    # ------------------------------------------------------------ dynamic values
    def body_setup(self, E, k, mode=None, part=None):
        """[(state, header, body)]: every body of kind k with a header it matches at this level"""
        import rec
        H = self.H
        hty, bty = H.argty("bodies::any::validate", 1), H.argty("bodies::any::validate", 0)
        st = H.init(E, dict(mode or {}, bty=bty))
        return [(y, h, b) for y, (h, b) in split_on_forks(st, lambda y: rec.body_pre(E, y, hty, bty, k, part))]

    def body_input(self, k):
        """args= for arbitrary(): the dynamic decoder under an arbitrary header of kind k"""
        import rec, spec
        root = "bodies::any::de"

        def go(H, E, st, src):
            hty = H.argty(root, 1)
            st.F.variants[("h",)] = spec.kinds_of(E, hty).index(k)
            h = Opq(("h",), hty)

            def pre(y):
                x = E.expand(y, h)
                if k in ("Tuple", "Enum"):
                    n = seqs.length(y.F, E.expand(y, x.f[0]).d[0])
                    y.F.assume_ge(laddc(lscale(n, -1), 1 << 44))   # the header is in memory
                    y.flags["used"] = lscale(n, 4)                 # and may be matched by as many entries
            out = []
            for y, _ in split_on_forks(st, pre):
                y.src = src
                hp, rp = y.alloc(h), y.alloc(Obj("Src"))
                out += H.call(E, y, root, [Ptr(rp), Ptr(hp)])
            return out
        return go

    def body_roundtrip(self, k, part=None):
        import rec, spec
        name = "bodies::any"
        H = self.H

        def go(E):
            E.ih = rec.hook(rec.belongs(k))
            for st, h, v0 in self.body_setup(E, k, None, part):
                for o in self.encode(E, st, name + "::ser", v0, name + "/" + k):
                    self.wire(E, name + "/" + k, o, v0, lambda E, y, v: spec.body(E, y, v, k))
                    c = o.clone()
                    c.src = Seq(o.sink.s + (MARK,))
                    hp, rp = c.alloc(h), c.alloc(Obj("Src"))
                    for f in ("eof", "nreads"):
                        c.flags.pop(f, None)
                    for x in H.call(E, c, name + "::de", [Ptr(rp), Ptr(hp)]):
                        r = self.returned(name + "/" + k, x, "decoding")
                        if r is None:
                            continue
                        if r[0] != "ok":
                            self.fail(name + "/" + k, x, "decoding a body's own encoding under its header returns an error", "dec-err")
                            continue
                        self.same(E, name + "/" + k, x.clone(), r[1], v0, "decoded body", "value")
                        self.same(E, name + "/" + k, x, x.src, Seq((MARK,)), "unread input after decoding", "rest", seq=True)
        return self.guarded(name + "/" + k, go)

    def described(self, name, conv, part=None, hdr=None, ser=None, pre=None):
        """the encoding of any value of a type, decoded dynamically under the header the type writes"""
        import rec
        H = self.H

        def go(E):
            E.ih = rec.hook()
            st = H.init(E, {})
            bty = H.argty("bodies::any::validate", 0)
            st.sink = Seq()
            for a in H.call(E, st, hdr or name + "::hdr", [Ptr(st.alloc(Obj("Sink")))]):
                r = self.returned(name, a, "writing the header")
                if r is None:
                    continue
                if r[0] != "ok":
                    self.fail(name, a, "writing the header returns an error", "hdr-err")
                    continue
                for b in H.dec(E, a, "headers::any::de", Seq(a.sink.s + (MARK,))):
                    r = self.returned(name, b, "decoding the header")
                    if r is None:
                        continue
                    if r[0] != "ok":
                        self.fail(name, b, "the type's header does not decode", "hdr-dec")
                        continue
                    self.described2(E, name, b, r[1], conv, bty, part, ser or name + "::ser", pre)
        return self.guarded(name, go)

    def described2(self, E, name, b, hv, conv, bty, part, ser, pre):
        import rec
        H = self.H
        v0 = Opq(("v",), H.argty(ser, 0))
        for st, _ in split_on_forks(b, lambda y: pre(E, y, v0) if pre else rec.value_pre(E, y, v0, part)):
            for o in self.encode(E, st, ser, v0, name):
                c = o.clone()
                c.src = Seq(o.sink.s + (MARK,))
                for f in ("eof", "nreads"):
                    c.flags.pop(f, None)
                hp, rp = c.alloc(hv), c.alloc(Obj("Src"))
                for x in H.call(E, c, "bodies::any::de", [Ptr(rp), Ptr(hp)]):
                    r = self.returned(name, x, "dynamic decoding")
                    if r is None:
                        continue
                    if r[0] != "ok":
                        self.fail(name, x, "dynamic decoding under the type's own header returns an error", "dec-err")
                        continue
                    for y, want in split_on_forks(x.clone(), lambda y: conv(E, y, v0, bty)):
                        self.same(E, name, y, r[1], want, "dynamic value", "value")
                    self.same(E, name, x, x.src, Seq((MARK,)), "unread input after dynamic decoding", "rest", seq=True)

    def body_validate(self, k):
        """validate of an arbitrary body against an arbitrary header of kind k"""
        import rec, spec
        H = self.H
        root = "bodies::any::validate"
        name = "%s/%s" % (root, k)

        def go(E):
            E.ih = rec.hook()
            hty, bty = H.argty(root, 1), H.argty(root, 0)
            hk, bk = spec.kinds_of(E, hty), spec.kinds_of(E, bty)
            st = H.init(E, dict(bty=bty))
            st.F.variants[("h",)] = hk.index(k)
            h, b = Opq(("h",), hty), Opq(("v",), bty)
            belongs = rec.belongs(k)
            outs = []
            st.sink = Seq()
            for o in H.call(E, st, root, [Ptr(st.alloc(b)), Ptr(st.alloc(h))]):
                if o.status != "ret":
                    self.stuck(name, o, "validation")
                    continue
                if isinstance(o.result, Cnd):
                    for val in (True, False):
                        y = o.clone()
                        if y.F.assume(o.result, val):
                            y.result = int(val)
                            outs.append(y)
                else:
                    outs.append(o)
            for o in outs:
                # the kind of the body, where the code has not looked
                def kinds(y):
                    E.expand(y, b)
                    kb = bk[y.F.variants[("v",)]]
                    return (kb, rec.required(E, y, k, h, b) if kb == k else None)
                for y, (kb, req) in split_on_forks(o.clone(), kinds):
                    self.npaths += 1
                    self.judge_valid(E, "%s-%s" % (name, kb), y, k, kb, req, belongs)
        return self.guarded(name, go)

    def judge_valid(self, E, name, o, k, kb, req, belongs):
        import rec
        inv = o.flags.get("invalid")
        if kb != k:
            if o.result:
                self.fail(name, o, "a %s body is accepted under a %s header" % (kb, k), "accepted")
            else:
                self.add(name, OK)
            return
        cond, n, single = req
        if not o.result:
            if inv is not None and belongs(E, o, inv[1], inv[0]):
                self.add(name, OK)
            elif cond is not None:
                self.must(name, o, cond.inv(), "a matching body is rejected", "rejected")
            else:
                self.fail(name, o, "a matching body is rejected", "rejected")
            return
        if inv is not None:
            self.fail(name, o, "a body with a mismatching part is accepted", "part")
            return
        if cond is not None:
            self.must(name, o, cond, "a body with the wrong number of entries or index is accepted", "shape")
            if o.F.decide(cond) is not True:
                return
        tr = [t for t in rec.trace(o.F, o.sink) if belongs(E, o, t[1], t[0])]
        if n is None:
            if all(any(t[0] == s for t in tr) for s in single):
                self.add(name, OK)
            else:
                self.fail(name, o, "a body is accepted without looking at its part", "unchecked")
            return
        ivs = rec.intervals(o.F, tr)
        pos, moved = L(0), True
        todo = list(ivs)
        while moved and not o.F.ge0(lsub(pos, n)):
            moved = False
            for iv in todo:
                if o.F.ge0(lsub(pos, iv[0])) and o.F.ge0(lsub(iv[1], pos)):
                    pos, moved = iv[1], True
                    todo.remove(iv)
                    break
        if o.F.ge0(lsub(pos, n)):
            self.add(name, OK)
            return
        # is there an entry nobody looked at?
        y = o.clone()
        okf = y.F.assume_ge(laddc(lsub(n, pos), -1))
        for a, z in ivs:
            if not okf:
                break
            c = y.F.clone()
            if y.F.assume_ge(lsub(pos, z)):
                continue
            y.F = c
            okf = y.F.assume_ge(laddc(lsub(a, pos), -1))
        if okf:
            self.fail(name, y, "a body is accepted without looking at all of its entries", "unchecked")
        else:
            self.add(name, UND, "coverage of the entries not decided")

    # ------------------------------------------------------------ constant output
    def output(self, name, want, root=None):
        """a function that only writes: on every path the bytes written are exactly want"""
        def go(E):
            st = self.H.init(E, {})
            w = st.alloc(Obj("Sink"))
            st.sink = Seq()
            for o in self.H.call(E, st, root or name + "::ser", [Ptr(w)]):
                r = self.returned(name, o, "encoding")
                if r is None:
                    continue
                if r[0] == "err":
                    self.fail(name, o, "writing returns an error", "enc-err")
                    continue
                self.wire(E, name, o, None, lambda E, y, v: want)
        return self.guarded(name, go)

    # ------------------------------------------------------------ requests that are refused
    def error_name(self, E, o, v):
        """the variant of the crate's own error type, or None"""
        v = E.expand(o, v) if isinstance(v, Opq) else v
        tid = ok_ty(E, self.H, o)
        if isinstance(v, Agg) and tid is not None:
            return E.ty(tid).d["variants"][v.v]["name"]
        return None

    def refused(self, name, written=(), error=None, val=None, accept=None):
        """serializing any value of the type is refused: an error (of the given variant), and nothing written but
        `written`; accept(E, st, val) -> (condition under which success is right, the bytes written then)"""
        H = self.H
        root = name + "::ser"

        def go(E):
            st = H.init(E, {})
            v0 = Opq(("v",), H.argty(root, 0))
            for o in H.enc(E, st, root, v0):
                r = self.returned(name, o, "serialization")
                if r is None:
                    continue
                want = written(E, o, v0) if callable(written) else written
                if r[0] == "ok":
                    c = accept(E, o, v0) if accept else False
                    self.must(name, o, c, "an unsupported request succeeds: %s" % short(o.sink, 200), "accepted")
                elif error is not None and self.error_name(E, o, r[1]) != error:
                    self.fail(name, o, "the error is %s" % self.error_name(E, o, r[1]), "error-kind")
                else:
                    self.add(name, OK)
                self.wire(E, name, o, v0, lambda E, y, v: written(E, y, v) if callable(written) else written)
        return self.guarded(name, go)

    def unread(self, name):
        """decoding is refused and nothing is read"""
        H = self.H

        def go(E):
            import loops
            st = H.init(E, dict(input="any"))
            src = loops.havoc_src(st)
            for o in H.dec(E, st, name + "::de", src):
                r = self.returned(name, o, "decoding")
                if r is None:
                    continue
                if r[0] == "ok":
                    self.fail(name, o, "an unsupported request succeeds", "accepted")
                elif o.flags.get("nreads") or o.src != src:
                    self.fail(name, o, "an unsupported request reads from the input", "read")
                else:
                    self.add(name, OK)
        return self.guarded(name, go)

    def always(self, name, want):
        """every successful path returns want"""
        H = self.H

        def go(E):
            import loops
            st = H.init(E, dict(input="any"))
            for o in H.dec(E, st, name + "::de", loops.havoc_src(st)):
                r = self.returned(name, o, "decoding")
                if r is None:
                    continue
                if r[0] == "err":
                    self.add(name, OK)
                elif isinstance(r[1], int):
                    self.must(name, o, int(r[1]) == want, "answers %s" % r[1], "answer")
                else:
                    self.must(name, o, Cnd("eq", laddc(lin_of(o.F, r[1], 8, False), -want)), "answers %s" % short(r[1]), "answer")
        return self.guarded(name, go)

    # ------------------------------------------------------------ failing writer
    def only_writer(self, E, st, root):
        st.sink = Seq()
        return self.H.call(E, st, root, [Ptr(st.alloc(Obj("Sink")))])

    # ------------------------------------------------------------ traces
    HISTORY = [bytes(12), b"\1" + bytes(11), b"\1" * 12, b"\2AB" + b"\3" * 9, b"\3" * 12, b"", b"\1", b"\2", b"\x80", b"\xff" * 12, b"\2\xff\xfe" + bytes(9)]
    ROUNDS = 1100

    def traceless(self, mod, names):
        """no operation leaves anything in the codec it is done with, or in a static: then no later one can depend on it.
        Where something is left, sequences of operations are followed for one whose last outcome depends on the others"""
        for n in names:
            self.trace_side(mod, n, "de", lambda E, st: self.H.dec(E, st, mod + "::new_de", st.src), dict(input="any", join=True, rfault=True))
            self.trace_side(mod, n, "ser", lambda E, st: self.with_sink(E, st, mod + "::new_ser"), dict(wfault=True))
        self.trace_bodies()
        if any(o.status == BAD for o in self.obs) or not self.traced:
            return self
        try:
            self.histories(mod, names)
        except (Unsup, Fork, Stop, Panic, Desync, AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError, RecursionError) as e:
            self.add(mod, UND, "histories: engine: %r" % e)
        return self

    traced = False

    def with_sink(self, E, st, root):
        st.sink = Seq()
        return self.H.call(E, st, root, [Ptr(st.alloc(Obj("Sink")))])

    def codec(self, E, st, make):
        """a fresh codec: [(state, its address or None)]"""
        out = []
        for o in make(E, st):
            if o.status != "ret":
                raise Unsup("making a codec: %s" % short(o.where or "", 200))
            out.append((o, o.alloc(o.result)))
        return out

    def statics(self, E, st):
        out = {}
        for a, v in st.store.items():
            if isinstance(a, tuple) and a[0] == "g" and "ty" in E.srv.alloc(a[1]):
                out[a] = v
        return out

    def left(self, E, st, a, c0):
        """what differs from before: names of places"""
        out = []
        if a is not None and repr(st.store.get(a)) != repr(c0):
            out.append("the codec")
        for k, v in self.statics(E, st).items():
            if repr(v) != repr(E.global_value(st, k[1], k[2])):
                out.append("a static")
        return out

    def trace_side(self, mod, n, side, make, mode):
        import loops
        H = self.H
        root = "%s::%s::%s" % (mod, n, side)
        own = n == "a_header"
        E = self.engine()
        try:
            if own:
                import rec
                E.ih = rec.hook()
            st = H.init(E, mode)
            st.src = loops.havoc_src(st) if side == "de" else None
            if own:
                st.sink = Seq()
                cs = [(st, st.alloc(Obj("Src" if side == "de" else "Sink")))]
            else:
                cs = self.codec(E, st, make)
            for y, a in cs:
                c0 = y.store[a]
                if side == "de":
                    args = [Ptr(a)]
                else:
                    args = [Ptr(y.alloc(Opq(("v",), H.argty(root, 0)))), Ptr(a)]
                for o in H.call(E, y, root, args):
                    self.npaths += 1
                    if o.status == "unsup":
                        self.add(root, UND, "not analysed: " + short(o.where, 500))
                        continue
                    where = self.left(E, o, None if own else a, c0)
                    if where:
                        self.traced = True
                        self.add(root, UND, "%s is not as it was before" % " and ".join(sorted(set(where))))
                    else:
                        self.add(root, OK)
        except (Unsup, Fork, Stop, Panic, Desync, AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError, RecursionError) as e:
            if os.environ.get("VDEBUG"):
                raise
            self.add(root, UND, "engine: %r" % e)
        self.steps += E.steps
        self.fns |= E.visited

    def trace_bodies(self):
        import loops, rec, spec
        for k in spec.KINDS:
            for side in ("de", "ser", "validate"):
                root = "bodies::any::" + side
                E = self.engine()
                try:
                    E.ih = rec.hook()
                    st = self.H.init(E, dict(input="any", join=True, rfault=True) if side == "de" else dict(wfault=True))
                    st.src = loops.havoc_src(st) if side == "de" else None
                    st.sink = Seq()
                    if side == "de":
                        outs = self.body_input(k)(self.H, E, st, st.src)
                    else:
                        bty = self.H.argty(root, 0)
                        st.F.variants[("v",)] = spec.kinds_of(E, bty).index(k)
                        b = Ptr(st.alloc(Opq(("v",), bty)))
                        if side == "ser":
                            rest = Ptr(st.alloc(Obj("Sink")))
                        else:
                            st.F.variants[("h",)] = spec.kinds_of(E, self.H.argty(root, 1)).index(k)
                            rest = Ptr(st.alloc(Opq(("h",), self.H.argty(root, 1))))
                        outs = self.H.call(E, st, root, [b, rest])
                    for o in outs:
                        self.npaths += 1
                        if o.status == "unsup":
                            self.add(root + "/" + k, UND, "not analysed: " + short(o.where, 500))
                        elif self.left(E, o, None, None):
                            self.traced = True
                            self.add(root + "/" + k, UND, "a static is not as it was before")
                        else:
                            self.add(root + "/" + k, OK)
                except (Unsup, Fork, Stop, Panic, Desync, AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError, RecursionError) as e:
                    if os.environ.get("VDEBUG"):
                        raise
                    self.add(root + "/" + k, UND, "engine: %r" % e)
                self.steps += E.steps
                self.fns |= E.visited

    HEADERS = [b"\x05", b"\x0d", b"\x0f", b"\x10", b"\x12", b"\x19", b"\x01\x03", b"\x14\x03", b"\x14\x14\x03", b"\x15\x02\x03\x02", b"\x17\x03",
               b"\x18\x02\x03\x02", b"\x01", b"\x14", b"\x15\x02", b"\x17", b"\x18\x02", b"\x15"]

    def histories(self, mod, names):
        """long sequences of concrete operations"""
        H = self.H
        E = self.engine()
        E.max_steps = 12000000

        def plain(v):
            """a value made of constants only, in print"""
            if isinstance(v, Agg):
                fs = [plain(x) for x in v.f]
                return None if None in fs else "%d%r" % (v.v, fs)
            if isinstance(v, int):
                return str(v)
            if isinstance(v, Obj):
                fs = [plain(x) for x in v.d]
                return None if None in fs else "%s%r" % (v.k, fs)
            if isinstance(v, Seq):
                fs = [[plain(x) for x in sg[1]] if sg[0] == "E" else [None] for sg in v.s]
                return None if any(None in x for x in fs) else repr(sum(fs, []))
            return None

        def outcome(o, data):
            """what can be told apart"""
            if o.status != "ret":
                return (o.status,)
            k, v = ok_payload(o.result)
            d = plain(data)
            if k == "ok":
                return ("ok", plain(v), d)
            return ("err %d" % v.v if isinstance(v, Agg) else "err",)

        def root(n, side):
            return "bodies::any::" + side if isinstance(n, tuple) else "%s::%s::%s" % (mod, n, side)

        def called(n):
            return "bodies::any" if isinstance(n, tuple) else "%s::%s" % (mod, n)

        def guard(f, *a):
            try:
                return f(*a)
            except (Unsup, Fork, Stop, Panic, Desync):
                return None

        def once(st, n, data, a=None):
            return guard(decode, st, n, data, a)

        def put(st, n, v, fail, a=None):
            return guard(encode, st, n, v, fail, a)

        def decode(st, n, data, a):
            """decode: (state after, outcome); a new codec unless one is given"""
            st = st.clone()
            st.undec = []
            st.src = Seq((("E", tuple(data)),)) if data else Seq()
            if isinstance(n, tuple) or n == "a_header":
                a = st.alloc(Obj("Src"))
            elif a is None:
                (st, a), = self.codec(E, st, lambda E, y: H.dec(E, y, mod + "::new_de", y.src))
            outs = H.call(E, st, root(n, "de"), [Ptr(a)] + ([Ptr(st.alloc(n[1]))] if isinstance(n, tuple) else []))
            if len(outs) != 1:
                return None
            return outs[0], outcome(outs[0], outs[0].src), a

        def encode(st, n, v, fail, a):
            st = st.clone()
            st.undec = []
            st.sink = Seq()
            st.mode = dict(st.mode, wfault=fail)
            for f in ("wfail", "write_after_fail", "short_write"):
                st.flags.pop(f, None)
            if isinstance(n, tuple) or n == "a_header":
                a = st.alloc(Obj("Sink"))
            elif a is None:
                (st, a), = self.codec(E, st, lambda E, y: self.with_sink(E, y, mod + "::new_ser"))
            outs = [o for o in H.call(E, st, root(n, "ser"), [Ptr(st.alloc(v)), Ptr(a)]) if bool(o.flags.get("wfail")) == fail and not o.flags.get("short_write")]
            if not outs or not fail and len(outs) > 1:
                return None
            return outs[0], outcome(outs[0], outs[0].sink), a

        s0 = H.init(E, dict(input="any", rfault=False))
        steps, probes = [], []
        names = list(names)
        for data in self.HEADERS:
            r = once(s0, "a_header", data)
            if r is not None and r[0].status == "ret" and ok_payload(r[0].result)[0] == "ok":
                names.append(("body", ok_payload(r[0].result)[1]))
        for n in names:
            vals = {}
            for data in self.HISTORY + (self.HEADERS if n == "a_header" else []):
                r = once(s0, n, data)
                if r is None or r[0].status != "ret":
                    continue
                k, v = ok_payload(r[0].result)
                probes.append((n, "de", data, r[1]))
                steps.append((n, "de", data, k == "ok"))
                if k == "ok" and repr(v) not in vals:
                    vals[repr(v)] = v
            for v in list(vals.values())[:4]:
                for fail in (False, True):
                    r = put(s0, n, v, fail)
                    if r is not None and r[0].status == "ret":
                        if not fail:
                            probes.append((n, "ser", v, r[1]))
                        steps.append((n, "ser+fail" if fail else "ser", v, not fail))

        def do(st, n, side, x, a=None):
            return once(st, n, x, a) if side == "de" else put(st, n, x, side == "ser+fail", a)

        def compare(st, what):
            for n, side, x, want in probes:
                r = do(st, n, side, x)
                if r is not None and r[1] != want:
                    self.add(called(n), BAD, "%s of %s: %s at first, %s after %s" % (
                        "decoding" if side == "de" else "encoding", short(repr(x), 80), short(repr(want), 120), short(repr(r[1]), 120), what), key=called(n) + "/history")
                    return True
            return False
        t0 = time.time()
        for n, side, x, good in steps:
            if time.time() - t0 > 150:
                break
            st, a, first = s0, None, None
            for i in range(self.ROUNDS):
                r = do(st, n, side, x, a if good else None)
                if r is None:
                    break
                what = "%d times %s %s of %s%s" % (i, "a failing" if not good else "a", side, called(n), "" if side != "de" else " from " + short(repr(x), 60))
                if first is not None and r[1] != first:
                    self.add(called(n), BAD, "the same operation with the same bytes ends differently (%s, then %s) after %s" % (short(repr(first), 160), short(repr(r[1]), 160), what),
                             key=called(n) + "/history")
                    return
                was = repr(sorted(map(repr, self.statics(E, st).items()))), repr(st.store.get(a)) if good and a is not None else None
                first, st = r[1], r[0]
                if good:
                    a = r[2]
                now = repr(sorted(map(repr, self.statics(E, st).items()))), repr(st.store.get(a)) if good else None
                if i == 2 and compare(st, what):
                    return
                if i > 0 and was == now:
                    break
            if i > 2 and compare(st, what):
                return

    def write_faults(self, name, wire=None, val=None, root=None, setup=None):
        """serialization of any value into a writer that may fail at any call and may accept only part of a buffer"""
        H = self.H
        root = root or name + "::ser"

        def go(E):
            if setup is not None:
                todo = setup(E, dict(wfault=True))
            else:
                st = H.init(E, dict(wfault=True))
                todo = [(st, val(E, st) if val else Opq(("v",), H.argty(root, 0)))]
            for st, v0, o in [(st, v0, o) for st, v0 in todo for o in (H.enc(E, st, root, v0) if v0 is not None else self.only_writer(E, st, root))]:
                self.npaths += 1
                if o.status == "unsup":
                    self.add(name, UND, "not analysed: %s" % short(o.where, 900))
                    continue
                if o.flags.get("write_after_fail"):
                    self.fail(name, o, "the writer is called again after it reported an error", "after")
                    continue
                if o.status != "ret":
                    self.stuck(name, o, "encoding")
                    continue
                k, v = ok_payload(o.result)
                if o.flags.get("wfail"):
                    if k == "ok":
                        self.fail(name, o, "the writer failed and serialization returns success", "swallowed")
                    else:
                        self.add(name, OK)
                elif o.flags.get("short_write") and k == "ok":
                    if wire is None:
                        self.add(name, UND, "partial writes and no reference encoding")
                    else:
                        self.wire(E, name, o, v0, wire)
                else:
                    self.add(name, OK)
        return self.guarded(name, go)

    def bounded_alloc(self, name, **k):
        import models
        seen = []

        def on_event(st, e):
            if e[0] != "alloc":
                return
            _, n, el, line, fn = e
            E = self.H.E
            try:
                es = models.alloc_size(E, st, el) if el is not None else 16
            except (KeyError, TypeError):
                es = 16
            need = lscale(n, max(es, 1))
            over = laddc(need, -(1 << 20))
            self.nallocs = getattr(self, "nallocs", 0) + 1
            if st.F.ge0(lscale(over, -1)):
                return
            over = lsub(over, lscale(st.flags.get("used", L(0)), 32))
            if st.F.ge0(lscale(over, -1)):
                return
            c = st.F.clone()
            if not c.assume_ge(laddc(over, -1)):
                return
            st.flags["alloc"] = (fn, c)

        def rule(o):
            a = o.flags.get("alloc")
            if a:
                fn, F = a
                return ("alloc in %s" % re.sub(r"'[a-z_0-9]+ ?", "", fn), "reserves memory for a length or count read from the input before its data (in %s)" % fn, F)

        def start(E):
            pass
        self.on_event = on_event
        k.setdefault("args", None)
        return self.arbitrary(name, rule, **k)


def ok_ty(E, H, o):
    """type of the error in the result of the root that was called last"""
    t = E.ty(H.srv.body(H.roots[H.last]).locals[0])
    for v in t.d.get("variants", ()):
        if v["name"] == "Err":
            return v["fields"][0][1]
    return None


