"""Abstract interpreter over monomorphic MIR."""
import os, sys, time, itertools
from core import *
import core
import seqs

DEBUG = os.environ.get("VDEBUG")


class Frame:
    __slots__ = ("uid", "body", "inst", "base", "bb", "si", "dest", "target", "line", "loops", "depth")

    def clone(self):
        f = Frame.__new__(Frame)
        for k in Frame.__slots__:
            setattr(f, k, getattr(self, k))
        f.loops = dict(self.loops)
        return f


class State:
    __slots__ = ("F", "store", "frames", "nid", "sink", "src", "ev", "choices", "nforks", "log", "status", "result", "where",
                 "consumed", "mode", "flags", "arr", "undec")

    def __init__(self):
        self.F = Facts()
        self.store = {}
        self.frames = []
        self.nid = 1
        self.sink = Seq()
        self.src = Seq()
        self.ev = 0
        self.choices = {}
        self.nforks = 0
        self.log = ()
        self.status = None
        self.result = None
        self.where = None
        self.mode = {}
        self.flags = {}
        self.consumed = ()
        self.arr = False
        self.undec = None

    def clone(self):
        s = State.__new__(State)
        s.F = self.F.clone()
        s.store = dict(self.store)
        s.frames = [f.clone() for f in self.frames]
        s.nid = self.nid
        s.sink = self.sink
        s.src = self.src
        s.ev = self.ev
        s.choices = dict(self.choices)
        s.nforks = self.nforks
        s.log = self.log
        s.status = self.status
        s.result = self.result
        s.where = self.where
        s.consumed = self.consumed
        s.undec = self.undec
        s.mode = self.mode
        s.flags = dict(self.flags)
        s.arr = self.arr
        return s

    def alloc(self, v, n=1):
        i = self.nid
        self.nid += n
        self.store[i] = v
        return i

    def choice(self, n, tag):
        """nondeterministic choice, stable under re-execution of the current step"""
        key = (self.ev, tag)
        if key in self.choices:
            return self.choices[key]

        def mkalt(k):
            def f(st):
                st.choices[key] = k
                return True
            return f
        raise Fork([mkalt(k) for k in range(n)], tag)

    def event(self, *e):
        self.log = self.log + (e,)
        h = self.mode.get("on_event")
        if h:
            h(self, e)


class Call:
    __slots__ = ("args", "atys", "dty", "cpath", "cargs", "inst", "line")


class Redirect(Exception):
    """a model replaces the callee by another instance"""

    def __init__(self, inst, args):
        self.inst = inst
        self.args = args


class Engine:
    def __init__(self, srv):
        self.srv = srv
        self.tys = srv.tys
        import models, third
        self.models = models.Models(self)
        import loops
        loops.SIG = self.sig_drop
        self.max_steps = 3_000_000
        self.deadline = None
        self.small = None  # bound on the length of arbitrary sequences, in a search
        self.steps = 0
        self.cut = 0
        self.search = False
        self.visited = set()
        self.loopprog = []
        self.unroll = 600
        self.gcache = {}
        self.visited_insts = set()
        self.ih = None  # induction hypothesis hook: fn(E, st, inst, call) -> value or None
        self.used_models = {}
        self.srcty = {}  # symbolic sequence -> element type id
        self.maptys = {}
        self.on_event = None

    # ------------------------------------------------------------ types
    def ty(self, i):
        t = self.tys.get(i)
        if t is None:
            if i is None:
                raise Unsup("inspecting a value of no known type")
            t = self.srv.ty(i)
        return t

    def int_info(self, i):
        """(width, signed) for scalar types, None otherwise"""
        t = self.ty(i)
        k = t.k
        if k == "int":
            return t.d["bits"], t.d["s"]
        if k == "bool":
            return 8, False
        if k == "char":
            return 32, False
        if k == "float":
            return t.d["bits"], False
        if k == "pat":
            return self.int_info(t.d["base"])
        return None

    def is_adt(self, i, *paths):
        t = self.ty(i)
        return t.k == "adt" and t.d["path"] in paths

    # ------------------------------------------------------------ opaque values
    def expand(self, st, o):
        """one-level expansion of an opaque value according to its type"""
        if not isinstance(o, Opq):
            return o
        t = self.ty(o.ty)
        k = t.k
        if k in ("int", "bool", "char", "float"):
            w, sg = self.int_info(o.ty)
            if k == "bool":
                v = memo_var(("opq", o.t), w, False, show_term(o.t), 0, 1)
                c = Cnd("eq", laddc(LV(v.vid), -1))
                return c
            if k == "char":
                v = memo_var(("opq", o.t), w, False, show_term(o.t), 0, 0x10FFFF)
                lo, hi = st.F.vrange(v.vid)
                if lo < 0xE000 and hi > 0xD7FF:
                    raise Fork([lambda s: s.F.set_range(v.vid, 0, 0xD7FF), lambda s: s.F.set_range(v.vid, 0xE000, 0x10FFFF)], "char")
            else:
                v = memo_var(("opq", o.t), w, sg, show_term(o.t))
            return Sc(w, None, LV(v.vid))
        if k == "array":
            n = t.d["len"]
            if t.d["elem"] is not None and n <= 64:
                return Seq((("E", tuple(Opq(("el", o.t, L(i)), t.d["elem"]) for i in range(n))),)) if n else Seq()
            self.srcty[("opq", o.t)] = t.d["elem"]
            return Seq((("S", ("opq", o.t), L(0), L(n)),))
        if k == "tuple":
            return Agg([Opq(("f", o.t, 0, i), f) for i, f in enumerate(t.d["fields"])])
        if k == "ptr":
            key = ("opqref", o.t)
            tt = self.ty(t.d["to"])
            if key not in st.store:
                if tt.k in ("str", "slice"):
                    el = tt.d.get("elem") if tt.k == "slice" else None
                    st.store[key] = self.opq_seq(st, o.t, el, utf8=tt.k == "str")
                else:
                    st.store[key] = Opq(("deref", o.t), t.d["to"])
            if tt.k in ("str", "slice"):
                n = seqs.length(st.F, st.store[key])
                return Ptr(key, (), ("s", L(0), n))
            return Ptr(key)
        if k == "adt":
            p = t.d["path"]
            h = self.models.opaque_adt.get(p)
            if h:
                return h(self, st, o, t)
            if t.d["adt"] == "struct":
                return Agg([Opq(("f", o.t, 0, i), f[1]) for i, f in enumerate(t.d["variants"][0]["fields"])])
            if t.d["adt"] == "enum":
                vs = t.d["variants"]
                if o.t not in st.F.variants:
                    vk = self.possible_variants(st, o, t)
                    if len(vk) == 1:
                        st.F.variants[o.t] = vk[0]
                    else:
                        def alt(i):
                            def f(s):
                                s.F.variants[o.t] = i
                                return True
                            return f
                        raise Fork([alt(i) for i in vk], "variant %s" % show_term(o.t))
                v = st.F.variants[o.t]
                return Agg([Opq(("f", o.t, v, i), f[1]) for i, f in enumerate(vs[v]["fields"])], v)
        raise Unsup("expand opaque %s : %s" % (show_term(o.t), t.name))

    def possible_variants(self, st, o, t):
        allowed = st.mode.get("variants", {}).get(o.t)
        if allowed is not None:
            return list(allowed)
        out = []
        for i, v in enumerate(t.d["variants"]):
            if any(self.ty(f[1]).k == "never" for f in v["fields"]):
                continue
            out.append(i)
        return out

    def most(self, n):
        return n if self.small is None else min(n, self.small)

    def longest(self, *tys):
        """how long an object in memory can be: 2^47 bytes, the address space of a process"""
        for t in tys:
            lay = self.ty(t).d.get("layout") if t is not None else None
            if t is not None and isinstance(lay, dict) and lay.get("size") == 0:
                continue
            return self.most(1 << 47)
        return self.most((1 << 63) - 1)

    def opq_seq(self, st, term, elem_ty, utf8=False, maxlen=None):
        src = ("seq", term) if not utf8 else ("str", term)
        if elem_ty is not None:
            self.srcty[src] = elem_ty
        n = memo_var(("len", src), 64, False, "len(%s)" % show_term(term), 0, self.most(maxlen) if maxlen is not None else self.longest(elem_ty))
        return Seq((("S", src, L(0), LV(n.vid)),))

    def elem(self, src, i):
        """i-th element (lin) of symbolic sequence src"""
        if src[0] == "map":
            if src not in self.maptys:
                for k in self.maptys:
                    if same_shape(k, src):
                        self.maptys[src] = self.maptys[k]
                        break
            kt, vt = self.maptys[src]
            return Agg([Opq(("key", src, i), kt), Opq(("val", src, i), vt)])
        et = self.srcty.get(src)
        if et is None and src[0] in ("seq", "opq"):
            et = self.srcty_by_shape(src)
        if et is None:
            v = memo_var(("byte", src, i), 8, False, "%s[%s]" % (show_term(src), show_lin(i)))
            return Sc(8, None, LV(v.vid))
        info = self.int_info(et)
        if info and self.ty(et).k != "bool":
            v = memo_var(("byte", src, i), info[0], info[1], "%s[%s]" % (show_term(src), show_lin(i)))
            return Sc(info[0], None, LV(v.vid))
        return Opq(("elem", src, i), et)

    def base_term(self, t):
        return t

    def srcty_by_shape(self, src):
        """element type of a sequence whose term differs from a registered one only in numbers"""
        for k, v in self.srcty.items():
            if same_shape(k, src):
                return v
        return None

    # ------------------------------------------------------------ memory
    def field(self, st, v, i, a, p):
        """v.i where v lives at (a,p)"""
        if isinstance(v, Opq):
            v = self.expand(st, v)
        if isinstance(v, Agg):
            if i >= len(v.f):
                return UNDEF
            return v.f[i]
        if v is UNDEF:
            return UNDEF
        if isinstance(v, Obj):
            if v.k == "Box" and i == 0:
                c = v.d[0]
                m = ("s", L(0), seqs.length(st.F, c)) if isinstance(c, Seq) else (v.d[1] if len(v.d) > 1 else None)
                return Agg([Agg([Ptr(a, p + ("box",), m)]), UNIT])
            if v.k == "Box":
                return UNIT
            h = self.models.obj_field.get(v.k)
            if h:
                return h(self, st, v, i, a, p)
        raise Unsup("field %s of %r" % (i, v))

    def walk(self, st, a, p):
        v = self.getalloc(st, a)
        pre = ()
        for e in p:
            if isinstance(e, int):
                v = self.field(st, v, e, a, pre)
            elif isinstance(e, tuple):
                v = self.seq_get(st, v, e[1])
            elif e == "vec":
                if isinstance(v, Opq):
                    v = self.expand(st, v)
                if not isinstance(v, Obj) or v.k != "Vec":
                    raise Unsup("vec path in %r" % (v,))
                v = v.d[0]
            elif e == "box":
                if isinstance(v, Opq):
                    v = self.expand(st, v)
                if not isinstance(v, Obj) or v.k != "Box":
                    raise Unsup("box path in %r" % (v,))
                v = v.d[0]
            elif isinstance(e, str) and e.startswith("d"):
                if isinstance(v, Opq):
                    v = self.expand(st, v)
                v = v.d[int(e[1:])]
            else:
                raise Unsup("path %r" % (e,))
            pre += (e,)
        return v

    def getalloc(self, st, a):
        v = st.store.get(a)
        if v is None:
            if isinstance(a, tuple) and a[0] == "g":
                v = self.global_value(st, a[1], a[2])
                st.store[a] = v
            else:
                return UNDEF
        return v

    def seq_get(self, st, v, idx):
        if isinstance(v, Opq):
            v = self.expand(st, v)
        if isinstance(v, Obj) and v.k == "Vec":
            v = v.d[0]
        if not isinstance(v, Seq):
            raise Unsup("index into %r" % (v,))
        return seqs.get(self, st, v, idx)

    def read(self, st, a, p, m=None):
        v = self.walk(st, a, p)
        if m is not None and m[0] == "s" and isinstance(v, Seq):
            return seqs.slice_(self, st, v, m[1], m[2])
        if isinstance(v, Opq) and v.ty is not None and self.int_info(v.ty):
            v = self.expand(st, v)
        return v

    def upd(self, st, v, p, i, val, a):
        if i == len(p):
            return val
        e = p[i]
        if isinstance(v, Opq):
            v = self.expand(st, v)
        if isinstance(e, int):
            if v is UNDEF:
                v = Agg([UNDEF] * (e + 1))
            if isinstance(v, Agg):
                f = list(v.f)
                while len(f) <= e:
                    f.append(UNDEF)
                f[e] = self.upd(st, f[e], p, i + 1, val, a)
                return Agg(f, v.v)
            if isinstance(v, Obj):
                h = self.models.obj_setfield.get(v.k)
                if h:
                    return h(self, st, v, e, lambda old: self.upd(st, old, p, i + 1, val, a))
            raise Unsup("write field %s of %r" % (e, v))
        if isinstance(e, tuple):
            if isinstance(v, Obj) and v.k == "Vec":
                return VecV(self.upd(st, v.d[0], p, i, val, a))
            if not isinstance(v, Seq):
                raise Unsup("write index of %r" % (v,))
            old = seqs.get(self, st, v, e[1]) if i + 1 < len(p) else None
            new = self.upd(st, old, p, i + 1, val, a)
            return seqs.put(self, st, v, e[1], new)
        if e in ("vec", "box"):
            if not isinstance(v, Obj):
                raise Unsup("write %s of %r" % (e, v))
            return Obj(v.k, self.upd(st, v.d[0], p, i + 1, val, a), *v.d[1:])
        if isinstance(e, str) and e.startswith("d"):
            k = int(e[1:])
            d = list(v.d)
            d[k] = self.upd(st, d[k], p, i + 1, val, a)
            return Obj(v.k, *d)
        raise Unsup("write path %r" % (e,))

    def write(self, st, a, p, m, val):
        if m is not None and m[0] == "s":
            # overwrite a slice
            cur = self.walk(st, a, p)
            new = seqs.splice(self, st, cur, m[1], m[2], val)
            val = new
        if not p:
            st.store[a] = val
        else:
            st.store[a] = self.upd(st, self.getalloc(st, a), p, 0, val, a)

    def deref_read(self, st, ptr):
        if isinstance(ptr, Opq):
            ptr = self.expand(st, ptr)
        if not isinstance(ptr, Ptr):
            raise Unsup("deref of %r" % (ptr,))
        return self.read(st, ptr.a, ptr.p, ptr.m)

    def deref_write(self, st, ptr, val):
        self.write(st, ptr.a, ptr.p, ptr.m, val)

    # ------------------------------------------------------------ places & operands
    def place(self, st, f, pl):
        a = f.base + pl[0]
        p = ()
        m = None
        for e in pl[1:]:
            if e == "*":
                v = self.walk(st, a, p)
                if isinstance(v, Opq):
                    v = self.expand(st, v)
                if isinstance(v, Obj) and v.k == "Box":
                    p = p + ("box",)
                    c = v.d[0]
                    m = ("s", L(0), seqs.length(st.F, c)) if isinstance(c, Seq) else None
                    continue
                v = unwrap_ptr(v)
                if not isinstance(v, Ptr):
                    raise Unsup("deref of %r (place %s)" % (v, pl))
                a, p, m = v.a, v.p, v.m
            else:
                k = e[0]
                if k == "f":
                    p = p + (e[1],)
                    m = None if m is None or m[0] == "s" else m
                elif k == "d" or k == "oc":
                    pass
                elif k == "i":
                    x = st.store[f.base + e[1]]
                    i = lin_of(st.F, x, 64, False)
                    if m is not None and m[0] == "s":
                        i = ladd(i, m[1])
                        m = None
                    p = p + (("e", st.F.lnorm(i)),)
                elif k == "ci":
                    n = self.place_len(st, a, p, m)
                    i = lsub(n, L(e[1])) if e[3] else L(e[1])
                    if m is not None and m[0] == "s":
                        i = ladd(i, m[1])
                        m = None
                    p = p + (("e", st.F.lnorm(i)),)
                elif k == "ss":
                    n = self.place_len(st, a, p, m)
                    off = m[1] if m is not None and m[0] == "s" else L(0)
                    ln = lsub(lsub(n, L(e[1])), L(e[2])) if e[3] else L(e[2] - e[1])
                    m = ("s", laddc(off, e[1]), ln)
                else:
                    raise Unsup("proj %r" % (e,))
        return a, p, m

    def place_len(self, st, a, p, m):
        if m is not None and m[0] == "s":
            return m[2]
        v = self.walk(st, a, p)
        if isinstance(v, Opq):
            v = self.expand(st, v)
        return seqs.length(st.F, v)

    def operand(self, st, f, o):
        k = o[0]
        if k == "c" or k == "m":
            pl = o[1]
            if len(pl) == 1:
                v = st.store.get(f.base + pl[0], UNDEF)
                if isinstance(v, Opq) and v.ty is not None and self.int_info(v.ty):
                    v = self.expand(st, v)
            else:
                a, p, m = self.place(st, f, pl)
                v = self.read(st, a, p, m)
            if isinstance(v, Cnd):
                d = st.F.decide(v)
                if d is not None:
                    return int(d)
            return v
        if k == "k":
            return self.const(st, o[1])
        if k == "rc":
            return int(o[1])
        raise Unsup("operand %r" % (o,))

    def const(self, st, c):
        if "z" in c:
            t = self.ty(c["ty"])
            return self.zst(t)
        if "a" in c:
            return self.decode(c["a"]["b"], dict((o, a) for o, a in c["a"]["p"]), 0, c["ty"])
        raise Unsup("const %r" % (c,))

    def zst(self, t):
        if t.k == "fndef" or t.k == "closure":
            return UNIT
        if t.k == "array":
            return Seq()
        if t.k == "adt" and t.d["adt"] == "struct":
            return Agg([self.zst(self.ty(f[1])) for f in t.d["variants"][0]["fields"]])
        if t.k == "adt" and t.d["adt"] == "enum":
            lay = t.d["layout"]
            v = lay["variants"]
            i = v["single"] if isinstance(v, dict) and "single" in v else 0
            return Agg([self.zst(self.ty(f[1])) for f in t.d["variants"][i]["fields"]], i)
        if t.k == "tuple":
            return Agg([self.zst(self.ty(f)) for f in t.d["fields"]])
        return UNIT

    def decode(self, b, prov, off, tyid):
        """typed value from constant memory"""
        t = self.ty(tyid)
        k = t.k
        info = self.int_info(tyid)
        if info:
            n = info[0] // 8
            bs = b[off:off + n]
            if any(x is None for x in bs):
                return UNDEF
            if off in prov:
                return UNDEF
            return int.from_bytes(bytes(bs), "little")
        if k == "ptr":
            tt = self.ty(t.d["to"])
            fat = tt.k in ("str", "slice", "dyn") or self.is_unsized_tail(tt)
            if off not in prov:
                bs = b[off:off + 8]
                addr = int.from_bytes(bytes(bs), "little") if None not in bs else 0
                if fat and tt.k in ("str", "slice"):
                    n = int.from_bytes(bytes(b[off + 8:off + 16]), "little")
                    return Ptr(("dangling", addr), (), ("s", L(0), L(n)))
                return Ptr(("dangling", addr))
            base = prov[off]
            inner = int.from_bytes(bytes(b[off:off + 8]), "little")
            if fat and tt.k in ("str", "slice"):
                n = int.from_bytes(bytes(b[off + 8:off + 16]), "little")
                et = tt.d.get("elem") if tt.k == "slice" else None
                return Ptr(("g", base, ("seq", et, inner, n)), (), ("s", L(0), L(n)))
            if fat:
                vt = self.srv.alloc(prov[off + 8]) if off + 8 in prov else None
                return Ptr(("g", base, ("ty", vt["vt"], inner)) if vt else ("g", base, ("ty", None, inner)), (), ("v", vt["vt"] if vt else None))
            return Ptr(("g", base, ("ty", t.d["to"], inner)))
        if k == "fnptr":
            if off in prov:
                a = self.srv.alloc(prov[off])
                return FnV(a["fn"])
            return UNDEF
        if k == "array":
            et, n = t.d["elem"], t.d["len"]
            es = self.ty(et).d["layout"]["size"]
            if n == 0:
                return Seq()
            vals = [self.decode(b, prov, off + i * es, et) for i in range(n)]
            if n > 32 and all(v == vals[0] for v in vals):
                return Seq((("R", vals[0], L(n)),))
            return Seq((("E", tuple(vals)),))
        if k == "tuple":
            offs = t.d["layout"]["fields"]
            return Agg([self.decode(b, prov, off + (offs[i] if isinstance(offs, list) else 0), f) for i, f in enumerate(t.d["fields"])])
        if k == "closure":
            offs = t.d["layout"]["fields"]
            return Agg([self.decode(b, prov, off + offs[i], f) for i, f in enumerate(t.d["fields"])])
        if k == "adt":
            h = self.models.const_adt.get(t.d["path"])
            if h:
                return h(self, b, prov, off, t)
            lay = t.d["layout"]
            if t.d["adt"] == "struct":
                offs = lay["fields"]
                if offs == "prim" or not isinstance(offs, list):
                    offs = [0] * len(t.d["variants"][0]["fields"])
                return Agg([self.decode(b, prov, off + offs[i], f[1]) for i, f in enumerate(t.d["variants"][0]["fields"])])
            if t.d["adt"] == "enum":
                vs = lay["variants"]
                if "single" in vs:
                    i = vs["single"]
                    offs = lay["fields"] if isinstance(lay["fields"], list) else []
                    return Agg([self.decode(b, prov, off + offs[j], f[1]) for j, f in enumerate(t.d["variants"][i]["fields"])], i)
                tagoff = off + lay["fields"][vs["tag_field"]]
                n = vs["tag"]["p"]["bits"] // 8
                enc = vs["enc"]
                if enc == "direct":
                    tag = int.from_bytes(bytes(x or 0 for x in b[tagoff:tagoff + n]), "little")
                    i = [j for j, v in enumerate(t.d["variants"]) if int(v["discr"]) & mask(n * 8) == tag & mask(n * 8)][0]
                else:
                    i = enc["untagged"]
                    if not (vs["tag"]["p"]["k"] == "ptr" and tagoff in prov):
                        tag = int.from_bytes(bytes(x or 0 for x in b[tagoff:tagoff + n]), "little")
                        rel = (tag - int(enc["start"])) & mask(n * 8)
                        if rel <= enc["hi"] - enc["lo"]:
                            i = enc["lo"] + rel
                offs = vs["variants"][i]
                return Agg([self.decode(b, prov, off + offs[j], f[1]) for j, f in enumerate(t.d["variants"][i]["fields"])], i)
            if t.d["adt"] == "union":
                # represent by the largest field
                fs = t.d["variants"][0]["fields"]
                vals = []
                for f in fs:
                    try:
                        vals.append(self.decode(b, prov, off, f[1]))
                    except Exception:
                        vals.append(UNDEF)
                return Agg(vals)
        if k == "fndef" or (k == "adt" and t.d["layout"]["size"] == 0):
            return UNIT
        if k == "pat":
            return self.decode(b, prov, off, t.d["base"])
        raise Unsup("decode const %s" % t.name)

    def is_unsized_tail(self, t):
        return t.d.get("layout") and t.d["layout"].get("unsized")

    def global_value(self, st, aid, how):
        a = self.srv.alloc(aid)
        if how[0] == "seq":
            _, et, inner, n = how
            mem = a["mem"]
            if et is None or (self.int_info(et) == (8, False)):
                bs = mem["b"][inner:inner + n]
                return elems(*bs)
            es = self.ty(et).d["layout"]["size"]
            prov = dict((o, x) for o, x in mem["p"])
            return elems(*[self.decode(mem["b"], prov, inner + i * es, et) for i in range(n)])
        _, tyid, inner = how
        if "mem" in a:
            prov = dict((o, x) for o, x in a["mem"]["p"])
            return self.decode(a["mem"]["b"], prov, inner, tyid)
        if "fn" in a:
            return FnV(a["fn"])
        raise Unsup("global %r" % (a,))

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, f, r):
        k = r[0]
        F = st.F
        if k == "use":
            return self.operand(st, f, r[1])
        if k == "ref":
            pl = r[1]
            a, p, m = self.place(st, f, pl)
            t = self.ty(r[2])
            if t.k in ("slice", "str") and m is None:
                m = ("s", L(0), self.place_len(st, a, p, None))
            return Ptr(a, p, m)
        if k == "agg":
            ops = [self.operand(st, f, o) for o in r[3]]
            if r[1] == "array":
                return elems(*ops)
            if r[1] == "rawptr":
                base, meta = ops
                if isinstance(base, Ptr):
                    t = self.ty(r[4])
                    tt = self.ty(t.d["to"])
                    if tt.k in ("slice", "str"):
                        n = lin_of(F, meta, 64, False)
                        return self.ptr_to_slice(st, base, n)
                    return base
                raise Unsup("rawptr agg %r" % (ops,))
            if r[1] == "adt" and len(r) > 5 and r[5] is not None:
                # union initialisation
                return Agg([UNDEF] * r[5] + ops)
            if r[1] == "adt" and len(ops) == 2 and ops[1] == 0 and self.ty(r[4]).d.get("path") == "alloc::vec::Vec":
                return VecV(Seq())  # inlined Vec::new()
            return Agg(ops, r[2] if r[1] == "adt" else 0)
        if k == "bin":
            return self.binary(st, r[1], self.operand(st, f, r[2]), self.operand(st, f, r[3]), r[4], r[5])
        if k == "cbin":
            a, b = self.operand(st, f, r[2]), self.operand(st, f, r[3])
            w, s = self.int_info(r[4])
            if isinstance(a, Cnd) or isinstance(b, Cnd):
                raise_on_cond(F, a if isinstance(a, Cnd) else b)
            if r[1] in ("Shl", "Shr"):
                wb, _ = self.int_info(r[5])
                ov = compare(F, "Ge", b, w, wb, False)
                return Agg([binop(F, r[1], a, b, w, s, wb), ov if isinstance(ov, Cnd) else int(ov)])
            return Agg([binop(F, r[1], a, b, w, s), overflow(F, r[1], a, b, w, s)])
        if k == "un":
            return self.unary(st, r[1], self.operand(st, f, r[2]), r[3])
        if k == "cast":
            return self.cast(st, r[1], self.operand(st, f, r[2]), r[3], r[4])
        if k == "disc":
            a, p, m = self.place(st, f, r[1])
            v = self.walk(st, a, p)
            return self.discriminant(st, v, r[2], r[3])
        if k == "len":
            a, p, m = self.place(st, f, r[1])
            return mk(64, self.place_len(st, a, p, m))
        if k == "rep":
            v = self.operand(st, f, r[1])
            n = r[2]
            if n <= 16:
                return elems(*([v] * n))
            return Seq((("R", v, L(n)),))
        if k == "tls" and len(r) > 1:
            aid = ("tls", r[1])
            self.srv.allocs[aid] = {"mem": r[3], "ty": r[2]}
            return Ptr(("g", aid, ("ty", r[2], 0)))
        raise Unsup("rvalue %s" % k)

    WRAPPERS = {"core::cell::UnsafeCell": 0, "core::mem::MaybeUninit": 1, "core::mem::maybe_uninit::MaybeUninit": 1,
                "core::mem::ManuallyDrop": 0, "core::mem::manually_drop::ManuallyDrop": 0, "core::mem::MaybeDangling": 0, "core::mem::maybe_dangling::MaybeDangling": 0}

    def inner(self, t1, t2):
        """the path from a wrapper to what it is a transparent wrapper of; None when it isn't one"""
        path = ()
        for _ in range(6):
            if t1 == t2:
                return path
            ty = self.ty(t1)
            if ty.k != "adt" or ty.d["path"] not in self.WRAPPERS:
                return None
            i = self.WRAPPERS[ty.d["path"]]
            path += (i,)
            t1 = ty.d["variants"][0]["fields"][i][1]
        return None

    def discriminant(self, st, v, tyid, dty):
        if isinstance(v, Opq):
            v = self.expand(st, v)
        t = self.ty(tyid)
        if isinstance(v, (Cnd,)):
            raise_on_cond(st.F, v)
        if isinstance(v, Agg):
            if t.k == "adt" and t.d["adt"] == "enum":
                d = int(t.d["variants"][v.v]["discr"])
                info = self.int_info(dty)
                return d & mask(info[0])
            return 0
        if isinstance(v, Obj):
            h = self.models.obj_disc.get(v.k)
            if h:
                return h(self, st, v)
        if v is UNDEF and t.k == "adt" and isinstance((t.d.get("layout") or {}).get("variants"), dict) and "single" in t.d["layout"]["variants"]:
            d = int(t.d["variants"][t.d["layout"]["variants"]["single"]]["discr"])
            return d & mask(self.int_info(dty)[0])
        raise Unsup("discriminant of %r (%s)" % (v, t.name))

    def ptr_to_slice(self, st, p, n):
        """thin element pointer + length -> slice pointer"""
        if p.m is not None and p.m[0] == "s":
            return Ptr(p.a, p.p, ("s", p.m[1], n))
        if p.p and isinstance(p.p[-1], tuple):
            return Ptr(p.a, p.p[:-1], ("s", p.p[-1][1], n))
        return Ptr(p.a, p.p, ("s", L(0), n))

    def binary(self, st, op, a, b, ta, tb):
        F = st.F
        t = self.ty(ta)
        if t.k == "ptr" or t.k == "fnptr":
            if op in ("Eq", "Ne") and isinstance(a, Ptr) and isinstance(b, Ptr):
                if (a.a, a.p) == (b.a, b.p):
                    return int(op == "Eq")
                return int(op == "Ne") if a.a != b.a else int(op == "Ne")
            if op == "Offset":
                return self.ptr_offset(st, a, lin_of(F, b, 64, self.int_info(tb)[1]))
            raise Unsup("pointer %s %r %r" % (op, a, b))
        if t.k == "float":
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                key = ("fcmp", op, a if isinstance(a, int) else a.key(), b if isinstance(b, int) else b.key())
                return Cnd("unk", key)
            return self.opaque_scalar(("farith", op, a if isinstance(a, int) else a.key(), b if isinstance(b, int) else b.key()), t.d["bits"])
        info = self.int_info(ta)
        if not info:
            if op in ("Eq", "Ne") and isinstance(a, Agg) and isinstance(b, Agg) and not a.f and not b.f:
                return int(op == "Eq")
            raise Unsup("binop on %s" % t.name)
        if op == "Cmp":
            if isinstance(a, Cnd) or isinstance(b, Cnd):
                raise_on_cond(F, a if isinstance(a, Cnd) else b)
            for o, vi in (("Lt", 0), ("Eq", 1)):
                c = compare(F, o, a, b, *info)
                if isinstance(c, Cnd):
                    raise_on_cond(F, c)
                if c:
                    return Agg((), vi)
            return Agg((), 2)
        w, s = info
        if (isinstance(a, Cnd) or isinstance(b, Cnd)) and op in ("Eq", "Ne"):
            if isinstance(b, int):
                a, b = b, a
            if isinstance(a, int) and isinstance(b, Cnd):
                same = (a == 1) == (op == "Eq")
                return b if same else b.inv()
        wb = self.int_info(tb)[0]
        return binop(F, op, a, b, w, s, wb)

    def opaque_scalar(self, key, w, signed=False, name=None):
        v = memo_var(("os", key), w, signed, name or ("o%d" % len(MEMO)))
        return Sc(w, None, LV(v.vid))

    def ptr_offset(self, st, p, n):
        if not isinstance(p, Ptr):
            raise Unsup("offset of %r" % (p,))
        if p.m is not None and p.m[0] == "s":
            return Ptr(p.a, p.p, ("s", ladd(p.m[1], n), p.m[2]))
        if p.p and isinstance(p.p[-1], tuple):
            return Ptr(p.a, p.p[:-1] + (("e", ladd(p.p[-1][1], n)),), None)
        if st.F.eq0(n) is True:
            return p
        return Ptr(p.a, p.p + (("e", n),), None)

    def unary(self, st, op, v, tyid):
        F = st.F
        if op == "PtrMetadata":
            if isinstance(v, Ptr) and v.m is not None and v.m[0] == "s":
                return mk(64, v.m[2])
            if isinstance(v, Ptr) and v.m is None:
                return UNIT
            return v.m
        t = self.ty(tyid)
        if t.k == "bool":
            if isinstance(v, Cnd):
                return v.inv()
            if isinstance(v, int):
                return 1 - v
            return to_cnd(F, v).inv()
        w, s = self.int_info(tyid)
        if op == "Not":
            if isinstance(v, int):
                return ~v & mask(w)
            return from_bits(F, tuple(anot(a) if a >= 2 else 1 - a for a in bits_of(F, v, w)))
        if op == "Neg":
            if t.k == "float":
                b = bits_of(F, v, w)
                top = b[-1]
                return from_bits(F, b[:-1] + ((anot(top) if top >= 2 else 1 - top),))
            return binop(F, "Sub", 0, v, w, s)
        raise Unsup("unary " + op)

    def cast(self, st, kind, v, t1, t2):
        F = st.F
        if kind in ("IntToInt",):
            if isinstance(v, Cnd):
                raise_on_cond(F, v)
            a = self.int_info(t1)
            b = self.int_info(t2)
            if a is None:
                if self.ty(t1).k == "adt":  # fieldless enum
                    d = self.discriminant(st, v, t1, t2)
                    return d & mask(b[0])
                raise Unsup("cast from " + self.ty(t1).name)
            return cast_int(F, v, a[0], a[1], b[0])
        if kind.startswith("PointerCoercion"):
            if "Unsize" in kind:
                return self.unsize(st, v, t1, t2)
            if "ReifyFnPointer" in kind or "ClosureFnPointer" in kind:
                t = self.ty(t1)
                return FnV(t.d["inst"]) if t.k == "fndef" else v
            return v
        if kind in ("PtrToPtr", "FnPtrToPtr"):
            t = self.ty(t2)
            tt = self.ty(t.d["to"]) if t.k == "ptr" else None
            if isinstance(v, Ptr) and v.m is not None and tt is not None and tt.k not in ("slice", "str", "dyn") \
                    and not self.is_unsized_tail(tt):
                if v.m[0] == "s" and tt.k != "array":
                    return Ptr(v.a, v.p + (("e", v.m[1]),), None)
                return Ptr(v.a, v.p, None)
            if isinstance(v, Ptr) and v.m is None and tt is not None:
                ts = self.ty(t1)
                sub = self.inner(ts.d["to"], t.d["to"]) if "to" in ts.d and ts.d["to"] != t.d["to"] else None
                if sub:
                    return Ptr(v.a, v.p + sub, None)
            return v
        if kind == "BoxDerefTransmute":
            lf = unwrap_ptr(v)
            if isinstance(lf, Ptr):
                return lf
        if kind in ("Transmute", "Subtype"):
            return self.transmute(st, v, t1, t2)
        if kind in ("FloatToInt", "IntToFloat", "FloatToFloat"):
            key = ("cast", kind, v if isinstance(v, int) else v.key(), t2)
            w, s = self.int_info(t2)
            return self.opaque_scalar(key, w, s)
        raise Unsup("cast %s %s -> %s" % (kind, self.ty(t1).name, self.ty(t2).name))

    def unsize(self, st, v, t1, t2):
        a, b = self.ty(t1), self.ty(t2)
        if a.k == "ptr" and b.k == "ptr":
            ta, tb = self.ty(a.d["to"]), self.ty(b.d["to"])
            if tb.k == "slice" and ta.k == "array":
                return Ptr(v.a, v.p, ("s", L(0), L(ta.d["len"])))
            if tb.k == "dyn":
                return Ptr(v.a, v.p, ("v", a.d["to"])) if v.m is None else v
            return v
        if isinstance(v, Obj) and v.k == "Box":
            # Box<T> -> Box<dyn Trait> / Box<[T]>
            try:
                ta = a.d["args"][0]
            except Exception:
                ta = None
            return Obj("Box", v.d[0], ("v", ta))
        return v

    def transmute(self, st, v, t1, t2):
        if t1 == t2:
            return v
        a, b = self.ty(t1), self.ty(t2)
        if isinstance(v, Cnd):
            raise_on_cond(st.F, v)
        i2 = self.int_info(t2)
        i1 = self.int_info(t1)
        if i1 and i2:
            return v
        # single pointer leaf
        lf = single_leaf(v)
        if isinstance(lf, (Ptr, FnV)) and a.k == b.k == "ptr":
            return self.cast(st, "PtrToPtr", lf, t1, t2)
        if isinstance(lf, Ptr) and b.k == "ptr":
            return lf
        if isinstance(lf, Ptr):
            w = self.wrap_leaf(t2, lf)
            if w is not None:
                return w
            if i2 and i2[0] == 64 and lf.m is None:
                x = self.opaque_scalar(("address", repr(lf)), 64, False)   # of an object: not null
                st.F.assume_ge(laddc(lin_of(st.F, x, 64, False), -1))
                return x
        bits = self.to_bits(st, v, t1)
        r, rest = self.from_bits_ty(st, bits, t2)
        return r

    def wrap_leaf(self, tyid, leaf):
        t = self.ty(tyid)
        if t.k in ("ptr", "pat", "fnptr"):
            return leaf
        if t.k == "adt" and t.d["adt"] == "struct":
            fs = t.d["variants"][0]["fields"]
            out, hit = [], False
            for f in fs:
                ft = self.ty(f[1])
                if not hit and ft.d["layout"] and ft.d["layout"]["size"] > 0:
                    w = self.wrap_leaf(f[1], leaf)
                    if w is None:
                        return None
                    out.append(w)
                    hit = True
                else:
                    out.append(self.zst(ft))
            return Agg(out) if hit else None
        if t.k == "adt" and t.d["adt"] == "enum":
            # Option<NonNull>-like
            for i, vr in enumerate(t.d["variants"]):
                if len(vr["fields"]) == 1:
                    w = self.wrap_leaf(vr["fields"][0][1], leaf)
                    if w is not None:
                        return Agg([w], i)
        return None

    def to_bits(self, st, v, tyid):
        t = self.ty(tyid)
        if isinstance(v, Opq):
            v = self.expand(st, v)
        if isinstance(v, Cnd):
            raise_on_cond(st.F, v)
        info = self.int_info(tyid)
        if info:
            if v is UNDEF:
                raise Unsup("undef bits")
            return list(bits_of(st.F, v, info[0]))
        if t.k == "array":
            out = []
            n = t.d["len"]
            for i in range(n):
                out += self.to_bits(st, seqs.get(self, st, v, L(i)), t.d["elem"])
            return out
        if t.k in ("tuple", "adt", "closure"):
            size = t.d["layout"]["size"] * 8
            if size == 0:
                return []
            if isinstance(v, Agg):
                if t.k == "adt" and t.d["adt"] == "union":
                    fs = t.d["variants"][0]["fields"]
                    for (i, f) in enumerate(fs):
                        if i < len(v.f) and v.f[i] is not UNDEF:
                            b = self.to_bits(st, v.f[i], f[1])
                            return b + [0] * (size - len(b))
                    raise Unsup("undef union")
                if t.k == "adt" and t.d["adt"] == "struct" or t.k == "tuple":
                    fs = [f[1] for f in t.d["variants"][0]["fields"]] if t.k == "adt" else t.d["fields"]
                    offs = t.d["layout"]["fields"]
                    out = [0] * size
                    if not isinstance(offs, list):
                        offs = [0] * len(fs)
                    for i, f in enumerate(fs):
                        b = self.to_bits(st, v.f[i], f)
                        out[offs[i] * 8:offs[i] * 8 + len(b)] = b
                    return out
                if t.k == "adt" and t.d["adt"] == "enum":
                    lay = t.d["layout"]["variants"]
                    if isinstance(lay, dict) and lay.get("enc") == "direct" and not v.f:
                        d = int(t.d["variants"][v.v]["discr"])
                        return [(d >> i) & 1 for i in range(size)]
                    if isinstance(lay, dict) and "single" in lay:
                        return [0] * size
        raise Unsup("bits of %r : %s" % (v, t.name))

    def from_bits_ty(self, st, bits, tyid):
        t = self.ty(tyid)
        info = self.int_info(tyid)
        if info:
            v = from_bits(st.F, bits[:info[0]])
            if t.k == "bool" and not isinstance(v, int):
                v = Cnd("atoms", ((bits[0], 1),))
            return v, bits[info[0]:]
        if t.k == "array":
            out = []
            for i in range(t.d["len"]):
                v, bits = self.from_bits_ty(st, bits, t.d["elem"])
                out.append(v)
            return elems(*out), bits
        if t.k == "adt" and t.d["adt"] == "union":
            fs = t.d["variants"][0]["fields"]
            size = t.d["layout"]["size"] * 8
            vals = []
            for f in fs:
                if self.ty(f[1]).d["layout"]["size"] * 8 == size:
                    vals.append(self.from_bits_ty(st, bits, f[1])[0])
                else:
                    vals.append(UNDEF)
            return Agg(vals), bits[size:]
        if t.k == "tuple" or (t.k == "adt" and t.d["adt"] == "struct"):
            fs = [f[1] for f in t.d["variants"][0]["fields"]] if t.k == "adt" else t.d["fields"]
            size = t.d["layout"]["size"] * 8
            offs = t.d["layout"]["fields"]
            if not isinstance(offs, list):
                offs = [0] * len(fs)
            out = []
            for i, f in enumerate(fs):
                n = self.ty(f).d["layout"]["size"] * 8
                if n == 0:
                    out.append(self.zst(self.ty(f)))
                else:
                    v, _ = self.from_bits_ty(st, bits[offs[i] * 8:offs[i] * 8 + n], f)
                    out.append(v)
            return Agg(out), bits[size:]
        if t.k == "adt" and t.d["adt"] == "enum":
            lay = t.d["layout"]["variants"]
            size = t.d["layout"]["size"] * 8
            if isinstance(lay, dict) and lay.get("enc") == "direct" and all(not v["fields"] for v in t.d["variants"]):
                x = from_bits(st.F, bits[:size])
                x = concretize(st.F, x, size)
                for i, v in enumerate(t.d["variants"]):
                    if int(v["discr"]) & mask(size) == x:
                        return Agg((), i), bits[size:]
        raise Unsup("from bits : %s" % t.name)

    # ------------------------------------------------------------ execution
    def push(self, st, inst_id, args, dest, target, line="", rust_call=False):
        body = self.srv.body(inst_id)
        inst = self.srv.insts[inst_id]
        if body is None:
            raise Unsup("no body for %s" % inst.name)
        if len(st.frames) > 300:
            raise Unsup("call depth")
        self.visited.add(inst.name)
        f = Frame()
        f.uid = st.nid
        f.body = body
        f.inst = inst
        f.base = st.nid
        st.nid += len(body.locals)
        f.bb = 0
        f.si = 0
        f.dest = dest
        f.target = target
        f.line = line
        f.loops = {}
        f.depth = len(st.frames)
        if body.spread is not None:
            n = body.spread - 1
            st_args = list(args[:n]) + [Agg(args[n:])] if len(args) != body.argc else list(args)
        elif len(args) != body.argc:
            # rust-call ABI: last argument is a tuple to be spread
            if args and isinstance(args[-1], Opq):
                args = list(args[:-1]) + [self.expand(st, args[-1])]
            if args and isinstance(args[-1], Agg) and len(args) - 1 + len(args[-1].f) == body.argc:
                st_args = list(args[:-1]) + list(args[-1].f)
            else:
                raise Unsup("arity of %s: %d for %d" % (inst.name, len(args), body.argc))
        else:
            st_args = args
        for i, v in enumerate(st_args):
            st.store[f.base + 1 + i] = v
        st.frames.append(f)
        st.arr = 0 in body.headers
        self.visited_insts.add(inst_id)

    def pop(self, st, val):
        f = st.frames.pop()
        for i in range(len(f.body.locals)):
            st.store.pop(f.base + i, None)
        if f.dest is None:
            st.status = "ret"
            st.result = val
            return
        a, p, m = f.dest
        self.write(st, a, p, m, val)
        if st.frames:
            g = st.frames[-1]
            if f.target is None:
                raise Unsup("return into diverging call")
            self.jump(st, g, f.target)

    def jump(self, st, f, bb):
        f.bb = bb
        f.si = 0
        st.arr = True
        st.ev += 1
        if st.choices:
            st.choices = {}

    def start(self, st, inst_id, args):
        self.push(st, inst_id, args, None, None)

    def explore(self, st, stop=None):
        """run st to completion; returns list of final states (status set)"""
        out = []
        work = [st]
        while work:
            s = work.pop()
            r = self.run(s, stop)
            for x in r:
                if x.status is not None:
                    out.append(x)
                else:
                    work.append(x)
            if len(out) > 6000:
                if self.search:
                    return out
                raise Unsup("too many paths")
        return out

    def finish(self, st, status, where, result=None):
        st.status = status
        st.where = where
        st.result = result
        return [st]

    def where(self, st):
        for f in reversed(st.frames):
            ln = self.term_line(f)
            return "%s (%s)" % (f.inst.name, ln)
        return "?"

    def stack(self, st):
        out = []
        for f in reversed(st.frames):
            out.append("%s at %s" % (f.inst.name, self.term_line(f)))
        return out

    def term_line(self, f):
        t = f.body.blocks[f.bb][1]
        for x in t:
            if isinstance(x, str) and (".rs:" in x):
                return x
        return f.body.span

    def run(self, st, stop=None):
        while True:
            self.steps += 1
            if self.deadline is not None and not self.steps & 255 and time.time() > self.deadline:
                self.max_steps = 0
            if self.steps > self.max_steps:
                return self.finish(st, "unsup", "step budget exhausted at " + self.where(st))
            f = st.frames[-1]
            try:
                if st.arr:
                    st.arr = False
                    r = self.arrive(st, f, stop)
                    if r is not None:
                        return r
                stmts, term = f.body.blocks[f.bb]
                n = len(stmts)
                while f.si < n:
                    self.stmt(st, f, stmts[f.si])
                    f.si += 1
                r = self.term(st, f, term, stop)
                if r is not None:
                    return r
                if st.status is not None:
                    return [st]
            except Fork as fk:
                out = []
                for alt in fk.alts:
                    s = st.clone()
                    s.nforks += 1
                    try:
                        ok = alt(s)
                    except Stop:
                        ok = False
                    if ok:
                        out.append(s)
                if not out and not fk.alts:
                    return self.finish(st, "unsup", "empty fork (%s) at %s" % (fk.why, self.where(st)))
                if len(out) == 1:
                    # progress without a real split
                    st = out[0]
                    st.nforks -= 1
                    continue
                return out
            except Unsup as u:
                return self.finish(st, "unsup", "%s at %s" % (u, " < ".join(self.stack(st)[:6])))
            except Panic as p:
                return self.finish(st, "panic", "%s in %s" % (p.msg, self.where(st)), p.msg)
            except Stop:
                return []
            except Desync as d:
                return self.finish(st, "desync", "%s at %s" % (d, " < ".join(self.stack(st)[:4])))
            except RecursionError:
                return self.finish(st, "unsup", "recursion limit")
            except (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError) as e:
                if DEBUG:
                    raise
                return self.finish(st, "unsup", "internal: %r at %s" % (e, " < ".join(self.stack(st)[:6])))

    def stmt(self, st, f, s):
        k = s[0]
        if k == "=":
            v = self.rvalue(st, f, s[2])
            pl = s[1]
            if len(pl) == 1:
                st.store[f.base + pl[0]] = v
            else:
                a, p, m = self.place(st, f, pl)
                self.write(st, a, p, m, v)
        elif k == "dead":
            st.store.pop(f.base + s[1], None)
        elif k == "sd":
            a, p, m = self.place(st, f, s[1])
            v = self.walk(st, a, p)
            if v is UNDEF:
                v = Agg((), s[2])
            elif isinstance(v, Agg):
                v = Agg(v.f, s[2])
            else:
                raise Unsup("set discriminant of %r" % (v,))
            self.write(st, a, p, m, v)
        elif k == "assume":
            pass
        elif k == "cno":
            src = self.operand(st, f, s[1])
            dst = self.operand(st, f, s[2])
            n = lin_of(st.F, self.operand(st, f, s[3]), 64, False)
            self.models.copy_mem(st, src, dst, n)
        else:
            raise Unsup("stmt " + k)

    def term(self, st, f, t, stop):
        k = t[0]
        if k == "goto":
            return self.goto(st, f, t[1], stop)
        if k == "sw":
            v = self.operand(st, f, t[1])
            if isinstance(v, Opq):
                v = self.expand(st, v)
            if isinstance(v, Sc):
                v = simp(st.F, v)
            if isinstance(v, Cnd):
                d = st.F.decide(v)
                if d is None:
                    raise_on_cond(st.F, v)
                v = int(d)
            if isinstance(v, int):
                for val, bb in t[2]:
                    if int(val) == v:
                        return self.goto(st, f, bb, stop)
                return self.goto(st, f, t[3], stop)
            if not isinstance(v, Sc):
                raise Unsup("switch on %r" % (v,))
            w, sg = self.int_info(t[4])
            if self.ty(t[4]).k == "bool":
                raise_on_cond(st.F, to_cnd(st.F, v))
            if v.lin is not None:
                l = lin_of(st.F, v, w, False)
                return self.switch_lin(st, f, l, t[2], t[3], stop)
            for val, bb in t[2]:
                c = compare(st.F, "Eq", v, int(val), w, False)
                if isinstance(c, Cnd):
                    d = st.F.decide(c)
                    if d is None:
                        raise_on_cond(st.F, c)
                    c = d
                if c:
                    return self.goto(st, f, bb, stop)
            return self.goto(st, f, t[3], stop)
        if k == "ret":
            v = st.store.get(f.base, UNDEF)
            if v is UNDEF:
                v = UNIT
            self.pop(st, v)
            return None
        if k == "call":
            return self.call(st, f, t)
        if k == "assert":
            v = self.operand(st, f, t[1])
            c = to_cnd(st.F, v)
            d = st.F.decide(c) if not isinstance(c, bool) else c
            if d is None:
                raise_on_cond(st.F, c)
            if d == t[2]:
                return self.goto(st, f, t[4], stop)
            raise Panic(t[3])
        if k == "drop":
            if self.sig_drop(t[3]):
                a, p, m = self.place(st, f, t[1])
                inst = self.srv.drop(t[3])
                bw = self.ty(t[3])
                args = [Ptr(a, p, m)]
                if is_bufw(bw):
                    inst = self.srv.resolve("models::bufw_drop", [bw.d["args"][0]])
                return self.enter(st, inst, args, (st.alloc(UNIT), (), None), t[2], 0)
            return self.goto(st, f, t[2], stop)
        if k == "unr":
            return []
        raise Unsup("terminator " + k)

    def switch_lin(self, st, f, l, targets, other, stop):
        """switch on an integer: one alternative per maximal interval of values with the same target"""
        lo, hi = st.F.bounds(l)
        ivs = []
        cur = lo
        for val, bb in sorted((int(a), b) for a, b in targets):
            if val < lo or val > hi:
                continue
            if val > cur:
                ivs.append([cur, val - 1, other])
            if ivs and ivs[-1][2] == bb and ivs[-1][1] == val - 1:
                ivs[-1][1] = val
            else:
                ivs.append([val, val, bb])
            cur = val + 1
        if cur <= hi:
            ivs.append([cur, hi, other])
        if len(ivs) == 1:
            return self.goto(st, f, ivs[0][2], stop)
        alts = []
        for a, b, _ in ivs:
            def alt(st, a=a, b=b):
                if a > lo and not st.F.assume_ge(laddc(l, -a)):
                    return False
                return b >= hi or st.F.assume_ge(laddc(lscale(l, -1), b))
            alts.append(alt)
        raise Fork(alts, "switch")

    def goto(self, st, f, bb, stop):
        self.jump(st, f, bb)
        return None

    def arrive(self, st, f, stop):
        """a jump has just landed on f.bb"""
        bb = f.bb
        if stop is not None and f.uid == stop[0]:
            if bb == stop[1]:
                return self.finish(st, "back", None)
            if bb not in stop[2]:
                return self.finish(st, "exit", None)
        if f.loops:
            for h in list(f.loops):
                if bb not in f.body.headers[h]:
                    del f.loops[h]
        if bb in f.body.headers:
            import loops
            return loops.at_head(self, st, f, bb, stop)
        return None

    def call(self, st, f, t):
        _, callee, fop, ops, atys, dpl, target, dty, line = t
        c = Call()
        c.args = [self.operand(st, f, o) for o in ops]
        c.atys = atys
        c.dty = dty
        c.line = line
        if callee is None:
            fv = self.operand(st, f, fop)
            if isinstance(fv, FnV):
                c.inst = fv.i
                ins = self.srv.insts[fv.i]
                c.cpath = ins.path
                c.cargs = ins.args
                if "{closure" in ins.name:
                    b = self.srv.body(fv.i)
                    # a closure without captures: its own argument
                    if b is not None and b.spread is not None:
                        c.args, c.atys = [UNIT, Agg(c.args)], [None, None]
                    elif b is not None and b.argc == len(c.args) + 1:
                        c.args, c.atys = [UNIT] + c.args, [None] + list(c.atys)
            else:
                raise Unsup("indirect call of %r" % (fv,))
        else:
            c.inst = callee["inst"]
            c.cpath = callee["cpath"]
            c.cargs = callee["cargs"]
        return self.dispatch(st, f, c, dpl, target)

    def dispatch(self, st, f, c, dpl, target):
        inst = self.srv.insts[c.inst] if c.inst is not None else None
        m = self.models.find(c, inst)
        if m is None and inst is not None and self.ih is not None:
            r = self.ih(self, st, inst, c)
            if r is not None:
                return self.call_result(st, f, c, dpl, target, r)
        if m is not None:
            s2 = st.clone()
            f2 = s2.frames[-1]
            try:
                v = m(self, s2, c)
            except Redirect as r:
                # commit s2 changes and call the replacement
                self.adopt(st, s2)
                a, p, mm = self.place(st, st.frames[-1], dpl)
                return self.enter(st, r.inst, r.args, (a, p, mm), target, c.line)
            if v is DIVERGE:
                return []
            self.adopt(st, s2)
            return self.call_result(st, st.frames[-1], c, dpl, target, v)
        if inst is None:
            raise Unsup("unresolved call %s" % c.cpath)
        if inst.kind == "virt":
            return self.call_virtual(st, f, c, inst, dpl, target)
        if inst.kind == "intr":
            raise Unsup("intrinsic %s" % inst.intr)
        if inst.empty:
            return self.call_result(st, f, c, dpl, target, UNIT)
        tgt = inst
        args = c.args
        if inst.kind == "shim" and inst.target is not None and self.srv.body(inst.id) is None:
            tgt = self.srv.insts[inst.target]
            args = c.args[1:]
            if args and isinstance(args[-1], Agg):
                args = list(args[:-1]) + list(args[-1].f)
            c2 = Call()
            c2.args, c2.atys, c2.dty, c2.cpath, c2.cargs, c2.inst, c2.line = args, None, c.dty, tgt.path, tgt.args, tgt.id, c.line
            return self.dispatch(st, f, c2, dpl, target)
        if tgt.ctor and self.srv.body(tgt.id) is None:
            t = self.ty(c.dty)
            nm = tgt.path.split("::")[-1]
            vi = 0
            if t.k == "adt" and t.d["adt"] == "enum":
                vi = [i for i, v in enumerate(t.d["variants"]) if v["name"] == nm][0]
            return self.call_result(st, f, c, dpl, target, Agg(args, vi))
        dest = self.place(st, f, dpl)
        if tgt.closure and len(args) == 2 and c.cpath and c.cpath.split("::")[-1] in ("call", "call_mut", "call_once"):
            tup = self.expand(st, args[1])
            args = [args[0]] + list(tup.f)
        return self.enter(st, tgt.id, args, dest, target, c.line)

    def enter(self, st, inst_id, args, dest, target, line):
        join = st.mode.get("join") and target is not None
        if join:
            f, F, flags = st.frames[-1], st.F.clone(), dict(st.flags)
        self.push(st, inst_id, args, dest, target, line)
        st.ev += 1
        st.choices = {}
        if join:
            import loops
            return loops.join_call(self, st, F, dest, (f.uid, target, ()))
        return None

    def sig_drop(self, tid, depth=0):
        """does dropping a value of the type run code of the repository, or flush a write buffer?"""
        r = self.srv.sig.get(tid)
        if r is None:
            t = self.ty(tid)
            self.srv.sig[tid] = False
            if t.k == "adt":
                r = is_bufw(t) or (t.d.get("dtor") and t.d["krate"] in ("dlhn", "ghost"))
                if not r and t.d["krate"] not in ("alloc", "std", "hashbrown"):
                    r = any(self.sig_drop(f[1]) for v in t.d["variants"] for f in v["fields"])
            elif t.k in ("tuple", "closure"):
                r = any(self.sig_drop(x) for x in t.d["fields"])
            r = self.srv.sig[tid] = bool(r)
        return r

    def call_virtual(self, st, f, c, inst, dpl, target):
        p = c.args[0]
        if isinstance(p, Ptr) and p.m and p.m[0] == "v" and p.m[1] is not None:
            raise Unsup("virtual call %s" % inst.name)
        raise Unsup("virtual call %s" % inst.name)

    def adopt(self, st, s2):
        for k in State.__slots__:
            setattr(st, k, getattr(s2, k))

    def call_result(self, st, f, c, dpl, target, v):
        if st.status is not None:
            return [st]
        if target is None:
            raise Unsup("diverging call returned: %s" % c.cpath)
        a, p, m = self.place(st, f, dpl)
        self.write(st, a, p, m, v)
        self.jump(st, f, target)
        return None


DIVERGE = object()


def is_bufw(t):
    return t.k == "adt" and t.d["path"].endswith("bufwriter::BufWriter")


def unwrap_ptr(v):
    while isinstance(v, Agg) and v.f and not isinstance(v, Ptr):
        nv = None
        for x in v.f:
            if isinstance(x, (Ptr, Agg)) and x != UNIT:
                nv = x
                break
        if nv is None:
            return v
        v = nv
    return v


def single_leaf(v):
    while isinstance(v, Agg):
        nz = [x for x in v.f if not (isinstance(x, Agg) and not leaves(x))]
        if len(nz) != 1:
            return None
        v = nz[0]
    return v


def leaves(v):
    if isinstance(v, Agg):
        return any(leaves(x) for x in v.f)
    return True


def same_shape(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if is_lin(a) and is_lin(b):
            return True
        return len(a) == len(b) and all(same_shape(x, y) for x, y in zip(a, b))
    return a == b
