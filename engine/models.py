"""Meaning of std, io and third-party functions for the abstract interpreter.

A model has the signature m(E, st, call) -> value and may raise Fork, Panic,
Redirect or Skip (= interpret the real body instead)."""
from core import *
import seqs
from interp import Redirect, DIVERGE, unwrap_ptr, single_leaf

M = {}
DISC = {}
PRE = []


class Skip(Exception):
    pass


def model(*paths, when=None):
    def d(f):
        for p in paths:
            M.setdefault(p, []).append((when, f))
        return f
    return d


def NONE():
    return Agg((), 0)


def SOME(x):
    return Agg((x,), 1)


def OK(x=UNIT):
    return Agg((x,), 0)


def ERR(x):
    return Agg((x,), 1)


def ioerr(*t):
    return Obj("IoErr", ("ioerr",) + t)


class Models:
    def __init__(self, E):
        self.E = E
        self.cache = {}
        self.opaque_adt = dict(OPAQUE)
        self.obj_field = dict(FIELD)
        self.obj_setfield = {}
        self.obj_disc = dict(DISC)
        self.const_adt = dict(CONST)

    def find(self, c, inst):
        k = (c.cpath, c.inst, tuple(a for a in c.cargs if isinstance(a, int)))
        if k in self.cache:
            return self.cache[k]
        r = self.find0(c, inst)
        self.cache[k] = r
        return r

    def find0(self, c, inst):
        keys = []
        if inst is not None:
            if inst.kind == "intr":
                keys.append("i:" + str(inst.intr))
            keys.append(inst.path)
            if inst.path.endswith("::precondition_check"):
                return lambda E, st, c: UNIT
            if inst.path.startswith("core::panicking::") and not inst.path.endswith("_default_msg"):
                return panic_model
        if c.cpath not in keys:
            keys.append(c.cpath)
        if inst is not None and inst.tm and inst.tm not in keys:
            keys.append(inst.tm)
        for key in keys:
            for when, f in M.get(key, ()):
                if when is None or when(self.E, c, inst):
                    self.E.used_models[key] = self.E.used_models.get(key, 0) + 1
                    return f
        for f in PRE:
            r = f(self.E, c, inst)
            if r is not None:
                return r
        return None

    def copy_mem(self, st, src, dst, n):
        E = self.E
        if st.F.eq0(n) is True:
            return
        src, dst = unwrap_ptr(src), unwrap_ptr(dst)
        if isinstance(src, Ptr) and (src.m is None or src.m[0] != "s") and not (src.p and isinstance(src.p[-1], tuple)) and n == L(1):
            E.deref_write(st, dst, E.deref_read(st, src))
            return
        v = E.deref_read(st, E.ptr_to_slice(st, src, n))
        E.deref_write(st, E.ptr_to_slice(st, dst, n), v)

    def opq_eq(self, st, a, b):
        """equality of values whose representation is not their meaning; NotImplemented for all others"""
        import third
        return third.eqnum(self.E, st, a, b)


# ---------------------------------------------------------------- helpers
def selfty(E, c):
    return E.ty(c.cargs[0]) if c.cargs and isinstance(c.cargs[0], int) else None


def self_is(*kinds):
    """when-predicate on the Self type (kind or adt path)"""
    def f(E, c, inst):
        t = selfty(E, c)
        return t is not None and (t.k in kinds or (t.k == "adt" and t.d["path"] in kinds))
    return f


def sub(E, st, p):
    """value behind a pointer"""
    return E.deref_read(st, unwrap_ptr(p))


def seq_of(E, st, p):
    """sequence behind a slice/str/array/Vec/String pointer"""
    v = sub(E, st, p)
    return as_seq(E, st, v)


def as_seq(E, st, v):
    for _ in range(6):
        if isinstance(v, Opq):
            v = E.expand(st, v)
        elif isinstance(v, Seq):
            return v
        elif isinstance(v, Obj) and v.k in ("Vec", "Box", "Map"):
            v = v.d[0]
        elif isinstance(v, Agg) and len(v.f) >= 1:
            v = v.f[0]
        elif isinstance(v, Ptr):
            v = E.deref_read(st, v)
        else:
            break
    raise Unsup("not a sequence: %r" % (v,))


def vec_ptr(E, st, p):
    """(alloc, path) of the Vec object behind &mut Vec / &mut String"""
    p = unwrap_ptr(p)
    v = E.walk(st, p.a, p.p)
    path = p.p
    for _ in range(4):
        if isinstance(v, Opq):
            v = E.expand(st, v)
        if isinstance(v, Obj) and v.k == "Vec":
            return p.a, path, v.d[0]
        if isinstance(v, Agg) and v.f:
            path = path + (0,)
            v = v.f[0]
        else:
            break
    raise Unsup("not a Vec: %r" % (v,))


def vec_set(E, st, a, path, seq):
    E.write(st, a, path, None, VecV(seq))


def u(E, st, x):
    return lin_of(st.F, x, 64, False)


def lt(F, a, b):
    """a < b decided (forking)"""
    return seqs.need(F, laddc(lsub(b, a), -1))


def le(F, a, b):
    return seqs.need(F, lsub(b, a))


def sptr(p, off, n):
    """sub-slice of a slice pointer"""
    return Ptr(p.a, p.p, ("s", ladd(p.m[1], off), n))


def full_slice(E, st, a, path):
    """pointer to all elements of the Vec at (a, path)"""
    v = E.walk(st, a, path + ("vec",))
    return Ptr(a, path + ("vec",), ("s", L(0), seqs.length(st.F, v)))


def elem_ptr(p, i):
    return Ptr(p.a, p.p + (("e", ladd(p.m[1], i)),), None)


def argty(c, i=0):
    return c.cargs[i]


# ---------------------------------------------------------------- panics
def panic_model(E, st, c):
    msg = c.cpath.split("::")[-1]
    for a in c.args:
        if isinstance(a, Ptr) and a.m and a.m[0] == "s":
            try:
                v = E.deref_read(st, a)
                bs = [x for s in v.s for x in s[1]] if all(s[0] == "E" for s in v.s) else []
                if bs and all(isinstance(x, int) for x in bs):
                    msg += ": " + bytes(bs).decode("utf8", "replace")
            except Exception:
                pass
    raise Panic(msg)


for p in ("core::option::unwrap_failed", "core::option::expect_failed", "core::result::unwrap_failed",
          "core::slice::index::slice_index_fail", "core::str::slice_error_fail", "alloc::raw_vec::handle_error",
          "alloc::raw_vec::capacity_overflow", "alloc::alloc::handle_alloc_error", "std::panicking::begin_panic",
          "core::slice::copy_from_slice_impl::len_mismatch_fail", "core::cell::panic_already_borrowed",
          "core::cell::panic_already_mutably_borrowed", "alloc::vec::Vec::<T, A>::remove::assert_failed",
          "alloc::vec::Vec::<T, A>::insert::assert_failed", "std::process::abort", "std::process::exit"):
    model(p)(panic_model)


# ---------------------------------------------------------------- intrinsics
def scal_w(E, c, i=0):
    return E.int_info(c.cargs[i])


@model("i:ctlz", "i:ctlz_nonzero")
def _(E, st, c):
    w, _s = scal_w(E, c)
    return count_zeros(E, st, c.args[0], w, True)


@model("i:cttz", "i:cttz_nonzero")
def _(E, st, c):
    w, _s = scal_w(E, c)
    return count_zeros(E, st, c.args[0], w, False)


def count_zeros(E, st, x, w, lead):
    F = st.F
    if isinstance(x, int):
        if lead:
            return w - x.bit_length()
        return w if x == 0 else (x & -x).bit_length() - 1
    bits = bits_of(F, x, w)
    if lead:
        bits = bits[::-1]
        l = None
        if isinstance(x, Sc) and x.lin is not None:
            try:
                l = lin_of(F, x, w, False)
            except Fork:
                l = None
        if l is not None:
            lo, hi = F.bounds(l)
            zl, zh = w - hi.bit_length(), w - lo.bit_length()
            if zl == zh:
                return zl
            if w > 8:
                # kept symbolic; facts about the count translate to facts about the value
                v = memo_var(("ctlz", F.lnorm(l), w), 32, False, "lz(%s)" % show_lin(l), 0, w)
                return mk(32, LV(v.vid))
            alts = []
            for z in range(zl, zh + 1):
                nb = w - z
                a, b = (1 << (nb - 1) if nb else 0), (1 << nb) - 1
                alts.append(lambda st, a=a, b=b: st.F.assume_ge(laddc(l, -a)) and st.F.assume_ge(laddc(lscale(l, -1), b)))
            raise Fork(alts, "ctlz")
    n = 0
    for i, a in enumerate(bits):
        if a == 1:
            return n
        if a == 0:
            n += 1
            continue
        alts = []
        und = [(j, b) for j, b in enumerate(bits[i:]) if b >= 2]
        # split on the position of the first set bit
        zeros = []
        for j, b in enumerate(bits[i:]):
            if b == 0:
                continue
            if b == 1:
                alts.append(lambda st, z=tuple(zeros): all(st.F.assume_atom(q, 0) for q in z))
                break
            alts.append(lambda st, z=tuple(zeros), b=b: all(st.F.assume_atom(q, 0) for q in z) and st.F.assume_atom(b, 1))
            zeros.append(b)
        else:
            alts.append(lambda st, z=tuple(zeros): all(st.F.assume_atom(q, 0) for q in z))
        raise Fork(alts, "ctz")
    return n


@model("i:ctpop")
def _(E, st, c):
    w, _s = scal_w(E, c)
    x = c.args[0]
    if isinstance(x, int):
        return bin(x).count("1")
    b = bits_of(st.F, x, w)
    un = [a for a in b if a >= 2]
    if len(un) <= 4 and un:
        raise Fork([lambda st: st.F.assume_atom(un[0], 0), lambda st: st.F.assume_atom(un[0], 1)], "ctpop")
    return E.opaque_scalar(("ctpop", x.key()), 32)


@model("i:bswap")
def _(E, st, c):
    w, _s = scal_w(E, c)
    x = c.args[0]
    b = bits_of(st.F, x, w)
    out = []
    for i in range(w // 8 - 1, -1, -1):
        out += b[i * 8:i * 8 + 8]
    return from_bits(st.F, tuple(out))


@model("i:bitreverse")
def _(E, st, c):
    w, _s = scal_w(E, c)
    return from_bits(st.F, tuple(bits_of(st.F, c.args[0], w)[::-1]))


@model("i:rotate_left", "i:rotate_right")
def _(E, st, c):
    w, _s = scal_w(E, c)
    n = concretize(st.F, c.args[1], 32, "rotate") % w
    b = bits_of(st.F, c.args[0], w)
    if "left" in E.srv.insts[c.inst].intr:
        n = (w - n) % w
    return from_bits(st.F, tuple(b[n:] + b[:n]))


def _arith(op):
    def f(E, st, c):
        w, s = scal_w(E, c)
        return binop(st.F, op, c.args[0], c.args[1], w, s, w)
    return f


for n, op in (("wrapping_add", "Add"), ("wrapping_sub", "Sub"), ("wrapping_mul", "Mul"), ("unchecked_add", "Add"),
              ("unchecked_sub", "Sub"), ("unchecked_mul", "Mul"), ("exact_div", "Div"), ("unchecked_div", "Div"),
              ("unchecked_rem", "Rem")):
    model("i:" + n)(_arith(op))


@model("i:unchecked_shl", "i:unchecked_shr", "i:disjoint_bitor")
def _(E, st, c):
    w, s = scal_w(E, c)
    op = {"unchecked_shl": "Shl", "unchecked_shr": "Shr", "disjoint_bitor": "BitOr"}[E.srv.insts[c.inst].intr]
    wb = E.int_info(c.cargs[1])[0] if len(c.cargs) > 1 else w
    return binop(st.F, op, c.args[0], c.args[1], w, s, wb)


@model("i:saturating_add", "i:saturating_sub")
def _(E, st, c):
    w, s = scal_w(E, c)
    op = "Add" if "add" in E.srv.insts[c.inst].intr else "Sub"
    ov = overflow(st.F, op, c.args[0], c.args[1], w, s)
    if isinstance(ov, Cnd):
        raise_on_cond(st.F, ov)
    if not ov:
        return binop(st.F, op, c.args[0], c.args[1], w, s)
    if not s:
        return mask(w) if op == "Add" else 0
    return E.opaque_scalar(("sat", op, repr(c.args)), w, s)


@model("i:add_with_overflow", "i:sub_with_overflow", "i:mul_with_overflow")
def _(E, st, c):
    w, s = scal_w(E, c)
    op = {"a": "Add", "s": "Sub", "m": "Mul"}[E.srv.insts[c.inst].intr[0]]
    return Agg([binop(st.F, op, c.args[0], c.args[1], w, s), overflow(st.F, op, c.args[0], c.args[1], w, s)])


@model("i:integer_max")
def _(E, st, c):
    w, s = scal_w(E, c)
    return ite_cmp(E, st, c, w, s, "Ge")


@model("i:integer_min")
def _(E, st, c):
    w, s = scal_w(E, c)
    return ite_cmp(E, st, c, w, s, "Le")


def ite_cmp(E, st, c, w, s, op):
    r = compare(st.F, op, c.args[0], c.args[1], w, s)
    if isinstance(r, Cnd):
        raise_on_cond(st.F, r)
    return c.args[0] if r else c.args[1]


@model("i:cold_path", "i:assert_inhabited", "i:assert_zero_valid", "i:assert_mem_uninitialized_valid", "i:assume",
       "core::hint::assert_unchecked", "core::hint::cold_path")
def _(E, st, c):
    return UNIT


@model("i:likely", "i:unlikely", "i:black_box", "core::hint::black_box", "i:ptr_guaranteed_cmp")
def _(E, st, c):
    return c.args[0]


@model("i:select_unpredictable")
def _(E, st, c):
    x = to_cnd(st.F, c.args[0])
    d = st.F.decide(x) if isinstance(x, Cnd) else x
    if d is None:
        raise_on_cond(st.F, x)
    return c.args[1] if d else c.args[2]


@model("i:needs_drop", "i:ub_checks", "i:contract_checks", "i:overflow_checks")
def _(E, st, c):
    return 0


@model("i:is_val_statically_known")
def _(E, st, c):
    return 0


@model("i:size_of", "core::mem::size_of", "i:min_align_of", "i:align_of", "core::mem::align_of")
def _(E, st, c):
    lay = E.ty(c.cargs[0]).d["layout"]
    return lay["size"] if "size_of" in c.cpath else lay.get("align", 1)


@model("i:size_of_val", "core::mem::size_of_val")
def _(E, st, c):
    t = E.ty(c.cargs[0])
    if t.k in ("slice", "str"):
        es = E.ty(t.d["elem"]).d["layout"]["size"] if t.k == "slice" else 1
        p = unwrap_ptr(c.args[0])
        return mk(64, lscale(p.m[2], es))
    return t.d["layout"]["size"]


@model("i:type_id", "i:type_name", "i:caller_location", "core::panic::location::Location::<'a>::caller")
def _(E, st, c):
    return Opq(("const", c.cpath, tuple(c.cargs)), c.dty)


@model("i:transmute", "i:transmute_unchecked")
def _(E, st, c):
    return E.transmute(st, c.args[0], c.cargs[0], c.cargs[1])


@model("i:read_via_copy", "core::ptr::read", "i:volatile_load", "core::ptr::const_ptr::<impl *const T>::read",
       "core::ptr::mut_ptr::<impl *mut T>::read", "core::ptr::read_unaligned", "core::ptr::non_null::NonNull::<T>::read")
def _(E, st, c):
    return sub(E, st, c.args[0])


@model("i:write_via_move", "core::ptr::write", "i:volatile_store", "core::ptr::mut_ptr::<impl *mut T>::write",
       "core::ptr::non_null::NonNull::<T>::write")
def _(E, st, c):
    E.deref_write(st, unwrap_ptr(c.args[0]), c.args[1])
    return UNIT


# atomics: the code analysed is sequential
def cell(E, st, p):
    """the scalar inside the wrappers a cell consists of"""
    p = unwrap_ptr(p)
    v = E.deref_read(st, p)
    while isinstance(v, Agg) and len(v.f) == 1:
        p, v = Ptr(p.a, p.p + (0,), p.m), v.f[0]
    return p, v


@model("i:atomic_load")
def _(E, st, c):
    return cell(E, st, c.args[0])[1]


@model("i:atomic_store")
def _(E, st, c):
    E.deref_write(st, cell(E, st, c.args[0])[0], c.args[1])
    return UNIT


@model("i:atomic_fence", "i:atomic_singlethreadfence")
def _(E, st, c):
    return UNIT


@model("i:atomic_xchg", "i:atomic_xadd", "i:atomic_xsub", "i:atomic_and", "i:atomic_or", "i:atomic_xor")
def _(E, st, c):
    p, old = cell(E, st, c.args[0])
    op = {"xadd": "Add", "xsub": "Sub", "and": "BitAnd", "or": "BitOr", "xor": "BitXor", "xchg": None}[E.srv.insts[c.inst].intr.split("_")[1]]
    new = c.args[1]
    if op:
        w, s = scal_w(E, c)
        new = binop(st.F, op, old, new, w, s, w)
    E.deref_write(st, p, new)
    return old


@model("i:atomic_max", "i:atomic_min", "i:atomic_umax", "i:atomic_umin")
def _(E, st, c):
    p, old = cell(E, st, c.args[0])
    w, s = scal_w(E, c)
    lt = compare(st.F, "Lt", old, c.args[1], w, s)
    if isinstance(lt, Cnd):
        raise_on_cond(st.F, lt)
    if bool(lt) == ("max" in E.srv.insts[c.inst].intr):
        E.deref_write(st, p, c.args[1])
    return old


@model("i:atomic_cxchg", "i:atomic_cxchgweak")
def _(E, st, c):
    p, old = cell(E, st, c.args[0])
    w, s = scal_w(E, c)
    eq = compare(st.F, "Eq", old, c.args[1], w, s)
    if isinstance(eq, Cnd):
        raise_on_cond(st.F, eq)
    if eq:
        E.deref_write(st, p, c.args[2])
    return Agg([old, 1 if eq else 0])


@model("std::sys::thread_local::destructors::register", "std::sys::thread_local::destructors::list::register",
       "std::sys::thread_local::destructors::linux_like::register", "std::sys::thread_local::guard::enable")
def _(E, st, c):
    return UNIT


@model("core::mem::replace")
def _(E, st, c):
    old = sub(E, st, c.args[0])
    E.deref_write(st, unwrap_ptr(c.args[0]), c.args[1])
    return old


@model("core::mem::swap", "i:typed_swap_nonoverlapping", "core::ptr::swap")
def _(E, st, c):
    a, b = unwrap_ptr(c.args[0]), unwrap_ptr(c.args[1])
    x, y = E.deref_read(st, a), E.deref_read(st, b)
    E.deref_write(st, a, y)
    E.deref_write(st, b, x)
    return UNIT


def insig_drop(E, c, inst):
    return not (isinstance(c.cargs[0], int) and E.sig_drop(c.cargs[0]))


@model("core::mem::drop", when=insig_drop)
def _(E, st, c):
    return UNIT


@model("core::mem::forget",  "core::ptr::drop_in_place", "core::mem::manually_drop::ManuallyDrop::<T>::drop",
       "core::ptr::drop_glue")
def _(E, st, c):
    return UNIT


@model("i:copy_nonoverlapping", "i:copy", "core::ptr::copy_nonoverlapping", "core::ptr::copy")
def _(E, st, c):
    E.models.copy_mem(st, c.args[0], c.args[1], u(E, st, c.args[2]))
    return UNIT


@model("i:offset", "i:arith_offset", "core::ptr::const_ptr::<impl *const T>::add", "core::ptr::mut_ptr::<impl *mut T>::add",
       "core::ptr::non_null::NonNull::<T>::add")
def _(E, st, c):
    n = c.args[1]
    p = c.args[0]
    q = E.ptr_offset(st, unwrap_ptr(p), lin_of(st.F, n, 64, True))
    return Agg([q]) if isinstance(p, Agg) else q


@model("i:raw_eq")
def _(E, st, c):
    return bool_of(E, st, seqs.eqv(E, st, sub(E, st, c.args[0]), sub(E, st, c.args[1])), "raw_eq", c)


@model("i:compare_bytes")
def _(E, st, c):
    n = u(E, st, c.args[2])
    a = E.deref_read(st, E.ptr_to_slice(st, unwrap_ptr(c.args[0]), n))
    b = E.deref_read(st, E.ptr_to_slice(st, unwrap_ptr(c.args[1]), n))
    r = seqs.eqv(E, st, a, b)
    if r is True:
        return 0
    return E.opaque_scalar(("cmpb", repr(a), repr(b)), 32, True)


@model("i:discriminant_value")
def _(E, st, c):
    v = sub(E, st, c.args[0])
    return E.discriminant(st, v, c.cargs[0], c.dty)


@model("i:float_to_int_unchecked", "i:fmuladdf64", "i:floorf64", "i:powif64")
def _(E, st, c):
    w, s = E.int_info(c.dty)
    return E.opaque_scalar((c.cpath, repr(c.args)), w, s)


def bool_of(E, st, r, tag, c=None):
    """three-valued equality -> value"""
    if r is True:
        return 1
    if r is False:
        return 0
    return Cnd("unk", (tag, repr(c.args) if c is not None else fresh_id()))


# ---------------------------------------------------------------- slices
def index_range(E, st, c, rng, n):
    """(offset, len) for a range value; None if out of bounds"""
    t = E.ty(c.cargs[0]) if E.ty(c.cargs[0]).k == "adt" else E.ty(c.cargs[1])
    p = t.d["path"].split("::")[-1]
    F = st.F
    if p == "RangeFull":
        return L(0), n
    f = [u(E, st, x) if not isinstance(x, (Cnd, Agg)) else x for x in rng.f]
    if p == "Range":
        lo, hi = f[0], f[1]
    elif p == "RangeTo":
        lo, hi = L(0), f[0]
    elif p == "RangeFrom":
        lo, hi = f[0], n
        if not le(F, lo, n):
            return None
        return lo, lsub(n, lo)
    elif p == "RangeInclusive":
        lo, hi = f[0], laddc(f[1], 1)
    elif p == "RangeToInclusive":
        lo, hi = L(0), laddc(f[0], 1)
    else:
        raise Unsup("range " + p)
    if not le(F, lo, hi) or not le(F, hi, n):
        return None
    return lo, lsub(hi, lo)


def slen(E, st, p):
    if p.m is not None and p.m[0] == "s":
        return p.m[2]
    return E.place_len(st, p.a, p.p, None)


def is_range(E, c, inst):
    t = selfty(E, c)
    return t.k == "adt" and ".range" not in t.d["path"] and "::Range" in t.d["path"]


SI = "core::slice::index::SliceIndex::"


@model(SI + "index", SI + "index_mut", SI + "get_unchecked", SI + "get_unchecked_mut", when=is_range)
def _(E, st, c):
    p = unwrap_ptr(c.args[1])
    if p.m is None:
        p = Ptr(p.a, p.p, ("s", L(0), slen(E, st, p)))
    r = index_range(E, st, c, c.args[0], p.m[2])
    if r is None:
        raise Panic("slice index out of range")
    str_boundary(E, st, c, p, r)
    return sptr(p, *r)


@model(SI + "get", SI + "get_mut", when=is_range)
def _(E, st, c):
    p = unwrap_ptr(c.args[1])
    r = index_range(E, st, c, c.args[0], p.m[2])
    if r is None:
        return NONE()
    try:
        str_boundary(E, st, c, p, r)
    except Panic:
        return NONE()
    return SOME(sptr(p, *r))


def str_boundary(E, st, c, p, r):
    t = E.ty(c.cargs[1]) if len(c.cargs) > 1 and isinstance(c.cargs[1], int) else None
    if t is None or t.k != "str":
        return
    check_boundary(E, st, p, r)


def check_boundary(E, st, p, r):
    s = E.deref_read(st, p)
    n = p.m[2]
    for off in (r[0], ladd(r[0], r[1])):
        if st.F.eq0(off) is True or st.F.eq0(lsub(n, off)) is True:
            continue
        if seqs.needeq(st.F, off) or seqs.needeq(st.F, lsub(n, off)):
            continue
        b = seqs.get(E, st, s, off)
        cd = compare(st.F, "Eq", binop(st.F, "BitAnd", b, 0xC0, 8, False), 0x80, 8, False)
        if isinstance(cd, Cnd):
            raise_on_cond(st.F, cd)
        if cd:
            raise Panic("str index is not a char boundary")


@model(SI + "get", SI + "get_mut", when=self_is("int"))
def _(E, st, c):
    p = unwrap_ptr(c.args[1])
    i = u(E, st, c.args[0])
    if not lt(st.F, i, p.m[2]):
        return NONE()
    return SOME(elem_ptr(p, i))


@model(SI + "get_unchecked", SI + "get_unchecked_mut", when=self_is("int"))
def _(E, st, c):
    return elem_ptr(unwrap_ptr(c.args[1]), u(E, st, c.args[0]))


@model(SI + "index", SI + "index_mut", when=self_is("int"))
def _(E, st, c):
    p = unwrap_ptr(c.args[1])
    i = u(E, st, c.args[0])
    if not lt(st.F, i, slen(E, st, p)):
        raise Panic("index out of bounds")
    return elem_ptr(p if p.m else Ptr(p.a, p.p, ("s", L(0), None)), i)


@model("i:slice_get_unchecked")
def _(E, st, c):
    return elem_ptr(unwrap_ptr(c.args[0]), u(E, st, c.args[1]))


@model("core::slice::<impl [T]>::as_ptr", "core::slice::<impl [T]>::as_mut_ptr", "core::str::<impl str>::as_ptr",
       "core::array::<impl [T; N]>::as_slice", "core::array::<impl [T; N]>::as_mut_slice")
def _(E, st, c):
    p = unwrap_ptr(c.args[0])
    if "array" in c.cpath:
        return Ptr(p.a, p.p, ("s", L(0), slen(E, st, p)))
    return Ptr(p.a, p.p + (("e", p.m[1]),), None)


@model("core::slice::raw::from_raw_parts", "core::slice::raw::from_raw_parts_mut", "core::ptr::slice_from_raw_parts",
       "core::ptr::slice_from_raw_parts_mut")
def _(E, st, c):
    return E.ptr_to_slice(st, unwrap_ptr(c.args[0]), u(E, st, c.args[1]))


@model("core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut")
def _(E, st, c):
    p = unwrap_ptr(c.args[0])
    return Obj("SIter", p, L(0), p.m[2])


@model("core::slice::<impl [T]>::copy_from_slice", "core::slice::<impl [T]>::clone_from_slice")
def _(E, st, c):
    d, s = unwrap_ptr(c.args[0]), unwrap_ptr(c.args[1])
    if not seqs.needeq(st.F, lsub(d.m[2], s.m[2])):
        raise Panic("copy_from_slice: source slice length does not match destination slice length")
    E.deref_write(st, d, E.deref_read(st, s))
    return UNIT


@model("core::slice::<impl [T]>::fill")
def _(E, st, c):
    d = unwrap_ptr(c.args[0])
    E.deref_write(st, d, Seq((("R", c.args[1], d.m[2]),)))
    return UNIT


@model("core::slice::<impl [T]>::reverse")
def _(E, st, c):
    d = unwrap_ptr(c.args[0])
    E.deref_write(st, d, rev_seq(st, E.deref_read(st, d)))
    return UNIT


def rev_seq(st, s):
    out = []
    for x in s.s:
        if x[0] != "E" and x[0] != "R":
            raise Unsup("reverse symbolic")
        out.insert(0, ("E", x[1][::-1]) if x[0] == "E" else x)
    return Seq(out)


@model("core::slice::<impl [T]>::split_at", "core::slice::<impl [T]>::split_at_mut", "core::slice::<impl [T]>::split_at_unchecked",
       "core::slice::<impl [T]>::split_at_mut_unchecked")
def _(E, st, c):
    p = unwrap_ptr(c.args[0])
    i = u(E, st, c.args[1])
    if not le(st.F, i, p.m[2]):
        raise Panic("split_at: mid > len")
    return Agg([sptr(p, L(0), i), sptr(p, i, lsub(p.m[2], i))])


@model("core::slice::<impl [T]>::split_at_checked", "core::slice::<impl [T]>::split_at_mut_checked")
def _(E, st, c):
    p = unwrap_ptr(c.args[0])
    i = u(E, st, c.args[1])
    if not le(st.F, i, p.m[2]):
        return NONE()
    return SOME(Agg([sptr(p, L(0), i), sptr(p, i, lsub(p.m[2], i))]))


@model("alloc::slice::<impl [T]>::to_vec", "alloc::slice::<impl alloc::borrow::ToOwned for [T]>::to_owned",
       "<[T] as alloc::borrow::ToOwned>::to_owned")
def _(E, st, c):
    return VecV(seq_of(E, st, c.args[0]))


@model("alloc::slice::<impl [T]>::into_vec", "alloc::slice::hack::into_vec")
def _(E, st, c):
    return VecV(as_seq(E, st, c.args[0]))


@model("core::slice::<impl [T]>::chunks", "core::slice::<impl [T]>::chunks_exact")
def _(E, st, c):
    p = unwrap_ptr(c.args[0])
    n = u(E, st, c.args[1])
    if seqs.needeq(st.F, n):
        raise Panic("chunk size must be non-zero")
    return Obj("Chunks", p, L(0), n, "exact" if c.cpath.endswith("exact") else "")


@model("core::iter::traits::iterator::Iterator::next", when=self_is("core::slice::iter::Chunks", "core::slice::iter::ChunksExact"))
def _(E, st, c):
    pp = unwrap_ptr(c.args[0])
    o = sub(E, st, pp)
    p, i, n, ex = o.d
    rem = lsub(p.m[2], i)
    if le(st.F, n, rem):
        k = n
    elif ex == "exact" or seqs.needeq(st.F, rem):
        return NONE()
    else:
        k = rem
    E.deref_write(st, pp, Obj("Chunks", p, ladd(i, k), n, ex))
    return SOME(sptr(p, i, k))


# slice equality
@model("core::slice::cmp::<impl core::cmp::PartialEq<[U]> for [T]>::eq",
       "core::str::traits::<impl core::cmp::PartialEq for str>::eq",
       "core::array::equality::<impl core::cmp::PartialEq<[U; N]> for [T; N]>::eq",
       "core::array::equality::<impl core::cmp::PartialEq<[U]> for [T; N]>::eq",
       "core::array::equality::<impl core::cmp::PartialEq<[U; N]> for [T]>::eq",
       "core::array::equality::<impl core::cmp::PartialEq<[U; N]> for &[T]>::eq",
       "core::array::equality::<impl core::cmp::PartialEq<[U; N]> for &mut [T]>::eq",
       "<alloc::string::String as core::cmp::PartialEq>::eq",
       "<alloc::vec::Vec<T, A1> as core::cmp::PartialEq<alloc::vec::Vec<U, A2>>>::eq")
def _(E, st, c):
    a, b = seq_of(E, st, c.args[0]), seq_of(E, st, c.args[1])
    return bool_of(E, st, seqs.eqseq(E, st, a, b), "eq", c)


# ---------------------------------------------------------------- iterators
IT = "core::iter::traits::iterator::Iterator::"
DE = "core::iter::traits::double_ended::DoubleEndedIterator::"
EX = "core::iter::traits::exact_size::ExactSizeIterator::"
ITERS = ("core::slice::iter::Iter", "core::slice::iter::IterMut", "alloc::vec::into_iter::IntoIter", "core::array::iter::IntoIter",
         "alloc::collections::btree::map::Iter", "alloc::collections::btree::map::IntoIter", "alloc::collections::btree::map::Keys",
         "alloc::collections::btree::map::Values", "alloc::collections::btree::set::Iter", "alloc::collections::btree::set::IntoIter",
         "std::collections::hash::map::Iter", "std::collections::hash::map::IntoIter", "std::collections::hash::map::Keys",
         "std::collections::hash::map::Values", "std::collections::hash::set::Iter", "std::collections::hash::set::IntoIter",
         "alloc::vec::drain::Drain")
is_iter = self_is(*ITERS)


def iter_item(E, st, o, i):
    k = o.k
    if k == "SIter":
        return elem_ptr(o.d[0], i)
    if k == "VIter":
        return seqs.get(E, st, o.d[0], i)
    if k == "MIter":
        p, how = o.d[0], o.d[3]
        base = p.p + ("d0", ("e", i))
        if how == "kv":
            return Agg([Ptr(p.a, base + (0,)), Ptr(p.a, base + (1,))])
        if how == "k":
            return Ptr(p.a, base + (0,))
        if how == "v":
            return Ptr(p.a, base + (1,))
        return Ptr(p.a, base)
    raise Unsup("iterator " + k)


def iter_set(E, st, pp, o, lo, hi):
    E.deref_write(st, pp, Obj(o.k, o.d[0], lo, hi, *o.d[3:]))


@model(IT + "next", when=is_iter)
def _(E, st, c):
    pp = unwrap_ptr(c.args[0])
    o = sub(E, st, pp)
    lo, hi = o.d[1], o.d[2]
    if not lt(st.F, lo, hi):
        return NONE()
    v = iter_item(E, st, o, lo)
    iter_set(E, st, pp, o, st.F.lnorm(laddc(lo, 1)), hi)
    return SOME(v)


@model(DE + "next_back", when=is_iter)
def _(E, st, c):
    pp = unwrap_ptr(c.args[0])
    o = sub(E, st, pp)
    lo, hi = o.d[1], o.d[2]
    if not lt(st.F, lo, hi):
        return NONE()
    v = iter_item(E, st, o, laddc(hi, -1))
    iter_set(E, st, pp, o, lo, st.F.lnorm(laddc(hi, -1)))
    return SOME(v)


@model(IT + "size_hint", when=is_iter)
def _(E, st, c):
    o = sub(E, st, c.args[0])
    n = simp(st.F, mk(64, lsub(o.d[2], o.d[1])))
    return Agg([n, SOME(n)])


@model(IT + "count", when=is_iter)
def _(E, st, c):
    o = c.args[0]
    return simp(st.F, mk(64, lsub(o.d[2], o.d[1])))


@model(EX + "len", when=is_iter)
def _(E, st, c):
    o = sub(E, st, c.args[0])
    return simp(st.F, mk(64, lsub(o.d[2], o.d[1])))


@model("core::slice::iter::Iter::<'a, T>::as_slice")
def _(E, st, c):
    o = sub(E, st, c.args[0])
    return sptr(o.d[0], o.d[1], lsub(o.d[2], o.d[1]))


@model("core::clone::Clone::clone", when=lambda E, c, i: is_iter(E, c, i))
def _(E, st, c):
    return sub(E, st, c.args[0])


GHOST_ITER = {"fold": "fold", "for_each": "for_each", "all": "all", "any": "any", "position": "position", "find": "find",
              "find_map": "find_map", "try_fold": None, "last": "last", "nth": "nth", "collect": None, "map": None}


def _redirect_iter(name):
    def f(E, st, c):
        raise Redirect(E.srv.resolve("models::" + name, [a for a in c.cargs if isinstance(a, int)]), c.args)
    return f


for _n in ("fold", "for_each", "all", "any", "position", "find", "find_map", "last", "nth", "rposition"):
    model(IT + _n, when=is_iter)(_redirect_iter("it_" + _n))


is_zip = self_is("core::iter::adapters::zip::Zip")


@model("core::iter::adapters::zip::Zip::<A, B>::new", "<core::iter::adapters::zip::Zip<A, B> as core::iter::adapters::zip::ZipImpl<A, B>>::new",
       "core::iter::adapters::zip::ZipImpl::new")
def _(E, st, c):
    fs = [f[0] for f in E.ty(c.dty).d["variants"][0]["fields"]]
    if fs[:2] != ["a", "b"]:
        raise Unsup("Zip fields %s" % fs)
    return Agg(list(c.args) + [0] * (len(fs) - 2))


@model(IT + "next", when=is_zip)
def _(E, st, c):
    raise Redirect(E.srv.resolve("models::zip_next", E.ty(c.cargs[0]).d["args"][:2]), c.args)


for _n in ("fold", "for_each", "all", "any", "position", "find", "find_map", "last", "nth"):
    model(IT + _n, when=is_zip)(_redirect_iter("it_" + _n))


@model("core::iter::traits::collect::FromIterator::from_iter", when=self_is("alloc::vec::Vec"))
def _(E, st, c):
    el = E.ty(c.cargs[0]).d["args"][0]
    raise Redirect(E.srv.resolve("models::vec_from_iter", [el, c.cargs[2]]), c.args)


@model("core::iter::traits::collect::Extend::extend", when=self_is("alloc::vec::Vec"))
def _(E, st, c):
    el = E.ty(c.cargs[0]).d["args"][0]
    raise Redirect(E.srv.resolve("models::vec_extend", [el, c.cargs[1], c.cargs[2]]), c.args)


@model("core::iter::traits::collect::IntoIterator::into_iter", when=self_is("alloc::vec::Vec", "array"))
def _(E, st, c):
    s = as_seq(E, st, c.args[0])
    return Obj("VIter", s, L(0), seqs.length(st.F, s))


@model("<&'a alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter",
       "<&'a mut alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter")
def _(E, st, c):
    a, path, s = vec_ptr(E, st, c.args[0])
    p = full_slice(E, st, a, path)
    return Obj("SIter", p, L(0), p.m[2])


@model("core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &'a [T]>::into_iter",
       "core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &'a mut [T]>::into_iter",
       "core::array::<impl core::iter::traits::collect::IntoIterator for &'a [T; N]>::into_iter")
def _(E, st, c):
    p = unwrap_ptr(c.args[0])
    if p.m is None:
        p = Ptr(p.a, p.p, ("s", L(0), slen(E, st, p)))
    return Obj("SIter", p, L(0), p.m[2])


@model("core::array::iter::<impl core::iter::traits::collect::IntoIterator for [T; N]>::into_iter")
def _(E, st, c):
    s = as_seq(E, st, c.args[0])
    return Obj("VIter", s, L(0), seqs.length(st.F, s))


@model("core::iter::traits::collect::IntoIterator::into_iter",
       when=self_is("alloc::collections::btree::map::BTreeMap", "std::collections::hash::map::HashMap",
                    "alloc::collections::btree::set::BTreeSet", "std::collections::hash::set::HashSet"))
def _(E, st, c):
    s = as_seq(E, st, c.args[0])
    return Obj("VIter", s, L(0), seqs.length(st.F, s))


# ---------------------------------------------------------------- Vec
V = "alloc::vec::Vec::<T, A>::"


@model("alloc::vec::Vec::<T>::new", V + "new_in", "alloc::vec::Vec::<T>::new_in")
def _(E, st, c):
    return VecV(Seq())


def note_alloc(E, st, c, n, el):
    st.event("alloc", n, el, c.line, st.frames[-1].inst.name if st.frames else "")


def alloc_size(E, st, el):
    lay = E.ty(el).d["layout"]
    return lay["size"] if lay else 8


def check_capacity(E, st, n, el):
    es = alloc_size(E, st, el)
    if es == 0:
        return
    if not seqs.need(st.F, laddc(lscale(n, -es), (1 << 63) - 1)):
        raise Panic("capacity overflow")


@model("alloc::vec::Vec::<T>::with_capacity", V + "with_capacity_in")
def _(E, st, c):
    n = u(E, st, c.args[0])
    check_capacity(E, st, n, c.cargs[0])
    note_alloc(E, st, c, n, c.cargs[0])
    return VecV(Seq())


@model("alloc::vec::Vec::<T>::try_with_capacity")
def _(E, st, c):
    n = u(E, st, c.args[0])
    note_alloc(E, st, c, n, c.cargs[0])
    return OK(VecV(Seq()))


@model(V + "reserve", V + "reserve_exact", "alloc::string::String::reserve", "alloc::string::String::reserve_exact")
def _(E, st, c):
    n = u(E, st, c.args[1])
    el = c.cargs[0] if "Vec" in c.cpath else None
    if el is not None:
        check_capacity(E, st, n, el)
    note_alloc(E, st, c, n, el)
    return UNIT


@model(V + "try_reserve", V + "try_reserve_exact", "alloc::string::String::try_reserve")
def _(E, st, c):
    n = u(E, st, c.args[1])
    note_alloc(E, st, c, n, c.cargs[0] if "Vec" in c.cpath else None)
    k = st.choice(2, "try_reserve")
    return OK() if k == 0 else ERR(Opq(("tryreserve",), None))


@model("alloc::vec::from_elem", "<T as alloc::vec::spec_from_elem::SpecFromElem>::from_elem")
def _(E, st, c):
    n = u(E, st, c.args[1])
    check_capacity(E, st, n, c.cargs[0])
    note_alloc(E, st, c, n, c.cargs[0])
    if not n[1] and n[0] <= 64:
        return VecV(elems(*([c.args[0]] * n[0])))
    return VecV(seqs.norm(st.F, [("R", c.args[0], n)]))


@model(V + "push", V + "push_within_capacity", V + "push_mut")
def _(E, st, c):
    a, p, s = vec_ptr(E, st, c.args[0])
    vec_set(E, st, a, p, seqs.cat(st.F, s, elems(c.args[1])))
    return UNIT


@model(V + "pop")
def _(E, st, c):
    a, p, s = vec_ptr(E, st, c.args[0])
    n = seqs.length(st.F, s)
    if seqs.needeq(st.F, n):
        return NONE()
    i = laddc(n, -1)
    x = seqs.get(E, st, s, i)
    vec_set(E, st, a, p, seqs.slice_(E, st, s, L(0), i))
    return SOME(x)


@model(V + "len", "alloc::string::String::len")
def _(E, st, c):
    return mk(64, seqs.length(st.F, seq_of(E, st, c.args[0])))


@model(V + "is_empty", "alloc::string::String::is_empty")
def _(E, st, c):
    return compare(st.F, "Eq", mk(64, seqs.length(st.F, seq_of(E, st, c.args[0]))), 0, 64, False)


@model(V + "capacity", "alloc::string::String::capacity")
def _(E, st, c):
    n = seqs.length(st.F, seq_of(E, st, c.args[0]))
    v = memo_var(("cap", repr(unwrap_ptr(c.args[0])), n), 64, False, "cap")
    st.F.assume_ge(lsub(LV(v.vid), n))
    return mk(64, LV(v.vid))


@model(V + "as_slice", V + "as_mut_slice", "<alloc::vec::Vec<T, A> as core::ops::deref::Deref>::deref",
       "<alloc::vec::Vec<T, A> as core::ops::deref::DerefMut>::deref_mut", "alloc::string::String::as_str",
       "alloc::string::String::as_mut_str",
       "alloc::string::String::as_bytes", "<alloc::string::String as core::ops::deref::Deref>::deref",
       "<alloc::string::String as core::ops::deref::DerefMut>::deref_mut",
       "<alloc::vec::Vec<T, A> as core::convert::AsRef<[T]>>::as_ref", "<alloc::string::String as core::convert::AsRef<[u8]>>::as_ref",
       "<alloc::string::String as core::convert::AsRef<str>>::as_ref",
       "<alloc::vec::Vec<T, A> as core::borrow::Borrow<[T]>>::borrow", "<alloc::vec::Vec<T, A> as core::convert::AsMut<[T]>>::as_mut",
       "<alloc::string::String as core::borrow::Borrow<str>>::borrow")
def _(E, st, c):
    a, p, s = vec_ptr(E, st, c.args[0])
    return full_slice(E, st, a, p)


@model("<alloc::vec::Vec<T, A> as core::ops::index::Index<I>>::index",
       "<alloc::vec::Vec<T, A> as core::ops::index::IndexMut<I>>::index_mut",
       "<alloc::string::String as core::ops::index::Index<I>>::index",
       "<alloc::string::String as core::ops::index::IndexMut<I>>::index_mut")
def _(E, st, c):
    a, path, s = vec_ptr(E, st, c.args[0])
    p = full_slice(E, st, a, path)
    it = E.ty(c.atys[1]) if c.atys else None
    if it is None:
        raise Unsup("index type")
    if E.int_info(it.id):
        i = u(E, st, c.args[1])
        if not lt(st.F, i, p.m[2]):
            raise Panic("index out of bounds")
        return elem_ptr(p, i)
    c2 = type(c)()
    c2.args, c2.cargs = c.args, [it.id, "String" in (c.cpath or "") or 0]
    r = index_range(E, st, c2, c.args[1], p.m[2])
    if r is None:
        raise Panic("slice index out of range")
    if E.ty(c.cargs[0]).d.get("path") == "alloc::string::String":
        check_boundary(E, st, p, r)
    return sptr(p, *r)


@model(V + "as_ptr", V + "as_mut_ptr")
def _(E, st, c):
    a, p, s = vec_ptr(E, st, c.args[0])
    return Ptr(a, p + ("vec", ("e", L(0))), None)


@model(V + "set_len")
def _(E, st, c):
    a, p, s = vec_ptr(E, st, c.args[0])
    n = u(E, st, c.args[1])
    cur = seqs.length(st.F, s)
    if le(st.F, n, cur):
        vec_set(E, st, a, p, seqs.slice_(E, st, s, L(0), n))
    else:
        vec_set(E, st, a, p, seqs.cat(st.F, s, Seq((("R", UNDEF, lsub(n, cur)),))))
    return UNIT


@model(V + "extend_from_slice", "alloc::string::String::push_str", V + "extend_from_slice_copy")
def _(E, st, c):
    a, p, s = vec_ptr(E, st, c.args[0])
    vec_set(E, st, a, p, seqs.cat(st.F, s, seq_of(E, st, c.args[1])))
    return UNIT


@model(V + "append")
def _(E, st, c):
    a, p, s = vec_ptr(E, st, c.args[0])
    a2, p2, s2 = vec_ptr(E, st, c.args[1])
    vec_set(E, st, a, p, seqs.cat(st.F, s, s2))
    vec_set(E, st, a2, p2, Seq())
    return UNIT


@model(V + "resize")
def _(E, st, c):
    a, p, s = vec_ptr(E, st, c.args[0])
    n = u(E, st, c.args[1])
    cur = seqs.length(st.F, s)
    if le(st.F, n, cur):
        vec_set(E, st, a, p, seqs.slice_(E, st, s, L(0), n))
    else:
        note_alloc(E, st, c, lsub(n, cur), c.cargs[0])
        check_capacity(E, st, n, c.cargs[0])
        d = lsub(n, cur)
        new = elems(*([c.args[2]] * d[0])) if not d[1] and d[0] <= 64 else Seq((("R", c.args[2], d),))
        vec_set(E, st, a, p, seqs.cat(st.F, s, new))
    return UNIT


@model(V + "truncate", "alloc::string::String::truncate")
def _(E, st, c):
    a, p, s = vec_ptr(E, st, c.args[0])
    n = u(E, st, c.args[1])
    if le(st.F, n, seqs.length(st.F, s)):
        vec_set(E, st, a, p, seqs.slice_(E, st, s, L(0), n))
    return UNIT


@model(V + "clear", "alloc::string::String::clear")
def _(E, st, c):
    a, p, s = vec_ptr(E, st, c.args[0])
    vec_set(E, st, a, p, Seq())
    return UNIT


@model(V + "insert")
def _(E, st, c):
    a, p, s = vec_ptr(E, st, c.args[0])
    i = u(E, st, c.args[1])
    if not le(st.F, i, seqs.length(st.F, s)):
        raise Panic("insertion index out of range")
    x, y = seqs.split(E, st, s, i)
    vec_set(E, st, a, p, seqs.cat(st.F, x, elems(c.args[2]), y))
    return UNIT


@model(V + "remove", V + "swap_remove")
def _(E, st, c):
    a, p, s = vec_ptr(E, st, c.args[0])
    i = u(E, st, c.args[1])
    if not lt(st.F, i, seqs.length(st.F, s)):
        raise Panic("removal index out of range")
    v = seqs.get(E, st, s, i)
    vec_set(E, st, a, p, seqs.splice(E, st, s, i, L(1), Seq()))
    return v


@model(V + "split_off")
def _(E, st, c):
    a, p, s = vec_ptr(E, st, c.args[0])
    i = u(E, st, c.args[1])
    if not le(st.F, i, seqs.length(st.F, s)):
        raise Panic("split_off index out of range")
    x, y = seqs.split(E, st, s, i)
    vec_set(E, st, a, p, x)
    return VecV(y)


@model(V + "drain")
def _(E, st, c):
    a, p, s = vec_ptr(E, st, c.args[0])
    cc = c
    t = E.ty(c.cargs[2]) if len(c.cargs) > 2 else None
    if t is not None and t.d.get("path", "").endswith("RangeFull"):
        vec_set(E, st, a, p, Seq())
        return Obj("VIter", s, L(0), seqs.length(st.F, s))
    raise Unsup("Vec::drain")


@model(V + "into_boxed_slice", "alloc::string::String::into_boxed_str")
def _(E, st, c):
    return Obj("Box", as_seq(E, st, c.args[0]))


@model("alloc::string::String::into_bytes", "alloc::str::<impl str>::into_boxed_bytes", V + "shrink_to_fit")
def _(E, st, c):
    if c.cpath.endswith("fit"):
        return UNIT
    return VecV(as_seq(E, st, c.args[0]))


def clonable(E, c, i):
    t = selfty(E, c)
    return t.k == "adt" and t.d["path"] in ("alloc::vec::Vec", "alloc::string::String", "alloc::boxed::Box",
                                            "alloc::collections::btree::map::BTreeMap", "std::collections::hash::map::HashMap") \
        or t.k in ("array", "int")


@model("core::clone::Clone::clone", when=clonable)
def _(E, st, c):
    return sub(E, st, c.args[0])


@model("core::convert::From::from", when=self_is("alloc::vec::Vec"))
def _(E, st, c):
    t = E.ty(c.cargs[1])
    if t.k == "adt" and t.d["path"] == "alloc::vec::Vec":
        return c.args[0]
    if t.k in ("array",) or t.k == "ptr" or (t.k == "adt" and t.d["path"] in ("alloc::boxed::Box", "alloc::string::String")):
        return VecV(as_seq(E, st, c.args[0]))
    raise Unsup("Vec::from " + t.name)


@model("core::convert::From::from", "alloc::borrow::ToOwned::to_owned", "core::str::traits::FromStr::from_str",
       "alloc::string::ToString::to_string",
       when=lambda E, c, i: selfty(E, c) is not None and ((selfty(E, c).d.get("path") == "alloc::string::String" and "From::from" in c.cpath)
                                                          or (selfty(E, c).k == "str")
                                                          or (selfty(E, c).d.get("path") == "alloc::string::String" and c.cpath.endswith("to_string"))))
def _(E, st, c):
    if c.cpath.endswith("From::from"):
        t = E.ty(c.cargs[1])
        if t.k == "char":
            return Agg([VecV(encode_char(E, st, c.args[0]))])
    return Agg([VecV(as_seq(E, st, c.args[0]))])


# ---------------------------------------------------------------- strings
def encode_char(E, st, ch):
    """UTF-8 bytes of a char (forks over the four lengths)"""
    F = st.F
    l = lin_of(F, ch, 32, False)
    n = None
    for k, (lo, hi) in enumerate(((0, 0x7F), (0x80, 0x7FF), (0x800, 0xFFFF), (0x10000, 0x10FFFF))):
        if le(F, l, L(hi)):
            n = k + 1
            break
    if n is None:
        raise Unsup("char out of range")
    b = bits_of(F, ch, 32)
    c6 = lambda i: from_bits(F, b[6 * i:6 * i + 6] + (0, 1))
    if n == 1:
        return elems(from_bits(F, b[:7] + (0,)))
    if n == 2:
        return elems(from_bits(F, b[6:11] + (0, 1, 1)), c6(0))
    if n == 3:
        return elems(from_bits(F, b[12:16] + (0, 1, 1, 1)), c6(1), c6(0))
    return elems(from_bits(F, b[18:21] + (0, 1, 1, 1, 1)), c6(2), c6(1), c6(0))


def utf8_status(E, st, seq):
    """True / False / None"""
    F = st.F
    segs = seqs.norm(F, seq.s).s
    key = ("utf8", segs)
    if key in F.misc:
        return F.misc[key]
    ok = True
    for s in segs:
        if s[0] == "S" and isinstance(s[1], tuple) and s[1][0] == "str":
            n = MEMO.get(("len", s[1]))
            if n is not None and F.eq0(s[2]) is True and F.eq0(lsub(s[3], LV(n.vid))) is True:
                continue
            ok = None
        elif s[0] == "E":
            r = utf8_elems(E, st, list(s[1]))
            if r is False:
                return False
            if r is None:
                ok = None
        elif s[0] == "R" and isinstance(s[1], int) and s[1] < 0x80:
            continue
        else:
            ok = None
    return ok


def utf8_elems(E, st, bs):
    F = st.F
    i = 0
    while i < len(bs):
        b = bs[i]
        if isinstance(b, Cnd):
            return None
        bits = bits_of(F, b, 8)
        top = bits[::-1]
        if top[0] == 0:
            i += 1
            continue
        if top[:3] == (1, 1, 0):
            n, lo, hi, lead = 2, 0x80, 0x7FF, bits[:5]
        elif top[:4] == (1, 1, 1, 0):
            n, lo, hi, lead = 3, 0x800, 0xFFFF, bits[:4]
        elif top[:5] == (1, 1, 1, 1, 0):
            n, lo, hi, lead = 4, 0x10000, 0x10FFFF, bits[:3]
        elif any(x >= 2 for x in top[:5]):
            return None
        else:
            return False
        if i + n > len(bs):
            return None if i + n > len(bs) else None
        code = ()
        for j in range(n - 1, 0, -1):
            cb = bits_of(F, bs[i + j], 8)
            if cb[6:] != (0, 1):
                return None if any(x >= 2 for x in cb[6:]) else False
            code += cb[:6]
        code += lead
        code += (0,) * (32 - len(code))
        l = lin_of(F, from_bits(F, code), 32, False)
        if not F.ge0(laddc(l, -lo)) or not F.ge0(laddc(lscale(l, -1), hi)):
            return None
        if n == 3 and not (F.ge0(laddc(l, -0xE000)) or F.ge0(laddc(lscale(l, -1), 0xD7FF))):
            return None
        i += n
    return True


def check_utf8(E, st, seq):
    r = utf8_status(E, st, seq)
    if r is None:
        key = ("utf8", seqs.norm(st.F, seq.s).s)

        def alt(v):
            def f(s):
                s.F.misc[key] = v
                return True
            return f
        raise Fork([alt(True), alt(False)], "utf8")
    return r


@model("core::str::converts::from_utf8", "core::str::<impl str>::from_utf8", "core::str::converts::from_utf8_mut")
def _(E, st, c):
    p = unwrap_ptr(c.args[0])
    if check_utf8(E, st, E.deref_read(st, p)):
        return OK(p)
    return ERR(Opq(("utf8err",), None))


@model("alloc::string::String::from_utf8")
def _(E, st, c):
    s = as_seq(E, st, c.args[0])
    if check_utf8(E, st, s):
        return OK(Agg([VecV(s)]))
    return ERR(Opq(("utf8err", fresh_id()), None))


@model("alloc::string::String::from_utf8_lossy")
def _(E, st, c):
    p = unwrap_ptr(c.args[0])
    if check_utf8(E, st, E.deref_read(st, p)):
        return Agg([p], 0)
    return Agg([Agg([VecV(E.opq_seq(st, ("lossy", fresh_id()), None, True))])], 1)


@model("core::str::converts::from_utf8_unchecked", "core::str::converts::from_utf8_unchecked_mut", "core::str::<impl str>::as_bytes",
       "core::str::<impl str>::as_bytes_mut")
def _(E, st, c):
    return unwrap_ptr(c.args[0])


@model("core::str::<impl str>::chars")
def _(E, st, c):
    p = unwrap_ptr(c.args[0])
    return Agg([Obj("SIter", p, L(0), p.m[2])])


def char_last(E, st, c, o):
    p, lo, hi = o.d
    F = st.F
    if not lt(F, lo, hi):
        return None
    seq = E.deref_read(st, p)
    mid = seqs.split(E, st, seqs.split(E, st, seq, hi)[0], lo)[1]
    s = mid.s[-1]
    if s[0] == "E":
        n = 1
        code = ()
        while True:
            if n > len(s[1]):
                raise Unsup("char across segments")
            b = bits_of(F, s[1][-n], 8)
            for i in (7, 6, 5, 4):
                if b[i] >= 2:
                    raise Fork([lambda st, a=b[i]: st.F.assume_atom(a, 0), lambda st, a=b[i]: st.F.assume_atom(a, 1)], "char")
                if b[i] == 0:
                    break
            if b[7] == 1 and b[6] == 0:
                code += b[:6]
                n += 1
                continue
            code += b[:7] if b[7] == 0 else b[:5] if b[5] == 0 else b[:4] if b[4] == 0 else b[:3]
            break
        return from_bits(F, code + (0,) * (32 - len(code))), L(n)
    key = ("chrback", s[1], F.lnorm(ladd(s[2], s[3])))
    v = memo_var(key, 32, False, "char", 0, 0x10FFFF)
    nv = memo_var(("chrlen",) + key, 64, False, "charlen", 1, 4)
    if not F.assume_ge(lsub(lsub(hi, lo), LV(nv.vid))):
        raise Stop()
    return Sc(32, None, LV(v.vid)), LV(nv.vid)


@model("core::iter::traits::double_ended::DoubleEndedIterator::next_back", when=self_is("core::str::iter::Chars"))
def _(E, st, c):
    pp = unwrap_ptr(c.args[0])
    o = sub(E, st, pp).f[0]
    r = char_last(E, st, c, o)
    if r is None:
        return NONE()
    E.deref_write(st, pp, Agg([Obj("SIter", o.d[0], o.d[1], lsub(o.d[2], r[1]))]))
    return SOME(r[0])


@model(IT + "last", when=self_is("core::str::iter::Chars"))
def _(E, st, c):
    r = char_last(E, st, c, c.args[0].f[0])
    return NONE() if r is None else SOME(r[0])


@model(IT + "next", when=self_is("core::str::iter::Chars"))
def _(E, st, c):
    pp = unwrap_ptr(c.args[0])
    o = sub(E, st, pp).f[0]
    p, lo, hi = o.d
    F = st.F
    if not lt(F, lo, hi):
        return NONE()
    seq = E.deref_read(st, p)
    _l, r = seqs.split(E, st, seq, lo)
    s = r.s[0]
    if s[0] == "E":
        b0 = bits_of(F, s[1][0], 8)
        for i in (7, 5, 4):
            if i == 7 and b0[7] == 0:
                n = 1
                break
            if b0[i] >= 2:
                raise Fork([lambda st, a=b0[i]: st.F.assume_atom(a, 0), lambda st, a=b0[i]: st.F.assume_atom(a, 1)], "char")
            if i == 5 and b0[5] == 0:
                n = 2
                break
            if i == 4:
                n = 4 if b0[4] else 3
        if n == 1:
            code = b0[:7]
        else:
            if len(s[1]) < n:
                raise Unsup("char across segments")
            code = ()
            for j in range(n - 1, 0, -1):
                code += bits_of(F, s[1][j], 8)[:6]
            code += b0[:7 - n]
        ch = from_bits(F, code + (0,) * (32 - len(code)))
        adv = L(n)
    else:
        key = ("chr", s[1], F.lnorm(s[2]))
        v = memo_var(key, 32, False, "char", 0, 0x10FFFF)
        nv = memo_var(("chrlen",) + key[1:], 64, False, "charlen", 1, 4)
        ch = Sc(32, None, LV(v.vid))
        adv = LV(nv.vid)
        if not F.assume_ge(lsub(lsub(hi, lo), adv)):
            raise Stop()
    E.deref_write(st, pp, Agg([Obj("SIter", p, ladd(lo, adv), hi)]))
    return SOME(ch)


@model("core::char::methods::<impl char>::encode_utf8")
def _(E, st, c):
    s = encode_char(E, st, c.args[0])
    n = seqs.length(st.F, s)
    p = unwrap_ptr(c.args[1])
    if not le(st.F, n, p.m[2]):
        raise Panic("encode_utf8: buffer too small")
    q = sptr(p, L(0), n)
    E.deref_write(st, q, s)
    return q


@model("core::char::methods::<impl char>::len_utf8")
def _(E, st, c):
    return seqs.length(st.F, encode_char(E, st, c.args[0]))[0]


@model("alloc::string::String::push")
def _(E, st, c):
    a, p, s = vec_ptr(E, st, c.args[0])
    vec_set(E, st, a, p, seqs.cat(st.F, s, encode_char(E, st, c.args[1])))
    return UNIT


@model("alloc::string::ToString::to_string", "alloc::string::SpecToString::spec_to_string", when=self_is("char"))
def _(E, st, c):
    return Agg([VecV(encode_char(E, st, sub(E, st, c.args[0])))])


@model("alloc::string::ToString::to_string", "alloc::fmt::format", "alloc::fmt::format::format_inner")
def _(E, st, c):
    return Agg([VecV(E.opq_seq(st, ("fmt", fresh_id()), None, True))])


@model("core::fmt::Arguments::<'a>::new", "core::fmt::Arguments::<'a>::new_const", "core::fmt::Arguments::<'a>::from_str",
       "core::fmt::Arguments::<'a>::from_str_nonconst", "core::fmt::rt::<impl core::fmt::Arguments<'a>>::new_const",
       "core::fmt::rt::<impl core::fmt::Arguments<'a>>::new_v1")
def _(E, st, c):
    return Opq(("fmtargs",), c.dty)


@model("core::fmt::Arguments::<'a>::as_str", "core::fmt::Arguments::<'a>::as_statically_known_str")
def _(E, st, c):
    return NONE()


def _fmtarg(E, c, inst):
    if inst is not None and (inst.path.startswith("core::fmt::rt::") or inst.path.startswith("core::fmt::Arguments")):
        return lambda E, st, c: Opq(("fmtarg",), c.dty)
    return None


PRE.append(_fmtarg)


# ---------------------------------------------------------------- Box
@model("alloc::boxed::Box::<T>::new", "alloc::boxed::box_new")
def _(E, st, c):
    return Obj("Box", c.args[0])


@model("alloc::boxed::Box::<T>::new_uninit")
def _(E, st, c):
    return Obj("Box", UNDEF)


def unwrap_uninit(v):
    """the contents of an initialised MaybeUninit (union, ManuallyDrop)"""
    while isinstance(v, Agg) and not v.v and v.f and v.f[-1] is not UNDEF:
        v = v.f[-1]
    return v


@model("alloc::boxed::box_assume_init_into_vec_unsafe")
def _(E, st, c):
    v = unwrap_uninit(c.args[0].d[0])
    if not isinstance(v, Seq):
        raise Unsup("vec! of %r" % (v,))
    return VecV(v)


@model("<alloc::boxed::Box<T, A> as core::ops::deref::Deref>::deref", "<alloc::boxed::Box<T, A> as core::ops::deref::DerefMut>::deref_mut",
       "<alloc::boxed::Box<T, A> as core::convert::AsRef<T>>::as_ref", "<alloc::boxed::Box<T, A> as core::borrow::Borrow<T>>::borrow")
def _(E, st, c):
    p = unwrap_ptr(c.args[0])
    v = E.walk(st, p.a, p.p)
    if isinstance(v, Opq):
        v = E.expand(st, v)
        E.write(st, p.a, p.p, None, v)
    q = Ptr(p.a, p.p + ("box",), None)
    if isinstance(v.d[0], Seq):
        return Ptr(q.a, q.p, ("s", L(0), seqs.length(st.F, v.d[0])))
    if len(v.d) > 1 and v.d[1] is not None:
        return Ptr(q.a, q.p, v.d[1])
    return q


@model("core::convert::From::from", when=self_is("alloc::boxed::Box"))
def _(E, st, c):
    t = E.ty(c.cargs[1])
    if t.k == "adt" and t.d["path"] in ("alloc::vec::Vec", "alloc::string::String") or t.k == "ptr":
        try:
            return Obj("Box", as_seq(E, st, c.args[0]))
        except Unsup:
            pass
    return Obj("Box", c.args[0])


# ---------------------------------------------------------------- maps
MAPS = ("alloc::collections::btree::map::BTreeMap", "std::collections::hash::map::HashMap",
        "alloc::collections::btree::set::BTreeSet", "std::collections::hash::set::HashSet")


def mapmeth(c):
    return c.cpath.split("::")[-1]


def map_new(E, st, c):
    return Obj("Map", Seq())


def map_obj(E, st, p):
    p = unwrap_ptr(p)
    v = E.walk(st, p.a, p.p)
    if isinstance(v, Opq):
        v = E.expand(st, v)
    if not (isinstance(v, Obj) and v.k == "Map"):
        raise Unsup("not a map: %r" % (v,))
    return p, v


def map_insert(E, st, c):
    p, v = map_obj(E, st, c.args[0])
    is_set = len(c.args) == 2
    item = c.args[1] if is_set else Agg([c.args[1], c.args[2]])
    E.write(st, p.a, p.p, None, Obj("Map", seqs.cat(st.F, v.d[0], elems(item))))
    st.flags["map_insert"] = True
    return 1 if is_set else NONE()


def map_len(E, st, c):
    p, v = map_obj(E, st, c.args[0])
    return mk(64, seqs.length(st.F, v.d[0]))


def map_is_empty(E, st, c):
    p, v = map_obj(E, st, c.args[0])
    return compare(st.F, "Eq", mk(64, seqs.length(st.F, v.d[0])), 0, 64, False)


def map_iter(how):
    def f(E, st, c):
        p, v = map_obj(E, st, c.args[0])
        return Obj("MIter", p, L(0), seqs.length(st.F, v.d[0]), how)
    return f


for _m, _f in (("new", map_new), ("with_capacity", None), ("insert", map_insert), ("len", map_len), ("is_empty", map_is_empty),
               ("iter", map_iter("kv")), ("keys", map_iter("k")), ("values", map_iter("v")), ("with_hasher", map_new),
               ("with_capacity_and_hasher", None), ("default", map_new)):
    if _f is None:
        def _f(E, st, c):
            n = u(E, st, c.args[0])
            note_alloc(E, st, c, n, None)
            return Obj("Map", Seq())
    for _pre in ("alloc::collections::btree::map::BTreeMap::<K, V>::", "alloc::collections::btree::map::BTreeMap::<K, V, A>::",
                 "std::collections::hash::map::HashMap::<K, V>::", "std::collections::hash::map::HashMap::<K, V, S>::",
                 "std::collections::hash::map::HashMap::<K, V, S, A>::",
                 "alloc::collections::btree::map::BTreeMap::<K, V, A>::", "std::collections::HashMap::<K, V, S>::"):
        model(_pre + _m)(_f)
    for _pre in ("alloc::collections::btree::set::BTreeSet::<T>::", "alloc::collections::btree::set::BTreeSet::<T, A>::",
                 "std::collections::hash::set::HashSet::<T>::", "std::collections::hash::set::HashSet::<T, S>::"):
        model(_pre + _m)(map_iter("item") if _m == "iter" else _f)


@model("core::default::Default::default", when=self_is(*MAPS))
def _(E, st, c):
    return Obj("Map", Seq())


@model("core::default::Default::default", when=self_is("std::hash::random::RandomState"))
def _(E, st, c):
    return Opq(("hasher",), c.dty)


@model("core::iter::traits::collect::FromIterator::from_iter", when=self_is(*MAPS[:2]))
def _(E, st, c):
    t = E.ty(c.cargs[0])
    n = "map_from_iter" if "btree" in t.d["path"] else "hmap_from_iter"
    raise Redirect(E.srv.resolve("models::" + n, [t.d["args"][0], t.d["args"][1], c.cargs[2]]), c.args)


# ---------------------------------------------------------------- opaque ADTs
def opq_vec(E, st, o, t):
    return VecV(E.opq_seq(st, o.t, t.d["args"][0]))


def opq_string(E, st, o, t):
    return Agg([VecV(E.opq_seq(st, o.t, None, utf8=True))])


def opq_box(E, st, o, t):
    el = E.ty(t.d["args"][0])
    if el.k in ("slice", "str"):
        return Obj("Box", E.opq_seq(st, o.t, el.d.get("elem"), utf8=el.k == "str"))
    return Obj("Box", Opq(("deref", o.t), t.d["args"][0]))


def opq_map(E, st, o, t):
    src = ("map", o.t)
    n = memo_var(("len", src), 64, False, "len(%s)" % show_term(o.t), 0, E.longest(*[a for a in t.d["args"] if isinstance(a, int)][:2]))
    E.maptys[src] = tuple(a for a in t.d["args"] if isinstance(a, int))[:2]
    return Obj("Map", Seq((("S", src, L(0), LV(n.vid)),)))


def opq_set(E, st, o, t):
    src = ("seq", o.t)
    E.srcty[src] = t.d["args"][0]
    n = memo_var(("len", src), 64, False, "len(%s)" % show_term(o.t), 0, E.longest(t.d["args"][0]))
    return Obj("Map", Seq((("S", src, L(0), LV(n.vid)),)))


def keep(E, st, o, t):
    raise Unsup("opaque %s" % t.name)


OPAQUE = {
    "alloc::vec::Vec": opq_vec,
    "alloc::string::String": opq_string,
    "alloc::boxed::Box": opq_box,
    MAPS[0]: opq_map, MAPS[1]: opq_map, MAPS[2]: opq_set, MAPS[3]: opq_set,
    "core::io::error::Error": keep, "std::io::error::Error": keep,
    "ghost::stub::Tk": keep,
}


def field_vec(E, st, v, i, a, p):
    """raw parts of a Vec, as seen by std code inlined into std code"""
    if i == 1:
        return mk(64, seqs.length(st.F, v.d[0]))
    ptr = Ptr(a, p + ("vec", ("e", L(0))))
    cap = Sc(64, None, LV(memo_var(("cap", repr((a, p))), 64, False, "cap").vid))
    return Agg([Agg([Agg([Agg([ptr]), UNIT]), Agg([cap]), UNIT]), UNIT])


FIELD = {"Vec": field_vec}


def const_vec(E, b, prov, off, t):
    """a constant Vec is empty (const fn cannot allocate)"""
    return VecV(Seq())


def const_string(E, b, prov, off, t):
    return Agg([VecV(Seq())])


def const_map(E, b, prov, off, t):
    return Obj("Map", Seq())


CONST = {
    "alloc::vec::Vec": const_vec,
    "alloc::string::String": const_string,
    MAPS[0]: const_map, MAPS[2]: const_map,
}


# ---------------------------------------------------------------- io: errors
def _ioerr(E, c, inst):
    if inst is None:
        return None
    p = inst.path
    if "io::error::Error" in p or "io::error::ErrorKind" in p or p.startswith("core::io::error::") or p.startswith("std::io::error::"):
        if p.endswith("::new") or p.endswith("::other") or "::new::" in p or "From<" in p and p.endswith("::from"):
            return lambda E, st, c: ioerr("user", repr(c.args[0]))
        if p.endswith("::kind"):
            return io_kind
    return None


PRE.append(_ioerr)


def io_kind(E, st, c):
    v = sub(E, st, c.args[0])
    t = E.ty(c.dty)
    names = [x["name"] for x in t.d["variants"]]
    term = v.d[0] if isinstance(v, Obj) else ("x",)
    if term[:2] == ("ioerr", "eof"):
        return Agg((), names.index("UnexpectedEof"))
    # a call that was only interrupted is not a failure: readers and writers here do not report that
    key = ("iokind", term)
    if key not in st.F.misc:
        st.F.misc[key] = names.index(KINDS[st.choice(len(KINDS), "kind")])
    return Agg((), st.F.misc[key])


KINDS = ("Other", "WouldBlock", "TimedOut", "UnexpectedEof", "BrokenPipe", "InvalidData")


@model("core::io::error::Error::is_interrupted")
def _(E, st, c):
    return 0


# ---------------------------------------------------------------- io: reading
RD = "alloc::io::read::Read::"


def is_src(E, tid):
    t = E.ty(tid)
    return t.k == "adt" and t.d["path"].endswith("stub::Src")


def is_sink(E, tid):
    t = E.ty(tid)
    return t.k == "adt" and t.d["path"].endswith("stub::Sink")


def rd_base(E, st, p, tid):
    """resolve a reader through &mut and Take down to a Src; list of Take limit pointers"""
    lims = []
    p = unwrap_ptr(p)
    for _ in range(8):
        t = E.ty(tid)
        if is_src(E, tid):
            return p, lims
        if t.k == "ptr":
            tid = t.d["to"]
            p = unwrap_ptr(E.deref_read(st, p))
            continue
        if t.k == "adt" and t.d["path"].endswith("::Take"):
            fs = t.d["variants"][0]["fields"]
            idx = {f[0]: i for i, f in enumerate(fs)}
            ii, li = idx["inner"], idx["limit"]
            lims.append(Ptr(p.a, p.p + (li,)))
            p = Ptr(p.a, p.p + (ii,))
            tid = fs[ii][1]
            continue
        return None, None
    return None, None


def rd_self(E, c, inst):
    t = selfty(E, c)
    tid = c.cargs[0]
    for _ in range(8):
        t = E.ty(tid)
        if is_src(E, tid):
            return True
        if t.k == "ptr":
            tid = t.d["to"]
        elif t.k == "adt" and t.d["path"].endswith("::Take"):
            fs = t.d["variants"][0]["fields"]
            tid = [f[1] for f in fs if f[0] == "inner"][0]
        else:
            return False
    return False


def remaining(E, st):
    """length of the remaining input as lin, or None when not expressible"""
    try:
        return seqs.length(st.F, st.src)
    except Unsup:
        return None


def may_fault(st, tag):
    if st.mode.get("rfault") and not st.flags.get("rfault"):
        if st.choice(2, "rfault:" + tag):
            if st.mode["rfault"] != "again":
                st.flags["rfault"] = True
            return True
    return False


def progress(st):
    """at least one byte of the input has been read"""
    st.flags["prog"] = st.flags["prog0"] = True


def src_take(E, st, n):
    """take exactly n bytes off the input, or None if there are fewer (consuming all)"""
    F = st.F
    if st.F.ge0(laddc(n, -1)):
        progress(st)
    if st.flags.get("rdead"):
        st.flags["read_after_fail"] = True
        return None
    st.flags["nreads"] = st.flags.get("nreads", 0) + 1
    rem = remaining(E, st)
    if rem is not None:
        if not le(F, n, rem):
            st.src = Seq()
            st.flags["eof"] = True
            return None
        if F.eq0(n) is True:
            return Seq()
        a, b = seqs.split(E, st, st.src, n)
        st.src = b
        st.flags["used"] = ladd(st.flags.get("used", L(0)), n)
        return a
    # families of unknown length: only bounded prefixes can be taken
    if F.eq0(n) is True:
        return Seq()
    try:
        a, b = seqs.split(E, st, st.src, n)
    except Unsup as e:
        if "past the end" in str(e):
            st.src = Seq()
            st.flags["eof"] = True
            return None
        raise
    st.src = b
    return a


BUFRD = "BufReader"


def buf_self(E, c, inst):
    tid = c.cargs[0]
    for _ in range(8):
        t = E.ty(tid)
        if t.k == "ptr":
            tid = t.d["to"]
        elif t.k == "adt" and t.d["path"].endswith("::Take"):
            tid = [f[1] for f in t.d["variants"][0]["fields"] if f[0] == "inner"][0]
        elif t.k == "adt" and t.d["path"].endswith("::BufReader"):
            return any(isinstance(a, int) and reads_src(E, a) for a in t.d["args"])
        else:
            return False
    return False


def reads_src(E, tid):
    t = E.ty(tid)
    while t.k == "ptr":
        t = E.ty(t.d["to"])
    return t.k == "adt" and t.d["path"].endswith("stub::Src")


@model("alloc::io::buffered::bufreader::BufReader::<R>::new", "alloc::io::buffered::bufreader::BufReader::<R>::with_capacity",
       "std::io::buffered::bufreader::BufReader::<R>::new", "std::io::buffered::bufreader::BufReader::<R>::with_capacity")
def _(E, st, c):
    t = E.ty(c.dty)
    fs = t.d["variants"][0]["fields"]
    return Agg([c.args[-1] if f[0] == "inner" else Obj("BufR") for f in fs])


@model(RD + "read_exact", RD + "read", RD + "read_to_string", RD + "read_to_end", "std::io::BufRead::fill_buf",
       "alloc::io::buf_read::BufRead::fill_buf", when=buf_self)
def _(E, st, c):
    """a read-ahead buffer asks the reader for a whole buffer at once, whatever follows the value"""
    F = st.F
    if any(s[0] == "T" and s[1] == ("END",) for s in st.src.s):
        raise Desync("a read-ahead buffer takes bytes that follow the value")
    raise Unsup("read-ahead buffer")


@model(RD + "read_exact", when=rd_self)
def _(E, st, c):
    p, lims = rd_base(E, st, c.args[0], c.cargs[0])
    buf = unwrap_ptr(c.args[1])
    if buf.m is None:
        buf = Ptr(buf.a, buf.p, ("s", L(0), slen(E, st, buf)))
    n = buf.m[2]
    if st.F.eq0(n) is True:
        return OK()
    for lp in lims:
        lim = u(E, st, E.deref_read(st, lp))
        if not le(st.F, n, lim):
            st.src = Seq()
            return ERR(ioerr("eof"))
    if may_fault(st, "exact"):
        return ERR(ioerr("fault"))
    d = src_take(E, st, n)
    if d is None:
        return ERR(ioerr("eof"))
    for lp in lims:
        lim = u(E, st, E.deref_read(st, lp))
        E.deref_write(st, lp, mk(64, lsub(lim, n)))
    E.deref_write(st, buf, d)
    return OK()


@model(RD + "read", when=rd_self)
def _(E, st, c):
    p, lims = rd_base(E, st, c.args[0], c.cargs[0])
    buf = unwrap_ptr(c.args[1])
    n = buf.m[2]
    F = st.F
    if may_fault(st, "read"):
        return ERR(ioerr("fault"))
    mx = n
    for lp in lims:
        lim = u(E, st, E.deref_read(st, lp))
        if lt(F, lim, mx):
            mx = lim
    rem = remaining(E, st)
    if rem is None:
        if seqs.needeq(F, mx):
            return OK(0)
        # the run of plain bytes in front of the next whole value
        s = seqs.front(E, st)
        if s is None:
            return OK(0)
        rem = L(0)
        for s in st.src.s:
            if s[0] not in ("E", "S", "R"):
                break
            rem = ladd(rem, seqs.seglen(F, s))
        if lt(F, rem, mx) and (rem == L(0) or st.choice(2, "overread")):
            raise Desync("bytes of the next value are requested")
    if seqs.needeq(F, mx):
        return OK(0)
    if lt(F, rem, mx):
        mx = rem
    if seqs.needeq(F, mx):
        # the end of the input is reported by a count of zero
        st.flags["eof"] = True
        return OK(0)
    # any number of bytes between 1 and mx
    k = memo_var(("short", st.flags.get("nreads", 0), rem, mx), 64, False, "nread", 1)
    if not F.assume_ge(lsub(mx, LV(k.vid))):
        raise Stop()
    if F.eq0(laddc(mx, -1)) is True:
        kl = L(1)
    else:
        kl = LV(k.vid)
    d = src_take(E, st, kl)
    for lp in lims:
        lim = u(E, st, E.deref_read(st, lp))
        E.deref_write(st, lp, mk(64, lsub(lim, kl)))
    E.deref_write(st, sptr(buf, L(0), kl), d)
    return OK(mk(64, kl))


@model(RD + "read_to_string", RD + "read_to_end", when=rd_self)
def _(E, st, c):
    p, lims = rd_base(E, st, c.args[0], c.cargs[0])
    F = st.F
    n = None
    for lp in lims:
        lim = u(E, st, E.deref_read(st, lp))
        if n is None or lt(F, lim, n):
            n = lim
    fault = may_fault(st, "to_end")
    rem = remaining(E, st)
    if n is None:
        if rem is None:
            raise Unsup("read_to_end of structured input")
        n = rem
    elif rem is not None and not le(F, n, rem):
        n = rem
        st.flags["eof"] = True
    d = src_take(E, st, n)
    if d is None:
        return ERR(ioerr("eof"))
    for lp in lims:
        lim = u(E, st, E.deref_read(st, lp))
        E.deref_write(st, lp, mk(64, lsub(lim, n)))
    if fault:
        return ERR(ioerr("fault"))
    st.event("readend", n)
    if c.cpath.endswith("string"):
        if not check_utf8(E, st, d):
            return ERR(ioerr("utf8"))
    a, pp, s = vec_ptr(E, st, c.args[1])
    vec_set(E, st, a, pp, seqs.cat(F, s, d))
    return OK(simp(F, mk(64, n)))


# ---------------------------------------------------------------- io: writing
WR = "core::io::write::Write::"


def wr_self(E, c, inst):
    return is_sink(E, c.cargs[0])


def emit(E, st, data):
    if st.flags.get("wfail"):
        st.flags["write_after_fail"] = True
    st.sink = seqs.cat(st.F, st.sink, data)


@model(WR + "write_all", when=wr_self)
def _(E, st, c):
    d = seq_of(E, st, c.args[1])
    if st.flags.get("wfail"):
        st.flags["write_after_fail"] = True
        return ERR(ioerr("wfault"))
    if st.mode.get("wfault") and st.choice(2, "wfault"):
        st.flags["wfail"] = True
        return ERR(ioerr("wfault"))
    emit(E, st, d)
    return OK()


@model(WR + "write", when=wr_self)
def _(E, st, c):
    d = seq_of(E, st, c.args[1])
    if st.flags.get("wfail"):
        st.flags["write_after_fail"] = True
        return ERR(ioerr("wfault"))
    if st.mode.get("wfault") and st.choice(2, "wfault"):
        st.flags["wfail"] = True
        return ERR(ioerr("wfault"))
    n = seqs.length(st.F, d)
    if seqs.needeq(st.F, n):
        return OK(0)
    # a writer may accept any nonempty prefix
    if st.choice(2, "short") == 0 or st.F.eq0(laddc(n, -1)) is True:
        emit(E, st, d)
        return OK(simp(st.F, mk(64, n)))
    k = memo_var(("nwritten", st.ev, n), 64, False, "nwritten", 1)
    if not st.F.assume_ge(laddc(lsub(n, LV(k.vid)), -1)):
        raise Stop()
    emit(E, st, seqs.split(E, st, d, LV(k.vid))[0])
    st.flags["short_write"] = True
    return OK(mk(64, LV(k.vid)))


@model(WR + "flush", when=wr_self)
def _(E, st, c):
    if st.mode.get("wfault") and not st.flags.get("wfail") and st.choice(2, "flushfault"):
        st.flags["wfail"] = True
        return ERR(ioerr("wfault"))
    return OK()


@model(WR + "write_all", WR + "write", when=self_is("alloc::vec::Vec"))
def _(E, st, c):
    a, p, s = vec_ptr(E, st, c.args[0])
    d = seq_of(E, st, c.args[1])
    vec_set(E, st, a, p, seqs.cat(st.F, s, d))
    return OK() if c.cpath.endswith("all") else OK(mk(64, seqs.length(st.F, d)))


BW = "bufwriter::BufWriter::<W>::"
for _c in ("alloc::io::buffered::", "std::io::buffered::"):
    for _n in ("new", "with_capacity"):
        @model(_c + BW + _n)
        def _(E, st, c, n=_n):
            raise Redirect(E.srv.resolve("models::bufw_" + n, [E.ty(c.dty).d["args"][0]]), c.args)


def bufw_self(E, c, inst):
    t = E.ty(c.cargs[0])
    return t.k == "adt" and t.d["path"].endswith("bufwriter::BufWriter")


for _n in ("write_all", "write", "flush"):
    @model(WR + _n, when=bufw_self)
    def _(E, st, c, n=_n):
        raise Redirect(E.srv.resolve("models::bufw_" + n, [E.ty(c.cargs[0]).d["args"][0]]), c.args)


# ---------------------------------------------------------------- opaque token type Tk
def is_tk(E, c, inst):
    t = selfty(E, c)
    return t is not None and t.k == "adt" and t.d["path"].endswith("stub::Tk")


def find_stream(E, st, v, tid, want, depth=0):
    """locate the Sink/Src/Vec a (de)serializer value of type tid writes to / reads from"""
    if depth > 8:
        return None
    t = E.ty(tid)
    if t.k == "ptr":
        p = unwrap_ptr(v)
        if not isinstance(p, Ptr):
            return None
        tt = E.ty(t.d["to"])
        if tt.k == "adt" and tt.d["path"].endswith("stub::" + want):
            return ("stream", p)
        if tt.k == "adt" and tt.d["path"] == "alloc::vec::Vec" and want == "Sink":
            return ("vec", p)
        try:
            x = E.deref_read(st, p)
        except Unsup:
            return None
        r = find_stream(E, st, x, t.d["to"], want, depth + 1)
        if r is not None and r[0] == "vec" and r[1] is None:
            return ("vec", Ptr(p.a, p.p + r[2]))
        return r
    if t.k == "adt" and t.d["path"].endswith("stub::" + want):
        return ("stream", None)
    if t.k == "adt" and t.d["path"] == "alloc::vec::Vec" and want == "Sink":
        return ("vec", None, ())
    if t.k == "adt" and t.d["adt"] == "struct" and isinstance(v, Agg):
        for i, f in enumerate(t.d["variants"][0]["fields"]):
            r = find_stream(E, st, v.f[i], f[1], want, depth + 1)
            if r is not None:
                if r[0] == "vec" and r[1] is None:
                    return ("vec", None, (i,) + r[2])
                return r
    return None


@model("serde_core::ser::Serialize::serialize", when=is_tk)
def tk_ser(E, st, c):
    v = sub(E, st, c.args[0])
    return emit_token(E, st, c, v.t if isinstance(v, Opq) else ("val", v))


@model("dlhn::header::ser::SerializeHeader::serialize_header", when=is_tk)
def _(E, st, c):
    import rec
    return emit_token(E, st, c, ("hdr", "Tk"), rec.stream(E, st, c, "Sink"))


def emit_token(E, st, c, term, s=None):
    if s is None:
        s = find_stream(E, st, c.args[1], c.cargs[1] if isinstance(c.cargs[1], int) else c.atys[1], "Sink")
    if s is None:
        raise Unsup("token serialized into %s" % E.ty(c.cargs[1]).name)
    tok = Seq((("T", term),))
    if s[0] == "vec":
        a, p, cur = vec_ptr(E, st, s[1])
        vec_set(E, st, a, p, seqs.cat(st.F, cur, tok))
        return OK()
    if st.flags.get("wfail"):
        st.flags["write_after_fail"] = True
    elif st.mode.get("wfault") and st.choice(2, "wfault"):
        st.flags["wfail"] = True
        et = E.ty(c.dty).d["variants"][1]["fields"][0][1]
        return ERR(Opq(("tkerr",), et))
    emit(E, st, tok)
    return OK()


@model("serde_core::de::Deserialize::deserialize", when=is_tk)
def tk_de(E, st, c):
    s = find_stream(E, st, c.args[0], c.cargs[-1] if isinstance(c.cargs[-1], int) else c.atys[0], "Src")
    if s is None:
        if st.mode.get("input") == "any" and E.ty(c.atys[0]).name.startswith("serde::__private") and "::MissingFieldDeserializer<" in E.ty(c.atys[0]).name:
            return ERR(Opq(("tkerr",), [v["fields"][0][1] for v in E.ty(c.dty).d["variants"]][1]))   # nothing is read for a missing field
        raise Unsup("token deserialized from %s" % E.ty(c.atys[0]).name)
    ok, err = (v["fields"][0][1] for v in E.ty(c.dty).d["variants"])
    return take_token(E, st, c, ok, err)


def take_token(E, st, c, ok, err, under=None):
    if st.mode.get("input") == "any":
        if st.flags.get("rdead"):
            st.flags["read_after_fail"] = True
        k = st.choice(2, "tokdec")
        if k == 0:
            if under is None:
                progress(st)            # a component's encoding is not empty (one under a header may be)
            st.src = in_havoc(st)
            return OK(Opq(("dec", fresh_id()), ok))
        st.flags["tokerr"] = True
        if st.choice(2, "tokeof"):
            st.flags["eof"] = True
        return ERR(Opq(("tkerr",), err))
    s = seqs.front(E, st)
    if s is None:
        st.flags["eof"] = True
        return ERR(Opq(("tkerr",), err))
    if s[0] != "T" or s[1] == ("END",):
        raise Desync("a value is decoded where the encoder put %s" % show_seg(s))
    st.src = Seq(st.src.s[1:])
    st.flags["nreads"] = st.flags.get("nreads", 0) + 1
    return OK(Opq(s[1] if under is None or s[1][:1] != ("tok",) else ("body", s[1]), ok))


def in_havoc(st):
    import loops
    return loops.havoc_src(st)


# ---------------------------------------------------------------- maps by reference; harness hooks
model("<&'a alloc::collections::btree::map::BTreeMap<K, V, A> as core::iter::traits::collect::IntoIterator>::into_iter",
      "<&'a std::collections::hash::map::HashMap<K, V, S, A> as core::iter::traits::collect::IntoIterator>::into_iter",
      "<&'a std::collections::hash::map::HashMap<K, V, S> as core::iter::traits::collect::IntoIterator>::into_iter")(map_iter("kv"))
model("<&'a alloc::collections::btree::set::BTreeSet<T, A> as core::iter::traits::collect::IntoIterator>::into_iter",
      "<&'a std::collections::hash::set::HashSet<T, S, A> as core::iter::traits::collect::IntoIterator>::into_iter",
      "<&'a std::collections::hash::set::HashSet<T, S> as core::iter::traits::collect::IntoIterator>::into_iter")(map_iter("item"))


@model("ghost::compound::kind_of", "compound::kind_of")
def _(E, st, c):
    """the kind of the variant an index stands for is fixed by the type"""
    k = st.F.variants.get(("v",))
    return k if k is not None else st.choice(4, "kind")
