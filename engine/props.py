"""The obligations of every property: entry points, oracle, rule."""
import os
import spec, rec
from core import *

TRUSTED = ["rustc nightly front end and MIR construction (optimised MIR of /repo and of its dependencies)",
           "engine/: abstract domain, loop summaries and the models of std functions",
           "engine/spec.py: the documented wire format"]


class Task:
    def __init__(self, name, fn, cost=1, limit=500):
        self.name, self.fn, self.cost, self.limit = name, fn, cost, limit

    def run(self, J):
        self.fn(J)


SCALARS = ["unit", "bool", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64", "usize", "isize", "char"]
SC = spec.SCALARS
STRINGS = ["string", "bytebuf", "boxstr"]


def rt_task(mod, n, cost=1, **kw):
    name = "%s::t_%s" % (mod, n)
    return Task(name, lambda J: J.roundtrip(name, **kw), cost)


COST = {"btreemap": 9, "hashmap": 8, "i64": 4, "isize": 4, "generic": 3, "i32": 2, "vec": 2, "vecu8": 2, "wide": 5, "mixed2": 4, "kinds": 4, "mixed": 3, "bytebuf": 3}


def c(n):
    return COST.get(n, 1)


def p01(tier):
    return [rt_task("scalars", n, c(n)) for n in SCALARS]


def p02(tier):
    return [rt_task("scalars", n, c(n), wire=spec.SCALARS[n], decode=False) for n in SCALARS]


def p03(tier):
    return [rt_task("strings", n, c(n), wire=spec.blob) for n in STRINGS]


def p04(tier):
    return [rt_task("compound", n, c(n)) for n in spec.COMPOUND]


def p05(tier):
    return [rt_task("compound", n, c(n), wire=w, decode=False) for n, w in spec.COMPOUND.items()]


FORMS = {"u16": (2, 3), "i16": (2, 3), "u32": (2, 3, 4, 5), "i32": (2, 3, 4, 5), "bool": (1,), "u8": (1,), "i8": (1,), "f32": (1,), "f64": (1,), "unit": (1,)}


def p26(tier):
    out = []
    for mod, tab in (("scalars", SC), ("strings", {n: spec.blob for n in STRINGS}), ("compound", spec.COMPOUND)):
        for n, w in tab.items():
            name = "%s::t_%s" % (mod, n)
            for f in FORMS.get(n, range(2, 10)):
                out.append(Task("%s/%d" % (name, f), lambda J, name=name, w=w, f=f: J.reads(name, w, f), c(n)))
    for f in (2, 3):
        t = hdr_task(lambda J, f=f: J.reads("headers::any", spec.header, f, spec.too_many))
        t.name = "headers::any/%d" % f
        out.append(t)
    for k in spec.KINDS:
        for f in range(2, 10):
            out.append(Task("bodies::any/%s/%d" % (k, f), lambda J, k=k, f=f: J.body_reads(k, f), 5))
    import conv
    for k in ("date", "date_time", "big_uint", "big_int", "big_decimal"):
        for f in range(2, 10):
            for wrap in (False, True):
                out.append(Task("third::%s%s/%d" % (k, "::wrap" if wrap else "", f), lambda J, k=k, f=f, wrap=wrap: conv.reads(J, k, f, wrap), 5))
    return out


PAIRS = {
    "tokens": (spec.tok, spec.tok, spec.tok),
    "ints": (SC["u16"], SC["i32"], SC["u8"]),
    "int_str": (SC["u8"], spec.blob, SC["u16"]),
    "str_opt": (spec.blob, spec.option(spec.tok), SC["bool"]),
    "bytes": (spec.blob, SC["u8"], spec.tok),
    "seq": (spec.vec(spec.tok), spec.tok, SC["u8"]),
    "map": (spec.strmap(spec.tok), SC["u8"], spec.tok),
    "enum": (spec.variants((), (SC["u16"],), (spec.tok, SC["bool"])), spec.fields(spec.tok, SC["i32"]), spec.tok),
    "unit": (spec.unit, spec.option(spec.unit), SC["f64"]),
    "char": (SC["char"], SC["u8"], SC["char"]),
}


def p06(tier):
    out = [rt_task("scalars", n, c(n), rest_only=True) for n in SCALARS] + [rt_task("strings", n, c(n), rest_only=True) for n in STRINGS]
    out += [rt_task("compound", n, c(n), rest_only=True) for n in spec.COMPOUND]
    for n, w in PAIRS.items():
        for sub in ("", "::fresh"):
            name = "pairs::p_%s%s" % (n, sub)
            out.append(Task(name, lambda J, name=name, w=w: J.roundtrip(name, wire=spec.fields(*w)), 5))
    return out + [Task("again", lambda J: J.traceless("again", AGAIN), 10)]


AGAIN = ["a_" + n for n in "u64 i16 f32 unit string bytes char option seq tuple map struct newtype enum date datetime bigint bigdecimal header".split()]


CONV = ["date", "date_time", "big_uint", "big_int", "big_decimal"]


def any_tasks(method):
    names = ["scalars::t_" + n for n in SCALARS] + ["strings::t_" + n for n in STRINGS] + ["compound::t_" + n for n in spec.COMPOUND]
    names += ["pairs::p_" + n for n in PAIRS]
    names += ["third::%s%s" % (k, w) for k in CONV for w in ("", "::wrap")]
    out = [Task(n, lambda J, n=n: getattr(J, method)(n), 2) for n in names]
    out.append(hdr_task(lambda J: getattr(J, method)("headers::any")))
    for k in spec.KINDS:
        def go(J, k=k):
            J.ih = rec.hook()
            getattr(J, method)("bodies::any::de/" + k, args=J.body_input(k), root="bodies::any::de")
        out.append(Task("bodies::any::de/" + k, go, 2))
    return out


def p07(tier):
    out = any_tasks("no_panic")
    t = hdr_task(lambda J: J.recursion("headers::any/recursion", "headers::any::de"))
    t.name = "headers::any/recursion"
    return out + [t]


def p24(tier):
    out = any_tasks("progresses")
    return out + [Task("odd::" + n, lambda J, n=n: J.progresses("odd::" + n), 1) for n in ("z_units", "z_map")]


def p08(tier):
    return any_tasks("no_swallow")


def p09(tier):
    out = []
    for mod, tab in (("scalars", spec.SCALARS), ("strings", {n: spec.blob for n in STRINGS}), ("compound", spec.COMPOUND)):
        for n, w in tab.items():
            name = "%s::t_%s" % (mod, n)
            out.append(Task(name, lambda J, name=name, w=w: J.write_faults(name, wire=w), c(n)))
    for n, w in PAIRS.items():
        for sub in ("", "::fresh"):
            name = "pairs::p_%s%s" % (n, sub)
            out.append(Task(name, lambda J, name=name, w=w: J.write_faults(name, wire=spec.fields(*w)), 5))
    out.append(hdr_task(lambda J: J.write_faults("headers::any", wire=spec.header)))
    for n, w in spec.STATIC.items():
        name = "headers::" + n
        out.append(Task(name, lambda J, name=name, w=w: J.write_faults(name, wire=lambda E, y, v, w=w: w, setup=lambda E, m: [(J.H.init(E, m), None)])))
    for k in spec.KINDS:
        def go(J, k=k):
            J.ih = rec.hook()
            J.write_faults("bodies::any/" + k, root="bodies::any::ser", wire=lambda E, y, v, k=k: spec.body(E, y, v, k),
                           setup=lambda E, m, k=k: [(y, b) for y, h, b in J.body_setup(E, k, m)])
        out.append(Task("bodies::any/" + k, go, 20 if k == "BigDecimal" else 2))
    import conv
    for k in CONV:
        for part in (range(7) if k == "big_decimal" else (None,)):
            tag = "" if part is None else "/%d" % part
            out.append(Task("third::%s%s" % (k, tag), lambda J, k=k, part=part: J.write_faults(
                "third::" + k, wire=conv.wire_theirs(k), setup=lambda E, m: conv.setup_theirs(J, E, k, m, part)), 5))
            out.append(Task("third::%s::wrap%s" % (k, tag), lambda J, k=k, part=part: J.write_faults(
                "third::%s::wrap" % k, wire=conv.wire_ours(k), setup=lambda E, m: conv.setup_ours(J, E, k, m, part)), 5))
    return out


def p10(tier):
    return any_tasks("bounded_alloc")


def opt_val(E, v):
    return v.v


def bool_val(E, v):
    return v if isinstance(v, Cnd) else int(v) if isinstance(v, (bool, int)) else None


def code_val(J):
    return lambda E, v: spec.CODES[spec.kinds_of(E, J.H.argty("headers::any::ser", 0))[v.v]]


def p11(tier):
    T = lambda n, f, c=1: Task(n, f, c)
    out = [T("scalars::t_bool", lambda J: J.first_byte("scalars::t_bool", (0, 1), bool_val)),
           T("compound::t_option", lambda J: J.first_byte("compound::t_option", (0, 1), opt_val)),
           T("compound::t_option2", lambda J: J.first_byte("compound::t_option2", (0, 1), opt_val))]
    for n, k in ENUMS.items():
        out.append(T(n, lambda J, n=n, k=k: J.variant_index(n, k)))
    for n in STRINGS:
        if n != "bytebuf":
            out.append(T("strings::t_" + n, lambda J, n=n: J.text("strings::t_" + n), 4))
    out.append(T("scalars::t_char", lambda J: J.text("scalars::t_char", nonempty=True), 4))
    out.append(hdr_task(lambda J: J.first_byte("headers::any", sorted(spec.CODES.values()), code_val(J))))

    def rec_task(n, f, cost=2):
        def go(J):
            J.ih = rec.hook()
            f(J)
        out.append(T(n, go, cost))
    B = "bodies::any::de/"
    rec_task(B + "Boolean", lambda J: J.first_byte(B + "Boolean", (0, 1), lambda E, v: bool_val(E, v.f[0]), J.body_input("Boolean")))
    rec_task(B + "Optional", lambda J: J.first_byte(B + "Optional", (0, 1), lambda E, v: v.f[0].v, J.body_input("Optional")))
    rec_task(B + "Enum", lambda J: J.body_index())
    rec_task(B + "String", lambda J: J.text(B + "String", run=J.body_input("String")), 4)
    rec_task(B + "Map", lambda J: J.text(B + "Map", run=J.body_input("Map"), prefix=spec.E_(1)), 4)
    for n in ("btreemap", "hashmap"):
        out.append(T("compound::t_" + n, lambda J, n=n: J.text("compound::t_" + n, prefix=spec.E_(1)), 4))
    return out


def hdr_task(fn, cost=2):
    def go(J):
        J.ih = rec.hook()
        fn(J)
    return Task("headers::any", go, cost)


def p12(tier):
    return [hdr_task(lambda J: J.roundtrip("headers::any", refuse=spec.too_many))]


def p13(tier):
    out = [hdr_task(lambda J: J.roundtrip("headers::any", wire=spec.header, decode=False, refuse=spec.too_many))]
    for n, w in spec.STATIC.items():
        name = "headers::" + n
        out.append(Task(name, lambda J, name=name, w=w: J.output(name, w)))
    return out


def p14(tier):
    out = []
    for n, d in spec.DYN.items():
        name = "bodies::" + n
        conv = lambda E, st, v, bty, d=d: spec.dyn(E, st, v, d, bty)
        for part in (range(7) if n == "s_bigdecimal" else (None,)):
            out.append(Task(name if part is None else "%s/%d" % (name, part), lambda J, name=name, conv=conv, part=part: J.described(name, conv, part),
                            20 if part is not None else 3))
    import conv
    for k, h in (("date", "time_date"), ("date_time", "offset_date_time"), ("big_uint", "nb_biguint"), ("big_int", "nb_bigint"), ("big_decimal", "bd_bigdecimal")):
        for part in (range(7) if k == "big_decimal" else (None,)):
            name = "third::%s" % k if part is None else "third::%s/%d" % (k, part)
            out.append(Task(name, lambda J, k=k, h=h, part=part: conv.helper_described(J, k, h, part), 20 if part is not None else 3))
    return out


def p15(tier):
    out = [Task("bodies::any/" + k, lambda J, k=k: J.body_roundtrip(k), 3) for k in spec.KINDS if k != "BigDecimal"]
    return out + [Task("bodies::any/BigDecimal/%d" % i, lambda J, i=i: J.body_roundtrip("BigDecimal", i), 20) for i in range(7)]


def p16(tier):
    return [Task("bodies::any::validate/" + k, lambda J, k=k: J.body_validate(k)) for k in spec.KINDS]


def p21(tier):
    import derived
    out = [Task("rejects", p21_rejects, 400), Task("counts", p21_counts, 400)]
    for root, defs in derived.family():
        d = defs[-1]
        name = "derived::" + root
        pre = getattr(d, "pre", None)
        out.append(Task(name, lambda J, name=name, d=d, pre=pre: J.described(name, d, None, None, None, pre), 2 + len(getattr(d, "v", ())) ** 2))
    return out


def p21_rejects(J):
    """definitions without a describing header do not compile; the same definitions without the obstacle do"""
    import derived, json, judge, mir, subprocess
    d = os.path.join(mir.BUILD, "rejects")
    with mir.Lock("rejects"):
        os.makedirs(os.path.join(d, "src"), exist_ok=True)
        fam = derived.rejects()
        line = {}
        for mod, col in (("bad", 1), ("good", 2)):
            rows = ["use dlhn::SerializeHeader;"]
            for x in fam:
                if x[col] is not None:
                    rows.append("pub mod %s { use super::*; #[derive(SerializeHeader)] %s }" % (x[0], x[col]))
                    line[mod, len(rows)] = x[0]
            with open(os.path.join(d, "src", mod + ".rs"), "w") as f:
                f.write("\n".join(rows) + "\n")
        with open(os.path.join(d, "src", "lib.rs"), "w") as f:
            f.write('#![allow(dead_code)]\n#[cfg(feature = "bad")]\npub mod bad;\n#[cfg(feature = "good")]\npub mod good;\n')
        with open(os.path.join(d, "Cargo.toml"), "w") as f:
            f.write('[package]\nname = "rejects"\nversion = "0.1.0"\nedition = "2021"\n[features]\nbad = []\ngood = []\n[dependencies]\n'
                    'dlhn = { path = "/repo/dlhn", default-features = false, features = ["dlhn_derive"] }\n[workspace]\n')
        e = mir.base_env()
        e["CARGO_TARGET_DIR"] = os.path.join(mir.BUILD, "t-rejects")
        got, sound = {}, {}
        for mod in ("bad", "good"):
            # checksums, not times, decide what cargo rebuilds
            r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--lib", "--features", mod, "--message-format=json", "-Zchecksum-freshness"], preexec_fn=mir.unlimited,
                               cwd=d, env=e, capture_output=True, text=True)
            got[mod], sound[mod] = {}, r.returncode == 0
            for l in r.stdout.split("\n"):
                try:
                    m = json.loads(l)
                except ValueError:
                    continue
                if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
                    continue
                for s in m["message"]["spans"]:
                    if s["is_primary"] and s["file_name"] == "src/%s.rs" % mod:
                        got[mod].setdefault(line.get((mod, s["line_start"])), m["message"]["message"])
    if not sound["good"] and not got["good"]:
        return J.add("rejects", judge.UND, "the library does not build")
    for (mod, _), n in sorted(line.items()):
        err = got[mod].get(n)
        if (mod == "bad") == (err is not None):
            J.add("rejects::%s/%s" % (mod, n), judge.OK)
        elif mod == "bad":
            J.add("rejects::bad/" + n, judge.BAD, "the derive accepts a definition that no header describes", key="rejects::bad/" + n, where="derive_serialize_header")
        else:
            J.add("rejects::good/" + n, judge.BAD, "the derive rejects the definition: " + err, key="rejects::good/" + n, where="derive_serialize_header")


def p21_counts(J):
    """the count in a derived header, for every number of fields or variants"""
    import judge, mir, rt
    try:
        H = rt.Harness(mir.Server(mir.plan(features=["derivecount"], tag="derived")))
    except mir.BuildError as e:
        return J.add("derivecount", judge.UND, str(e)[-600:])
    K = judge.Judge(H)
    try:
        K.roundtrip("derivecount::count", wire=spec.SCALARS["u16"], decode=False)
        K.output("derivecount::fields", spec.E_(21) + spec.E_(0xC0, 0, 64) + spec.E_(*[0] * 16384))
    finally:
        H.srv.close()
    J.merge(K)


def p21_unbuilt(err):
    """the definitions of the family that do not compile although the rest of the specification does"""
    import mir, re
    try:
        mir.plan()
    except mir.BuildError:
        return []
    with open(os.path.join(mir.VERIF, "ghost", "src", "derived.rs")) as f:
        lines = f.read().split("\n")
    out = {}
    for m in re.finditer(r"^error[^\n]*\n\s*-->\s*src/derived\.rs:(\d+)", err, re.M):
        root = [x for x in lines[:int(m.group(1))] if x.startswith("pub mod ")][-1].split()[2]
        out.setdefault(root, m.group(0).split("\n")[0])
    return [dict(name="derived::" + r, key="derived::%s/compile" % r, status="violated", msg="the derive does not compile for this definition: " + e, where="derive_serialize_header")
            for r, e in sorted(out.items())]


FEATURES = ["time", "num-traits", "num-bigint", "bigdecimal", "dlhn_derive"]


def wire_tasks():
    """the wire format in one configuration"""
    out = p02("quick") + p03("quick")
    out += [rt_task("compound", n, wire=spec.COMPOUND[n]) for n in ("option", "vec", "tuple2", "named", "shapes", "btreemap", "unit", "hashmap", "arru16")]
    out += [t for t in p12("quick") + p13("quick") if "::ext::" not in t.name]
    out += [Task("bodies::any/" + k, lambda J, k=k: J.body_roundtrip(k), 3) for k in spec.KINDS if k != "BigDecimal"]
    out.append(Task("bodies::any/BigDecimal", lambda J: J.body_roundtrip("BigDecimal", 0), 3))
    return out


def in_config(J, features, tag):
    """obligations broken in one configuration of the library: {key: ob}, or None when it does not build"""
    import mir, rt, judge
    try:
        H = rt.Harness(mir.Server(mir.plan(features=["witness"] + features, tag=tag, extra_rustflags=["-Funsafe_code"])))
    except mir.BuildError as e:
        return str(e), None
    K = judge.Judge(H)
    try:
        for t in wire_tasks():
            K.ih = None
            t.run(K)
    finally:
        H.srv.close()
    obs, K.obs = K.obs, []
    J.merge(K)
    return None, obs


def config(J, i):
    fs = [f for j, f in enumerate(FEATURES) if i >> j & 1]
    name = "features [%s]" % " ".join(fs)
    err, obs = in_config(J, fs, "feat%d" % (i % 8))
    if err is not None:
        import re
        m = re.search(r"^error(\[E\d+\])?: (.*)\n *--> (\S+?):\d+", err, re.M)
        if m and "could not compile" in err:
            J.add(name + " builds", "violated", "%s (in %s)" % (m.group(2), m.group(3)), key=name + "/build", where=err[m.start():m.start() + 600])
        else:
            J.add(name + " builds", "undecided", err[-600:])
        return
    J.add(name + " builds", "ok")
    bad = [o for o in obs if o.status == "violated"]
    for o in obs:
        if o.status == "ok":
            J.add("%s %s" % (name, o.name), "ok")
    if not bad:
        return
    # the same format in every configuration: what is broken everywhere is not a matter of features
    err, full = in_config(J, FEATURES, "feat%d" % (i % 8)) if i != 31 else in_config(J, [], "feat%d" % (i % 8))
    everywhere = {o.key for o in full or () if o.status == "violated"}
    for o in bad:
        if o.key not in everywhere and full is not None:
            J.add("%s %s" % (name, o.name), "violated", o.msg, key="%s/%s" % (name, o.key), where=o.where, wit=o.wit)


def p23(tier):
    return [Task("features %d" % i, lambda J, i=i: config(J, i), 1, 500) for i in range(32)]


KEYS_OK = {"k_string": spec.blob, "k_str": spec.text, "k_boxstr": spec.blob, "k_trans": spec.blob}
KEYS = ["bool", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "usize", "f32", "f64", "char", "bytebuf", "option", "optunit", "unit", "units",
        "new", "newtk", "enum", "vec", "tuple", "tuple2", "array", "array0", "tuples", "map", "struct", "human", "seqnone", "mapnone", "result"]


def p20(tier):
    out = []
    for n, w in KEYS_OK.items():
        for sub in ("", "::entry"):
            name = "keys::" + n + sub
            out.append(Task(name, lambda J, name=name, w=w: J.roundtrip(name, wire=lambda E, st, v: spec.E_(1) + w(E, st, v), decode=False)))
    for n in KEYS:
        for sub in ("", "::entry"):
            name = "keys::k_" + n + sub
            out.append(Task(name, lambda J, name=name: J.refused(name, spec.E_(1), "UnsupportedKeyType")))
    for n in ("m_u8", "m_u64", "m_bool", "m_char", "m_unit", "m_hashi32"):
        name = "keys::" + n
        out.append(Task(name, lambda J, name=name: J.refused(name, spec.count, "UnsupportedKeyType", accept=spec.is_empty)))
    for n in ("w_i128", "w_u128"):
        for sub in ("", "::entry"):
            name = "keys::" + n + sub
            out.append(Task(name, lambda J, name=name: J.refused(name, spec.E_(1))))
    return out


def p22(tier):
    out = []
    for n in ("s_i128", "s_u128", "s_seqnone", "s_mapnone"):
        out.append(Task("odd::" + n, lambda J, n=n: J.refused("odd::" + n)))
    for n in ("d_i128", "d_u128", "d_any", "d_ignored", "d_unit_any", "d_new_any", "d_new_ignored"):
        out.append(Task("odd::" + n, lambda J, n=n: J.unread("odd::" + n)))
    no = spec.E_(0)
    HR = {"hr_plain": no, "hr_option": spec.E_(1) + no, "hr_tuple": no * 2, "hr_array": no * 2, "hr_struct": no * 2, "hr_newtype": no,
          "hr_vn": spec.E_(0) + no, "hr_vt": spec.E_(1) + no * 2, "hr_vs": spec.E_(2) + no * 2}
    for n, w in HR.items():
        out.append(Task("odd::%s/ser" % n, lambda J, n=n, w=w: J.output("odd::" + n, w)))
        out.append(Task("odd::%s/de" % n, lambda J, n=n: J.always("odd::" + n, 0)))
    for n, w in (("hr_seq", spec.E_(1) + no), ("hr_map", spec.E_(1, 0) + no)):
        out.append(Task("odd::" + n, lambda J, n=n, w=w: J.roundtrip("odd::" + n, wire=lambda E, st, v: w, decode=False)))
    return out


def conv_task(kind, what, fn, cost=3, parts=None):
    import conv
    f = getattr(conv, fn)
    name = "third::%s %s" % (kind, what)
    if parts is None:
        return [Task(name, lambda J: f(J, kind), cost)]
    return [Task("%s/%d" % (name, i), lambda J, i=i: f(J, kind, i), cost) for i in range(parts)]


def p17(tier):
    out = []
    for k in ("date", "date_time"):
        out += conv_task(k, "helper", "helper_roundtrip") + conv_task(k, "wrapper", "wrapper_roundtrip")
        out += conv_task(k, "from", "converted_from") + conv_task(k, "to", "converted_to")
    return out + conv_task("date", "invariant", "decoded_invariant")


def p18(tier):
    out = []
    for k in ("big_uint", "big_int", "big_decimal"):
        parts = 7 if k == "big_decimal" else None
        out += conv_task(k, "helper", "helper_roundtrip", 20, parts) + conv_task(k, "wrapper", "wrapper_roundtrip", 20, parts)
        out += conv_task(k, "from", "converted_from") + conv_task(k, "to", "converted_to")
    return out + conv_task("big_decimal", "invariant", "decoded_invariant")


def p19(tier):
    out = []
    for k in ("date", "date_time", "big_uint", "big_int", "big_decimal"):
        parts = 7 if k == "big_decimal" else None
        out += conv_task(k, "bytes", "same_bytes", 20, parts) + conv_task(k, "cross", "cross_decode", 20, parts)
    return out


ENUMS = {"compound::t_shapes": 5, "compound::t_result": 2, "compound::t_single": 1, "compound::t_wide": 201, "compound::t_kinds": 5, "compound::t_resstring": 2}

ABS = ("abstract interpretation of the compiler's MIR (all functions reachable from the entry point, std modelled): integers as "
       "linear forms with ranges and per-bit provenance, sequences as symbolic segments, loops summarised by verified inductive "
       "templates. One obligation per path class and per compared result. ")

ANY = ("abstract interpretation of the compiler's MIR on a completely unknown input of any length, whose reader may fail at any call: branches "
       "on the input are all taken, loops are closed by verified linear relations between counters (anything else is widened), and outcomes of a "
       "call are joined. One obligation per joined outcome of every entry point. ")

PROPS = {
    "P01": dict(tasks=p01, level="proof", rule=ABS + "Entry points: serialize then deserialize of an arbitrary value of each scalar type; "
                "rule: every path ends in Ok with the identical value."),
    "P02": dict(tasks=p02, level="proof", rule=ABS + "Entry points: serialize of an arbitrary value of each scalar type; rule: on every path the bytes "
                "written equal, bit by bit, those of the reference encoder."),
    "P26": dict(tasks=p26, level="proof", rule=ABS + "Entry points: deserialization of each type from the bytes the reference format gives an arbitrary value when "
                "every varint in it (values, lengths, counts, indices) takes each of its longer forms; rule: every path ends in Ok with that value and the reader at the end."),
    "P03": dict(tasks=p03, level="proof", rule=ABS + "Entry points: String, Box<str>, ByteBuf of symbolic length and content; rule: bytes = length varint + content, "
                "and decoding gives back the content for every length class and chunk count."),
    "P04": dict(tasks=p04, level="proof", rule=ABS + "Entry points: one instantiation of every compound shape over an opaque component type that round-trips; "
                "rule: every path ends in Ok with the identical value and the reader at the end."),
    "P05": dict(tasks=p05, level="proof", rule=ABS + "Entry points: as P04; rule: the bytes written equal the documented layout built from the component encodings."),
    "P06": dict(tasks=p06, level="proof", rule=ABS + "Entry points: every type of P01, P03, P04 followed by an opaque end marker, and ten triples of values "
                "written back to back through one Serializer (and through fresh ones) and read back by one Deserializer (and fresh ones); rule: decoding stops "
                "exactly at the marker without requesting it, the bytes are the concatenation of the separate encodings, and the values come back. "
                "Furthermore, decoding arbitrary bytes (reader failing at any call) as, and encoding arbitrary values (writer failing at any call) of 18 types, headers "
                "and every kind of body: on no path is the codec, a static or a thread-local left different from before; if one is, sequences of up to 1100 equal "
                "operations on constants are followed for an outcome that differs from that of the same operation in a fresh process."),
    "P07": dict(tasks=p07, level="proof", rule=ANY + "Rule: no path reaches a panic (overflow, index, capacity, unwrap, unimplemented)."),
    "P24": dict(tasks=p24, level="proof", rule=ANY + "Rule: every loop either reads at least one input byte in each iteration (from a reader that may deliver one "
                "byte at a time, fail, or have ended), or runs at most 2^20 + 32 * (bytes already read) times."),
    "P08": dict(tasks=p08, level="proof", rule=ANY + "Rule: no path on which the reader failed or ended early returns Ok."),
    "P09": dict(tasks=p09, level="proof", rule=ABS + "Entry points: serialize of an arbitrary value of every type of P01, P03, P04 and of triples, into a writer "
                "that may fail at any call and may accept any nonempty part of a plain write; rule: no path on which the writer failed returns Ok or calls the writer "
                "again, and every path that returns Ok has handed over the whole encoding."),
    "P10": dict(tasks=p10, level="proof", rule=ANY + "Rule: at every reservation of memory the size is at most 1 MiB or covered by bytes already read."),
    "P11": dict(tasks=p11, level="proof", rule=ANY + "Rule: a path that returns Ok has established that the first byte of a boolean or option is 0 or 1, "
                "that a variant index (as decoded from the same bytes as u32) equals the variant produced, that the content of a text is UTF-8, and that the "
                "text of a char is not empty."),
    "P12": dict(tasks=p12, level="proof", rule=ABS + "Entry point: Header::serialize of an arbitrary header, then deserialize_header on the bytes; structural "
                "induction (the encoding of a part is an opaque token); rule: every path with at most 65535 entries ends in Ok with the identical header and the "
                "reader at the end; an error is returned only above 65535 entries."),
    "P13": dict(tasks=p13, level="proof", rule=ABS + "Entry points: Header::serialize of an arbitrary header and serialize_header of every implementing type "
                "(containers over an opaque component type, tuples of 1 to 16); rule: the bytes written are those of the documented code table."),
    "P14": dict(tasks=p14, level="proof", rule=ABS + "Entry points: for every type with a header and an encoding (containers over an opaque component type, tuples of 1 "
                "to 16): the type's header is written and decoded, an arbitrary value is encoded, and Body::deserialize runs on that encoding under that header; rule: "
                "every path ends in Ok with the corresponding dynamic value and the reader at the end."),
    "P15": dict(tasks=p15, level="proof", rule=ABS + "Entry points: for each of the 24 kinds, Body::serialize of an arbitrary body and Body::deserialize of the bytes under "
                "an arbitrary header that matches it; structural induction (a part's encoding is an opaque token that only the part's own header decodes); rule: every "
                "path ends in Ok with the identical body and the reader at the end."),
    "P16": dict(tasks=p16, level="proof", rule=ABS + "Entry point: Body::validate of an arbitrary body against an arbitrary header of each of the 24 kinds; structural "
                "induction (validation of a part answers either way and is recorded); rule: true is returned exactly on the paths on which the kinds agree, lengths "
                "agree, the index is inside, and every part was found valid under its own header."),
}


def tasks(pid, tier):
    return PROPS[pid]["tasks"](tier)

PROPS["P20"] = dict(tasks=p20, level="proof", rule=ABS + "Entry points: serialize_key and serialize_entry of a map serializer for an arbitrary key of every kind "
                    "serde distinguishes, and whole maps with such keys; rule: every path with a string key writes exactly the encoding of that string, every "
                    "other path ends in the unsupported-key-type error with nothing written after the count.")
PROPS["P22"] = dict(tasks=p22, level="proof", rule=ABS + "Entry points: serialization and deserialization requests without an encoding (128-bit integers, sequences and "
                    "maps of unknown length, any, ignored-any), and a probe that reports is_human_readable in every position; rule: every path ends in an error "
                    "with nothing written or read; every probe answers false.")
PROPS["P23"] = dict(tasks=p23, level="proof", server=False, rule="For each of the 32 subsets of the optional features: the compiler type-checks the library with unsafe code "
                    "forbidden together with ghost/src/feat.rs (type-level witnesses of what every configuration offers and what the enabled features add), and the "
                    "wire-format obligations of P02, P03, P05, P12, P13, P15 (a selection) are decided again on the MIR of that configuration; rule: it compiles, "
                    "and no obligation is violated in one configuration that is not in another.")
PROPS["P21"] = dict(tasks=p21, level="other", plan=dict(features=["derived"], tag="derived"), unbuilt=p21_unbuilt, rule=ABS + "Definitions: the family in "
                    "engine/derived.py (every mixture of skip / skip_serializing on up to three fields of named and tuple structs and of struct and tuple variants, "
                    "attribute spellings, container attributes, nesting, more than 127 fields and variants), expanded by the current derive; for each, an arbitrary value is "
                    "encoded, its derived header decoded, and the encoding decoded dynamically under it; rule: that succeeds, consumes the encoding exactly and gives the value's "
                    "serialized fields in order. The count written for an arbitrary u16 number of fields is decided on dlhn_derive's own varint. Compile-fail witnesses: 312 "
                    "definitions no header describes are rejected, each beside a control that compiles.",
                    note="Each definition is decided for all its values; the definitions are a family up to three fields per struct or variant (plus large and nested ones), not all programs.",
                    technique="abstract interpretation of derive-expanded code over MIR, and compile-fail witnesses with positive controls")
BOUNDARY = ("The functions of time, num-bigint, num-traits and bigdecimal are modelled by their documented meaning (engine/third.py): a date is its year and day, an "
            "instant its second and nanosecond, a number its canonical digit bytes. ")
PROPS["P17"] = dict(tasks=p17, level="proof", rule=ABS + BOUNDARY + "Entry points: format::date / format::date_time and dlhn::Date / DateTime, serialization, "
                    "deserialization and both conversions, on arbitrary values; rule: the bytes are (year-2000: i32, day-1: u16) or (second: i64, nanosecond: u32), decoding and "
                    "converting back give the same day or instant, a conversion fails exactly when the fields denote no value in range.")
PROPS["P18"] = dict(tasks=p18, level="proof", rule=ABS + BOUNDARY + "Entry points: format::big_* and dlhn::Big*, serialization, deserialization and both conversions, on "
                    "arbitrary numbers of any number of digits; rule: the bytes are the digit bytes (empty for zero) and the normalised scale, and decoding and converting "
                    "give back the same number.")
PROPS["P19"] = dict(tasks=p19, level="proof", rule=ABS + BOUNDARY + "Entry points: for each of the five kinds the helper and the wrapper on the same arbitrary value; rule: "
                    "equal bytes, each decodes the other's bytes to the corresponding value and stops at their end, for arbitrary wrapper values including non-canonical ones.")
TECH = "path-sensitive abstract interpretation of MIR with inductive loop summaries"
NOTE = ("For every value/input (unbounded lengths and counts) every path of the analysed entry points is covered; each obligation is decided "
        "statically. An obligation the domain cannot decide is reported as undecided in the evidence and is not an alarm; on the committed tree none "
        "is. Trusted: rustc's MIR, the analyser in engine/, its models of std and serde_bytes, the format table in engine/spec.py.")
NA = {
    "P25": "Throughput and peak memory are measured quantities, not decidable from the source.",
}
