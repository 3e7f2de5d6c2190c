"""Client of the MIR server: builds the spec crate against /repo under the
driver and gives access to bodies, types, constants."""
import hashlib, json, os, socket, subprocess, sys, tempfile, threading, fcntl, time

VERIF = os.environ.get("VERIF_DIR") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
TARGET = "x86_64-unknown-linux-gnu"


def unlimited():
    """compilers are not bound by the memory limit of an analysis worker"""
    import resource
    h = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (h, h))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


_sysroot = None


def nightly_sysroot():
    global _sysroot
    if _sysroot is None:
        r = sh("rustc +nightly --print sysroot")
        _sysroot = r.stdout.strip()
    return _sysroot


class BuildError(Exception):
    pass


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def base_env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("RUST") and k not in ("RUSTUP_HOME",) or k.startswith("CARGO_") and k not in ("CARGO_HOME",):
            del e[k]
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def build_driver():
    with Lock("driver"):
        e = base_env()
        e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "driver")
        r = subprocess.run(["cargo", "+nightly", "build", "--offline"], cwd=os.path.join(VERIF, "driver"), env=e,
                           capture_output=True, text=True)
        if r.returncode:
            raise BuildError("driver build failed:\n" + r.stderr[-4000:])
    return os.path.join(BUILD, "driver", "debug", "mirserve")


class Ty:
    __slots__ = ("id", "k", "d", "name")

    def __init__(self, d):
        self.id = d["id"]
        self.k = d["k"]
        self.d = d
        self.name = d["name"]

    def __repr__(self):
        return self.name

    @property
    def path(self):
        return self.d.get("path")


class Inst:
    __slots__ = ("id", "kind", "name", "path", "krate", "args", "closure", "ctor", "tm", "intr", "has_body", "target",
                 "empty", "vidx", "local")

    def __init__(self, d):
        for k in self.__slots__:
            setattr(self, k, d[k])

    def __repr__(self):
        return self.name


class Body:
    __slots__ = ("argc", "locals", "blocks", "spread", "span", "names", "headers", "inst", "loops", "live")


def plan(ghost="ghost", features=None, cfgs=(), tag="main", extra_rustflags=()):
    """build /repo and the dependencies, analyse the spec crate once, and return how to compile it"""
    drv = build_driver()
    with Lock("t-" + tag):
        e = base_env()
        e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "t-" + tag)
        e["LD_LIBRARY_PATH"] = nightly_sysroot() + "/lib"
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        e["MIRSERVE_CRATE"] = ghost
        flags = ["-Zalways-encode-mir", "-Zmir-opt-level=0", "-Cdebug-assertions=on", "-Coverflow-checks=on", "-Awarnings",
             "-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums"]
        flags += list(extra_rustflags)
        e["CARGO_ENCODED_RUSTFLAGS"] = "\x1f".join(flags)
        e["CARGO_INCREMENTAL"] = "0"
        fd, dump = tempfile.mkstemp(prefix="mirplan")
        os.close(fd)
        os.unlink(dump)
        e["MIRSERVE_DUMP"] = dump
        cmd = ["cargo", "+nightly", "rustc", "--offline", "--lib", "--target", TARGET, "-Zchecksum-freshness"]
        if features is not None:
            cmd += ["--no-default-features", "--features", ",".join(features)]
        cmd += ["--", "--cfg", 'vnonce="%s"' % hashlib.sha1(os.urandom(16)).hexdigest()[:12]]
        for c in cfgs:
            cmd += ["--cfg", c]
        r = subprocess.run(cmd, cwd=os.path.join(VERIF, ghost), env=e, capture_output=True, text=True, preexec_fn=unlimited)
        try:
            with open(dump) as f:
                d = json.load(f)
            os.unlink(dump)
        except FileNotFoundError:
            raise BuildError("spec crate build failed:\n" + (r.stdout + r.stderr)[-6000:])
    d["drv"] = drv
    return d


class Server:
    """one driver process serving the analysed spec crate; no cargo, so many can run side by side"""
    def __init__(self, plan_):
        self.tys = {}
        self.insts = {}
        self.bodies = {}
        self.sig = {}
        self.allocs = {}
        self.tmp = tempfile.mkdtemp(prefix="mirserve")
        sock = os.path.join(self.tmp, "s")
        e = dict(plan_["env"])
        e["MIRSERVE_SOCK"] = sock
        args, it = [], iter(plan_["args"][1:])
        for x in it:
            if x == "--out-dir":
                next(it)
                args += ["--out-dir", self.tmp]
            elif x.startswith("--error-format") or x.startswith("--json"):
                continue
            else:
                args.append(x)
        srv = socket.socket(socket.AF_UNIX)
        srv.bind(sock)
        srv.listen(1)
        srv.settimeout(1.0)
        self.log = open(os.path.join(self.tmp, "log"), "w+")
        self.p = subprocess.Popen([plan_["drv"], "rustc"] + args, cwd=plan_["cwd"], env=e, stdout=self.log, stderr=self.log, preexec_fn=unlimited)
        t0 = time.time()
        while True:
            try:
                self.c, _ = srv.accept()
                break
            except socket.timeout:
                if self.p.poll() is not None:
                    self.log.seek(0)
                    raise BuildError("driver failed:\n" + self.log.read()[-6000:])
                if time.time() - t0 > 300:
                    self.p.kill()
                    raise BuildError("driver timed out")
        srv.close()
        self.c.settimeout(None)
        self.r = self.c.makefile("r")
        import atexit
        atexit.register(self.close)

    def close(self):
        if self.p is None:
            return
        try:
            self.c.sendall(b'{"op":"quit"}\n')
            self.c.close()
        except Exception:
            pass
        try:
            self.p.wait(20)
        except Exception:
            self.p.kill()
        self.p = None
        import shutil
        shutil.rmtree(self.tmp, ignore_errors=True)

    def req(self, **k):
        self.c.sendall((json.dumps(k) + "\n").encode())
        line = self.r.readline()
        if not line:
            raise BuildError("MIR server died on %r" % k)
        d = json.loads(line)
        for i in d["insts"]:
            self.insts[i["id"]] = Inst(i)
        return d["r"]

    def roots(self):
        return self.req(op="roots")

    def ty(self, i):
        t = self.tys.get(i)
        if t is None:
            t = self.tys[i] = Ty(self.req(op="ty", i=i))
        return t

    def alloc(self, i):
        a = self.allocs.get(i)
        if a is None:
            a = self.allocs[i] = self.req(op="alloc", i=i)
        return a

    def drop(self, ty):
        k = ("drop", ty)
        if k not in self.sig:
            self.sig[k] = self.req(op="drop", ty=ty)
        return self.sig[k]

    def resolve(self, path, args):
        r = self.req(op="resolve", path=path, args=args)
        if isinstance(r, dict):
            raise BuildError("resolve %s: %s" % (path, r))
        return r

    def body(self, i):
        b = self.bodies.get(i, 0)
        if b == 0:
            d = self.req(op="body", i=i)
            if d is None:
                b = None
            else:
                b = Body()
                b.argc = d["argc"]
                b.locals = d["locals"]
                b.blocks = [(x["s"], x["t"]) for x in d["blocks"]]
                b.spread = d["spread"]
                b.span = d["span"]
                b.names = {l: n for l, n in d["names"]}
                b.inst = i
                b.loops = None
                b.live = None
                b.headers = loop_headers(b)
            self.bodies[i] = b
        return b


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "sw":
        return [x[1] for x in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[6]] if t[6] is not None else []
    if k == "assert":
        return [t[4]]
    return []


def loop_headers(b):
    """targets of retreating edges that close a natural loop -> set of blocks in it"""
    n = len(b.blocks)
    color = [0] * n
    order = []
    stack = [(0, iter(succs(b.blocks[0][1])))]
    color[0] = 1
    back = []
    while stack:
        u, it = stack[-1]
        for v in it:
            if color[v] == 0:
                color[v] = 1
                stack.append((v, iter(succs(b.blocks[v][1]))))
                break
            elif color[v] == 1:
                back.append((u, v))
        else:
            color[u] = 2
            order.append(u)
            stack.pop()
    preds = {}
    for u in range(n):
        if color[u]:
            for v in succs(b.blocks[u][1]):
                preds.setdefault(v, []).append(u)
    heads = {}
    for u, h in back:
        body = heads.setdefault(h, {h})
        work = [u]
        while work:
            x = work.pop()
            if x in body:
                continue
            body.add(x)
            work.extend(preds.get(x, []))
    return heads
