#!/usr/bin/env python3
"""Plant a bug: mkbug.py spec.py.  spec.py defines ID, PROPERTY, EDITS=[(file, old, new[, count])], MAIN (demo main.rs) or DEMO
(shell), NEEDS, BREAKS, optional FEATURES / SETUP.  Confirms in a scratch copy and writes /verif/seeded/<ID>/."""
import json, os, shutil, subprocess, sys
W = "/tmp/seedwork"
ENV = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never")
DEMO = '''#!/bin/bash
# cwd: the repository; exit 0 if the behaviour is intact
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
dlhn = { path = "$repo/dlhn" }
serde = { version = "1", features = ["derive"] }
serde_bytes = "0.11"
time = "0.3"
num-bigint = "0.4"
num-traits = "0.2"
bigdecimal = "0.3"
[profile.dev]
opt-level = %s
EOF
cd "$d" && CARGO_TARGET_DIR="$d/target" timeout 280 cargo run --quiet --offline 
rc=$?
[ $rc -eq 0 ] && exit 0
exit 1
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, env=ENV, capture_output=True, text=True, **k)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    i = ns["ID"]
    out = "/verif/seeded/" + i
    os.makedirs(W, exist_ok=True)
    sh("rsync -a --delete /repo/ %s/ || cp -a /repo/. %s/" % (W, W))
    sh("git checkout -q -- .", cwd=W)
    os.makedirs(out, exist_ok=True)
    with open(out + "/demo.sh", "w") as f:
        f.write(ns["DEMO"] if "DEMO" in ns else DEMO % ns.get("OPT", 0))
    os.chmod(out + "/demo.sh", 0o755)
    if "MAIN" in ns:
        with open(out + "/main.rs", "w") as f:
            f.write(ns["MAIN"])
    bad = []
    r = sh("bash %s/demo.sh" % out, cwd=W)
    if r.returncode:
        bad.append("demo fails on the unchanged tree: " + (r.stdout + r.stderr)[-1500:])
    for e in ns["EDITS"]:
        p = os.path.join(W, e[0])
        s = open(p).read()
        n = e[3] if len(e) > 3 else 1
        if s.count(e[1]) < 1 or (len(e) <= 3 and s.count(e[1]) != 1):
            print("edit matches %d times: %r" % (s.count(e[1]), e[1]))
            sys.exit(1)
        if n == "last":
            k = s.rindex(e[1])
            s = s[:k] + e[2] + s[k + len(e[1]):]
        elif isinstance(n, tuple):        # nth occurrence
            k = -1
            for _ in range(n[0]):
                k = s.index(e[1], k + 1)
            s = s[:k] + e[2] + s[k + len(e[1]):]
        else:
            s = s.replace(e[1], e[2])
        open(p, "w").write(s)
    d = sh("git diff", cwd=W).stdout
    open(out + "/patch.diff", "w").write(d)
    json.dump(dict(property=ns["PROPERTY"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(out + "/meta.json", "w"), indent=1)
    r = sh("cargo test --workspace --offline -- --test-threads 8 2>&1 | grep -E '^test .*FAILED|^error|panicked|test result: FAILED' | head -20", cwd=W)
    if r.stdout.strip():
        bad.append("tests: " + r.stdout[-1500:])
    r = sh("bash %s/demo.sh" % out, cwd=W)
    if r.returncode == 0:
        bad.append("demo passes with the bug: " + (r.stdout + r.stderr)[-800:])
    else:
        print("demo with bug:", (r.stdout + r.stderr).strip()[-300:])
    sh("git checkout -q -- .", cwd=W)
    if bad:
        print("\n".join(bad))
        print("NOT KEPT", i)
        shutil.rmtree(out)
        sys.exit(1)
    print("kept", i)


main()
