#!/usr/bin/env python3
"""Plants a bug: from mkseed import seed; seed(id, property, [(file, old, new), ...], needs, breaks, main_rs, ...)
Confirms in a scratch copy of /repo that the change builds, passes the stable tests, and that the demo passes without and fails with it.
Also: mkseed.py --check ID [PROP..]   applies seeded/ID to /repo, runs the checks (default: its own property), undoes it."""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"

DEMO = r'''#!/bin/bash
# exit 0: the property holds on this tree; run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d /tmp/vt6demo.XXXXXX) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"; cp "$here/main.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock" 2>/dev/null
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
vt6 = { path = "$repo", @FEATURES@ }
@DEPS@
[profile.dev]
debug = "line-tables-only"
[workspace]
EOF
cd "$t" || exit 3
export CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_INCREMENTAL=0
cargo build -q --offline @PROFILE@ || exit 4
export TMPDIR="$t"
@RUN@
'''


def sh(cmd, cwd=None, timeout=900, env=None):
    p = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
    return p.returncode, p.stdout.decode(errors="replace")


def work():
    if not os.path.exists(W):
        sh(["cp", "-a", "/repo", W])
    rc, out = sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq -e target -e Cargo.lock", cwd=W)
    assert rc == 0, out


ENV = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=W + "/target",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_INCREMENTAL="1", RUSTC_WRAPPER="")


def tests():
    sh("rm -rf %s/target/debug/.fingerprint/vt6-*" % W)
    rc, out = sh("cargo build --workspace --offline && cargo test --workspace --no-fail-fast --offline", cwd=W, env=ENV)
    return rc, out


def seed(id, prop, edits, needs, breaks, main_rs, features="", deps="", profile="", run='timeout 250 "$t/target/debug/demo"', demo=None):
    d = os.path.join(V, "seeded", id)
    work()
    for f, old, new in edits:
        p = os.path.join(W, f)
        s = open(p).read()
        assert s.count(old) == 1, "%s: %d occurrences of %r" % (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    rc, patch = sh("git diff", cwd=W)
    rc, out = tests()
    if rc != 0:
        print("REJECTED %s: tests fail with the change\n%s" % (id, out[-2500:]))
        return False
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(patch)
    if main_rs is not None:
        open(d + "/main.rs", "w").write(main_rs)
    text = demo or DEMO.replace("@FEATURES@", features or "default-features = true").replace("@DEPS@", deps).replace("@PROFILE@", profile).replace("@RUN@", run)
    open(d + "/demo.sh", "w").write(text)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    t = time.time()
    rc1, o1 = sh(["bash", d + "/demo.sh"], cwd=W)
    t1 = time.time() - t
    work()
    rc0, o0 = sh(["bash", d + "/demo.sh"], cwd=W)
    ok = rc0 == 0 and rc1 not in (0, 3, 4)
    print("%s %s: demo unchanged rc=%d, patched rc=%d (%.0fs) :: %s" % ("OK  " if ok else "BAD ", id, rc0, rc1, t1, o1.strip()[-200:].replace("\n", " | ")))
    if rc0 != 0:
        print(o0[-3000:])
    if rc1 in (3, 4):
        print(o1[-3000:])
    if not ok:
        shutil.rmtree(d)
    return ok


def verify(id):
    """confirms a kept seed again: builds, passes the tests, the demo tells the trees apart"""
    d = os.path.join(V, "seeded", id)
    work()
    rc0, o0 = sh(["bash", d + "/demo.sh"], cwd=W)
    rc, out = sh(["git", "apply", d + "/patch.diff"], cwd=W)
    rct, outt = tests() if rc == 0 else (1, "")
    rc1, o1 = sh(["bash", d + "/demo.sh"], cwd=W) if rc == 0 else (0, "")
    work()
    ok = rc == 0 and rct == 0 and rc0 == 0 and rc1 not in (0, 3, 4)
    print("%s %-28s applies=%d tests=%d demo: unchanged rc=%d, patched rc=%d %s" % ("OK  " if ok else "BAD ", id, rc, rct, rc0, rc1, o1.strip()[-160:].replace("\n", " | ") if ok else (out + outt + o0 + o1)[-800:]), flush=True)
    return ok


def check(id, props, tier="quick"):
    d = os.path.join(V, "seeded", id)
    props = props or [json.load(open(d + "/meta.json"))["property"]]
    rc, out = sh(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    if rc:
        print(id, "DOES NOT APPLY", out)
        return
    try:
        for p in props:
            t = time.time()
            rc, out = sh(["python3", "check.py", p, "--tier", tier], cwd=V, timeout=2000)
            v = [l for l in out.splitlines() if l.startswith("VIOLATION") or l.startswith("CHECK ERROR")]
            i = out.find("VIOLATION")
            print("%-30s %s rc=%d %.0fs %s" % (id, p, rc, time.time() - t, out[i:i + 260].replace("\n", " | ") if rc == 1 else (out[-400:] if rc else "MISSED")), flush=True)
    finally:
        sh(["git", "-C", "/repo", "checkout", "--", "."])


if __name__ == "__main__":
    a = sys.argv[1:]
    tier = "quick"
    if "--tier" in a:
        i = a.index("--tier"); tier = a[i + 1]; del a[i:i + 2]
    if a[0] == "--check":
        check(a[1], a[2:], tier)
    elif a[0] == "--verify":
        for i in a[1:] or sorted(os.listdir(V + "/seeded")):
            verify(i)
    elif a[0] == "--all":
        for i in sorted(os.listdir(V + "/seeded")):
            check(i, [], tier)
