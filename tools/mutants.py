#!/usr/bin/env python3
"""Quick sensitivity runs: applies one-off changes to a scratch copy of /repo and runs monitors against it.
usage: mutants.py <file with MUTANTS = {name: ([(file, old, new)...], "C16 C19")}> [name...] [--secs n]"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mut"


def sh(c, **k):
    p = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
    return p.returncode, p.stdout.decode(errors="replace")


def main():
    a = sys.argv[1:]
    secs = 8.0
    profile = "debug"
    if "--release" in a:
        a.remove("--release")
        profile = "release"
    if "--secs" in a:
        k = a.index("--secs")
        secs = float(a[k + 1])
        del a[k:k + 2]
    ns = {}
    exec(open(a[0]).read(), ns)
    M = ns["MUTANTS"]
    os.makedirs(W, exist_ok=True)
    sh("rm -rf %s/harness %s/harness-nostd; cp -a %s/harness %s/harness-nostd %s/" % (W, W, V, V, W))
    for f in ("harness/Cargo.toml", "harness-nostd/Cargo.toml"):
        p = os.path.join(W, f)
        s = open(p).read().replace('"/repo"', '"%s/repo"' % W)
        open(p, "w").write(s)
    for name, (edits, props) in M.items():
        if len(a) > 1 and name not in a[1:]:
            continue
        sh("rm -rf %s/repo; mkdir %s/repo; cd /repo && git archive HEAD | tar x -C %s/repo; cp -f /repo/Cargo.lock %s/repo/" % (W, W, W, W))
        ok = True
        for f, old, new in edits:
            p = os.path.join(W, "repo", f)
            s = open(p).read()
            if s.count(old) != 1:
                print("%-28s EDIT FAILED: %d occurrences of %r" % (name, s.count(old), old))
                ok = False
                break
            open(p, "w").write(s.replace(old, new))
        if not ok:
            continue
        env = dict(os.environ, CARGO_TARGET_DIR=W + "/target", RUSTFLAGS="--cfg vt6_verif", CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
        rc, out = sh("cargo build --offline --bin vt6mon" + (" --release" if profile == "release" else ""), cwd=W + "/harness", env=env)
        if rc:
            print("%-28s DOES NOT BUILD\n%s" % (name, "\n".join([l for l in out.splitlines() if l.startswith("error")][:4])[:600]))
            continue
        if "C29" in props:
            rc, out = sh("cargo build --offline", cwd=W + "/repo/example-server", env=dict(env, CARGO_TARGET_DIR=W + "/example", RUSTFLAGS=""))
            if rc:
                print("%-28s EXAMPLE DOES NOT BUILD\n%s" % (name, "\n".join([l for l in out.splitlines() if l.startswith("error")][:4])[:600]))
                continue
            os.environ["VT6_EXAMPLE"] = [os.path.join(W, "example/debug", x) for x in os.listdir(W + "/example/debug") if x.endswith("example-server")][0]
        for prop in props.split():
            d = "%s/out" % W
            sh("rm -rf %s; mkdir -p %s" % (d, d))
            ps = []
            for s in range(8):
                os.mkdir("%s/s%d" % (d, s))
                ps.append(subprocess.Popen([W + "/target/%s/vt6mon" % profile, prop, "--secs", str(secs), "--shard", str(s), "--shards", "8", "--out", "%s/%d.json" % (d, s),
                                            "--scratch", "%s/s%d" % (d, s)], stdout=subprocess.DEVNULL, stderr=open("%s/%d.err" % (d, s), "w")))
            what, n, ev = "", 0, 0
            for s, p in enumerate(ps):
                try:
                    rc = p.wait(timeout=secs * 3 + 60)
                except subprocess.TimeoutExpired:
                    p.kill()
                    rc = "hang"
                if rc not in (0, 1):
                    n += 1
                    what = what or "shard ended with %s: %s" % (rc, open("%s/%d.err" % (d, s)).read()[-300:])
                    continue
                j = json.load(open("%s/%d.json" % (d, s)))
                ev += j["evaluations"]
                for v in j["violations"]:
                    n += 1
                    what = what or "case %s: %s" % (v["case"], v["what"])
            print("%-28s %-4s %s (%d reports, %d evaluations) %s" % (name, prop, "CAUGHT" if n else "missed", n, ev, what[:260].replace("\n", " ")), flush=True)


main()
