#!/usr/bin/env python3
"""Systematic sensitivity run: small syntactic changes all over /repo/src, in scratch copies; for each one that compiles and passes the
unit tests, the monitors of the properties anchored in that file are run until one reports. Survivors are listed for inspection.
usage: automut.py OUT.log [--workers n] [--secs n] [--every n] [--offset n] [--files substring]"""
import json, os, re, shutil, subprocess, sys, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [
    ("src/common/core/msg/format.rs", "C04 C01 C12"), ("src/common/core/msg/", "C02 C01 C03 C08 C09 C27 C05"), ("src/common/core/ident", "C06 C05 C12"),
    ("src/common/core/encode", "C05 C04 C01 C08"), ("src/common/core/decode", "C05 C08 C06"), ("src/client/env", "C24"), ("src/client/core", "C07"),
    ("src/msg/", "C08 C12 C14 C11"), ("src/server/auth", "C30 C25 C14 C11"), ("src/server/util", "C26"), ("src/server/core/hand", "C11"),
    ("src/server/core/msg", "C14 C15 C12"), ("src/server/connection", "C12 C13 C11 C10 C23 C18 C17"), ("src/server/reject", "C11 C12"),
    ("src/server/tokio/receiver", "C10 C20 C23 C16 C22 C18"), ("src/server/tokio/transmitter", "C16 C17 C20 C22 C23"),
    ("src/server/tokio/dispatch", "C20 C16 C19 C17 C21 C22 C23 C15"), ("src/server/application", "C12 C11"), ("src/server/handler", "C12 C11"), ("src/server/", "C12 C11 C20"),
]
OPS = [
    (r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" < ", " > "), (r" && ", " || "), (r" \|\| ", " && "),
    (r" \+ ", " - "), (r" - ", " + "), (r" \+= ", " -= "), (r" -= ", " += "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"(?<![\w.\"])(\d+)(?![\w.\"])", lambda m: str(int(m.group(1)) + 1)),
    (r"(?<![\w.\"])([1-9]\d*)(?![\w.\"])", lambda m: str(int(m.group(1)) - 1)), (r"!(?=[a-z(])", ""), (r"\.is_empty\(\)", ".is_empty() == false"), (r"\bmin\(", "max("), (r"\.all\(", ".any("), (r"\.any\(", ".all("),
    (r"is_some\(\)", "is_none()"), (r"is_none\(\)", "is_some()"), (r"Some\(([a-z_.()]+)\)$", "None"), (r"\.find\(", ".rfind("), (r"b'(\w)'\.\.=b'(\w)'", lambda m: "b'%s'..b'%s'" % (m.group(1), m.group(2))),
    (r"'(\w)'\.\.='(\w)'", lambda m: "'%s'..'%s'" % (m.group(1), m.group(2))), (r"return (.*);", "") , (r" if [^=>{]*=>", " =>"), (r"0\.\.", "1.."), (r"starts_with", "ends_with"), (r" as u8", " as u8 & 0x7f"),
    (r"\.skip\(1\)", ".skip(0)"), (r"\.clone\(\)$", ".clone()"), (r" / ", " % "), (r" % ", " / "), (r"\bbreak;", "continue;"), (r"\bbreak;", ""), (r"\bcontinue;", "break;"), (r"saturating_sub", "wrapping_sub"), (r"std::mem::drop\(.*\);", ""),
]


def sites():
    out = []
    for root, _, fs in os.walk("/repo/src"):
        for f in sorted(fs):
            p = os.path.join(root, f)
            rel = os.path.relpath(p, "/repo")
            if f in ("tests.rs", "verif.rs", "mod.rs") and rel != "src/common/core/msg/mod.rs" or not f.endswith(".rs"):
                continue
            lines = open(p).read().split("\n")
            for k, l in enumerate(lines):
                s = l.strip()
                if s == "mod tests {":
                    break
                if not s or s.startswith("//") or s.startswith("#") or s.startswith("*") or s.startswith("use ") or "verif_point" in s or s.startswith("/*"):
                    continue
                code = l.split(" //")[0]
                seen = set()
                for pat, rep in OPS:
                    for m in re.finditer(pat, code):
                        n = code[:m.start()] + m.expand(rep) if isinstance(rep, str) else code[:m.start()] + rep(m)
                        n += code[m.end():]
                        if n != code and n not in seen:
                            seen.add(n)
                            out.append((rel, k, n))
                # drop a whole statement
                if s.endswith(";") and not re.match(r"(let|return|break|continue|pub|type|const|static|fn|mod|impl|struct|\}|\))", s) and s.count("(") == s.count(")") and "=" not in s.split("(")[0].replace("+=", "").replace("-=", ""):
                    out.append((rel, k, re.match(r"\s*", l).group(0)))
    return sorted(set(out))


def sh(c, timeout=None, **k):
    try:
        p = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, start_new_session=True, **k)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def worker(w, q, log, secs, lock, jobs):
    W = "/tmp/automut%d" % w
    sh("rm -rf %s; mkdir -p %s; cp -a %s/harness %s/harness-nostd %s/" % (W, W, V, V, W))
    for f in ("harness/Cargo.toml", "harness-nostd/Cargo.toml"):
        p = os.path.join(W, f)
        s = open(p).read().replace('"/repo"', '"%s/repo"' % W)
        open(p, "w").write(s)
    sh("mkdir %s/repo; cd /repo && git archive HEAD | tar x -C %s/repo; cp -f /repo/Cargo.lock %s/repo/" % (W, W, W))
    env = dict(os.environ, CARGO_TARGET_DIR=W + "/target", RUSTFLAGS="--cfg vt6_verif", CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
    tenv = dict(env, CARGO_TARGET_DIR=W + "/ttarget", RUSTFLAGS="")
    while True:
        try:
            rel, k, new = q.get_nowait()
        except queue.Empty:
            break
        p = os.path.join(W, "repo", rel)
        orig = open(p).read()
        lines = orig.split("\n")
        old = lines[k]
        lines[k] = new
        open(p, "w").write("\n".join(lines))
        verdict = None
        rc, out = sh("cargo check --offline -p vt6", cwd=W + "/repo", env=tenv, timeout=200)
        if rc:
            verdict = "nobuild"
        else:
            rc, out = sh("cargo test --offline -p vt6", cwd=W + "/repo", env=tenv, timeout=200)
            if rc:
                verdict = "tests"
        if not verdict:
            rc, out = sh("cargo build --offline --bin vt6mon", cwd=W + "/harness", env=env, timeout=400)
            if rc:
                verdict = "nobuild-harness"
        if not verdict:
            props = next(b for a, b in PROPS if rel.startswith(a)).split()
            for prop in props:
                if prop == "C27":
                    continue
                d = W + "/out"
                sh("rm -rf %s; mkdir -p %s" % (d, d))
                ps = []
                for s in range(jobs):
                    os.mkdir("%s/s%d" % (d, s))
                    ps.append(subprocess.Popen([W + "/target/debug/vt6mon", prop, "--secs", str(secs), "--shard", str(s * 8 // jobs), "--shards", "8", "--out", "%s/%d.json" % (d, s), "--scratch", "%s/s%d" % (d, s)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
                for s, pr in enumerate(ps):
                    try:
                        pr.wait(timeout=secs + 60)
                    except subprocess.TimeoutExpired:
                        pr.kill()
                        pr.wait()
                        verdict = prop + " hang"
                    try:
                        j = json.load(open("%s/%d.json" % (d, s)))
                        if j["violations"]:
                            verdict = "%s: %s" % (prop, j["violations"][0]["what"][:100].replace("\n", " "))
                    except Exception:
                        if not verdict:
                            verdict = "%s: shard ended with %s" % (prop, pr.returncode)
                if verdict:
                    break
        open(p, "w").write(orig)
        with lock:
            log.write("%s\t%s:%d\t%s\t->\t%s\n" % (verdict or "SURVIVED", rel, k + 1, old.strip(), new.strip()))
            log.flush()
    sh("rm -rf " + W)


def main():
    a = sys.argv[1:]
    opt = {"--workers": 2, "--secs": 4, "--every": 1, "--offset": 0}
    files = ""
    for o in list(opt):
        if o in a:
            k = a.index(o)
            opt[o] = int(a[k + 1])
            del a[k:k + 2]
    if "--files" in a:
        k = a.index("--files")
        files = a[k + 1]
        del a[k:k + 2]
    all_ = [s for s in sites() if files in s[0]]
    mine = all_[opt["--offset"]::opt["--every"]]
    print(len(all_), "changes,", len(mine), "to be tried")
    if not a:
        return
    done = set()
    if os.path.exists(a[0]):
        done = set(tuple(l.rstrip("\n").split("\t")[i] for i in (1, 2, 4)) for l in open(a[0]) if l.count("\t") == 4)
    src = {}
    for rel, k, n in list(mine):
        src.setdefault(rel, open("/repo/" + rel).read().split("\n"))
        if ("%s:%d" % (rel, k + 1), src[rel][k].strip(), n.strip()) in done:
            mine.remove((rel, k, n))
    print(len(mine), "left")
    import random
    random.Random(1).shuffle(mine)
    q = queue.Queue()
    for m in mine:
        q.put(m)
    log, lock = open(a[0], "a"), threading.Lock()
    ts = [threading.Thread(target=worker, args=(w, q, log, opt["--secs"], lock, 8 // opt["--workers"])) for w in range(opt["--workers"])]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


main()
