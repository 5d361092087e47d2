#!/usr/bin/env python3
"""Runs one check: builds the monitor against /repo's working tree, runs its shards, merges what they observed.

usage: check.py <ID> [--tier quick|thorough]     run a check (tier and seed default to VERIF_TIER / VERIF_SEED)
       check.py --setup                          build everything
       check.py --replay <file>                  run one recorded case again
"""
import array, fcntl, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
HARNESS = os.path.join(VERIF, "harness")
STABLE = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
sys.path.insert(0, VERIF)
import checks  # noqa: E402


class HarnessError(Exception):
    pass


class BuildError(HarnessError):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def repo_hash():
    h = hashlib.sha256()
    for root in ("src", "example-server"):
        for d, ds, fs in sorted(os.walk(os.path.join(REPO, root))):
            ds[:] = sorted(x for x in ds if x != "target")
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    with open(os.path.join(REPO, "Cargo.toml"), "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()


def env(toolchain=STABLE, **kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith("CARGO") and not k.startswith("RUST")}
    e.update(HOME="/root", RUSTUP_TOOLCHAIN=toolchain, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    e.update(kw)
    return e


def cargo(args, target, toolchain=STABLE, cwd=HARNESS, timeout=1500, **kw):
    """cargo with a target directory of its own; forgets cached verdicts on vt6 when /repo's content changed
    (cargo itself goes by modification time only)"""
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(target, ".repo-hash")
        now = repo_hash()
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if now != old:
            for d, ds, _ in os.walk(target):
                if os.path.basename(d) == ".fingerprint":
                    for x in ds:
                        if x.startswith("vt6"):
                            shutil.rmtree(os.path.join(d, x), ignore_errors=True)
                    ds[:] = []
            if os.path.exists(stamp):
                os.unlink(stamp)
        t = time.time()
        p = subprocess.run(["cargo"] + args, cwd=cwd, env=env(toolchain, CARGO_TARGET_DIR=target, **kw),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out = p.stdout.decode(errors="replace")
        if p.returncode != 0:
            raise BuildError("cargo %s failed:\n%s" % (" ".join(args), out[-6000:]))
        with open(stamp, "w") as fh:
            fh.write(now)
        log("built %s (%s) in %.1fs" % (os.path.basename(target), args[0], time.time() - t))
        return out


def build_harness(profile="dev"):
    target = os.path.join(BUILD, "main")
    args = ["build", "--offline", "--bin", "vt6mon"] + (["--release"] if profile == "release" else [])
    cargo(args, target, RUSTFLAGS="--cfg vt6_verif")
    return os.path.join(target, "release" if profile == "release" else "debug", "vt6mon")


CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP, signal.SIGSYS}


def cpu_of(pid):
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except Exception:
        return 0.0


class Result:
    def __init__(self):
        self.evaluations = 0
        self.hashes = set()
        self.counters = {}
        self.maxima = {}
        self.samples = []
        self.violations = []  # dict(case, what, detail, cmd)
        self.rule = ""
        self.notes = {}
        self.assumptions = []
        self.shards = 0

    def add_json(self, d, cmd):
        self.shards += 1
        self.evaluations += d["evaluations"]
        self.rule = d["rule"] or self.rule
        for k, v in d["counters"].items():
            self.counters[k] = self.counters.get(k, 0) + v
        for k, v in d["maxima"].items():
            self.maxima[k] = max(self.maxima.get(k, 0), v)
        for v in d["violations"]:
            self.violations.append(dict(v, cmd=cmd))
        self.samples += d["samples"]

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n


def run_shards(res, pid, binary, seed, tier, shards, secs, only=None, runid="", wrap=None, extra_env=None, tag=""):
    """run `vt6mon <pid>` in `shards` processes; merge into res"""
    tmp = tempfile.mkdtemp(prefix="vt6mon-", dir="/tmp")
    os.chmod(tmp, 0o755)  # some cases act as an unprivileged user
    e = env()
    e.update({k: v for k, v in (extra_env or {}).items()})
    procs = []
    try:
        for s in range(shards):
            out = os.path.join(tmp, "%d.json" % s)
            scratch = os.path.join(tmp, "s%d" % s)
            os.mkdir(scratch)
            cmd = (wrap or []) + [binary, runid or pid, "--seed", str(seed), "--tier", tier, "--shard", str(s), "--shards", str(shards),
                                  "--secs", str(secs), "--out", out, "--scratch", scratch]
            if only is not None:
                cmd += ["--only", str(only)]
            err = open(os.path.join(tmp, "%d.err" % s), "wb")
            p = subprocess.Popen(cmd, env=e, stdout=err, stderr=err, stdin=subprocess.DEVNULL, start_new_session=True)
            procs.append(dict(p=p, out=out, err=err, s=s, slot=None, t=time.time(), cpu=0.0, cmd=cmd))
        hard = time.time() + secs * 3 + 240
        pending = list(procs)
        errors = []
        while pending:
            time.sleep(0.05)
            for q in list(pending):
                rc = q["p"].poll()
                slot = slot_of(q)
                if rc is None:
                    if slot != q["slot"]:
                        q.update(slot=slot, t=time.time(), cpu=cpu_of(q["p"].pid))
                    stuck_cpu = cpu_of(q["p"].pid) - q["cpu"]
                    hang = slot and time.time() - q["t"] > 60 and stuck_cpu > 45
                    if hang or time.time() > hard:
                        kill(q["p"])
                        pending.remove(q)
                        if hang:
                            res.violations.append(dict(case=str(slot - 1), what="the case does not terminate (%.0f s of CPU time)" % stuck_cpu,
                                                       detail=tail(q), cmd=q["cmd"]))
                        else:
                            errors.append("shard %d did not finish (case %s)\n%s" % (q["s"], slot, tail(q)))
                    continue
                pending.remove(q)
                if rc in (0, 1) and os.path.exists(q["out"]):
                    res.add_json(json.load(open(q["out"])), q["cmd"])
                    hp = q["out"][:-5] + ".hashes"
                    if os.path.exists(hp) and len(res.hashes) < 3_000_000:
                        a = array.array("Q")
                        a.frombytes(open(hp, "rb").read())
                        res.hashes.update(a)
                elif rc < 0 and -rc in [int(x) for x in CRASH] and slot:
                    t = tail(q)
                    res.violations.append(dict(case=str(slot - 1), what="the process running the library died of %s" % signal.Signals(-rc).name,
                                               detail=t, cmd=q["cmd"]))
                else:
                    errors.append("shard %d ended with %d (case %s)\n%s" % (q["s"], rc, slot, tail(q)))
        if tag:
            res.notes[tag] = res.shards
        if errors and not res.violations:
            raise HarnessError("\n".join(errors))
    finally:
        for q in procs:
            if q["p"].poll() is None:
                kill(q["p"])
            q["err"].close()
        shutil.rmtree(tmp, ignore_errors=True)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def slot_of(q):
    try:
        with open(q["out"][:-5] + ".slot", "rb") as fh:
            return int.from_bytes(fh.read(8), "little")
    except OSError:
        return 0


def tail(q, n=3000):
    try:
        with open(q["err"].name, "rb") as fh:
            return fh.read()[-n:].decode(errors="replace")
    except OSError:
        return ""


def known_findings(pid):
    """lines of known_findings.txt: 'finding: property=<id> match=<text> -- <description>'"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=\"([^\"]*)\"(.*)", l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3).strip(" -\n")))
    return out


def finish(pid, res, seed, tier, wall, level):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    known = known_findings(pid)
    fresh, seen = [], []
    for v in res.violations:
        k = [d for m, d in known if m in v["what"]]
        (seen if k else fresh).append(v)
        if k:
            v["known"] = k[0]
    for k in sorted(set(v["known"] for v in seen)):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    cov = dict(evaluations=res.evaluations, distinct_nontrivial=len(res.hashes), rule=res.rule, samples=res.samples[:8])
    cov["observed"] = dict(sorted(res.counters.items()))
    if res.maxima:
        cov["maxima"] = dict(sorted(res.maxima.items()))
    cov.update(res.notes)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(wall, 2), violations=len(fresh))
    if res.assumptions:
        ev["assumptions"] = res.assumptions
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    for n, v in enumerate(fresh[:3]):
        rp = os.path.join(VERIF, "replays", "%s-%d-%s-%d.json" % (pid, seed, tier, n))
        with open(rp, "w") as fh:
            cmd = v.get("cmd") or []
            extra = dict(profile="release" if any("/release/" in str(c) for c in cmd) else "dev",
                         case_seed=int(cmd[cmd.index("--seed") + 1])) if "--seed" in cmd else {}
            json.dump(dict(property=pid, seed=seed, tier=tier, case=v["case"], what=v["what"], detail=v["detail"][:20000], cmd=cmd, **extra,
                           replay="python3 check.py --replay %s" % rp), fh, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        print("  " + v["what"][:1500].replace("\n", "\n  "))
    sys.stdout.flush()
    return 1 if fresh else 0


def run_check(pid, tier, seed, only=None):
    spec = checks.CHECKS[pid]
    start = time.time()
    res = Result()
    res.assumptions = list(spec.get("assumptions", []))
    fn = spec.get("run")
    if fn is None:
        binary = build_harness("dev")
        secs = spec.get("thorough_secs", 240) if tier == "thorough" else spec.get("secs", 12)
        shards = 1 if only is not None else spec.get("shards", 8)
        run_shards(res, pid, binary, seed, tier, shards, secs, only)
        if tier == "thorough" and spec.get("release", True) and only is None and not res.violations:
            rel = build_harness("release")
            run_shards(res, pid, rel, seed + 7, tier, shards, secs, only)
            res.notes["profiles"] = ["dev with overflow checks", "release"]
    else:
        fn(sys.modules["__main__"], res, pid, tier, seed, only)
    return finish(pid, res, seed, tier, time.time() - start, spec.get("level", "exploration"))


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--seed" in a:
        seed = int(a[a.index("--seed") + 1])
    try:
        if a and a[0] == "--setup":
            checks.setup(sys.modules["__main__"])
            return 0
        if a and a[0] == "--replay":
            d = json.load(open(a[1]))
            fn = checks.CHECKS[d["property"]].get("replay")
            if fn:
                return fn(sys.modules["__main__"], d)
            if "profile" not in d:
                return run_check(d["property"], d["tier"], d["seed"])
            res = Result()
            start = time.time()
            run_shards(res, d["property"], build_harness(d["profile"]), d["case_seed"], d["tier"], 1, 60, int(d["case"]))
            return finish(d["property"], res, d["seed"], d["tier"], time.time() - start, "exploration")
        if not a or a[0] not in checks.CHECKS:
            log(__doc__)
            return 2
        return run_check(a[0], tier, seed)
    except HarnessError as e:
        log("CHECK ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
