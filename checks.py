"""The checks: how each property is run and what is said about it in MANIFEST.json."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import threading
import time
import zlib

CODEC_NOTE = ("Real library code executed on generated inputs under an oracle that shares no code with it; shows the property on everything "
              "executed, not for all inputs. Trusts the reference specification and the panic/crash monitors. ")
SERVER_NOTE = ("The library's real Connection, handlers and state machine, driven by a recording synchronous Dispatch and a recording Application; "
               "shows the property on the conversations executed. Trusts the reference state machine (written from the protocol documentation). ")
LIVE_NOTE = ("The library's real Tokio server on a multi-threaded runtime, observed at its clients' sockets and its application's callbacks, under "
             "randomly delayed concurrent clients and broadcasters; shows the property on the executions observed (a sample of schedules, not all). "
             "Liveness is judged when the whole process has provably come to rest (no thread runnable, none has run). ")
LIVE_ASM = ["at rest means: in three consecutive samples every other thread of the process sleeps and has not been scheduled, and no injected delay is pending; "
            "cases that do not come to rest for lack of processor time are counted as inconclusive, not judged",
            "thread schedules are sampled through random delays at hook points (cfg vt6_verif) and in application callbacks, not enumerated"]
ENV_NOTE = ("The library's real function called in processes with a prepared environment (descriptors, variables, directories, random source), whose system calls and "
            "effects are observed; shows the property on the situations executed. ")


def both_profiles(m, res, pid, tier, seed, only):
    """in a build with debug assertions and in a release build"""
    spec = CHECKS[pid]
    secs = spec.get("thorough_secs", 200) if tier == "thorough" else spec["secs"]
    for k, profile in enumerate(("dev", "release")):
        if only is not None and profile == "release":
            break
        m.run_shards(res, pid, m.build_harness(profile), seed + 7 * k, tier, 1 if only is not None else 8, secs / (1 + k), only)
        if res.violations:
            break
    res.notes["profiles"] = ["dev with debug assertions and overflow checks", "release"]


def nostd_programs(m):
    out = []
    target = os.path.join(m.BUILD, "nostd")
    for profile in ("dev", "release"):
        m.cargo(["build", "--offline"] + (["--release"] if profile == "release" else []), target, cwd=os.path.join(m.VERIF, "harness-nostd"))
        out.append(os.path.join(target, "release" if profile == "release" else "debug", "vt6nostd"))
    return out


HEAP = {"malloc", "calloc", "realloc", "reallocarray", "posix_memalign", "aligned_alloc", "memalign", "valloc", "pvalloc", "mmap", "mmap64", "brk",
        "sbrk", "strdup", "strndup", "asprintf", "getline"}


def without_std(m, res, pid, tier, seed, only):
    """the same inputs given to the message core with std (allocations counted) and to a program without std and allocator"""
    spec = CHECKS[pid]
    secs = spec.get("thorough_secs", 200) if tier == "thorough" else spec["secs"]
    binaries = [m.build_harness("dev")] + ([m.build_harness("release")] if tier == "thorough" else [])
    try:
        programs = nostd_programs(m)
    except m.BuildError as e:
        # the monitor with std has just been built from the same sources
        res.violations.append(dict(case="0", what="a program without std and without an allocator cannot be built with the library", detail=str(e), cmd=[]))
        res.evaluations += 1
        return
    for p in programs:
        syms = subprocess.run(["nm", "-D", "--undefined-only", p], stdout=subprocess.PIPE, check=True).stdout.decode()
        names = {l.split()[-1].split("@")[0] for l in syms.splitlines() if l.strip()}
        res.notes.setdefault("no_std_program_imports", {})[p.split("/")[-2]] = sorted(names)
        if names & HEAP:
            res.violations.append(dict(case="0", what="the program without std and without an allocator uses %s" % ", ".join(sorted(names & HEAP)), detail=syms, cmd=[]))
    for k, b in enumerate(binaries):
        if not res.violations:
            m.run_shards(res, pid, b, seed + 7 * k, tier, 1 if only is not None else 8, secs, only, extra_env=dict(VT6_NOSTD=":".join(programs)))


def example_server(m):
    target = os.path.join(m.BUILD, "example")
    m.cargo(["build", "--offline", "-p", "vt6-example-server"], target, cwd=m.REPO)
    return os.path.join(target, "debug", "vt6-example-server")


def with_example(m, res, pid, tier, seed, only):
    """clients of the running example server"""
    spec = CHECKS[pid]
    secs = spec.get("thorough_secs", 240) if tier == "thorough" else spec["secs"]
    m.run_shards(res, pid, m.build_harness("dev"), seed, tier, 1 if only is not None else 8, secs, only, extra_env=dict(VT6_EXAMPLE=example_server(m)))


def replay_example(m, d):
    res = m.Result()
    with_example(m, res, d["property"], "quick", d.get("case_seed", d["seed"]), int(d["case"]))
    return m.finish(d["property"], res, d["seed"], d["tier"], 0.0, "exploration")


def replay_without_std(m, d):
    res = m.Result()
    without_std(m, res, d["property"], "quick", d.get("case_seed", d["seed"]), int(d["case"]))
    return m.finish(d["property"], res, d["seed"], d["tier"], 0.0, "exploration")


TRIPLE = "x86_64-unknown-linux-gnu"
SAN_FLAGS = dict(asan="--cfg vt6_verif --cfg vt6_asan -Zsanitizer=address", tsan="--cfg vt6_verif --cfg vt6_tsan -Zsanitizer=thread",
                 msan="--cfg vt6_verif --cfg vt6_msan -Zsanitizer=memory -Zsanitizer-memory-track-origins")
MIRI_ENV = dict(RUSTFLAGS="--cfg vt6_verif")
if os.path.isdir("/root/.cache/miri/lib"):
    MIRI_ENV["MIRI_SYSROOT"] = "/root/.cache/miri"


def build_tool(m, tool):
    """the monitor compiled for one tool; returns the program (for Miri: the command to run it)"""
    target = os.path.join(m.BUILD, tool)
    if tool == "miri":
        # (there is no `cargo miri build`)
        m.cargo(["miri", "run", "-q", "--offline", "--bin", "vt6mon", "--", "none"], target, m.NIGHTLY, MIRIFLAGS="-Zmiri-disable-isolation", **MIRI_ENV)
        return ["cargo", "miri", "run", "-q", "--offline", "--bin", "vt6mon", "--"]
    m.cargo(["build", "--offline", "--bin", "vt6mon", "--target", TRIPLE] + (["-Zbuild-std"] if tool in ("tsan", "msan") else []), target, m.NIGHTLY, RUSTFLAGS=SAN_FLAGS[tool])
    return [os.path.join(target, TRIPLE, "debug", "vt6mon")]


def build_tools(m, tools):
    out, err = {}, []

    def one(t):
        try:
            out[t] = [m.build_harness("dev")] if t == "plain" else build_tool(m, t)
        except Exception as e:
            err.append(e)
    ts = [threading.Thread(target=one, args=(t,)) for t in tools]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if err:
        raise err[0] if isinstance(err[0], m.HarnessError) else m.HarnessError(repr(err[0]))
    return out


REPORTS = [(re.compile(p), w) for p, w in (
    (r"ERROR: AddressSanitizer: .*", "AddressSanitizer"),
    (r"ERROR: LeakSanitizer: detected memory leaks", "LeakSanitizer"),
    (r"WARNING: MemorySanitizer: .*", "MemorySanitizer"),
    (r"WARNING: ThreadSanitizer: .*", "ThreadSanitizer"),
    (r"FATAL: ThreadSanitizer.*", "ThreadSanitizer"),
    (r"error: Undefined Behavior: .*", "Miri"),
    (r"error: memory leaked: .*", "Miri"),
    (r"unsafe precondition\(s\) violated.*", "a debug assertion of the standard library"),
    (r"IO Safety violation.*", "the standard library"),
    (r"DESCRIPTOR MONITOR: .*", "the descriptor monitor"),
)]


def sanitizer_jobs(tier):
    """(tool, workload, shard, seconds, options)"""
    deep = tier == "thorough"
    k = 10 if deep else 1
    jobs = [("miri", "C28", s, 26 * k, {}) for s in range(8)]
    if deep:
        jobs += [("miri", "C28", 8 + s, 26 * k, dict(tree=1)) for s in range(4)]
    for p, s in (("C20", 7), ("C22", 7), ("C19", 7), ("C21", 6), ("C16", 6), ("C17", 6), ("C18", 6), ("C28", 6), ("C25", 4), ("C11", 4)):
        jobs += [("tsan", p, x, s * k, {}) for x in range(2 if deep or p in ("C20", "C19") else 1)]
    for p, s in (("C28", 8), ("C20", 7), ("C22", 7), ("C24", 6), ("C21", 6), ("C16", 5), ("C17", 5), ("C18", 5), ("C19", 5), ("C12", 5), ("C23", 5), ("C02", 4), ("C25", 4), ("C26", 4)):
        jobs += [("asan", p, x, s * k, {}) for x in range(2 if deep or p == "C28" else 1)]
    for p, s in (("C28", 6), ("C20", 5), ("C22", 5), ("C24", 5), ("C21", 4), ("C16", 4), ("C17", 4), ("C18", 4), ("C19", 4), ("C12", 4), ("C23", 4), ("C25", 4), ("C26", 4), ("C02", 3), ("C04", 3)):
        jobs += [("msan", p, x, s * k, {}) for x in range(2 if deep else 1)]
    return jobs


def sanitizers(m, res, pid, tier, seed, only):
    """workloads of all checks under Miri, AddressSanitizer with LeakSanitizer, and ThreadSanitizer; only their reports are judged"""
    jobs = sanitizer_jobs(tier)
    if only is not None:
        jobs = [j for j in jobs if "%s/%s/%d" % j[:3] == only]
    progs = build_tools(m, sorted(set(j[0] for j in jobs)) + ["plain"])
    tmp = tempfile.mkdtemp(prefix="vt6san-", dir="/tmp")
    os.chmod(tmp, 0o755)
    running, waiting, errors = [], list(jobs), []
    seen = dict(miri=[0, 0], asan=[0, 0], tsan=[0, 0], msan=[0, 0])
    workloads = {}

    def start(j, leaks=True):
        tool, work, shard, secs, opt = j
        d = os.path.join(tmp, "%s-%s-%d%s" % (tool, work, shard, "" if leaks else "-noleaks"))
        os.mkdir(d)
        os.chmod(d, 0o755)
        os.mkdir(d + "/s")
        kw = {}
        if tool == "miri":
            kw.update(MIRI_ENV, CARGO_TARGET_DIR=os.path.join(m.BUILD, "miri"), VT6_TOOL="miri", VT6_JOBS=d + "/jobs",
                      MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-provenance-gc=100000 -Zmiri-seed=%d%s" % (seed * 100 + shard, " -Zmiri-tree-borrows" if opt.get("tree") else ""))
            e = m.env(VT6_JOBS=d + "/jobs")
            subprocess.run(progs["plain"] + ["C28", "--seed", str(seed), "--tier", tier, "--shard", str(shard), "--shards", "16", "--out", d + "/gen.json", "--scratch", d + "/s"],
                           env=e, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        elif tool == "asan":
            kw.update(ASAN_OPTIONS="detect_leaks=%d:detect_stack_use_after_return=1" % leaks)
        elif tool == "tsan":
            kw.update(TSAN_OPTIONS="halt_on_error=0:second_deadlock_stack=1:history_size=4")
        cmd = progs[tool] + [work, "--seed", str(seed), "--tier", "quick" if tool != "miri" else tier, "--shard", str(shard), "--shards", "16", "--secs", str(secs),
                             "--out", d + "/o.json", "--scratch", d + "/s"]
        err = open(d + "/err", "wb")
        p = subprocess.Popen(cmd, env=m.env(m.NIGHTLY, **kw), cwd=m.HARNESS, stdout=err, stderr=err, stdin=subprocess.DEVNULL, start_new_session=True)
        err.close()
        running.append(dict(p=p, j=j, d=d, cmd=cmd, end=time.time() + secs * 4 + 150, leaks=leaks))

    def judge(q):
        tool, work, shard, secs, _ = q["j"]
        rc = q["p"].poll()
        late = rc is None
        if late:
            m.kill(q["p"])
        text = open(q["d"] + "/err", "rb").read(20_000_000).decode(errors="replace")
        name = "%s/%s/%d" % (tool, work, shard)
        if tool == "asan" and q["leaks"] and "LeakSanitizer has encountered a fatal error" in text:
            res.notes["leaks"] = "LeakSanitizer cannot work here; run without it"
            start(q["j"], False)
            return
        found = {}
        for rx, who in REPORTS:
            for x in rx.finditer(text):
                found.setdefault(who, x)
        for who, x in found.items():
            at = re.search(r"^.*(SUMMARY: .*)$", text[x.start():], re.M) if "Sanitizer" in who else None
            what = "%s: %s" % (who, re.sub(r"0x[0-9a-f]+", "0x..", x.group(0))[:300])
            if at:
                what += " -- " + re.sub(r"\(BuildId[^)]*\)", "", at.group(1))[:300]
            res.violations.append(dict(case=name, what="%s, in workload %s (shard %d)" % (what, work, shard), detail=text[max(0, x.start() - 200):x.start() + 8000], cmd=q["cmd"]))
        d = None
        if os.path.exists(q["d"] + "/o.json"):
            try:
                d = json.load(open(q["d"] + "/o.json"))
            except ValueError:
                pass
        if d:
            seen[tool][0] += 1
            seen[tool][1] += d["evaluations"]
            workloads.setdefault(tool, {})[work] = workloads.get(tool, {}).get(work, 0) + d["evaluations"]
            res.shards += 1
            res.evaluations += d["evaluations"]
            res.samples += ["%s: %s" % (name, x) for x in d["samples"][:1]]
            if work == "C28":
                res.rule = d["rule"]
                for v in d["violations"]:
                    if not v["what"].startswith("harness:") and not found:
                        res.violations.append(dict(v, case=name, cmd=q["cmd"]))
            elif d["violations"]:
                res.count("verdicts of other properties in these runs (not judged here)", len(d["violations"]))
            for c, v in d["counters"].items():
                res.counters["%s: %s" % (tool, c)] = res.counters.get("%s: %s" % (tool, c), 0) + v
            hp = q["d"] + "/o.hashes"
            if os.path.exists(hp):
                import array
                a = array.array("Q")
                a.frombytes(open(hp, "rb").read())
                salt = zlib.crc32(("%s %s" % (tool, work)).encode())
                res.hashes.update((x ^ salt) for x in a)
        elif late:
            res.count("runs ended for taking too long")
        elif rc is not None and rc < 0 and -rc in (4, 7, 11) and not found:
            res.violations.append(dict(case=name, what="the process running the library died of signal %d in workload %s" % (-rc, work), detail=text[-4000:], cmd=q["cmd"]))
        elif not found and (tool == "miri" or work == "C28" or "panicked" not in text):
            errors.append("%s ended with %s\n%s" % (name, rc, text[-2500:]))

    try:
        while waiting or running:
            # Miri uses one processor, the others several for short times
            while waiting and len(running) < 8:
                start(waiting.pop(0))
            time.sleep(0.1)
            for q in list(running):
                if q["p"].poll() is not None or time.time() > q["end"]:
                    running.remove(q)
                    judge(q)
        if errors and not res.violations:
            raise m.HarnessError("\n".join(errors[:3]))
    finally:
        for q in running:
            m.kill(q["p"])
        shutil.rmtree(tmp, ignore_errors=True)
    res.notes["executed_under"] = {t: dict(processes=a, evaluations=b, by_workload=workloads.get(t, {})) for t, (a, b) in seen.items() if a}
    res.notes["reports_of_the_tools"] = len(res.violations)


def replay_sanitizers(m, d):
    res = m.Result()
    sanitizers(m, res, d["property"], d["tier"], d["seed"], d["case"])
    return m.finish(d["property"], res, d["seed"], d["tier"], 0.0, "exploration")


CHECKS = {
    "C01": dict(run=both_profiles, secs=8, technique="runtime oracle: round-trip and reference encoder over generated messages", note=CODEC_NOTE),
    "C02": dict(run=both_profiles, secs=8, technique="runtime oracle: differential monitoring against a reference parser", note=CODEC_NOTE),
    "C03": dict(run=both_profiles, secs=8, technique="runtime oracle: verdict monotonicity over all prefixes and extensions", note=CODEC_NOTE),
    "C04": dict(run=both_profiles, secs=8, technique="runtime monitor: canary-guarded buffers and reference encoder over all sizes", note=CODEC_NOTE),
    "C05": dict(run=both_profiles, secs=8, technique="runtime oracle: differential monitoring of codecs against canonical text", note=CODEC_NOTE),
    "C06": dict(run=both_profiles, secs=8, technique="runtime oracle: differential monitoring against reference grammars", note=CODEC_NOTE),
    "C07": dict(run=both_profiles, secs=8, technique="runtime monitor: collision, validity and hierarchy of derived IDs", note=CODEC_NOTE),
    "C08": dict(run=both_profiles, secs=8, technique="runtime oracle: differential monitoring of typed message codecs", note=CODEC_NOTE),
    "C09": dict(run=both_profiles, secs=8, technique="runtime oracle: independent reader inverts every rendering", note=CODEC_NOTE),
    "C10": dict(technique="runtime oracle: metamorphic equality of behaviour over segmentations", note=SERVER_NOTE),
    "C11": dict(technique="runtime oracle: lockstep with a reference state machine, handshakes", note=SERVER_NOTE),
    "C12": dict(technique="runtime oracle: lockstep with a reference state machine, replies", note=SERVER_NOTE),
    "C13": dict(technique="runtime oracle: lockstep with a reference state machine, error recovery", note=SERVER_NOTE),
    "C14": dict(secs=20, technique="runtime oracle: lockstep with a reference state machine, registrations", note=SERVER_NOTE),
    "C15": dict(secs=20, technique="runtime oracle: lockstep with a reference state machine, client-end", note=SERVER_NOTE),
    "C16": dict(secs=18, technique="runtime monitor: client byte streams against recorded enqueue order, injected delays", note=LIVE_NOTE, assumptions=LIVE_ASM),
    "C17": dict(secs=16, technique="runtime monitor: stdin byte streams against recorded enqueue order, injected delays", note=LIVE_NOTE, assumptions=LIVE_ASM),
    "C18": dict(secs=14, technique="runtime monitor: delivered stdout against bytes written, injected delays", note=LIVE_NOTE, assumptions=LIVE_ASM),
    "C19": dict(secs=22, technique="runtime monitor: exactly-once and order checker over broadcast logs at quiescence", note=LIVE_NOTE, assumptions=LIVE_ASM),
    "C20": dict(secs=20, technique="runtime monitor: lifecycle, descriptor, task and heap accounting under churn and faults", note=LIVE_NOTE, assumptions=LIVE_ASM),
    "C21": dict(secs=16, technique="runtime monitor: postconditions of shutdown at quiescence, from randomised states", note=LIVE_NOTE, assumptions=LIVE_ASM),
    "C22": dict(secs=18, technique="runtime monitor: panic hook and service probes under hostile clients", note=LIVE_NOTE, assumptions=LIVE_ASM),
    "C23": dict(secs=14, technique="runtime monitor: held-back bytes and peak heap under floods", note=SERVER_NOTE),
    "C24": dict(run=both_profiles, secs=12, technique="runtime monitor: discovery with prepared descriptors, arrival and system calls observed", note=ENV_NOTE),
    "C25": dict(secs=10, technique="runtime monitor: generated secrets under an observed and a controlled random source, statistics", note=ENV_NOTE),
    "C26": dict(secs=8, technique="runtime monitor: results and effects on directory trees in prepared environments", note=ENV_NOTE),
    "C27": dict(run=without_std, replay=replay_without_std, secs=10, note=CODEC_NOTE,
                technique="runtime monitor: allocation counter, and digests of a no_std program against one with std"),
    "C28": dict(run=sanitizers, replay=replay_sanitizers, technique="Miri, AddressSanitizer with LeakSanitizer, ThreadSanitizer, MemorySanitizer, UTF-8 and descriptor monitors", assumptions=[
        "the tools see the code as compiled by the nightly toolchain; Miri runs without sockets, so the Tokio server runs under the sanitizers only",
        "leaks are judged after an orderly shutdown of the server: dropping the runtime under live connections leaves cycles between them and the dispatch"],
        note="The workloads of the other checks and one without any oracle (codecs, views, conversations, discovery, secrets, threads) executed under tools that report undefined "
             "behaviour, memory errors, leaks and data races; shows their absence in the executions made. "),
    "C29": dict(run=with_example, replay=replay_example, secs=14, technique="runtime monitor: the running binary against a reference state machine", assumptions=[
        "for stdin and stdout connections, which acknowledge nothing, a step is over when all threads of the server have come to rest"],
        note="The bundled binary in a scratch runtime directory, driven by concurrent clients from the first hello to the interrupt; replies, closings, log, exit status and socket are "
             "compared with a reference state machine written from the protocol documentation; shows the property on the sessions executed. "),
    "C30": dict(run=both_profiles, secs=8, technique="runtime oracle: selector membership against string prefix and order laws", note=CODEC_NOTE),
    "C31": dict(secs=14, technique="runtime monitor: live heap at rest across repeated histories", note=SERVER_NOTE),
    "C32": dict(run=both_profiles, secs=6, technique="runtime oracle: printed texts read back and compared with what was reported", note=CODEC_NOTE),
    "C33": dict(secs=10, technique="runtime monitor: notifications against observed and injected failures of system calls", note=SERVER_NOTE),
    "C34": dict(secs=10, technique="runtime monitor: non-interference of servers in one process, with calls and state of the process observed", note=SERVER_NOTE),
}


NOT_APPLICABLE = {}


def setup(m):
    m.build_harness("dev")
    m.build_harness("release")
    nostd_programs(m)
    example_server(m)
    build_tools(m, ["asan", "tsan", "msan", "miri"])
