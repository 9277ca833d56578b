#!/usr/bin/env python3
"""C25: run the monitors' workloads under AddressSanitizer + LeakSanitizer, ThreadSanitizer and Miri.

usage: sanitize.py [quick|thorough]      sanitize.py --replay FILE
Exit 0: nothing reported; 1: a sanitizer or Miri reported something (VIOLATION line); 2: inconclusive.
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(HERE, "harness")
TARGET = "x86_64-unknown-linux-gnu"
SEED = int(os.environ.get("VERIF_SEED", "1"))

# (workload, cases per round); everything that runs in one process and does not measure resources
ALL = """C01:layout:4 C01:sweep C02:focus:2 C03:focus:2 C04:fit C05:styles:2 C06:widths:2 C07:words:2
C09:hostile:4 C09:any:2 C10:contract:2 C11:faults:3 C11:far C14:schedules:3 C08:any C08:deep C22:structure
C22:print C15:cells:3 C16:divide:3 C16:strip C17:window:2 C17:scroll C18:cursor:2 C19:window-faults:3 C19:errors:2
C20:writes:2 C20:display:2 C20:unbounded C21:json:2 C24:build:2 C24:threads C24:styles C23:oracle C25:threads:2
C25:iterators:4""".split()
BIG = "C06:long C09:long C11:far:4 C15:big C17:scroll:4 C23:long C20:unbounded".split()
THREADS = "C25:threads:4 C14:schedules:4 C24:threads:4 C25:iterators".split()
# Miri is thousands of times slower, so each process gets its own selection
MIRI = [
    "C25:threads C14:schedules",
    "C24:threads C25:threads C24:build C21:json",
    "C01:layout C02:focus C03:focus C10:contract",
    "C11:faults C09:hostile C11:far",
    "C15:cells C17:window C18:cursor C19:window-faults",
    "C25:iterators C20:writes C20:display C16:divide C19:errors",
    "C04:fit C05:styles C06:widths C07:words C23:oracle",
    "C08:any C08:deep C22:print C09:any C24:styles",
]

def repo_sum():
    h = hashlib.sha256()
    for base in ("src", "Cargo.toml"):
        p = os.path.join("/repo", base)
        fs = [p] if os.path.isfile(p) else sorted(os.path.join(d, f) for d, _, x in os.walk(p) for f in x)
        for f in fs:
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()

def env(kind, extra=None):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", VERIF_DIR=HERE,
             CARGO_TARGET_DIR=os.path.join(HERE, "target", kind), XDG_CACHE_HOME=os.path.join(HERE, "target", "cache"))
    e.pop("RUSTFLAGS", None)
    if kind == "asan":
        e["RUSTFLAGS"] = "-Zsanitizer=address"
        e["ASAN_OPTIONS"] = "detect_leaks=1:abort_on_error=0:exitcode=86:detect_stack_use_after_return=1:allocator_may_return_null=1"
        e["LSAN_OPTIONS"] = "exitcode=87"
    elif kind == "tsan":
        e["RUSTFLAGS"] = "-Zsanitizer=thread"
        e["TSAN_OPTIONS"] = "exitcode=88:halt_on_error=1:second_deadlock_stack=1"
    elif kind == "miri":
        e["MIRIFLAGS"] = "-Zmiri-disable-isolation"
    e.update(extra or {})
    return e

def build(kind, sum_, problems):
    t = os.path.join(HERE, "target", kind)
    os.makedirs(t, exist_ok=True)
    stamp = os.path.join(t, "repo.sum")
    args = {"asan": ["build", "--release", "--target", TARGET],
            "tsan": ["build", "--release", "-Zbuild-std", "--target", TARGET],
            "miri": ["miri", "run"]}[kind]
    e = env(kind)
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != sum_:
        # Cargo goes by modification times; make it forget the crate if the contents differ.
        for d, dirs, _ in os.walk(t):
            for x in list(dirs):
                if x == "partial-pretty-printer" or x.startswith("partial-pretty-printer-"):
                    shutil.rmtree(os.path.join(d, x))
                    dirs.remove(x)
    cmd = ["cargo", "+nightly"] + args + ["--locked"]
    if kind == "miri":
        cmd += ["--", "--control", "none"]
    p = subprocess.run(cmd, cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        problems.append("building for %s failed:\n%s" % (kind, p.stdout[-4000:]))
    else:
        open(stamp, "w").write(sum_)

def build_all(sum_, problems):
    ts = [threading.Thread(target=build, args=(k, sum_, problems)) for k in ("tsan", "miri", "asan")]
    [t.start() for t in ts]; [t.join() for t in ts]

def command(kind, args):
    if kind == "miri":
        return ["cargo", "+nightly", "miri", "run", "--locked", "-q", "--"] + args
    return [os.path.join(HERE, "target", kind, TARGET, "release", "ppp-monitor")] + args

def execute(kind, args, extra, limit):
    t0 = time.time()
    with tempfile.TemporaryFile() as out, tempfile.TemporaryFile() as err:
        p = subprocess.Popen(command(kind, args), cwd=HARNESS, env=env(kind, extra), stdout=out, stderr=err, start_new_session=True)
        try:
            rc = p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
            p.wait()
            rc = None
        out.seek(0); err.seek(0)
        o = out.read().decode("utf8", "replace")
        x = err.read().decode("utf8", "replace")
    return rc, o, x, time.time() - t0

REPORT = re.compile(r"(ERROR: (Address|Leak)Sanitizer[^\n]*|WARNING: ThreadSanitizer[^\n]*|ERROR: ThreadSanitizer[^\n]*|"
                    r"error: Undefined Behavior[^\n]*|error: memory leaked[^\n]*|error: .*Data race[^\n]*|error: deadlock[^\n]*|error: the evaluated program (?:leaked|deadlocked)[^\n]*)")
SANITIZER_TROUBLE = re.compile(r"LeakSanitizer has encountered a fatal error|LeakSanitizer does not work under ptrace|unexpected memory mapping|error: unsupported operation|Shadow memory range interleaves|failed to allocate|rss limit")

def controls():
    """Does each tool notice a deliberate fault here?"""
    res = {}
    def one(name, kind, what):
        rc, o, x, _ = execute(kind, ["--control", what], {}, 120)
        res[name] = rc not in (0, None) and bool(REPORT.search(x))
    ts = [threading.Thread(target=one, args=a) for a in [
        ("asan_use_after_free", "asan", "uaf"), ("asan_leak", "asan", "leak"), ("tsan_race", "tsan", "race"),
        ("miri_use_after_free", "miri", "uaf"), ("miri_leak", "miri", "leak"), ("miri_race", "miri", "race")]]
    [t.start() for t in ts]; [t.join() for t in ts]
    return res

def judge(rc, o, x):
    """-> (verdict, text): ok / violation / trouble"""
    done = [l for l in o.splitlines() if l.startswith("INLINE ")]
    m = REPORT.search(x)
    if m and not (SANITIZER_TROUBLE.search(x) and "LeakSanitizer" in m.group(0)):
        return "violation", m.group(0) + "\n" + x[max(0, m.start() - 300):m.start() + 3500]
    if SANITIZER_TROUBLE.search(x):
        return "trouble", x[-2000:]
    if rc == 0 and done:
        return "ok", done[-1][7:]
    if rc is None:
        return "trouble", "time limit"
    if rc == 41:
        return "trouble", "resource limit of the harness: " + o[-500:]
    if rc is not None and rc < 0 and -rc in (4, 6, 7, 8, 11):
        return "violation", "died of signal %d\n%s" % (-rc, x[-3000:])
    return "trouble", "exit status %s\n%s\n%s" % (rc, o[-500:], x[-1500:])

def last_case(x):
    c = re.findall(r"^case (\S+) seed (\d+) size (\d+)$", x, re.M)
    return c[-1] if c else None

def main():
    t0 = time.time()
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        f = json.load(open(sys.argv[2]))
        problems = []
        build(f["tool"], repo_sum(), problems)
        if problems:
            print(problems[0]); sys.exit(2)
        rc, o, x, _ = execute(f["tool"], f["args"], f["env"], 1200)
        v, text = judge(rc, o, x)
        print(v, text)
        sys.exit({"ok": 0, "violation": 1, "trouble": 2}[v])
    if sys.argv[1:] == ["--build"]:
        problems = []
        build_all(repo_sum(), problems)
        print("\n".join(problems))
        sys.exit(1 if problems else 0)
    tier = sys.argv[1] if len(sys.argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    thorough = tier == "thorough"
    native_s, miri_s = (900, 2400) if thorough else (40, 150)
    s = repo_sum()
    problems = []
    build_all(s, problems)
    built = time.time() - t0
    if problems:
        print("\n".join(problems), file=sys.stderr)
        sys.exit(2)
    ctl = controls()
    if not thorough:
        # keep well inside the time limit on a slow machine
        left = 760 - (time.time() - t0)
        native_s, miri_s = max(10, min(native_s, left * 0.2)), max(20, min(miri_s, left * 0.5))
    R = str(10**9)
    jobs = []
    for k in range(4):
        jobs.append(("asan", ["--inline", str(SEED * 1000 + k), str(native_s), "40", R] + ALL, {}))
    jobs.append(("asan", ["--inline", str(SEED * 1000 + 10), str(native_s), "60", R] + BIG, {}))
    for k in range(2):
        jobs.append(("tsan", ["--inline", str(SEED * 1000 + 20 + k), str(native_s), "30", R] + THREADS, {}))
    jobs.append(("tsan", ["--inline", str(SEED * 1000 + 30), str(native_s), "20", R] + THREADS + ALL, {}))
    # Many fresh processes, so that first uses race as well
    fresh = 400 if thorough else 60
    miri = []
    for k, specs in enumerate(MIRI):
        flags = "-Zmiri-disable-isolation -Zmiri-seed=%d -Zmiri-preemption-rate=%s" % (SEED * 100 + k, "0.1" if k < 2 else "0.01")
        if k % 2 == 1:
            flags += " -Zmiri-tree-borrows"
        # (a case can take a while, and its time comes on top)
        miri.append(("miri", ["--inline", str(SEED * 1000 + 40 + k), str(miri_s), "6", R] + specs.split(), {"MIRIFLAGS": flags}))
    results = []
    lock = threading.Lock()
    def run(jobs_, limit):
        def one(j):
            kind, args, extra = j
            rc, o, x, dt = execute(kind, args, extra, limit)
            v, text = judge(rc, o, x)
            with lock:
                results.append((kind, args, extra, v, text, last_case(x), dt))
        ts_ = [threading.Thread(target=one, args=(j,)) for j in jobs_]
        [t.start() for t in ts_]; [t.join() for t in ts_]
    run(jobs, native_s + 120)
    def firsts():
        for k in range(0, fresh, 8):
            run([("tsan", ["--inline", str(SEED * 100000 + k + i), "30", "10", "1", "C25:threads"], {}) for i in range(8)], 60)
    firsts()
    run(miri, miri_s + (600 if thorough else 200))

    bad = [r for r in results if r[3] == "violation"]
    # A process stopped by its time limit in the middle of a case has found nothing before
    trouble = [r for r in results if r[3] == "trouble" and r[4] != "time limit"]
    ev = {"cases": 0, "threads": 0, "functional": 0}
    per = {}
    counters = {}
    distinct = 0
    for kind, args, extra, v, text, case, dt in results:
        d = per.setdefault(kind, {"processes": 0, "stopped_by_time_limit": 0, "cases": {}, "seconds": 0})
        d["processes"] += 1
        d["seconds"] = round(d["seconds"] + dt, 1)
        if v == "ok":
            j = json.loads(text)
            ev["cases"] += j["cases"]
            ev["functional"] += j["functional_failures"]
            distinct += j["distinct"]
            for k, n in j["per_workload"].items():
                d["cases"][k] = d["cases"].get(k, 0) + n
            for k, n in j["counters"].items():
                counters[k] = max(counters.get(k, 0), n) if k.startswith("max_") else counters.get(k, 0) + n
        elif text == "time limit":
            d["stopped_by_time_limit"] += 1
    replay_dir = os.path.join(HERE, "evidence", "replays")
    os.makedirs(replay_dir, exist_ok=True)
    replay = os.path.join(replay_dir, "C25.json")
    if os.path.exists(replay):
        os.remove(replay)
    for k in ("asan", "tsan", "miri"):
        if not per.get(k, {}).get("cases"):
            trouble.append((k, [], {}, "trouble", "no process of this kind finished", None, 0))
    for name in ("asan_use_after_free", "tsan_race", "miri_use_after_free", "miri_leak", "miri_race"):
        if not ctl.get(name):
            trouble.append((name, [], {}, "trouble", "the deliberate fault was not noticed", None, 0))
    keep = ["threads_printing_json", "concurrent_prints", "threads", "interleaved_steps", "iterators_abandoned", "faults_injected", "json_documents_used", "lines_printed", "layouts"]
    evidence = {
        "property": "C25", "tier": "thorough" if thorough else "quick", "seed": SEED, "level": "exploration",
        "coverage": {
            "evaluations": ev["cases"], "distinct_nontrivial": distinct,
            "rule": "cases of the other properties' workloads executed under AddressSanitizer with LeakSanitizer, ThreadSanitizer or Miri; distinct as those workloads count it (summed over processes with different seeds)",
            "samples": ["%s %s" % (r[0], " ".join(r[1])) for r in results[:3]],
            "observed": {k: counters[k] for k in sorted(counters) if k in keep or not k.startswith(("variant", "rejected", "max_"))},
            "per_tool": per, "deliberate_faults_noticed": ctl, "functional_failures_of_other_properties": ev["functional"],
            "build_seconds": round(built, 1),
        },
        "assumptions": ["ThreadSanitizer and Miri see the schedules that happened; LeakSanitizer runs at process exit"
                        + ("" if ctl.get("asan_leak") else " (LeakSanitizer does not work in this sandbox: leaks are decided by Miri alone)")],
        "wall_s": time.time() - t0, "violations": len(bad),
    }
    json.dump(evidence, open(os.path.join(HERE, "evidence", "C25.json"), "w"), indent=1)
    if bad:
        kind, args, extra, v, text, case, dt = bad[0]
        json.dump({"property": "C25", "tool": kind, "args": args, "env": extra, "report": text, "last_case": case}, open(replay, "w"), indent=1)
        print("%s reports, in or after case %s:\n%s" % (kind, case, text))
        print("VIOLATION property=C25 replay=%s" % replay)
        sys.exit(1)
    if trouble:
        for t in trouble[:4]:
            print("inconclusive: %s %s\n%s" % (t[0], " ".join(t[1])[:200], t[4][-1500:]), file=sys.stderr)
        sys.exit(2)
    print("C25 held on %d cases (%d distinct), %.0f s" % (ev["cases"], distinct, time.time() - t0))
    for k, d in per.items():
        print("  %s: %d processes, %d cases" % (k, d["processes"], sum(d["cases"].values())))
    print("  deliberate faults noticed:", ctl)
    print("  functional failures of other properties:", ev["functional"])

main()
