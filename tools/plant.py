#!/usr/bin/env python3
"""Make /verif/seeded/<id> from tools/bugs/*.py, and confirm it in a scratch copy.

usage: plant.py confirm ID...   make, build, run the tests and the demonstration with and without
       plant.py check ID... [-- PROPERTY...]   apply to /repo, run the property's check(s), undo
A bug file defines BUGS = {id: Bug(property, needs, breaks, edits = [(file, old, new), ...], demo = Rust source)}.
"""
import json, multiprocessing, os, shutil, subprocess, sys, importlib.util, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = os.path.join(HERE, "tools", "bugs")
SEEDED = os.path.join(HERE, "seeded")

def load(i):
    for f in sorted(os.listdir(BUGS), reverse=True):
        if f.endswith(".py"):
            spec = importlib.util.spec_from_file_location(f[:-3], os.path.join(BUGS, f))
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
            if i in m.BUGS:
                return m.BUGS[i]
    raise AssertionError("no such bug " + i)

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def make(i):
    b = load(i)
    d = "/tmp/plant/" + i
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/plant", exist_ok=True)
    sh("git -C /repo worktree prune; git clone -q /repo %s" % d)
    # (the same Cargo.lock, if any)
    for f, old, new in b.edits:
        p = os.path.join(d, f)
        s = open(p).read()
        assert s.count(old) == 1, "%s: %d occurrences in %s of\n%s" % (i, s.count(old), f, old)
        open(p, "w").write(s.replace(old, new))
    out = os.path.join(SEEDED, i)
    os.makedirs(out, exist_ok=True)
    diff = sh("git -C %s diff" % d).stdout
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    json.dump({"property": b.property, "needs": b.needs, "what_it_breaks": b.breaks}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    for f in ("demo.sh", "common.rs"):
        shutil.copy(os.path.join(HERE, "tools", "demo", f), out)
    open(os.path.join(out, "main.rs"), "w").write("mod common;\nuse common::*;\n\n" + b.demo.strip() + "\n")
    return d, out, diff

def original_lines(i, diff):
    """Does the patch remove or change a line that was in the base commit?"""
    ok = False
    cur = None
    base = {}
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            cur = l[6:]
            base[cur] = set(x.strip() for x in sh("git -C /repo show d6802b4:%s" % cur).stdout.splitlines())
        elif l.startswith("-") and not l.startswith("---"):
            ok = ok or l[1:].strip() in base.get(cur, ())
    return ok

def confirm(i):
    d, out, diff = make(i)
    res = []
    if not original_lines(i, diff):
        res.append("CHANGES NO ORIGINAL LINE")
    # existing tests with the bug: in a mirror without the git dependency, as build.sh does
    w = "/tmp/plant/ws-" + i
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    for f in os.listdir(d):
        if f not in (".git", "Cargo.toml", "target"):
            os.symlink(os.path.join(d, f), os.path.join(w, f))
    shutil.copy("/opt/vp/ws/Cargo.toml", w + "/Cargo.toml")
    if os.path.exists("/opt/vp/ws/Cargo.lock"):
        try:
            os.unlink(w + "/Cargo.lock")
        except FileNotFoundError:
            pass
        shutil.copy("/opt/vp/ws/Cargo.lock", w + "/Cargo.lock")
    r = sh("cargo test --offline --workspace --no-fail-fast 2>&1 | tee %s/log | grep -E '^test result|FAILED|^error' " % w, cwd=w, env=dict(os.environ, CARGO_TARGET_DIR="/tmp/plant/target-%s" % multiprocessing.current_process().name, CARGO_TERM_COLOR="never"))
    passed = sum(int(l.split("ok. ")[1].split(" passed")[0]) for l in r.stdout.splitlines() if "ok. " in l)
    if "FAILED" in r.stdout or "error" in r.stdout:
        res.append("TESTS: " + " / ".join([l for l in r.stdout.splitlines() if "..." in l or "error" in l][:4]))
    r2 = sh("cargo check --lib --features serialization --offline", cwd=w, env=dict(os.environ, CARGO_TARGET_DIR="/tmp/plant/target-%s" % multiprocessing.current_process().name))
    if r2.returncode:
        res.append("serialization check fails")
    t0 = time.time()
    with_ = sh("bash %s/demo.sh" % out, cwd=d)
    clean = d + "-clean"
    shutil.rmtree(clean, ignore_errors=True)
    sh("git clone -q /repo %s" % clean)
    without = sh("bash %s/demo.sh" % out, cwd=clean)
    shutil.rmtree(clean, ignore_errors=True)
    if with_.returncode in (0, 3):
        res.append("DEMO WITH BUG: rc %d %s" % (with_.returncode, with_.stdout[-1500:]))
    if without.returncode != 0:
        res.append("DEMO WITHOUT BUG: rc %d %s" % (without.returncode, without.stdout[-1500:]))
    print(i, "ok" if not res else "\n   ".join(res), "| %d tests passed, demo rc %d (%s), %.0f s" % (passed, with_.returncode, with_.stdout.strip().splitlines()[-1][:150] if with_.stdout.strip() else "", time.time() - t0), flush=True)
    shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(w, ignore_errors=True)

def confirm_quietly(i):
    try:
        confirm(i)
    except AssertionError as e:
        print(i, "EDIT", e, flush=True)

def check(ids, props):
    for i in ids:
        meta = json.load(open(os.path.join(SEEDED, i, "meta.json")))
        r = sh("git -C /repo apply %s/%s/patch.diff" % (SEEDED, i))
        if r.returncode:
            print(i, "does not apply", r.stdout)
            continue
        try:
            for p in props or [meta["property"]]:
                t0 = time.time()
                r = sh("./run.sh %s quick" % p, cwd=HERE)
                lines = r.stdout.strip().splitlines()
                hit = r.returncode == 1 and any(l.startswith("VIOLATION property=%s " % p) for l in lines)
                msg = next((l for l in lines if l.strip() and "warning" not in l and not l.startswith(" ")), "")
                record(i, p, "caught" if hit else "missed" if r.returncode == 0 else "rc %d" % r.returncode)
                print(i, p, "CAUGHT" if hit else "missed" if r.returncode == 0 else "rc %d" % r.returncode, "%.0f s" % (time.time() - t0), msg[:170], flush=True)
        finally:
            sh("git -C /repo checkout -- .")

RESULTS = os.path.join(HERE, "tools", "bugs", "results.json")

def record(i, prop, result):
    """Remember which checks caught which bugs, for the table in DESIGN.md."""
    d = json.load(open(RESULTS)) if os.path.exists(RESULTS) else {}
    d.setdefault(i, {})[prop] = result
    json.dump(d, open(RESULTS, "w"), indent=1, sort_keys=True)

def table():
    d = json.load(open(RESULTS))
    p = os.path.join(HERE, "DESIGN.md")
    s = open(p).read()
    head = "<!-- table made by tools/plant.py table -->\n"
    s = s[:s.index(head) + len(head)]
    s += "\n| bug | what it breaks | needs | quick checks that report it | that do not |\n|---|---|---|---|---|\n"
    for i in sorted(os.listdir(SEEDED)):
        m = json.load(open(os.path.join(SEEDED, i, "meta.json")))
        r = d.get(i, {})
        pick = lambda want: ", ".join(k for k in sorted(r) if (r[k] == "caught") == want)
        s += "| %s | %s | %s | %s | %s |\n" % (i, m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), pick(True), pick(False))
    open(p, "w").write(s)

if __name__ == "__main__":
    if sys.argv[1] == "table":
        table()
        sys.exit()
    a = sys.argv[2:]
    props = []
    if "--" in a:
        k = a.index("--")
        a, props = a[:k], a[k + 1:]
    if sys.argv[1] == "confirm":
        with multiprocessing.Pool(min(4, len(a))) as pool:
            pool.map(confirm_quietly, a, chunksize=1)
    else:
        check(a, props)
