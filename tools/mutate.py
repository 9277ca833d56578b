#!/usr/bin/env python3
"""Systematic small changes to /repo's source, to find what no check notices.

usage: mutate.py list                    print the number of mutants
       mutate.py run OUT.jsonl [WORKERS [SHARD/OF]]   try those not in OUT.jsonl yet
MUT_FILES and MUT_CHECKS select files and checks.
Each mutant is compiled in a scratch copy; those that pass the existing tests are run against all the
checks (at a fraction of the quick tier's effort), until one reports a violation. The survivors
are then read by hand: most change nothing, or something no property speaks of.
"""
import json, multiprocessing, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = """src/consolidated_notation.rs src/geometry.rs src/notation.rs src/notation_constructors.rs src/oracle.rs
src/pretty_doc.rs src/pretty_print.rs src/valid_notation.rs src/doc_examples/json.rs src/doc_examples/style.rs
src/doc_examples/tree.rs src/pane/display_pane.rs src/pane/divvy.rs src/pane/plain_text.rs src/pane/pretty_window.rs
src/pane/printing_options.rs src/infra.rs examples/json.rs""".split()
if "MUT_FILES" in os.environ:
    FILES = [f for f in FILES if any(x in f for x in os.environ["MUT_FILES"].split())]
ALL = os.environ.get("MUT_CHECKS") or "C01 C02 C03 C05 C06 C09 C10 C11 C17 C15 C16 C18 C19 C20 C08 C22 C23 C21 C24 C07 C04 C12 C14 C27 C28 C29 C13"
ALL = ALL.split()
FIRST = {
    "src/oracle.rs": ["C23"], "src/valid_notation.rs": ["C08"], "src/notation.rs": ["C08", "C22"],
    "src/doc_examples/json.rs": ["C21"], "src/doc_examples/tree.rs": ["C24"], "src/doc_examples/style.rs": ["C24"],
    "src/pane/display_pane.rs": ["C17", "C15", "C16", "C18", "C19"], "src/pane/divvy.rs": ["C16"], "src/pane/plain_text.rs": ["C20"],
    "src/pane/pretty_window.rs": ["C20"], "src/pane/printing_options.rs": ["C17", "C18"], "examples/json.rs": ["C26"],
}
SWAPS = [
    ("==", "!="), ("!=", "=="), (" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" < ", " > "),
    ("&&", "||"), ("||", "&&"), (" + ", " - "), (" - ", " + "), (" += ", " -= "), (" -= ", " += "), (" += ", " = "),
    ("true", "false"), ("false", "true"), ("min(", "max("), ("max(", "min("),
    (".saturating_sub(", ".wrapping_sub("), (".saturating_add(", ".wrapping_add("), (".saturating_sub(", ".saturating_add("),
    (".rev()", ""), ("left", "right"), ("right", "left"), ("Left", "Right"), ("Right", "Left"), ("opt1", "opt2"), ("opt2", "opt1"),
    ("Start", "End"), ("End", "Start"), ("width", "height"), ("height", "width"), ("min_col", "max_col"), ("max_col", "min_col"),
    ("min_row", "max_row"), ("max_row", "min_row"), ("row", "col"), ("col", "row"), ("next_chunks", "prev_chunks"), ("prev_chunks", "next_chunks"),
    ("next_blocks", "prev_blocks"), ("prev_blocks", "next_blocks"), ("first", "last"), ("last", "first"),
    ("Some(", "None.or(Some("), ("is_some()", "is_none()"), ("is_none()", "is_some()"), ("is_empty()", "len() == 1"),
    ("zero", "one"), ("one", "many"), ("many", "one"), ("Continue(", "Done("), ("break", "continue"), ("continue", "break"),
    (" * ", " + "), (" / ", " * "), (" % ", " / "), ("round()", "floor()"), ("floor()", "ceil()"), ("round()", "ceil()"),
    (".any(", ".all("), (".all(", ".any("), ("here", "left"), ("flat: true", "flat: self.flat"), ("outer", "inner"), ("inner", "outer"),
    ("Width::MAX", "80"), ("Height::MAX", "80"), ("usize::MAX", "80"), ("as u64", "as u16 as u64"), ("as u128", "as u32 as u128"),
    ("child_0", "child_1"), ("Up", "Down"), ("Down", "Up"), ("parent", "self.doc"), (".pop()", ".first().cloned()"),
    (" ..= ", " .. "), ("..=", ".."), ("0..", "1.."), (".trim()", ""), (".sum()", ".max().unwrap_or_default()"), (".max()", ".min()"),
    ("else if ", "else if false && "), ("if ", "if true || "), ("if ", "if false && "), ("if !", "if "), ("while ", "while false && "),
    ("extend(", "clone_from(&"), (".push(", ".insert(0, "), ("as_ref()", "as_ref().filter(|_| false)"), ("_ =>", "_ if false =>"),
]

def code_lines(path):
    skip = False
    for n, l in enumerate(open(os.path.join("/repo", path)).read().split("\n")):
        t = l.strip()
        if "#[cfg(test)]" in t or t.startswith("mod tests"):
            skip = True
        if skip and l == "}":
            skip = False
            continue
        if skip or not t or t.startswith("//") or t.startswith("#[") or t.startswith("use ") or "assert" in t:
            continue
        yield n, l

def mutants():
    seen = set()
    for f in FILES:
        for n, l in code_lines(f):
            t = l.strip()
            out = []
            for a, b in SWAPS:
                at = -1
                while True:
                    at = l.find(a, at + 1)
                    if at < 0:
                        break
                    if a[0].isalpha() and at > 0 and (l[at - 1].isalnum()):
                        continue
                    if a[-1].isalpha() and at + len(a) < len(l) and l[at + len(a)].isalnum() and a.islower():
                        continue
                    if b.startswith("None.or("):
                        continue
                    out.append(l[:at] + b + l[at + len(a):])
            for m in re.finditer(r"(?<![\w.\"])(\d+)(?![\w.])", l):
                v = int(m[1])
                for w in {v + 1, max(v - 1, 0)} - {v}:
                    out.append(l[:m.start()] + str(w) + l[m.end():])
            if t.endswith(";") and not t.startswith(("let ", "pub ", "type ", "const ", "}", ")", "use ")) and t.count("(") == t.count(")"):
                out.append(l[:len(l) - len(t)] + "// " + t)
            if t.endswith("?;") and not t.startswith(("let ", "}", ")")):
                out.append(l.replace("?;", ".ok();"))
            if t.startswith("return ") or t.endswith("?,"):
                out.append(l[:len(l) - len(t)] + "// " + t)
            if t.endswith(",") and re.match(r"^\w+: .*,$", t) and t.count("(") == t.count(")"):
                k, v = t[:-1].split(": ", 1)
                for alt in ("Default::default()", "self." + k):
                    if v != alt:
                        out.append(l[:len(l) - len(t)] + k + ": " + alt + ",")
            for o in out:
                if o != l and (f, n, o) not in seen:
                    seen.add((f, n, o))
                    yield f, n, l, o

def sh(cmd, timeout=600, **kw):
    try:
        return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, **kw)
    except subprocess.TimeoutExpired as e:
        class R: returncode = 124; stdout = "timeout"
        return R

def setup(base):
    repo, ws, har = base + "/repo", base + "/ws", base + "/harness"
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    sh("git clone -q /repo " + repo)
    os.makedirs(ws)
    for f in os.listdir(repo):
        if f not in (".git", "Cargo.toml", "target", "Cargo.lock"):
            os.symlink(os.path.join(repo, f), os.path.join(ws, f))
    for f in ("Cargo.toml", "Cargo.lock"):
        shutil.copy("/opt/vp/ws/" + f, ws)
    shutil.copytree(HERE + "/harness", har, ignore=shutil.ignore_patterns("target"))
    c = open(har + "/Cargo.toml").read().replace('"/repo"', '"%s"' % repo)
    c += "\n[profile.mut]\ninherits = \"release\"\nopt-level = 1\nincremental = true\ncodegen-units = 64\ndebug = false\n"
    open(har + "/Cargo.toml", "w").write(c)
    shutil.copytree(HERE + "/jsonbin", base + "/jsonbin", ignore=shutil.ignore_patterns("target"))
    for root, _, fs in os.walk(base + "/jsonbin"):
        for f in fs:
            if f == "Cargo.toml":
                p = os.path.join(root, f)
                s = open(p).read().replace("/repo/", repo + "/").replace('"/repo"', '"%s"' % repo)
                open(p, "w").write(s)

def attempt(base, m, scale):
    f, n, old, new = m
    repo, ws, har = base + "/repo", base + "/ws", base + "/harness"
    p = os.path.join(repo, f)
    src = open(p).read()
    lines = src.split("\n")
    assert lines[n] == old
    lines[n] = new
    open(p, "w").write("\n".join(lines))
    env = dict(os.environ, CARGO_TERM_COLOR="never", CARGO_NET_OFFLINE="true", VERIF_DIR=base, VERIF_SEED="1")
    try:
        r = sh("cargo test -q --offline --workspace --no-run -j2", cwd=ws, env=dict(env, CARGO_TARGET_DIR=base + "/t-ws"))
        if r.returncode:
            return "does not compile", ""
        r = sh("ulimit -v 5000000; cargo test -q --offline --workspace -j2 -- --test-threads 2", timeout=60, cwd=ws, env=dict(env, CARGO_TARGET_DIR=base + "/t-ws"))
        if r.returncode:
            return "fails the tests", ""
        if f == "examples/json.rs":
            return "passes the tests", "(example)"
        r = sh("cargo build -q --offline --profile mut -j2", cwd=har, env=dict(env, CARGO_TARGET_DIR=base + "/t-har"))
        if r.returncode:
            return "harness does not build", r.stdout[-300:]
        order = FIRST.get(f, [])
        order = order + [c for c in ALL if c not in order]
        odd = []
        for c in order:
            s = scale * SCALES.get(c, 1.0)
            r = sh("ulimit -v 6000000; %s/t-har/mut/ppp-monitor %s quick" % (base, c), timeout=240, cwd=base, env=dict(env, VERIF_WORKERS="2", VERIF_SCALE=str(s), VERIF_WALL_CAP="40"))
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                return "caught", c
            if r.returncode not in (0, 2):
                odd.append("%s rc %d" % (c, r.returncode))
        return "SURVIVED", " ".join(odd)
    finally:
        open(p, "w").write(src)

SCALES = {}
def scales():
    t = open(HERE + "/harness/src/main.rs").read()
    t = t[t.index("fn quick_scale"):]
    t = t[:t.index("\n}\n")]
    for m in re.finditer(r'((?:"C\d\d"(?: \| )?)+) => ([\d.]+)', t):
        for c in re.findall(r"C\d\d", m[1]):
            SCALES[c] = float(m[2])
scales()

def worker(k, todo, out, lock, scale):
    base = "/tmp/mut/w%d" % k
    setup(base)
    while True:
        with lock:
            if not todo:
                return
            m = todo.pop(0)
        t0 = time.time()
        try:
            res, by = attempt(base, m, scale)
        except Exception as e:
            res, by = "error", repr(e)
        with lock:
            with open(out, "a") as f:
                f.write(json.dumps({"file": m[0], "line": m[1] + 1, "old": m[2].strip(), "new": m[3].strip(), "result": res, "by": by, "s": round(time.time() - t0, 1)}) + "\n")

if __name__ == "__main__":
    ms = list(mutants())
    if sys.argv[1] == "list":
        print(len(ms))
        sys.exit()
    out = sys.argv[2]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["file"], d["line"] - 1, d["old"], d["new"]))
    scale = 0.04
    if sys.argv[1] == "retest":
        # Those that survived, against more of the workloads: mutate.py retest OUT N FROM
        scale = 0.5
        alive = set()
        for l in open(sys.argv[4]):
            d = json.loads(l)
            if d["result"] == "SURVIVED" and not re.match(r"(// )?(span!|print!|println!|if DEBUG_PRINT)", d["old"]):
                alive.add((d["file"], d["line"] - 1, d["old"], d["new"]))
        ms = [m for m in ms if (m[0], m[1], m[2].strip(), m[3].strip()) in alive]
    ms = [m for m in ms if (m[0], m[1], m[2].strip(), m[3].strip()) not in done]
    mgr = multiprocessing.Manager()
    todo, lock = mgr.list(ms), mgr.Lock()
    n = int(sys.argv[3]) if len(sys.argv) > 3 else 4
    ps = [multiprocessing.Process(target=worker, args=(k, todo, out, lock, scale)) for k in range(n)]
    [p.start() for p in ps]
    [p.join() for p in ps]
