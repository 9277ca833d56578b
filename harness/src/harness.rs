//! Running cases: worker processes, budgets, attribution of crashes, evidence and replays.
use crate::alloc;
use crate::rng::{hash_str, mix, Rng};
use crate::world::BudgetExceeded;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Ctx {
    pub size: usize,
    pub thorough: bool,
    pub counters: BTreeMap<String, u64>,
    pub hashes: HashSet<u64>,
    pub samples: Vec<String>,
    pub verbose: bool,
    /// What the current case is about, in case it crashes.
    pub note: String,
}
impl Ctx {
    pub fn new(thorough: bool) -> Ctx {
        Ctx {
            size: 10,
            thorough,
            counters: BTreeMap::new(),
            hashes: HashSet::new(),
            samples: vec![],
            verbose: false,
            note: String::new(),
        }
    }
    pub fn bump(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(x) = self.counters.get_mut(k) {
            *x += n
        } else {
            self.counters.insert(k.to_owned(), n);
        }
    }
    /// Record the maximum under this key.
    pub fn max(&mut self, k: &str, n: u64) {
        let k = format!("max_{}", k);
        let x = self.counters.entry(k).or_insert(0);
        *x = (*x).max(n);
    }
    /// Record a distinct non-trivial case.
    pub fn nontrivial(&mut self, h: u64) {
        self.hashes.insert(h);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let mut s = f();
            if s.len() > 1500 {
                let mut cut = 1500;
                while !s.is_char_boundary(cut) {
                    cut -= 1;
                }
                s.truncate(cut);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
}

pub type Verdict = Result<(), String>;
pub type Workload = fn(&mut Rng, &mut Ctx) -> Verdict;

pub struct W {
    pub name: &'static str,
    pub f: Workload,
    /// Number of cases in the quick tier (per 100 units of base effort).
    pub quick: u64,
    pub thorough: u64,
    pub max_size: usize,
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub workloads: Vec<W>,
    /// Counters that must not be zero, or the run observed nothing and is inconclusive.
    pub required: Vec<&'static str>,
    pub assumptions: Vec<&'static str>,
}

// --- emergencies inside a worker ---------------------------------------------------------------

static IN_WORKER: AtomicBool = AtomicBool::new(false);
static CASE_START_CPU_MS: AtomicU64 = AtomicU64::new(u64::MAX);

pub fn cpu_ms() -> u64 {
    if cfg!(miri) {
        return 0;
    }
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut ts);
        ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
    }
}

/// Report a violation by the current case without unwinding, and exit.
pub fn emergency(msg: &str) -> ! {
    let line = format!("{{\"t\":\"emergency\",\"msg\":{:?}}}\n", msg);
    unsafe {
        libc::write(1, line.as_ptr() as *const libc::c_void, line.len());
        libc::_exit(41)
    }
}

/// CPU seconds one case may take. Typical cases take milliseconds; the heaviest a few seconds.
const CASE_CPU_LIMIT_MS: u64 = 90_000;
pub const CASE_HEAP_LIMIT: i64 = 2_500_000_000;

fn start_watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        let start = CASE_START_CPU_MS.load(Ordering::SeqCst);
        if start != u64::MAX && cpu_ms().saturating_sub(start) > CASE_CPU_LIMIT_MS {
            emergency("no termination: the case used more than 90 s of CPU time");
        }
    });
}

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(other payload)".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        *LAST_PANIC.lock().unwrap() = format!("{} at {}", msg, loc);
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.lock().unwrap().clone()
}

/// Is the given panic location inside the harness itself (a bug of ours, not of the code)?
fn harness_panic(msg: &str) -> bool {
    msg.contains(" at src/")
}

#[derive(Debug)]
pub enum CaseResult {
    Ok,
    Violation(String),
    HarnessError(String),
}

pub fn run_case(w: &W, seed: u64, size: usize, ctx: &mut Ctx) -> CaseResult {
    ctx.size = size;
    ctx.note.clear();
    let mut rng = Rng::new(seed);
    CASE_START_CPU_MS.store(cpu_ms(), Ordering::SeqCst);
    alloc::set_budget(CASE_HEAP_LIMIT);
    let res = catch_unwind(AssertUnwindSafe(|| (w.f)(&mut rng, ctx)));
    alloc::clear_budget();
    CASE_START_CPU_MS.store(u64::MAX, Ordering::SeqCst);
    match res {
        Ok(Ok(())) => CaseResult::Ok,
        Ok(Err(msg)) => {
            if let Some(m) = msg.strip_prefix("HARNESS:") {
                CaseResult::HarnessError(m.to_string())
            } else {
                CaseResult::Violation(msg)
            }
        }
        Err(payload) => {
            if let Some(b) = payload.downcast_ref::<BudgetExceeded>() {
                return CaseResult::Violation(format!(
                    "no termination: more than {} document calls\n{}",
                    b.0, ctx.note
                ));
            }
            let msg = last_panic();
            if harness_panic(&msg) {
                CaseResult::HarnessError(msg)
            } else {
                CaseResult::Violation(format!("panic: {}\n{}", msg, ctx.note))
            }
        }
    }
}

/// Size of the idx-th case: mostly small, some large.
fn case_size(w: &W, seed: u64) -> usize {
    let mut r = Rng::new(seed ^ 0x51ce);
    let max = w.max_size.max(1);
    match r.below(10) {
        0..=3 => r.range(1, max.min(8)),
        4..=7 => r.range(1, max.min(30)),
        _ => r.range(1, max),
    }
}

fn case_seed(base: u64, prop: &str, w: &str, idx: u64) -> u64 {
    mix(base ^ hash_str(prop) ^ hash_str(w).rotate_left(17) ^ mix(idx))
}

pub struct Opts {
    pub thorough: bool,
    pub seed: u64,
    pub dir: PathBuf,
    pub scale: f64,
    pub wall_cap: f64,
}

/// Worker process: runs its share of the cases.
pub fn worker(prop: &Prop, o: &Opts, k: u64, of: u64) -> ! {
    IN_WORKER.store(true, Ordering::SeqCst);
    quiet_panics();
    start_watchdog();
    let statefile = o.dir.join(format!("state{}", k));
    let state = std::fs::OpenOptions::new()
        .create(true)
        .write(true)
        .truncate(true)
        .open(&statefile)
        .unwrap();
    use std::os::unix::fs::FileExt;
    let t0 = Instant::now();
    let mut ctx = Ctx::new(o.thorough);
    let mut cases = 0u64;
    let mut cpu_by: BTreeMap<&str, u64> = BTreeMap::new();
    let mut n_by: BTreeMap<&str, u64> = BTreeMap::new();
    let counts: Vec<u64> = prop
        .workloads
        .iter()
        .map(|w| {
            let n = if o.thorough { w.thorough } else { w.quick };
            ((n as f64 * o.scale) as u64).max(1)
        })
        .collect();
    let total_max = *counts.iter().max().unwrap();
    let mut out = std::io::stdout();
    let mut timed_out = false;
    // Interleave the workloads proportionally, so that a wall-clock cap cuts all of them alike.
    'outer: for round in 0..total_max {
        for (wi, w) in prop.workloads.iter().enumerate() {
            let lo = (round as u128 * counts[wi] as u128 / total_max as u128) as u64;
            let hi = ((round + 1) as u128 * counts[wi] as u128 / total_max as u128) as u64;
            for idx in lo..hi {
                if idx % of != k {
                    continue;
                }
                let seed = case_seed(o.seed, prop.id, w.name, idx);
                let size = case_size(w, seed);
                let s = format!("{:<40} {:20} {:8}\n", w.name, seed, size);
                let _ = state.write_all_at(s.as_bytes(), 0);
                let c0 = cpu_ms();
                let res = run_case(w, seed, size, &mut ctx);
                *cpu_by.entry(w.name).or_insert(0) += cpu_ms() - c0;
                *n_by.entry(w.name).or_insert(0) += 1;
                cases += 1;
                match res {
                    CaseResult::Ok => (),
                    CaseResult::HarnessError(m) => {
                        let v = json!({"t":"harness","workload":w.name,"seed":seed.to_string(),"size":size,"msg":m});
                        let _ = writeln!(out, "{}", v);
                        break 'outer;
                    }
                    CaseResult::Violation(m) => {
                        // Look for a smaller case that fails.
                        let (mut seed, mut size, mut msg) = (seed, size, m);
                        let deadline = Instant::now() + Duration::from_secs(6);
                        let mut scratch = Ctx::new(o.thorough);
                        'shrink: for s in 1..size.min(12) {
                            for j in 0..150u64 {
                                if Instant::now() > deadline {
                                    break 'shrink;
                                }
                                let sd = mix(seed ^ (s as u64) << 32 ^ j);
                                let line = format!("{:<40} {:20} {:8}\n", w.name, sd, s);
                                let _ = state.write_all_at(line.as_bytes(), 0);
                                if let CaseResult::Violation(m2) = run_case(w, sd, s, &mut scratch)
                                {
                                    seed = sd;
                                    size = s;
                                    msg = m2;
                                    break 'shrink;
                                }
                            }
                        }
                        let v = json!({"t":"violation","workload":w.name,"seed":seed.to_string(),"size":size,"msg":msg});
                        let _ = writeln!(out, "{}", v);
                        let _ = out.flush();
                        break 'outer;
                    }
                }
                if t0.elapsed().as_secs_f64() > o.wall_cap {
                    timed_out = true;
                    break 'outer;
                }
            }
        }
    }
    // distinct case fingerprints go to a file
    let mut buf = Vec::with_capacity(ctx.hashes.len() * 8);
    for h in &ctx.hashes {
        buf.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(o.dir.join(format!("hashes{}", k)), buf).unwrap();
    let v = json!({"t":"done","cases":cases,"counters":ctx.counters,"samples":ctx.samples,
        "timed_out":timed_out,"cpu":cpu_by,"n":n_by});
    let _ = writeln!(out, "{}", v);
    let _ = out.flush();
    std::process::exit(0)
}

pub struct Report {
    pub violation: Option<Value>,
    pub harness_errors: Vec<String>,
    pub cases: u64,
    pub distinct: u64,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub timed_out: u64,
    pub cpu: BTreeMap<String, u64>,
    pub n: BTreeMap<String, u64>,
}

/// Parent: run the workers and collect what they report.
pub fn run_workers(prop: &Prop, o: &Opts, workers: u64) -> Report {
    std::fs::create_dir_all(&o.dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let mut rep = Report {
        violation: None,
        harness_errors: vec![],
        cases: 0,
        distinct: 0,
        counters: BTreeMap::new(),
        samples: vec![],
        timed_out: 0,
        cpu: BTreeMap::new(),
        n: BTreeMap::new(),
    };
    let (tx, rx) = std::sync::mpsc::channel();
    let mut pids = vec![];
    for k in 0..workers {
        let mut child = Command::new(&exe)
            .arg("--worker")
            .arg(prop.id)
            .arg(if o.thorough { "thorough" } else { "quick" })
            .arg(o.seed.to_string())
            .arg(&o.dir)
            .arg(o.scale.to_string())
            .arg(o.wall_cap.to_string())
            .arg(k.to_string())
            .arg(workers.to_string())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .expect("spawn worker");
        pids.push(child.id());
        let tx = tx.clone();
        std::thread::spawn(move || {
            let stderr = child.stderr.take().unwrap();
            let errh = std::thread::spawn(move || {
                let mut s = String::new();
                let mut r = BufReader::new(stderr);
                let mut buf = [0u8; 4096];
                while let Ok(n) = r.read(&mut buf) {
                    if n == 0 {
                        break;
                    }
                    if s.len() < 20000 {
                        s.push_str(&String::from_utf8_lossy(&buf[..n]));
                    }
                }
                s
            });
            let mut lines = vec![];
            for l in BufReader::new(child.stdout.take().unwrap()).lines() {
                match l {
                    Ok(l) => lines.push(l),
                    Err(_) => break,
                }
            }
            let status = child.wait().unwrap();
            let err = errh.join().unwrap();
            let _ = tx.send((k, lines, status, err));
        });
    }
    drop(tx);
    let mut killed = false;
    for (k, lines, status, err) in rx {
        use std::os::unix::process::ExitStatusExt;
        let mut done = false;
        let mut explained = false;
        for l in &lines {
            let v: Value = match serde_json::from_str(l) {
                Ok(v) => v,
                Err(_) => continue,
            };
            match v["t"].as_str() {
                Some("violation") => {
                    explained = true;
                    if rep.violation.is_none() {
                        rep.violation = Some(v.clone());
                    }
                }
                Some("harness") => {
                    explained = true;
                    rep.harness_errors.push(l.clone());
                }
                Some("emergency") => {
                    explained = true;
                    let (w, seed, size) = read_state(o, k);
                    if rep.violation.is_none() {
                        rep.violation = Some(
                            json!({"t":"violation","workload":w,"seed":seed,"size":size,"msg":v["msg"]}),
                        );
                    }
                }
                Some("done") => {
                    done = true;
                    rep.cases += v["cases"].as_u64().unwrap_or(0);
                    rep.timed_out += v["timed_out"].as_bool().unwrap_or(false) as u64;
                    for (dst, key) in [(&mut rep.cpu, "cpu"), (&mut rep.n, "n")] {
                        for (k, x) in v[key].as_object().into_iter().flatten() {
                            *dst.entry(k.clone()).or_insert(0) += x.as_u64().unwrap_or(0);
                        }
                    }
                    for (k, x) in v["counters"].as_object().into_iter().flatten() {
                        let e = rep.counters.entry(k.clone()).or_insert(0);
                        let x = x.as_u64().unwrap_or(0);
                        if k.starts_with("max_") {
                            *e = (*e).max(x)
                        } else {
                            *e += x
                        }
                    }
                    for s in v["samples"].as_array().into_iter().flatten() {
                        if rep.samples.len() < 6 {
                            rep.samples.push(s.as_str().unwrap_or("").to_string());
                        }
                    }
                }
                _ => (),
            }
        }
        if !done && !explained && !killed {
            let (w, seed, size) = read_state(o, k);
            let sig = status.signal();
            let overflow = err.contains("overflowed its stack");
            if overflow || sig == Some(libc::SIGSEGV) || sig == Some(libc::SIGABRT) || sig == Some(libc::SIGBUS) || sig == Some(libc::SIGILL) {
                if rep.violation.is_none() {
                    rep.violation = Some(json!({"t":"violation","workload":w,"seed":seed,"size":size,
                        "msg": format!("process died by signal {:?}: {}", sig, err.lines().take(4).collect::<Vec<_>>().join(" / "))}));
                }
            } else {
                rep.harness_errors.push(format!(
                    "worker {} ended with {:?} in {} {} {}: {}",
                    k, status, w, seed, size, err
                ));
            }
        }
        if rep.violation.is_some() && !killed {
            killed = true;
            for p in &pids {
                unsafe {
                    libc::kill(*p as i32, libc::SIGKILL);
                }
            }
        }
    }
    let mut set = HashSet::new();
    for k in 0..workers {
        if let Ok(buf) = std::fs::read(o.dir.join(format!("hashes{}", k))) {
            for c in buf.chunks_exact(8) {
                set.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    rep.distinct = set.len() as u64;
    rep
}

fn read_state(o: &Opts, k: u64) -> (String, String, u64) {
    let s = std::fs::read_to_string(o.dir.join(format!("state{}", k))).unwrap_or_default();
    let mut it = s.split_whitespace();
    let w = it.next().unwrap_or("?").to_string();
    let seed = it.next().unwrap_or("0").to_string();
    let size = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
    (w, seed, size)
}
