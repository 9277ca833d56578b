mod alloc;
mod gen;
mod harness;
mod model;
mod obs;
mod p_core;
mod p_json;
mod p_laws;
mod p_notation;
mod p_oracle;
mod p_pane;
mod p_san;
mod p_work;
mod rng;
mod valid;
mod world;

use harness::*;
use serde_json::{json, Value};
use std::path::PathBuf;
use std::time::Instant;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

fn props() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(p_core::props());
    v.extend(p_pane::props());
    v.extend(p_work::props());
    v.extend(p_notation::props());
    v.extend(p_json::props());
    v.extend(p_oracle::props());
    v.extend(p_laws::props());
    v
}

/// How much more than the workloads' nominal number of cases the quick tier runs, so that each
/// property gets about 100 s of CPU time.
fn quick_scale(id: &str) -> f64 {
    match id {
        "C02" | "C03" | "C04" => 1.6,
        "C01" | "C05" => 2.0,
        "C12" => 8.0,
        "C06" | "C07" => 5.0,
        "C17" => 3.0,
        "C15" | "C16" | "C18" | "C19" | "C22" => 4.0,
        "C08" | "C09" | "C11" | "C26" => 5.0,
        "C20" | "C21" | "C23" => 6.0,
        "C10" => 8.0,
        "C14" => 12.0,
        "C24" => 15.0,
        "C27" => 5.0,
        "C28" => 3.0,
        "C29" => 5.0,
        _ => 1.0,
    }
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

/// Lines "known: property=<id> workload=<w> seed=<s> size=<n> ..." identify a recorded finding by
/// the exact case that fails.
fn known_findings(id: &str) -> Vec<(String, String, String)> {
    let text = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    let mut out = vec![];
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix(&format!("known: property={} ", id)) {
            let get = |k: &str| {
                rest.split_whitespace()
                    .find_map(|t| t.strip_prefix(k))
                    .unwrap_or("")
                    .to_string()
            };
            out.push((get("workload="), get("seed="), rest.to_string()));
        }
    }
    out
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.is_empty() {
        eprintln!("usage: ppp-monitor <property> [quick|thorough] | --replay <file> | --list");
        std::process::exit(2);
    }
    let all = props();
    let find = |id: &str| all.iter().find(|p| p.id == id);
    if args[0] == "--list" {
        for p in &all {
            println!("{} {}", p.id, p.workloads.iter().map(|w| w.name).collect::<Vec<_>>().join(","));
        }
        return;
    }
    if args[0] == "--inline" {
        return p_san::inline(&all, &args[1..]);
    }
    if args[0] == "--fresh" {
        return p_core::fresh(&args[1..]);
    }
    if args[0] == "--control" {
        return p_san::control(&args[1]);
    }
    if args[0] == "--worker" {
        let prop = find(&args[1]).expect("property");
        let o = Opts {
            thorough: args[2] == "thorough",
            seed: args[3].parse().unwrap(),
            dir: PathBuf::from(&args[4]),
            scale: args[5].parse().unwrap(),
            wall_cap: args[6].parse().unwrap(),
        };
        worker(prop, &o, args[7].parse().unwrap(), args[8].parse().unwrap());
    }
    if args[0] == "--replay" {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[1]).unwrap()).unwrap();
        let prop = find(v["property"].as_str().unwrap()).expect("property");
        let w = prop
            .workloads
            .iter()
            .find(|w| Some(w.name) == v["workload"].as_str())
            .expect("workload");
        let mut ctx = Ctx::new(v["tier"] == "thorough");
        ctx.verbose = true;
        quiet_panics();
        let res = run_case(
            w,
            v["seed"].as_str().unwrap().parse().unwrap(),
            v["size"].as_u64().unwrap() as usize,
            &mut ctx,
        );
        match res {
            CaseResult::Ok => println!("replay: property holds on this case"),
            CaseResult::Violation(m) => {
                println!("replay: violation\n{}", m);
                std::process::exit(1);
            }
            CaseResult::HarnessError(m) => {
                println!("replay: harness error {}", m);
                std::process::exit(2);
            }
        }
        return;
    }

    let id = args[0].clone();
    let prop = match find(&id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(2);
        }
    };
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = args.get(1).cloned().unwrap_or(tier);
    let thorough = tier == "thorough";
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let scale: f64 = std::env::var("VERIF_SCALE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { 1.0 } else { quick_scale(&id) });
    let wall_cap: f64 = std::env::var("VERIF_WALL_CAP")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { 3000.0 } else { 240.0 });
    let workers: u64 = std::env::var("VERIF_WORKERS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(8);
    let t0 = Instant::now();
    let dir = std::env::temp_dir().join(format!("ppp-monitor-{}-{}", id, std::process::id()));
    let o = Opts {
        thorough,
        seed,
        dir: dir.clone(),
        scale,
        wall_cap,
    };
    let rep = run_workers(prop, &o, workers);
    let _ = std::fs::remove_dir_all(&dir);

    let known = known_findings(&id);
    let mut violation = rep.violation.clone();
    let mut violations = 0;
    if let Some(v) = &violation {
        if let Some(k) = known
            .iter()
            .find(|k| Some(k.0.as_str()) == v["workload"].as_str() && Some(k.1.as_str()) == v["seed"].as_str())
        {
            println!("KNOWN-FINDING: property={} {}", id, k.2);
            violation = None;
        }
    }
    let missing: Vec<&str> = prop
        .required
        .iter()
        .filter(|k| rep.counters.get(**k).copied().unwrap_or(0) == 0)
        .copied()
        .collect();
    let replay = verif_dir().join("evidence").join("replays").join(format!("{}.json", id));
    let _ = std::fs::create_dir_all(replay.parent().unwrap());
    let _ = std::fs::remove_file(&replay);
    if let Some(v) = &violation {
        violations = 1;
        let f = json!({"property": id, "tier": tier, "workload": v["workload"], "seed": v["seed"],
            "size": v["size"], "message": v["msg"]});
        std::fs::write(&replay, serde_json::to_string_pretty(&f).unwrap()).unwrap();
    }
    let mut samples = rep.samples.clone();
    if samples.is_empty() {
        samples.push("(none recorded)".into());
    }
    let evidence = json!({
        "property": id, "tier": if thorough {"thorough"} else {"quick"}, "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": rep.cases,
            "distinct_nontrivial": rep.distinct,
            "rule": prop.rule,
            "samples": samples,
            "observed": rep.counters,
            "cases_per_workload": rep.n,
            "cpu_ms_per_workload": rep.cpu,
            "workers_stopped_by_wall_cap": rep.timed_out,
        },
        "assumptions": prop.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    std::fs::write(
        verif_dir().join("evidence").join(format!("{}.json", id)),
        serde_json::to_string_pretty(&evidence).unwrap(),
    )
    .unwrap();
    if let Some(v) = &violation {
        println!("{}", v["msg"].as_str().unwrap_or(""));
        println!("workload={} seed={} size={}", v["workload"], v["seed"], v["size"]);
        println!("VIOLATION property={} replay={}", id, replay.display());
        std::process::exit(1);
    }
    if !rep.harness_errors.is_empty() {
        for e in rep.harness_errors.iter().take(5) {
            eprintln!("harness error: {}", e);
        }
        std::process::exit(2);
    }
    if !missing.is_empty() {
        eprintln!("inconclusive: never observed {:?}", missing);
        std::process::exit(2);
    }
    println!(
        "{} held on {} cases ({} distinct non-trivial), {:.1} s",
        id,
        rep.cases,
        rep.distinct,
        t0.elapsed().as_secs_f64()
    );
    for (k, v) in &rep.counters {
        println!("  {}: {}", k, v);
    }
    for (k, v) in &rep.cpu {
        println!("  cpu[{}]: {} ms for {} cases", k, v, rep.n[k]);
    }
}
