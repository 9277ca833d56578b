//! C25: workloads to run under sanitizers and under Miri, in one process without workers.
use crate::harness::*;
use crate::rng::{hash_str, mix, Rng};
use partial_pretty_printer as ppp;
use ppp::doc_examples::json::*;
use ppp::doc_examples::BasicStyle;
use ppp::pane::{display_pane, PaneNotation, PaneSize, PlainText, PrintingOptions, WidthStrategy};
use ppp::{pretty_print, pretty_print_to_string, FocusTarget, NotationError};
use std::collections::BTreeMap;
use std::sync::{Arc, Barrier};
use std::time::Instant;

macro_rules! bail { ($($t:tt)*) => { return Err(format!($($t)*)) } }

const DEPTH: usize = if cfg!(miri) { 1 } else { 3 };

fn sample(r: &mut Rng, depth: usize) -> Json {
    match r.below(if depth == 0 { 4 } else { 7 }) {
        0 => json_null(),
        1 => json_bool(r.pct(50)),
        2 => json_number(r.below(1000) as f64 / 8.0),
        3 => json_string(r.pick::<&str>(&["", "text", "日本語", "\"q\"\n", "a longer piece of text"])),
        4 => {
            let mut v: Vec<Json> = (0..r.below(4)).map(|_| sample(r, depth - 1)).collect();
            if r.pct(30) {
                v.push(json_comment("some words of a comment"));
            }
            json_array(v)
        }
        5 => json_object((0..r.below(4)).map(|i| json_object_pair(&format!("k{}", i), sample(r, depth - 1))).collect()),
        _ => json_array(vec![json_comment("日本 words"), sample(r, depth - 1), sample(r, depth - 1)]),
    }
}

fn use_doc(doc: &Json, r: &mut Rng) -> Result<String, String> {
    let width = r.below(40) as u16;
    let whole = pretty_print_to_string(doc, width).map_err(|e| e.to_string())?;
    for _ in 0..2 {
        let t = *r.pick(&[FocusTarget::Start, FocusTarget::End, FocusTarget::Mark, FocusTarget::Text(1)]);
        if let Ok((mut up, f, mut down)) = pretty_print(doc, width, &[], t, Some(&BasicStyle::new().bold())) {
            // Lines outlive the iterators they come from, and the other way round.
            let mut kept = vec![];
            for _ in 0..r.below(6) {
                let l = if r.pct(50) { up.next() } else { down.next() };
                kept.push(l);
            }
            match r.below(3) {
                0 => {
                    drop(up);
                    kept.push(down.next());
                    drop(down);
                }
                1 => {
                    drop(down);
                    kept.push(up.next());
                    drop(up);
                }
                _ => {
                    drop(kept.drain(..).collect::<Vec<_>>());
                    drop((up, down));
                }
            }
            drop(f);
            for l in kept.into_iter().flatten() {
                if l.map_err(|e| e.to_string())?.to_string().contains('\n') {
                    bail!("line break in a line");
                }
            }
        }
    }
    let mut win = PlainText::<BasicStyle>::new(20, 6);
    let note: PaneNotation<u8, BasicStyle> = PaneNotation::Horz(vec![
        (PaneSize::Proportional(2), PaneNotation::Doc { label: 0 }),
        (PaneSize::Fixed(1), PaneNotation::Fill { ch: '|' }),
        (PaneSize::Dynamic, PaneNotation::Doc { label: 1 }),
    ]);
    display_pane(&mut win, &note, &BasicStyle::new(), &|_| Some((doc, options()))).map_err(|e| e.to_string())?;
    Ok(format!("{}\n{}", whole, win))
}

fn options() -> PrintingOptions {
    PrintingOptions { focus_path: vec![], focus_target: FocusTarget::Start, set_focus: true, focus_height: 0.3, width_strategy: WidthStrategy::NoMoreThan(15) }
}

/// The first use of the JSON notations, by several threads at once, and then of shared documents.
fn threads(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let n = r.range(2, if cfg!(miri) { 3 } else { 6 });
    let barrier = Arc::new(Barrier::new(n));
    let shared: Arc<std::sync::OnceLock<Json>> = Arc::new(std::sync::OnceLock::new());
    let seed = r.u64();
    let hs: Vec<_> = (0..n)
        .map(|k| {
            let (b, shared) = (barrier.clone(), shared.clone());
            std::thread::spawn(move || -> Result<Vec<String>, String> {
                b.wait();
                // The same random choices in every thread, so the same result
                let mut mine = Rng::new(seed);
                let own = sample(&mut mine, DEPTH);
                let a = use_doc(&own, &mut mine);
                b.wait();
                let mut r2 = Rng::new(seed ^ 77);
                let doc = shared.get_or_init(|| sample(&mut Rng::new(seed ^ 5), DEPTH));
                let c = use_doc(doc, &mut r2);
                b.wait();
                if k == 0 {
                    // someone else validates and fails meanwhile
                    let e = ppp::notation_constructors::left::<(), ()>().validate().err();
                    if !matches!(e, Some(NotationError::LeftOutsideJoin)) {
                        bail!("unexpected {:?}", e);
                    }
                }
                Ok(vec![a?, c?])
            })
        })
        .collect();
    let mut all = vec![];
    for h in hs {
        match h.join() {
            Ok(x) => all.push(x?),
            Err(_) => bail!("panic on a thread: {}", last_panic()),
        }
    }
    if all.iter().any(|x| *x != all[0]) {
        bail!("threads print the same document differently: {:?}", all);
    }
    ctx.nontrivial(hash_str(&all[0].concat()));
    ctx.add("threads_printing_json", n as u64);
    Ok(())
}

fn iterators(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let doc = sample(r, DEPTH + 1);
    use_doc(&doc, r)?;
    ctx.bump("json_documents_used");
    Ok(())
}

pub fn workloads() -> Vec<W> {
    vec![
        W { name: "threads", f: threads, quick: 1, thorough: 1, max_size: 10 },
        W { name: "iterators", f: iterators, quick: 1, thorough: 1, max_size: 10 },
    ]
}

/// `--inline <seed> <seconds> <max size> <rounds> <property:workload[:cases per round]>...`
/// Runs cases one after another in this process and reports what was done on the last line.
pub fn inline(all: &[Prop], args: &[String]) {
    let seed: u64 = args[0].parse().unwrap();
    let secs: f64 = args[1].parse().unwrap();
    let max_size: usize = args[2].parse().unwrap();
    let rounds: u64 = args[3].parse().unwrap();
    let own = workloads();
    quiet_panics();
    let t0 = Instant::now();
    let mut ctx = Ctx::new(false);
    let mut cases = 0u64;
    let mut functional = 0u64;
    let mut notes: Vec<String> = vec![];
    let mut per: BTreeMap<String, u64> = BTreeMap::new();
    'outer: for round in 0..rounds {
        for spec in &args[4..] {
            let mut it = spec.split(':');
            let (id, name) = (it.next().unwrap(), it.next().unwrap());
            let n: u64 = it.next().map_or(1, |x| x.parse().unwrap());
            let w = if id == "C25" {
                own.iter().find(|w| w.name == name)
            } else {
                all.iter().find(|p| p.id == id).and_then(|p| p.workloads.iter().find(|w| w.name == name))
            }
            .unwrap_or_else(|| panic!("no workload {}", spec));
            for k in 0..n {
                if t0.elapsed().as_secs_f64() > secs {
                    break 'outer;
                }
                let s = mix(seed ^ hash_str(id) ^ hash_str(name).rotate_left(9) ^ mix(round * 1000 + k));
                let size = 1 + (mix(s) as usize) % max_size.min(w.max_size);
                // (flushed at once: tells which case it was if the process dies)
                eprintln!("case {} seed {} size {}", spec, s, size);
                match run_case(w, s, size, &mut ctx) {
                    CaseResult::Ok => (),
                    other => {
                        functional += 1;
                        if notes.len() < 3 {
                            notes.push(format!("{} {:?}", spec, other).chars().take(300).collect());
                        }
                    }
                }
                cases += 1;
                *per.entry(format!("{}:{}", id, name)).or_insert(0) += 1;
            }
        }
    }
    let v = serde_json::json!({"cases": cases, "per_workload": per, "counters": ctx.counters,
        "distinct": ctx.hashes.len(), "functional_failures": functional, "notes": notes, "seconds": t0.elapsed().as_secs_f64()});
    println!("INLINE {}", v);
    use std::io::Write;
    let _ = std::io::stdout().flush();
    drop(v);
}

/// Deliberate faults, to see that the instrumentation in use would notice.
pub fn control(kind: &str) {
    match kind {
        "uaf" => {
            let b = Box::new(41u64);
            let p = Box::into_raw(b);
            unsafe {
                drop(Box::from_raw(p));
                println!("read {}", std::ptr::read_volatile(p));
            }
        }
        "leak" => {
            let b = Box::new([7u64; 100]);
            let p = Box::into_raw(b);
            println!("leaked {}", unsafe { (*p)[3] });
        }
        "race" => {
            struct P(*mut u64);
            unsafe impl Send for P {}
            let x = Box::into_raw(Box::new(0u64));
            let ps = [P(x), P(x)];
            let hs: Vec<_> = ps
                .into_iter()
                .map(|p| {
                    std::thread::spawn(move || {
                        let p = p;
                        for _ in 0..1000 {
                            unsafe { *p.0 = std::ptr::read_volatile(p.0) + 1 };
                        }
                    })
                })
                .collect();
            for h in hs {
                h.join().unwrap();
            }
            println!("raced {}", unsafe { *Box::from_raw(x) });
        }
        _ => println!("no such control"),
    }
}
