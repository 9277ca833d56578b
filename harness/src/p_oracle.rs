//! C23: the reference printer published for testing.
use crate::gen::*;
use crate::harness::*;
use crate::model::*;
use crate::p_core::join_lines;
use crate::rng::{hash_str, Rng};
use crate::world::*;
use partial_pretty_printer as ppp;
use ppp::testing::oracular_pretty_print;
use ppp::{pretty_print_to_string, PrintingError, Width};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

macro_rules! bail { ($($t:tt)*) => { return Err(format!($($t)*)) } }

/// Does every text and literal of this document consist of characters of one or two columns, and
/// of at least one of them?
fn plain(w: &World) -> bool {
    let ok = |s: &str| !s.is_empty() && s.chars().all(|c| matches!(char_cols(c), 1 | 2)) && s.chars().map(char_cols).sum::<u64>() == disp_width(s);
    w.nodes.iter().all(|n| match &n.kind {
        Kind::Text(t) => ok(t),
        _ => true,
    }) && w.asts.iter().all(|a| {
        !a.has(|x| match x {
            Ast::Lit(s) => !ok(s),
            // (an indentation may well be empty)
            Ast::Indent(s, _, _) => !s.is_empty() && !ok(s),
            _ => false,
        })
    })
}

fn compare(w: &World, width: Width, ctx: &mut Ctx) -> Verdict {
    let (m1, m2) = (Monitor::new(), Monitor::new());
    let printed = match pretty_print_to_string(DocD::root(w, &m1), width) {
        Ok(s) => s,
        Err(PrintingError::TextAfterEndOfLine) => {
            // The reference panics; what it must not do is print something.
            m2.budget.set(400_000);
            match catch_unwind(AssertUnwindSafe(|| oracular_pretty_print(DocD::root(w, &m2), width))) {
                Ok(s) => bail!("at width {}, the printer reports text after an end-of-line marker, but the reference printer prints\n{}\n{}", width, s, w.describe()),
                Err(p) if p.downcast_ref::<BudgetExceeded>().is_some() => ctx.bump("too_slow_for_the_oracle"),
                Err(p) if last_panic().contains(" at src/") => resume_unwind(p),
                Err(_) => ctx.bump("refused_by_both"),
            }
            return Ok(());
        }
        Err(_) => {
            ctx.bump("documents_with_errors");
            return Ok(());
        }
    };
    // The reference takes exponential time: give up on documents that are too much for it.
    m2.budget.set(400_000);
    let oracle = match catch_unwind(AssertUnwindSafe(|| oracular_pretty_print(DocD::root(w, &m2), width))) {
        Ok(s) => s,
        Err(p) => {
            if p.downcast_ref::<BudgetExceeded>().is_some() {
                ctx.bump("too_slow_for_the_oracle");
                return Ok(());
            }
            if last_panic().contains(" at src/") {
                resume_unwind(p);
            }
            bail!("the reference printer panics ({}), but the printer prints, at width {}:\n{}\n{}", last_panic(), width, printed, w.describe());
        }
    };
    if printed != oracle {
        bail!("at width {}, the printer prints\n{}\nthe reference printer\n{}\n{}", width, printed, oracle, w.describe());
    }
    ctx.bump("outputs_compared");
    ctx.add("lines_compared", printed.lines().count() as u64);
    if printed.contains('\n') {
        ctx.bump("outputs_of_several_lines");
    }
    if printed.contains(['\u{200d}', '\u{301}', '\u{fe0f}', '\u{1f3fd}', '\u{323}']) {
        ctx.bump("outputs_with_sequences");
    }
    if w.nodes.len() > 2 {
        ctx.nontrivial(hash_str(&printed) ^ w.fingerprint());
    }
    // A third opinion
    let ly = Model::new(w, width as u64).layout(false);
    if ly.stop != Stop::TooBig {
        let ls = ly.lines();
        let text: Vec<String> = (0..ls.runs.len()).map(|i| ls.text(i)).collect();
        if join_lines(&text) != printed {
            bail!("at width {}, both print\n{}\nbut the layout should be\n{}\n{}", width, printed, join_lines(&text), w.describe());
        }
    }
    Ok(())
}

/// Put sequences that are not as wide as their characters into texts, between ordinary characters (so that
/// they do not form sequences with what comes before and after the text).
fn add_sequences(r: &mut Rng, w: &mut World) {
    for n in &mut w.nodes {
        if let Kind::Text(t) = &mut n.kind {
            if r.pct(60) {
                let seq = *r.pick(&["\u{1f469}\u{200d}\u{1f52c}", "\u{1f1e9}\u{1f1ea}", "e\u{301}", "\u{2764}\u{fe0f}", "\u{1f44d}\u{1f3fd}", "\u{200b}", "o\u{308}\u{323}"]);
                *t = format!("{}{}{}", t, seq, *r.pick(&["a", "zz", "一"]));
            }
        }
    }
}

fn small_world(r: &mut Rng, size: usize) -> World {
    loop {
        let n = 1 + r.below(size.max(1));
        let alpha = if r.pct(50) { Alpha::Plain } else { Alpha::Wide };
        let mut w = if r.pct(60) {
            let mut cfg = Cfg::any(r);
            cfg.alpha = alpha;
            random_world(r, &cfg, n)
        } else {
            let g = GCfg { alpha, comments: r.pct(60), hide: r.pct(60), marks: true };
            grammar_world(r, &g, n)
        };
        if plain(&w) && expansion(&w) < 3000 {
            if r.pct(25) {
                add_sequences(r, &mut w);
            }
            return w;
        }
    }
}

fn c23_oracle(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let w = small_world(r, ctx.size);
    ctx.note = w.describe();
    ctx.sample(|| w.describe());
    for _ in 0..4 {
        let width = gen_width(r, &w).min(9_999);
        compare(&w, width, ctx)?;
    }
    Ok(())
}

/// All widths from 0 to beyond the document's own.
fn c23_sweep(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let w = small_world(r, ctx.size);
    ctx.note = w.describe();
    let ly = Model::new(&w, 9_999).layout(false);
    if ly.stop == Stop::TooBig {
        return Ok(());
    }
    let max = ly.widths().into_iter().max().unwrap_or(0).min(60) as Width;
    for width in 0..=max + 2 {
        compare(&w, width, ctx)?;
    }
    ctx.bump("width_sweeps");
    Ok(())
}

/// Long lines, near the reference's limit.
fn c23_long(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let mut b = Builder::new();
    let k = r.range(2, 6);
    let total = *r.pick(&[200usize, 3000, 9_990, 9_998, 10_005, 15_000, 55_000, 60_000, 66_000, 140_000]);
    let mut kids = vec![];
    // Short texts and ones that are about as wide as the reference can tell, or a multiple of that
    let odd = r.pct(40);
    for i in 0..k {
        let n = if odd {
            *r.pick(&[1, 2, 10, 9_990, 19_990, 65_530]) + r.below(16)
        } else {
            total / k + r.below(3) + (i == 0) as usize * (total % k)
        };
        kids.push(b.add(r, Kind::Text("x".repeat(n.max(1))), 0));
    }
    let root = b.add(r, Kind::Kids(kids), 1);
    let join = match r.below(3) {
        0 => or(lit(" "), Ast::Newline),
        1 => Ast::Newline,
        _ => or(lit(", "), nest(3, lit("+"))),
    };
    let join = cats(match r.below(3) {
        0 => vec![Ast::Left, or(flat(cats(vec![lit(" "), lit("~"), Ast::Right])), cats(vec![Ast::Newline, Ast::Right]))],
        1 => vec![Ast::Left, or(flat(cat(lit(" "), Ast::Right)), cat(Ast::Newline, nest(2, Ast::Right))), lit(";")],
        _ => vec![Ast::Left, join, Ast::Right],
    });
    let asts = vec![Ast::Text, fold(Ast::Child(0), join)];
    let w = World::new(asts, b.nodes, root, r);
    let around = total + r.below(20);
    let widths = [9_999, 9_998, 5_000, (total / k).min(9_999) as Width, around.min(9_999) as Width, (around.saturating_sub(10)).min(9_999) as Width];
    for width in widths.into_iter().chain([r.below(40) as Width, r.below(200) as Width]) {
        compare(&w, width, ctx).map_err(|e| e.chars().take(600).collect::<String>())?;
    }
    ctx.bump("long_documents");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C23",
        rule: "an output compared, of a document of more than two nodes",
        workloads: vec![
            W { name: "oracle", f: c23_oracle, quick: 30_000, thorough: 1_000_000, max_size: 24 },
            W { name: "sweep", f: c23_sweep, quick: 3_000, thorough: 100_000, max_size: 14 },
            W { name: "long", f: c23_long, quick: 300, thorough: 5_000, max_size: 10 },
        ],
        required: vec!["outputs_compared", "outputs_of_several_lines", "width_sweeps", "long_documents", "refused_by_both", "outputs_with_sequences"],
        assumptions: vec![
            "texts and literals are not empty, and begin and end with one- and two-column characters; widths are below the reference's limit of 10000",
            "documents on which the reference makes more than 400000 document calls are skipped (and counted)",
        ],
    }]
}
