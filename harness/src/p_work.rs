//! C12, C13: work, memory and stack.
use crate::alloc;
use crate::gen::*;
use crate::harness::*;
use crate::p_core::contexts;
use crate::p_pane::Win;
use crate::rng::Rng;
use crate::world::*;
use partial_pretty_printer as ppp;
use ppp::pane::{display_pane, PaneNotation, PaneSize, PrintingOptions, WidthStrategy};
use ppp::{pretty_print, pretty_print_to_string, FocusTarget, Size, Width};

macro_rules! bail { ($($t:tt)*) => { return Err(format!($($t)*)) } }

// --- documents that scale ----------------------------------------------------------------------

/// A language whose every node displays something, so that lines are never made of nothing.
struct Lang {
    asts: Vec<Ast>,
    /// Which of them are for nodes with children, with the number of children they need (None: any).
    branch: Vec<(usize, Option<usize>)>,
    leaf: Vec<usize>,
    block: Vec<usize>,
}

/// The first option of every choice is to have no line breaks, as documented. So there are two
/// flavours: blocks that always break, holding small expressions of any kind, and lists that are
/// on one line or not, holding only what can be on one line.
fn lang(r: &mut Rng) -> Lang {
    let lists = r.pct(50);
    let ind = r.range(1, 4);
    let l = |r: &mut Rng| r.below(NUM_LABELS) as Label;
    let list = |open: &str, close: &str, ls: Label| {
        or(
            cats(vec![style(ls, lit(open)), fold(flat(Ast::Child(0)), cats(vec![Ast::Left, lit(", "), flat(Ast::Right)])), lit(close)]),
            cats(vec![
                lit(open),
                nest(ind, fold(Ast::Child(0), cats(vec![Ast::Left, check(0, Pos::LeftChild, lit(","), Ast::Empty), Ast::Newline, Ast::Right]))),
                Ast::Newline,
                lit(close),
            ]),
        )
    };
    let asts = vec![
        /* 0 */ style(l(r), Ast::Text),
        /* 1 */ cats(vec![lit("\""), Ast::Text, lit("\"")]),
        /* 2 */ list("[", "]", l(r)),
        /* 3 */ cats(vec![lit("{"), nest(ind, fold(Ast::Child(0), cats(vec![Ast::Left, Ast::Newline, Ast::Right]))), Ast::Newline, lit("}")]),
        /* 4 */ cats(vec![lit("<"), fold(Ast::Child(0), cats(vec![Ast::Left, or(lit(" "), Ast::Newline), Ast::Right])), lit(">")]),
        /* 5 */ cats(vec![Ast::Child(0), lit(": "), Ast::Child(1)]),
        /* 6 */ cats(vec![lit("f"), or(flat(cats(vec![lit("("), Ast::Child(0), lit(")")])), nest(ind, Ast::Child(0)))]),
        /* 7 */ indent("> ", Some(l(r)), cats(vec![lit("q"), Ast::Newline, fold(Ast::Child(0), cats(vec![Ast::Left, Ast::Newline, style(l(r), Ast::Right)]))])),
        /* 8 */ cats(vec![Ast::Child(0), or(lit("."), nest(ind, lit("."))), Ast::Child(1)]),
    ];
    let mut branch = vec![(2, None), (4, None), (5, Some(2)), (6, Some(1)), (8, Some(2))];
    let mut block = vec![2];
    if !lists {
        branch.extend([(3, None), (7, None)]);
        block = vec![3, 3, 3, 7];
    }
    Lang { asts, branch, leaf: vec![0, 1], block }
}

/// A balanced document with about n items at the bottom, each a small expression.
fn balanced(r: &mut Rng, n: usize, fan: usize, seed: u64) -> (World, usize) {
    // The same language and style of items for every n.
    let mut lr = Rng::new(seed);
    let lg = lang(&mut lr);
    let mut b = Builder::new();
    fn item(r: &mut Rng, lg: &Lang, b: &mut Builder, depth: usize, fan: usize) -> u32 {
        if depth == 0 || r.pct(25) {
            let t = r.pick(&["a", "bb", "ccc", "longer", "一二"]).to_string();
            let k = *r.pick(&lg.leaf);
            return b.add(r, Kind::Text(t), k);
        }
        let (k, need) = *r.pick(&lg.branch);
        let n = need.unwrap_or_else(|| r.range(1, fan));
        let kids: Vec<u32> = (0..n).map(|_| item(r, lg, b, depth - 1, fan)).collect();
        b.add(r, Kind::Kids(kids), k)
    }
    let mut level: Vec<u32> = (0..n).map(|_| item(r, &lg, &mut b, 2, fan.min(4))).collect();
    let mut depth = 3;
    while level.len() > 1 {
        depth += 1;
        let kind = *r.pick(&lg.block);
        level = level
            .chunks(fan)
            .map(|c| {
                let k = if r.pct(70) { kind } else { *r.pick(&lg.block) };
                b.add(r, Kind::Kids(c.to_vec()), k)
            })
            .collect();
    }
    (World::new(lg.asts, b.nodes, level[0], r), depth)
}

fn deep_path(r: &mut Rng, w: &World) -> Vec<usize> {
    let mut path = vec![];
    let mut n = w.root;
    while !w.kids(n).is_empty() {
        let i = r.below(w.kids(n).len());
        path.push(i);
        n = w.kids(n)[i];
    }
    let keep = if r.pct(70) { path.len() } else { r.below(path.len() + 1) };
    path.truncate(keep);
    path
}

#[derive(Clone, Copy, Debug, Default, PartialEq)]
struct Cost {
    calls: u64,
    allocs: u64,
}
impl Cost {
    fn max(self, o: Cost) -> Cost {
        Cost { calls: self.calls.max(o.calls), allocs: self.allocs.max(o.allocs) }
    }
}

/// The cost of printing the focused line and up to k lines each way.
fn peek_cost(w: &World, width: Width, path: &[usize], t: FocusTarget, k: usize) -> Result<(Cost, usize, usize), String> {
    let mon = Monitor::new();
    let a0 = alloc::allocs();
    let mut lines = 1;
    let mut segments;
    {
        let (mut up, f, mut down) = match pretty_print(DocO::root(w, &mon), width, path, t, None) {
            Ok(x) => x,
            Err(e) => bail!("HARNESS:printing a scalable document failed: {:?}", e),
        };
        segments = f.left_segments.len() + f.right_segments.len();
        drop(f);
        for _ in 0..k {
            for x in [up.next(), down.next()] {
                match x {
                    None => (),
                    Some(Ok(l)) => {
                        lines += 1;
                        segments += l.segments.len();
                    }
                    Some(Err(e)) => bail!("HARNESS:printing a scalable document failed: {:?}", e),
                }
            }
        }
    }
    Ok((Cost { calls: mon.calls.get(), allocs: alloc::allocs() - a0 }, lines, segments))
}

/// Printing k lines somewhere must not cost more in a document forty times the size.
fn c12_local(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let fan = r.range(2, 5);
    let seed = r.u64();
    let width = *r.pick(&[10u16, 20, 40, 80, 120]);
    let k = *r.pick(&[0usize, 1, 3, 10, 30]);
    let n1 = r.range(60, 120);
    let n2 = if ctx.thorough { n1 * 120 } else { n1 * 40 };
    let (small, d1) = balanced(r, n1, fan, seed);
    let (big, d2) = balanced(r, n2, fan, seed);
    ctx.note = format!("scalable documents: width {} k {} fan {}", width, k, fan);
    let target = |r: &mut Rng| *r.pick(&[FocusTarget::Start, FocusTarget::End]);
    let mut c1 = Cost::default();
    for _ in 0..40 {
        let p = deep_path(r, &small);
        let t = target(r);
        c1 = c1.max(peek_cost(&small, width, &p, t, k)?.0);
    }
    for i in 0..12 {
        let p = if i == 0 { vec![] } else { deep_path(r, &big) };
        let t = target(r);
        let (c2, lines, segments) = peek_cost(&big, width, &p, t, k)?;
        // Costs grow with depth (by d2/d1, at most squared as indentation is nested) and vary
        // with the place; they must not grow with the size of the document.
        let f = (d2 as f64 / d1 as f64).powi(2) * 3.0;
        let lim = |x: u64| (x as f64 * f) as u64 + 2500 + 200 * width as u64;
        ctx.max("calls_for_k_lines_in_big_document", c2.calls);
        ctx.add("big_document_lines_printed", lines as u64);
        if c2.calls > lim(c1.calls) || c2.allocs > lim(c1.allocs) {
            bail!(
                "printing {} lines ({} segments) around {:?} ({:?}) at width {} cost {:?} in a document of {} items, but at most {:?} anywhere in one of {} items (limit {} calls, {} allocations)",
                lines, segments, p, t, width, c2, n2, c1, n1, lim(c1.calls), lim(c1.allocs)
            );
        }
        ctx.bump("peeks_into_big_documents");
    }
    ctx.nontrivial(crate::rng::mix(seed ^ width as u64 ^ (k as u64) << 20));
    ctx.sample(|| format!("{} and {} items, fan-out {}, width {}, {} lines each way: at most {:?} in the small one", n1, n2, fan, width, k, c1));
    Ok(())
}

/// Printing everything is linear, and no iterator step comes with an unbounded cost.
fn c12_linear(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let fan = r.range(2, 5);
    let seed = r.u64();
    let width = *r.pick(&[10u16, 20, 40, 80]);
    let n1 = r.range(100, 200);
    let mult = if ctx.thorough { 64 } else { 16 };
    let down = r.pct(50);
    let mut per_line = vec![];
    let mut prev: Option<(Cost, usize)> = None;
    for n in [n1, n1 * mult] {
        let (w, depth) = balanced(r, n, fan, seed);
        let nodes = w.nodes.len();
        let mon = Monitor::new();
        let a0 = alloc::allocs();
        let t = if down { FocusTarget::Start } else { FocusTarget::End };
        let (up, _, dn) = pretty_print(DocO::root(&w, &mon), width, &[], t, None).map_err(|e| format!("HARNESS:{:?}", e))?;
        let mut it: Box<dyn Iterator<Item = _>> = if down { Box::new(dn) } else { Box::new(up) };
        let mut steps = vec![mon.calls.get()];
        while let Some(l) = it.next() {
            l.map_err(|e| format!("HARNESS:{:?}", e))?;
            steps.push(mon.calls.get());
        }
        drop(it);
        let c = Cost { calls: mon.calls.get(), allocs: alloc::allocs() - a0 };
        ctx.add("lines_streamed", steps.len() as u64);
        ctx.add("calls_made", c.calls);
        // Amortised: after j lines, no more than a constant number of calls per line, plus what
        // the nesting costs.
        let avg = c.calls as f64 / steps.len() as f64;
        let slack = 2000.0 + 60.0 * (depth * fan) as f64 + 100.0 * width as f64;
        for (j, s) in steps.iter().enumerate() {
            let lim = avg * 6.0 * (j + 1) as f64 + slack;
            if *s as f64 > lim {
                bail!("the first {} of {} lines (going {}) cost {} document calls, though the average is {:.1}; {} items, fan-out {}, width {}", j + 1, steps.len(), if down { "down" } else { "up" }, s, avg, n, fan, width);
            }
        }
        per_line.push(avg);
        if let Some((c1, nodes1)) = prev {
            let ratio = nodes as f64 / nodes1 as f64;
            for (name, a, b) in [("document calls", c1.calls, c.calls), ("allocations", c1.allocs, c.allocs)] {
                // With the depth of indentation growing by log, allow some growth per line.
                if b as f64 > a as f64 * ratio * 2.5 + 5000.0 {
                    bail!("printing {} nodes takes {} {}, but {} nodes takes {}: more than linear (fan-out {}, width {})", nodes1, a, name, nodes, b, fan, width);
                }
            }
            ctx.bump("whole_documents_compared");
        }
        prev = Some((c, nodes));
    }
    ctx.nontrivial(crate::rng::mix(seed ^ width as u64));
    ctx.sample(|| format!("{:.1} and {:.1} document calls per line", per_line[0], per_line[1]));
    Ok(())
}

/// Printing a whole document to a string takes linear work, and the memory handed out for it is in
/// proportion to the text.
fn c12_string(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let fan = r.range(2, 5);
    let seed = r.u64();
    let width = *r.pick(&[10u16, 20, 40, 80]);
    let n1 = r.range(100, 200);
    let mult = if ctx.thorough { 64 } else { 16 };
    let mut prev: Option<(Cost, u64, usize)> = None;
    for n in [n1, n1 * mult] {
        let (w, _) = balanced(r, n, fan, seed);
        let mon = Monitor::new();
        let (a0, b0) = (alloc::allocs(), alloc::bytes());
        let s = pretty_print_to_string(DocO::root(&w, &mon), width).map_err(|e| format!("HARNESS:{:?}", e))?;
        let c = Cost { calls: mon.calls.get(), allocs: alloc::allocs() - a0 };
        let bytes = alloc::bytes() - b0;
        ctx.max("bytes_per_byte_printed", bytes / s.len() as u64);
        let size = s.len() + w.nodes.len();
        if let Some((c1, bytes1, size1)) = prev {
            let ratio = size as f64 / size1 as f64;
            for (name, a, b) in [("document calls", c1.calls, c.calls), ("allocations", c1.allocs, c.allocs), ("bytes of memory allocated", bytes1, bytes)] {
                if b as f64 > a as f64 * ratio * 2.5 + 20_000.0 {
                    bail!("printing to a string takes {} {} for {} nodes and bytes of text, but {} for {}: more than linear (fan-out {}, width {})", a, name, size1, b, size, fan, width);
                }
            }
            ctx.bump("strings_compared");
        }
        prev = Some((c, bytes, size));
    }
    ctx.nontrivial(crate::rng::mix(seed ^ width as u64 ^ 77));
    Ok(())
}

/// However many children a node has, printing it all is linear in their number: from the root,
/// with the focus on one of them, or in one deep below many such nodes.
fn c12_wide(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let shape = r.below(8);
    let width = *r.pick(&[10u16, 20, 80]);
    let (n1, mult) = (r.range(150, 300), if ctx.thorough { 64 } else { 16 });
    let place = r.below(4);
    let t = *r.pick(&[FocusTarget::Start, FocusTarget::End]);
    let layers = if place == 3 { 3 } else { 1 };
    ctx.note = format!("{} siblings of shape {}, width {}, place {} {:?}", n1, shape, width, place, t);
    let mut costs = vec![];
    for n in [n1, n1 * mult] {
        let mut w = sibling_world(r, shape, n);
        // Below several nodes with as many children
        for _ in 1..layers {
            let at = n / 2;
            let old = w.root;
            let kids: Vec<u32> = w.kids(old).to_vec();
            let mut nodes = w.nodes.clone();
            // (displayed)
            nodes[old as usize].conds = 1;
            let mut kids2 = vec![];
            for (i, k) in kids.iter().enumerate() {
                if i == at {
                    kids2.push(old);
                    continue;
                }
                // A leaf of its own
                let k = if matches!(nodes[*k as usize].kind, Kind::Text(_)) { *k } else { kids[0] };
                let mut leaf = nodes[k as usize].clone();
                leaf.id = (nodes.len() as u64).wrapping_mul(0x9E3779B97F4A7C15) ^ 5;
                kids2.push(nodes.len() as u32);
                nodes.push(leaf);
            }
            let mut top = nodes[old as usize].clone();
            top.kind = Kind::Kids(kids2);
            top.id = (nodes.len() as u64).wrapping_mul(0x9E3779B97F4A7C15) ^ 5;
            nodes.push(top);
            w = World::new(w.asts.clone(), nodes.clone(), (nodes.len() - 1) as u32, r);
        }
        let path: Vec<usize> = match place {
            0 => vec![],
            1 => vec![n / 2],
            2 => vec![0],
            _ => vec![n / 2; layers],
        };
        let mon = Monitor::new();
        mon.budget.set(200_000_000);
        let a0 = alloc::allocs();
        let mut lines = 1;
        let mut res = pretty_print(DocO::root(&w, &mon), width, &path, t, None);
        if matches!(res, Err(ppp::PrintingError::InvalidPath(_))) {
            res = pretty_print(DocO::root(&w, &mon), width, &[], t, None);
            ctx.bump("wide_focus_not_displayed");
        }
        let (up, f, down) = res.map_err(|e| format!("HARNESS:{:?}", e))?;
        drop(f);
        for l in up.chain(down) {
            l.map_err(|e| format!("HARNESS:{:?}", e))?;
            lines += 1;
        }
        ctx.add("lines_of_wide_documents", lines);
        costs.push((Cost { calls: mon.calls.get(), allocs: alloc::allocs() - a0 }, w.nodes.len()));
    }
    let (a, b) = (costs[0], costs[1]);
    let ratio = b.1 as f64 / a.1 as f64;
    for (name, x, y) in [("document calls", a.0.calls, b.0.calls), ("allocations", a.0.allocs, b.0.allocs)] {
        if y as f64 > x as f64 * ratio * 2.5 + 5000.0 {
            bail!("printing {} siblings takes {} {}, but {} siblings takes {}: more than linear\n{}\n{}", n1, x, name, n1 * mult, y, ctx.note, "");
        }
    }
    ctx.bump(&format!("wide_shape_{}", shape));
    ctx.bump("wide_documents_compared");
    ctx.nontrivial(crate::rng::mix((shape * 8 + place) as u64 ^ (width as u64) << 8 ^ (n1 as u64) << 20));
    ctx.sample(|| format!("shape {} place {}: {:?} for {} nodes, {:?} for {}", shape, place, a.0, a.1, b.0, b.1));
    Ok(())
}

/// Displaying a pane costs no more in a larger document.
/// Lines that are only passed on the way to the focus are not looked into: however many there are,
/// only so many texts are asked for.
fn c12_passed(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let width = *r.pick(&[10u16, 20, 80]);
    let n1 = r.range(100, 300);
    let mult = if ctx.thorough { 200 } else { 30 };
    let k = r.range(1, 12);
    let t = *r.pick(&[FocusTarget::Start, FocusTarget::End, FocusTarget::Text(0)]);
    let place = r.below(3);
    let gap = *r.pick(&[0usize, 1]);
    let styled = r.pct(50);
    let leaves = r.pct(50);
    let mut texts = vec![];
    for n in [n1, n1 * mult] {
        let x = if styled { style(1, Ast::Text) } else { Ast::Text };
        let item = cats(vec![Ast::Child(0), lit(": "), or(flat(Ast::Child(1)), nest(2, Ast::Child(1)))]);
        let sep = if gap == 0 { Ast::Newline } else { cat(lit(";"), Ast::Newline) };
        let asts = vec![x, item, fold(Ast::Child(0), cats(vec![Ast::Left, sep, Ast::Right]))];
        let mut b = Builder::new();
        let kids = (0..n)
            .map(|_| {
                let x = b.add(r, Kind::Text("ab".into()), 0);
                if leaves {
                    x
                } else {
                    let y = b.add(r, Kind::Text("cd".into()), 0);
                    b.add(r, Kind::Kids(vec![x, y]), 1)
                }
            })
            .collect();
        let root = b.add(r, Kind::Kids(kids), 2);
        let w = World::new(asts, b.nodes, root, r);
        let at = match place {
            0 => n / 2,
            1 => n - 1 - k,
            _ => k,
        };
        let mut path = vec![at];
        if !leaves {
            path.push(at % 2);
        }
        let mon = Monitor::new();
        let (mut up, f, mut down) = pretty_print(DocO::root(&w, &mon), width, &path, t, None).map_err(|e| format!("HARNESS:{:?}", e))?;
        drop(f);
        for _ in 0..k {
            for x in [up.next(), down.next()] {
                x.transpose().map_err(|e| format!("HARNESS:{:?}", e))?;
            }
        }
        texts.push(mon.per[M::Text as usize].get());
    }
    let (a, b) = (texts[0], texts[1]);
    if b > 2 * a + 40 {
        bail!("printing {} lines each way around one of {} siblings asks for {} texts, but for {} texts among {} siblings (one line each; width {}, place {}, {:?})", k, n1, a, b, n1 * mult, width, place, t);
    }
    ctx.bump("passed_lines_compared");
    ctx.nontrivial(crate::rng::mix((width as u64) << 32 ^ (n1 * 16 + k) as u64 ^ (place as u64) << 50));
    Ok(())
}

/// The CPU time of f, in nanoseconds.
fn cpu_time(f: &mut dyn FnMut() -> Result<(), String>) -> Result<u64, String> {
    let now = || unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut ts);
        ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
    };
    let start = now();
    f()?;
    Ok(now() - start)
}
/// Work that is neither a document call nor an allocation shows in the CPU time: printing a node
/// with very many children from somewhere among them, or displaying very many panes, does not take
/// time quadratic in their number. (Only what stays far beyond linear, however often it is
/// repeated, is a violation.)
fn c12_time(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let shape = r.below(20);
    let width = *r.pick(&[10u16, 80, 1000]);
    let place = r.below(4);
    let t = *r.pick(&[FocusTarget::Start, FocusTarget::End, FocusTarget::Text(1)]);
    let n1 = 3_000;
    let mult = 16;
    ctx.note = format!("{} or {} siblings of shape {}, width {}, place {}, {:?}", n1, n1 * mult, shape, width, place, t);
    let mut times: Vec<Vec<u64>> = vec![vec![], vec![]];
    let wide = width.min(80);
    let inner = r.below(4);
    let worlds: Vec<World> = [n1, n1 * mult]
        .into_iter()
        .map(|n| match shape {
            0..=7 => sibling_world(r, shape, n),
            8..=11 => sibling_world(r, 0, 200),
            12..=15 => two_lists(r, shape - 12, inner, n),
            _ => nested_world(r, shape - 16, n),
        })
        .collect();
    let run = |k: usize| -> Result<u64, String> {
        let n = if k == 0 { n1 } else { n1 * mult };
        let w = &worlds[k];
        let path = match place {
            0 => vec![],
            1 => vec![n / 2],
            2 => vec![n - 1],
            _ => vec![n / 97 / 2 * 97 + 1],
        };
        let path = match place {
            _ if shape < 12 => path,
            0 | 1 if shape >= 16 => vec![0; n / 2],
            2 if shape >= 16 => vec![0; n],
            _ if shape >= 16 => vec![],
            0 => vec![1],
            1 => vec![1, n / 4],
            2 => vec![0, n / 2 - 2],
            _ => vec![2],
        };
        if !(8..=11).contains(&shape) {
            return cpu_time(&mut || {
                let mon = Monitor::new();
                let mut res = pretty_print(DocO::root(w, &mon), width, &path, t, None);
                if res.is_err() {
                    // (not displayed, or has no text)
                    res = pretty_print(DocO::root(w, &mon), width, &[], FocusTarget::End, None);
                }
                let (up, f, down) = res.map_err(|e| format!("HARNESS:{:?}", e))?;
                let (a, b, c) = (f.to_left_string(), f.to_right_string(), f.to_string());
                if a.len() + b.len() != c.len() || f.width() < f.left_width().max(f.right_width()) {
                    bail!("the parts of the focused line do not add up");
                }
                let l = ppp::Line::from(f);
                if l.to_string() != c {
                    bail!("converting the focused line changes it");
                }
                for l in up.chain(down) {
                    let l = l.map_err(|e| format!("HARNESS:{:?}", e))?;
                    std::hint::black_box((l.width(), l.to_string()));
                }
                Ok(())
            });
        }
        // As many panes
        type Note = PaneNotation<u32, Sty>;
        let mon = Monitor::new();
        let fill = || -> Note { PaneNotation::Fill { ch: '.' } };
        let n = if shape == 10 { n } else { n * 2 };
        let (layout, size): (Note, Size) = match shape {
            8 => (PaneNotation::Vert((0..n).map(|_| (PaneSize::Fixed(1), fill())).collect()), Size { width: 3, height: n as u32 }),
            9 => (PaneNotation::Vert((0..n).map(|i| (PaneSize::Proportional(1 + i % 7), fill())).collect()), Size { width: 3, height: n as u32 * 2 }),
            10 => (PaneNotation::Horz((0..n).map(|i| (if i % 50 == 0 { PaneSize::Fixed(2) } else { PaneSize::Proportional(1) }, fill())).collect()), Size { width: n as Width, height: 2 }),
            _ => (PaneNotation::Vert((0..n / 80).map(|_| (PaneSize::Dynamic, PaneNotation::Doc { label: 0 })).collect()), Size { width: wide, height: n as u32 / 4 }),
        };
        let opts = PrintingOptions {
            focus_path: vec![],
            focus_target: FocusTarget::Start,
            focus_height: 0.0,
            width_strategy: WidthStrategy::Full,
            set_focus: false,
        };
        cpu_time(&mut || {
            let mut win = ppp::pane::PlainText::<Sty>::new(size.width, size.height);
            display_pane(&mut win, &layout, &Sty(vec![]), &|_| Some((DocO::root(w, &mon), opts.clone()))).map_err(|e| format!("HARNESS:{:?}", e))?;
            let s = win.to_string();
            if s.is_empty() {
                bail!("HARNESS:nothing displayed");
            }
            Ok(())
        })
    };
    for attempt in 0..6 {
        for k in 0..2 {
            let t = run(k)?;
            times[k].push(t);
        }
        let small = *times[0].iter().max().unwrap();
        let large = *times[1].iter().min().unwrap();
        if large <= small * mult as u64 * 5 + 200_000_000 {
            break;
        }
        if attempt == 5 {
            bail!("the CPU time grows far more than linearly: {} ms for {} siblings or panes, {} ms for {}\n{}",
                small / 1_000_000, n1, large / 1_000_000, n1 * mult, ctx.note);
        }
    }
    ctx.max("ms_for_the_larger_document", *times[1].iter().max().unwrap() / 1_000_000);
    ctx.bump(&format!("timed_shape_{}", shape));
    ctx.bump("times_compared");
    ctx.nontrivial(crate::rng::mix((shape * 8 + place) as u64 ^ (width as u64) << 8 ^ 5 << 30));
    Ok(())
}
fn c12_pane(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let fan = r.range(2, 5);
    let seed = r.u64();
    let size = Size { width: r.range(10, 80) as Width, height: r.range(1, 30) as u32 };
    let n1 = r.range(60, 120);
    let n2 = n1 * 40;
    let (small, d1) = balanced(r, n1, fan, seed);
    let (big, d2) = balanced(r, n2, fan, seed);
    // The document may be in a pane of any kind, or be shown twice.
    type Note = PaneNotation<u32, Sty>;
    let doc = |label: u32| -> Note { PaneNotation::Doc { label } };
    let fill = || -> Note { PaneNotation::Fill { ch: '.' } };
    let kind = r.below(7);
    let layout: Note = match kind {
        0 => doc(0),
        1 => PaneNotation::Vert(vec![(PaneSize::Dynamic, doc(0))]),
        2 => PaneNotation::Vert(vec![(PaneSize::Fixed(1), fill()), (PaneSize::Dynamic, doc(0)), (PaneSize::Proportional(1), fill())]),
        3 => PaneNotation::Horz(vec![(PaneSize::Dynamic, doc(0)), (PaneSize::Proportional(2), fill())]),
        4 => PaneNotation::Horz(vec![(PaneSize::Proportional(1), doc(0)), (PaneSize::Proportional(1), doc(1))]),
        5 => PaneNotation::Vert(vec![
            (PaneSize::Dynamic, PaneNotation::Style { style: Sty(vec![1]), notation: Box::new(doc(0)) }),
            (PaneSize::Dynamic, doc(1)),
            (PaneSize::Proportional(1), doc(2)),
        ]),
        _ => PaneNotation::Vert(vec![(PaneSize::Proportional(1), PaneNotation::Horz(vec![(PaneSize::Dynamic, doc(0)), (PaneSize::Dynamic, doc(1))])), (PaneSize::Fixed(3), doc(2))]),
    };
    let strategy = *r.pick(&[WidthStrategy::Full, WidthStrategy::Fixed(40), WidthStrategy::NoMoreThan(30)]);
    ctx.note = format!("{:?} window of {:?}, {:?}", size, layout, strategy);
    let cost = |w: &World, r: &mut Rng| -> Result<Cost, String> {
        let mon = Monitor::new();
        let opts: Vec<_> = (0..3)
            .map(|_| PrintingOptions {
                focus_path: deep_path(r, w),
                focus_target: *r.pick(&[FocusTarget::Start, FocusTarget::End]),
                focus_height: *r.pick(&[0.0, 0.5, 1.0]),
                width_strategy: strategy,
                set_focus: true,
            })
            .collect();
        let a0 = alloc::allocs();
        let mut win = Win::new(size);
        display_pane(&mut win, &layout, &Sty(vec![]), &|l| Some((DocO::root(w, &mon), opts[l as usize].clone()))).map_err(|e| format!("HARNESS:{:?}", e))?;
        Ok(Cost { calls: mon.calls.get(), allocs: alloc::allocs() - a0 })
    };
    let mut c1 = Cost::default();
    for _ in 0..30 {
        c1 = c1.max(cost(&small, r)?);
    }
    let f = (d2 as f64 / d1 as f64).powi(2) * 3.0;
    for _ in 0..8 {
        let c2 = cost(&big, r)?;
        let cells = size.width as u64 * size.height as u64;
        if c2.calls as f64 > c1.calls as f64 * f + 4000.0 + 200.0 * size.width as f64 || c2.allocs as f64 > (c1.allocs + 2 * cells) as f64 * f + 10000.0 {
            bail!("displaying {} costs {:?} in a document of {} items, but at most {:?} in one of {}", ctx.note, c2, n2, c1, n1);
        }
        ctx.bump("panes_of_big_documents");
        ctx.bump(&format!("pane_layout_{}", kind));
    }
    ctx.nontrivial(crate::rng::mix(seed ^ size.width as u64));
    Ok(())
}

// --- C13 ---------------------------------------------------------------------------------------

/// Peak and residual heap while streaming, with each line dropped at once. Also how much more memory
/// is in use between lines late in the document than early in it.
fn stream(w: &World, width: Width, down: bool) -> Result<(i64, usize, i64), String> {
    let mon = Monitor::new();
    let base = alloc::live();
    let mut in_use: Vec<u32> = Vec::with_capacity(1 << 20);
    let base_peak = alloc::live();
    alloc::reset_peak();
    let mut n = 0;
    {
        let t = if down { FocusTarget::Start } else { FocusTarget::End };
        let (up, f, dn) = pretty_print(DocO::root(w, &mon), width, &[], t, None).map_err(|e| format!("HARNESS:{:?}", e))?;
        drop(f);
        let mut it: Box<dyn Iterator<Item = _>> = if down { Box::new(dn) } else { Box::new(up) };
        loop {
            match it.next() {
                None => break,
                Some(Ok(l)) => drop(l),
                Some(Err(e)) => bail!("HARNESS:{:?}", e),
            }
            n += 1;
            if in_use.len() < 1 << 20 {
                in_use.push((alloc::live() - base_peak) as u32);
            }
        }
    }
    let peak = alloc::peak() - base_peak;
    let quarter = in_use.len() / 4;
    let most = |xs: &[u32]| xs.iter().max().copied().unwrap_or(0) as i64;
    let growth = most(&in_use[in_use.len() - quarter..]) - most(&in_use[..quarter]);
    drop(in_use);
    let left = alloc::live() - base;
    if left != 0 {
        bail!("{} bytes are still allocated after everything was dropped, having printed {} lines", left, n);
    }
    Ok((peak, n, growth))
}

fn c13_stream(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let fan = r.range(2, 5);
    let seed = r.u64();
    let width = *r.pick(&[10u16, 20, 40, 80]);
    let n1 = r.range(60, 120);
    let n2 = n1 * if ctx.thorough { 200 } else { *r.pick(&[50, 50, 120]) };
    let down = r.pct(60);
    ctx.note = format!("seed {} width {} n1 {} n2 {} down {}", seed, width, n1, n2, down);
    let (small, _) = balanced(r, n1, fan, seed);
    let (big, _) = balanced(r, n2, fan, seed);
    let (p1, l1, _) = stream(&small, width, down)?;
    let (p2, l2, growth) = stream(&big, width, down)?;
    ctx.max("growth_of_memory_in_use_between_lines", growth.max(0) as u64);
    ctx.add("lines_streamed", l2 as u64);
    ctx.max("peak_bytes_streaming_big_document", p2.max(0) as u64);
    if p2 > 6 * p1 + 100_000 {
        bail!("streaming {} lines (going {}) needed a peak of {} bytes, but {} lines only {}", l2, if down { "down" } else { "up" }, p2, l1, p1);
    }
    if growth > 16_000 {
        bail!("streaming {} lines (going {}), {} bytes more are in use between lines late in the document than early in it", l2, if down { "down" } else { "up" }, growth);
    }
    ctx.bump("documents_streamed");
    ctx.nontrivial(crate::rng::mix(seed ^ width as u64));
    ctx.sample(|| format!("{} lines: peak {} bytes; {} lines: peak {} bytes", l1, p1, l2, p2));
    Ok(())
}

/// Drop everything at some arbitrary moment: nothing must remain.
fn c13_release(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let w = any_world(r, ctx.size);
    ctx.note = w.describe();
    for _ in 0..8 {
        let width = gen_width(r, &w);
        let path = gen_path(r, &w, true);
        let t = crate::p_core::gen_target(r, 5);
        let nup = r.below(8);
        let ndown = r.below(8);
        let up_first = r.pct(50);
        let plan = if r.pct(40) { FaultPlan::Nth(r.below(60) as u64) } else { FaultPlan::None };
        let mon = Monitor::with_plan(plan);
        let base = alloc::live();
        let mut outcome = "completed";
        {
            let res = pretty_print(DocO::root(&w, &mon), width, &path, t, None);
            match res {
                Err(_) => outcome = "seek_errors",
                Ok((mut up, f, mut down)) => {
                    let mut keep = vec![];
                    for _ in 0..nup {
                        match up.next() {
                            None => break,
                            Some(Err(_)) => outcome = "line_errors",
                            Some(Ok(l)) => keep.push(l),
                        }
                    }
                    if up_first {
                        drop(up);
                        for _ in 0..ndown {
                            match down.next() {
                                None => break,
                                Some(Err(_)) => outcome = "line_errors",
                                Some(Ok(l)) => keep.push(l),
                            }
                        }
                    } else {
                        drop(down);
                        for _ in 0..ndown {
                            match up.next() {
                                None => break,
                                Some(Err(_)) => outcome = "line_errors",
                                Some(Ok(l)) => keep.push(l),
                            }
                        }
                    }
                    drop(f);
                }
            }
        }
        let left = alloc::live() - base;
        if left != 0 {
            bail!("{} bytes are still allocated after everything was dropped ({}; {} up, {} down, fault plan {:?})\n{}", left, outcome, nup, ndown, plan, contexts(&w, width, &path, &t));
        }
        ctx.bump(&format!("releases_checked_after_{}", outcome));
        ctx.nontrivial(crate::rng::mix(w.fingerprint() ^ (width as u64) << 9 ^ nup as u64));
    }
    Ok(())
}

/// Run on a thread with a stack of the given size; return how much of it was used.
pub fn on_stack<F: FnOnce() -> Result<(), String> + Send>(size: usize, f: F) -> (Result<(), String>, usize) {
    struct Args<F> {
        f: Option<F>,
        out: Option<Result<(), String>>,
    }
    extern "C" fn start<F: FnOnce() -> Result<(), String>>(p: *mut libc::c_void) -> *mut libc::c_void {
        let a = unsafe { &mut *(p as *mut Args<F>) };
        let f = a.f.take().unwrap();
        crate::alloc::set_budget(crate::harness::CASE_HEAP_LIMIT);
        a.out = Some(match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(r) => r,
            Err(_) => Err(format!("panic: {}", last_panic())),
        });
        std::ptr::null_mut()
    }
    unsafe {
        let guard = 1 << 16;
        let total = size + guard;
        let p = libc::mmap(std::ptr::null_mut(), total, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        assert!(p != libc::MAP_FAILED);
        libc::mprotect(p, guard, libc::PROT_NONE);
        let base = (p as *mut u8).add(guard);
        let mut attr: libc::pthread_attr_t = std::mem::zeroed();
        libc::pthread_attr_init(&mut attr);
        assert_eq!(libc::pthread_attr_setstack(&mut attr, base as *mut libc::c_void, size), 0);
        let mut th: libc::pthread_t = std::mem::zeroed();
        let mut args = Args { f: Some(f), out: None };
        assert_eq!(libc::pthread_create(&mut th, &attr, start::<F>, &mut args as *mut Args<F> as *mut libc::c_void), 0);
        libc::pthread_join(th, std::ptr::null_mut());
        libc::pthread_attr_destroy(&mut attr);
        // The kernel gives zeroed pages; the deepest one touched is where the stack went.
        let words = std::slice::from_raw_parts(base as *const u64, size / 8);
        let mut vec = vec![0u8; size / 4096];
        libc::mincore(base as *mut libc::c_void, size, vec.as_mut_ptr());
        let first = vec.iter().position(|x| x & 1 == 1).unwrap_or(vec.len());
        let mut low = first * 512;
        while low < words.len() && words[low] == 0 {
            low += 1;
        }
        let used = size - low * 8;
        libc::munmap(p, total);
        (args.out.unwrap_or(Err("the thread died".into())), used)
    }
}

/// Documents whose number of siblings grows.
fn sibling_world(r: &mut Rng, shape: usize, n: usize) -> World {
    let join = |j: Ast| fold(Ast::Child(0), j);
    let note = match shape {
        // one line each
        0 => join(cats(vec![Ast::Left, lit(","), Ast::Newline, Ast::Right])),
        // flowing
        1 => join(cats(vec![Ast::Left, or(lit(" "), Ast::Newline), Ast::Right])),
        // almost all of them hidden
        2 => join(check(0, Pos::RightChild, cats(vec![Ast::Left, lit(" "), Ast::Right]), Ast::Left)),
        // all on one line or one per line
        3 => or(flat(join(cats(vec![Ast::Left, lit(" "), Ast::Right]))), join(cats(vec![Ast::Left, Ast::Newline, Ast::Right]))),
        // only the last one is shown
        4 => cat(lit("last "), Ast::Child(-1)),
        // one long line
        5 => join(cats(vec![Ast::Left, lit(" "), Ast::Right])),
        // hidden, in nested styles and checks
        6 => join(check(0, Pos::RightChild, cat(Ast::Left, Ast::Right), check(1, Pos::RightChild, flat(Ast::Left), Ast::Left))),
        // siblings that display nothing
        _ => join(cats(vec![Ast::Left, check(0, Pos::RightChild, lit("x"), Ast::Empty), check(0, Pos::RightChild, Ast::Newline, Ast::Empty), Ast::Right])),
    };
    let asts = vec![if shape == 7 { Ast::Empty } else { Ast::Text }, note];
    let mut b = Builder::new();
    let kids: Vec<u32> = (0..n)
        .map(|i| {
            let k = b.add(r, Kind::Text("x".into()), 0);
            b.nodes[k as usize].conds = if i % 97 == 1 { 1 } else { 0 };
            k
        })
        .collect();
    let root = b.add(r, Kind::Kids(kids), 1);
    World::new(asts, b.nodes, root, r)
}

/// Two lists of n / 2 items and a word, the items and the lists put together in various ways.
/// Nodes that each contain the next, `n` levels deep.
fn nested_world(r: &mut Rng, shape: usize, n: usize) -> World {
    let note = match shape {
        0 => cats(vec![lit("("), Ast::Child(0), lit(")")]),
        1 => cats(vec![lit("a"), Ast::Newline, Ast::Child(0), Ast::Newline, lit("b")]),
        2 => cats(vec![style(1, lit("[")), fold(flat(Ast::Child(0)), cats(vec![Ast::Left, lit(" "), Ast::Right])), lit("]"), Ast::Mark]),
        _ => cats(vec![Ast::Mark, count(Ast::Empty, indent("", None, Ast::Child(0)), Ast::Empty), lit(";")]),
    };
    let asts = vec![Ast::Text, note];
    let mut b = Builder::new();
    let mut d = b.add(r, Kind::Text("x".into()), 0);
    for _ in 0..n {
        d = b.add(r, Kind::Kids(vec![d]), 1);
        b.nodes[d as usize].styled = false;
    }
    World::new(asts, b.nodes, d, r)
}
fn two_lists(r: &mut Rng, outer: usize, inner: usize, n: usize) -> World {
    let gap = |k: usize| match k {
        0 => lit(", "),
        1 => or(lit(" "), Ast::Newline),
        2 => Ast::Newline,
        _ => or(flat(lit("; ")), cat(lit(";"), Ast::Newline)),
    };
    let list = |k: usize| fold(Ast::Child(0), cats(vec![Ast::Left, gap(k), Ast::Right]));
    let asts = vec![Ast::Text, list(inner), list(outer)];
    let mut b = Builder::new();
    let mut parts: Vec<u32> = vec![];
    for _ in 0..2 {
        let kids = (0..n / 2).map(|_| b.add(r, Kind::Text("x".into()), 0)).collect();
        parts.push(b.add(r, Kind::Kids(kids), 1));
    }
    parts.push(b.add(r, Kind::Text("end".into()), 0));
    let root = b.add(r, Kind::Kids(parts), 2);
    World::new(asts, b.nodes, root, r)
}
fn visit(w: &World, width: Width, path: &[usize], t: FocusTarget) -> Result<usize, String> {
    let mon = Monitor::new();
    mon.budget.set(200_000_000);
    let res = pretty_print(DocO::root(w, &mon), width, path, t, None);
    let (up, f, down) = match res {
        Ok(x) => x,
        Err(ppp::PrintingError::InvalidPath(_)) => return Ok(0),
        Err(e) => bail!("unexpected error {:?}", e),
    };
    drop(f);
    let mut n = 1;
    for l in up.chain(down) {
        l.map_err(|e| format!("unexpected error {:?}", e))?;
        n += 1;
    }
    Ok(n)
}

fn c13_siblings(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let shape = r.below(8);
    let n1 = 300;
    let n2 = if ctx.thorough { 100_000 } else { 6_000 };
    let width = *r.pick(&[20u16, 80]);
    let worlds = [sibling_world(r, shape, n1), sibling_world(r, shape, n2)];
    let path: Vec<usize> = match r.below(3) {
        0 => vec![],
        1 => vec![n1 - 1],
        _ => vec![98],
    };
    let t = *r.pick(&[FocusTarget::Start, FocusTarget::End]);
    ctx.note = format!("{} siblings of shape {}, path {:?} {:?}", n2, shape, path, t);
    let mut used = vec![];
    for w in &worlds {
        let (res, u) = on_stack(8 << 20, || visit(w, width, &path, t).map(|_| ()));
        res.map_err(|e| format!("{}\n{}", e, ctx.note))?;
        used.push(u);
    }
    ctx.max("stack_bytes_many_siblings", used[1] as u64);
    ctx.bump(&format!("sibling_shape_{}", shape));
    ctx.bump("stacks_compared");
    ctx.nontrivial(crate::rng::mix((shape * 8 + path.len()) as u64 ^ (width as u64) << 8 ^ (path.first().copied().unwrap_or(0) as u64) << 20));
    ctx.sample(|| format!("shape {}: {} bytes of stack for {} siblings, {} for {}", shape, used[0], n1, used[1], n2));
    if used[1] > used[0] + 24_000 {
        bail!("printing {} siblings used {} bytes of stack, but {} siblings used {} (shape {}, path {:?}, {:?}, width {})\n{}", n1, used[0], n2, used[1], shape, path, t, width, worlds[0].asts[1]);
    }
    Ok(())
}

/// The stack does not grow with the number of lines, either.
fn c13_lines(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let fan = r.range(3, 5);
    let seed = r.u64();
    let width = *r.pick(&[10u16, 40]);
    let (n1, n2) = (100, if ctx.thorough { 20_000 } else { 2_500 });
    let mut used = vec![];
    let mut lines = vec![];
    for n in [n1, n2] {
        let (w, _) = balanced(r, n, fan, seed);
        let mut count = 0;
        let (res, u) = on_stack(8 << 20, || {
            count = visit(&w, width, &[], FocusTarget::Start)?.max(visit(&w, width, &[], FocusTarget::End)?);
            Ok(())
        });
        res?;
        used.push(u);
        lines.push(count);
    }
    ctx.max("stack_bytes_many_lines", used[1] as u64);
    ctx.add("lines_printed_on_measured_stack", lines[1] as u64);
    if used[1] > used[0] + 24_000 {
        bail!("printing {} lines used {} bytes of stack, but {} lines used {}", lines[0], used[0], lines[1], used[1]);
    }
    ctx.nontrivial(crate::rng::mix(seed));
    Ok(())
}

/// A few hundred levels of nesting, and very many: the stack does not grow with them either.
fn c13_deep(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let shape = r.below(10);
    // where every line has an indentation, output is quadratic
    let quadratic = matches!(shape, 5 | 6);
    // where every level has a choice, each of them looks some way ahead
    let choices = matches!(shape, 2 | 3 | 4 | 9);
    let part = r.below(3);
    let depths = [300, if quadratic { 2_000 } else if choices { 10_000 } else { *r.pick(&[10_000, 50_000, 150_000]) }];
    let note = match shape {
        0 => cats(vec![lit("("), Ast::Child(0), lit(")")]),
        1 => cats(vec![lit("a"), Ast::Newline, Ast::Child(0)]),
        2 => cats(vec![lit("a"), or(flat(Ast::Child(0)), cat(Ast::Newline, Ast::Child(0)))]),
        3 => cats(vec![lit("["), or(fold(flat(Ast::Child(0)), cats(vec![Ast::Left, Ast::Right])), cats(vec![Ast::Newline, Ast::Child(0)])), lit("]")]),
        4 => count(lit("z"), cats(vec![Ast::Mark, lit("a"), check(1, Pos::Child(0), Ast::Empty, or(lit(" "), Ast::Newline)), Ast::Child(0), lit("b")]), lit("m")),
        5 => cats(vec![lit("a"), indent("", Some(1), cat(Ast::Newline, Ast::Child(0)))]),
        6 => cats(vec![lit("{"), nest(1, fold(Ast::Child(0), cats(vec![Ast::Left, Ast::Newline, Ast::Right]))), Ast::Newline, lit("}")]),
        // indentation that is not (or only once, or hardly ever) used
        7 => cats(vec![indent("", if r.pct(50) { Some(2) } else { None }, Ast::Child(0)), lit(";")]),
        8 => indent(" ", None, cats(vec![Ast::Mark, lit("a"), Ast::Child(0)])),
        _ => indent("| ", None, or(flat(Ast::Child(0)), Ast::Child(0))),
    };
    let asts = vec![Ast::Text, note, cats(vec![Ast::Child(0), Ast::Newline, lit("end")])];
    let width = *r.pick(&[10u16, 80]);
    let t = *r.pick(&[FocusTarget::Start, FocusTarget::End]);
    let mut used = vec![];
    for depth in depths {
        let mut b = Builder::new();
        let mut n = b.add(r, Kind::Text("x".into()), 0);
        for _ in 0..depth {
            n = b.add(r, Kind::Kids(vec![n]), 1);
            b.nodes[n as usize].styled = false;
        }
        n = b.add(r, Kind::Kids(vec![n]), 2);
        b.nodes[n as usize].styled = false;
        let w = World::new(asts.clone(), b.nodes, n, r);
        let path: Vec<usize> = match part {
            0 => vec![],
            1 => vec![0; depth + 1],
            _ => vec![0; depth * 2 / 3],
        };
        ctx.note = format!("nesting of depth {}, path of length {} {:?}, shape {}", depth, path.len(), t, w.asts[1]);
        let (res, u) = on_stack(8 << 20, || {
            let mon = Monitor::new();
            mon.budget.set(200_000_000);
            let (up, f, down) = pretty_print(DocO::root(&w, &mon), width, &path, t, None).map_err(|e| format!("unexpected error {:?}", e))?;
            drop(f);
            for l in up.take(30).chain(down.take(30)) {
                l.map_err(|e| format!("unexpected error {:?}", e))?;
            }
            if depth <= 20_000 && path.is_empty() && !matches!(shape, 2 | 3 | 9) {
                visit(&w, width, &[], t)?;
            }
            Ok(())
        });
        res.map_err(|e| format!("{}\n{}", e, ctx.note))?;
        used.push(u);
    }
    ctx.max("stack_bytes_deep_nesting", used[1] as u64);
    ctx.max("levels_of_nesting", depths[1] as u64);
    ctx.bump("deep_documents_printed");
    ctx.bump(&format!("deep_shape_{}", shape));
    if used[1] > used[0] + 24_000 {
        bail!("printing {} levels of nesting used {} bytes of stack, but {} levels used {}\n{}", depths[0], used[0], depths[1], used[1], ctx.note);
    }
    ctx.nontrivial(crate::rng::mix((shape + part * 10) as u64 ^ (depths[1] as u64) << 8 ^ width as u64));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let w = |name, f, quick, thorough, max_size| W { name, f, quick, thorough, max_size };
    vec![
        Prop {
            id: "C12",
            rule: "balanced documents of bounded fan-out over a language of lists, blocks, flows, pairs and calls, at two sizes; document calls and heap allocations are counted; non-trivial: each (language, width, number of lines)",
            workloads: vec![w("local", c12_local as Workload, 160, 4000, 10), w("linear", c12_linear, 120, 2000, 10), w("string", c12_string, 100, 1500, 10), w("passed", c12_passed, 200, 3000, 10), w("time", c12_time, 200, 3000, 10), w("endless", c12_endless, 2_000, 400_000, 100), w("pane", c12_pane, 120, 3000, 10), w("wide", c12_wide, 150, 1500, 10)],
            required: vec!["passed_lines_compared", "strings_compared", "times_compared", "lines_of_endless_documents", "endless_shape_5", "endless_shape_8", "peeks_into_big_documents", "whole_documents_compared", "panes_of_big_documents", "wide_documents_compared"],
            assumptions: vec!["Work is measured in document calls, heap allocations and bytes; time only coarsely (CPU time for 16 times the size).", "Nodes display at least one character; otherwise a line may be made of any number of nodes.", "The bound is the largest cost found anywhere in a document a fortieth of the size, times three, adjusted for depth."],
        },
        Prop {
            id: "C13",
            rule: "documents streamed line by line under a counting allocator, dropped at arbitrary points (also after errors), and printed on threads whose stack use is measured; non-trivial: distinct documents, widths and drop points",
            workloads: vec![w("stream", c13_stream as Workload, 60, 1500, 10), w("release", c13_release, 12_000, 300_000, 60), w("siblings", c13_siblings, 120, 600, 10), w("lines", c13_lines, 40, 300, 10), w("deep", c13_deep, 120, 1000, 10)],
            required: vec!["documents_streamed", "releases_checked_after_completed", "releases_checked_after_seek_errors", "releases_checked_after_line_errors", "stacks_compared", "sibling_shape_2", "sibling_shape_6", "deep_documents_printed", "deep_shape_7", "deep_shape_8"],
            assumptions: vec!["Heap is what the global allocator hands out on the printing thread.", "Stack use is measured in an unoptimised build (opt-level 0), in which recursion is not turned into loops.", "Deep nesting gets the 8 MB of a main thread."],
        },
    ]
}

// --- documents without end ---------------------------------------------------------------------

/// Made up as they are asked for: every branch has one or two more of them among its children.
struct Endless {
    notes: Vec<ppp::ValidNotation<Label, Cond>>,
    texts: Vec<String>,
    /// For each child of a branch: is it a branch?
    kids: Vec<bool>,
    calls: std::cell::Cell<u64>,
    budget: u64,
}
#[derive(Clone, Copy)]
struct At<'d> {
    doc: &'d Endless,
    branch: bool,
    level: u64,
    index: u8,
    /// Tells apart the nodes on one level.
    hash: u64,
}
impl<'d> At<'d> {
    fn call(self) -> Result<(), Fault> {
        let n = self.doc.calls.get() + 1;
        self.doc.calls.set(n);
        if n > self.doc.budget {
            return Err(Fault(n));
        }
        Ok(())
    }
}
impl<'d> ppp::PrettyDoc<'d> for At<'d> {
    type Id = (u64, u64);
    type Style = Sty;
    type StyleLabel = Label;
    type Condition = Cond;
    type Error = Fault;
    fn id(self) -> Result<(u64, u64), Fault> {
        self.call()?;
        Ok((self.level, self.hash))
    }
    fn notation(self) -> Result<&'d ppp::ValidNotation<Label, Cond>, Fault> {
        self.call()?;
        Ok(&self.doc.notes[self.branch as usize])
    }
    fn condition(self, c: &Cond) -> Result<bool, Fault> {
        self.call()?;
        Ok((self.level + self.index as u64 + *c as u64) % 2 == 0)
    }
    fn lookup_style(self, l: Label) -> Result<Sty, Fault> {
        self.call()?;
        Ok(Sty(vec![l]))
    }
    fn node_style(self) -> Result<Sty, Fault> {
        self.call()?;
        Ok(Sty(vec![]))
    }
    fn num_children(self) -> Result<Option<usize>, Fault> {
        self.call()?;
        Ok(if self.branch { Some(self.doc.kids.len()) } else { None })
    }
    fn unwrap_text(self) -> Result<&'d str, Fault> {
        self.call()?;
        Ok(&self.doc.texts[self.level as usize % self.doc.texts.len()])
    }
    fn unwrap_child(self, i: usize) -> Result<Self, Fault> {
        self.call()?;
        Ok(At { doc: self.doc, branch: self.doc.kids[i], level: self.level + 1, index: i as u8, hash: crate::rng::mix(self.hash ^ (i as u64 + 1) << 32) })
    }
}

/// What is displayed of a document that never ends takes no more than it does anywhere else.
fn c12_endless(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let list = |j: Ast| fold(Ast::Child(0), j);
    let comma = || check(0, Pos::LeftChild, lit(","), Ast::Empty);
    // Where everything is on lines of its own, lines can be endlessly deep above and below.
    let shape = r.below(9);
    let (t, f) = (true, false);
    let (note, kids) = match shape {
        0 => (cats(vec![Ast::Child(0), Ast::Newline, Ast::Child(1)]), vec![f, t]),
        1 => (cats(vec![Ast::Child(0), Ast::Newline, Ast::Child(1)]), vec![t, f]),
        2 => (cats(vec![Ast::Child(0), Ast::Newline, Ast::Child(1), Ast::Newline, Ast::Child(2)]), vec![f, t, f]),
        3 => (cats(vec![Ast::Child(0), or(lit(" "), Ast::Newline), Ast::Child(1)]), vec![f, t]),
        4 => (list(cats(vec![Ast::Left, comma(), Ast::Newline, style(1, Ast::Right)])), vec![f, f, t, f, t, f]),
        5 => (cats(vec![Ast::Child(0), or(cat(lit(" "), flat(Ast::Child(1))), cat(Ast::Newline, Ast::Child(1)))]), vec![f, t]),
        6 => (list(cats(vec![Ast::Left, or(flat(cat(lit("; "), Ast::Right)), cats(vec![lit(";"), Ast::Newline, Ast::Right]))])), vec![f, f, t]),
        7 => (cats(vec![Ast::Child(0), indent(if r.pct(50) { " " } else { "" }, Some(3), cat(Ast::Newline, Ast::Child(1))), Ast::Newline, Ast::Child(0)]), vec![f, t]),
        _ => (cats(vec![Ast::Mark, count(Ast::Empty, Ast::Empty, list(cats(vec![Ast::Left, Ast::Newline, Ast::Right]))), Ast::Newline, Ast::Child(-1)]), vec![t, f]),
    };
    let shown = format!("{:?}", note);
    let width = *r.pick(&[0u16, 10, 80, 300]);
    let depth = if r.pct(50) { r.below(20) } else { r.below(400) };
    let k = r.range(1, 60);
    let mut doc = Endless {
        notes: vec![Ast::Text.to_notation().validate().unwrap(), note.to_notation().validate().unwrap()],
        texts: (0..r.range(1, 40)).map(|_| "x".repeat(r.range(1, 6))).collect(),
        kids,
        calls: std::cell::Cell::new(0),
        budget: 0,
    };
    let inner: Vec<usize> = (0..doc.kids.len()).filter(|i| doc.kids[*i]).collect();
    let mut path: Vec<usize> = (0..depth).map(|_| *r.pick(&inner)).collect();
    // The end of a branch may be endlessly far away, and so may be its start.
    let leaf = doc.kids.iter().position(|k| !k).unwrap();
    path.push(leaf);
    let target = *r.pick(&[FocusTarget::Start, FocusTarget::End, FocusTarget::Text(1)]);
    let per_line = 60 + 12 * width as u64;
    doc.budget = (depth as u64 + 2 * k as u64 + 10) * doc.kids.len() as u64 * per_line;
    ctx.note = format!("{} levels deep in an endless document of shape {} {}, {} lines in each direction, width {}, {:?}", depth, shape, shown, k, width, target);
    let a0 = alloc::allocs();
    let over = |e: PErr| match e {
        ppp::PrintingError::PrettyDoc(Fault(n)) => format!("more than {} calls\n{}", n - 1, ctx.note),
        e => format!("unexpected error {:?}\n{}", e, ctx.note),
    };
    let root = At { doc: &doc, branch: true, level: 0, index: 0, hash: 0 };
    let (up, focused, down) = pretty_print(root, width, &path, target, None).map_err(over)?;
    let want = &doc.texts[(depth + 1) % doc.texts.len()];
    let (a, b) = (focused.to_left_string(), focused.to_right_string());
    let ok = match target {
        FocusTarget::Start => b.starts_with(want.as_str()),
        FocusTarget::End => a.ends_with(want.as_str()),
        _ => a.ends_with(&want[..1]) && b.starts_with(&want[1..]),
    };
    if !ok {
        bail!("the focused line is {:?} | {:?}, but the focus is in {:?}\n{}", a, b, want, ctx.note);
    }
    let mut n = 0;
    for l in up.take(k) {
        l.map_err(over)?;
        n += 1;
    }
    for l in down.take(k) {
        l.map_err(over)?;
        n += 1;
    }
    let allocs = alloc::allocs() - a0;
    // (Each line repeats the indentation of all levels above it.)
    let indents = if shape == 7 { (depth + k + 1).pow(2) as u64 * 8 } else { 0 };
    if allocs > doc.budget * 2 + indents {
        bail!("{} allocations for {} lines\n{}", allocs, n, ctx.note);
    }
    ctx.max("percent_of_budget_used_in_endless_documents", doc.calls.get() * 100 / doc.budget);
    ctx.max("percent_of_allocations_used_in_endless_documents", allocs * 100 / (doc.budget * 2 + indents));
    ctx.bump(&format!("endless_shape_{}", shape));
    ctx.add("lines_of_endless_documents", n);
    ctx.nontrivial(crate::rng::mix((shape as u64) << 32 ^ (depth as u64) << 16 ^ width as u64 ^ 9 << 50));
    Ok(())
}
