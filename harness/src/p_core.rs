//! C01..C07, C09..C11, C14: what printing delivers.
use crate::gen::*;
use crate::harness::*;
use crate::model::*;
use crate::obs::*;
use crate::rng::{mix, Rng};
use crate::world::*;
use partial_pretty_printer as ppp;
use ppp::{pretty_print, pretty_print_to_string, FocusTarget, Line, PrintingError, Width};

macro_rules! bail { ($($t:tt)*) => { return Err(format!($($t)*)) } }

pub fn err_text(e: &PErr) -> String {
    format!("{:?}", e)
}

pub fn join_lines(ls: &[String]) -> String {
    ls.join("\n")
}

/// Count which features of the semantics this layout exercised.
pub fn tally(ctx: &mut Ctx, w: &World, ly: &Layout, width: u64) {
    ctx.bump("layouts");
    ctx.add("choices_resolved", ly.choices);
    ctx.add("choices_broken", ly.choices_broken);
    ctx.add("eol_vetoes", ly.fits_saw_eol);
    let mut lines = 1;
    let mut col = 0;
    let mut full = false;
    let mut over = false;
    for e in &ly.evs {
        match e {
            Ev::Nl => {
                lines += 1;
                col = 0;
            }
            Ev::Seg { str, kind, .. } => {
                col += disp_width(str);
                full |= col == width;
                over |= col > width;
                match kind {
                    SegKind::Lit => ctx.bump("literals_printed"),
                    SegKind::Text => ctx.bump("texts_printed"),
                    SegKind::Indent => ctx.bump("indents_printed"),
                }
                if disp_width(str) != str.chars().count() as u64 {
                    ctx.bump("nontrivial_width_strings");
                }
            }
            Ev::Start(..) => ctx.bump("nodes_displayed"),
            Ev::Mark(_) => ctx.bump("marks_displayed"),
            Ev::Eol => ctx.bump("eols_displayed"),
            Ev::End(_) => (),
        }
    }
    ctx.add("lines_printed", lines);
    if full {
        ctx.bump("layouts_exactly_filling_width")
    }
    if over {
        ctx.bump("layouts_overflowing_width")
    }
    if ly.choices > 0 && lines > 1 && ly.choices_broken > 0 {
        ctx.nontrivial(mix(w.fingerprint()) ^ width);
    }
}

/// A position in (or beyond) a text of this many characters.
pub fn text_position(r: &mut Rng, text_len: usize) -> usize {
    match r.below(6) {
        0 => 0,
        1 => *r.pick(&[usize::MAX, 1 << 63, 1 << 32, 1 << 16, 65535]),
        2 if text_len > 200 => boundary(r, text_len > 65536),
        _ => r.below(text_len + 2),
    }
}
pub fn gen_target(r: &mut Rng, text_len: usize) -> FocusTarget {
    match r.below(4) {
        0 => FocusTarget::Start,
        1 => FocusTarget::End,
        2 => FocusTarget::Mark,
        _ => FocusTarget::Text(text_position(r, text_len)),
    }
}

pub fn node_of_path(w: &World, path: &[usize]) -> Option<u32> {
    let mut n = w.root;
    for i in path {
        n = *w.kids(n).get(*i)?;
    }
    Some(n)
}
pub fn text_len(w: &World, path: &[usize]) -> usize {
    match node_of_path(w, path).map(|n| &w.nodes[n as usize].kind) {
        Some(Kind::Text(t)) => t.chars().count(),
        _ => 3,
    }
}
pub fn contexts(w: &World, width: Width, path: &[usize], t: &FocusTarget) -> String {
    format!(
        "width {} path {:?} target {:?}\n{}",
        width,
        path,
        t,
        w.describe()
    )
}

// --- C01 ---------------------------------------------------------------------------------------

fn check_layout(w: &World, width: Width, ctx: &mut Ctx) -> Verdict {
    let ly = Model::new(w, width as u64).layout(false);
    match &ly.stop {
        Stop::TooBig => {
            ctx.bump("skipped_too_big");
            return Ok(());
        }
        Stop::Mismatch(_) => {
            ctx.bump("skipped_mismatch");
            return Ok(());
        }
        _ => (),
    }
    tally(ctx, w, &ly, width as u64);
    let lines = ly.lines();
    let want: Vec<String> = (0..lines.runs.len()).map(|i| lines.text(i)).collect();
    let report = |got: &str| {
        format!(
            "printed layout differs from the notation semantics\nprescribed{}:\n{}printed:\n{}\n{}",
            if ly.stop == Stop::Done { "" } else { " (then TextAfterEndOfLine on the last line)" },
            show_lines(&want),
            got,
            contexts(w, width, &[], &FocusTarget::Start)
        )
    };
    let mon = Monitor::new();
    let obs = observe(DocO::root(w, &mon), width, &[], FocusTarget::Start, None);
    let mon2 = Monitor::new();
    let string = pretty_print_to_string(DocO::root(w, &mon2), width);
    if ly.stop == Stop::Done {
        match obs {
            Err(e) => bail!("{}", report(&err_text(&e))),
            Ok(o) => {
                let got = o.all_text();
                if !o.clean() || got != want || !o.up.is_empty() || !o.left.is_empty() {
                    bail!("{}", report(&format!("{}{:?} {:?}", show_lines(&got), o.up_err, o.down_err)));
                }
            }
        }
        match string {
            Err(e) => bail!("{}", report(&err_text(&e))),
            Ok(s) => {
                if s != join_lines(&want) {
                    bail!("{}", report(&format!("(pretty_print_to_string) {:?}", s)));
                }
            }
        }
    } else {
        ctx.bump("text_after_eol_layouts");
        let good = &want[..want.len() - 1];
        match obs {
            Err(e) => {
                if !matches!(e, PrintingError::TextAfterEndOfLine) || !good.is_empty() {
                    bail!("{}", report(&err_text(&e)));
                }
            }
            Ok(o) => {
                if o.all_text() != good || !matches!(o.down_err, Some(PrintingError::TextAfterEndOfLine)) {
                    bail!("{}", report(&format!("{}{:?}", show_lines(&o.all_text()), o.down_err)));
                }
            }
        }
        if !matches!(string, Err(PrintingError::TextAfterEndOfLine)) {
            bail!("{}", report(&format!("(pretty_print_to_string) {:?}", string)));
        }
    }
    ctx.sample(|| {
        format!(
            "width {}; {}\nprinted as prescribed:\n{}",
            width,
            w.describe(),
            show_lines(&want)
        )
    });
    Ok(())
}

fn c01_any(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let w = any_world(r, ctx.size);
    ctx.note = w.describe();
    for _ in 0..4 {
        let width = gen_width(r, &w);
        check_layout(&w, width, ctx)?;
    }
    Ok(())
}
/// Small random notations at every width up to the widest line.
fn c01_sweep(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let w = any_world(r, ctx.size);
    ctx.note = w.describe();
    let ly = Model::new(&w, 65534).layout(false);
    let max = ly.widths().into_iter().max().unwrap().min(60) + 2;
    for width in 0..=max {
        check_layout(&w, width as Width, ctx)?;
    }
    Ok(())
}

/// Lines and indentations whose widths add up to more than the largest `Width`, each followed by
/// choices: an option must not be thought to fit because the columns before it were counted
/// around the corner.
pub fn wide_world(r: &mut Rng) -> World {
    let piece = |r: &mut Rng, cols: usize| -> String {
        let unit = *r.pick(&["x", "一", "e\u{301}"]);
        let w = if unit == "一" { 2 } else { 1 };
        let mut s = unit.repeat(cols / w);
        if cols % w == 1 {
            s.push('o');
        }
        s
    };
    // Parts that sum to a little (or a lot) more than 65536, or to about 65535.
    let parts = |r: &mut Rng| -> Vec<usize> {
        let total = 65536 + match r.below(5) {
            0 => r.below(70),
            1 => r.below(3000),
            2 => 65536 + r.below(70),
            3 => 0,
            _ => r.below(66000),
        };
        let n = r.range(2, 5);
        let mut cuts: Vec<usize> = (0..n - 1).map(|_| total * r.range(1, 99) / 100).collect();
        cuts.sort();
        let mut at = 0;
        let mut ps = Vec::new();
        for c in cuts.into_iter().chain(std::iter::once(total)) {
            ps.push(c - at);
            at = c;
        }
        ps
    };
    let gap = |r: &mut Rng| match r.below(4) {
        0 => or(lit(" "), Ast::Newline),
        1 => or(flat(lit("; ")), cat(lit(";"), Ast::Newline)),
        2 => or(lit("flat"), cats(vec![lit("b"), Ast::Newline, lit("k")])),
        _ => Ast::Newline,
    };
    let mut b = Builder::new();
    let mut kids = Vec::new();
    for _ in 0..r.range(1, 3) {
        for p in parts(r) {
            let t = piece(r, p);
            kids.push(b.add(r, Kind::Text(t), 0));
        }
    }
    for _ in 0..r.range(0, 4) {
        let t = piece(r, *r.clone().pick(&[0usize, 1, 2, 5, 20]));
        let at = r.below(kids.len() + 1);
        kids.insert(at, b.add(r, Kind::Text(t), 0));
    }
    let mut indents = Ast::Newline;
    indents = cats(vec![or(lit("zz"), indents), lit("in"), gap(r), lit("out"), or(lit("tail"), cat(lit("t"), Ast::Newline))]);
    for p in parts(r).into_iter().take(3) {
        let t = piece(r, p);
        indents = indent(&t, None, indents);
    }
    let g1 = gap(r);
    let g2 = gap(r);
    let asts = vec![
        Ast::Text,
        // Every kid on one line, then choices.
        cats(vec![fold(Ast::Child(0), cats(vec![Ast::Left, Ast::Right])), or(lit("a"), lit("")), g1.clone(), lit("end"), g2.clone(), lit(".")]),
        // A choice between any two kids.
        cats(vec![fold(Ast::Child(0), cats(vec![Ast::Left, g2.clone(), Ast::Right])), g1.clone(), lit("end")]),
        // The kids in a choice.
        cats(vec![or(flat(cat(fold(Ast::Child(0), cats(vec![Ast::Left, or(lit(","), Ast::Newline), Ast::Right])), lit("!"))), fold(Ast::Child(0), cats(vec![Ast::Left, Ast::Newline, Ast::Right]))), g1, lit("x")]),
        indents,
    ];
    let note = r.range(1, 4);
    let root = b.add(r, Kind::Kids(kids), note);
    World::new(asts, b.nodes, root, r)
}

fn clip(e: String, max: usize) -> String {
    let mut e = e;
    let mut cut = max.min(e.len());
    while !e.is_char_boundary(cut) {
        cut -= 1;
    }
    e.truncate(cut);
    e
}

fn c01_wide(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let w = wide_world(r);
    let ly = Model::new(&w, 65534).layout(false);
    let ws = ly.widths();
    for _ in 0..4 {
        // Around the widths that wrapped sums would have.
        let width = match r.below(4) {
            0 => *r.pick(&[0, 1, 10, 80, 1000, 32768, 65533, 65534]),
            1 => r.below(100) as u64,
            _ => (*r.pick(&ws) % 65536 + r.below(12) as u64).saturating_sub(4).min(65534),
        };
        check_layout(&w, width as Width, ctx).map_err(|e| clip(e, 3000))?;
        if ws.iter().any(|x| *x > 65535) {
            ctx.bump("layouts_with_lines_wider_than_u16");
        }
    }
    Ok(())
}

/// Deep, broad and long documents.
fn c01_extreme(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let big = *r.pick(&[100, 300, 300, 1000]);
    let w = extreme_world(r, big);
    ctx.note = clip(w.describe(), 3000);
    for _ in 0..3 {
        let width = gen_width(r, &w);
        check_layout(&w, width, ctx).map_err(|e| clip(e, 6000))?;
        ctx.bump("extreme_layouts");
    }
    Ok(())
}

/// Documents of up to 150000 lines.
fn c01_tall(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let w = tall_world(r);
    ctx.note = clip(w.describe(), 2000);
    let width = r.range(1, 30) as Width;
    let before = ctx.counters.get("skipped_too_big").copied().unwrap_or(0);
    check_layout(&w, width, ctx).map_err(|e| clip(e, 6000))?;
    if ctx.counters.get("skipped_too_big").copied().unwrap_or(0) == before {
        ctx.bump("tall_layouts");
    }
    Ok(())
}
/// A world of unusual scale, the number of places to look at in it, and a width.
fn scaled_world(r: &mut Rng) -> (World, usize) {
    match r.below(10) {
        0..=6 => {
            let big = *r.pick(&[100, 300, 300, 1000]);
            (extreme_world(r, big), 6)
        }
        7..=8 => (boundary_world(r, true), 2),
        _ => (tall_world(r), 2),
    }
}
/// Nodes with about as many children as fit in one or two bytes.
fn c01_boundary(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let big = r.pct(30);
    let w = boundary_world(r, big);
    ctx.note = clip(w.describe(), 3000);
    for _ in 0..2 {
        let width = gen_width(r, &w);
        check_layout(&w, width, ctx).map_err(|e| clip(e, 6000))?;
        ctx.bump(if w.nodes.len() > 65536 { "layouts_of_over_65536_nodes" } else { "boundary_layouts" });
    }
    Ok(())
}

// --- C02 ---------------------------------------------------------------------------------------

/// Where a long text is, if there is one near the root.
fn long_text(w: &World) -> Option<Vec<usize>> {
    let long = |n: u32| matches!(&w.nodes[n as usize].kind, Kind::Text(t) if t.len() > 250);
    if long(w.root) {
        return Some(vec![]);
    }
    w.kids(w.root).iter().position(|n| long(*n)).map(|i| vec![i])
}

fn c02_focus(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let w = any_world(r, ctx.size);
    let few = if ctx.thorough { 40 } else { 14 };
    check_refocus(r, &w, few, 2, ctx)
}
fn c02_scale(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let (w, few) = scaled_world(r);
    let tall = w.nodes.len() > 65536;
    check_refocus(r, &w, few, 1, ctx).map_err(|e| clip(e, 6000))?;
    ctx.bump(if tall { "documents_of_over_65536_nodes" } else { "extreme_documents" });
    Ok(())
}
fn check_refocus(r: &mut Rng, w: &World, few: usize, widths: usize, ctx: &mut Ctx) -> Verdict {
    ctx.note = clip(w.describe(), 12000);
    for _ in 0..widths {
        let width = gen_width(r, w);
        let ly = Model::new(w, width as u64).layout(false);
        if ly.stop == Stop::TooBig {
            ctx.bump("skipped_too_big");
            continue;
        }
        let root_style = if r.pct(50) { Some(Sty(vec![TOK_ROOT])) } else { None };
        let mon = Monitor::new();
        let base = match observe(DocO::root(w, &mon), width, &[], FocusTarget::Start, root_style.as_ref()) {
            Ok(o) if o.clean() => o,
            _ if ly.stop == Stop::TextAfterEol => {
                check_unprintable(r, w, &ly, width, few, root_style.as_ref(), ctx)?;
                continue;
            }
            _ => {
                ctx.bump("skipped_error_at_root");
                continue;
            }
        };
        let want = base.all_runs();
        let mut paths = ly.displayed_paths(3000);
        r.shuffle(&mut paths);
        paths.truncate(few);
        paths.extend(long_text(w));
        for path in &paths {
            let mut targets = vec![FocusTarget::Start, FocusTarget::End, FocusTarget::Mark];
            let len = text_len(w, path);
            targets.push(FocusTarget::Text(0));
            targets.push(FocusTarget::Text(text_position(r, len)));
            for t in targets {
                let mon = Monitor::new();
                match observe(DocO::root(w, &mon), width, path, t, root_style.as_ref()) {
                    Ok(o) => {
                        ctx.bump(match t {
                            FocusTarget::Start => "focuses_start",
                            FocusTarget::End => "focuses_end",
                            FocusTarget::Mark => "focuses_mark",
                            FocusTarget::Text(_) => "focuses_text",
                        });
                        let got = o.all_runs();
                        if !o.up.is_empty() && !o.down.is_empty() {
                            ctx.bump("focuses_with_lines_on_both_sides");
                            ctx.nontrivial(mix(w.fingerprint()) ^ mix(width as u64 ^ o.at().byte as u64 ^ (o.at().line as u64) << 20));
                        }
                        if !o.clean() || got != want {
                            let d = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                            bail!(
                                "focused print differs from the print from the root, first at line {} (errors: {:?} {:?})\nfrom the root:\n{}focused:\n{}root line {}: {}\nfocused line: {}\n{}",
                                d, o.up_err, o.down_err,
                                show_lines(&base.all_text()), show_lines(&o.all_text()), d,
                                want.get(d).map(show_runs).unwrap_or_default(), got.get(d).map(show_runs).unwrap_or_default(),
                                contexts(w, width, path, &t)
                            );
                        }
                        ctx.sample(|| format!("focused at line {} byte {}: {} lines above, {} below, same as from root\n{}", o.at().line, o.at().byte, o.up.len(), o.down.len(), contexts(w, width, path, &t)));
                    }
                    Err(PrintingError::MissingFocusMark) if matches!(t, FocusTarget::Mark) => ctx.bump("missing_mark"),
                    Err(PrintingError::MissingText) if matches!(t, FocusTarget::Text(_)) => ctx.bump("missing_text"),
                    Err(PrintingError::InvalidPath(_)) => ctx.bump("invalid_path"),
                    Err(e) => bail!("focusing fails with {:?}, though the document prints from the root\n{}", e, contexts(w, width, path, &t)),
                }
            }
        }
    }
    Ok(())
}

/// A text or literal follows an end-of-line marker, so that the document cannot be printed: neither
/// from the root, nor from anywhere else.
fn check_unprintable(r: &mut Rng, w: &World, ly: &Layout, width: Width, few: usize, root_style: Option<&Sty>, ctx: &mut Ctx) -> Verdict {
    let lines = ly.lines();
    let good: Vec<String> = (0..lines.runs.len() - 1).map(|i| lines.text(i)).collect();
    let mut paths = ly.displayed_paths(3000);
    r.shuffle(&mut paths);
    paths.truncate(few);
    for path in &paths {
        let len = text_len(w, path);
        for t in [FocusTarget::Start, FocusTarget::End, FocusTarget::Mark, FocusTarget::Text(r.below(len + 2))] {
            let mon = Monitor::new();
            match observe(DocO::root(w, &mon), width, path, t, root_style) {
                Ok(o) => {
                    let told = |e: &Option<PErr>| matches!(e, Some(PrintingError::TextAfterEndOfLine));
                    if !told(&o.up_err) && !told(&o.down_err) {
                        bail!("text follows an end-of-line marker, but the document prints (errors: {:?} {:?})\n{}{}", o.up_err, o.down_err, show_lines(&o.all_text()), contexts(w, width, path, &t));
                    }
                    ctx.bump(if told(&o.up_err) { "end_of_line_errors_above" } else { "end_of_line_errors_below" });
                    if o.up_err.is_none() && o.all_text() != good {
                        bail!("text follows an end-of-line marker: before that come the lines\n{}but printed were\n{}{}", show_lines(&good), show_lines(&o.all_text()), contexts(w, width, path, &t));
                    }
                }
                Err(PrintingError::TextAfterEndOfLine) => ctx.bump("end_of_line_errors_at_the_focus"),
                Err(PrintingError::MissingFocusMark) if matches!(t, FocusTarget::Mark) => (),
                Err(PrintingError::MissingText) if matches!(t, FocusTarget::Text(_)) => (),
                // The node is displayed, but not within the first display of its parent.
                Err(PrintingError::InvalidPath(_)) if ly.find_path(path, true).is_err() || ly.find_path(path, false) != ly.find_path(path, true) => ctx.bump("invalid_path"),
                Err(e) => bail!("focusing fails with {:?}\n{}", e, contexts(w, width, path, &t)),
            }
        }
    }
    Ok(())
}

// --- C03 ---------------------------------------------------------------------------------------

#[derive(Debug, PartialEq)]
enum Want {
    At(At),
    InvalidPath(usize),
    MissingMark,
    MissingText,
}

fn expected_focus(w: &World, ly: &Layout, pos: &[At], path: &[usize], t: FocusTarget) -> Option<Want> {
    let a = ly.find_path(path, false);
    let b = ly.find_path(path, true);
    if a != b {
        return None;
    }
    let start = match a {
        Err(k) => return Some(Want::InvalidPath(path[k])),
        Ok(s) => s,
    };
    let node = ly.node_at(start);
    let end = ly.find_end(start)?;
    Some(match t {
        FocusTarget::Start => Want::At(pos[start]),
        FocusTarget::End => Want::At(pos[end]),
        FocusTarget::Mark => {
            let f = |range: &[Ev]| range.iter().position(|e| matches!(e, Ev::Mark(n) if *n == node));
            match (f(&ly.evs[start..]), f(&ly.evs[start..=end])) {
                (None, None) => Want::MissingMark,
                (Some(i), Some(_)) => Want::At(pos[start + i]),
                _ => return None,
            }
        }
        FocusTarget::Text(k) => {
            let f = |range: &[Ev]| {
                range.iter().position(|e| matches!(e, Ev::Seg { kind: SegKind::Text, node: n, .. } if *n == node))
            };
            match (f(&ly.evs[start..]), f(&ly.evs[start..=end])) {
                (None, None) => Want::MissingText,
                (Some(i), Some(_)) => {
                    let s = match &w.nodes[node as usize].kind {
                        Kind::Text(s) => s,
                        _ => return None,
                    };
                    let byte = s.char_indices().nth(k).map(|x| x.0).unwrap_or(s.len());
                    let p = pos[start + i];
                    Want::At(At { line: p.line, byte: p.byte + byte })
                }
                _ => return None,
            }
        }
    })
}

fn c03_focus(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let w = any_world(r, ctx.size);
    let few = if ctx.thorough { 30 } else { 12 };
    check_places(r, &w, few, 2, ctx)
}
fn c03_scale(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let (w, few) = scaled_world(r);
    let tall = w.nodes.len() > 65536;
    check_places(r, &w, few, 1, ctx).map_err(|e| clip(e, 6000))?;
    ctx.bump(if tall { "documents_of_over_65536_nodes" } else { "extreme_documents" });
    Ok(())
}
fn check_places(r: &mut Rng, w: &World, few: usize, widths: usize, ctx: &mut Ctx) -> Verdict {
    ctx.note = clip(w.describe(), 12000);
    for _ in 0..widths {
        let width = gen_width(r, w);
        let ly = Model::new(w, width as u64).layout(false);
        if ly.stop != Stop::Done {
            ctx.bump("skipped_layout_with_error");
            continue;
        }
        let lines = ly.lines();
        let want: Vec<String> = (0..lines.runs.len()).map(|i| lines.text(i)).collect();
        let mon = Monitor::new();
        match observe(DocO::root(w, &mon), width, &[], FocusTarget::Start, None) {
            Ok(o) if o.clean() && o.all_text() == want => (),
            _ => {
                // The layout itself is off: that is C01's business, and positions mean nothing then.
                ctx.bump("skipped_layout_differs");
                continue;
            }
        }
        let pos = ly.positions();
        let mut paths = ly.displayed_paths(3000);
        r.shuffle(&mut paths);
        paths.truncate(few);
        paths.extend(long_text(w));
        for _ in 0..6 {
            paths.push(gen_path(r, w, true));
        }
        for path in &paths {
            let len = text_len(w, path);
            let mut targets = vec![FocusTarget::Start, FocusTarget::End, FocusTarget::Mark, FocusTarget::Text(text_position(r, len))];
            targets.push(gen_target(r, len));
            for t in targets {
                let want = match expected_focus(w, &ly, &pos, path, t) {
                    None => {
                        ctx.bump("ambiguous_duplicate_display");
                        continue;
                    }
                    Some(x) => x,
                };
                let mon = Monitor::new();
                let got = match observe(DocO::root(w, &mon), width, path, t, None) {
                    Ok(o) => Want::At(o.at()),
                    Err(PrintingError::InvalidPath(i)) => Want::InvalidPath(i),
                    Err(PrintingError::MissingFocusMark) => Want::MissingMark,
                    Err(PrintingError::MissingText) => Want::MissingText,
                    Err(e) => bail!("focusing failed with {:?}, expected {:?}\n{}", e, want, contexts(w, width, path, &t)),
                };
                if got != want {
                    bail!("the focus is at {:?} but belongs at {:?}\n{}{}", got, want,
                        show_lines(&(0..lines.runs.len()).map(|i| lines.text(i)).collect::<Vec<_>>()),
                        contexts(w, width, path, &t));
                }
                ctx.bump(match (&want, t) {
                    (Want::InvalidPath(_), _) => "invalid_paths",
                    (Want::MissingMark, _) => "missing_marks",
                    (Want::MissingText, _) => "missing_texts",
                    (_, FocusTarget::Start) => "found_start",
                    (_, FocusTarget::End) => "found_end",
                    (_, FocusTarget::Mark) => "found_mark",
                    (_, FocusTarget::Text(_)) => "found_text",
                });
                if let Want::At(a) = &want {
                    if a.line > 0 || a.byte > 0 {
                        ctx.nontrivial(mix(w.fingerprint() ^ width as u64) ^ mix(((a.line as u64) << 30) ^ a.byte as u64 ^ (path.len() as u64) << 50));
                    }
                }
                ctx.sample(|| format!("{:?} as expected for {}", want, contexts(w, width, path, &t)));
            }
        }
    }
    Ok(())
}

// --- C04 ---------------------------------------------------------------------------------------

/// Documents that follow the requirement on choices: groups, fills and nests.
fn wadler_world(r: &mut Rng, size: usize) -> World {
    let mut asts = vec![Ast::Text];
    let sp = || or(lit(" "), Ast::Newline);
    for _ in 0..r.range(2, 5) {
        let n = r.range(0, 5);
        let (o, c) = *r.pick(&[("(", ")"), ("[", "]"), ("{ ", " }"), ("do", "end"), ("", "")]);
        let comma = *r.pick(&[",", ";", "", " +"]);
        let f = |join: Ast| fold(Ast::Child(0), join);
        let a = match r.below(7) {
            // group: all flat or all broken
            0 => or(
                flat(cats(vec![lit(o), f(cats(vec![Ast::Left, lit(comma), lit(" "), Ast::Right])), lit(c)])),
                cats(vec![lit(o), nest(n, f(cats(vec![Ast::Left, lit(comma), Ast::Newline, Ast::Right]))), Ast::Newline, lit(c)]),
            ),
            // fill
            1 => cats(vec![lit(o), indent(&" ".repeat(n), None, f(cats(vec![Ast::Left, lit(comma), sp(), Ast::Right]))), lit(c)]),
            // group of a fill
            2 => {
                let body = cats(vec![lit(o), indent(&" ".repeat(n), None, f(cats(vec![Ast::Left, lit(comma), sp(), Ast::Right]))), sp(), lit(c)]);
                or(flat(body.clone()), body)
            }
            // prefix with an optional break
            3 => cats(vec![lit("let x ="), indent(&" ".repeat(n), None, cat(sp(), f(cats(vec![Ast::Left, sp(), Ast::Right]))))]),
            // method chain
            4 => f(cats(vec![Ast::Left, or(flat(cat(lit("."), Ast::Right)), nest(n, cat(lit("."), Ast::Right)))])),
            // hard lines
            5 => cats(vec![lit(o), nest(n, f(cats(vec![Ast::Left, Ast::Newline, Ast::Right])))]),
            _ => or(flat(f(cats(vec![Ast::Left, lit(comma), Ast::Right]))), f(cats(vec![Ast::Left, lit(comma), Ast::Newline, Ast::Right]))),
        };
        asts.push(a);
    }
    let mut b = Builder::new();
    fn node(r: &mut Rng, b: &mut Builder, n: usize, depth: usize, budget: &mut usize) -> u32 {
        *budget = budget.saturating_sub(1);
        if depth == 0 || *budget == 0 || r.pct(25) {
            let t = "x".repeat(r.range(0, 7));
            return b.add(r, Kind::Text(t), 0);
        }
        let k = r.range(0, 4);
        let kids = (0..k).map(|_| node(r, b, n, depth - 1, budget)).collect();
        let note = r.range(1, n - 1);
        b.add(r, Kind::Kids(kids), note)
    }
    let mut budget = size;
    let root = loop {
        let depth = r.range(1, 4);
        let x = node(r, &mut b, asts.len(), depth, &mut budget);
        if matches!(b.nodes[x as usize].kind, Kind::Kids(_)) || budget == 0 {
            break x;
        }
    };
    World::new(asts, b.nodes, root, r)
}

#[derive(Clone)]
enum Res {
    W(u64),
    N(u64),
    C(bool, Vec<Res>, usize),
}
/// All resolutions of this sequence, up to a limit.
fn resolutions(seq: &[Abs], limit: usize) -> Option<Vec<Vec<Res>>> {
    let mut out: Vec<Vec<Res>> = vec![vec![]];
    for (i, a) in seq.iter().enumerate() {
        match a {
            Abs::W(w) => out.iter_mut().for_each(|v| v.push(Res::W(*w))),
            Abs::N(n) => out.iter_mut().for_each(|v| v.push(Res::N(*n))),
            Abs::C(x, y) => {
                let xs = resolutions(x, limit)?;
                let ys = resolutions(y, limit)?;
                if out.len() * (xs.len() + ys.len()) > limit {
                    return None;
                }
                let mut next = vec![];
                for v in &out {
                    for (first, opts) in [(true, &xs), (false, &ys)] {
                        for o in opts {
                            let mut v = v.clone();
                            v.push(Res::C(first, o.clone(), i));
                            next.push(v);
                        }
                    }
                }
                out = next;
            }
        }
    }
    Some(out)
}
fn res_fits(seq: &[Res], width: u64, col: &mut u64) -> bool {
    for r in seq {
        match r {
            Res::W(w) => *col += w,
            Res::N(n) => *col = *n,
            Res::C(_, v, _) => {
                if !res_fits(v, width, col) {
                    return false;
                }
            }
        }
        if *col > width {
            return false;
        }
    }
    true
}
fn fits_whole(seq: &[Res], width: u64) -> bool {
    res_fits(seq, width, &mut 0)
}
/// All variants of `seq` in which one choice that took its first option takes its second instead.
/// Calls `f` with, for each such choice, all the variants.
fn flips(abs: &[Abs], seq: &[Res], rebuild: &dyn Fn(Vec<Res>) -> Vec<Res>, f: &mut dyn FnMut(Vec<Vec<Res>>) -> bool) -> bool {
    for (pos, r) in seq.iter().enumerate() {
        if let Res::C(first, inner, i) = r {
            let (x, y) = match &abs[*i] {
                Abs::C(x, y) => (x, y),
                _ => unreachable!(),
            };
            if *first {
                let vars = match resolutions(y, 600) {
                    None => return false,
                    Some(ys) => ys
                        .into_iter()
                        .map(|o| {
                            let mut s = seq.to_vec();
                            s[pos] = Res::C(false, o, *i);
                            rebuild(s)
                        })
                        .collect(),
                };
                if !f(vars) {
                    return false;
                }
            }
            let sub = if *first { x } else { y };
            let rb = |inner: Vec<Res>| {
                let mut s = seq.to_vec();
                s[pos] = Res::C(*first, inner, *i);
                rebuild(s)
            };
            if !flips(sub, inner, &rb, f) {
                return false;
            }
        }
    }
    true
}
fn first_options_flat(seq: &[Abs]) -> bool {
    fn has_nl(seq: &[Abs]) -> bool {
        seq.iter().any(|a| match a {
            Abs::W(_) => false,
            Abs::N(_) => true,
            Abs::C(x, y) => has_nl(x) || has_nl(y),
        })
    }
    seq.iter().all(|a| match a {
        Abs::C(x, y) => !has_nl(x) && first_options_flat(y),
        _ => true,
    })
}

/// Long lines of many small pieces, and a few choices among them.
fn long_wadler_world(r: &mut Rng) -> World {
    let mut asts = vec![Ast::Text];
    let mut b = Builder::new();
    let mut kids = vec![];
    let mut parts = vec![];
    let piece = |r: &mut Rng, b: &mut Builder, kids: &mut Vec<u32>| match r.below(4) {
        0 => lit(&"abc"[..r.range(1, 3)]),
        1 => style(0, lit("s")),
        _ => {
            let t = "x".repeat(r.range(0, 4));
            kids.push(b.add(r, Kind::Text(t), 0));
            Ast::Child(kids.len() as isize - 1)
        }
    };
    let run = |r: &mut Rng, b: &mut Builder, kids: &mut Vec<u32>, max: usize| {
        let n = r.below(max + 1);
        (0..n).map(|_| piece(r, b, kids)).collect::<Vec<_>>()
    };
    let max = *r.pick(&[3usize, 15, 40]);
    for _ in 0..r.range(1, 4) {
        parts.extend(run(r, &mut b, &mut kids, max));
        let n = r.range(0, 4);
        match r.below(4) {
            0 => parts.push(or(lit(" "), Ast::Newline)),
            1 => {
                let mid = run(r, &mut b, &mut kids, max / 2);
                parts.push(or(flat(cats(mid.clone())), nest(n, cats(mid))));
            }
            2 => {
                let mid = run(r, &mut b, &mut kids, max / 2);
                parts.push(indent(&" ".repeat(n), None, cats([vec![or(lit(" "), Ast::Newline)], mid].concat())));
            }
            _ => {
                let (a, c) = (run(r, &mut b, &mut kids, max / 3), run(r, &mut b, &mut kids, max / 3));
                parts.push(or(
                    flat(cats([a.clone(), vec![lit(" ")], c.clone()].concat())),
                    cats([a, vec![Ast::Newline], c].concat()),
                ));
            }
        }
        if r.pct(15) {
            parts.push(Ast::Newline);
        }
    }
    parts.extend(run(r, &mut b, &mut kids, max));
    // The end of the line may also lie beyond the end of the node.
    let note = asts.len();
    asts.push(cats(parts));
    let inner = b.add(r, Kind::Kids(kids), note);
    let mut kids = vec![inner];
    let after = run(r, &mut b, &mut kids, max);
    asts.push(cats([vec![Ast::Child(0)], after].concat()));
    let root = b.add(r, Kind::Kids(kids), note + 1);
    World::new(asts, b.nodes, root, r)
}

fn c04_fit(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let w = wadler_world(r, ctx.size.min(24));
    fits(&w, 70, 71, ctx)
}
fn c04_long(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let w = long_wadler_world(r);
    ctx.bump("documents_with_long_lines");
    fits(&w, 400, 12, ctx)
}
fn fits(w: &World, max_width: u64, num_widths: u64, ctx: &mut Ctx) -> Verdict {
    ctx.note = w.describe();
    let m = Model::new(w, 0);
    let mut max = 9;
    let abs = match m.abs(&mut max) {
        None => {
            ctx.bump("skipped_too_many_choices");
            return Ok(());
        }
        Some(a) => a,
    };
    if !first_options_flat(&abs) {
        ctx.bump("skipped_not_flat");
        return Ok(());
    }
    let all = match resolutions(&abs, 600) {
        None => {
            ctx.bump("skipped_too_many_layouts");
            return Ok(());
        }
        Some(a) => a,
    };
    ctx.add("alternative_layouts_enumerated", all.len() as u64);
    let widest = {
        let ly = Model::new(w, 65534).layout(false);
        ly.widths().into_iter().max().unwrap()
    };
    let max = widest.min(max_width);
    let step = (max / num_widths).max(1);
    for width in (max % step..=max).step_by(step as usize) {
        let fitting: Vec<&Vec<Res>> = all.iter().filter(|s| fits_whole(s, width)).collect();
        if fitting.is_empty() {
            ctx.bump("widths_where_nothing_fits");
            continue;
        }
        // The requirement: wherever the first option fits, so does the second.
        let mut ok = true;
        for s in &fitting {
            if !flips(&abs, s, &|x| x, &mut |vars| vars.iter().any(|v| fits_whole(v, width))) {
                ok = false;
                break;
            }
        }
        if !ok {
            ctx.bump("widths_where_requirement_fails");
            continue;
        }
        let mon = Monitor::new();
        let o = match observe(DocO::root(w, &mon), width as Width, &[], FocusTarget::Start, None) {
            Ok(o) if o.clean() => o,
            _ => {
                ctx.bump("skipped_error");
                continue;
            }
        };
        ctx.bump("widths_checked");
        if fitting.len() < all.len() {
            ctx.bump("widths_where_some_layouts_do_not_fit");
            ctx.nontrivial(mix(w.fingerprint()) ^ width);
        }
        for l in o.all_text() {
            if disp_width(&l) > width {
                bail!(
                    "a line is wider than {} though {} of the {} layouts of the document fit\n{}{}",
                    width, fitting.len(), all.len(), show_lines(&o.all_text()), w.describe()
                );
            }
        }
        ctx.sample(|| format!("width {}: {} of {} layouts fit, and so does the printed one\n{}", width, fitting.len(), all.len(), show_lines(&o.all_text())));
    }
    Ok(())
}

// --- C05 ---------------------------------------------------------------------------------------

fn c05_styles(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let w = any_world(r, ctx.size);
    let few = 5;
    check_styles(r, &w, few, 2, ctx)
}
fn c05_scale(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let (w, few) = scaled_world(r);
    let tall = w.nodes.len() > 65536;
    check_styles(r, &w, few, 1, ctx).map_err(|e| clip(e, 6000))?;
    ctx.bump(if tall { "documents_of_over_65536_nodes" } else { "extreme_documents" });
    Ok(())
}
fn check_styles(r: &mut Rng, w: &World, few: usize, widths: usize, ctx: &mut Ctx) -> Verdict {
    ctx.note = clip(w.describe(), 12000);
    let print = w.fingerprint();
    for _ in 0..widths {
        let width = gen_width(r, w);
        let rooted = r.pct(60);
        let ly = Model::new(w, width as u64).layout(rooted);
        if ly.stop != Stop::Done {
            ctx.bump("skipped_layout_with_error");
            continue;
        }
        let want = ly.lines();
        let root_style = Sty(vec![TOK_ROOT]);
        let rs = if rooted { Some(&root_style) } else { None };
        let mut paths = ly.displayed_paths(3000);
        r.shuffle(&mut paths);
        paths.truncate(few);
        paths.insert(0, vec![]);
        for path in &paths {
            for t in [FocusTarget::Start, FocusTarget::End, gen_target(r, 3)] {
                let mon = Monitor::new();
                let o = match observe(DocO::root(w, &mon), width, path, t, rs) {
                    Ok(o) => o,
                    Err(_) => {
                        ctx.bump("focus_missing");
                        continue;
                    }
                };
                let got = o.all_runs();
                if got.len() != want.runs.len() {
                    ctx.bump("skipped_layout_differs");
                    continue;
                }
                for (i, (g, x)) in got.iter().zip(&want.runs).enumerate() {
                    if runs_text(g) != want.text(i) {
                        ctx.bump("skipped_line_differs");
                        continue;
                    }
                    ctx.add("runs_checked", x.len() as u64);
                    for (_, st) in x {
                        ctx.max("style_depth", st.0.len() as u64);
                    }
                    if x.iter().any(|(_, s)| s.0.len() >= 2) {
                        ctx.bump("lines_with_combined_styles");
                        ctx.nontrivial(mix(print ^ i as u64) ^ width as u64);
                    }
                    if g != x {
                        bail!("styles on line {} differ\nprescribed: {}\ndelivered:  {}\n(token = node*64 for a node style, node*64+1+label for a label; {} = root style)\n{}",
                            i, show_runs(x), show_runs(g), TOK_ROOT, contexts(w, width, path, &t));
                    }
                }
                ctx.sample(|| format!("styles as prescribed, e.g. {}\n{}", want.runs.last().map(show_runs).unwrap_or_default(), contexts(w, width, path, &t)));
            }
        }
    }
    Ok(())
}

// --- C06 ---------------------------------------------------------------------------------------

fn sat(x: u64) -> u64 {
    x.min(65535)
}

fn check_widths<'d>(w: &'d World, mon: &'d Monitor, width: Width, path: &[usize], t: FocusTarget, ctx: &mut Ctx) -> Verdict {
    let node_text = match node_of_path(w, path).map(|n| &w.nodes[n as usize].kind) {
        Some(Kind::Text(s)) => Some(s.clone()),
        _ => None,
    };
    let (up, focused, down) = match pretty_print(DocO::root(w, mon), width, path, t, None) {
        Ok(x) => x,
        Err(_) => {
            ctx.bump("focus_missing");
            return Ok(());
        }
    };
    let where_ = || contexts(w, width, path, &t);
    let (left, right) = own_focused(&focused);
    // The two halves of a text split by the focus
    let split = match (t, left.last(), right.first(), &node_text) {
        (FocusTarget::Text(_), Some(a), Some(b), Some(t)) if format!("{}{}", a.s, b.s) == *t => {
            ctx.bump("split_texts");
            if sat(disp_width(t)) != a.width + b.width {
                bail!("the halves {:?} and {:?} of a text of width {} have widths {} and {}\n{}", a.s, b.s, disp_width(t), a.width, b.width, where_());
            }
            // (Only where a sequence of characters is cut need the halves not add up.)
            if disp_width(&a.s) + disp_width(&b.s) == disp_width(t) && disp_width(t) <= 65535 {
                if a.width != disp_width(&a.s) || b.width != disp_width(&b.s) {
                    bail!("the halves {:?} and {:?} of a text are {} and {} columns wide, but say {} and {}\n{}", a.s, b.s, disp_width(&a.s), disp_width(&b.s), a.width, b.width, where_());
                }
                ctx.bump("split_texts_with_widths_that_add_up");
            }
            true
        }
        _ => false,
    };
    for (i, s) in left.iter().enumerate() {
        if split && i + 1 == left.len() {
            continue;
        }
        if s.width != sat(disp_width(&s.s)) {
            bail!("segment {:?} says it has width {} but is {} columns wide\n{}", s.s, s.width, disp_width(&s.s), where_());
        }
    }
    for (i, s) in right.iter().enumerate() {
        if split && i == 0 {
            continue;
        }
        if s.width != sat(disp_width(&s.s)) {
            bail!("segment {:?} says it has width {} but is {} columns wide\n{}", s.s, s.width, disp_width(&s.s), where_());
        }
    }
    let sum = |l: &OLine| sat(l.iter().map(|s| s.width).sum::<u64>());
    let total = sat(left.iter().chain(&right).map(|s| s.width).sum::<u64>());
    let cat: OLine = left.iter().chain(&right).cloned().collect();
    let checks = [
        (focused.left_width() as u64, sum(&left), "left_width"),
        (focused.right_width() as u64, sum(&right), "right_width"),
        (focused.width() as u64, total, "width"),
    ];
    for (got, want, what) in checks {
        if got != want {
            bail!("FocusedLine::{} is {} but its segments add up to {}\n{}", what, got, want, where_());
        }
    }
    for (got, want, what) in [
        (focused.to_left_string(), text_of(&left), "to_left_string"),
        (focused.to_right_string(), text_of(&right), "to_right_string"),
        (focused.to_string(), text_of(&cat), "to_string"),
    ] {
        if got != want {
            bail!("FocusedLine::{} is {:?} but its segments read {:?}\n{}", what, got, want, where_());
        }
    }
    if total == 65535 {
        ctx.bump("saturated_lines");
    }
    ctx.bump("focused_lines");
    let line = Line::from(focused);
    if own_line(&line) != cat {
        bail!("Line::from(FocusedLine) changed the segments\n{}", where_());
    }
    if line.width() as u64 != total || line.to_string() != text_of(&cat) {
        bail!("Line::from(FocusedLine) has width {} and text {:?}, expected {} and {:?}\n{}", line.width(), line.to_string(), total, text_of(&cat), where_());
    }
    for l in up.take(4000).chain(down.take(4000)) {
        let l = match l {
            Ok(l) => l,
            Err(_) => break,
        };
        let o = own_line(&l);
        ctx.bump("lines");
        for s in &o {
            ctx.bump("segments");
            if s.width != sat(disp_width(&s.s)) {
                bail!("segment {:?} says it has width {} but is {} columns wide\n{}", s.s, s.width, disp_width(&s.s), where_());
            }
            if s.s.chars().count() as u64 != s.width {
                ctx.bump("segments_with_nontrivial_width");
                ctx.nontrivial(crate::rng::hash_str(&s.s));
            }
        }
        if l.width() as u64 != sum(&o) {
            bail!("Line::width is {} but its segments add up to {}\n{}", l.width(), sum(&o), where_());
        }
        if sum(&o) == 65535 {
            ctx.bump("saturated_lines");
        }
        if l.to_string() != text_of(&o) {
            bail!("Line::to_string is {:?} but its segments read {:?}\n{}", l.to_string(), text_of(&o), where_());
        }
    }
    ctx.sample(|| format!("widths and strings add up for {}", where_()));
    Ok(())
}

fn c06_widths(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let w = any_world(r, ctx.size);
    ctx.note = w.describe();
    for _ in 0..5 {
        let width = gen_width(r, &w);
        let path = gen_path(r, &w, false);
        let t = gen_target(r, text_len(&w, &path));
        let mon = Monitor::new();
        check_widths(&w, &mon, width, &path, t, ctx)?;
    }
    Ok(())
}

/// Documents with lines around and beyond 65535 columns.
pub fn long_world(r: &mut Rng) -> World {
    long_world_of(r, &["x", "一", "ab", "e\u{301}"])
}
pub fn long_world_of(r: &mut Rng, units: &[&'static str]) -> World {
    let big = |r: &mut Rng| {
        let unit = *r.pick(units);
        let n = *r.pick(&[30000usize, 32767, 32768, 65534, 65535, 65536, 70000, 1, 3]);
        unit.repeat(n)
    };
    let n = r.range(1, 3);
    let asts = vec![
        Ast::Text,
        cats(vec![lit("<"), fold(Ast::Child(0), cats(vec![Ast::Left, or(lit(" "), Ast::Newline), Ast::Right])), lit(">")]),
        indent("    ", None, fold(Ast::Child(0), cats(vec![Ast::Left, or(flat(Ast::Right), cat(Ast::Newline, Ast::Right))]))),
        cats(vec![lit(&"y".repeat(if r.pct(50) { 40000 } else { 2 })), fold(Ast::Child(0), cats(vec![Ast::Left, Ast::Right])), or(lit("a"), lit("bb"))]),
    ];
    let mut b = Builder::new();
    let kids = (0..=n)
        .map(|_| {
            let t = big(r);
            b.add(r, Kind::Text(t), 0)
        })
        .collect();
    let note = r.range(1, 3);
    let root = b.add(r, Kind::Kids(kids), note);
    let root = if r.pct(50) {
        let t = big(r);
        let x = b.add(r, Kind::Text(t), 0);
        let note = r.range(1, 3);
        b.add(r, Kind::Kids(vec![x, root]), note)
    } else {
        root
    };
    World::new(asts, b.nodes, root, r)
}

fn c06_long(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let w = long_world(r);
    for _ in 0..4 {
        let width = *r.pick(&[0, 1, 80, 32768, 65533, 65534, 65535]);
        let path = gen_path(r, &w, false);
        let t = *r.pick(&[FocusTarget::Start, FocusTarget::End, FocusTarget::Text(5), FocusTarget::Text(40000), FocusTarget::Text(usize::MAX)]);
        let mon = Monitor::new();
        if let Err(e) = check_widths(&w, &mon, width, &path, t, ctx) {
            let mut e = e;
            let mut cut = 3000.min(e.len());
            while !e.is_char_boundary(cut) {
                cut -= 1;
            }
            e.truncate(cut);
            return Err(e);
        }
    }
    Ok(())
}

// --- C07 ---------------------------------------------------------------------------------------

fn neutral(a: &Ast, r: &mut Rng) -> Ast {
    let b = |a: &Ast, r: &mut Rng| Box::new(neutral(a, r));
    match a {
        Ast::Choice(x, y) => {
            if **x == lit(" ") && **y == Ast::Newline {
                return a.clone();
            }
            let z = neutral(if r.pct(50) { x } else { y }, r);
            let second = match r.below(3) {
                0 => nest(r.below(4), z.clone()),
                _ => z.clone(),
            };
            match r.below(4) {
                0 => or(z, second),
                _ => or(flat(z), second),
            }
        }
        Ast::Indent(s, l, x) => Ast::Indent(" ".repeat(s.len().min(4)), *l, b(x, r)),
        Ast::Flat(x) => Ast::Flat(b(x, r)),
        Ast::Style(l, x) => Ast::Style(*l, b(x, r)),
        Ast::Concat(x, y) => Ast::Concat(b(x, r), b(y, r)),
        Ast::Check(c, p, x, y) => Ast::Check(*c, *p, b(x, r), b(y, r)),
        Ast::Fold(x, y) => Ast::Fold(b(x, r), b(y, r)),
        Ast::Count(x, y, z) => Ast::Count(b(x, r), b(y, r), b(z, r)),
        _ => a.clone(),
    }
}
fn words<'a>(lines: impl Iterator<Item = &'a str>) -> String {
    lines.flat_map(|l| l.chars()).filter(|c| !c.is_whitespace()).collect()
}

fn c07_words(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let src = any_world(r, ctx.size);
    let asts: Vec<Ast> = src.asts.iter().map(|a| neutral(a, r)).collect();
    let w = World::new(asts, src.nodes.clone(), src.root, r);
    if expansion(&w) > MAX_EXPANSION {
        ctx.bump("skipped_too_big");
        return Ok(());
    }
    ctx.note = w.describe();
    // The document's own words, in document order
    let mut m = Model::new(&w, 0);
    m.all_first = true;
    let ly = m.layout(false);
    if ly.stop != Stop::Done {
        ctx.bump("skipped_layout_with_error");
        return Ok(());
    }
    let seg_words = |ly: &Layout| -> String {
        ly.evs
            .iter()
            .filter_map(|e| match e {
                Ev::Seg { str, kind, .. } if *kind != SegKind::Indent => Some(*str),
                _ => None,
            })
            .flat_map(|s| s.chars())
            .filter(|c| !c.is_whitespace())
            .collect()
    };
    let want = seg_words(&ly);
    let texts = ly.evs.iter().filter(|e| matches!(e, Ev::Seg { kind: SegKind::Text, .. })).count();
    let paths = ly.displayed_paths(2000);
    let mut outputs = std::collections::HashSet::new();
    for k in 0..6 {
        let width = if k == 0 { 0 } else { gen_width(r, &w) };
        let path = if k < 2 { vec![] } else { r.pick(&paths).clone() };
        let t = gen_target(r, text_len(&w, &path));
        let mon = Monitor::new();
        let o = match observe(DocO::root(&w, &mon), width, &path, t, None) {
            Ok(o) if o.clean() => o,
            _ => {
                ctx.bump("focus_missing_or_error");
                continue;
            }
        };
        let text = o.all_text();
        let got = words(text.iter().map(|s| s.as_str()));
        if got != want {
            bail!("the printed words differ from the document's\ndocument: {:?}\nprinted:  {:?}\n{}{}", want, got, show_lines(&text), contexts(&w, width, &path, &t));
        }
        ctx.bump("prints_compared");
        ctx.add("texts_displayed", texts as u64);
        outputs.insert(crate::rng::hash_str(&text.join("\n")));
        ctx.sample(|| format!("same words: {}", show_lines(&text)));
    }
    if outputs.len() > 1 {
        ctx.bump("documents_with_different_layouts");
        ctx.nontrivial(w.fingerprint());
    }
    Ok(())
}

// --- C09 ---------------------------------------------------------------------------------------

pub fn mismatch_of(e: &PErr) -> Option<Mismatch> {
    Some(match e {
        PrintingError::TextNotationOnTextlessDoc => Mismatch::TextOnBranch,
        PrintingError::ChildIndexOutOfBounds { index, len } => Mismatch::ChildIndex(*index, *len),
        PrintingError::ChildNotationOnChildlessDoc => Mismatch::ChildOnText,
        PrintingError::CheckPosChildIndexOutOfBounds { index, len } => Mismatch::CheckIndex(*index, *len),
        PrintingError::CheckPosChildOnChildlessDoc => Mismatch::CheckOnText,
        PrintingError::CountNotationOnChildlessDoc => Mismatch::CountOnText,
        PrintingError::NumChildrenChanged => Mismatch::FoldOnText,
        _ => return None,
    })
}
fn in_set(e: &PErr, set: &[Mismatch]) -> bool {
    match mismatch_of(e) {
        None => false,
        // A fold on a leaf may also be reported like a count on a leaf.
        Some(Mismatch::CountOnText) => set.contains(&Mismatch::CountOnText) || set.contains(&Mismatch::FoldOnText),
        Some(m) => set.contains(&m),
    }
}

fn c09_hostile(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let mut cfg = Cfg::any(r);
    cfg.mismatch = r.pct(80);
    cfg.eols = r.pct(30);
    let w = mismatch_world(r, ctx.size, &cfg);
    hostile(&w, r, ctx)
}

fn hostile(w: &World, r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    ctx.note = w.describe();
    if w.cheated {
        // Only validated notations are in scope.
        ctx.bump("skipped_not_validated");
        return Ok(());
    }
    let set = Model::new(w, 0).static_mismatches();
    let has_eol = w.asts.iter().any(|a| a.has(|x| *x == Ast::Eol));
    if !set.is_empty() {
        ctx.bump("documents_with_mismatches");
    }
    for _ in 0..3 {
        let width = match r.below(6) {
            0 => 0,
            1 => 65535,
            _ => gen_width(r, w),
        };
        let ly = Model::new(w, width as u64).layout(false);
        let mon = Monitor::new();
        let o = observe(DocO::root(w, &mon), width, &[], FocusTarget::Start, None);
        let lines = ly.lines();
        let want: Vec<String> = (0..lines.runs.len()).map(|i| lines.text(i)).collect();
        let (got, err) = match &o {
            Ok(o) => (o.all_text(), o.down_err.clone()),
            Err(e) => (vec![], Some(e.clone())),
        };
        let show = || format!("{}error: {:?}\npossible mismatches: {:?}\nprescribed (stop: {:?}):\n{}{}", show_lines(&got), err, set, ly.stop, show_lines(&want), contexts(w, width, &[], &FocusTarget::Start));
        if ly.stop != Stop::TooBig {
            match &err {
                None => match &ly.stop {
                    Stop::Mismatch(m) => bail!("the layout needs a notation that does not match its node ({:?}) but no error was reported\n{}", m, show()),
                    Stop::TextAfterEol => bail!("text after an end-of-line was not reported\n{}", show()),
                    _ => ctx.bump("clean_prints"),
                },
                Some(e) => {
                    let fine = match mismatch_of(e) {
                        Some(_) => in_set(e, &set),
                        None => matches!(e, PrintingError::TextAfterEndOfLine) && (ly.stop == Stop::TextAfterEol),
                    };
                    if !fine {
                        bail!("an error was reported that does not exist in the document\n{}", show());
                    }
                    if let Stop::Mismatch(m) = &ly.stop {
                        ctx.bump(&format!("reported_{}", format!("{:?}", m).split('(').next().unwrap()));
                        ctx.nontrivial(mix(w.fingerprint()) ^ width as u64);
                    }
                    // What was printed before it is right
                    if got.len() > want.len() || got[..] != want[..got.len()] {
                        bail!("the lines printed before the error are not those prescribed\n{}", show());
                    }
                }
            }
        }
        ctx.sample(|| format!("{:?} then {:?} (mismatches: {:?})\n{}", got.len(), err, set, contexts(w, width, &[], &FocusTarget::Start)));
        // Any path, any target, any style
        for _ in 0..6 {
            let path = gen_path(r, w, true);
            let t = gen_target(r, 3);
            let rs = if r.pct(50) { Some(Sty(vec![TOK_ROOT])) } else { None };
            let mon = Monitor::new();
            ctx.note = contexts(w, width, &path, &t);
            let check = |e: &PErr| -> Verdict {
                let ok = match e {
                    PrintingError::InvalidPath(_) | PrintingError::MissingFocusMark | PrintingError::MissingText => true,
                    PrintingError::TextAfterEndOfLine => has_eol && ly.stop != Stop::Done || has_eol && !set.is_empty(),
                    PrintingError::PrettyDoc(_) => false,
                    e => in_set(e, &set),
                };
                if ok { Ok(()) } else { Err(format!("{:?} does not exist in the document (possible: {:?})\n{}", e, set, contexts(w, width, &path, &t))) }
            };
            let res = pretty_print(DocO::root(w, &mon), width, &path, t, rs.as_ref());
            match res {
                Err(e) => {
                    ctx.bump("focus_errors");
                    if ly.stop != Stop::TooBig {
                        check(&e)?;
                    }
                }
                Ok((up, _, down)) => {
                    ctx.bump("focus_prints");
                    let mut n = 0;
                    // Iterators keep their manners after an error, too
                    for l in up.chain(down) {
                        n += 1;
                        if let Err(e) = l {
                            ctx.bump("iterator_errors");
                            if ly.stop != Stop::TooBig {
                                if matches!(e, PrintingError::InvalidPath(_) | PrintingError::MissingFocusMark | PrintingError::MissingText) {
                                    bail!("{:?} from a line iterator\n{}", e, contexts(w, width, &path, &t));
                                }
                                check(&e)?;
                            }
                        }
                        if n > 1_000_000 {
                            bail!("no termination: more than a million lines\n{}", contexts(w, width, &path, &t));
                        }
                    }
                    ctx.add("lines_taken", n);
                }
            }
        }
    }
    Ok(())
}

fn c09_any(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let w = any_world(r, ctx.size);
    hostile(&w, r, ctx)
}
fn c09_long(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let w = long_world(r);
    for _ in 0..4 {
        let width = *r.pick(&[0, 1, 80, 32768, 65533, 65534, 65535]);
        let path = gen_path(r, &w, true);
        let t = gen_target(r, 70000);
        ctx.note = format!("long lines, width {} path {:?} target {:?}", width, path, t);
        let mon = Monitor::new();
        let res = pretty_print(DocO::root(&w, &mon), width, &path, t, None);
        if let Ok((up, f, down)) = res {
            let _ = (f.width(), f.left_width(), f.right_width());
            for l in up.chain(down) {
                match l {
                    Ok(l) => {
                        l.width();
                        ctx.bump("long_lines");
                    }
                    Err(e) => bail!("{:?} with {}", e, ctx.note),
                }
            }
        }
    }
    Ok(())
}

// --- C10 ---------------------------------------------------------------------------------------

/// The same on documents of unusual scale.
fn c10_scale(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let (w, _) = scaled_world(r);
    let tall = w.nodes.len() > 65536;
    c10_check(r, w, 2, ctx).map_err(|e| clip(e, 6000))?;
    ctx.bump(if tall { "documents_of_over_65536_nodes" } else { "extreme_documents" });
    Ok(())
}
fn c10_contract(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let w = if r.pct(40) {
        let mut cfg = Cfg::any(r);
        cfg.mismatch = true;
        mismatch_world(r, ctx.size, &cfg)
    } else {
        any_world(r, ctx.size)
    };
    c10_check(r, w, 5, ctx)
}
fn c10_check(r: &mut Rng, w: World, prints: usize, ctx: &mut Ctx) -> Verdict {
    if w.cheated {
        ctx.bump("skipped_not_validated");
        return Ok(());
    }
    ctx.note = clip(w.describe(), 12000);
    for k in 0..prints {
        let width = gen_width(r, &w);
        let path = if k == 0 { vec![] } else { gen_path(r, &w, true) };
        let t = if k == 0 { FocusTarget::Start } else { gen_target(r, text_len(&w, &path)) };
        let m1 = Monitor::new();
        let o1 = observe(DocO::root(&w, &m1), width, &path, t, None);
        let m2 = Monitor::new();
        let o2 = observe(DocD::root(&w, &m2), width, &path, t, None);
        for m in [&m1, &m2] {
            if let Some(b) = m.contract.borrow().first() {
                bail!("{}\n{}", b, contexts(&w, width, &path, &t));
            }
            for x in ALL_M {
                ctx.add(&format!("calls_{:?}", x), m.per[x as usize].get());
            }
        }
        let (a, b) = (format!("{:?}", o1), format!("{:?}", o2));
        if a != b {
            bail!("overriding unwrap_last_child and unwrap_prev_sibling changes the output\noverridden: {}\ndefault:    {}\n{}", a, b, contexts(&w, width, &path, &t));
        }
        ctx.bump("prints_compared");
        if m1.per[M::PrevSibling as usize].get() > 0 {
            ctx.nontrivial(mix(w.fingerprint()) ^ mix(m1.calls.get()));
        }
        ctx.sample(|| format!("{} calls, no breach\n{}", m1.calls.get(), contexts(&w, width, &path, &t)));
    }
    Ok(())
}

// --- C11 ---------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
enum StepKind {
    Print,
    Up,
    Down,
}
#[derive(Clone, Debug, PartialEq)]
enum StepOut {
    Focused(OLine, OLine),
    Line(OLine),
    End,
    Err(String),
}
struct StepRec {
    kind: StepKind,
    out: StepOut,
    /// document calls made up to and including this step
    calls: u64,
}

/// Run a whole session: print, then follow the schedule (true = up), then drain both.
fn session(w: &World, mon: &Monitor, width: Width, path: &[usize], t: FocusTarget, sched: &[bool]) -> Vec<StepRec> {
    let mut v = vec![];
    let res = pretty_print(DocO::root(w, mon), width, path, t, None);
    let (mut up, f, mut down) = match res {
        Err(e) => {
            v.push(StepRec { kind: StepKind::Print, out: StepOut::Err(err_text(&e)), calls: mon.calls.get() });
            return v;
        }
        Ok(x) => x,
    };
    let (l, rr) = own_focused(&f);
    v.push(StepRec { kind: StepKind::Print, out: StepOut::Focused(l, rr), calls: mon.calls.get() });
    let mut one = |is_up: bool, v: &mut Vec<StepRec>| -> bool {
        let x = if is_up { up.next() } else { down.next() };
        let out = match x {
            None => StepOut::End,
            Some(Ok(l)) => StepOut::Line(own_line(&l)),
            Some(Err(e)) => StepOut::Err(err_text(&e)),
        };
        let more = out != StepOut::End;
        v.push(StepRec { kind: if is_up { StepKind::Up } else { StepKind::Down }, out, calls: mon.calls.get() });
        more
    };
    for s in sched {
        one(*s, &mut v);
    }
    for is_up in [true, false] {
        for _ in 0..100_000 {
            if !one(is_up, &mut v) {
                break;
            }
        }
    }
    v
}

fn c11_faults(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let w = any_world(r, ctx.size);
    ctx.note = w.describe();
    let width = gen_width(r, &w);
    let path = gen_path(r, &w, false);
    let t = gen_target(r, text_len(&w, &path));
    let sched: Vec<bool> = (0..r.below(12)).map(|_| r.pct(50)).collect();
    let mon = Monitor::new();
    *mon.trace.borrow_mut() = Some(vec![]);
    let base = session(&w, &mon, width, &path, t, &sched);
    let trace = mon.trace.borrow_mut().take().unwrap();
    let total = mon.calls.get();
    if total == 0 || base.len() > 3000 {
        return Ok(());
    }
    let mut points: Vec<u64> = if total <= 60 || ctx.thorough && total < 400 {
        (0..total).collect()
    } else {
        (0..40).map(|_| r.u64() % total).collect()
    };
    points.sort();
    points.dedup();
    for k in points {
        let mon = Monitor::with_plan(FaultPlan::Nth(k));
        let run = session(&w, &mon, width, &path, t, &sched);
        let what = || format!("fault at call {} ({:?} on node #{})\nschedule {:?}\n{}", k, trace[k as usize].1, trace[k as usize].0, sched, contexts(&w, width, &path, &t));
        let i = base.iter().position(|s| s.calls > k).unwrap();
        let want = err_text(&PrintingError::PrettyDoc(Fault(k)));
        for j in 0..i {
            if run.get(j).map(|s| &s.out) != Some(&base[j].out) {
                bail!("step {} ({:?}) came before the fault but differs\nwithout: {:?}\nwith:    {:?}\n{}", j, base[j].kind, base[j].out, run.get(j).map(|s| &s.out), what());
            }
        }
        match run.get(i).map(|s| &s.out) {
            Some(StepOut::Err(e)) if *e == want => (),
            o => bail!("step {} ({:?}) should return {} but returned {:?}\n{}", i, base[i].kind, want, o, what()),
        }
        ctx.bump(match base[i].kind {
            StepKind::Print => "faults_in_seek_or_focused_line",
            StepKind::Up => "faults_going_up",
            StepKind::Down => "faults_going_down",
        });
        ctx.bump(&format!("faults_in_{:?}", trace[k as usize].1));
        ctx.nontrivial(mix(w.fingerprint() ^ k) ^ width as u64);
        if run[i + 1..].iter().any(|s| matches!(&s.out, StepOut::Err(e) if e.contains("Fault"))) {
            bail!("the fault was reported twice\n{}", what());
        }
        // The other direction is not affected
        if base[i].kind != StepKind::Print {
            let other = if base[i].kind == StepKind::Up { StepKind::Down } else { StepKind::Up };
            let outs = |v: &[StepRec]| v.iter().filter(|s| s.kind == other).map(|s| s.out.clone()).collect::<Vec<_>>();
            if outs(&run) != outs(&base) {
                bail!("a fault going {:?} changed what the other iterator delivers\n{}", base[i].kind, what());
            }
            ctx.bump("other_direction_intact");
        }
    }
    ctx.sample(|| format!("{} document calls in {} steps\n{}", total, base.len(), contexts(&w, width, &path, &t)));
    Ok(())
}

/// A failing node does not matter to lines that do not need it.
fn c11_far(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    // A block of items, each on lines of its own.
    let g = GCfg { alpha: gen_alpha(r), comments: r.pct(50), hide: r.pct(50), marks: true };
    let src = grammar_world(r, &g, ctx.size.max(6));
    let mut asts = src.asts.clone();
    let mut nodes = src.nodes.clone();
    let note = asts.len();
    asts.push(cats(vec![lit("{"), nest(2, fold(Ast::Child(0), cats(vec![Ast::Left, Ast::Newline, Ast::Right]))), Ast::Newline, lit("}")]));
    // Items: the source's root, and copies of some of its subtrees as separate nodes
    let mut items = vec![src.root];
    let n = r.range(2, 6);
    fn copy(src: &World, nodes: &mut Vec<Node>, n: u32) -> u32 {
        let kind = match &src.nodes[n as usize].kind {
            Kind::Text(t) => Kind::Text(t.clone()),
            Kind::Kids(k) => Kind::Kids(k.iter().map(|c| copy(src, nodes, *c)).collect()),
        };
        let id = nodes.len() as u32;
        let mut node = src.nodes[n as usize].clone();
        node.kind = kind;
        node.id = (id as u64 ^ 0x2a5).wrapping_mul(0x9E3779B97F4A7C15);
        nodes.push(node);
        id
    }
    for _ in 0..n {
        let k = r.below(src.nodes.len()) as u32;
        if src.nodes[k as usize].conds & 2 != 0 {
            continue;
        }
        let c = copy(&src, &mut nodes, k);
        items.push(c);
    }
    r.shuffle(&mut items);
    let root = nodes.len() as u32;
    nodes.push(Node { id: 77, kind: Kind::Kids(items.clone()), note, conds: 0, styled: true, cond_ok: 0 });
    let w = World::new(asts, nodes, root, r);
    ctx.note = w.describe();
    let width = gen_width(r, &w);
    let ly = Model::new(&w, width as u64).layout(false);
    if ly.stop != Stop::Done {
        ctx.bump("skipped_layout_with_error");
        return Ok(());
    }
    let mon = Monitor::new();
    let base = match observe(DocO::root(&w, &mon), width, &[], FocusTarget::Start, None) {
        Ok(o) if o.clean() => o.all_runs(),
        _ => return Ok(()),
    };
    if base.len() != ly.lines().runs.len() {
        ctx.bump("skipped_layout_differs");
        return Ok(());
    }
    let pos = ly.positions();
    let spans: Vec<(usize, usize)> = (0..items.len())
        .map(|i| {
            let s = ly.find_path(&[i], false).unwrap();
            (pos[s].line, pos[ly.find_end(s).unwrap()].line)
        })
        .collect();
    for _ in 0..6 {
        let j = r.below(items.len());
        // A node somewhere in item j fails
        let mut bad = items[j];
        while !w.kids(bad).is_empty() && r.pct(75) {
            bad = *r.pick(w.kids(bad));
        }
        let plan = match r.below(3) {
            0 => FaultPlan::NodeMethod(bad, M::Text),
            1 if bad != items[j] => FaultPlan::Node(bad),
            _ => FaultPlan::NodeMethod(bad, M::LookupStyle),
        };
        let m = r.below(items.len());
        if m == j {
            continue;
        }
        let t = if r.pct(50) { FocusTarget::Start } else { FocusTarget::End };
        let mon = Monitor::with_plan(plan);
        let what = || format!("{:?}; the lines {:?} are those of the failing item {}\n{}", plan, spans[j], j, contexts(&w, width, &[m], &t));
        // Seeking needs only the item's neighbourhood
        let (mut up, f, mut down) = match pretty_print(DocO::root(&w, &mon), width, &[m], t, None) {
            Err(e) => bail!("focusing on item {} needs a failing node of another item: {:?}\n{}", m, e, what()),
            Ok(x) => x,
        };
        let at = if matches!(t, FocusTarget::Start) { spans[m].0 } else { spans[m].1 };
        let (l, rr) = own_focused(&f);
        let cat: OLine = l.into_iter().chain(rr).collect();
        if runs_of(&cat) != base[at] {
            bail!("the focused line differs\n{}", what());
        }
        let up_limit = if j < m { at - spans[j].1 - 1 } else { at };
        for i in 0..up_limit {
            match up.next() {
                Some(Ok(l)) if runs_of(&own_line(&l)) == base[at - 1 - i] => ctx.bump("lines_delivered_despite_failing_node"),
                o => bail!("line {} does not need the failing node, but: {:?}\n{}", at - 1 - i, o.map(|x| x.map(|l| l.to_string())), what()),
            }
        }
        let down_limit = if j > m { spans[j].0 - at - 1 } else { base.len() - at - 1 };
        for i in 0..down_limit {
            match down.next() {
                Some(Ok(l)) if runs_of(&own_line(&l)) == base[at + 1 + i] => ctx.bump("lines_delivered_despite_failing_node"),
                o => bail!("line {} does not need the failing node, but: {:?}\n{}", at + 1 + i, o.map(|x| x.map(|l| l.to_string())), what()),
            }
        }
        let faulted = up.chain(down).any(|l| l.is_err());
        if faulted {
            ctx.bump("failing_node_reached_later");
        }
    }
    Ok(())
}

// --- C14 ---------------------------------------------------------------------------------------

/// Printing in this process, with all that it has printed before, and in a process of its own.
///
/// The k-th document of a family: all have the same node ids and much the same shape, but differ
/// in the middle of texts, in conditions, labels, options or the order of children.
fn family(seed: u64, k: u64) -> (World, Width, Vec<usize>, FocusTarget, bool) {
    let mut r = Rng::new(seed);
    let size = r.range(2, 40);
    let base = any_world(&mut r, size);
    let long = r.pct(50);
    let mut asts = base.asts.clone();
    let mut nodes = base.nodes.clone();
    for n in &mut nodes {
        if let Kind::Text(t) = &mut n.kind {
            if long && r.pct(50) {
                *t = format!("{}{}{}", t, &"abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz"[..r.range(8, 52)], t);
            }
        }
    }
    let common = r.u64();
    let r = &mut Rng::new(mix(seed) ^ mix(k));
    // The same number of bytes, but not the same columns
    let tweak = |r: &mut Rng, t: &mut String| {
        let cs: Vec<char> = t.chars().collect();
        if cs.is_empty() {
            return;
        }
        let i = if r.pct(60) { cs.len() / 2 } else { r.below(cs.len()) };
        let mid: String = cs[i..(i + 3).min(cs.len())].iter().collect();
        let new = match r.below(4) {
            0 if mid.is_ascii() && mid.len() == 3 => "文".to_string(),
            1 => mid.chars().map(|_| 'z').collect(),
            2 => mid.chars().rev().collect(),
            _ => "é".to_string(),
        };
        if mid.contains(['\n', '\r']) {
            return;
        }
        *t = cs[..i].iter().collect::<String>() + &new + &cs[(i + 3).min(cs.len())..].iter().collect::<String>();
    };
    let some = *r.pick(&[0usize, 10, 50]);
    for n in &mut nodes {
        match &mut n.kind {
            Kind::Text(t) if r.pct(some) => tweak(r, t),
            Kind::Kids(v) if r.pct(some / 5) => v.reverse(),
            _ => (),
        }
        if r.pct(some / 5) {
            n.conds ^= 1 << r.below(3);
        }
        if r.pct(some / 5) {
            n.styled = !n.styled;
        }
    }
    fn edit(a: &mut Ast, r: &mut Rng, some: usize, tweak: &dyn Fn(&mut Rng, &mut String)) {
        match a {
            Ast::Lit(t) if r.pct(some / 3) => tweak(r, t),
            Ast::Style(l, a) => {
                if r.pct(some / 3) {
                    *l = r.below(NUM_LABELS) as Label;
                }
                edit(a, r, some, tweak)
            }
            Ast::Indent(t, _, a) => {
                if r.pct(some / 5) {
                    t.push(' ');
                }
                edit(a, r, some, tweak)
            }
            Ast::Flat(a) => edit(a, r, some, tweak),
            Ast::Concat(a, b) | Ast::Choice(a, b) | Ast::Check(_, _, a, b) | Ast::Fold(a, b) => {
                edit(a, r, some, tweak);
                edit(b, r, some, tweak)
            }
            Ast::Count(a, b, c) => {
                edit(a, r, some, tweak);
                edit(b, r, some, tweak);
                edit(c, r, some, tweak)
            }
            _ => (),
        }
    }
    for a in &mut asts {
        edit(a, r, some, &tweak);
    }
    let w = World::new(asts, nodes, base.root, &mut Rng::new(common));
    let width = gen_width(&mut Rng::new(if r.pct(70) { common } else { r.u64() }), &w);
    let path = gen_path(r, &w, false);
    let t = gen_target(r, text_len(&w, &path));
    (w, width, path, t, r.pct(30))
}
fn family_print(seed: u64, k: u64) -> String {
    let (w, width, path, t, rooted) = family(seed, k);
    let mon = Monitor::new();
    let rs = Sty(vec![TOK_ROOT]);
    let o = observe(DocO::root(&w, &mon), width, &path, t, if rooted { Some(&rs) } else { None });
    let mut out = format!("{:?}\n", o);
    let (w0, h0) = ((width % 60 + 1) as Width, 6);
    out.push_str(&crate::p_pane::show_one(&w, w0, h0, &path, t));
    out
}
/// `--fresh <seed> <k>`
pub fn fresh(args: &[String]) {
    print!("{}", family_print(args[0].parse().unwrap(), args[1].parse().unwrap()));
}
fn c14_history(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let seed = r.u64();
    let members = 6;
    ctx.note = format!("family {}", seed);
    let mut outs: Vec<Option<String>> = vec![None; members];
    for _ in 0..members * 2 {
        let k = r.below(members);
        let out = family_print(seed, k as u64);
        match &outs[k] {
            Some(o) if *o != out => bail!("the same print gave something else after others\nfirst: {}\nlater: {}\n{}", outs[k].as_ref().unwrap(), out, family(seed, k as u64).0.describe()),
            _ => outs[k] = Some(out),
        }
        ctx.bump("prints_of_related_documents");
    }
    let distinct: std::collections::HashSet<&String> = outs.iter().flatten().collect();
    ctx.add("distinct_outputs_of_related_documents", distinct.len() as u64);
    let exe = std::env::current_exe().map_err(|e| format!("HARNESS:{}", e))?;
    for _ in 0..2 {
        let k = r.below(members);
        let out = match &outs[k] {
            Some(o) => o,
            None => continue,
        };
        let child = std::process::Command::new(&exe)
            .args(["--fresh", &seed.to_string(), &k.to_string()])
            .output()
            .map_err(|e| format!("HARNESS:{}", e))?;
        if !child.status.success() {
            return Err(format!("HARNESS:a fresh process ended with {:?}: {}", child.status, String::from_utf8_lossy(&child.stderr)));
        }
        let fresh = String::from_utf8_lossy(&child.stdout);
        if *fresh != **out {
            bail!("a process that has printed other things before prints\n{}\nbut a fresh one prints\n{}\n{}", out, fresh, family(seed, k as u64).0.describe());
        }
        ctx.bump("prints_compared_with_fresh_process");
        ctx.nontrivial(mix(seed ^ k as u64));
    }
    Ok(())
}

fn c14_schedules(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let worlds: Vec<World> = (0..r.range(1, 2)).map(|_| any_world(r, ctx.size)).collect();
    ctx.note = worlds[0].describe();
    struct Job {
        w: usize,
        width: Width,
        path: Vec<usize>,
        t: FocusTarget,
        rs: Option<Sty>,
        base: Result<(OLine, OLine, Vec<Result<OLine, String>>, Vec<Result<OLine, String>>), String>,
    }
    type Full = Result<(OLine, OLine, Vec<Result<OLine, String>>, Vec<Result<OLine, String>>), String>;
    fn full(w: &World, width: Width, path: &[usize], t: FocusTarget, rs: Option<&Sty>) -> Full {
        let mon = Monitor::new();
        let res = pretty_print(DocO::root(w, &mon), width, path, t, rs);
        match res {
            Err(e) => Err(err_text(&e)),
            Ok((up, f, down)) => {
                let (a, b) = own_focused(&f);
                let u: Vec<_> = up.take(100_000).map(|l| l.map(|l| own_line(&l)).map_err(|e| err_text(&e))).collect();
                let d: Vec<_> = down.take(100_000).map(|l| l.map(|l| own_line(&l)).map_err(|e| err_text(&e))).collect();
                Ok((a, b, u, d))
            }
        }
    }
    let mut jobs = vec![];
    for _ in 0..r.range(2, 4) {
        let wi = r.below(worlds.len());
        let w = &worlds[wi];
        let width = gen_width(r, w);
        let path = gen_path(r, w, false);
        let t = gen_target(r, text_len(w, &path));
        let rs = if r.pct(30) { Some(Sty(vec![TOK_ROOT])) } else { None };
        let base = full(w, width, &path, t, rs.as_ref());
        jobs.push(Job { w: wi, width, path, t, rs, base });
    }
    // Random interleavings of all the iterators
    for _ in 0..3 {
        let mons: Vec<Monitor> = jobs.iter().map(|_| Monitor::new()).collect();
        let mut live = vec![];
        for (i, j) in jobs.iter().enumerate() {
            let w = &worlds[j.w];
            match pretty_print(DocO::root(w, &mons[i]), j.width, &j.path, j.t, j.rs.as_ref()) {
                Err(e) => {
                    if j.base != Err(err_text(&e)) {
                        bail!("the same print failed with {:?}, after {:?}\n{}", e, j.base.is_err(), contexts(w, j.width, &j.path, &j.t));
                    }
                }
                Ok((u, f, d)) => {
                    let (a, b) = own_focused(&f);
                    match &j.base {
                        Ok((x, y, _, _)) if *x == a && *y == b => (),
                        _ => bail!("the focused line differs between two identical prints\n{}", contexts(w, j.width, &j.path, &j.t)),
                    }
                    live.push((i, Some(u), Some(d), 0usize, 0usize));
                }
            }
        }
        let mut hash = 0u64;
        let mut steps = 0;
        while !live.is_empty() && steps < 20_000 {
            steps += 1;
            let k = r.below(live.len());
            let up_turn = r.pct(50);
            hash = mix(hash ^ ((k as u64) << 1) ^ up_turn as u64);
            let (i, u, d, nu, nd) = &mut live[k];
            let j = &jobs[*i];
            let (_, _, bu, bd) = j.base.as_ref().unwrap();
            let w = &worlds[j.w];
            let (x, want, n) = if up_turn {
                (u.as_mut().map(|it| it.next()), bu, nu)
            } else {
                (d.as_mut().map(|it| it.next()), bd, nd)
            };
            if let Some(x) = x {
                let x = x.map(|l| l.map(|l| own_line(&l)).map_err(|e| err_text(&e)));
                ctx.bump("interleaved_steps");
                if x.is_none() && *n > want.len() {
                    ctx.bump("polled_past_the_end");
                }
                if x.as_ref() != want.get(*n) {
                    bail!("step {} of an interleaved print differs\nalone:       {:?}\ninterleaved: {:?}\n{}", n, want.get(*n), x, contexts(w, j.width, &j.path, &j.t));
                }
                *n += 1;
            }
            // Abandon something now and then; retire what is long past its end
            if r.pct(2) {
                if up_turn {
                    live[k].1 = None
                } else {
                    live[k].2 = None
                }
                ctx.bump("iterators_abandoned");
            }
            let (i, u, d, nu, nd) = &live[k];
            let (_, _, bu, bd) = jobs[*i].base.as_ref().unwrap();
            let over = (u.is_none() || *nu > bu.len() + 2) && (d.is_none() || *nd > bd.len() + 2);
            if over {
                live.swap_remove(k);
            }
        }
        ctx.nontrivial(hash);
        ctx.bump("schedules");
    }
    // And once more afterwards
    for j in &jobs {
        let w = &worlds[j.w];
        if full(w, j.width, &j.path, j.t, j.rs.as_ref()) != j.base {
            bail!("the same print differs after other prints\n{}", contexts(w, j.width, &j.path, &j.t));
        }
    }
    // Concurrent printing of the same documents
    if r.pct(if ctx.thorough { 30 } else { 12 }) {
        let threads = r.range(2, 6);
        let orders: Vec<Vec<usize>> = (0..threads).map(|_| (0..6).map(|_| r.below(jobs.len())).collect()).collect();
        let (jobs, worlds) = (&jobs, &worlds);
        let results: Vec<Verdict> = std::thread::scope(|s| {
            let hs: Vec<_> = orders
                .iter()
                .map(|order| {
                    s.spawn(move || {
                        for k in order {
                            let j = &jobs[*k];
                            let w = &worlds[j.w];
                            if full(w, j.width, &j.path, j.t, j.rs.as_ref()) != j.base {
                                return Err(format!("a print on another thread differs\n{}", contexts(w, j.width, &j.path, &j.t)));
                            }
                        }
                        Ok(())
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(format!("panic on a thread: {}", last_panic())))).collect()
        });
        ctx.add("concurrent_prints", threads as u64 * 6);
        for v in results {
            v?;
        }
    }
    ctx.sample(|| format!("{} prints interleaved over\n{}", jobs.len(), worlds[0].describe()));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "a (document, notations, width) triple whose layout has several lines, at least one choice taking its second option; compared line by line with an independent model of the documented notation semantics",
            workloads: vec![
                W { name: "layout", f: c01_any, quick: 60_000, thorough: 1_500_000, max_size: 120 },
                W { name: "sweep", f: c01_sweep, quick: 8_000, thorough: 200_000, max_size: 40 },
                W { name: "extreme", f: c01_extreme, quick: 900, thorough: 60_000, max_size: 10 },
                W { name: "boundary", f: c01_boundary, quick: 300, thorough: 10_000, max_size: 10 },
                W { name: "tall", f: c01_tall, quick: 120, thorough: 3_000, max_size: 10 },
                W { name: "wide", f: c01_wide, quick: 1_600, thorough: 20_000, max_size: 10 },
            ],
            required: vec!["layouts", "choices_broken", "texts_printed", "indents_printed", "eol_vetoes", "text_after_eol_layouts", "layouts_exactly_filling_width", "nontrivial_width_strings", "layouts_with_lines_wider_than_u16", "extreme_layouts", "tall_layouts", "boundary_layouts", "layouts_of_over_65536_nodes"],
            assumptions: vec!["the reference model of the notation semantics (harness/src/model.rs) is right", "unicode-width 0.1 tables define display width"],
        },
        Prop {
            id: "C02",
            rule: "a (document, width, path, target) whose focused print has lines both above and below; compared run by run (text and style) with the print from the root",
            workloads: vec![W { name: "focus", f: c02_focus, quick: 20_000, thorough: 500_000, max_size: 120 },
                W { name: "scale", f: c02_scale, quick: 200, thorough: 10_000, max_size: 10 }],
            required: vec!["focuses_start", "focuses_end", "focuses_mark", "focuses_text", "focuses_with_lines_on_both_sides", "end_of_line_errors_above", "end_of_line_errors_below", "end_of_line_errors_at_the_focus", "extreme_documents", "documents_of_over_65536_nodes"],
            assumptions: vec!["the print from the root is the reference (judged by C01)"],
        },
        Prop {
            id: "C03",
            rule: "a (document, width, path, target) whose focus is not at the very start; the split position compared with the model's",
            workloads: vec![W { name: "focus", f: c03_focus, quick: 20_000, thorough: 500_000, max_size: 120 },
                W { name: "scale", f: c03_scale, quick: 120, thorough: 10_000, max_size: 10 }],
            required: vec!["found_start", "found_end", "found_mark", "found_text", "invalid_paths", "missing_marks", "missing_texts", "extreme_documents", "documents_of_over_65536_nodes"],
            assumptions: vec!["for nodes displayed more than once, only focuses on which every reading of the documentation agrees are judged", "documents whose layout itself differs from the model are left to C01"],
        },
        Prop {
            id: "C04",
            rule: "a (document, width) at which some but not all layouts fit, and the requirement on choices holds (checked by enumeration); the printed lines are measured",
            workloads: vec![W { name: "fit", f: c04_fit, quick: 60_000, thorough: 1_500_000, max_size: 24 },
                W { name: "long", f: c04_long, quick: 20_000, thorough: 500_000, max_size: 24 }],
            required: vec!["widths_checked", "documents_with_long_lines", "widths_where_some_layouts_do_not_fit"],
            assumptions: vec!["documents of at most 9 choices and 600 layouts"],
        },
        Prop {
            id: "C05",
            rule: "a line with a piece of text carrying at least two combined styles, compared with the model's style tokens",
            workloads: vec![W { name: "styles", f: c05_styles, quick: 25_000, thorough: 600_000, max_size: 100 },
                W { name: "scale", f: c05_scale, quick: 120, thorough: 10_000, max_size: 10 }],
            required: vec!["runs_checked", "lines_with_combined_styles", "extreme_documents", "documents_of_over_65536_nodes"],
            assumptions: vec!["lines whose text differs from the model are left to C01/C02"],
        },
        Prop {
            id: "C06",
            rule: "a distinct segment string whose display width differs from its number of characters",
            workloads: vec![
                W { name: "widths", f: c06_widths, quick: 60_000, thorough: 1_500_000, max_size: 100 },
                W { name: "long", f: c06_long, quick: 120, thorough: 3_000, max_size: 10 },
            ],
            required: vec!["segments", "segments_with_nontrivial_width", "split_texts", "split_texts_with_widths_that_add_up", "saturated_lines", "focused_lines"],
            assumptions: vec!["unicode-width 0.1 tables define display width"],
        },
        Prop {
            id: "C07",
            rule: "a width-neutral document printed in at least two different layouts; the non-blank characters compared with the document's own",
            workloads: vec![W { name: "words", f: c07_words, quick: 40_000, thorough: 1_000_000, max_size: 120 }],
            required: vec!["prints_compared", "documents_with_different_layouts", "texts_displayed"],
            assumptions: vec![],
        },
        Prop {
            id: "C09",
            rule: "a (document, width) whose layout needs a notation that does not match its node, and the error reported for it",
            workloads: vec![
                W { name: "hostile", f: c09_hostile, quick: 50_000, thorough: 1_200_000, max_size: 60 },
                W { name: "any", f: c09_any, quick: 10_000, thorough: 250_000, max_size: 150 },
                W { name: "long", f: c09_long, quick: 80, thorough: 2_000, max_size: 10 },
            ],
            required: vec!["documents_with_mismatches", "clean_prints", "focus_errors", "focus_prints", "iterator_errors",
                "reported_TextOnBranch", "reported_ChildIndex", "reported_ChildOnText", "reported_CheckIndex", "reported_CheckOnText", "reported_CountOnText", "reported_FoldOnText", "long_lines"],
            assumptions: vec!["a fold on a leaf may be reported as either of the two existing variants for it"],
        },
        Prop {
            id: "C10",
            rule: "a print that used prev-sibling navigation; every call at the PrettyDoc boundary judged against the contract",
            workloads: vec![W { name: "contract", f: c10_contract, quick: 30_000, thorough: 800_000, max_size: 100 },
                W { name: "scale", f: c10_scale, quick: 100, thorough: 10_000, max_size: 10 }],
            required: vec!["extreme_documents", "documents_of_over_65536_nodes", "calls_Text", "calls_Child", "calls_LastChild", "calls_PrevSibling", "calls_Condition", "calls_LookupStyle", "calls_NodeStyle", "prints_compared"],
            assumptions: vec![],
        },
        Prop {
            id: "C11",
            rule: "a (session, failing call) pair: one injected failure at one document call",
            workloads: vec![
                W { name: "faults", f: c11_faults, quick: 12_000, thorough: 250_000, max_size: 60 },
                W { name: "far", f: c11_far, quick: 8_000, thorough: 200_000, max_size: 60 },
                W { name: "panes", f: crate::p_pane::c11_panes, quick: 8_000, thorough: 150_000, max_size: 40 },
            ],
            required: vec!["document_faults_during_display", "faults_in_seek_or_focused_line", "faults_going_up", "faults_going_down", "lines_delivered_despite_failing_node", "failing_node_reached_later", "other_direction_intact"],
            assumptions: vec!["'lines that do not need a failing node' is judged for items separated by hard newlines"],
        },
        Prop {
            id: "C14",
            rule: "a distinct interleaving of iterator steps of several prints",
            workloads: vec![W { name: "schedules", f: c14_schedules, quick: 8_000, thorough: 200_000, max_size: 60 },
                W { name: "history", f: c14_history, quick: 700, thorough: 40_000, max_size: 60 }],
            required: vec!["prints_compared_with_fresh_process", "distinct_outputs_of_related_documents", "interleaved_steps", "schedules", "iterators_abandoned", "concurrent_prints", "polled_past_the_end"],
            assumptions: vec![],
        },
    ]
}
