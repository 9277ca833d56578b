//! C15..C20: panes and windows.
use crate::gen::*;
use crate::harness::*;
use crate::obs::*;
use crate::p_core::{err_text, gen_target, text_len};
use crate::rng::{mix, Rng};
use crate::world::*;
use partial_pretty_printer as ppp;
use ppp::pane::{
    display_pane, PaneError, PaneNotation, PaneSize, PlainText, PrettyWindow, PrintingOptions, WidthStrategy,
};
use ppp::{FocusTarget, Height, Pos as WPos, Size, Width};
use std::collections::{BTreeMap, HashMap};
use std::fmt;

macro_rules! bail { ($($t:tt)*) => { return Err(format!($($t)*)) } }

/// Style tokens of panes: one per leaf, so that each write tells which pane made it.
const TOK_PANE: u32 = 0xE000_0000;
const TOK_OUTER: u32 = 0xF000_0000;

pub fn char_cells(c: char) -> u64 {
    if unicode_width::UnicodeWidthChar::width(c) == Some(2) {
        2
    } else {
        1
    }
}

// --- pane notations ----------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub enum P {
    Horz(Vec<(PaneSize, P)>),
    Vert(Vec<(PaneSize, P)>),
    Doc(usize),
    Fill(char),
    Style(u32, Box<P>),
}
impl P {
    fn build(&self) -> PaneNotation<usize, Sty> {
        match self {
            P::Horz(v) => PaneNotation::Horz(v.iter().map(|(s, p)| (*s, p.build())).collect()),
            P::Vert(v) => PaneNotation::Vert(v.iter().map(|(s, p)| (*s, p.build())).collect()),
            P::Doc(l) => PaneNotation::Doc { label: *l },
            P::Fill(c) => PaneNotation::Fill { ch: *c },
            P::Style(s, p) => PaneNotation::Style {
                style: Sty(vec![*s]),
                notation: Box::new(p.build()),
            },
        }
    }
    fn core(&self) -> &P {
        match self {
            P::Style(_, p) => p.core(),
            _ => self,
        }
    }
    fn count(&self) -> usize {
        match self {
            P::Horz(v) | P::Vert(v) => 1 + v.iter().map(|x| x.1.count()).sum::<usize>(),
            P::Style(_, p) => p.count(),
            _ => 1,
        }
    }
}

pub struct Content {
    pub w: World,
    pub mon: Monitor,
    pub opts: PrintingOptions,
    pub present: bool,
}
pub struct Scene {
    pub pane: P,
    pub contents: Vec<Content>,
    pub style: Sty,
    pub size: Size,
}
impl Scene {
    pub fn describe(&self) -> String {
        let mut s = format!("window {:?}\npane {:?}\n", self.size, self.pane);
        for (i, c) in self.contents.iter().enumerate() {
            s.push_str(&format!("doc {}{}: {:?}\n{}", i, if c.present { "" } else { " (absent)" }, c.opts, c.w.describe()));
        }
        let mut cut = s.len().min(12000);
        while !s.is_char_boundary(cut) {
            cut -= 1;
        }
        s.truncate(cut);
        s
    }
}

#[derive(Clone, Copy)]
pub struct PCfg {
    pub alpha: Option<Alpha>,
    pub huge: bool,
    /// Dynamic sizes on panes that may not have them
    pub misuse: bool,
    pub docs: bool,
    pub mismatch: bool,
}

fn gen_opts(r: &mut Rng, w: &World, avail: Width) -> PrintingOptions {
    let path = gen_path(r, w, false);
    let t = match gen_target(r, text_len(w, &path)) {
        FocusTarget::Mark if r.pct(70) => FocusTarget::Start,
        FocusTarget::Text(_) if r.pct(50) && !matches!(w.nodes[crate::p_core::node_of_path(w, &path).unwrap() as usize].kind, Kind::Text(_)) => {
            FocusTarget::End
        }
        t => t,
    };
    let fixed = if r.pct(50) { gen_width(r, w).min(300) } else { r.below(40) as Width };
    PrintingOptions {
        focus_path: path,
        focus_target: t,
        focus_height: match r.below(8) {
            0 | 1 => 0.0,
            2 => 1.0,
            3 => *r.pick(&[0.25, 0.75, 0.1, 0.9, 0.5]),
            _ => r.below(10001) as f32 / 10000.0,
        },
        width_strategy: match r.below(4) {
            0 => WidthStrategy::Fixed(fixed),
            1 => WidthStrategy::NoMoreThan(if r.pct(50) { fixed } else { avail }),
            _ => WidthStrategy::Full,
        },
        set_focus: r.pct(60),
    }
}

fn gen_pane(r: &mut Rng, cfg: &PCfg, depth: usize, docs: &mut Vec<usize>, max_docs: usize) -> P {
    let styled = |r: &mut Rng, p: P| if r.pct(15) { P::Style(TOK_OUTER + r.below(1000) as u32, Box::new(p)) } else { p };
    let leaf = |r: &mut Rng, docs: &mut Vec<usize>| -> P {
        if cfg.docs && r.pct(60) {
            let l = if !docs.is_empty() && (docs.len() >= max_docs || r.pct(15)) {
                *r.pick(docs)
            } else {
                docs.push(docs.len());
                docs.len() - 1
            };
            P::Doc(l)
        } else {
            P::Fill(if r.pct(30) { any_fill_char(r) } else { *r.pick(&['.', '#', '-', 'x', '一', ' ', 'Ａ', 'é']) })
        }
    };
    if depth == 0 || r.pct(20) {
        let p = leaf(r, docs);
        return styled(r, p);
    }
    let n = r.weighted(&[3, 15, 30, 30, 15, 7]);
    let mut v = vec![];
    for _ in 0..n {
        let dynamic = r.pct(if cfg.docs { 30 } else { 0 });
        let mut child = if dynamic && !(cfg.misuse && r.pct(30)) {
            let mut p = leaf(r, docs);
            while !matches!(p, P::Doc(_)) {
                p = leaf(r, docs);
            }
            styled(r, p)
        } else {
            gen_pane(r, cfg, depth - 1, docs, max_docs)
        };
        if r.pct(10) {
            child = P::Style(TOK_OUTER + r.below(1000) as u32, Box::new(child));
        }
        let size = if dynamic {
            PaneSize::Dynamic
        } else if r.pct(45) {
            PaneSize::Fixed(match r.below(12) {
                0 => 0,
                1 if cfg.huge => *r.pick(&[usize::MAX, 1 << 40, 65536, 1 << 33]),
                2 => r.range(5, 60),
                _ => r.range(1, 9),
            })
        } else {
            PaneSize::Proportional(match r.below(12) {
                0 => 0,
                1 if cfg.huge => *r.pick(&[usize::MAX, usize::MAX / 2, 1 << 40, 1 << 60, 65536]),
                2 => r.range(10, 1000),
                3 if cfg.huge => (1 << 50) + r.below(3),
                4 if cfg.huge => 1_000_000_000 + r.below(3),
                _ => r.range(1, 7),
            })
        };
        v.push((size, child));
    }
    let p = if r.pct(50) { P::Horz(v) } else { P::Vert(v) };
    styled(r, p)
}

/// Give each leaf a style token of its own.
fn tag_leaves(p: P, next: &mut u32) -> P {
    match p {
        P::Horz(v) => P::Horz(v.into_iter().map(|(s, p)| (s, tag_leaves(p, next))).collect()),
        P::Vert(v) => P::Vert(v.into_iter().map(|(s, p)| (s, tag_leaves(p, next))).collect()),
        P::Style(s, p) => P::Style(s, Box::new(tag_leaves(*p, next))),
        leaf => {
            let t = TOK_PANE + *next;
            *next += 1;
            P::Style(t, Box::new(leaf))
        }
    }
}

/// The same panes without the leaves' own styles, for code that treats a styled pane differently
/// from one that is not.
fn strip_tags(p: P) -> P {
    match p {
        P::Horz(v) => P::Horz(v.into_iter().map(|(s, p)| (s, strip_tags(p))).collect()),
        P::Vert(v) => P::Vert(v.into_iter().map(|(s, p)| (s, strip_tags(p))).collect()),
        P::Style(s, p) if (TOK_PANE..TOK_OUTER - 1).contains(&s) => strip_tags(*p),
        P::Style(s, p) => P::Style(s, Box::new(strip_tags(*p))),
        leaf => leaf,
    }
}
/// Give each fill pane a character of its own (narrow, and not in any document).
fn tag_fills(p: &mut P, next: &mut u32) {
    match p {
        P::Horz(v) | P::Vert(v) => v.iter_mut().for_each(|(_, p)| tag_fills(p, next)),
        P::Style(_, p) => tag_fills(p, next),
        P::Fill(c) => {
            *c = char::from_u32(0x1400 + *next).unwrap();
            *next += 1;
        }
        P::Doc(_) => (),
    }
}

fn pane_world(r: &mut Rng, cfg: &PCfg, size: usize) -> World {
    let alpha = cfg.alpha.unwrap_or_else(|| *r.pick(&[Alpha::Plain, Alpha::Wide, Alpha::Wide]));
    if cfg.mismatch && r.pct(40) {
        let mut c = Cfg::any(r);
        c.mismatch = true;
        c.alpha = alpha;
        return mismatch_world(r, size, &c);
    }
    loop {
        let n = 1 + r.below(size.max(1));
        let w = if r.pct(25) {
            let mut c = Cfg::any(r);
            c.alpha = alpha;
            c.eols = r.pct(20);
            random_world(r, &c, n)
        } else {
            let g = GCfg { alpha, comments: r.pct(50), hide: r.pct(50), marks: true };
            grammar_world(r, &g, n)
        };
        if expansion(&w) <= 5000 {
            return w;
        }
    }
}

pub fn gen_scene(r: &mut Rng, cfg: &PCfg, size: usize) -> Scene {
    let width = match r.below(12) {
        0 => r.below(3) as Width,
        1 => r.range(60, 200) as Width,
        _ => r.range(3, 50) as Width,
    };
    let height: Height = match r.below(12) {
        0 => r.below(3) as Height,
        1 => r.range(40, 90) as Height,
        _ => r.range(2, 24) as Height,
    };
    let mut docs = vec![];
    let depth = r.range(0, 3);
    let mut pane;
    loop {
        docs.clear();
        pane = gen_pane(r, cfg, depth, &mut docs, 5);
        if pane.count() <= 40 {
            break;
        }
    }
    let mut next = 0;
    let pane = tag_leaves(pane, &mut next);
    let contents = docs
        .iter()
        .map(|_| {
            let w = pane_world(r, cfg, size);
            let opts = gen_opts(r, &w, width);
            Content { w, mon: Monitor::new(), opts, present: !r.pct(4) }
        })
        .collect();
    Scene {
        pane,
        contents,
        style: Sty(if r.pct(70) { vec![TOK_OUTER - 1] } else { vec![] }),
        size: Size { width, height },
    }
}

// --- a window that records ---------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct WinErr(pub u64);
impl fmt::Display for WinErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "window fault {}", self.0)
    }
}
impl std::error::Error for WinErr {}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum WEv {
    Char { ch: char, row: u32, col: u16, sty: Sty, full: bool },
    Focus { row: u32, col: u16 },
}
pub struct Win {
    pub size: Size,
    pub evs: Vec<WEv>,
    pub calls: std::cell::Cell<u64>,
    pub fail_at: u64,
    pub limit: u64,
}
impl Win {
    pub fn new(size: Size) -> Win {
        Win { size, evs: vec![], calls: std::cell::Cell::new(0), fail_at: u64::MAX, limit: 3_000_000 }
    }
    fn hit(&self) -> Result<(), WinErr> {
        let c = self.calls.get();
        self.calls.set(c + 1);
        if c > self.limit {
            std::panic::panic_any(BudgetExceeded(c));
        }
        if c == self.fail_at {
            return Err(WinErr(c));
        }
        Ok(())
    }
}
impl PrettyWindow for Win {
    type Error = WinErr;
    type Style = Sty;
    fn size(&self) -> Result<Size, WinErr> {
        self.hit()?;
        Ok(self.size)
    }
    fn display_char(&mut self, ch: char, pos: WPos, style: &Sty, full_width: bool) -> Result<(), WinErr> {
        self.hit()?;
        self.evs.push(WEv::Char { ch, row: pos.row, col: pos.col, sty: style.clone(), full: full_width });
        Ok(())
    }
    fn set_focus(&mut self, pos: WPos) -> Result<(), WinErr> {
        self.hit()?;
        self.evs.push(WEv::Focus { row: pos.row, col: pos.col });
        Ok(())
    }
}

pub fn show<W: PrettyWindow<Style = Sty>>(s: &Scene, win: &mut W) -> Result<(), PaneError<W::Error, Fault>> {
    let note = s.pane.build();
    display_pane(win, &note, &s.style, &|l: usize| {
        let c = &s.contents[l];
        if c.present {
            Some((DocO::root(&c.w, &c.mon), c.opts.clone()))
        } else {
            None
        }
    })
}

// --- what should be displayed ------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Rect {
    pub r0: u64,
    pub r1: u64,
    pub c0: u64,
    pub c1: u64,
}
impl Rect {
    pub fn area(&self) -> u64 {
        (self.r1 - self.r0) * (self.c1 - self.c0)
    }
}

/// A document as printed for a pane.
#[derive(Debug, Clone)]
pub struct Printed {
    /// Row (relative to the pane) of the first line shown.
    pub first_row: i64,
    pub lines: Vec<OLine>,
    /// Cells of the text left of the focus; row of the focus.
    pub focus: (i64, u64),
    pub whole: bool,
}

#[derive(Debug, Clone)]
pub enum Leaf {
    Fill(char),
    /// A document, printed; None if the space available was empty.
    Doc(usize, Option<Printed>),
    Absent,
}
#[derive(Debug, Clone)]
pub struct LeafAt {
    pub tok: u32,
    pub rect: Rect,
    pub style: Vec<u32>,
    pub leaf: Leaf,
    pub dynamic: bool,
}
#[derive(Debug)]
pub enum MErr {
    Misuse,
    Printing(String),
    /// The specification does not say what happens here.
    Ambiguous,
}

pub struct PaneModel<'a> {
    pub s: &'a Scene,
    pub leaves: Vec<LeafAt>,
    pub errs: Vec<MErr>,
    pub splits: u64,
    pub squeezed: u64,
}

fn own_width(l: &OLine) -> u64 {
    l.iter().map(|s| s.width).sum()
}

impl<'a> PaneModel<'a> {
    pub fn new(s: &'a Scene) -> PaneModel<'a> {
        let mut m = PaneModel { s, leaves: vec![], errs: vec![], splits: 0, squeezed: 0 };
        let rect = Rect { r0: 0, r1: s.size.height as u64, c0: 0, c1: s.size.width as u64 };
        m.go(&s.pane, rect, s.style.0.clone(), 0);
        m
    }

    fn print(&mut self, label: usize, w: u64, h: u64, style: &[u32], dyn_height: bool) -> Option<Printed> {
        let c = &self.s.contents[label];
        if w == 0 || h == 0 {
            return None;
        }
        let width = match c.opts.width_strategy {
            WidthStrategy::Full => w as Width,
            WidthStrategy::Fixed(x) => x,
            WidthStrategy::NoMoreThan(x) => (x as u64).min(w) as Width,
        };
        let exact = (h - 1) as f64 * c.opts.focus_height as f64;
        if (exact - exact.floor() - 0.5).abs() < 1e-2 {
            self.errs.push(MErr::Ambiguous);
            return None;
        }
        let row = exact.round() as usize;
        let mon = Monitor::new();
        let sty = Sty(style.to_vec());
        let o = match observe(DocO::root(&c.w, &mon), width, &c.opts.focus_path, c.opts.focus_target, Some(&sty)) {
            Ok(o) => o,
            Err(e) => {
                self.errs.push(MErr::Printing(err_text(&e)));
                return None;
            }
        };
        let h = h as usize;
        let whole = o.clean() && dyn_height && o.up.len() + 1 + o.down.len() <= h;
        if dyn_height && !o.clean() {
            // Whether the rest of the document fits cannot be known.
            self.errs.push(MErr::Ambiguous);
        }
        let (above, below) = if whole { (o.up.len(), o.down.len()) } else { (row, h - row - 1) };
        for (err, have, want) in [(&o.up_err, o.up.len(), above), (&o.down_err, o.down.len(), below)] {
            if let Some(e) = err {
                if have < want {
                    self.errs.push(MErr::Printing(err_text(e)));
                    return None;
                }
            }
        }
        let above = above.min(o.up.len());
        let below = below.min(o.down.len());
        let mut lines: Vec<OLine> = o.up[..above].iter().rev().cloned().collect();
        let focus_row = if whole { above } else { row } as i64;
        let mut f = o.left.clone();
        f.extend(o.right.iter().cloned());
        lines.push(f);
        lines.extend(o.down[..below].iter().cloned());
        Some(Printed {
            first_row: focus_row - above as i64,
            lines,
            focus: (focus_row, own_width(&o.left)),
            whole,
        })
    }

    fn go(&mut self, p: &P, rect: Rect, style: Vec<u32>, tok: u32) {
        match p {
            P::Style(t, p) => {
                let mut style = style;
                style.push(*t);
                let tok = if (TOK_PANE..TOK_OUTER - 1).contains(t) { *t } else { tok };
                self.go(p, rect, style, tok)
            }
            P::Fill(c) => self.leaves.push(LeafAt { tok, rect, style, leaf: Leaf::Fill(*c), dynamic: false }),
            P::Doc(l) => {
                let leaf = if self.s.contents[*l].present {
                    let pr = self.print(*l, rect.c1 - rect.c0, rect.r1 - rect.r0, &style, false);
                    Leaf::Doc(*l, pr)
                } else {
                    Leaf::Absent
                };
                self.leaves.push(LeafAt { tok, rect, style, leaf, dynamic: false })
            }
            P::Horz(v) | P::Vert(v) => {
                self.splits += 1;
                let horz = matches!(p, P::Horz(_));
                let total = if horz { rect.c1 - rect.c0 } else { rect.r1 - rect.r0 };
                let cross = if horz { rect.r1 - rect.r0 } else { rect.c1 - rect.c0 };
                let mut left = total;
                let mut got = vec![0u64; v.len()];
                for (i, (s, _)) in v.iter().enumerate() {
                    if let PaneSize::Fixed(n) = s {
                        got[i] = (*n as u64).min(left);
                        self.squeezed += (got[i] < *n as u64) as u64;
                        left -= got[i];
                    }
                }
                let mut dynamic: HashMap<usize, LeafAt> = HashMap::new();
                for (i, (s, child)) in v.iter().enumerate() {
                    if *s != PaneSize::Dynamic {
                        continue;
                    }
                    let label = match child.core() {
                        P::Doc(l) => *l,
                        _ => {
                            self.errs.push(MErr::Misuse);
                            continue;
                        }
                    };
                    let mut st = style.clone();
                    let mut tok = 0;
                    let mut c = child;
                    while let P::Style(t, p) = c {
                        st.push(*t);
                        if (TOK_PANE..TOK_OUTER - 1).contains(t) {
                            tok = *t
                        }
                        c = p;
                    }
                    let (leaf, n) = if self.s.contents[label].present {
                        let (w, h) = if horz { (left, cross) } else { (cross, left) };
                        let pr = self.print(label, w, h, &st, !horz);
                        let n = match &pr {
                            None => 0,
                            Some(pr) if horz => pr.lines.iter().map(own_width).max().unwrap_or(0).min(left),
                            Some(pr) if pr.whole => pr.lines.len() as u64,
                            Some(_) => left,
                        };
                        (Leaf::Doc(label, pr), n)
                    } else {
                        (Leaf::Absent, 0)
                    };
                    got[i] = n;
                    left -= n;
                    dynamic.insert(i, LeafAt { tok, rect, style: st, leaf, dynamic: true });
                }
                // Proportional: largest remainders, ties to the left.
                let weights: Vec<(usize, u128)> = v
                    .iter()
                    .enumerate()
                    .filter_map(|(i, (s, _))| match s {
                        PaneSize::Proportional(n) => Some((i, *n as u128)),
                        _ => None,
                    })
                    .collect();
                let sum: u128 = weights.iter().map(|x| x.1).sum();
                if sum > 0 {
                    let mut given = 0u64;
                    for (i, n) in &weights {
                        got[*i] = (left as u128 * n / sum) as u64;
                        given += got[*i];
                    }
                    // repeatedly give one to the largest remainder
                    let mut rest: Vec<(u128, usize)> = weights.iter().map(|(i, n)| (left as u128 * n % sum, *i)).collect();
                    for _ in given..left {
                        let mut best = 0;
                        for j in 1..rest.len() {
                            if rest[j].0 > rest[best].0 {
                                best = j
                            }
                        }
                        got[rest[best].1] += 1;
                        rest.remove(best);
                    }
                }
                let mut at = if horz { rect.c0 } else { rect.r0 };
                for (i, (_, child)) in v.iter().enumerate() {
                    let sub = if horz {
                        Rect { c0: at, c1: at + got[i], ..rect }
                    } else {
                        Rect { r0: at, r1: at + got[i], ..rect }
                    };
                    at += got[i];
                    if let Some(mut l) = dynamic.remove(&i) {
                        l.rect = sub;
                        self.leaves.push(l);
                    } else if v[i].0 != PaneSize::Dynamic {
                        self.go(child, sub, style.clone(), 0);
                    }
                }
            }
        }
    }

    pub fn ambiguous(&self) -> bool {
        self.errs.iter().any(|e| matches!(e, MErr::Ambiguous))
    }

    /// What one leaf draws: (row, col) -> (char, style, full width)
    pub fn cells(&self, l: &LeafAt) -> BTreeMap<(u64, u64), (char, Sty, bool)> {
        let mut m = BTreeMap::new();
        let blank = Sty(l.style.clone());
        for row in l.rect.r0..l.rect.r1 {
            let mut col = l.rect.c0;
            match &l.leaf {
                Leaf::Fill(c) => {
                    while col + char_cells(*c) <= l.rect.c1 {
                        m.insert((row, col), (*c, blank.clone(), char_cells(*c) == 2));
                        col += char_cells(*c);
                    }
                }
                Leaf::Doc(_, Some(p)) => {
                    let i = (row - l.rect.r0) as i64 - p.first_row;
                    if i >= 0 && (i as usize) < p.lines.len() {
                        'line: for seg in &p.lines[i as usize] {
                            for c in seg.s.chars() {
                                if col + char_cells(c) > l.rect.c1 {
                                    break 'line;
                                }
                                m.insert((row, col), (c, seg.sty.clone(), char_cells(c) == 2));
                                col += char_cells(c);
                            }
                        }
                    }
                }
                _ => (),
            }
            while col < l.rect.c1 {
                m.insert((row, col), (' ', blank.clone(), false));
                col += 1;
            }
        }
        m
    }
}

fn tally_scene(ctx: &mut Ctx, m: &PaneModel) {
    ctx.add("splits", m.splits);
    ctx.add("fixed_panes_squeezed", m.squeezed);
    for l in &m.leaves {
        match &l.leaf {
            Leaf::Fill(_) => ctx.bump("fill_panes"),
            Leaf::Absent => ctx.bump("absent_documents"),
            Leaf::Doc(_, None) => ctx.bump("documents_without_space"),
            Leaf::Doc(_, Some(p)) => {
                ctx.bump(if l.dynamic { "dynamic_document_panes" } else { "document_panes" });
                if l.dynamic && p.whole {
                    ctx.bump("dynamic_heights_showing_all");
                }
                let w = l.rect.c1 - l.rect.c0;
                if p.lines.iter().any(|x| own_width(x) > w) {
                    ctx.bump("panes_clipping_lines");
                }
                if p.first_row > 0 {
                    ctx.bump("panes_with_blank_rows_above");
                }
            }
        }
    }
}

fn chars_of(evs: &[WEv]) -> impl Iterator<Item = (char, u64, u64, &Sty, bool)> {
    evs.iter().filter_map(|e| match e {
        WEv::Char { ch, row, col, sty, full } => Some((*ch, *row as u64, *col as u64, sty, *full)),
        _ => None,
    })
}
fn tok_of(sty: &Sty) -> u32 {
    sty.0.iter().copied().find(|t| (TOK_PANE..TOK_OUTER - 1).contains(t)).unwrap_or(0)
}

// --- C15 ---------------------------------------------------------------------------------------

fn check_cells(s: &Scene, evs: &[WEv], m: &PaneModel, ctx: &mut Ctx) -> Verdict {
    let (w, h) = (s.size.width as u64, s.size.height as u64);
    let mut by: HashMap<(u64, u64), u32> = HashMap::new();
    for (ch, row, col, sty, full) in chars_of(evs) {
        ctx.bump("chars_written");
        if full != (char_cells(ch) == 2) {
            bail!("{:?} at {}:{} was written with full_width={}\n{}", ch, row, col, full, s.describe());
        }
        let n = if full { 2 } else { 1 };
        if full {
            ctx.bump("full_width_chars_written");
        }
        let tok = tok_of(sty);
        let leaf = match m.leaves.iter().find(|l| l.tok == tok) {
            Some(l) => l,
            None => bail!("{:?} at {}:{} has style {:?}, which is not that of any pane\n{}", ch, row, col, sty, s.describe()),
        };
        for c in col..col + n {
            if c >= w || row >= h {
                bail!("{:?} at {}:{} is outside of the window\n{}", ch, row, col, s.describe());
            }
            let rc = leaf.rect;
            if c < rc.c0 || c >= rc.c1 || row < rc.r0 || row >= rc.r1 {
                bail!("{:?} at {}:{} is outside of its pane {:?}\n{}", ch, row, col, leaf, s.describe());
            }
            if by.insert((row, c), tok).is_some() {
                bail!("cell {}:{} was written twice\n{}", row, c, s.describe());
            }
        }
        if let Leaf::Fill(x) = &leaf.leaf {
            // A blank where a full-width character has no room
            let want = if char_cells(*x) == 2 && col + 1 == leaf.rect.c1 { ' ' } else { *x };
            if ch != want || sty.0 != leaf.style {
                bail!("fill pane {:?} shows {:?} in {:?} at {}:{}\n{}", leaf, ch, sty, row, col, s.describe());
            }
            ctx.bump("fill_cells_compared");
        }
    }
    for l in &m.leaves {
        if matches!(l.leaf, Leaf::Absent) {
            continue;
        }
        ctx.add("cells_required", l.rect.area());
        for row in l.rect.r0..l.rect.r1 {
            for c in l.rect.c0..l.rect.c1 {
                if by.get(&(row, c)) != Some(&l.tok) {
                    bail!("cell {}:{} of {:?} was not written by its pane\n{}", row, c, l, s.describe());
                }
            }
        }
    }
    Ok(())
}

fn c15_cells(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let alpha = if r.pct(40) { Some(Alpha::Full) } else { None };
    let cfg = PCfg { alpha, huge: true, misuse: false, docs: true, mismatch: false };
    let s = gen_scene(r, &cfg, ctx.size);
    ctx.note = s.describe();
    let m = PaneModel::new(&s);
    if !m.errs.is_empty() {
        ctx.bump("skipped_errors");
        return Ok(());
    }
    let mut win = Win::new(s.size);
    if let Err(e) = show(&s, &mut win) {
        bail!("display failed with {:?}\n{}", e, s.describe());
    }
    tally_scene(ctx, &m);
    check_cells(&s, &win.evs, &m, ctx)?;
    if m.splits > 0 && win.evs.len() > 10 {
        ctx.nontrivial(mix(scene_hash(&s)));
    }
    ctx.sample(|| s.describe());
    Ok(())
}

fn scene_hash(s: &Scene) -> u64 {
    let mut h = crate::rng::hash_str(&format!("{:?} {:?}", s.size, s.pane));
    for c in &s.contents {
        h = mix(h ^ c.w.fingerprint() ^ crate::rng::hash_str(&format!("{:?}", c.opts)));
    }
    h
}

/// Panes without styles of their own: which pane wrote a cell is not known, but each cell of each
/// pane must be written once, and no others.
fn c15_bare(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let cfg = PCfg { alpha: None, huge: true, misuse: false, docs: r.pct(70), mismatch: false };
    let mut s = gen_scene(r, &cfg, ctx.size);
    s.pane = strip_tags(s.pane);
    ctx.note = s.describe();
    let m = PaneModel::new(&s);
    if !m.errs.is_empty() {
        ctx.bump("skipped_errors");
        return Ok(());
    }
    let mut win = Win::new(s.size);
    if let Err(e) = show(&s, &mut win) {
        bail!("display failed with {:?}\n{}", e, s.describe());
    }
    let mut times: HashMap<(u64, u64), u32> = HashMap::new();
    for (ch, row, col, _, full) in chars_of(&win.evs) {
        if full != (char_cells(ch) == 2) {
            bail!("{:?} at {}:{} was written with full_width={}\n{}", ch, row, col, full, s.describe());
        }
        for c in col..col + 1 + full as u64 {
            if c >= s.size.width as u64 || row >= s.size.height as u64 {
                bail!("{:?} at {}:{} is outside of the window\n{}", ch, row, c, s.describe());
            }
            *times.entry((row, c)).or_insert(0) += 1;
        }
    }
    let mut shown = HashMap::new();
    for (ch, row, col, sty, _) in chars_of(&win.evs) {
        shown.insert((row, col), (ch, sty.clone()));
    }
    let mut want = 0;
    for l in &m.leaves {
        if matches!(l.leaf, Leaf::Absent) {
            continue;
        }
        if matches!(l.leaf, Leaf::Fill(_)) {
            for ((row, col), (ch, sty, _)) in m.cells(l) {
                if shown.get(&(row, col)) != Some(&(ch, sty.clone())) {
                    bail!("fill pane {:?} should show {:?} in {:?} at {}:{}, not {:?}\n{}", l, ch, sty, row, col, shown.get(&(row, col)), s.describe());
                }
            }
        }
        for row in l.rect.r0..l.rect.r1 {
            for c in l.rect.c0..l.rect.c1 {
                want += 1;
                match times.get(&(row, c)) {
                    Some(1) => (),
                    n => bail!("cell {}:{} of {:?} was written {} times\n{}", row, c, l, n.unwrap_or(&0), s.describe()),
                }
            }
        }
    }
    if times.len() != want {
        bail!("{} cells were written, but the panes have {}\n{}", times.len(), want, s.describe());
    }
    ctx.bump("windows_of_unstyled_panes");
    if m.splits > 0 && win.evs.len() > 10 {
        ctx.nontrivial(mix(scene_hash(&s)));
    }
    Ok(())
}

/// Very large windows and sizes: only the borders of the window matter.
/// Windows of up to 200000 rows, and documents of up to as many lines.
fn tall_scene(r: &mut Rng) -> Scene {
    let w = tall_world(r);
    let lines = w.nodes.len();
    let height = match r.below(5) {
        0 => r.range(1, 40),
        1 => r.range(65530, 65545),
        2 => r.range(65536, 140_000),
        3 => (lines + r.below(9)).saturating_sub(4).max(1),
        _ => r.range(1000, 200_000),
    };
    let mut size = Size { width: r.range(1, 9) as Width, height: height as Height };
    // In a pane as wide as the widest line displayed, wherever that is
    let beside = r.pct(35);
    if beside {
        size.width = r.range(5, 25) as Width;
        size.height = size.height.min(r.range(50, 70_000) as Height);
    }
    let mut opts = gen_opts(r, &w, size.width);
    let kids = w.kids(w.root).len();
    if r.pct(40) {
        opts.focus_path = vec![kids - 1 - r.below(kids.min(100))];
        opts.focus_target = FocusTarget::Start;
    }
    let leaf = P::Style(TOK_PANE, Box::new(P::Doc(0)));
    let fill = P::Style(TOK_PANE + 1, Box::new(P::Fill('.')));
    let pane = match r.below(4) {
        0 if beside => P::Horz(vec![(PaneSize::Fixed(2), leaf.clone()), (PaneSize::Dynamic, retag(leaf)), (PaneSize::Proportional(1), fill)]),
        _ if beside => P::Horz(vec![(PaneSize::Dynamic, leaf), (PaneSize::Proportional(1), fill)]),
        0 => P::Vert(vec![(PaneSize::Dynamic, leaf), (PaneSize::Proportional(1), fill)]),
        1 => P::Vert(vec![(PaneSize::Fixed(r.pick(&[1, 65535, 65536, 70000]).to_owned()), fill), (PaneSize::Proportional(3), leaf)]),
        _ => leaf,
    };
    Scene { pane, contents: vec![Content { w, mon: Monitor::new(), opts, present: true }], style: Sty(vec![]), size }
}

/// Documents with lines of up to hundreds of thousands of columns, in windows of ordinary and of great width.
fn long_scene(r: &mut Rng) -> Scene {
    let cfg = PCfg { alpha: None, huge: false, misuse: false, docs: true, mismatch: false };
    let mut s = gen_scene(r, &cfg, 12);
    if r.pct(25) {
        s.size.width = *r.pick(&[65535, 65534, 40000]);
        s.size.height = s.size.height.min(3);
    }
    for c in &mut s.contents {
        if r.pct(70) {
            let w = crate::p_core::long_world_of(r, &["x", "一", "ab"]);
            let mut opts = gen_opts(r, &w, s.size.width);
            if r.pct(60) {
                opts.focus_target = match r.below(4) {
                    0 => FocusTarget::End,
                    1 => FocusTarget::Text(65_520 + r.below(20)),
                    2 => FocusTarget::Text(32_760 + r.below(12)),
                    _ => FocusTarget::Text(usize::MAX),
                };
                // The last text of the document
                opts.focus_path = vec![];
                let mut at = w.root;
                while let Some(last) = w.kids(at).last() {
                    opts.focus_path.push(w.kids(at).len() - 1);
                    at = *last;
                }
            }
            *c = Content { w, mon: Monitor::new(), opts, present: true };
        }
    }
    s
}

fn retag(p: P) -> P {
    match p {
        P::Style(t, p) => P::Style(t + 7, p),
        p => p,
    }
}
fn c15_big(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    // A wide, flat window, or a narrow, tall one.
    let wide = r.pct(60);
    let size = if wide {
        Size { width: *r.pick(&[65535, 65534, 65533, 40000]), height: r.range(1, 2) as Height }
    } else {
        Size { width: r.range(1, 3) as Width, height: *r.pick(&[65535, 65536, 70000, 100_000]) }
    };
    let cfg = PCfg { alpha: None, huge: true, misuse: false, docs: true, mismatch: false };
    let mut docs = vec![];
    let pane = gen_pane(r, &cfg, 1, &mut docs, 2);
    let mut next = 0;
    let pane = tag_leaves(pane, &mut next);
    let contents = docs
        .iter()
        .map(|_| {
            let w = if r.pct(40) { crate::p_core::long_world(r) } else { pane_world(r, &cfg, 10) };
            let mut opts = gen_opts(r, &w, size.width);
            opts.focus_height = *r.pick(&[0.0, 1.0]);
            if r.pct(50) {
                opts.width_strategy = WidthStrategy::Full;
            }
            Content { w, mon: Monitor::new(), opts, present: true }
        })
        .collect();
    let s = Scene { pane, contents, style: Sty(vec![]), size };
    let m = PaneModel::new(&s);
    if !m.errs.is_empty() {
        ctx.bump("skipped_errors");
        return Ok(());
    }
    let mut win = Win::new(s.size);
    if let Err(e) = show(&s, &mut win) {
        bail!("display failed with {:?}\n{}", e, s.describe());
    }
    ctx.bump(if wide { "windows_65535_wide" } else { "windows_65535_tall" });
    check_cells(&s, &win.evs, &m, ctx)
}

// --- C16 ---------------------------------------------------------------------------------------

fn check_division(s: &Scene, evs: &[WEv], m: &PaneModel, ctx: &mut Ctx) -> Verdict {
    let mut seen: HashMap<u32, (Rect, u64)> = HashMap::new();
    for (_, row, col, sty, full) in chars_of(evs) {
        let n = 1 + full as u64;
        let e = seen.entry(tok_of(sty)).or_insert((Rect { r0: row, r1: row, c0: col, c1: col }, 0));
        e.0.r0 = e.0.r0.min(row);
        e.0.r1 = e.0.r1.max(row + 1);
        e.0.c0 = e.0.c0.min(col);
        e.0.c1 = e.0.c1.max(col + n);
        e.1 += n;
    }
    for l in &m.leaves {
        if matches!(l.leaf, Leaf::Absent) {
            continue;
        }
        match seen.get(&l.tok) {
            None if l.rect.area() == 0 => ctx.bump("empty_panes"),
            None => bail!("pane {:?} was not displayed at all\n{}", l, s.describe()),
            Some((rc, n)) => {
                if *rc != l.rect || *n != l.rect.area() {
                    bail!("pane #{} ({:?}) should occupy {:?} but occupies {:?} ({} cells)\n{}", l.tok - TOK_PANE, l.leaf, l.rect, rc, n, s.describe());
                }
                ctx.bump("rectangles_checked");
            }
        }
    }
    Ok(())
}

fn c16_divide(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let cfg = PCfg { alpha: None, huge: r.pct(50), misuse: false, docs: r.pct(60), mismatch: false };
    let s = gen_scene(r, &cfg, ctx.size.min(20));
    ctx.note = s.describe();
    let m = PaneModel::new(&s);
    if !m.errs.is_empty() {
        ctx.bump("skipped_errors");
        return Ok(());
    }
    let mut win = Win::new(s.size);
    if let Err(e) = show(&s, &mut win) {
        bail!("display failed with {:?}\n{}", e, s.describe());
    }
    tally_scene(ctx, &m);
    check_division(&s, &win.evs, &m, ctx)?;
    if m.splits > 0 {
        ctx.nontrivial(scene_hash(&s));
    }
    ctx.sample(|| s.describe());
    Ok(())
}

/// Windows and documents of very many lines.
fn c16_tall(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let s = tall_scene(r);
    ctx.note = s.describe();
    let m = PaneModel::new(&s);
    if !m.errs.is_empty() {
        ctx.bump("skipped_errors");
        return Ok(());
    }
    let mut win = Win::new(s.size);
    if let Err(e) = show(&s, &mut win) {
        bail!("display failed with {:?}\n{}", e, s.describe());
    }
    ctx.bump("tall_windows_divided");
    if matches!(s.pane, P::Horz(_)) {
        ctx.bump("tall_dynamic_columns");
    }
    check_division(&s, &win.evs, &m, ctx)
}
/// Without styles: fill panes are told by their characters.
fn c16_bare(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let cfg = PCfg { alpha: None, huge: r.pct(50), misuse: false, docs: r.pct(50), mismatch: false };
    let mut s = gen_scene(r, &cfg, ctx.size.min(20));
    s.pane = strip_tags(s.pane);
    tag_fills(&mut s.pane, &mut 0);
    ctx.note = s.describe();
    let m = PaneModel::new(&s);
    if !m.errs.is_empty() {
        ctx.bump("skipped_errors");
        return Ok(());
    }
    let mut win = Win::new(s.size);
    if let Err(e) = show(&s, &mut win) {
        bail!("display failed with {:?}\n{}", e, s.describe());
    }
    let fill = |c: char| if (0x1400..0x1500).contains(&(c as u32)) { Some(c) } else { None };
    let mut seen: HashMap<(u64, u64), Option<char>> = HashMap::new();
    for (ch, row, col, _, full) in chars_of(&win.evs) {
        for c in col..col + 1 + full as u64 {
            seen.insert((row, c), fill(ch));
        }
    }
    let mut cells = 0;
    for l in &m.leaves {
        let want = match &l.leaf {
            Leaf::Absent => continue,
            Leaf::Fill(c) => Some(*c),
            Leaf::Doc(..) => None,
        };
        for row in l.rect.r0..l.rect.r1 {
            for c in l.rect.c0..l.rect.c1 {
                cells += 1;
                if seen.get(&(row, c)) != Some(&want) {
                    bail!("cell {}:{} belongs to {:?} but shows {:?}\n{}", row, c, l, seen.get(&(row, c)), s.describe());
                }
            }
        }
    }
    if cells != seen.len() {
        bail!("{} cells were written, but the panes have {}\n{}", seen.len(), cells, s.describe());
    }
    ctx.bump("divisions_of_unstyled_panes");
    if m.splits > 0 {
        ctx.nontrivial(scene_hash(&s));
    }
    Ok(())
}

/// One flat split of a long strip into many fill panes.
fn c16_strip(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let n = match r.below(400) {
        0 => r.range(65_530, 66_000),
        1..=12 => r.range(250, 600),
        13..=160 => r.range(20, 80),
        _ => r.range(1, 12),
    };
    if n >= 250 {
        ctx.bump("strips_of_250_panes_or_more");
    }
    let horz = r.pct(50);
    let len = match r.below(6) {
        0 => r.below(5),
        1 => r.range(100, 5000),
        2 if horz => 65535 - r.below(3),
        _ => r.range(5, 100),
    };
    let max_weight = *r.pick(&[1usize, 3, 10, 1000, 1 << 20, usize::MAX]);
    // Weights that are almost the same, so that the remainders are, too
    let base = *r.pick(&[0, 0, 1_000_000_000, 1 << 32, 1 << 53, 1 << 60, usize::MAX - 5]);
    if base > 0 {
        ctx.bump("strips_of_almost_equal_weights");
    }
    let v: Vec<(PaneSize, P)> = (0..n)
        .map(|_| {
            let s = if base > 0 && r.pct(90) {
                PaneSize::Proportional(base + r.below(5))
            } else if r.pct(25) {
                PaneSize::Fixed(if r.pct(10) { usize::MAX - r.below(3) } else { r.below(len / 2 + 2) })
            } else {
                PaneSize::Proportional(if max_weight == usize::MAX { r.u64() as usize } else { r.below(max_weight + 1) })
            };
            (s, P::Fill('x'))
        })
        .collect();
    let mut next = 0;
    let pane = tag_leaves(if horz { P::Horz(v) } else { P::Vert(v) }, &mut next);
    let size = if horz { Size { width: len as Width, height: 1 } } else { Size { width: 1, height: len as Height } };
    let s = Scene { pane, contents: vec![], style: Sty(vec![]), size };
    ctx.note = s.describe();
    let m = PaneModel::new(&s);
    let mut win = Win::new(s.size);
    if let Err(e) = show(&s, &mut win) {
        bail!("display failed with {:?}\n{}", e, s.describe());
    }
    ctx.bump("strips");
    ctx.nontrivial(scene_hash(&s));
    check_division(&s, &win.evs, &m, ctx)
}

// --- C17 ---------------------------------------------------------------------------------------

fn c17_window(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let cfg = PCfg { alpha: None, huge: false, misuse: false, docs: true, mismatch: false };
    let s = gen_scene(r, &cfg, ctx.size);
    check_documents(&s, ctx)
}
fn c17_tall(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let s = tall_scene(r);
    check_documents(&s, ctx)?;
    ctx.bump("tall_windows");
    ctx.max("rows_of_a_tall_window", s.size.height as u64);
    Ok(())
}
fn c17_long(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let s = long_scene(r);
    check_documents(&s, ctx)?;
    ctx.bump("scenes_with_long_lines");
    Ok(())
}
fn check_documents(s: &Scene, ctx: &mut Ctx) -> Verdict {
    ctx.note = s.describe();
    let m = PaneModel::new(s);
    if !m.errs.is_empty() {
        ctx.bump("skipped_errors");
        return Ok(());
    }
    let mut win = Win::new(s.size);
    if let Err(e) = show(s, &mut win) {
        bail!("display failed with {:?}\n{}", e, s.describe());
    }
    tally_scene(ctx, &m);
    let mut got: HashMap<u32, BTreeMap<(u64, u64), (char, Sty, bool)>> = HashMap::new();
    for (ch, row, col, sty, full) in chars_of(&win.evs) {
        got.entry(tok_of(sty)).or_default().insert((row, col), (ch, sty.clone(), full));
    }
    for l in &m.leaves {
        if !matches!(l.leaf, Leaf::Doc(..)) {
            continue;
        }
        let want = m.cells(l);
        let have = got.remove(&l.tok).unwrap_or_default();
        if want != have {
            let draw = |m: &BTreeMap<(u64, u64), (char, Sty, bool)>| {
                let mut rows: BTreeMap<u64, String> = BTreeMap::new();
                for ((row, _), (ch, _, _)) in m {
                    rows.entry(*row).or_default().push(*ch);
                }
                rows.iter().map(|(r, t)| format!("  {:3}|{}|\n", r, t)).collect::<String>()
            };
            let first = want
                .iter()
                .find(|(k, v)| have.get(k) != Some(v))
                .map(|(k, v)| format!("at {:?} expected {:?}, got {:?}", k, v, have.get(k)))
                .unwrap_or_default();
            bail!("document pane {:?} in {:?} shows\n{}instead of\n{}{}\n{}", l.leaf, l.rect, draw(&have), draw(&want), first, s.describe());
        }
        if want.values().any(|x| x.0 != ' ') {
            ctx.bump("documents_compared");
            ctx.nontrivial(mix(scene_hash(s) ^ l.tok as u64));
        }
    }
    ctx.sample(|| s.describe());
    Ok(())
}

/// The whole window, with panes that have no styles of their own.
fn c17_bare(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let cfg = PCfg { alpha: None, huge: false, misuse: false, docs: true, mismatch: false };
    let mut s = gen_scene(r, &cfg, ctx.size);
    s.pane = strip_tags(s.pane);
    ctx.note = s.describe();
    let m = PaneModel::new(&s);
    if !m.errs.is_empty() {
        ctx.bump("skipped_errors");
        return Ok(());
    }
    let mut win = Win::new(s.size);
    if let Err(e) = show(&s, &mut win) {
        bail!("display failed with {:?}\n{}", e, s.describe());
    }
    let mut have = BTreeMap::new();
    for (ch, row, col, sty, full) in chars_of(&win.evs) {
        have.insert((row, col), (ch, sty.clone(), full));
    }
    let mut shown = false;
    for l in &m.leaves {
        if !matches!(l.leaf, Leaf::Doc(..)) {
            continue;
        }
        for (at, want) in m.cells(l) {
            if have.get(&at) != Some(&want) {
                bail!("document pane {:?} in {:?} should show {:?} at {:?}, but there is {:?}\n{}", l.leaf, l.rect, want, at, have.get(&at), s.describe());
            }
            shown |= want.0 != ' ';
        }
        ctx.bump("unstyled_documents_compared");
    }
    if shown {
        ctx.nontrivial(scene_hash(&s));
    }
    Ok(())
}

/// A large document in a small window.
fn c17_scroll(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let w = loop {
        let w = grammar_world(r, &GCfg { alpha: Alpha::Wide, comments: true, hide: false, marks: true }, 10 + ctx.size * 4);
        if expansion(&w) < 20000 {
            break w;
        }
    };
    let size = Size { width: r.range(5, 40) as Width, height: r.range(1, 12) as Height };
    let opts = gen_opts(r, &w, size.width);
    let vert = r.pct(30);
    let leaf = P::Style(TOK_PANE, Box::new(P::Doc(0)));
    let pane = if vert {
        P::Vert(vec![(PaneSize::Dynamic, leaf), (PaneSize::Proportional(1), P::Style(TOK_PANE + 1, Box::new(P::Fill('.'))))])
    } else {
        leaf
    };
    let s = Scene { pane, contents: vec![Content { w, mon: Monitor::new(), opts, present: true }], style: Sty(vec![5]), size };
    ctx.note = s.describe();
    let m = PaneModel::new(&s);
    if !m.errs.is_empty() {
        ctx.bump("skipped_errors");
        return Ok(());
    }
    let mut win = Win::new(s.size);
    if let Err(e) = show(&s, &mut win) {
        bail!("display failed with {:?}\n{}", e, s.describe());
    }
    let mut have = BTreeMap::new();
    for (ch, row, col, sty, full) in chars_of(&win.evs) {
        if tok_of(sty) == TOK_PANE {
            have.insert((row, col), (ch, sty.clone(), full));
        }
    }
    let want = m.cells(&m.leaves[0]);
    if want != have {
        let first = want.iter().find(|(k, v)| have.get(k) != Some(v)).map(|(k, v)| format!("at {:?} expected {:?}, got {:?}", k, v, have.get(k)));
        bail!("the pane shows something else: {:?}\n{}", first, s.describe());
    }
    ctx.bump("scrolled_documents_compared");
    ctx.nontrivial(scene_hash(&s));
    Ok(())
}

// --- C18 ---------------------------------------------------------------------------------------

fn c18_cursor(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let cfg = PCfg { alpha: None, huge: false, misuse: false, docs: true, mismatch: false };
    let s = gen_scene(r, &cfg, ctx.size);
    check_cursor(&s, ctx)
}
fn c18_tall(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let s = tall_scene(r);
    check_cursor(&s, ctx)?;
    ctx.bump("tall_windows");
    Ok(())
}
fn c18_long(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let s = long_scene(r);
    check_cursor(&s, ctx)?;
    ctx.bump("scenes_with_long_lines");
    Ok(())
}
fn check_cursor(s: &Scene, ctx: &mut Ctx) -> Verdict {
    ctx.note = s.describe();
    let m = PaneModel::new(s);
    if !m.errs.is_empty() {
        ctx.bump("skipped_errors");
        return Ok(());
    }
    let mut win = Win::new(s.size);
    if let Err(e) = show(s, &mut win) {
        bail!("display failed with {:?}\n{}", e, s.describe());
    }
    tally_scene(ctx, &m);
    let mut calls: Vec<(u64, u64)> = win
        .evs
        .iter()
        .filter_map(|e| match e {
            WEv::Focus { row, col } => Some((*row as u64, *col as u64)),
            _ => None,
        })
        .collect();
    let written: HashMap<(u64, u64), (char, &Sty)> = chars_of(&win.evs).map(|(ch, row, col, sty, _)| ((row, col), (ch, sty))).collect();
    for l in &m.leaves {
        let (label, p) = match &l.leaf {
            Leaf::Doc(x, Some(p)) => (*x, p),
            _ => continue,
        };
        if !s.contents[label].opts.set_focus {
            ctx.bump("documents_without_set_focus");
            continue;
        }
        let at = (l.rect.r0 + p.focus.0 as u64, (l.rect.c0 + p.focus.1).min(65535));
        match calls.iter().position(|c| *c == at) {
            Some(i) => {
                calls.remove(i);
            }
            // A document without any extent may or may not count as displayed.
            None if l.rect.area() == 0 => {
                ctx.bump("focus_in_pane_of_no_extent");
                continue;
            }
            None => bail!("no call of set_focus at {:?}, for {:?} in {:?}; remaining calls: {:?}\n{}", at, p, l.rect, calls, s.describe()),
        }
        ctx.bump("focus_points_checked");
        if l.rect.c0 + p.focus.1 > 65535 {
            ctx.bump("focus_columns_past_the_end");
        }
        ctx.nontrivial(mix(scene_hash(s) ^ l.tok as u64));
        // The character under the cursor
        let c = &s.contents[label];
        let width = match c.opts.width_strategy {
            WidthStrategy::Fixed(x) => Some(x),
            _ if l.dynamic => None,
            WidthStrategy::Full => Some((l.rect.c1 - l.rect.c0) as Width),
            WidthStrategy::NoMoreThan(x) => Some(x.min((l.rect.c1 - l.rect.c0) as Width)),
        };
        if let Some(width) = width {
            let mon = Monitor::new();
            let o = observe_n(DocO::root(&c.w, &mon), width, &c.opts.focus_path, c.opts.focus_target, Some(&Sty(l.style.clone())), 0, 0).map_err(|e| format!("HARNESS:{:?}", e))?;
            let right = text_of(&o.right);
            let visible = at.1 < l.rect.c1 && at.0 < l.rect.r1;
            match right.chars().next() {
                Some(ch) if visible && at.1 + char_cells(ch) <= l.rect.c1 => {
                    if written.get(&at).map(|x| x.0) != Some(ch) {
                        bail!("the character under the cursor at {:?} is {:?}, not {:?}\n{}", at, written.get(&at), ch, s.describe());
                    }
                    ctx.bump("characters_under_cursor_checked");
                }
                _ => ctx.bump(if visible { "cursor_at_end_of_line" } else { "cursor_clipped" }),
            }
        }
    }
    if !calls.is_empty() {
        bail!("unexpected calls of set_focus at {:?}\n{}", calls, s.describe());
    }
    ctx.sample(|| s.describe());
    Ok(())
}

// --- C19 ---------------------------------------------------------------------------------------

fn c19_window_faults(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let cfg = PCfg { alpha: if r.pct(20) { Some(Alpha::Full) } else { None }, huge: false, misuse: r.pct(15), docs: true, mismatch: r.pct(20) };
    let s = gen_scene(r, &cfg, ctx.size.min(25));
    ctx.note = s.describe();
    let mut base = Win::new(s.size);
    let res = show(&s, &mut base).map_err(|e| format!("{:?}", e));
    let total = base.calls.get();
    ctx.sample(|| format!("{} window calls, {:?}\n{}", total, res, s.describe()));
    let mut points: Vec<u64> = if total <= 24 { (0..total).collect() } else { (0..20).map(|_| r.u64() % total).chain([0, 1, total - 1]).collect() };
    points.sort();
    points.dedup();
    for k in points {
        let mut win = Win::new(s.size);
        win.fail_at = k;
        match show(&s, &mut win) {
            Err(PaneError::PrettyWindowError(WinErr(x))) if x == k => (),
            o => bail!("window call {} failed, but display_pane returned {:?}\n{}", k, o, s.describe()),
        }
        if win.calls.get() != k + 1 {
            bail!("window call {} failed, but {} more calls followed\n{}", k, win.calls.get() - k - 1, s.describe());
        }
        if win.evs[..] != base.evs[..win.evs.len()] || win.evs.len() as u64 > k {
            bail!("what was drawn before window call {} failed is not a prefix of what is drawn without failure\n{}", k, s.describe());
        }
        ctx.bump("window_faults_injected");
        if k == 0 {
            ctx.bump("faults_in_size");
        } else if matches!(base.evs.get(k as usize - 1), Some(WEv::Focus { .. })) {
            ctx.bump("faults_in_set_focus");
        } else {
            ctx.bump("faults_in_display_char");
        }
        ctx.nontrivial(mix(scene_hash(&s) ^ k));
    }
    Ok(())
}

/// Errors of the notation and of the documents.
fn c19_errors(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let cfg = PCfg { alpha: None, huge: false, misuse: r.pct(50), docs: true, mismatch: r.pct(60) };
    let s = gen_scene(r, &cfg, ctx.size.min(25));
    ctx.note = s.describe();
    let m = PaneModel::new(&s);
    let mut win = Win::new(s.size);
    let res = show(&s, &mut win);
    let misuse = m.errs.iter().any(|e| matches!(e, MErr::Misuse));
    let printing: Vec<&String> = m
        .errs
        .iter()
        .filter_map(|e| match e {
            MErr::Printing(t) => Some(t),
            _ => None,
        })
        .collect();
    match &res {
        Ok(()) => {
            if misuse || (!printing.is_empty() && !m.ambiguous()) {
                bail!("display succeeded, despite {:?}\n{}", m.errs, s.describe());
            }
            ctx.bump("displays_without_error");
        }
        Err(PaneError::InvalidUseOfDynamic) => {
            if !misuse {
                bail!("InvalidUseOfDynamic, but no Dynamic pane is misused\n{}", s.describe());
            }
            ctx.bump("invalid_uses_of_dynamic");
        }
        Err(PaneError::PrintingError(e)) => {
            let e = err_text(e);
            if !printing.contains(&&e) && !m.ambiguous() && !misuse {
                bail!("display returned {:?}, but the errors are {:?}\n{}", e, m.errs, s.describe());
            }
            ctx.bump("printing_errors");
        }
        Err(e) => bail!("unexpected {:?}\n{}", e, s.describe()),
    }
    ctx.nontrivial(mix(scene_hash(&s)));
    if res.is_ok() {
        document_faults(r, &s, &win, ctx)?;
    }
    Ok(())
}

/// A document method failing at any point of a display that succeeds otherwise.
fn document_faults(r: &mut Rng, s: &Scene, win: &Win, ctx: &mut Ctx) -> Verdict {
    let totals: Vec<u64> = s.contents.iter().map(|c| c.mon.calls.get()).collect();
    for (c, total) in s.contents.iter().zip(totals) {
        if total == 0 {
            continue;
        }
        for _ in 0..4 {
            let k = r.u64() % total;
            c.mon.calls.set(0);
            c.mon.plan.set(FaultPlan::Nth(k));
            let mut win2 = Win::new(s.size);
            let res2 = show(s, &mut win2);
            c.mon.plan.set(FaultPlan::None);
            match res2 {
                Err(PaneError::PrintingError(ppp::PrintingError::PrettyDoc(Fault(x)))) if x == k => (),
                o => bail!("document call {} failed, but display_pane returned {:?}\n{}", k, o, s.describe()),
            }
            if win2.evs.len() > win.evs.len() || win2.evs[..] != win.evs[..win2.evs.len()] {
                bail!("what was drawn before document call {} failed is not a prefix of what is drawn without failure\n{}", k, s.describe());
            }
            ctx.bump("document_faults_during_display");
            ctx.add("cells_drawn_before_document_fault", win2.evs.len() as u64);
        }
    }
    Ok(())
}

/// What a pane shows of a document, for comparison.
pub fn show_one(w: &World, width: Width, height: Height, path: &[usize], t: FocusTarget) -> String {
    let mon = Monitor::new();
    let opts = PrintingOptions { focus_path: path.to_vec(), focus_target: t, focus_height: 0.3, width_strategy: WidthStrategy::Full, set_focus: true };
    let mut win = Win::new(Size { width, height });
    let note = PaneNotation::Horz(vec![(PaneSize::Dynamic, PaneNotation::Doc { label: 0 }), (PaneSize::Proportional(1), PaneNotation::Fill { ch: '.' })]);
    let res = display_pane(&mut win, &note, &Sty(vec![]), &|_: usize| Some((DocO::root(w, &mon), opts.clone())));
    format!("{:?} {:?}", res.map_err(|e| e.to_string()), win.evs)
}

/// C11 for documents in panes.
pub fn c11_panes(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let cfg = PCfg { alpha: None, huge: false, misuse: false, docs: true, mismatch: false };
    let s = gen_scene(r, &cfg, ctx.size.min(25));
    ctx.note = s.describe();
    let mut win = Win::new(s.size);
    if show(&s, &mut win).is_err() {
        return Ok(());
    }
    ctx.nontrivial(mix(scene_hash(&s)));
    document_faults(r, &s, &win, ctx)
}

// --- C20 ---------------------------------------------------------------------------------------

fn expected_plain(evs: &[WEv]) -> String {
    let mut rows: BTreeMap<u64, BTreeMap<u64, (char, u64)>> = BTreeMap::new();
    for (ch, row, col, _, full) in chars_of(evs) {
        rows.entry(row).or_default().insert(col, (ch, 1 + full as u64));
    }
    let mut out = String::new();
    if let Some(last) = rows.keys().last() {
        for row in 0..=*last {
            if let Some(cells) = rows.get(&row) {
                let mut at = 0;
                for (col, (ch, n)) in cells {
                    while at < *col {
                        out.push(' ');
                        at += 1;
                    }
                    out.push(*ch);
                    at += n;
                }
            }
            out.push('\n');
        }
    }
    out
}

fn c20_writes(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let w = r.range(1, 40) as u64;
    let h = r.range(1, 20) as u64;
    let unbounded = r.pct(30);
    let mut taken: HashMap<(u64, u64), ()> = HashMap::new();
    let mut win = if unbounded { PlainText::<Sty>::new_unbounded_height(w as Width) } else { PlainText::<Sty>::new(w as Width, h as Height) };
    let size = win.size().unwrap();
    if size.width as u64 != w || (!unbounded && size.height as u64 != h) || (unbounded && size.height < 1_000_000) {
        bail!("the window was made {}x{} (unbounded: {}) but says its size is {:?}", w, h, unbounded, size);
    }
    let mut evs = vec![];
    let n = r.below(80);
    for _ in 0..n {
        if r.pct(3) {
            check_plain(&win, &evs, &format!("in between: writes {:?}", evs), ctx)?;
            ctx.bump("texts_read_in_between");
        }
        if r.pct(8) {
            let (row, col) = (r.below(h as usize + 3) as u32, r.below(w as usize + 3) as u16);
            evs.push(WEv::Focus { row, col });
            win.set_focus(WPos { row, col }).unwrap();
            continue;
        }
        let ch = *r.pick(&['a', 'b', ' ', '一', '二', 'é', 'Ａ', '한', '.', '\u{301}', 'Z', '\0', '\t', '\u{7f}']);
        let full = char_cells(ch) == 2;
        let k = 1 + full as u64;
        if w < k {
            continue;
        }
        let (row, col) = (r.below(h as usize) as u64, r.below((w - k + 1) as usize) as u64);
        if (col..col + k).any(|c| taken.contains_key(&(row, c))) {
            continue;
        }
        (col..col + k).for_each(|c| {
            taken.insert((row, c), ());
        });
        evs.push(WEv::Char { ch, row: row as u32, col: col as u16, sty: Sty(vec![]), full });
        win.display_char(ch, WPos { row: row as u32, col: col as u16 }, &Sty(vec![]), full).unwrap();
    }
    check_plain(&win, &evs, &format!("writes {:?}", evs), ctx)?;
    ctx.nontrivial(crate::rng::hash_str(&format!("{:?}", evs)));
    Ok(())
}
fn check_plain(win: &PlainText<Sty>, evs: &[WEv], what: &str, ctx: &mut Ctx) -> Verdict {
    let want = expected_plain(evs);
    let got = win.to_string();
    if want != got {
        bail!("the text is\n{}\ninstead of\n{}\n{}", got, want, what);
    }
    let room = crate::rng::hash_str(&got) as usize % (got.len() + 2);
    ctx.add("writers_without_room", short_of_room(win, &got, room)? as u64);
    let focus: Vec<(u32, u16)> = evs
        .iter()
        .filter_map(|e| match e {
            WEv::Focus { row, col } => Some((*row, *col)),
            _ => None,
        })
        .collect();
    let got: Vec<(u32, u16)> = win.focus_points().iter().map(|p| (p.row, p.col)).collect();
    if focus != got {
        bail!("focus points are {:?} instead of {:?}\n{}", got, focus, what);
    }
    ctx.bump("plain_texts_compared");
    ctx.add("plain_focus_points", focus.len() as u64);
    ctx.add("plain_chars", evs.len() as u64);
    Ok(())
}

fn c20_display(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let cfg = PCfg { alpha: None, huge: false, misuse: false, docs: true, mismatch: false };
    let s = gen_scene(r, &cfg, ctx.size);
    ctx.note = s.describe();
    let mut rec = Win::new(s.size);
    if show(&s, &mut rec).is_err() {
        ctx.bump("skipped_errors");
        return Ok(());
    }
    let mut win = PlainText::<Sty>::new(s.size.width, s.size.height);
    show(&s, &mut win).map_err(|e| format!("display failed with {:?}\n{}", e, s.describe()))?;
    check_plain(&win, &rec.evs, &s.describe(), ctx)?;
    ctx.nontrivial(scene_hash(&s));
    ctx.sample(|| format!("{}\n{}", win, s.describe()));
    Ok(())
}

/// Displaying to a window of unbounded height: only dynamic and fixed sizes, stacked.
fn c20_unbounded(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let cfg = PCfg { alpha: None, huge: false, misuse: false, docs: true, mismatch: false };
    let width = r.range(3, 60) as Width;
    let n = r.range(1, 4);
    let mut v = vec![];
    let mut contents = vec![];
    for i in 0..n {
        if r.pct(75) {
            let mut w = pane_world(r, &cfg, ctx.size);
            while expansion(&w) > 3000 {
                w = pane_world(r, &cfg, ctx.size / 2);
            }
            let opts = gen_opts(r, &w, width);
            let k = contents.len();
            contents.push(Content { w, mon: Monitor::new(), opts, present: true });
            v.push((PaneSize::Dynamic, P::Style(TOK_PANE + i as u32, Box::new(P::Doc(k)))));
        } else {
            let size = PaneSize::Fixed(r.below(4));
            v.push((size, P::Style(TOK_PANE + i as u32, Box::new(P::Fill(if r.pct(30) { any_visible_char(r) } else { *r.pick(&['-', '一', '=']) }))) ));
        }
    }
    let s = Scene { pane: P::Vert(v.clone()), contents, style: Sty(vec![]), size: Size { width, height: Height::MAX } };
    ctx.note = s.describe();
    // The focus height does not matter when all fits.
    let mut want = String::new();
    let mut rows = 0u64;
    let mut foci = vec![];
    for (i, (size, p)) in v.iter().enumerate() {
        match (size, p.core()) {
            (PaneSize::Fixed(n), P::Fill(c)) => {
                for _ in 0..*n {
                    let mut col = 0;
                    while col + char_cells(*c) <= width as u64 {
                        want.push(*c);
                        col += char_cells(*c);
                    }
                    while col < width as u64 {
                        want.push(' ');
                        col += 1;
                    }
                    want.push('\n');
                    rows += 1;
                }
            }
            (_, P::Doc(k)) => {
                let c = &s.contents[*k];
                let pw = match c.opts.width_strategy {
                    WidthStrategy::Full => width,
                    WidthStrategy::Fixed(x) => x,
                    WidthStrategy::NoMoreThan(x) => x.min(width),
                };
                let mon = Monitor::new();
                let o = match observe(DocO::root(&c.w, &mon), pw, &c.opts.focus_path, c.opts.focus_target, Some(&Sty(vec![TOK_PANE + i as u32]))) {
                    Ok(o) if o.clean() => o,
                    _ => {
                        ctx.bump("skipped_errors");
                        return Ok(());
                    }
                };
                if c.opts.set_focus {
                    foci.push(((rows + o.up.len() as u64) as u32, own_width(&o.left).min(65535) as u16));
                }
                for line in o.all_text() {
                    let mut col = 0;
                    for ch in line.chars() {
                        if col + char_cells(ch) > width as u64 {
                            break;
                        }
                        want.push(ch);
                        col += char_cells(ch);
                    }
                    while col < width as u64 {
                        want.push(' ');
                        col += 1;
                    }
                    want.push('\n');
                    rows += 1;
                }
            }
            _ => unreachable!(),
        }
    }
    for c in &s.contents {
        c.mon.calls.set(0);
        c.mon.budget.set(2_000_000);
    }
    let t0 = cpu_ms();
    let a0 = crate::alloc::allocs();
    let mut win = PlainText::<Sty>::new_unbounded_height(width);
    show(&s, &mut win).map_err(|e| format!("display failed with {:?}\n{}", e, s.describe()))?;
    let got = win.to_string();
    if want != got {
        bail!("the text is\n{}\ninstead of\n{}\n{}", got, want, s.describe());
    }
    let gf: Vec<(u32, u16)> = win.focus_points().iter().map(|p| (p.row, p.col)).collect();
    if gf != foci {
        bail!("focus points are {:?} instead of {:?}\n{}", gf, foci, s.describe());
    }
    let ms = cpu_ms() - t0;
    ctx.max("unbounded_display_ms", ms);
    ctx.max("unbounded_display_allocs", crate::alloc::allocs() - a0);
    if ms > 20_000 {
        bail!("displaying {} rows to a window of unbounded height took {} ms\n{}", rows, ms, s.describe());
    }
    ctx.bump("unbounded_displays");
    ctx.add("unbounded_rows", rows);
    ctx.nontrivial(scene_hash(&s));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let cfg_rule = "random windows, pane trees (Horz/Vert/Fill/Doc/Style; Fixed/Dynamic/Proportional, zero and huge sizes) and documents with random printing options, displayed to a recording window; ";
    // (kept reachable, so that leak checkers do not report them)
    static RULES: std::sync::Mutex<Vec<&'static str>> = std::sync::Mutex::new(vec![]);
    let leak = |s: String| -> &'static str {
        let r: &'static str = Box::leak(s.into_boxed_str());
        RULES.lock().unwrap().push(r);
        r
    };
    let w = |name, f, quick, thorough, max_size| W { name, f, quick, thorough, max_size };
    vec![
        Prop {
            id: "C15",
            rule: leak(format!("{}non-trivial: at least one split and more than ten writes", cfg_rule)),
            workloads: vec![w("cells", c15_cells as Workload, 60_000, 1_500_000, 60), w("big", c15_big, 160, 4000, 10), w("bare", c15_bare, 20_000, 500_000, 40)],
            required: vec!["windows_of_unstyled_panes", "fill_cells_compared", "chars_written", "full_width_chars_written", "dynamic_document_panes", "panes_clipping_lines", "windows_65535_wide", "windows_65535_tall"],
            assumptions: vec!["A pane whose document is absent (get_content returned None) need not be written; it must not be written twice or outside of its rectangle.", "Zero-width characters count as one cell, as the window interface has no way to attach them to another character."],
        },
        Prop {
            id: "C16",
            rule: leak(format!("{}every leaf pane has a style token of its own, from which the rectangle it occupies is recovered and compared with that computed by an independent model of the division; non-trivial: at least one split", cfg_rule)),
            workloads: vec![w("divide", c16_divide as Workload, 60_000, 1_500_000, 20), w("strip", c16_strip, 20_000, 500_000, 5), w("bare", c16_bare, 20_000, 500_000, 20), w("tall", c16_tall, 40, 4000, 10)],
            required: vec!["divisions_of_unstyled_panes", "rectangles_checked", "dynamic_document_panes", "dynamic_heights_showing_all", "fixed_panes_squeezed", "strips", "strips_of_250_panes_or_more", "strips_of_almost_equal_weights", "tall_windows_divided", "tall_dynamic_columns"],
            assumptions: vec!["The extent of a Dynamic document in a Horz is that of the lines shown in the height available."],
        },
        Prop {
            id: "C17",
            rule: leak(format!("{}each document pane's cells are compared with the lines pretty_print delivers for the pane's width and style; non-trivial: something but blanks is shown", cfg_rule)),
            workloads: vec![w("window", c17_window as Workload, 60_000, 1_500_000, 60), w("scroll", c17_scroll, 20_000, 500_000, 60), w("bare", c17_bare, 20_000, 500_000, 40), w("tall", c17_tall, 60, 4000, 10), w("long", c17_long, 400, 20_000, 12)],
            required: vec!["unstyled_documents_compared", "documents_compared", "scrolled_documents_compared", "dynamic_heights_showing_all", "panes_clipping_lines", "panes_with_blank_rows_above", "tall_windows", "scenes_with_long_lines"],
            assumptions: vec!["Focus heights that fall half way between two rows may use either row.", "What pretty_print delivers is right (C01..C06)."],
        },
        Prop {
            id: "C18",
            rule: leak(format!("{}set_focus calls are matched with the document panes; non-trivial: each document pane with set_focus", cfg_rule)),
            workloads: vec![w("cursor", c18_cursor as Workload, 80_000, 2_000_000, 60), w("tall", c18_tall, 60, 4000, 10), w("long", c18_long, 800, 30_000, 12)],
            required: vec!["focus_points_checked", "characters_under_cursor_checked", "documents_without_set_focus", "cursor_clipped", "tall_windows", "scenes_with_long_lines", "focus_columns_past_the_end"],
            assumptions: vec!["Documents have characters of one or two columns. A document pane of no extent may or may not report a focus."],
        },
        Prop {
            id: "C19",
            rule: leak(format!("{}the window or a document is made to fail at each of many points; non-trivial: each (scene, failing call)", cfg_rule)),
            workloads: vec![w("window-faults", c19_window_faults as Workload, 12_000, 300_000, 25), w("errors", c19_errors, 30_000, 800_000, 25)],
            required: vec!["window_faults_injected", "faults_in_size", "faults_in_set_focus", "faults_in_display_char", "invalid_uses_of_dynamic", "printing_errors", "document_faults_during_display", "displays_without_error"],
            assumptions: vec!["When a display has several errors, any one of them may be reported."],
        },
        Prop {
            id: "C20",
            rule: leak(format!("random non-overlapping writes, and {}; non-trivial: distinct write sequences and scenes", cfg_rule)),
            workloads: vec![w("writes", c20_writes as Workload, 60_000, 1_000_000, 5), w("display", c20_display, 20_000, 400_000, 40), w("unbounded", c20_unbounded, 20_000, 400_000, 40)],
            required: vec!["writers_without_room", "texts_read_in_between", "plain_texts_compared", "plain_focus_points", "unbounded_displays", "unbounded_rows"],
            assumptions: vec!["'Proportional to what is drawn' is decided by CPU time with a very wide margin (20 s for at most a few thousand rows)."],
        },
    ]
}
