//! Random notations and documents.
use crate::model::*;
use crate::rng::Rng;
use crate::valid;
use crate::world::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Alpha {
    /// One-column characters only, never empty.
    Plain,
    /// One- and two-column characters, never empty.
    Wide,
    /// Anything, including empty strings, zero-width and combining characters and emoji sequences.
    Full,
}

const PLAIN: &[&str] = &[
    "a", "bb", "ccc", "(", ")", "[", "]", ",", ", ", ": ", "=", "let ", "in", "foo", "x1", "+",
    "dddd", "longer_name", ";", "hello", "e", "fg", "0", "42",
];
const WIDE: &[&str] = &[
    "一", "二三", "x一", "日本語", "Ａ", "ア", "é", "ß", "Ω", "한글", "a一b", "\u{3000}", "\u{a0}", "\u{3000}、", "  x", "y  ", " ",
];
const ODD: &[&str] = &[
    "",
    "e\u{301}",
    "\u{200b}",
    "👩\u{200d}👩\u{200d}👧",
    "👍🏽",
    "❤\u{fe0f}",
    "🇫🇷",
    "\t",
    "\u{301}",
    "a\u{301}b\u{308}",
    "™\u{fe0f}",
    "\u{ad}",
    "لا",
    "#\u{fe0f}\u{20e3}",
    "ꓓ",
    "\u{1f468}\u{200d}\u{1f4bb}x",
    "\0",
    "x\0y\u{7f}",
    "\r",
    "\u{10ffff}",
];

pub fn gen_str(r: &mut Rng, a: Alpha) -> String {
    match a {
        Alpha::Plain => r.pick(PLAIN).to_string(),
        Alpha::Wide => {
            match r.weighted(&[60, 32, 8]) {
                0 => r.pick(PLAIN).to_string(),
                1 => r.pick(WIDE).to_string(),
                _ => random_wide(r),
            }
        }
        Alpha::Full => match r.weighted(&[40, 20, 34, 6]) {
            0 => r.pick(PLAIN).to_string(),
            1 => r.pick(WIDE).to_string(),
            2 => r.pick(ODD).to_string(),
            _ => (0..r.range(1, 4)).map(|_| any_char(r)).collect(),
        },
    }
}
/// Any character but a newline, and but those that tell panes apart (C16).
pub fn any_char(r: &mut Rng) -> char {
    loop {
        let (lo, hi) = *r.pick(&[(0x20, 0x7f), (0x80, 0x250), (0x250, 0x2000), (0x2000, 0x2100), (0x2000, 0x3000), (0x3000, 0x3200), (0x3000, 0x10000), (0xff00, 0x10000), (0x10000, 0x20000), (0x1f300, 0x1fb00), (0x20000, 0x110000)]);
        match char::from_u32(r.range(lo, hi - 1) as u32) {
            Some(c) if c != '\n' && !(0x1400..0x1500).contains(&(c as u32)) => return c,
            _ => (),
        }
    }
}
/// Any character of one or two columns.
pub fn any_visible_char(r: &mut Rng) -> char {
    loop {
        let c = any_char(r);
        if matches!(char_cols(c), 1 | 2) && disp_width(&c.to_string()) == char_cols(c) && !c.is_control() {
            return c;
        }
    }
}
/// Any character, for a pane to be filled with.
pub fn any_fill_char(r: &mut Rng) -> char {
    match r.below(6) {
        0 => char::from_u32(r.below(0x20) as u32).unwrap(),
        1 => *r.pick(&['\u{0}', '\n', '\t', '\u{7f}', '\u{80}', '\u{9f}', '\u{ad}', '\u{200b}', '\u{301}', '\u{feff}', '\u{fffd}', '\u{e000}']),
        2 | 3 => any_char(r),
        _ => any_visible_char(r),
    }
}
/// A few characters of one or two columns each, which are as wide together as they are apart.
fn random_wide(r: &mut Rng) -> String {
    loop {
        let s: String = (0..r.range(1, 3)).map(|_| any_visible_char(r)).collect();
        if disp_width(&s) == s.chars().map(char_cols).sum::<u64>() {
            return s;
        }
    }
}
pub fn gen_text(r: &mut Rng, a: Alpha) -> String {
    let n = r.weighted(&[0, 60, 25, 10, 5]);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(&gen_str(r, a));
    }
    s
}

pub fn gen_alpha(r: &mut Rng) -> Alpha {
    *r.pick(&[Alpha::Plain, Alpha::Plain, Alpha::Wide, Alpha::Full])
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sort {
    Text,
    Fixed(usize),
    Var,
}

#[derive(Clone, Copy)]
pub struct Cfg {
    pub alpha: Alpha,
    pub marks: bool,
    pub eols: bool,
    pub styles: bool,
    /// Allow notations that do not match their nodes.
    pub mismatch: bool,
    /// Newlines allowed in the first options of choices.
    pub nl_first: bool,
    pub flats: bool,
}
impl Cfg {
    pub fn any(r: &mut Rng) -> Cfg {
        Cfg {
            alpha: gen_alpha(r),
            marks: true,
            eols: r.pct(60),
            styles: true,
            mismatch: false,
            nl_first: r.pct(40),
            flats: true,
        }
    }
}

#[derive(Clone, Copy)]
struct Ctx {
    sort: Sort,
    count: Option<valid::Case>,
    fold: Option<valid::InFold>,
    in_first: bool,
}

pub const NUM_LABELS: usize = 6;
pub const NUM_CONDS: usize = 4;
const INDENTS: &[&str] = &["  ", "    ", "// ", "* ", " ", "| ", "", "一"];

fn gen_indent_str(r: &mut Rng, a: Alpha) -> String {
    match a {
        Alpha::Plain => r.pick(&INDENTS[..6]).to_string(),
        Alpha::Wide if r.pct(40) => gen_str(r, a),
        Alpha::Wide => r.pick(&["  ", "// ", "一", " ", "    "]).to_string(),
        Alpha::Full => {
            if r.pct(20) {
                gen_str(r, a)
            } else {
                r.pick(INDENTS).to_string()
            }
        }
    }
}

fn child_index(r: &mut Rng, c: Ctx, cfg: &Cfg) -> Option<isize> {
    if cfg.mismatch && r.pct(25) {
        if r.pct(12) {
            // Far from any child
            let edge = *r.pick(&[isize::MIN, isize::MAX, 1 << 32, -(1 << 32), 1 << 31, -(1 << 31), 1 << 16, -(1 << 16), 1 << 8, -(1 << 8)]);
            return Some(edge.saturating_add(r.range(0, 4) as isize - 2));
        }
        return Some(r.range(0, 7) as isize - 4);
    }
    let n: usize = match (c.sort, c.count) {
        (Sort::Fixed(n), _) => n,
        (Sort::Var, Some(valid::Case::One)) => 1,
        (Sort::Var, Some(valid::Case::Many)) => 2,
        _ => 0,
    };
    if n == 0 {
        return None;
    }
    Some(r.below(2 * n) as isize - n as isize)
}

fn gen_check_pos(r: &mut Rng, c: Ctx, cfg: &Cfg) -> Pos {
    for _ in 0..3 {
        match r.below(4) {
            0 => return Pos::Here,
            1 => {
                if let Some(i) = child_index(r, c, cfg) {
                    return Pos::Child(i);
                }
            }
            2 if c.fold == Some(valid::InFold::Join) => return Pos::LeftChild,
            3 if c.fold == Some(valid::InFold::Join) => return Pos::RightChild,
            _ => (),
        }
    }
    Pos::Here
}

fn gen_rec(r: &mut Rng, cfg: &Cfg, depth: usize, c: Ctx) -> Ast {
    let in_join = c.fold == Some(valid::InFold::Join);
    if depth == 0 || r.pct(12) {
        for _ in 0..8 {
            match r.weighted(&[30, 14, 3, 8, 8, 25, 25, 12]) {
                0 => return Ast::Lit(gen_str(r, cfg.alpha)),
                1 => {
                    if !c.in_first || cfg.nl_first {
                        return Ast::Newline;
                    }
                }
                2 => return Ast::Empty,
                3 if cfg.eols => return Ast::Eol,
                4 if cfg.marks => return Ast::Mark,
                5 => {
                    let plain = c.count.is_none() && c.fold.is_none();
                    if (c.sort == Sort::Text && plain) || (cfg.mismatch && plain && r.pct(10)) {
                        return Ast::Text;
                    }
                }
                6 => {
                    if let Some(i) = child_index(r, c, cfg) {
                        return Ast::Child(i);
                    }
                }
                7 if in_join => return if r.pct(50) { Ast::Left } else { Ast::Right },
                _ => (),
            }
        }
        return Ast::Lit(gen_str(r, cfg.alpha));
    }
    let d = depth - 1;
    loop {
        match r.weighted(&[45, 25, 8, 8, 8, 8, 10, 10]) {
            0 => {
                let a = gen_rec(r, cfg, d, c);
                let b = gen_rec(r, cfg, d, c);
                return if r.pct(15) && (!c.in_first || cfg.nl_first) {
                    cat(cat(a, Ast::Newline), b)
                } else {
                    cat(a, b)
                };
            }
            1 => {
                let a = if r.pct(25) && cfg.flats {
                    flat(gen_rec(r, cfg, d, Ctx { in_first: true, ..c }))
                } else {
                    gen_rec(r, cfg, d, Ctx { in_first: true, ..c })
                };
                let b = gen_rec(r, cfg, d, c);
                let b = if r.pct(35) && !(c.in_first && !cfg.nl_first) {
                    nest(r.range(0, 4), b)
                } else {
                    b
                };
                return or(a, b);
            }
            2 if cfg.flats => return flat(gen_rec(r, cfg, d, c)),
            3 => {
                let l = if cfg.styles && r.pct(50) {
                    Some(r.below(NUM_LABELS) as Label)
                } else {
                    None
                };
                let s = gen_indent_str(r, cfg.alpha);
                let a = gen_rec(r, cfg, d, c);
                let a = if r.pct(50) && (!c.in_first || cfg.nl_first) {
                    cat(Ast::Newline, a)
                } else {
                    a
                };
                return indent(&s, l, a);
            }
            4 if cfg.styles => {
                return style(r.below(NUM_LABELS) as Label, gen_rec(r, cfg, d, c))
            }
            5 => {
                let p = gen_check_pos(r, c, cfg);
                let k = r.below(NUM_CONDS) as Cond;
                return check(k, p, gen_rec(r, cfg, d, c), gen_rec(r, cfg, d, c));
            }
            6 if c.count.is_none() && (c.sort == Sort::Var || matches!(c.sort, Sort::Fixed(_)) && r.pct(20) || cfg.mismatch && r.pct(10)) => {
                let f = |case| Ctx {
                    count: Some(case),
                    ..c
                };
                let z = gen_rec(r, cfg, d.min(1), f(valid::Case::Zero));
                let o = gen_rec(r, cfg, d, f(valid::Case::One));
                let m = gen_rec(r, cfg, d, f(valid::Case::Many));
                return count(z, o, m);
            }
            7 if c.fold.is_none()
                && (c.sort == Sort::Var
                    || matches!(c.sort, Sort::Fixed(_)) && r.pct(30)
                    || cfg.mismatch && r.pct(10)) =>
            {
                // `first` is displayed for a single child, or next to others
                let first_ctx = Ctx {
                    fold: Some(valid::InFold::First),
                    count: c.count,
                    ..c
                };
                let first = if r.pct(70) {
                    let ch = Ast::Child(0);
                    match r.below(4) {
                        0 => flat(ch),
                        1 => cat(Ast::Lit(gen_str(r, cfg.alpha)), ch),
                        _ => ch,
                    }
                } else {
                    gen_rec(r, cfg, d.min(2), first_ctx)
                };
                let first = if c.count == Some(valid::Case::Zero) {
                    Ast::Lit(gen_str(r, cfg.alpha))
                } else {
                    first
                };
                let join_ctx = Ctx {
                    fold: Some(valid::InFold::Join),
                    count: c.count,
                    ..c
                };
                let join = match r.below(5) {
                    0 => gen_rec(r, cfg, d.min(2), join_ctx),
                    1 => cat(gen_rec(r, cfg, d.min(2), join_ctx), cat(Ast::Left, Ast::Right)),
                    _ => {
                        let sep = gen_rec(r, cfg, d.min(2), join_ctx);
                        let right = match r.below(4) {
                            0 => flat(Ast::Right),
                            1 if cfg.styles => style(r.below(NUM_LABELS) as Label, Ast::Right),
                            _ => Ast::Right,
                        };
                        cat(cat(Ast::Left, sep), right)
                    }
                };
                return fold(first, join);
            }
            _ => (),
        }
    }
}

/// A random valid notation for a node of this sort.
pub fn gen_notation(r: &mut Rng, cfg: &Cfg, sort: Sort, depth: usize) -> Ast {
    for attempt in 0..40 {
        let c = Ctx {
            sort,
            count: None,
            fold: None,
            in_first: false,
        };
        let a = gen_rec(r, cfg, depth.saturating_sub(attempt / 15).max(1), c);
        // Show the children / the text somewhere, most of the time
        let a = if r.pct(70) {
            match sort {
                Sort::Text if !a.has(|x| *x == Ast::Text) => cat(a, Ast::Text),
                Sort::Fixed(n) => {
                    let mut a = a;
                    for i in 0..n {
                        if !a.has(|x| *x == Ast::Child(i as isize)) && r.pct(80) {
                            let sep = match r.below(4) {
                                0 => Ast::Newline,
                                1 => or(Ast::Lit(" ".into()), Ast::Newline),
                                2 => Ast::Lit(gen_str(r, cfg.alpha)),
                                _ => Ast::Empty,
                            };
                            a = cat(a, cat(sep, Ast::Child(i as isize)));
                        }
                    }
                    a
                }
                _ => a,
            }
        } else {
            a
        };
        if valid::flaws(&a).is_empty() {
            return a;
        }
    }
    match sort {
        Sort::Text => Ast::Text,
        Sort::Fixed(0) => lit("()"),
        Sort::Fixed(_) => Ast::Child(0),
        Sort::Var => fold(Ast::Child(0), cats(vec![Ast::Left, or(lit(" "), Ast::Newline), Ast::Right])),
    }
}

/// A tree under construction.
pub struct Builder {
    pub nodes: Vec<Node>,
}
impl Builder {
    pub fn new() -> Builder {
        Builder {
            nodes: vec![],
        }
    }
    pub fn add(&mut self, r: &mut Rng, kind: Kind, note: usize) -> u32 {
        let n = self.nodes.len() as u32;
        self.nodes.push(Node {
            // ids are unique but not in document order
            id: (n as u64 ^ 0x2a5).wrapping_mul(0x9E3779B97F4A7C15),
            kind,
            note,
            conds: r.below(1 << NUM_CONDS) as u8,
            styled: r.pct(80),
            cond_ok: 0,
        });
        n
    }
}

/// Random notations on a random document of about `size` nodes.
pub fn random_world(r: &mut Rng, cfg: &Cfg, size: usize) -> World {
    let num_sorts = r.range(1, 4);
    let mut sorts = vec![Sort::Text];
    for _ in 0..num_sorts {
        sorts.push(match r.below(6) {
            0 => Sort::Text,
            1 => Sort::Fixed(1),
            2 => Sort::Fixed(2),
            3 => Sort::Fixed(r.below(4)),
            _ => Sort::Var,
        });
    }
    let depth = r.range(1, 4);
    let asts: Vec<Ast> = sorts
        .iter()
        .map(|s| gen_notation(r, cfg, *s, depth))
        .collect();
    let mut b = Builder::new();
    let mut budget = size;
    let max_depth = r.range(1, 6);
    fn build(
        r: &mut Rng,
        cfg: &Cfg,
        sorts: &[Sort],
        b: &mut Builder,
        budget: &mut usize,
        depth: usize,
        top: bool,
    ) -> u32 {
        *budget = budget.saturating_sub(1);
        let leaf = depth == 0 || *budget == 0;
        let mut s = r.below(sorts.len());
        if top && *budget > 0 {
            // prefer a branch at the top
            for _ in 0..6 {
                if matches!(sorts[s], Sort::Var) || matches!(sorts[s], Sort::Fixed(n) if n > 0) {
                    break;
                }
                s = r.below(sorts.len());
            }
        }
        if leaf {
            for _ in 0..10 {
                if !matches!(sorts[s], Sort::Fixed(n) if n > 0) {
                    break;
                }
                s = r.below(sorts.len());
            }
            if matches!(sorts[s], Sort::Fixed(n) if n > 0) {
                s = 0;
            }
        }
        let kids_n = match sorts[s] {
            Sort::Text => None,
            Sort::Fixed(n) => Some(n),
            Sort::Var if leaf => Some(0),
            Sort::Var => Some(*r.pick(&[0, 1, 2, 2, 3, 3, 4, 5])),
        };
        let kids_n = if cfg.mismatch && r.pct(10) {
            match r.below(3) {
                0 => None,
                _ if leaf => Some(0),
                _ => Some(r.below(4)),
            }
        } else {
            kids_n
        };
        match kids_n {
            None => {
                let t = gen_text(r, cfg.alpha);
                b.add(r, Kind::Text(t), s)
            }
            Some(n) => {
                let mut kids = vec![];
                for _ in 0..n {
                    kids.push(build(r, cfg, sorts, b, budget, depth.saturating_sub(1), false));
                }
                b.add(r, Kind::Kids(kids), s)
            }
        }
    }
    let root = build(r, cfg, &sorts, &mut b, &mut budget, max_depth, true);
    World::new(asts, b.nodes, root, r)
}

// ---------------------------------------------------------------------------------------------
// Realistic grammars

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum G {
    Leaf,
    Str,
    List,
    Flow,
    Call,
    Block,
    Comment,
    Pair,
    Chain,
    If,
    Hide,
    Prefix,
    Bin,
    Opt,
}

pub struct GCfg {
    pub alpha: Alpha,
    pub comments: bool,
    pub hide: bool,
    pub marks: bool,
}

/// The notations of a small language. Conditions: 0 = "needs separator", 1 = "is comment",
/// 2 and 3 = arbitrary.
fn grammar(r: &mut Rng, g: &GCfg) -> Vec<(G, Ast)> {
    let l = |r: &mut Rng| r.below(NUM_LABELS) as Label;
    let mut v: Vec<(G, Ast)> = vec![];
    v.push((G::Leaf, style(l(r), Ast::Text)));
    v.push((
        G::Str,
        style(l(r), cats(vec![lit("\""), Ast::Text, lit("\"")])),
    ));
    let ind = *r.pick(&[2usize, 4, 1, 3]);
    let (open, close) = *r.pick(&[("[", "]"), ("{", "}"), ("begin ", " end"), ("(", ")")]);
    // List: Json-like
    let sep = check(0, Pos::LeftChild, lit(","), Ast::Empty);
    let single = cats(vec![
        style(l(r), lit(open)),
        fold(
            flat(Ast::Child(0)),
            cats(vec![Ast::Left, lit(", "), flat(Ast::Right)]),
        ),
        style(l(r), lit(close)),
    ]);
    let multi = cats(vec![
        style(l(r), lit(open)),
        nest(
            ind,
            fold(
                Ast::Child(0),
                cats(vec![cat(cat(Ast::Left, sep), Ast::Newline), Ast::Right]),
            ),
        ),
        cat(Ast::Newline, style(l(r), lit(close))),
    ]);
    let mark = if g.marks { Ast::Mark } else { Ast::Empty };
    v.push((
        G::List,
        count(
            cats(vec![lit(open), mark.clone(), lit(close)]),
            or(single.clone(), multi.clone()),
            or(single, multi),
        ),
    ));
    // Flow wrap
    v.push((
        G::Flow,
        cats(vec![
            lit("<"),
            indent(
                &if g.alpha == Alpha::Plain || r.pct(50) { " ".repeat(ind) } else { gen_indent_str(r, g.alpha) },
                if r.pct(50) { Some(l(r)) } else { None },
                fold(
                    Ast::Child(0),
                    cats(vec![
                        Ast::Left,
                        lit(","),
                        or(lit(" "), Ast::Newline),
                        Ast::Right,
                    ]),
                ),
            ),
            lit(">"),
        ]),
    ));
    // Call
    v.push((
        G::Call,
        cats(vec![
            style(l(r), lit("call")),
            mark.clone(),
            or(
                flat(cats(vec![
                    lit("("),
                    fold(
                        Ast::Child(0),
                        cats(vec![Ast::Left, lit(", "), Ast::Right]),
                    ),
                    lit(")"),
                ])),
                cats(vec![
                    lit("("),
                    nest(
                        ind,
                        fold(
                            Ast::Child(0),
                            cats(vec![Ast::Left, lit(","), Ast::Newline, Ast::Right]),
                        ),
                    ),
                    cat(Ast::Newline, lit(")")),
                ]),
            ),
        ]),
    ));
    // Block: always on several lines
    v.push((
        G::Block,
        cats(vec![
            lit("{"),
            nest(
                ind,
                fold(
                    Ast::Child(0),
                    cats(vec![cat(Ast::Left, Ast::Newline), Ast::Right]),
                ),
            ),
            cat(Ast::Newline, lit("}")),
        ]),
    ));
    v.push((
        G::Pair,
        cats(vec![Ast::Child(0), lit(": "), Ast::Child(-1)]),
    ));
    v.push((
        G::Chain,
        cats(vec![
            Ast::Child(0),
            or(
                flat(cat(lit("."), Ast::Child(1))),
                nest(ind, cat(lit("."), Ast::Child(1))),
            ),
        ]),
    ));
    v.push((
        G::If,
        cats(vec![
            lit("if "),
            Ast::Child(0),
            or(
                flat(cats(vec![lit(" then "), Ast::Child(1)])),
                nest(ind, Ast::Child(1)),
            ),
            check(
                2,
                Pos::Child(-1),
                Ast::Empty,
                or(
                    flat(cat(lit(" else "), Ast::Child(2))),
                    cats(vec![cat(Ast::Newline, lit("else")), nest(ind, Ast::Child(-1))]),
                ),
            ),
        ]),
    ));
    v.push((
        G::Bin,
        cats(vec![
            flat(Ast::Child(0)),
            lit(" + "),
            or(Ast::Child(1), nest(ind, Ast::Child(1))),
        ]),
    ));
    v.push((
        G::Opt,
        count(
            cat(lit("none"), mark.clone()),
            cats(vec![lit("some "), Ast::Child(0)]),
            cats(vec![lit("many "), Ast::Child(0), lit("&"), Ast::Child(-1)]),
        ),
    ));
    v.push((
        G::Prefix,
        indent(
            "> ",
            Some(l(r)),
            cats(vec![
                lit("quote"),
                Ast::Newline,
                style(l(r), Ast::Child(0)),
            ]),
        ),
    ));
    if g.comments {
        v.push((
            G::Comment,
            cats(vec![
                style(
                    l(r),
                    cat(
                        lit("// "),
                        indent(
                            "// ",
                            None,
                            fold(
                                Ast::Child(0),
                                cats(vec![Ast::Left, or(lit(" "), Ast::Newline), Ast::Right]),
                            ),
                        ),
                    ),
                ),
                Ast::Eol,
            ]),
        ));
    }
    if g.hide {
        v.push((
            G::Hide,
            check(
                3,
                Pos::Here,
                cats(vec![lit("fold..."), mark, Ast::Child(1)]),
                or(
                    flat(cats(vec![Ast::Child(1), lit("/"), Ast::Child(0)])),
                    lit("(hidden)"),
                ),
            ),
        ));
    }
    v
}

pub fn grammar_world(r: &mut Rng, g: &GCfg, size: usize) -> World {
    let gr = grammar(r, g);
    let mut b = Builder::new();
    struct S<'a> {
        gr: &'a [(G, Ast)],
        g: &'a GCfg,
        budget: usize,
        favor: G,
    }
    fn note_of(gr: &[(G, Ast)], k: G) -> usize {
        gr.iter().position(|x| x.0 == k).unwrap()
    }
    fn leaf(r: &mut Rng, s: &mut S, b: &mut Builder) -> u32 {
        let k = *r.pick(&[G::Leaf, G::Leaf, G::Str]);
        let t = gen_text(r, s.g.alpha);
        let n = b.add(r, Kind::Text(t), note_of(s.gr, k));
        b.nodes[n as usize].conds &= !2;
        n
    }
    fn list(r: &mut Rng, s: &mut S, b: &mut Builder, n: usize, depth: usize, comments: bool) -> Vec<u32> {
        let mut v = vec![];
        for _ in 0..n {
            if comments && s.g.comments && r.pct(12) {
                v.push(comment(r, s, b));
            } else {
                v.push(expr(r, s, b, depth));
            }
        }
        let mut later = false;
        for k in v.iter().rev() {
            let node = &mut b.nodes[*k as usize];
            let is_comment = node.conds & 2 != 0;
            if !is_comment && later {
                node.conds |= 1;
            } else {
                node.conds &= !1;
            }
            later |= !is_comment;
        }
        v
    }
    fn comment(r: &mut Rng, s: &mut S, b: &mut Builder) -> u32 {
        let n = r.range(0, 6);
        let mut kids = vec![];
        for _ in 0..n {
            let t = gen_text(r, s.g.alpha);
            kids.push(b.add(r, Kind::Text(t), note_of(s.gr, G::Leaf)));
        }
        s.budget = s.budget.saturating_sub(n);
        let c = b.add(r, Kind::Kids(kids), note_of(s.gr, G::Comment));
        b.nodes[c as usize].conds |= 2;
        c
    }
    fn expr(r: &mut Rng, s: &mut S, b: &mut Builder, depth: usize) -> u32 {
        s.budget = s.budget.saturating_sub(1);
        if depth == 0 || s.budget == 0 || r.pct(20) {
            return leaf(r, s, b);
        }
        let d = depth - 1;
        let k = if r.pct(35) {
            s.favor
        } else {
            r.pick(s.gr).0
        };
        let kids = match k {
            G::Leaf | G::Str | G::Comment => return leaf(r, s, b),
            G::List => {
                let n = r.range(0, 6);
                list(r, s, b, n, d, true)
            }
            G::Block => {
                let n = r.range(1, 5);
                list(r, s, b, n, d, true)
            }
            G::Flow | G::Call => {
                let n = r.range(0, 7);
                list(r, s, b, n, d, false)
            }
            G::Pair | G::Chain | G::Bin | G::Hide => {
                vec![expr(r, s, b, d), expr(r, s, b, d)]
            }
            G::If => vec![expr(r, s, b, d), expr(r, s, b, d), expr(r, s, b, d)],
            G::Prefix => vec![expr(r, s, b, d)],
            G::Opt => {
                let n = r.below(4);
                list(r, s, b, n, d, false)
            }
        };
        let n = b.add(r, Kind::Kids(kids), note_of(s.gr, k));
        b.nodes[n as usize].conds &= !2;
        n
    }
    let favor = *r.pick(&[G::List, G::Flow, G::Call, G::Block, G::Chain, G::Pair, G::Bin]);
    let depth = r.range(2, 7);
    let mut s = S {
        gr: &gr,
        g,
        budget: size,
        favor,
    };
    // Keep going at the top until the budget is used
    let mut tops = vec![];
    while s.budget > 0 && tops.len() < 12 {
        tops.push(expr(r, &mut s, &mut b, depth));
    }
    let root = if tops.len() == 1 {
        tops[0]
    } else {
        let k = *r.pick(&[G::List, G::Block, G::Flow]);
        let n = note_of(&gr, k);
        let mut later = false;
        for k in tops.iter().rev() {
            let c = &mut b.nodes[*k as usize].conds;
            *c = if later { *c | 1 } else { *c & !1 };
            later = true;
        }
        b.add(r, Kind::Kids(tops), n)
    };
    let asts = gr.into_iter().map(|x| x.1).collect();
    World::new(asts, b.nodes, root, r)
}

/// An upper bound on the number of notations displayed by printing this world, with both options
/// of every choice. (A notation may display a child more than once, so this can be exponential.)
pub fn expansion(w: &World) -> u64 {
    fn go(w: &World, a: &Ast, n: u32, join: Option<(usize, u64)>, size: &[u64]) -> u64 {
        let kids = w.kids(n);
        let idx = |i: isize| {
            let j = if i < 0 { i + kids.len() as isize } else { i };
            if j >= 0 && (j as usize) < kids.len() {
                size[kids[j as usize] as usize]
            } else {
                0
            }
        };
        1u64.saturating_add(match a {
            Ast::Empty | Ast::Newline | Ast::Eol | Ast::Mark | Ast::Lit(_) | Ast::Text => 0,
            Ast::Flat(x) | Ast::Indent(_, _, x) | Ast::Style(_, x) => go(w, x, n, join, size),
            Ast::Concat(x, y) | Ast::Choice(x, y) => {
                go(w, x, n, join, size).saturating_add(go(w, y, n, join, size))
            }
            Ast::Check(_, _, x, y) => go(w, x, n, join, size).max(go(w, y, n, join, size)),
            Ast::Child(i) => idx(*i),
            Ast::Count(z, o, m) => match kids.len() {
                0 => go(w, z, n, join, size),
                1 => go(w, o, n, join, size),
                _ => go(w, m, n, join, size),
            },
            Ast::Fold(f, j) => {
                if kids.is_empty() {
                    return 1;
                }
                let mut t = go(w, f, n, None, size);
                for k in 1..kids.len() {
                    t = go(w, j, n, Some((k, t)), size);
                }
                t
            }
            Ast::Left => join.map(|j| j.1).unwrap_or(0),
            Ast::Right => join.map(|j| size[kids[j.0] as usize]).unwrap_or(0),
        })
    }
    // Children come before their parents, in our worlds, except for roots added later; iterate in
    // an order in which they do.
    let mut size = vec![0u64; w.nodes.len()];
    let mut stack = vec![(w.root, false)];
    while let Some((n, done)) = stack.pop() {
        if done {
            size[n as usize] = go(w, w.ast(n), n, None, &size);
        } else {
            stack.push((n, true));
            for k in w.kids(n) {
                stack.push((*k, false));
            }
        }
    }
    size[w.root as usize]
}
pub const MAX_EXPANSION: u64 = 60_000;

/// A random world that is not absurdly big when displayed.
pub fn mismatch_world(r: &mut Rng, size: usize, cfg: &Cfg) -> World {
    let mut n = 1 + r.below(size.max(1));
    loop {
        let w = random_world(r, cfg, n);
        if expansion(&w) <= MAX_EXPANSION {
            return w;
        }
        n = n / 2 + 1;
    }
}

/// Documents that are extreme in one way: deeply nested nodes, deeply nested notations, nodes with
/// very many children, or lines of very many pieces.
pub fn extreme_world(r: &mut Rng, big: usize) -> World {
    let alpha = gen_alpha(r);
    let cfg = Cfg { alpha, eols: false, nl_first: r.pct(20), ..Cfg::any(r) };
    loop {
        let w = match r.below(5) {
            4 => boundary_world(r, false),
            0 => deep_document(r, &cfg, big),
            1 => deep_notation(r, &cfg, big),
            2 => broad_document(r, &cfg, big),
            _ => many_pieces(r, &cfg, big),
        };
        if w.asts.iter().all(|a| valid::flaws(a).is_empty()) && expansion(&w) <= 20 * MAX_EXPANSION {
            return w;
        }
    }
}
fn upto(r: &mut Rng, big: usize) -> usize {
    if r.pct(50) {
        r.range(2, big)
    } else {
        r.range(big / 2, big)
    }
}
/// Notations for a node that displays one child, perhaps in some context.
fn around(r: &mut Rng, cfg: &Cfg, x: Ast) -> Ast {
    let l = r.below(NUM_LABELS) as Label;
    let c = r.below(NUM_CONDS) as Cond;
    match r.below(14) {
        0 => indent(&gen_indent_str(r, cfg.alpha), if r.pct(50) { Some(l) } else { None }, cat(Ast::Newline, x)),
        1 => indent(&gen_indent_str(r, cfg.alpha), if r.pct(50) { Some(l) } else { None }, x),
        2 => style(l, x),
        3 => cats(vec![lit(&gen_str(r, cfg.alpha)), x, lit(&gen_str(r, cfg.alpha))]),
        4 => cats(vec![lit("("), or(Ast::Empty, Ast::Newline), x, lit(")")]),
        5 => cat(x, or(lit(" "), Ast::Newline)),
        6 => cat(Ast::Empty, x),
        7 => check(c, Pos::Here, cat(lit("!"), x.clone()), x),
        8 => nest(r.range(0, 3), x),
        9 => cat(or(lit(&gen_str(r, cfg.alpha)), Ast::Newline), x),
        10 if r.pct(20) => flat(x),
        11 => or(flat(x.clone()), cat(Ast::Newline, x)),
        _ => x,
    }
}
fn deep_document(r: &mut Rng, cfg: &Cfg, big: usize) -> World {
    let depth = upto(r, big);
    let calm = r.pct(50);
    let mut asts = vec![Ast::Text];
    for _ in 0..r.range(1, 6) {
        let i = if r.pct(50) { 0 } else { -1 };
        let x = around(r, cfg, Ast::Child(i));
        asts.push(match r.below(6) {
            0 => fold(x, cats(vec![Ast::Left, or(lit(" "), Ast::Newline), Ast::Right])),
            1 => count(lit("0"), x, cats(vec![Ast::Child(0), Ast::Newline, Ast::Child(-1)])),
            2 if !calm => cats(vec![Ast::Mark, x, lit(";")]),
            3 => cats(vec![x, Ast::Mark]),
            _ => x,
        });
    }
    // For nodes with a text and a child
    let pairs = asts.len();
    for _ in 0..3 {
        let gap = match r.below(3) {
            0 => or(lit(" "), Ast::Newline),
            1 => Ast::Newline,
            _ => lit("."),
        };
        asts.push(match r.below(3) {
            0 => cats(vec![Ast::Child(0), gap, Ast::Child(1)]),
            1 => fold(Ast::Child(0), cats(vec![Ast::Left, gap, Ast::Right])),
            _ => cats(vec![Ast::Child(-2), around(r, cfg, Ast::Empty), gap, nest(1, Ast::Child(-1))]),
        });
    }
    let mut b = Builder::new();
    let t = gen_text(r, cfg.alpha);
    let mut n = b.add(r, Kind::Text(t), 0);
    for _ in 0..depth {
        n = if r.pct(80) {
            let note = r.range(1, pairs - 1);
            b.add(r, Kind::Kids(vec![n]), note)
        } else {
            let t = gen_text(r, cfg.alpha);
            let x = b.add(r, Kind::Text(t), 0);
            let note = r.range(pairs, asts.len() - 1);
            let kids = if r.pct(50) { vec![x, n] } else { vec![n, x] };
            b.add(r, Kind::Kids(kids), note)
        };
    }
    World::new(asts, b.nodes, n, r)
}
fn deep_notation(r: &mut Rng, cfg: &Cfg, big: usize) -> World {
    let depth = upto(r, big);
    let kids = r.range(0, 3);
    let mut a = match r.below(3) {
        _ if kids == 0 => lit("x"),
        0 => fold(Ast::Child(0), cats(vec![Ast::Left, or(lit(" "), Ast::Newline), Ast::Right])),
        _ => Ast::Child(r.below(kids) as isize),
    };
    // Only a few kinds of wrapper at a time, so that they get nested in each other.
    let kinds: Vec<usize> = (0..r.range(1, 3)).map(|_| r.below(9)).collect();
    for _ in 0..depth {
        let l = r.below(NUM_LABELS) as Label;
        let s = gen_str(r, cfg.alpha);
        a = match *r.pick(&kinds) {
            0 => indent(&gen_indent_str(r, cfg.alpha), if r.pct(50) { Some(l) } else { None }, a),
            1 => style(l, a),
            2 => cat(lit(&s), a),
            3 => cat(a, lit(&s)),
            4 => or(a, Ast::Newline),
            5 => or(lit(&s), a),
            6 => check(r.below(NUM_CONDS) as Cond, Pos::Here, a, lit(&s)),
            7 => cats(vec![lit("["), nest(1, a), Ast::Newline, lit("]")]),
            _ => {
                if r.pct(5) {
                    flat(a)
                } else {
                    cat(a, or(lit(&s), Ast::Newline))
                }
            }
        };
    }
    let mut b = Builder::new();
    let ks = (0..kids)
        .map(|_| {
            let t = gen_text(r, cfg.alpha);
            b.add(r, Kind::Text(t), 1)
        })
        .collect();
    let root = b.add(r, Kind::Kids(ks), 0);
    World::new(vec![a, cat(Ast::Text, or(Ast::Empty, Ast::Newline))], b.nodes, root, r)
}
/// A list, or a list of two lists, of up to 150000 short lines altogether.
pub fn tall_world(r: &mut Rng) -> World {
    let n = match r.below(4) {
        0 => r.range(10, 1000),
        1 => r.range(65530, 65545),
        2 => r.range(65536, 150_000),
        _ => r.range(30_000, 100_000),
    };
    let gap = if r.pct(80) { Ast::Newline } else { or(lit(" "), Ast::Newline) };
    let gap2 = if r.pct(50) { Ast::Newline } else { or(lit(","), Ast::Newline) };
    let list = |g: Ast| fold(Ast::Child(0), cats(vec![Ast::Left, g, Ast::Right]));
    let asts = vec![
        Ast::Text,
        list(gap.clone()),
        indent(r.pick(&["", " ", "| "]), Some(2), cat(Ast::Newline, list(gap2))),
        cats(vec![lit("{"), nest(1, list(gap)), lit("}")]),
    ];
    let mut b = Builder::new();
    let texts = |r: &mut Rng, b: &mut Builder, n: usize| -> Vec<u32> {
        (0..n)
            .map(|i| {
                let t = if i % 97 == 5 { gen_str(r, Alpha::Wide) } else { (i % 1000).to_string() };
                b.add(r, Kind::Text(t), 0)
            })
            .collect()
    };
    let note = r.range(1, 3);
    let root = if r.pct(40) {
        let k = r.range(1, n - 1);
        let (x, y) = (texts(r, &mut b, k), texts(r, &mut b, n - k));
        let (nx, ny) = (r.range(1, 3), r.range(1, 3));
        let v = vec![b.add(r, Kind::Kids(x), nx), b.add(r, Kind::Kids(y), ny)];
        b.add(r, Kind::Kids(v), note)
    } else {
        let x = texts(r, &mut b, n);
        b.add(r, Kind::Kids(x), note)
    };
    World::new(asts, b.nodes, root, r)
}
/// A number next to one at which a machine integer would wrap.
pub fn boundary(r: &mut Rng, big: bool) -> usize {
    let base = if big { *r.pick(&[32768, 65536, 65536, 65536, 131072]) } else { *r.pick(&[128, 256, 256, 512, 1024]) };
    base + r.below(7) - 3
}
/// Nodes with about as many children (or a text with about as many characters) as fit in a byte or
/// two, displayed by every notation that counts them, among ordinary siblings.
pub fn boundary_world(r: &mut Rng, big: bool) -> World {
    let n = if big && r.pct(70) { boundary(r, true) } else { boundary(r, false) };
    let alpha = *r.pick(&[Alpha::Plain, Alpha::Plain, Alpha::Wide]);
    let c = r.below(NUM_CONDS) as Cond;
    // Which children to display by number
    let at = |r: &mut Rng| -> isize {
        let i = match r.below(6) {
            0 => 0,
            1 => n - 1,
            2 => r.below(n),
            _ => {
                let large = big && r.pct(80);
                boundary(r, large).min(n - 1)
            }
        };
        if r.pct(50) { i as isize } else { i as isize - n as isize }
    };
    let gap = match r.below(4) {
        0 => lit(","),
        1 => or(lit(" "), Ast::Newline),
        _ => Ast::Newline,
    };
    let join = match r.below(4) {
        0 => cats(vec![Ast::Left, check(c, Pos::RightChild, lit("+"), Ast::Empty), gap.clone(), Ast::Right]),
        1 => cats(vec![Ast::Left, check(c, Pos::LeftChild, lit("-"), Ast::Empty), gap.clone(), Ast::Right]),
        _ => cats(vec![Ast::Left, gap.clone(), Ast::Right]),
    };
    let list = fold(Ast::Child(0), join);
    let some: Vec<Ast> = (0..r.range(1, 5))
        .flat_map(|_| {
            let x = Ast::Child(at(r));
            let x = if r.pct(40) { check(c, Pos::Child(at(r)), x, lit("!")) } else { x };
            vec![x, gap.clone()]
        })
        .collect();
    let one = cats(vec![lit("one "), Ast::Child(0)]);
    let many = match r.below(3) {
        0 => cats(vec![lit("many"), gap.clone(), Ast::Child(at(r))]),
        1 => list.clone(),
        _ => cats(some.clone()),
    };
    let asts = vec![
        /* 0 */ Ast::Text,
        /* 1 */ list.clone(),
        /* 2 */ count(lit("none"), one.clone(), many),
        /* 3 */ cats(some),
        /* 4 */ nest(1, list),
        // what is around it
        /* 5 */ fold(Ast::Child(0), cats(vec![Ast::Left, or(lit(" "), Ast::Newline), Ast::Right])),
        /* 6 */ cats(vec![Ast::Child(0), gap, Ast::Child(1), lit(";"), Ast::Child(-1)]),
        /* 7 */ count(lit("()"), lit("1"), cats(vec![Ast::Child(-1), Ast::Newline, Ast::Child(1), Ast::Newline, Ast::Child(0)])),
        /* 8 */ count(lit("[]"), one, lit("more")),
        /* 9 */ cats(vec![lit("'"), style(1, Ast::Text), Ast::Mark, lit("'")]),
    ];
    let mut b = Builder::new();
    let leaf = |r: &mut Rng, b: &mut Builder| {
        let note = *r.pick(&[0, 0, 0, 9]);
        let t = gen_str(r, alpha);
        b.add(r, Kind::Text(t), note)
    };
    let long = if r.pct(30) {
        let unit = *r.pick(&["abcdefg", "x", "一二三", "e\u{301}o"]);
        let t: String = unit.chars().cycle().take(n).collect();
        let note = *r.pick(&[0, 9]);
        b.add(r, Kind::Text(t), note)
    } else {
        let kids: Vec<u32> = (0..n)
            .map(|i| match i % 331 {
                7 => {
                    let k = r.below(3);
                    let ks = (0..k).map(|_| leaf(r, &mut b)).collect();
                    b.add(r, Kind::Kids(ks), 8)
                }
                _ if r.pct(80) => b.add(r, Kind::Text((i % 1000).to_string()), 0),
                _ => leaf(r, &mut b),
            })
            .collect();
        let note = r.range(1, 4);
        b.add(r, Kind::Kids(kids), note)
    };
    let root = if r.pct(30) {
        long
    } else {
        let k = r.range(2, 4);
        let place = r.below(k);
        let ks: Vec<u32> = (0..k).map(|i| if i == place { long } else { leaf(r, &mut b) }).collect();
        let note = r.range(5, 7);
        b.add(r, Kind::Kids(ks), note)
    };
    World::new(asts, b.nodes, root, r)
}
fn broad_document(r: &mut Rng, cfg: &Cfg, big: usize) -> World {
    let n = upto(r, big).max(3);
    let gap = match r.below(4) {
        0 => Ast::Newline,
        1 => lit(","),
        _ => or(lit(" "), Ast::Newline),
    };
    let c = r.below(NUM_CONDS) as Cond;
    let some = |r: &mut Rng| {
        let i = r.below(n) as isize;
        if r.pct(50) { i } else { i - n as isize }
    };
    let join = match r.below(5) {
        0 => cats(vec![Ast::Left, check(c, Pos::LeftChild, lit(";"), Ast::Empty), gap, Ast::Right]),
        1 => cats(vec![Ast::Left, gap, check(c, Pos::RightChild, lit("+"), Ast::Empty), style(1, Ast::Right)]),
        2 => cats(vec![Ast::Left, check(c, Pos::RightChild, cat(gap, Ast::Right), Ast::Empty)]),
        3 => cats(vec![Ast::Left, or(flat(cat(lit(" "), Ast::Right)), cat(Ast::Newline, Ast::Right))]),
        _ => cats(vec![Ast::Left, gap, Ast::Right]),
    };
    let list = fold(Ast::Child(0), join);
    let list = match r.below(4) {
        0 => count(lit("[]"), Ast::Child(0), nest(2, list)),
        1 => indent("| ", Some(2), list),
        2 => cats(vec![style(3, Ast::Child(some(r))), or(lit(" "), Ast::Newline), list]),
        _ => list,
    };
    let picks: Vec<Ast> = (0..r.range(1, 6))
        .flat_map(|_| {
            let x = Ast::Child(some(r));
            let x = if r.pct(40) { check(c, Pos::Child(some(r)), x, lit("-")) } else { x };
            vec![x, or(lit(" "), Ast::Newline)]
        })
        .collect();
    let asts = vec![
        Ast::Text,
        list,
        cats(picks),
        cats(vec![lit("<"), or(Ast::Child(0), Ast::Newline), lit(">")]),
    ];
    let mut b = Builder::new();
    let kids = (0..n)
        .map(|_| {
            let t = gen_str(r, cfg.alpha);
            let t = b.add(r, Kind::Text(t), 0);
            if r.pct(10) {
                b.add(r, Kind::Kids(vec![t]), 3)
            } else {
                t
            }
        })
        .collect();
    let note = if r.pct(70) { 1 } else { 2 };
    let root = b.add(r, Kind::Kids(kids), note);
    World::new(asts, b.nodes, root, r)
}
fn many_pieces(r: &mut Rng, cfg: &Cfg, big: usize) -> World {
    let n = upto(r, big);
    let kids = r.range(1, 4);
    let rare = r.pct(50);
    let mut marked = false;
    let mut xs: Vec<Ast> = (0..n)
        .map(|_| match r.below(if rare { 40 } else { 12 }) {
            0 => or(lit(" "), Ast::Newline),
            1 => Ast::Newline,
            2 => Ast::Child(r.below(kids) as isize),
            3 if !marked => {
                marked = true;
                Ast::Mark
            }
            4 => Ast::Empty,
            5 => or(flat(cat(lit(","), Ast::Child(0))), cat(Ast::Newline, lit(","))),
            6 => style(r.below(NUM_LABELS) as Label, lit(&gen_str(r, cfg.alpha))),
            7 => indent("  ", None, or(lit(""), Ast::Newline)),
            _ => lit(&gen_str(r, cfg.alpha)),
        })
        .collect();
    // Put together from the left, from the right, or evenly.
    let way = r.below(3);
    while xs.len() > 1 {
        match way {
            0 => xs = vec![xs.into_iter().reduce(cat).unwrap()],
            1 => xs = vec![xs.into_iter().rev().reduce(|a, b| cat(b, a)).unwrap()],
            _ => {
                let mut ys = vec![];
                let mut it = xs.into_iter();
                while let Some(a) = it.next() {
                    ys.push(match it.next() {
                        Some(b) => cat(a, b),
                        None => a,
                    });
                }
                xs = ys;
            }
        }
    }
    let a = xs.pop().unwrap();
    let a = if r.pct(30) { or(a, lit("second")) } else { a };
    let mut b = Builder::new();
    let ks = (0..kids)
        .map(|_| {
            let t = gen_text(r, cfg.alpha);
            b.add(r, Kind::Text(t), 1)
        })
        .collect();
    let root = b.add(r, Kind::Kids(ks), 0);
    World::new(vec![a, Ast::Text], b.nodes, root, r)
}

/// A world of either kind, not absurdly big when displayed.
pub fn any_world(r: &mut Rng, size: usize) -> World {
    if size >= 8 && r.pct(2) {
        loop {
            let big = if r.pct(80) { 60 } else { 200 };
            let w = extreme_world(r, big);
            if expansion(&w) <= MAX_EXPANSION {
                return w;
            }
        }
    }
    let mut size = size;
    loop {
        let w = some_world(r, size);
        if expansion(&w) <= MAX_EXPANSION {
            return w;
        }
        size = size / 2 + 1;
    }
}

fn some_world(r: &mut Rng, size: usize) -> World {
    let n = 1 + r.below(size.max(1));
    if r.pct(50) {
        let mut cfg = Cfg::any(r);
        if r.pct(20) {
            cfg.eols = true;
        }
        random_world(r, &cfg, n)
    } else {
        let g = GCfg {
            alpha: gen_alpha(r),
            comments: r.pct(60),
            hide: r.pct(60),
            marks: true,
        };
        grammar_world(r, &g, n)
    }
}

/// A printing width that matters for this document: near the width of one of its lines.
pub fn gen_width(r: &mut Rng, w: &World) -> u16 {
    // Each choice may look a whole line ahead.
    let lines_of_choices = w.nodes.len() > 3000 && w.asts.iter().any(|a| a.has(|x| matches!(x, Ast::Choice(..))));
    let width = some_width(r, w, lines_of_choices);
    if lines_of_choices && width > 300 {
        r.range(20, 300) as u16
    } else {
        width
    }
}
fn some_width(r: &mut Rng, w: &World, narrow: bool) -> u16 {
    match r.below(10) {
        0 => r.below(6) as u16,
        1 => r.range(0, 40) as u16,
        2 => *r.pick(&[0u16, 1, 20, 40, 80, 120, 1000, 65534]),
        _ => {
            let base = *r.pick(&[if narrow { 100 } else { 65534u64 }, 80, 40, 20, 10]);
            let ly = Model::new(w, base).layout(false);
            let ws = ly.widths();
            let max = *ws.iter().max().unwrap();
            let around = if r.pct(40) { max } else { *r.pick(&ws) };
            let around = if r.pct(50) {
                // look again at the width just found
                let ly = Model::new(w, around.saturating_sub(1).min(if narrow { 300 } else { 65534 })).layout(false);
                let ws = ly.widths();
                *r.pick(&ws)
            } else {
                around
            };
            let d = r.below(3) as u64;
            (around + d).saturating_sub(1).min(65534) as u16
        }
    }
}

/// A path (mostly a displayed one) in this document.
pub fn gen_path(r: &mut Rng, w: &World, wild: bool) -> Vec<usize> {
    let stop = if r.pct(75) { 15 } else { 1 };
    let ends = r.pct(20);
    let mut path = vec![];
    let mut n = w.root;
    loop {
        let kids = w.kids(n);
        if wild && r.pct(8) {
            path.push(match r.below(8) {
                // ones that would be right if they wrapped
                0 => r.below(kids.len().max(1)) + *r.pick(&[1 << 8, 1 << 16, 1 << 32, 1 << 63]),
                1 => usize::MAX - r.below(3),
                _ => r.below(kids.len() + 3),
            });
            if path[path.len() - 1] >= kids.len() {
                if r.pct(20) {
                    path.push(r.below(3));
                }
                return path;
            }
            n = kids[path[path.len() - 1]];
            continue;
        }
        if kids.is_empty() || r.pct(stop) {
            return path;
        }
        let i = if ends && kids.len() > 4 {
            // near the ends, and near where a number would wrap
            let big = kids.len() > 32768;
            match r.below(4) {
                0 => r.below(3),
                1 => kids.len() - 1 - r.below(3),
                _ => boundary(r, big).min(kids.len() - 1),
            }
        } else {
            r.below(kids.len())
        };
        path.push(i);
        n = kids[i];
    }
}
