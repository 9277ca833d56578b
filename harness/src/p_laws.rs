//! C27 (constructors and operators) and C28 (equivalent notations print the same).
use crate::gen::*;
use crate::harness::*;
use crate::model::*;
use crate::obs::*;
use crate::p_core::{contexts, err_text, text_len};
use crate::p_notation::back;
use crate::rng::{mix, Rng};
use crate::valid::flaws;
use crate::world::*;
use partial_pretty_printer as ppp;
use ppp::notation_constructors as nc;
use ppp::{pretty_print_to_string, CheckPos, FocusTarget, Notation, PrintingError, Width};

macro_rules! bail { ($($t:tt)*) => { return Err(format!($($t)*)) } }

// --- C27 ---------------------------------------------------------------------------------------

fn odd_str(r: &mut Rng) -> String {
    match r.below(10) {
        0 => String::new(),
        1 => " ".repeat(r.below(300)),
        2 => "\u{0}\n\t\r\u{1f}\\\"'".into(),
        3 => "  padded  ".into(),
        4 => "x".repeat(r.below(3000)),
        _ => gen_str(r, Alpha::Full),
    }
}
fn odd_index(r: &mut Rng) -> isize {
    match r.below(6) {
        0 => *r.pick(&[isize::MAX, isize::MIN, -1, 0]),
        1 => r.u64() as isize,
        _ => r.below(9) as isize - 4,
    }
}
fn odd_label(r: &mut Rng) -> Label {
    *r.pick(&[0, 1, 2, 77, u32::MAX, u32::MAX - 1])
}

/// A notation and, built in step with it, what it should be.
fn construct(r: &mut Rng, n: usize) -> (Note, Ast) {
    if n <= 1 {
        return match r.below(9) {
            0 => (nc::empty(), Ast::Empty),
            1 => (nc::nl(), Ast::Newline),
            2 => (nc::eol(), Ast::Eol),
            3 => (nc::text(), Ast::Text),
            4 => (nc::mark(), Ast::Mark),
            5 => (nc::left(), Ast::Left),
            6 => (nc::right(), Ast::Right),
            7 => {
                let s = odd_str(r);
                (nc::lit(&s), Ast::Lit(s))
            }
            _ => {
                let i = odd_index(r);
                (nc::child(i), Ast::Child(i))
            }
        };
    }
    let m = n - 1;
    let k = 1 + r.below(m.max(2) - 1);
    match r.below(13) {
        0 => {
            let (x, a) = construct(r, m);
            (nc::flat(x), flat(a))
        }
        1 => {
            let (x, a) = construct(r, m);
            let (s, l) = (odd_str(r), if r.pct(50) { Some(odd_label(r)) } else { None });
            (nc::indent(&s, l, x), indent(&s, l, a))
        }
        2 => {
            let (x, a) = construct(r, m);
            let l = odd_label(r);
            (nc::style(l, x), style(l, a))
        }
        3 | 4 => {
            let w: Width = match r.below(6) {
                0 => r.below(70) as Width,
                1 => *r.pick(&[0, 255, 256, 257, 1000, 32767, 32768, 65535]),
                _ => r.below(9) as Width,
            };
            let (x, a) = construct(r, m);
            (w >> x, indent(&" ".repeat(w as usize), None, cat(Ast::Newline, a)))
        }
        5 | 6 => {
            let ((x, a), (y, b)) = (construct(r, k), construct(r, m - k));
            (x + y, cat(a, b))
        }
        7 | 8 => {
            let ((x, a), (y, b)) = (construct(r, k), construct(r, m - k));
            (x ^ y, cat(cat(a, Ast::Newline), b))
        }
        9 => {
            let ((x, a), (y, b)) = (construct(r, k), construct(r, m - k));
            (x | y, or(a, b))
        }
        10 => {
            let ((x, a), (y, b)) = (construct(r, k), construct(r, m - k));
            let (c, i) = (r.below(256) as u8, odd_index(r));
            let (p, q) = match r.below(4) {
                0 => (CheckPos::Here, Pos::Here),
                1 => (CheckPos::Child(i), Pos::Child(i)),
                2 => (CheckPos::LeftChild, Pos::LeftChild),
                _ => (CheckPos::RightChild, Pos::RightChild),
            };
            (nc::check(c, p, x, y), check(c, q, a, b))
        }
        11 => {
            let ((x, a), (y, b), (z, c)) = (construct(r, k), construct(r, k), construct(r, m - k));
            let parts = nc::Count { zero: x, one: y, many: z };
            (nc::count(parts), count(a, b, c))
        }
        _ => {
            let ((x, a), (y, b)) = (construct(r, k), construct(r, m - k));
            (nc::fold(nc::Fold { first: x, join: y }), fold(a, b))
        }
    }
}

/// The concatenations may be grouped either way: both `(x + nl) + y` and `x + (nl + y)` are what
/// `x ^ y` is documented to stand for.
fn leaning_left(a: &Ast) -> Ast {
    fn parts(a: &Ast, out: &mut Vec<Ast>) {
        match a {
            Ast::Concat(x, y) => {
                parts(x, out);
                parts(y, out);
            }
            _ => out.push(leaning_left(a)),
        }
    }
    match a {
        Ast::Concat(..) => {
            let mut v = vec![];
            parts(a, &mut v);
            cats(v)
        }
        Ast::Flat(x) => flat(leaning_left(x)),
        Ast::Indent(s, l, x) => indent(s, *l, leaning_left(x)),
        Ast::Style(l, x) => style(*l, leaning_left(x)),
        Ast::Choice(x, y) => or(leaning_left(x), leaning_left(y)),
        Ast::Check(c, p, x, y) => check(*c, *p, leaning_left(x), leaning_left(y)),
        Ast::Count(x, y, z) => count(leaning_left(x), leaning_left(y), leaning_left(z)),
        Ast::Fold(x, y) => fold(leaning_left(x), leaning_left(y)),
        _ => a.clone(),
    }
}

fn c27_build(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let n = 1 + r.below(ctx.size);
    let (note, want) = construct(r, n);
    let got = back(&note);
    if leaning_left(&got) != leaning_left(&want) {
        bail!("constructors and operators meant to build\n{}\nbuild\n{}", want, got);
    }
    ctx.bump("notations_built");
    ctx.add("parts_built", want.size() as u64);
    if want.size() > 3 {
        ctx.nontrivial(crate::rng::hash_str(&want.to_string()));
    }
    // A clone is the same notation, and a validated notation shows itself as what it was.
    let copy = note.clone();
    if back(&copy) != got {
        bail!("the clone of\n{}\nis\n{}", got, back(&copy));
    }
    let shown = note.to_string();
    match note.clone().validate() {
        Ok(v) => {
            ctx.bump("validated");
            if v.to_string() != shown {
                bail!("the notation {} shows itself, once validated, as {}", shown, v);
            }
            if v.clone().to_string() != shown {
                bail!("the clone of the validated notation {} is {}", shown, v.clone());
            }
        }
        Err(_) => ctx.bump("rejected"),
    }
    ctx.sample(|| format!("built {}", want));
    Ok(())
}

/// The operators bind as Rust's do, so that e.g. `a ^ b | c` is what it looks like.
fn c27_mixed(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let (a, b, c) = (odd_str(r), odd_str(r), odd_str(r));
    let (x, y, z) = (|| nc::lit::<Label, Cond>(&a), || nc::lit::<Label, Cond>(&b), || nc::lit::<Label, Cond>(&c));
    let (p, q, s) = (|| lit(&a), || lit(&b), || lit(&c));
    let w = r.below(400) as Width;
    let ind = |t: Ast| indent(&" ".repeat(w as usize), None, cat(Ast::Newline, t));
    let hat = |t: Ast, u: Ast| cats(vec![t, Ast::Newline, u]);
    let table: Vec<(&str, Note, Ast)> = vec![
        ("a + b | c", x() + y() | z(), or(cat(p(), q()), s())),
        ("a | b + c", x() | y() + z(), or(p(), cat(q(), s()))),
        ("a ^ b | c", x() ^ y() | z(), or(hat(p(), q()), s())),
        ("a ^ b + c", x() ^ y() + z(), hat(p(), cat(q(), s()))),
        ("a + b ^ c", x() + y() ^ z(), hat(cat(p(), q()), s())),
        ("a ^ b ^ c", x() ^ y() ^ z(), cats(vec![p(), Ast::Newline, q(), Ast::Newline, s()])),
        ("w >> a ^ b", w >> x() ^ y(), hat(ind(p()), q())),
        ("w >> a + b", w >> x() + y(), ind(cat(p(), q()))),
        ("w >> (a ^ b)", w >> (x() ^ y()), ind(hat(p(), q()))),
        ("a + (w >> b) | c", x() + (w >> y()) | z(), or(cat(p(), ind(q())), s())),
        ("a | b | c", x() | y() | z(), or(or(p(), q()), s())),
        ("w >> (w >> a)", w >> (w >> x()), ind(ind(p()))),
    ];
    for (name, got, want) in table {
        if leaning_left(&back(&got)) != leaning_left(&want) {
            bail!("{} (with w = {}) builds\n{}\ninstead of\n{}", name, w, back(&got), want);
        }
        ctx.bump("expressions_built");
    }
    ctx.nontrivial(mix(w as u64) ^ crate::rng::hash_str(&a));
    Ok(())
}

// --- C28 ---------------------------------------------------------------------------------------

/// What is known of the node that a notation belongs to.
struct Env<'a> {
    w: &'a World,
    node: u32,
    /// May the text be written out (which changes what there is to focus on)?
    text: bool,
}

/// Does this display neither newlines nor choices, whatever the document?
fn straight(a: &Ast) -> bool {
    match a {
        Ast::Empty | Ast::Lit(_) | Ast::Text | Ast::Mark | Ast::Eol => true,
        Ast::Style(_, x) | Ast::Flat(x) | Ast::Indent(_, _, x) => straight(x),
        Ast::Concat(x, y) => straight(x) && straight(y),
        _ => false,
    }
}
/// Does this certainly display no newline?
fn one_line(a: &Ast) -> bool {
    !a.has(|x| matches!(x, Ast::Newline | Ast::Child(_) | Ast::Left | Ast::Right | Ast::Fold(..)))
}
fn additive(s: &str, at: usize) -> bool {
    disp_width(&s[..at]) + disp_width(&s[at..]) == disp_width(s)
}
fn has_fold(a: &Ast) -> bool {
    a.has(|x| matches!(x, Ast::Fold(..)))
}

/// The join of a fold, written out for its `i`th child.
fn unfold(join: &Ast, acc: &Ast, i: isize) -> Ast {
    let go = |x: &Ast| unfold(x, acc, i);
    match join {
        Ast::Left => acc.clone(),
        Ast::Right => Ast::Child(i),
        Ast::Flat(x) => flat(go(x)),
        Ast::Indent(s, l, x) => indent(s, *l, go(x)),
        Ast::Style(l, x) => style(*l, go(x)),
        Ast::Concat(x, y) => cat(go(x), go(y)),
        Ast::Choice(x, y) => or(go(x), go(y)),
        Ast::Check(c, Pos::LeftChild, x, y) => check(*c, Pos::Child(i - 1), go(x), go(y)),
        Ast::Check(c, Pos::RightChild, x, y) => check(*c, Pos::Child(i), go(x), go(y)),
        Ast::Check(c, p, x, y) => check(*c, *p, go(x), go(y)),
        Ast::Count(x, y, z) => count(go(x), go(y), go(z)),
        x => x.clone(),
    }
}

/// Rules that apply to anything.
const ANYWHERE: &[&str] = &["a=empty+a", "a=a+empty", "indent by nothing", "equal options", "equal cases", "trivial flat"];
const RULES: &[&str] = &[
    "empty+a=a", "a+empty=a", "regroup concat left", "regroup concat right",
    "flat over concat", "flat over indent", "flat over style", "flat over check", "flat over count", "flat of choice",
    "flat of flat", "flat of a plain part", "flat over fold", "double a flat", "style over concat", "style over choice", "style of nothing",
    "style over check", "style over flat", "style over indent", "indent over concat", "indent over choice",
    "indent of one line", "indent over check", "merge indents", "split an indent", "drop empty indent",
    "split a literal", "merge literals", "choice after straight", "choice before anything", "factor choice",
    "choice between equals", "check between equals", "check over concat", "count between equals",
    "count resolved", "check resolved", "negative index", "index from the end", "fold resolved", "text written out",
    "flat choice", "choice regrouped",
];

/// Rewrite this part of a notation by this rule, if it applies.
fn apply(rule: &str, a: &Ast, e: &Env, r: &mut Rng) -> Option<Ast> {
    use Ast::*;
    let dup = |x: &Ast| x.clone();
    Some(match (rule, a) {
        ("empty+a=a", Concat(x, y)) if **x == Empty => dup(y),
        ("a+empty=a", Concat(x, y)) if **y == Empty => dup(x),
        ("a=empty+a", _) => cat(Empty, dup(a)),
        ("a=a+empty", _) => cat(dup(a), Empty),
        ("regroup concat left", Concat(x, yz)) => match &**yz {
            Concat(y, z) => cat(cat(dup(x), dup(y)), dup(z)),
            _ => return None,
        },
        ("regroup concat right", Concat(xy, z)) => match &**xy {
            Concat(x, y) => cat(dup(x), cat(dup(y), dup(z))),
            _ => return None,
        },
        // flat: pick the first option of every choice
        ("flat over concat", Flat(b)) => match &**b {
            Concat(x, y) => cat(flat(dup(x)), flat(dup(y))),
            _ => return None,
        },
        ("flat over indent", Flat(b)) => match &**b {
            Indent(s, l, x) => indent(s, *l, flat(dup(x))),
            _ => return None,
        },
        ("flat over style", Flat(b)) => match &**b {
            Style(l, x) => style(*l, flat(dup(x))),
            _ => return None,
        },
        ("flat over check", Flat(b)) => match &**b {
            Check(c, p, x, y) => check(*c, *p, flat(dup(x)), flat(dup(y))),
            _ => return None,
        },
        ("flat over count", Flat(b)) => match &**b {
            Count(x, y, z) => count(flat(dup(x)), flat(dup(y)), flat(dup(z))),
            _ => return None,
        },
        ("flat over fold", Flat(b)) => match &**b {
            Fold(x, y) => fold(flat(dup(x)), flat(dup(y))),
            _ => return None,
        },
        ("flat of choice", Flat(b)) => match &**b {
            Choice(x, _) => flat(dup(x)),
            _ => return None,
        },
        ("flat of flat", Flat(b)) if matches!(**b, Flat(_)) => dup(b),
        ("double a flat", Flat(_)) => flat(dup(a)),
        ("flat of a plain part", Flat(b)) if matches!(**b, Empty | Newline | Eol | Lit(_) | Text | Mark) => dup(b),
        ("trivial flat", Empty | Newline | Eol | Lit(_) | Text | Mark) => flat(dup(a)),
        ("flat choice", Flat(b)) => flat(or(dup(b), lit("never"))),
        // styles and indentation apply to everything inside, piece by piece
        ("style over concat", Style(l, b)) => match &**b {
            Concat(x, y) => cat(style(*l, dup(x)), style(*l, dup(y))),
            _ => return None,
        },
        ("style over choice", Style(l, b)) => match &**b {
            Choice(x, y) => or(style(*l, dup(x)), style(*l, dup(y))),
            _ => return None,
        },
        ("style over check", Style(l, b)) => match &**b {
            Check(c, p, x, y) => check(*c, *p, style(*l, dup(x)), style(*l, dup(y))),
            _ => return None,
        },
        ("style over flat", Style(l, b)) => match &**b {
            Flat(x) => flat(style(*l, dup(x))),
            _ => return None,
        },
        ("style over indent", Style(l, b)) => match &**b {
            // (an indentation string is styled, too)
            Indent(s, k, x) if one_line(x) => indent(s, *k, style(*l, dup(x))),
            _ => return None,
        },
        ("style of nothing", Style(_, b)) if matches!(**b, Empty | Newline | Eol | Mark) => dup(b),
        ("indent over concat", Indent(s, l, b)) => match &**b {
            Concat(x, y) => cat(indent(s, *l, dup(x)), indent(s, *l, dup(y))),
            _ => return None,
        },
        ("indent over choice", Indent(s, l, b)) => match &**b {
            Choice(x, y) => or(indent(s, *l, dup(x)), indent(s, *l, dup(y))),
            _ => return None,
        },
        ("indent over check", Indent(s, l, b)) => match &**b {
            Check(c, p, x, y) => check(*c, *p, indent(s, *l, dup(x)), indent(s, *l, dup(y))),
            _ => return None,
        },
        ("indent of one line", Indent(_, _, b)) if one_line(b) => dup(b),
        ("merge indents", Indent(s, None, b)) => match &**b {
            Indent(t, None, x) => {
                let u = s.clone() + t;
                if !additive(&u, s.len()) {
                    return None;
                }
                indent(&u, None, dup(x))
            }
            _ => return None,
        },
        ("split an indent", Indent(s, None, x)) => {
            let at = s.char_indices().map(|c| c.0).nth(r.below(s.chars().count().max(1)))?;
            if !additive(s, at) {
                return None;
            }
            indent(&s[..at], None, indent(&s[at..], None, dup(x)))
        }
        ("indent by nothing", _) => indent("", None, dup(a)),
        ("drop empty indent", Indent(s, None, x)) if s.is_empty() => dup(x),
        ("split a literal", Lit(s)) => {
            let at = s.char_indices().map(|c| c.0).nth(r.below(s.chars().count().max(1)))?;
            if at == 0 || !additive(s, at) {
                return None;
            }
            cat(lit(&s[..at]), lit(&s[at..]))
        }
        ("merge literals", Concat(x, y)) => match (&**x, &**y) {
            (Lit(s), Lit(t)) => {
                let u = s.clone() + t;
                if !additive(&u, s.len()) {
                    return None;
                }
                lit(&u)
            }
            _ => return None,
        },
        // a choice takes the whole first line into account
        ("choice after straight", Concat(c, b)) if straight(c) => match &**b {
            Choice(x, y) => or(cat(dup(c), dup(x)), cat(dup(c), dup(y))),
            _ => return None,
        },
        ("choice before anything", Concat(b, c)) => match &**b {
            Choice(x, y) => or(cat(dup(x), dup(c)), cat(dup(y), dup(c))),
            _ => return None,
        },
        ("factor choice", Choice(x, y)) => match (&**x, &**y) {
            (Concat(p, c), Concat(q, d)) if c == d => cat(or(dup(p), dup(q)), dup(c)),
            _ => return None,
        },
        ("choice regrouped", Choice(x, y)) => match &**y {
            // if x fits, it is taken; and if y fits but x does not, then x | y is y.
            _ if r.pct(50) => or(dup(x), or(dup(x), dup(y))),
            Choice(p, q) if p == x => or(dup(x), dup(q)),
            _ => return None,
        },
        ("choice between equals", Choice(x, y)) if x == y => dup(x),
        ("equal options", _) => or(dup(a), dup(a)),
        ("check between equals", Check(_, _, x, y)) if x == y => dup(x),
        ("equal cases", _) => check(r.below(NUM_CONDS) as u8, Pos::Here, dup(a), dup(a)),
        ("check over concat", Concat(x, b)) => match &**b {
            Check(c, p, y, z) => check(*c, *p, cat(dup(x), dup(y)), cat(dup(x), dup(z))),
            _ => return None,
        },
        ("count between equals", Count(x, y, z)) if x == y && y == z => dup(x),
        // what is known of the node
        ("count resolved", Count(x, y, z)) => match e.w.num_children(e.node)? {
            0 => dup(x),
            1 => dup(y),
            _ => dup(z),
        },
        ("check resolved", Check(c, p, x, y)) => {
            let n = match p {
                Pos::Here => e.node,
                Pos::Child(i) => {
                    let kids = e.w.kids(e.node);
                    let i = if *i < 0 { *i + kids.len() as isize } else { *i };
                    *kids.get(usize::try_from(i).ok()?)?
                }
                _ => return None,
            };
            if e.w.nodes[n as usize].conds & (1 << c) != 0 {
                dup(x)
            } else {
                dup(y)
            }
        }
        ("negative index", Child(i)) if *i < 0 => Child(*i + e.w.num_children(e.node)? as isize),
        ("index from the end", Child(i)) if *i >= 0 => Child(*i - e.w.num_children(e.node)? as isize),
        ("fold resolved", Fold(f, j)) if !has_fold(f) && !has_fold(j) => {
            let k = e.w.num_children(e.node)?;
            if k == 0 {
                return Some(Empty);
            }
            let mut acc = dup(f);
            for i in 1..k {
                acc = unfold(j, &acc, i as isize);
                if acc.size() > 300 {
                    return None;
                }
            }
            acc
        }
        ("text written out", Text) if e.text => match &e.w.nodes[e.node as usize].kind {
            Kind::Text(t) => lit(t),
            _ => return None,
        },
        _ => return None,
    })
}

/// Rewrite the `at`th part of a notation. (None: the rule does not apply there.)
fn rewrite(a: &Ast, at: &mut usize, rule: &str, e: &Env, r: &mut Rng) -> Option<Ast> {
    if *at == 0 {
        *at = usize::MAX;
        return apply(rule, a, e, r);
    }
    *at -= 1;
    let mut go = |x: &Ast| -> Option<Ast> {
        if *at == usize::MAX {
            Some(x.clone())
        } else {
            rewrite(x, at, rule, e, r)
        }
    };
    Some(match a {
        Ast::Flat(x) => flat(go(x)?),
        Ast::Indent(s, l, x) => indent(s, *l, go(x)?),
        Ast::Style(l, x) => style(*l, go(x)?),
        Ast::Concat(x, y) => cat(go(x)?, go(y)?),
        Ast::Choice(x, y) => or(go(x)?, go(y)?),
        Ast::Check(c, p, x, y) => check(*c, *p, go(x)?, go(y)?),
        Ast::Count(x, y, z) => count(go(x)?, go(y)?, go(z)?),
        Ast::Fold(x, y) => fold(go(x)?, go(y)?),
        x => x.clone(),
    })
}

fn outcome(w: &World, width: Width, path: &[usize], t: FocusTarget) -> Result<Obs, PErr> {
    let mon = Monitor::new();
    observe(DocO::root(w, &mon), width, path, t, None)
}
fn show(o: &Result<Obs, PErr>) -> String {
    match o {
        Err(e) => format!("fails: {}\n", err_text(e)),
        Ok(o) => format!("{}focus at {:?}, errors {:?} {:?}\n", show_lines(&o.all_text()), o.at(), o.up_err.as_ref().map(err_text), o.down_err.as_ref().map(err_text)),
    }
}
fn fails(o: &Result<Obs, PErr>) -> bool {
    !matches!(o, Ok(o) if o.clean())
}
/// The same printout, as far as one can see? Text after an end-of-line makes printing fail, but how
/// much is delivered first depends on which lines are needed to resolve the choices in others.
fn same(a: &Result<Obs, PErr>, b: &Result<Obs, PErr>) -> bool {
    let after_eol = |o: &Result<Obs, PErr>| match o {
        Err(e) => matches!(e, PrintingError::TextAfterEndOfLine),
        Ok(o) => [&o.up_err, &o.down_err].into_iter().any(|e| matches!(e, Some(PrintingError::TextAfterEndOfLine))),
    };
    if after_eol(a) || after_eol(b) {
        return fails(a) && fails(b);
    }
    match (a, b) {
        (Err(x), Err(y)) => err_text(x) == err_text(y),
        (Ok(x), Ok(y)) => {
            x.at() == y.at()
                && x.up_err.as_ref().map(err_text) == y.up_err.as_ref().map(err_text)
                && x.down_err.as_ref().map(err_text) == y.down_err.as_ref().map(err_text)
                && x.all_runs() == y.all_runs()
        }
        _ => false,
    }
}

fn compare_worlds(w1: &World, w2: &World, remap: &dyn Fn(&[usize]) -> Vec<usize>, text: bool, what: &str, r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    for _ in 0..3 {
        let width = gen_width(r, w1);
        let ly = Model::new(w1, width as u64).layout(false);
        if ly.stop == Stop::TooBig {
            ctx.bump("skipped_too_big");
            continue;
        }
        let mut paths = ly.displayed_paths(400);
        r.shuffle(&mut paths);
        paths.truncate(4);
        paths.push(vec![]);
        paths.push(gen_path(r, w1, true));
        for p in &paths {
            let mut ts = vec![*r.pick(&[FocusTarget::Start, FocusTarget::End])];
            if r.pct(40) {
                ts.push(FocusTarget::Mark);
            }
            if text && r.pct(40) {
                ts.push(FocusTarget::Text(r.below(text_len(w1, p) + 2)));
            }
            for t in ts {
                let a = outcome(w1, width, p, t);
                let q = remap(p);
                let b = outcome(w2, width, &q, t);
                ctx.bump("printouts_compared");
                match &a {
                    Ok(o) if !o.clean() => ctx.bump("printouts_with_errors"),
                    Ok(o) => {
                        if o.up.len() + o.down.len() > 1 {
                            ctx.bump("printouts_of_several_lines");
                            ctx.nontrivial(mix(w1.fingerprint()) ^ mix(w2.fingerprint()) ^ width as u64);
                        }
                    }
                    Err(PrintingError::InvalidPath(_)) => {
                        ctx.bump("invalid_paths");
                    }
                    Err(_) => ctx.bump("failures"),
                }
                if !same(&a, &b) {
                    bail!(
                        "equivalent notations print differently ({})\none:\n{}the other:\n{}one: {}\nthe other: {}",
                        what, show(&a), show(&b), contexts(w1, width, p, &t), contexts(w2, width, &q, &t)
                    );
                }
            }
        }
        let (m1, m2) = (Monitor::new(), Monitor::new());
        let a = pretty_print_to_string(DocO::root(w1, &m1), width).map_err(|e| err_text(&e));
        let b = pretty_print_to_string(DocO::root(w2, &m2), width).map_err(|e| err_text(&e));
        if a != b {
            bail!("equivalent notations print differently, to strings ({})\none: {:?}\nthe other: {:?}\n{}\n{}", what, a, b, contexts(w1, width, &[], &FocusTarget::Start), w2.describe());
        }
    }
    Ok(())
}

/// The same document, but with a notation of its own for every node.
fn unshared(w: &World) -> (Vec<Ast>, Vec<Node>) {
    let asts = (0..w.nodes.len()).map(|n| w.ast(n as u32).clone()).collect();
    let mut nodes = w.nodes.clone();
    for (i, n) in nodes.iter_mut().enumerate() {
        n.note = i;
    }
    (asts, nodes)
}

fn c28_rewrite(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let w = any_world(r, ctx.size);
    ctx.note = w.describe();
    let (mut asts, nodes) = unshared(&w);
    let text = r.pct(50);
    let steps = 1 + r.below(12);
    let mut done: Vec<String> = vec![];
    // which nodes are displayed
    for _ in 0..steps {
        let anywhere = r.pct(20);
        'step: for _ in 0..200 {
            let n = r.below(asts.len());
            let rule = *r.pick(if anywhere { ANYWHERE } else { RULES });
            let mut at = r.below(asts[n].size());
            let e = Env { w: &w, node: n as u32, text };
            if let Some(b) = rewrite(&asts[n], &mut at, rule, &e, r) {
                if b.size() > 400 || b == asts[n] || !flaws(&b).is_empty() {
                    continue 'step;
                }
                asts[n] = b;
                ctx.bump(&format!("rule: {}", rule));
                done.push(format!("{} in node #{}", rule, n));
                break 'step;
            }
        }
    }
    if done.is_empty() {
        return Ok(());
    }
    let w2 = World::new(asts, nodes, w.root, r);
    if expansion(&w2) > 4 * MAX_EXPANSION {
        ctx.bump("skipped_too_big");
        return Ok(());
    }
    ctx.bump("documents_rewritten");
    compare_worlds(&w, &w2, &|p| p.to_vec(), !text, &done.join("; "), r, ctx)?;
    ctx.sample(|| format!("{}\n{}\nprints the same as\n{}", done.join("; "), w.describe(), w2.describe()));
    Ok(())
}

/// A node that displays nothing but its only child makes no difference, but for paths.
fn c28_wrap(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let w = any_world(r, ctx.size);
    ctx.note = w.describe();
    let mut asts = w.asts.clone();
    let mut nodes = w.nodes.clone();
    let wrapper = asts.len();
    asts.push(Ast::Child(r.below(2) as isize - 1));
    let mut root = w.root;
    let mut wrapped = vec![false; nodes.len()];
    for _ in 0..1 + r.below(3) {
        let n = r.below(w.nodes.len());
        if wrapped[n] {
            continue;
        }
        wrapped[n] = true;
        let m = nodes.len() as u32;
        let conds = nodes[n].conds;
        nodes.push(Node { id: 0x77_0000 + m as u64, kind: Kind::Kids(vec![n as u32]), note: wrapper, conds, styled: false, cond_ok: 0 });
        for i in 0..w.nodes.len() {
            if let Kind::Kids(k) = &mut nodes[i].kind {
                for x in k.iter_mut().filter(|x| **x == n as u32) {
                    *x = m;
                }
            }
        }
        if root == n as u32 {
            root = m;
        }
    }
    let w2 = World::new(asts, nodes, root, r);
    let remap = |p: &[usize]| {
        let mut out = vec![];
        let mut n = Some(w.root);
        let enter = |n: Option<u32>, out: &mut Vec<usize>| {
            if n.map(|n| wrapped[n as usize]).unwrap_or(false) {
                out.push(0);
            }
        };
        enter(n, &mut out);
        for i in p {
            out.push(*i);
            n = n.and_then(|n| w.kids(n).get(*i).copied());
            enter(n, &mut out);
        }
        out
    };
    ctx.bump("documents_wrapped");
    compare_worlds(&w, &w2, &remap, true, "nodes wrapped in nodes that display just them", r, ctx)
}

/// With room for everything, a choice is as good as its first option.
fn c28_roomy(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let w = any_world(r, ctx.size);
    ctx.note = w.describe();
    fn longest(w: &World) -> u64 {
        let mut m = 1;
        for n in &w.nodes {
            if let Kind::Text(t) = &n.kind {
                m = m.max(disp_width(t));
            }
        }
        for a in &w.asts {
            a.for_each(&mut |x| match x {
                Ast::Lit(s) | Ast::Indent(s, _, _) => m = m.max(disp_width(s)),
                _ => (),
            });
        }
        m
    }
    // (bounds the width of anything that is tried, for indentation is at most as deep as the
    // number of things displayed)
    if w.asts.iter().any(|a| a.has(|x| *x == Ast::Eol)) || expansion(&w) * longest(&w) * 2 > 65_000 {
        ctx.bump("skipped_too_wide");
        return Ok(());
    }
    fn firsts(a: &Ast) -> Ast {
        match a {
            Ast::Choice(x, _) => firsts(x),
            Ast::Flat(x) => flat(firsts(x)),
            Ast::Indent(s, l, x) => indent(s, *l, firsts(x)),
            Ast::Style(l, x) => style(*l, firsts(x)),
            Ast::Concat(x, y) => cat(firsts(x), firsts(y)),
            Ast::Check(c, p, x, y) => check(*c, *p, firsts(x), firsts(y)),
            Ast::Count(x, y, z) => count(firsts(x), firsts(y), firsts(z)),
            Ast::Fold(x, y) => fold(firsts(x), firsts(y)),
            x => x.clone(),
        }
    }
    let asts: Vec<Ast> = w.asts.iter().map(firsts).collect();
    let w2 = World::new(asts, w.nodes.clone(), w.root, r);
    for width in [65_000, 65_534] {
        let a = outcome(&w, width, &[], FocusTarget::Start);
        let b = outcome(&w2, width, &[], FocusTarget::Start);
        ctx.bump("roomy_printouts_compared");
        if !same(&a, &b) {
            bail!("with room for everything, not every choice is its first option, at width {}\nchoices:\n{}first options:\n{}{}", width, show(&a), show(&b), w.describe());
        }
    }
    Ok(())
}

/// In a flat region, or with choices resolved already, the width makes no difference.
fn c28_rigid(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let w = any_world(r, ctx.size);
    ctx.note = w.describe();
    let mut asts = w.asts.clone();
    let mut nodes = w.nodes.clone();
    asts.push(flat(Ast::Child(0)));
    let top = nodes.len() as u32;
    nodes.push(Node { id: 5, kind: Kind::Kids(vec![w.root]), note: asts.len() - 1, conds: 0, styled: false, cond_ok: 0 });
    let w2 = World::new(asts, nodes, top, r);
    let first = outcome(&w2, 40, &[], FocusTarget::Start);
    for _ in 0..3 {
        let width = if r.pct(50) { gen_width(r, &w) } else { r.below(30) as Width };
        let a = outcome(&w2, width, &[], FocusTarget::Start);
        ctx.bump("flat_printouts_compared");
        if !same(&a, &first) {
            bail!("the width makes a difference to a flat document: at width 40\n{}at width {}\n{}{}", show(&first), width, show(&a), w2.describe());
        }
    }
    Ok(())
}

// --- C29 ---------------------------------------------------------------------------------------

/// What a notation is to look like: a sign for its kind around those of its parts.
fn looks(n: &Note) -> String {
    let mut out = String::new();
    fn go(n: &Note, out: &mut String) {
        macro_rules! put { ($($x:expr),*) => {{ $( put1($x, out); )* }} }
        enum P<'a> {
            S(&'a str),
            D(String),
            N(&'a Note),
        }
        use P::*;
        fn put1(p: P, out: &mut String) {
            match p {
                S(s) => out.push_str(s),
                D(s) => out.push_str(&s),
                N(n) => go(n, out),
            }
        }
        match n {
            Notation::Empty => put!(S("ε")),
            Notation::Newline => put!(S("↵")),
            Notation::EndOfLine => put!(S("EOL")),
            Notation::FocusMark => put!(S("MARK")),
            Notation::Text => put!(S("TEXT")),
            Notation::Left => put!(S("$Left")),
            Notation::Right => put!(S("$Right")),
            Notation::Literal(s) => put!(S("'"), S(s), S("'")),
            Notation::Flat(x) => put!(S("Flat("), N(x), S(")")),
            Notation::Indent(s, _, x) => put!(S("'"), S(s), S("'⇒("), N(x), S(")")),
            Notation::Concat(x, y) => put!(N(x), S(" + "), N(y)),
            Notation::Choice(x, y) => put!(S("("), N(x), S(" | "), N(y), S(")")),
            Notation::Check(c, p, x, y) => put!(S("("), D(format!("{:?}", c)), S("@"), D(format!("{:?}", p)), S(" ? "), N(x), S(" | "), N(y), S(")")),
            Notation::Child(i) => put!(S("$"), D(i.to_string())),
            Notation::Style(l, x) => put!(S("Style("), D(format!("{:?}", l)), S(", "), N(x), S(")")),
            Notation::Count { zero, one, many } => put!(S("Count(zero="), N(zero), S(", one="), N(one), S(", many="), N(many), S(")")),
            Notation::Fold { first, join } => put!(S("Fold(first="), N(first), S(", join="), N(join), S(")")),
        }
    }
    go(n, &mut out);
    out
}

fn c29_notations(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let n = 1 + r.below(ctx.size);
    let (note, ast) = construct(r, n);
    let (shown, want) = (note.to_string(), looks(&note));
    if shown != want {
        bail!("the notation\n{}\nis displayed as\n{}\ninstead of\n{}", ast, shown, want);
    }
    let room = r.below(want.len() + 2);
    ctx.add("writers_without_room", short_of_room(&note, &want, room)? as u64);
    ctx.bump("notations_displayed");
    ast.for_each(&mut |x| {
        let d = format!("{:?}", x);
        ctx.bump(&format!("kind_{}", d.split(|c: char| !c.is_alphanumeric()).next().unwrap()));
    });
    match note.clone().validate() {
        Ok(v) => {
            if v.to_string() != want {
                bail!("the valid notation\n{}\nis displayed as\n{}\ninstead of\n{}", ast, v, want);
            }
            ctx.add("writers_without_room", short_of_room(&v, &want, room)? as u64);
            ctx.bump("valid_notations_displayed");
        }
        Err(e) => {
            // The message of the error names the index that the error carries.
            let (msg, dbg) = (e.to_string(), format!("{:?}", e));
            if let Some(i) = dbg.find('(') {
                let index = dbg[i + 1..].trim_end_matches(')');
                if !numbers(&msg).iter().any(|x| x == index) {
                    bail!("the message of {} is {:?}", dbg, msg);
                }
                ctx.bump("indices_in_messages");
            }
            if msg.is_empty() || e.clone().to_string() != msg {
                bail!("the message of {} is {:?}, and that of its clone {:?}", dbg, msg, e.clone().to_string());
            }
            ctx.bump("validation_messages");
        }
    }
    if ast.size() > 3 {
        ctx.nontrivial(crate::rng::hash_str(&want));
    }
    Ok(())
}

/// The whole numbers in a message.
fn numbers(s: &str) -> Vec<String> {
    let cs: Vec<char> = s.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < cs.len() {
        if cs[i].is_ascii_digit() {
            let mut j = i;
            while j < cs.len() && cs[j].is_ascii_digit() {
                j += 1;
            }
            let minus = i > 0 && cs[i - 1] == '-';
            out.push(format!("{}{}", if minus { "-" } else { "" }, cs[i..j].iter().collect::<String>()));
            i = j;
        } else {
            i += 1;
        }
    }
    out
}

/// Positions and sizes: arithmetic, order, hashes and text.
fn c29_geometry(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    use std::collections::{BTreeSet, HashSet};
    use std::hash::{Hash, Hasher};
    fn hash<T: Hash>(x: &T) -> u64 {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        x.hash(&mut h);
        h.finish()
    }
    let row = |r: &mut Rng| -> u32 {
        match r.below(4) {
            0 => r.below(5) as u32,
            1 => *r.pick(&[0, 255, 256, 65535, 65536, u32::MAX / 2 - 1]),
            _ => r.below(u32::MAX as usize / 2) as u32,
        }
    };
    let col = |r: &mut Rng| -> Width {
        match r.below(4) {
            0 => r.below(5) as Width,
            1 => *r.pick(&[0, 127, 128, 255, 256, 32766]),
            _ => r.below(32767) as Width,
        }
    };
    let mut all = vec![];
    for _ in 0..6 {
        let (a, b, h, w) = (row(r), col(r), row(r), col(r));
        let p = ppp::Pos { row: a, col: b };
        let s = ppp::Size { width: w, height: h };
        ctx.bump("positions");
        let sum = p + s;
        if sum != (ppp::Pos { row: a + h, col: b + w }) {
            bail!("{:?} + {:?} = {:?}", p, s, sum);
        }
        if ppp::Pos::zero() + s != (ppp::Pos { row: h, col: w }) || p + (ppp::Size { width: 0, height: 0 }) != p {
            bail!("{:?} and {:?}: zero is not neutral ({:?})", p, s, ppp::Pos::zero());
        }
        if p.to_string() != format!("{}:{}", a, b) || s.to_string() != format!("{}:{}", h, w) {
            bail!("{:?} is displayed as {}, and {:?} as {}", p, p, s, s);
        }
        let room = r.below(12);
        short_of_room(&p, &p.to_string(), room)?;
        short_of_room(&s, &s.to_string(), room)?;
        all.push(p);
        all.push(sum);
        all.push(ppp::Pos { row: a, col: w });
    }
    for p in &all {
        for q in &all {
            let want = (p.row, p.col).cmp(&(q.row, q.col));
            if p.cmp(q) != want || p.partial_cmp(q) != Some(want) || (p == q) != (want == std::cmp::Ordering::Equal) || (p == q && hash(p) != hash(q)) {
                bail!("{:?} compared with {:?}: {:?}, equal: {}", p, q, p.cmp(q), p == q);
            }
            ctx.bump("positions_compared");
            let (s, t) = (ppp::Size { width: p.col, height: p.row }, ppp::Size { width: q.col, height: q.row });
            let same = s.width == t.width && s.height == t.height;
            if (s == t) != same || (s.cmp(&t) == std::cmp::Ordering::Equal) != same || s.cmp(&t) != t.cmp(&s).reverse() || (same && hash(&s) != hash(&t)) {
                bail!("{:?} compared with {:?}: {:?}, equal: {}", s, t, s.cmp(&t), s == t);
            }
        }
    }
    let (hs, bs): (HashSet<_>, BTreeSet<_>) = (all.iter().copied().collect(), all.iter().copied().collect());
    let rows: BTreeSet<_> = all.iter().map(|p| (p.row, p.col)).collect();
    if hs.len() != rows.len() || bs.iter().map(|p| (p.row, p.col)).ne(rows.iter().copied()) {
        bail!("collections of {:?} hold {:?} and {:?}", all, hs, bs);
    }
    ctx.nontrivial(mix(hash(&all)));
    Ok(())
}

/// Printing and pane errors, as they come out of printing: what they say, and what lies behind.
fn c29_errors(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    use crate::p_pane::WinErr;
    use ppp::pane::PaneError;
    use std::error::Error;
    #[derive(Debug, Clone, PartialEq)]
    struct Behind(u64);
    impl std::fmt::Display for Behind {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            write!(f, "fault<{}>", self.0)
        }
    }
    impl Error for Behind {}
    type E = PrintingError<Behind>;
    let (i, n, k) = (odd_index(r), r.below(99_000), r.u64());
    let all: Vec<(E, Vec<String>)> = vec![
        (PrintingError::InvalidPath(n), vec![n.to_string()]),
        (PrintingError::TextNotationOnTextlessDoc, vec![]),
        (PrintingError::ChildIndexOutOfBounds { index: i, len: n }, vec![i.to_string(), n.to_string()]),
        (PrintingError::ChildNotationOnChildlessDoc, vec![]),
        (PrintingError::CheckPosChildIndexOutOfBounds { index: i, len: n }, vec![i.to_string(), n.to_string()]),
        (PrintingError::CheckPosChildOnChildlessDoc, vec![]),
        (PrintingError::CountNotationOnChildlessDoc, vec![]),
        (PrintingError::NumChildrenChanged, vec![]),
        (PrintingError::TextAfterEndOfLine, vec![]),
        (PrintingError::MissingFocusMark, vec![]),
        (PrintingError::MissingText, vec![]),
        (PrintingError::from(Behind(k)), vec![k.to_string()]),
    ];
    let mut messages = std::collections::BTreeSet::new();
    for (e, want) in &all {
        // The message is about this error, and not about its sibling.
        let low = e.to_string().to_lowercase();
        let (says, not): (&[&str], &str) = match e {
            PrintingError::InvalidPath(_) => (&["path"], "notation"),
            PrintingError::TextNotationOnTextlessDoc => (&["text"], "child"),
            PrintingError::ChildIndexOutOfBounds { .. } => (&["child"], "check"),
            PrintingError::ChildNotationOnChildlessDoc => (&["child"], "check"),
            PrintingError::CheckPosChildIndexOutOfBounds { .. } => (&["check", "child"], "path"),
            PrintingError::CheckPosChildOnChildlessDoc => (&["check", "child"], "path"),
            PrintingError::CountNotationOnChildlessDoc => (&["count"], "check"),
            PrintingError::NumChildrenChanged => (&["child"], "notation"),
            PrintingError::TextAfterEndOfLine => (&["text", "line"], "mark"),
            PrintingError::MissingFocusMark => (&["mark"], "text"),
            PrintingError::MissingText => (&["text"], "mark"),
            PrintingError::PrettyDoc(_) => (&[], "notation"),
        };
        if says.iter().any(|w| !low.contains(w)) || low.contains(not) {
            bail!("the message of {:?} is {:?}", e, e.to_string());
        }
        let msg = e.to_string();
        let said = numbers(&msg);
        if want.iter().any(|w| !said.contains(w)) || e.clone().to_string() != msg {
            bail!("the message of {:?} is {:?}", e, msg);
        }
        if !messages.insert(msg.clone()) {
            bail!("the message of {:?} is that of another error: {:?}", e, msg);
        }
        short_of_room(e, &msg, r.below(msg.len() + 2))?;
        let behind = e.source().and_then(|s| s.downcast_ref::<Behind>());
        let is_doc = matches!(e, PrintingError::PrettyDoc(_));
        if behind != if is_doc { Some(Behind(k)) } else { None }.as_ref() || is_doc && !msg.contains(&Behind(k).to_string()) {
            bail!("behind {:?} is {:?}; its message is {:?}", e, behind, msg);
        }
        // In a pane
        let pane: PaneError<WinErr, Behind> = e.clone().into();
        let inner = pane.source().and_then(|s| s.downcast_ref::<E>()).map(|s| format!("{:?}", s));
        if !matches!(&pane, PaneError::PrintingError(_)) || inner != Some(format!("{:?}", e)) || !pane.to_string().contains(&msg) {
            bail!("behind {:?} is {:?}; its message is {:?}", pane, inner, pane.to_string());
        }
        ctx.bump("errors_displayed");
    }
    let win: PaneError<WinErr, Behind> = PaneError::PrettyWindowError(WinErr(k));
    let inner = win.source().and_then(|s| s.downcast_ref::<WinErr>()).map(|w| w.0);
    if inner != Some(k) || !win.to_string().contains(&WinErr(k).to_string()) {
        bail!("behind {:?} is {:?}; its message is {:?}", win, inner, win.to_string());
    }
    let dynamic: PaneError<WinErr, Behind> = PaneError::InvalidUseOfDynamic;
    if dynamic.source().is_some() || messages.contains(&dynamic.to_string()) {
        bail!("{:?}: {}", dynamic, dynamic);
    }
    ctx.nontrivial(mix(k));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C27",
            rule: "a notation of more than three parts built, or a set of mixed expressions",
            workloads: vec![
                W { name: "build", f: c27_build, quick: 60_000, thorough: 2_000_000, max_size: 40 },
                W { name: "mixed", f: c27_mixed, quick: 10_000, thorough: 200_000, max_size: 10 },
            ],
            required: vec!["notations_built", "expressions_built", "validated", "rejected"],
            assumptions: vec!["sums are compared up to the grouping of their parts, which makes no difference to what they mean"],
        },
        Prop {
            id: "C28",
            rule: "a printout of several lines compared, per pair of documents and width",
            workloads: vec![
                W { name: "rewrite", f: c28_rewrite, quick: 20_000, thorough: 600_000, max_size: 60 },
                W { name: "wrap", f: c28_wrap, quick: 5_000, thorough: 150_000, max_size: 60 },
                W { name: "roomy", f: c28_roomy, quick: 4_000, thorough: 100_000, max_size: 40 },
                W { name: "rigid", f: c28_rigid, quick: 4_000, thorough: 100_000, max_size: 60 },
            ],
            required: vec![
                "documents_rewritten", "documents_wrapped", "roomy_printouts_compared", "flat_printouts_compared", "printouts_compared",
                "printouts_of_several_lines", "printouts_with_errors", "failures", "invalid_paths",
            ],
            assumptions: vec![
                "literals and indentation strings are split only where the widths of the halves add up",
                "rewritings that make a notation invalid, or more than 400 parts big, are not tried",
            ],
        },
        Prop {
            id: "C29",
            rule: "a notation of more than three parts, a set of positions, or all errors with fresh numbers",
            workloads: vec![
                W { name: "notations", f: c29_notations, quick: 60_000, thorough: 2_000_000, max_size: 40 },
                W { name: "geometry", f: c29_geometry, quick: 20_000, thorough: 600_000, max_size: 10 },
                W { name: "errors", f: c29_errors, quick: 20_000, thorough: 600_000, max_size: 10 },
            ],
            required: vec!["writers_without_room", "notations_displayed", "valid_notations_displayed", "validation_messages", "indices_in_messages", "positions_compared", "errors_displayed"],
            assumptions: vec!["the wording of errors is free, but for the numbers and the inner message in it"],
        },
    ]
}
