//! C08 (validation) and C22 (serialization).
use crate::gen::*;
use crate::harness::*;
use crate::model::{Model, Stop};
use crate::obs::*;
use crate::p_core::{err_text, gen_target, text_len};
use crate::rng::{hash_str, Rng};
use crate::valid::{flaws, Flaw};
use crate::world::*;
use partial_pretty_printer as ppp;
use ppp::{pretty_print_to_string, CheckPos, Notation, NotationError, PrintingError};
use serde::{de::DeserializeOwned, Serialize};
use std::collections::HashMap;

macro_rules! bail { ($($t:tt)*) => { return Err(format!($($t)*)) } }

// --- notations of every kind, flawed or not ----------------------------------------------------

/// How likely the generator is to respect the rules.
#[derive(Clone, Copy)]
struct Wild {
    /// Percentage of choices made without regard to the rules.
    rude: usize,
    /// Few kinds of leaves, so that the same few situations are combined in many ways.
    focus: u8,
}

fn small_index(r: &mut Rng) -> isize {
    *r.pick(&[0, 0, -1, 1, -2, 2, 5, -7, 40, 200, -300, isize::MAX, isize::MIN, isize::MIN + 1])
}

fn wild_str(r: &mut Rng) -> String {
    match r.below(12) {
        0 => String::new(),
        1 => " ".repeat(r.below(5)),
        2 => "\u{0}\u{1f}\\\"'".into(),
        3 => "// ".into(),
        _ => gen_str(r, Alpha::Full),
    }
}

fn wild_label(r: &mut Rng) -> Label {
    match r.below(6) {
        0 => u32::MAX,
        1 => r.u64() as u32,
        _ => r.below(4) as u32,
    }
}

fn wild_leaf(r: &mut Rng, wd: Wild) -> Ast {
    if wd.focus == 1 {
        // end-of-line markers and what follows
        return match r.below(8) {
            0..=2 => Ast::Eol,
            3 => Ast::Newline,
            4 => lit(""),
            5 => lit("x"),
            6 => Ast::Empty,
            _ => Ast::Child(0),
        };
    }
    if wd.focus == 2 {
        return match r.below(7) {
            0..=2 => Ast::Mark,
            3 => Ast::Empty,
            4 => lit("x"),
            5 => Ast::Eol,
            _ => Ast::Newline,
        };
    }
    match r.below(16) {
        0 => Ast::Empty,
        1 | 2 => Ast::Newline,
        3 | 4 => Ast::Eol,
        5 | 6 => Ast::Lit(wild_str(r)),
        7 => Ast::Text,
        8 => Ast::Mark,
        9 => Ast::Left,
        10 => Ast::Right,
        _ => Ast::Child(small_index(r)),
    }
}

fn wild_pos(r: &mut Rng) -> Pos {
    match r.below(8) {
        0 | 1 => Pos::Here,
        2 => Pos::LeftChild,
        3 => Pos::RightChild,
        _ => Pos::Child(small_index(r)),
    }
}

/// A notation with about `n` parts, of any kind whatsoever.
fn wild(r: &mut Rng, n: usize, wd: Wild) -> Ast {
    if n <= 1 {
        return wild_leaf(r, wd);
    }
    let m = n - 1;
    let cut = |r: &mut Rng| r.range(1, m.max(2) - 1);
    match r.below(22) {
        0 => flat(wild(r, m, wd)),
        1 => {
            let s = wild_str(r);
            let l = if r.pct(50) { Some(wild_label(r)) } else { None };
            indent(&s, l, wild(r, m, wd))
        }
        2 => style(wild_label(r), wild(r, m, wd)),
        3..=9 => {
            let k = cut(r);
            cat(wild(r, k, wd), wild(r, m - k.min(m), wd))
        }
        10..=13 => {
            let k = cut(r);
            or(wild(r, k, wd), wild(r, m - k.min(m), wd))
        }
        14..=16 => {
            let k = cut(r);
            check(r.u64() as u8, wild_pos(r), wild(r, k, wd), wild(r, m - k.min(m), wd))
        }
        17..=19 => {
            let k = m / 3 + 1;
            count(wild(r, k, wd), wild(r, k, wd), wild(r, k, wd))
        }
        _ => {
            let k = cut(r);
            fold(wild(r, k, wd), wild(r, m - k.min(m), wd))
        }
    }
}

/// Replace one part of a notation at random.
fn mutate(a: &Ast, at: usize, f: &mut dyn FnMut(&Ast) -> Ast) -> Ast {
    fn go(a: &Ast, i: &mut usize, f: &mut dyn FnMut(&Ast) -> Ast) -> Ast {
        if *i == 0 {
            *i = usize::MAX;
            return f(a);
        }
        if *i != usize::MAX {
            *i -= 1;
        }
        match a {
            Ast::Flat(x) => flat(go(x, i, f)),
            Ast::Indent(s, l, x) => indent(s, *l, go(x, i, f)),
            Ast::Style(l, x) => style(*l, go(x, i, f)),
            Ast::Concat(x, y) => {
                let x = go(x, i, f);
                cat(x, go(y, i, f))
            }
            Ast::Choice(x, y) => {
                let x = go(x, i, f);
                or(x, go(y, i, f))
            }
            Ast::Check(c, p, x, y) => {
                let x = go(x, i, f);
                check(*c, *p, x, go(y, i, f))
            }
            Ast::Fold(x, y) => {
                let x = go(x, i, f);
                fold(x, go(y, i, f))
            }
            Ast::Count(x, y, z) => {
                let x = go(x, i, f);
                let y = go(y, i, f);
                count(x, y, go(z, i, f))
            }
            leaf => leaf.clone(),
        }
    }
    let mut i = at;
    go(a, &mut i, f)
}

fn any_notation(r: &mut Rng, size: usize) -> Ast {
    let wd = Wild { rude: 50, focus: r.weighted(&[60, 20, 20]) as u8 };
    let _ = wd.rude;
    if r.pct(40) {
        let n = 1 + r.below(size.max(1));
        return wild(r, n, wd);
    }
    // A valid one, possibly with a few changes
    let mut cfg = Cfg::any(r);
    cfg.eols = true;
    let sort = match r.below(5) {
        0 => Sort::Text,
        1 => Sort::Fixed(r.below(4)),
        _ => Sort::Var,
    };
    let depth = r.range(1, 5);
    let mut a = gen_notation(r, &cfg, sort, depth);
    let edits = r.weighted(&[30, 40, 20, 10]);
    for _ in 0..edits {
        let n = a.size();
        let at = r.below(n);
        a = mutate(&a, at, &mut |old| match r.below(6) {
            0 => wild_leaf(r, wd),
            1 => cat(wild_leaf(r, wd), old.clone()),
            2 => cat(old.clone(), wild_leaf(r, wd)),
            3 => or(wild_leaf(r, wd), old.clone()),
            4 => or(old.clone(), wild_leaf(r, wd)),
            _ => {
                let n = r.range(1, 6);
                wild(r, n, wd)
            }
        });
    }
    a
}

// --- C08 ---------------------------------------------------------------------------------------

fn flaw_of(e: &NotationError) -> Flaw {
    use NotationError::*;
    match e {
        LeftOutsideJoin => Flaw::LeftOutside,
        RightOutsideJoin => Flaw::RightOutside,
        CheckPosLeftOutsideJoin => Flaw::CheckLeftOutside,
        CheckPosRightOutsideJoin => Flaw::CheckRightOutside,
        NestedFold => Flaw::NestedFold,
        NestedCount => Flaw::NestedCount,
        CountZeroChild => Flaw::ZeroChild,
        CountOneChildIndex(i) => Flaw::OneChild(*i),
        CountZeroCheckPosChild => Flaw::ZeroCheckChild,
        CountOneCheckPosChildIndex(i) => Flaw::OneCheckChild(*i),
        TextInsideCount => Flaw::TextInCount,
        TextInsideFold => Flaw::TextInFold,
        TextAfterEol => Flaw::TextAfterEol,
        MultipleFocusMarks => Flaw::MultipleMarks,
    }
}

/// The integers that occur in a message.
fn numbers(s: &str) -> Vec<String> {
    let mut out = vec![];
    let mut cur = String::new();
    for c in s.chars().chain(" ".chars()) {
        if c.is_ascii_digit() || (c == '-' && cur.is_empty()) {
            cur.push(c);
        } else {
            if !cur.is_empty() && cur != "-" {
                out.push(std::mem::take(&mut cur));
            }
            cur.clear();
        }
    }
    out
}

fn check_validation(a: &Ast, r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let want = flaws(a);
    let note = a.to_notation_mixed(r);
    let kept = note.clone();
    ctx.bump("notations");
    match note.validate() {
        Ok(v) => {
            if let Some(f) = want.iter().next() {
                bail!("validation accepted a notation with the flaw {:?} (all: {:?})\nnotation: {}", f, want, a);
            }
            ctx.bump("accepted");
            if v.to_string() != kept.to_string() || !format!("{:?}", v).contains(&format!("{:?}", kept)) {
                bail!("validation changed the notation\nbefore: {}\nafter:  {}", kept, v);
            }
            if a.size() >= 6 {
                ctx.nontrivial(hash_str(&a.to_string()));
            }
            let marks = { let mut n = 0; a.for_each(&mut |x| n += (*x == Ast::Mark) as u32); n };
            let eols = { let mut n = 0; a.for_each(&mut |x| n += (*x == Ast::Eol) as u32); n };
            if marks > 1 { ctx.bump("accepted_with_several_marks") }
            if eols > 0 { ctx.bump("accepted_with_eol") }
            if a.has(|x| matches!(x, Ast::Count(..))) { ctx.bump("accepted_with_count") }
            if a.has(|x| matches!(x, Ast::Fold(..))) { ctx.bump("accepted_with_fold") }
        }
        Err(e) => {
            let f = flaw_of(&e);
            if want.is_empty() {
                bail!("validation rejected a flawless notation with {:?}\nnotation: {}", e, a);
            }
            if !want.contains(&f) {
                bail!("validation reported {:?}, but the flaws of this notation are {:?}\nnotation: {}", e, want, a);
            }
            let kind = format!("{:?}", f);
            ctx.bump(&format!("rejected_{}", kind.split('(').next().unwrap()));
            if want.len() == 1 {
                ctx.bump("rejected_for_a_single_flaw");
            }
            let msg = e.to_string();
            match &f {
                Flaw::OneChild(i) | Flaw::OneCheckChild(i) => {
                    if numbers(&msg) != [i.to_string()] {
                        bail!("the message of {:?} does not tell the index {}: {:?}\nnotation: {}", e, i, msg, a);
                    }
                    ctx.bump("indices_in_messages");
                }
                _ => {
                    if msg.trim().is_empty() || !numbers(&msg).is_empty() {
                        bail!("the message of {:?} is {:?}", e, msg);
                    }
                }
            }
            // The message is about this flaw, and not about its sibling.
            let (says, not) = match &f {
                Flaw::LeftOutside | Flaw::CheckLeftOutside => ("left", "right"),
                Flaw::RightOutside | Flaw::CheckRightOutside => ("right", "left"),
                Flaw::NestedFold | Flaw::TextInFold => ("fold", "count"),
                Flaw::NestedCount | Flaw::TextInCount => ("count", "fold"),
                Flaw::ZeroChild | Flaw::ZeroCheckChild => ("zero", "count.one"),
                Flaw::OneChild(_) | Flaw::OneCheckChild(_) => ("one", "zero"),
                Flaw::TextAfterEol => ("text", "mark"),
                Flaw::MultipleMarks => ("mark", "text"),
            };
            let low = msg.to_lowercase();
            let checks = format!("{:?}", f).contains("Check");
            if !low.contains(says) || low.contains(not) || low.contains("check") != checks {
                bail!("the message of {:?} is {:?}", e, msg);
            }
            ctx.nontrivial(hash_str(&a.to_string()));
        }
    }
    Ok(())
}

fn c08_any(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    for _ in 0..20 {
        let a = any_notation(r, ctx.size);
        ctx.note = a.to_string();
        ctx.sample(|| a.to_string());
        check_validation(&a, r, ctx)?;
    }
    Ok(())
}

/// Tiny notations: with this few parts, most combinations come up.
fn c08_tiny(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    for _ in 0..100 {
        let n = r.range(1, 7);
        let wd = Wild { rude: 100, focus: r.below(3) as u8 };
        let a = wild(r, n, wd);
        ctx.note = a.to_string();
        check_validation(&a, r, ctx)?;
    }
    Ok(())
}

/// One flaw (or none), deep inside, in a context that matters.
fn c08_deep(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    for _ in 0..10 {
        let n = r.range(1, 4);
        let wd = Wild { rude: 100, focus: r.below(3) as u8 };
        let mut a = wild(r, n, wd);
        let layers = r.range(0, ctx.size);
        for _ in 0..layers {
            a = match r.below(10) {
                0 => flat(a),
                1 => style(0, a),
                2 => indent("  ", None, a),
                3 => cat(a, Ast::Newline),
                4 => cat(Ast::Newline, a),
                5 => or(a, Ast::Newline),
                6 => or(Ast::Newline, a),
                7 => {
                    let p = if r.pct(50) { Pos::Here } else { Pos::Child(0) };
                    check(1, p, a, Ast::Empty)
                }
                8 => match r.below(3) {
                    0 => count(a, Ast::Empty, Ast::Empty),
                    1 => count(Ast::Empty, a, Ast::Empty),
                    _ => count(Ast::Empty, Ast::Empty, a),
                },
                _ => match r.below(2) {
                    0 => fold(a, Ast::Left),
                    _ => fold(Ast::Child(0), a),
                },
            };
            if flaws(&a).len() > 2 {
                break;
            }
        }
        ctx.note = a.to_string();
        check_validation(&a, r, ctx)?;
        // The same between other things, at the same level
        let before = wild_leaf(r, wd);
        let after = wild_leaf(r, wd);
        let b = cats(vec![before, a, after]);
        ctx.note = b.to_string();
        check_validation(&b, r, ctx)?;
    }
    Ok(())
}

/// What validation promises: accepted notations with the end-of-line flaw excluded only fail with
/// TextAfterEndOfLine across node boundaries, i.e. never when no child follows the marker.
/// Here: documents of one node, whose accepted notation must print without that error.
fn c08_pays_off(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    for _ in 0..10 {
        let mut cfg = Cfg::any(r);
        cfg.eols = true;
        let text = r.pct(50);
        let depth = r.range(1, 6);
        let mut a = gen_notation(r, &cfg, if text { Sort::Text } else { Sort::Fixed(0) }, depth);
        // Some edits; whatever validation accepts is used.
        for _ in 0..r.below(3) {
            let at = r.below(a.size());
            let wd = Wild { rude: 100, focus: 1 };
            a = mutate(&a, at, &mut |old| cat(old.clone(), wild_leaf(r, wd)));
        }
        if a.has(|x| matches!(x, Ast::Child(_) | Ast::Left | Ast::Right | Ast::Fold(..) | Ast::Check(..) | Ast::Count(..))) {
            continue;
        }
        if a.to_notation().validate().is_err() {
            continue;
        }
        let mut b = Builder::new();
        let k = if text { Kind::Text("some text".into()) } else { Kind::Kids(vec![]) };
        let root = b.add(r, k, 0);
        let w = World::new(vec![a.clone()], b.nodes, root, r);
        let width = gen_width(r, &w);
        let mon = Monitor::new();
        ctx.note = w.describe();
        match pretty_print_to_string(DocD::root(&w, &mon), width) {
            Ok(_) => ctx.bump("accepted_notations_printed"),
            Err(PrintingError::TextAfterEndOfLine) => {
                bail!("an accepted notation, in a document of one node, printed text after an end-of-line marker at width {}\n{}", width, a)
            }
            Err(e) => bail!("an accepted notation, in a document of one node, failed: {}\n{}", err_text(&e), a),
        }
    }
    Ok(())
}

// --- C22 ---------------------------------------------------------------------------------------

pub fn back(n: &Note) -> Ast {
    match n {
        Notation::Empty => Ast::Empty,
        Notation::Newline => Ast::Newline,
        Notation::EndOfLine => Ast::Eol,
        Notation::Literal(s) => Ast::Lit(s.clone()),
        Notation::Text => Ast::Text,
        Notation::FocusMark => Ast::Mark,
        Notation::Left => Ast::Left,
        Notation::Right => Ast::Right,
        Notation::Child(i) => Ast::Child(*i),
        Notation::Flat(a) => flat(back(a)),
        Notation::Indent(s, l, a) => indent(s, *l, back(a)),
        Notation::Concat(a, b) => cat(back(a), back(b)),
        Notation::Choice(a, b) => or(back(a), back(b)),
        Notation::Check(c, p, a, b) => check(
            *c,
            match p {
                CheckPos::Here => Pos::Here,
                CheckPos::Child(i) => Pos::Child(*i),
                CheckPos::LeftChild => Pos::LeftChild,
                CheckPos::RightChild => Pos::RightChild,
            },
            back(a),
            back(b),
        ),
        Notation::Style(l, a) => style(*l, back(a)),
        Notation::Count { zero, one, many } => count(back(zero), back(one), back(many)),
        Notation::Fold { first, join } => fold(back(first), back(join)),
    }
}

/// All the ways we serialize, each as (name, data, what comes back).
fn trips<T: Serialize + DeserializeOwned>(n: &T) -> Result<Vec<(&'static str, Vec<u8>, T)>, String> {
    let mut out = vec![];
    let e = |k: &str, e: &dyn std::fmt::Display| format!("{} failed: {}", k, e);
    let text = serde_json::to_string(n).map_err(|x| e("serializing to JSON text", &x))?;
    // (serde_json gives up on deep nesting, by default)
    let mut de = serde_json::Deserializer::from_str(&text);
    de.disable_recursion_limit();
    let t = T::deserialize(&mut de).and_then(|t| de.end().map(|_| t));
    let t: T = t.map_err(|x| format!("{}\ndata: {}", e("deserializing JSON text", &x), text))?;
    out.push(("JSON text", text.into_bytes(), t));
    let val = serde_json::to_value(n).map_err(|x| e("serializing to a JSON value", &x))?;
    let data = val.to_string().into_bytes();
    let t: T = serde_json::from_value(val).map_err(|x| e("deserializing a JSON value", &x))?;
    out.push(("JSON value", data, t));
    let pretty = serde_json::to_vec_pretty(n).map_err(|x| e("serializing to pretty JSON", &x))?;
    let mut de = serde_json::Deserializer::from_reader(&pretty[..]);
    de.disable_recursion_limit();
    let t = T::deserialize(&mut de).and_then(|t| de.end().map(|_| t));
    let t: T = t.map_err(|x| e("deserializing from a reader", &x))?;
    out.push(("pretty JSON", pretty, t));
    let bin = bincode::serialize(n).map_err(|x| e("serializing to binary", &x))?;
    let t: T = bincode::deserialize(&bin).map_err(|x| e("deserializing binary", &x))?;
    out.push(("binary", bin, t));
    Ok(out)
}

fn validation_text(n: &Note) -> String {
    match n.clone().validate() {
        Ok(v) => format!("accepted {}", v),
        Err(e) => format!("rejected {:?}", e),
    }
}

/// A notation that differs from this one in one detail.
fn near(r: &mut Rng, a: &Ast) -> Ast {
    let at = r.below(a.size());
    mutate(a, at, &mut |old| match old {
        Ast::Empty => Ast::Text,
        Ast::Newline => Ast::Eol,
        Ast::Eol => Ast::Newline,
        Ast::Text => lit("Text"),
        Ast::Mark => lit("FocusMark"),
        Ast::Left => Ast::Right,
        Ast::Right => Ast::Left,
        Ast::Lit(s) => match r.below(3) {
            0 => Ast::Lit(format!("{}\u{301}", s)),
            1 => Ast::Lit(format!(" {}", s)),
            _ => Ast::Lit(format!("{} ", s)),
        },
        Ast::Child(i) => Ast::Child(if r.pct(50) { i.wrapping_neg().wrapping_sub((*i == 0) as isize) } else { i.wrapping_add(1) }),
        Ast::Flat(x) => match r.below(3) {
            0 => (**x).clone(),
            1 => style(0, (**x).clone()),
            _ => flat(old.clone()),
        },
        Ast::Indent(s, l, x) => match r.below(3) {
            0 => indent(&format!("{} ", s), *l, (**x).clone()),
            1 => indent(s, if l.is_some() { None } else { Some(0) }, (**x).clone()),
            _ => style(l.unwrap_or(0), (**x).clone()),
        },
        Ast::Style(l, x) => match r.below(2) {
            0 => style(l.wrapping_add(1), (**x).clone()),
            _ => indent("", Some(*l), (**x).clone()),
        },
        Ast::Concat(x, y) => match (r.below(3), &**x) {
            (0, _) if x != y => cat((**y).clone(), (**x).clone()),
            (1, Ast::Concat(p, q)) => cat((**p).clone(), cat((**q).clone(), (**y).clone())),
            _ => or((**x).clone(), (**y).clone()),
        },
        Ast::Choice(x, y) => match r.below(2) {
            0 if x != y => or((**y).clone(), (**x).clone()),
            _ => cat((**x).clone(), (**y).clone()),
        },
        Ast::Check(c, p, x, y) => match r.below(4) {
            0 if x != y => check(*c, *p, (**y).clone(), (**x).clone()),
            1 => check(c.wrapping_add(1), *p, (**x).clone(), (**y).clone()),
            _ => {
                let q = match p {
                    Pos::Here => Pos::LeftChild,
                    Pos::LeftChild => Pos::RightChild,
                    Pos::RightChild => Pos::Child(0),
                    Pos::Child(i) => {
                        if r.pct(50) {
                            Pos::Child(i.wrapping_add(1))
                        } else {
                            Pos::Here
                        }
                    }
                };
                check(*c, q, (**x).clone(), (**y).clone())
            }
        },
        Ast::Count(x, y, z) => {
            if x != y && r.pct(50) {
                count((**y).clone(), (**x).clone(), (**z).clone())
            } else if y != z {
                count((**x).clone(), (**z).clone(), (**y).clone())
            } else {
                fold((**x).clone(), (**y).clone())
            }
        }
        Ast::Fold(x, y) => {
            if x != y {
                fold((**y).clone(), (**x).clone())
            } else {
                cat((**x).clone(), (**y).clone())
            }
        }
    })
}

fn c22_structure(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let mut seen: HashMap<(&'static str, Vec<u8>), Ast> = HashMap::new();
    for _ in 0..6 {
        let a = any_notation(r, ctx.size);
        let mut all = vec![a.clone()];
        for _ in 0..3 {
            all.push(near(r, &a));
        }
        for a in all {
            ctx.note = a.to_string();
            ctx.sample(|| a.to_string());
            let n = a.to_notation_mixed(r);
            // What the operators build is their business: compare with the notation at hand.
            let a = back(&n);
            let before = validation_text(&n);
            let ts = match trips(&n) {
                Ok(t) => t,
                Err(e) => bail!("{}\nnotation: {}", e, a),
            };
            for (name, data, m) in ts {
                let b = back(&m);
                if b != a {
                    bail!("a notation changed on its way through {}\nbefore: {}\nafter:  {}", name, a, b);
                }
                let after = validation_text(&m);
                if before != after {
                    bail!("validation changed on the way through {}: {} vs {}\nnotation: {}", name, before, after, a);
                }
                ctx.bump("round_trips");
                match seen.get(&(name, data.clone())) {
                    Some(old) if *old != a => {
                        bail!("two different notations have the same data in {}\n{}\n{}", name, old, a)
                    }
                    Some(_) => (),
                    None => {
                        seen.insert((name, data), a.clone());
                        ctx.bump("distinct_data");
                    }
                }
            }
            a.for_each(&mut |x| {
                let d = format!("{:?}", x);
                let k = d.split(|c: char| !c.is_alphanumeric()).next().unwrap().to_owned();
                ctx.bump(&format!("variant_{}", k));
            });
            if a.size() >= 5 {
                ctx.nontrivial(hash_str(&a.to_string()));
            }
        }
    }
    Ok(())
}

/// Labels and conditions of other types.
fn c22_types(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    fn conv<L: ppp::StyleLabel, C: ppp::Condition>(a: &Ast, l: &dyn Fn(u32) -> L, c: &dyn Fn(u8) -> C) -> Notation<L, C> {
        let b = |x: &Ast| Box::new(conv(x, l, c));
        match a {
            Ast::Empty => Notation::Empty,
            Ast::Newline => Notation::Newline,
            Ast::Eol => Notation::EndOfLine,
            Ast::Lit(s) => Notation::Literal(s.clone()),
            Ast::Text => Notation::Text,
            Ast::Mark => Notation::FocusMark,
            Ast::Left => Notation::Left,
            Ast::Right => Notation::Right,
            Ast::Child(i) => Notation::Child(*i),
            Ast::Flat(x) => Notation::Flat(b(x)),
            Ast::Indent(s, k, x) => Notation::Indent(s.clone(), k.map(l), b(x)),
            Ast::Concat(x, y) => Notation::Concat(b(x), b(y)),
            Ast::Choice(x, y) => Notation::Choice(b(x), b(y)),
            Ast::Check(k, p, x, y) => Notation::Check(
                c(*k),
                match p {
                    Pos::Here => CheckPos::Here,
                    Pos::Child(i) => CheckPos::Child(*i),
                    Pos::LeftChild => CheckPos::LeftChild,
                    Pos::RightChild => CheckPos::RightChild,
                },
                b(x),
                b(y),
            ),
            Ast::Style(k, x) => Notation::Style(l(*k), b(x)),
            Ast::Count(x, y, z) => Notation::Count { zero: b(x), one: b(y), many: b(z) },
            Ast::Fold(x, y) => Notation::Fold { first: b(x), join: b(y) },
        }
    }
    #[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
    enum Lab {
        Unit,
        Named { name: String, level: i8 },
        Pair(u8, Vec<u32>),
    }
    fn go<L, C>(n: &Notation<L, C>, ctx: &mut Ctx) -> Verdict
    where
        L: ppp::StyleLabel + Serialize + DeserializeOwned,
        C: ppp::Condition + Serialize + DeserializeOwned,
    {
        for (name, _, m) in trips(n)? {
            if format!("{:?}", n) != format!("{:?}", m) {
                bail!("a notation changed on its way through {}\nbefore: {:?}\nafter:  {:?}", name, n, m);
            }
            ctx.bump("round_trips");
        }
        Ok(())
    }
    for _ in 0..4 {
        let a = any_notation(r, ctx.size);
        ctx.note = a.to_string();
        let lab = |l: u32| match l % 3 {
            0 => Lab::Unit,
            1 => Lab::Named { name: format!("é{}", l), level: -(l as i8 & 7) },
            _ => Lab::Pair(l as u8, vec![l; (l % 4) as usize]),
        };
        let res = match r.below(4) {
            0 => go(&conv(&a, &|l| l.to_string(), &|c| c.to_string()), ctx),
            1 => go(&conv(&a, &lab, &|c| c as i64 - 100), ctx),
            2 => go(&conv(&a, &|l| (l, 'x'), &|c| vec![c % 2 == 0; (c % 5) as usize]), ctx),
            _ => go(&conv(&a, &|l| l % 2 == 0, &|c| lab(c as u32)), ctx),
        };
        if let Err(e) = res {
            bail!("{}\nnotation: {}", e, a);
        }
        ctx.bump("other_label_types");
        ctx.nontrivial(hash_str(&a.to_string()));
    }
    Ok(())
}

/// Documents printed with notations that made the round trip.
fn c22_print(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let w = any_world(r, ctx.size);
    ctx.note = w.describe();
    let mut w2 = World::new(w.asts.clone(), w.nodes.clone(), w.root, r);
    let pick = r.below(4);
    for (i, a) in w.asts.iter().enumerate() {
        let n = a.to_notation_mixed(r);
        let m: Note = match trips(&n) {
            Ok(mut t) => t.swap_remove(pick).2,
            Err(e) => bail!("{}\nnotation: {}", e, a),
        };
        w2.notes[i] = match m.clone().validate() {
            Ok(v) => v,
            Err(_) => m.cheat_validation_for_testing_only(),
        };
    }
    for _ in 0..2 {
        let width = gen_width(r, &w);
        if Model::new(&w, width as u64).layout(false).stop == Stop::TooBig {
            ctx.bump("skipped_too_big");
            continue;
        }
        let path = gen_path(r, &w, false);
        let t = gen_target(r, text_len(&w, &path));
        let (m1, m2) = (Monitor::new(), Monitor::new());
        let o1 = observe(DocD::root(&w, &m1), width, &path, t, None);
        let o2 = observe(DocD::root(&w2, &m2), width, &path, t, None);
        let (d1, d2) = (format!("{:?}", o1), format!("{:?}", o2));
        if d1 != d2 {
            bail!("a document prints differently once its notations were serialized and deserialized, at width {}\n{}\nbefore: {}\nafter: {}", width, w.describe(), d1, d2);
        }
        ctx.bump("printed_after_round_trip");
        if o1.is_ok() && w.nodes.len() > 2 {
            ctx.nontrivial(w.fingerprint() ^ width as u64);
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C08",
            rule: "a notation that was rejected, or accepted with at least 6 parts",
            workloads: vec![
                W { name: "any", f: c08_any, quick: 20000, thorough: 1000000, max_size: 60 },
                W { name: "tiny", f: c08_tiny, quick: 10000, thorough: 500000, max_size: 7 },
                W { name: "deep", f: c08_deep, quick: 10000, thorough: 500000, max_size: 30 },
                W { name: "pays_off", f: c08_pays_off, quick: 2000, thorough: 100000, max_size: 20 },
            ],
            required: vec![
                "accepted",
                "accepted_with_several_marks",
                "accepted_with_eol",
                "accepted_with_count",
                "accepted_with_fold",
                "rejected_LeftOutside",
                "rejected_RightOutside",
                "rejected_CheckLeftOutside",
                "rejected_CheckRightOutside",
                "rejected_NestedFold",
                "rejected_NestedCount",
                "rejected_ZeroChild",
                "rejected_OneChild",
                "rejected_ZeroCheckChild",
                "rejected_OneCheckChild",
                "rejected_TextInCount",
                "rejected_TextInFold",
                "rejected_TextAfterEol",
                "rejected_MultipleMarks",
                "indices_in_messages",
                "accepted_notations_printed",
            ],
            assumptions: vec!["end-of-line markers and focus marks before a fold, or before the fold so far, are not tracked (the code says so)"],
        },
        Prop {
            id: "C22",
            rule: "a notation with at least 5 parts that made the round trip, or a printed document of more than two nodes",
            workloads: vec![
                W { name: "structure", f: c22_structure, quick: 10000, thorough: 400000, max_size: 60 },
                W { name: "types", f: c22_types, quick: 5000, thorough: 200000, max_size: 60 },
                W { name: "print", f: c22_print, quick: 5000, thorough: 150000, max_size: 40 },
            ],
            required: vec![
                "round_trips",
                "distinct_data",
                "printed_after_round_trip",
                "other_label_types",
                "variant_Empty",
                "variant_Newline",
                "variant_Eol",
                "variant_Lit",
                "variant_Text",
                "variant_Mark",
                "variant_Left",
                "variant_Right",
                "variant_Child",
                "variant_Flat",
                "variant_Indent",
                "variant_Concat",
                "variant_Choice",
                "variant_Check",
                "variant_Style",
                "variant_Count",
                "variant_Fold",
            ],
            assumptions: vec!["data formats: serde_json (text, value, reader) and bincode", "label and condition types themselves survive the round trip (not a float NaN, not an Option<()> label in JSON)"],
        },
    ]
}
