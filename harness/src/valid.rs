//! Independent statement of which notations are flawed, as sets of reachable states.
use crate::world::*;
use std::collections::BTreeSet;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Case {
    Zero,
    One,
    Many,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum InFold {
    First,
    Join,
}

#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Flaw {
    LeftOutside,
    RightOutside,
    CheckLeftOutside,
    CheckRightOutside,
    NestedFold,
    NestedCount,
    ZeroChild,
    OneChild(isize),
    ZeroCheckChild,
    OneCheckChild(isize),
    TextInCount,
    TextInFold,
    TextAfterEol,
    MultipleMarks,
}

/// (an end-of-line marker came directly before, a focus mark came somewhere before)
type State = (bool, bool);
type States = BTreeSet<State>;

fn map(s: &States, f: impl Fn(State) -> State) -> States {
    s.iter().map(|x| f(*x)).collect()
}

pub fn flaws(a: &Ast) -> BTreeSet<Flaw> {
    let mut out = BTreeSet::new();
    let start: States = [(false, false)].into_iter().collect();
    go(a, start, None, None, &mut out);
    out
}

fn go(
    a: &Ast,
    s: States,
    count: Option<Case>,
    fold: Option<InFold>,
    out: &mut BTreeSet<Flaw>,
) -> States {
    let fresh = || -> States { [(false, false)].into_iter().collect() };
    match a {
        Ast::Empty => s,
        Ast::Newline => map(&s, |(_, m)| (false, m)),
        Ast::Eol => map(&s, |(_, m)| (true, m)),
        Ast::Lit(_) => {
            if s.iter().any(|x| x.0) {
                out.insert(Flaw::TextAfterEol);
            }
            map(&s, |(_, m)| (false, m))
        }
        Ast::Text => {
            if count.is_some() {
                out.insert(Flaw::TextInCount);
            }
            if fold.is_some() {
                out.insert(Flaw::TextInFold);
            }
            if s.iter().any(|x| x.0) {
                out.insert(Flaw::TextAfterEol);
            }
            map(&s, |(_, m)| (false, m))
        }
        Ast::Mark => {
            if s.iter().all(|x| x.1) {
                out.insert(Flaw::MultipleMarks);
            }
            map(&s, |(e, _)| (e, true))
        }
        Ast::Flat(x) | Ast::Indent(_, _, x) | Ast::Style(_, x) => go(x, s, count, fold, out),
        Ast::Concat(x, y) => {
            let s = go(x, s, count, fold, out);
            go(y, s, count, fold, out)
        }
        Ast::Choice(x, y) => {
            let mut s1 = go(x, s.clone(), count, fold, out);
            s1.extend(go(y, s, count, fold, out));
            s1
        }
        Ast::Check(_, p, x, y) => {
            match p {
                Pos::Here => (),
                Pos::Child(i) => match count {
                    Some(Case::Zero) => {
                        out.insert(Flaw::ZeroCheckChild);
                    }
                    Some(Case::One) if *i != 0 && *i != -1 => {
                        out.insert(Flaw::OneCheckChild(*i));
                    }
                    _ => (),
                },
                Pos::LeftChild => {
                    if fold != Some(InFold::Join) {
                        out.insert(Flaw::CheckLeftOutside);
                    }
                }
                Pos::RightChild => {
                    if fold != Some(InFold::Join) {
                        out.insert(Flaw::CheckRightOutside);
                    }
                }
            }
            let mut s1 = go(x, s.clone(), count, fold, out);
            s1.extend(go(y, s, count, fold, out));
            s1
        }
        Ast::Child(i) => {
            match count {
                Some(Case::Zero) => {
                    out.insert(Flaw::ZeroChild);
                }
                Some(Case::One) if *i != 0 && *i != -1 => {
                    out.insert(Flaw::OneChild(*i));
                }
                _ => (),
            }
            map(&s, |(_, m)| (false, m))
        }
        Ast::Count(z, o, m) => {
            if count.is_some() {
                out.insert(Flaw::NestedCount);
            }
            let mut s1 = go(z, s.clone(), Some(Case::Zero), fold, out);
            s1.extend(go(o, s.clone(), Some(Case::One), fold, out));
            s1.extend(go(m, s, Some(Case::Many), fold, out));
            s1
        }
        Ast::Fold(f, j) => {
            if fold.is_some() {
                out.insert(Flaw::NestedFold);
            }
            go(f, fresh(), count, Some(InFold::First), out);
            go(j, fresh(), count, Some(InFold::Join), out);
            fresh()
        }
        Ast::Left => {
            if fold != Some(InFold::Join) {
                out.insert(Flaw::LeftOutside);
            }
            fresh()
        }
        Ast::Right => {
            if fold != Some(InFold::Join) {
                out.insert(Flaw::RightOutside);
            }
            fresh()
        }
    }
}
