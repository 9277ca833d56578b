//! The reference semantics of notations, written from their documentation and independent of the
//! crate's implementation: a document is unfolded, left to right, into a stream of output events.
//! Nothing here is shared with the code under test, except the unicode-width tables.
use crate::world::*;
use std::rc::Rc;

pub fn disp_width(s: &str) -> u64 {
    unicode_width::UnicodeWidthStr::width(s) as u64
}
pub fn char_cols(c: char) -> u64 {
    if unicode_width::UnicodeWidthChar::width(c) == Some(2) {
        2
    } else {
        1
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum SegKind {
    Lit,
    Text,
    Indent,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Mismatch {
    TextOnBranch,
    ChildIndex(isize, usize),
    ChildOnText,
    CheckIndex(isize, usize),
    CheckOnText,
    CountOnText,
    FoldOnText,
}

/// Persistent list of style tokens, innermost first.
#[derive(Clone)]
pub struct StyList(Option<Rc<(u32, StyList)>>);
impl StyList {
    fn push(&self, t: u32) -> StyList {
        StyList(Some(Rc::new((t, self.clone()))))
    }
    fn to_sty(&self) -> Sty {
        let mut v = vec![];
        let mut cur = &self.0;
        while let Some(rc) = cur {
            v.push(rc.0);
            cur = &rc.1 .0;
        }
        v.reverse();
        Sty(v)
    }
}
impl Drop for StyList {
    fn drop(&mut self) {
        let mut cur = self.0.take();
        while let Some(rc) = cur {
            match Rc::try_unwrap(rc) {
                Ok(mut x) => cur = x.1 .0.take(),
                Err(_) => break,
            }
        }
    }
}

struct Ind<'a> {
    str: &'a str,
    style: StyList,
    node: u32,
    parent: Option<Rc<Ind<'a>>>,
}
impl Drop for Ind<'_> {
    fn drop(&mut self) {
        let mut cur = self.parent.take();
        while let Some(rc) = cur {
            match Rc::try_unwrap(rc) {
                Ok(mut x) => cur = x.parent.take(),
                Err(_) => break,
            }
        }
    }
}

#[derive(Clone)]
struct Join<'a> {
    idx: usize,
    first: &'a Ast,
    join: &'a Ast,
}

#[derive(Clone)]
struct Env<'a> {
    node: u32,
    flat: bool,
    indent: Option<Rc<Ind<'a>>>,
    style: StyList,
    join: Option<Join<'a>>,
}

#[derive(Clone)]
enum Item<'a> {
    Note(&'a Ast, Env<'a>),
    End(u32),
}

struct Cell<'a>(Item<'a>, Cont<'a>);
#[derive(Clone)]
struct Cont<'a>(Option<Rc<Cell<'a>>>);
impl<'a> Cont<'a> {
    fn push(&self, i: Item<'a>) -> Cont<'a> {
        Cont(Some(Rc::new(Cell(i, self.clone()))))
    }
}
impl Drop for Cont<'_> {
    fn drop(&mut self) {
        let mut cur = self.0.take();
        while let Some(rc) = cur {
            match Rc::try_unwrap(rc) {
                Ok(mut x) => cur = x.1 .0.take(),
                Err(_) => break,
            }
        }
    }
}

#[derive(Clone, Debug)]
pub enum Ev<'a> {
    Seg {
        str: &'a str,
        style: Sty,
        kind: SegKind,
        node: u32,
    },
    Nl,
    Eol,
    Mark(u32),
    /// node, its parent, its index in the parent
    Start(u32, u32, usize),
    End(u32),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Stop {
    /// Printed to the end.
    Done,
    /// A text or literal came after an end-of-line marker. Lines from this one on are not defined.
    TextAfterEol,
    /// The layout needs a part of a notation that does not match its node.
    Mismatch(Mismatch),
    /// Gave up: more work than the model is willing to do.
    TooBig,
}

pub struct Layout<'a> {
    pub evs: Vec<Ev<'a>>,
    pub stop: Stop,
    pub choices: u64,
    pub choices_broken: u64,
    pub fits_saw_eol: u64,
}

enum Step<'a> {
    Empty,
    Seg(&'a str, SegKind),
    Nl,
    Eol,
    Mark,
    Push(Vec<Item<'a>>),
    /// parent, child, index
    Enter(u32, u32, usize, Item<'a>),
    Choice(Item<'a>, Item<'a>),
}

fn norm(i: isize, n: usize) -> Option<usize> {
    if i >= 0 {
        if (i as usize) < n {
            Some(i as usize)
        } else {
            None
        }
    } else {
        let back = i.unsigned_abs();
        if back <= n {
            Some(n - back)
        } else {
            None
        }
    }
}

pub struct Model<'a> {
    pub w: &'a World,
    pub width: u64,
    pub fuel: std::cell::Cell<u64>,
    /// How each choice is resolved: by the rules, or always the first option.
    pub all_first: bool,
}

impl<'a> Model<'a> {
    pub fn new(w: &'a World, width: u64) -> Model<'a> {
        Model {
            w,
            width,
            fuel: std::cell::Cell::new(3_000_000),
            all_first: false,
        }
    }

    fn enter(&self, env: &Env<'a>, child: u32, idx: usize) -> Step<'a> {
        let style = if self.w.nodes[child as usize].styled {
            env.style.push(tok_node(child))
        } else {
            env.style.clone()
        };
        let inner = Env {
            node: child,
            flat: env.flat,
            indent: env.indent.clone(),
            style,
            join: None,
        };
        Step::Enter(
            env.node,
            child,
            idx,
            Item::Note(self.w.ast(child), inner),
        )
    }

    fn step(&self, a: &'a Ast, env: &Env<'a>) -> Result<Step<'a>, Mismatch> {
        let n = self.w.num_children(env.node);
        Ok(match a {
            Ast::Empty => Step::Empty,
            Ast::Newline => Step::Nl,
            Ast::Eol => Step::Eol,
            Ast::Mark => Step::Mark,
            Ast::Lit(s) => Step::Seg(s, SegKind::Lit),
            Ast::Text => match &self.w.nodes[env.node as usize].kind {
                Kind::Text(t) => Step::Seg(t, SegKind::Text),
                Kind::Kids(_) => return Err(Mismatch::TextOnBranch),
            },
            Ast::Flat(x) => {
                let mut e = env.clone();
                e.flat = true;
                Step::Push(vec![Item::Note(x, e)])
            }
            Ast::Indent(s, label, x) => {
                let mut e = env.clone();
                let style = match label {
                    Some(l) => env.style.push(tok_label(env.node, *l)),
                    None => env.style.clone(),
                };
                e.indent = Some(Rc::new(Ind {
                    str: s,
                    style,
                    node: env.node,
                    parent: env.indent.clone(),
                }));
                Step::Push(vec![Item::Note(x, e)])
            }
            Ast::Concat(x, y) => Step::Push(vec![
                Item::Note(x, env.clone()),
                Item::Note(y, env.clone()),
            ]),
            Ast::Choice(x, y) => {
                if env.flat || self.all_first {
                    Step::Push(vec![Item::Note(x, env.clone())])
                } else {
                    Step::Choice(Item::Note(x, env.clone()), Item::Note(y, env.clone()))
                }
            }
            Ast::Style(l, x) => {
                let mut e = env.clone();
                e.style = env.style.push(tok_label(env.node, *l));
                Step::Push(vec![Item::Note(x, e)])
            }
            Ast::Check(c, pos, x, y) => {
                let inspected = match pos {
                    Pos::Here => env.node,
                    Pos::Child(i) => match n {
                        None => return Err(Mismatch::CheckOnText),
                        Some(n) => match norm(*i, n) {
                            None => return Err(Mismatch::CheckIndex(*i, n)),
                            Some(k) => self.w.kids(env.node)[k],
                        },
                    },
                    Pos::RightChild => {
                        self.w.kids(env.node)[env.join.as_ref().expect("model: no join").idx]
                    }
                    Pos::LeftChild => {
                        self.w.kids(env.node)[env.join.as_ref().expect("model: no join").idx - 1]
                    }
                };
                let holds = self.w.nodes[inspected as usize].conds & (1 << c) != 0;
                Step::Push(vec![Item::Note(if holds { x } else { y }, env.clone())])
            }
            Ast::Child(i) => match n {
                None => return Err(Mismatch::ChildOnText),
                Some(n) => match norm(*i, n) {
                    None => return Err(Mismatch::ChildIndex(*i, n)),
                    Some(k) => self.enter(env, self.w.kids(env.node)[k], k),
                },
            },
            Ast::Count(z, o, m) => {
                let x = match n {
                    None => return Err(Mismatch::CountOnText),
                    Some(0) => z,
                    Some(1) => o,
                    Some(_) => m,
                };
                Step::Push(vec![Item::Note(x, env.clone())])
            }
            Ast::Fold(first, join) => match n {
                None => return Err(Mismatch::FoldOnText),
                Some(0) => Step::Empty,
                Some(n) => {
                    let mut e = env.clone();
                    if n == 1 {
                        e.join = None;
                        Step::Push(vec![Item::Note(first, e)])
                    } else {
                        e.join = Some(Join {
                            idx: n - 1,
                            first,
                            join,
                        });
                        Step::Push(vec![Item::Note(join, e)])
                    }
                }
            },
            Ast::Left => {
                let j = env.join.clone().expect("model: no join");
                let mut e = env.clone();
                if j.idx == 1 {
                    e.join = None;
                    Step::Push(vec![Item::Note(j.first, e)])
                } else {
                    e.join = Some(Join {
                        idx: j.idx - 1,
                        ..j
                    });
                    Step::Push(vec![Item::Note(j.join, e)])
                }
            }
            Ast::Right => {
                let j = env.join.as_ref().expect("model: no join");
                self.enter(env, self.w.kids(env.node)[j.idx], j.idx)
            }
        })
    }

    fn burn(&self) -> bool {
        let f = self.fuel.get();
        if f == 0 {
            return false;
        }
        self.fuel.set(f - 1);
        true
    }

    /// Does `cont`, printed from column `col`, keep its first line within the width, with every
    /// choice on it taking its second option, and with no text after an end-of-line marker?
    /// Returns None when out of fuel.
    fn fits(
        &self,
        mut cont: Cont<'a>,
        mut col: u64,
        mut eol: bool,
        saw_eol: &mut u64,
    ) -> Result<Option<bool>, Mismatch> {
        if col > self.width {
            return Ok(Some(false));
        }
        loop {
            if !self.burn() {
                return Ok(None);
            }
            let (item, rest) = match &cont.0 {
                None => return Ok(Some(true)),
                Some(rc) => (rc.0.clone(), rc.1.clone()),
            };
            cont = rest;
            match item {
                Item::End(_) => (),
                Item::Note(a, env) => match self.step(a, &env)? {
                    Step::Empty | Step::Mark => (),
                    Step::Eol => eol = true,
                    Step::Nl => return Ok(Some(true)),
                    Step::Seg(s, _) => {
                        if eol {
                            *saw_eol += 1;
                            return Ok(Some(false));
                        }
                        col += disp_width(s);
                        if col > self.width {
                            return Ok(Some(false));
                        }
                    }
                    Step::Push(items) => {
                        for i in items.into_iter().rev() {
                            cont = cont.push(i);
                        }
                    }
                    Step::Enter(_, _, _, i) => cont = cont.push(i),
                    Step::Choice(_, second) => cont = cont.push(second),
                },
            }
        }
    }

    pub fn layout(&self, root_style: bool) -> Layout<'a> {
        let w = self.w;
        let mut out = Layout {
            evs: vec![],
            stop: Stop::Done,
            choices: 0,
            choices_broken: 0,
            fits_saw_eol: 0,
        };
        let mut style = StyList(None);
        if root_style {
            style = style.push(TOK_ROOT);
        }
        if w.nodes[w.root as usize].styled {
            style = style.push(tok_node(w.root));
        }
        let env = Env {
            node: w.root,
            flat: false,
            indent: None,
            style,
            join: None,
        };
        let mut cont = Cont(None)
            .push(Item::End(w.root))
            .push(Item::Note(w.ast(w.root), env));
        out.evs.push(Ev::Start(w.root, u32::MAX, 0));
        let mut col: u64 = 0;
        let mut eol = false;
        loop {
            if !self.burn() {
                out.stop = Stop::TooBig;
                return out;
            }
            let (item, rest) = match &cont.0 {
                None => return out,
                Some(rc) => (rc.0.clone(), rc.1.clone()),
            };
            cont = rest;
            let (a, env) = match item {
                Item::End(n) => {
                    out.evs.push(Ev::End(n));
                    continue;
                }
                Item::Note(a, env) => (a, env),
            };
            let st = match self.step(a, &env) {
                Ok(st) => st,
                Err(m) => {
                    out.stop = Stop::Mismatch(m);
                    return out;
                }
            };
            match st {
                Step::Empty => (),
                Step::Mark => out.evs.push(Ev::Mark(env.node)),
                Step::Eol => {
                    eol = true;
                    out.evs.push(Ev::Eol);
                }
                Step::Seg(s, kind) => {
                    if eol {
                        out.stop = Stop::TextAfterEol;
                        return out;
                    }
                    col += disp_width(s);
                    out.evs.push(Ev::Seg {
                        str: s,
                        style: env.style.to_sty(),
                        kind,
                        node: env.node,
                    });
                }
                Step::Nl => {
                    out.evs.push(Ev::Nl);
                    col = 0;
                    eol = false;
                    let mut chain = vec![];
                    let mut cur = env.indent.as_ref();
                    while let Some(i) = cur {
                        chain.push(i);
                        cur = i.parent.as_ref();
                    }
                    for i in chain.into_iter().rev() {
                        col += disp_width(i.str);
                        out.evs.push(Ev::Seg {
                            str: i.str,
                            style: i.style.to_sty(),
                            kind: SegKind::Indent,
                            node: i.node,
                        });
                    }
                }
                Step::Push(items) => {
                    for i in items.into_iter().rev() {
                        cont = cont.push(i);
                    }
                }
                Step::Enter(parent, child, idx, i) => {
                    out.evs.push(Ev::Start(child, parent, idx));
                    cont = cont.push(Item::End(child)).push(i);
                }
                Step::Choice(first, second) => {
                    out.choices += 1;
                    let mut saw = 0;
                    let fit = self.fits(cont.push(first.clone()), col, eol, &mut saw);
                    out.fits_saw_eol += saw;
                    match fit {
                        Err(m) => {
                            out.stop = Stop::Mismatch(m);
                            return out;
                        }
                        Ok(None) => {
                            out.stop = Stop::TooBig;
                            return out;
                        }
                        Ok(Some(true)) => cont = cont.push(first),
                        Ok(Some(false)) => {
                            out.choices_broken += 1;
                            cont = cont.push(second)
                        }
                    }
                }
            }
        }
    }

    /// The set of mismatch errors that could arise in this document under some resolution of its
    /// choices (conservatively: `Check` and `Count` are resolved, both options of each choice are
    /// explored, whether or not inside `Flat`).
    pub fn static_mismatches(&self) -> Vec<Mismatch> {
        let mut out: Vec<Mismatch> = vec![];
        let mut seen = std::collections::HashSet::new();
        let mut queue = vec![self.w.root];
        seen.insert(self.w.root);
        while let Some(n) = queue.pop() {
            self.scan(self.w.ast(n), n, None, &mut |r| match r {
                Ok(child) => {
                    if seen.insert(child) {
                        queue.push(child)
                    }
                }
                Err(m) => {
                    if !out.contains(&m) {
                        out.push(m)
                    }
                }
            });
        }
        out
    }

    fn scan(
        &self,
        a: &Ast,
        n: u32,
        join: Option<(usize, &Ast, &Ast)>,
        f: &mut dyn FnMut(Result<u32, Mismatch>),
    ) {
        let nc = self.w.num_children(n);
        let kids = self.w.kids(n);
        match a {
            Ast::Empty | Ast::Newline | Ast::Eol | Ast::Mark | Ast::Lit(_) => (),
            Ast::Text => {
                if nc.is_some() {
                    f(Err(Mismatch::TextOnBranch))
                }
            }
            Ast::Flat(x) | Ast::Indent(_, _, x) | Ast::Style(_, x) => self.scan(x, n, join, f),
            Ast::Concat(x, y) | Ast::Choice(x, y) => {
                self.scan(x, n, join, f);
                self.scan(y, n, join, f);
            }
            Ast::Check(_, p, x, y) => {
                if let Pos::Child(i) = p {
                    match nc {
                        None => return f(Err(Mismatch::CheckOnText)),
                        Some(c) => {
                            if norm(*i, c).is_none() {
                                return f(Err(Mismatch::CheckIndex(*i, c)));
                            }
                        }
                    }
                }
                self.scan(x, n, join, f);
                self.scan(y, n, join, f);
            }
            Ast::Child(i) => match nc {
                None => f(Err(Mismatch::ChildOnText)),
                Some(c) => match norm(*i, c) {
                    None => f(Err(Mismatch::ChildIndex(*i, c))),
                    Some(k) => f(Ok(kids[k])),
                },
            },
            Ast::Count(z, o, m) => match nc {
                None => f(Err(Mismatch::CountOnText)),
                Some(0) => self.scan(z, n, join, f),
                Some(1) => self.scan(o, n, join, f),
                Some(_) => self.scan(m, n, join, f),
            },
            Ast::Fold(first, j) => match nc {
                None => f(Err(Mismatch::FoldOnText)),
                Some(0) => (),
                Some(1) => self.scan(first, n, None, f),
                Some(c) => {
                    // Every index of the fold, independently of whether its Left is displayed.
                    for i in 1..c {
                        self.scan(j, n, Some((i, first, j)), f);
                    }
                    self.scan(first, n, None, f);
                }
            },
            Ast::Left => (),
            Ast::Right => {
                if let Some((i, _, _)) = join {
                    f(Ok(kids[i]))
                }
            }
        }
    }
}

/// A document with everything but its choices resolved.
#[derive(Clone, Debug)]
pub enum Abs {
    /// text of this width
    W(u64),
    /// a newline followed by this much indentation
    N(u64),
    C(Vec<Abs>, Vec<Abs>),
}

impl<'a> Model<'a> {
    /// Resolve everything but the choices. None if there are too many choices or end-of-lines.
    pub fn abs(&self, max_choices: &mut usize) -> Option<Vec<Abs>> {
        let env = Env {
            node: self.w.root,
            flat: false,
            indent: None,
            style: StyList(None),
            join: None,
        };
        let mut out = vec![];
        self.abs_rec(Item::Note(self.w.ast(self.w.root), env), &mut out, max_choices)?;
        Some(out)
    }
    fn abs_rec(&self, i: Item<'a>, out: &mut Vec<Abs>, max: &mut usize) -> Option<()> {
        let (a, env) = match i {
            Item::End(_) => return Some(()),
            Item::Note(a, env) => (a, env),
        };
        if !self.burn() {
            return None;
        }
        match self.step(a, &env).ok()? {
            Step::Empty | Step::Mark => (),
            Step::Eol => return None,
            Step::Seg(s, _) => out.push(Abs::W(disp_width(s))),
            Step::Nl => {
                let mut ind = 0;
                let mut cur = env.indent.as_ref();
                while let Some(i) = cur {
                    ind += disp_width(i.str);
                    cur = i.parent.as_ref();
                }
                out.push(Abs::N(ind));
            }
            Step::Push(items) => {
                for i in items {
                    self.abs_rec(i, out, max)?;
                }
            }
            Step::Enter(_, _, _, i) => self.abs_rec(i, out, max)?,
            Step::Choice(x, y) => {
                *max = max.checked_sub(1)?;
                let (mut a, mut b) = (vec![], vec![]);
                self.abs_rec(x, &mut a, max)?;
                self.abs_rec(y, &mut b, max)?;
                out.push(Abs::C(a, b));
            }
        }
        Some(())
    }
}

// ---------------------------------------------------------------------------------------------
// Lines and positions derived from the event stream.

/// A position in the printed text: line number and number of bytes to its left on that line.
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub struct At {
    pub line: usize,
    pub byte: usize,
}

/// A line as a list of maximal runs of equal style.
pub type Runs = Vec<(String, Sty)>;
pub fn push_run(runs: &mut Runs, s: &str, style: &Sty) {
    if s.is_empty() {
        return;
    }
    if let Some((last, st)) = runs.last_mut() {
        if st == style {
            last.push_str(s);
            return;
        }
    }
    runs.push((s.to_owned(), style.clone()));
}

pub struct Lines {
    pub runs: Vec<Runs>,
}
impl Lines {
    pub fn text(&self, i: usize) -> String {
        self.runs[i].iter().map(|r| r.0.as_str()).collect()
    }
}

impl<'a> Layout<'a> {
    /// All lines. If the layout stopped early, the last line is only a part of a line.
    pub fn lines(&self) -> Lines {
        let mut runs: Vec<Runs> = vec![vec![]];
        for e in &self.evs {
            match e {
                Ev::Nl => runs.push(vec![]),
                Ev::Seg { str, style, .. } => push_run(runs.last_mut().unwrap(), str, style),
                _ => (),
            }
        }
        Lines { runs }
    }

    pub fn widths(&self) -> Vec<u64> {
        let mut ws = vec![0];
        for e in &self.evs {
            match e {
                Ev::Nl => ws.push(0),
                Ev::Seg { str, .. } => *ws.last_mut().unwrap() += disp_width(str),
                _ => (),
            }
        }
        ws
    }

    /// Position of each event (before it).
    pub fn positions(&self) -> Vec<At> {
        let mut at = At { line: 0, byte: 0 };
        let mut v = Vec::with_capacity(self.evs.len() + 1);
        for e in &self.evs {
            v.push(at);
            match e {
                Ev::Nl => {
                    at = At {
                        line: at.line + 1,
                        byte: 0,
                    }
                }
                Ev::Seg { str, .. } => at.byte += str.len(),
                _ => (),
            }
        }
        v.push(at);
        v
    }

    /// The event at which the node with this path first starts, or the index into the path of the
    /// first step that fails.
    ///
    /// If `within`, only the first display of each node counts. (The difference matters only when a
    /// node is displayed more than once.)
    pub fn find_path(&self, path: &[usize], within: bool) -> Result<usize, usize> {
        let mut ev = 0;
        for (k, step) in path.iter().enumerate() {
            let cur = match &self.evs[ev] {
                Ev::Start(n, _, _) => *n,
                _ => unreachable!(),
            };
            let end = if within {
                self.find_end(ev).unwrap_or(self.evs.len() - 1)
            } else {
                self.evs.len() - 1
            };
            match self.evs[ev + 1..=end].iter().position(
                |e| matches!(e, Ev::Start(_, p, i) if *p == cur && *i == *step),
            ) {
                Some(d) => ev = ev + 1 + d,
                None => return Err(k),
            }
        }
        Ok(ev)
    }

    /// The matching end of the node that starts at event `start`.
    pub fn find_end(&self, start: usize) -> Option<usize> {
        let mut depth = 0;
        for (i, e) in self.evs[start..].iter().enumerate() {
            match e {
                Ev::Start(..) => depth += 1,
                Ev::End(_) => {
                    depth -= 1;
                    if depth == 0 {
                        return Some(start + i);
                    }
                }
                _ => (),
            }
        }
        None
    }

    pub fn node_at(&self, start: usize) -> u32 {
        match &self.evs[start] {
            Ev::Start(n, _, _) => *n,
            _ => unreachable!(),
        }
    }

    /// All displayed paths (first display of each node), up to a limit.
    pub fn displayed_paths(&self, limit: usize) -> Vec<Vec<usize>> {
        let mut out = vec![];
        let mut path: Vec<usize> = vec![];
        let mut seen = std::collections::HashSet::new();
        for e in &self.evs {
            match e {
                Ev::Start(n, p, i) => {
                    if *p != u32::MAX {
                        path.push(*i);
                    }
                    if seen.insert(*n) {
                        out.push(path.clone());
                        if out.len() >= limit {
                            return out;
                        }
                    }
                }
                Ev::End(_) => {
                    path.pop();
                }
                _ => (),
            }
        }
        out
    }
}
