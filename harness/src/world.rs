//! The documents used by the monitors: an AST for notations that is independent of the crate's own
//! `Notation` type, document worlds built over it, and instrumented `PrettyDoc` implementations.
use crate::rng::Rng;
use partial_pretty_printer as ppp;
use ppp::notation_constructors as nc;
use ppp::{CheckPos, Notation, PrettyDoc, ValidNotation};
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::fmt;

pub type Label = u32;
pub type Cond = u8;
pub type Note = Notation<Label, Cond>;
pub type VNote = ValidNotation<Label, Cond>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pos {
    Here,
    Child(isize),
    LeftChild,
    RightChild,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ast {
    Empty,
    Newline,
    Eol,
    Lit(String),
    Text,
    Flat(Box<Ast>),
    Indent(String, Option<Label>, Box<Ast>),
    Concat(Box<Ast>, Box<Ast>),
    Choice(Box<Ast>, Box<Ast>),
    Check(Cond, Pos, Box<Ast>, Box<Ast>),
    Child(isize),
    Style(Label, Box<Ast>),
    Mark,
    Count(Box<Ast>, Box<Ast>, Box<Ast>),
    Fold(Box<Ast>, Box<Ast>),
    Left,
    Right,
}

// Shorthands for building Asts.
pub fn lit(s: &str) -> Ast {
    Ast::Lit(s.to_owned())
}
pub fn cat(a: Ast, b: Ast) -> Ast {
    Ast::Concat(Box::new(a), Box::new(b))
}
pub fn cats(xs: Vec<Ast>) -> Ast {
    let mut it = xs.into_iter();
    let mut acc = it.next().unwrap_or(Ast::Empty);
    for x in it {
        acc = cat(acc, x);
    }
    acc
}
pub fn or(a: Ast, b: Ast) -> Ast {
    Ast::Choice(Box::new(a), Box::new(b))
}
pub fn flat(a: Ast) -> Ast {
    Ast::Flat(Box::new(a))
}
pub fn indent(s: &str, l: Option<Label>, a: Ast) -> Ast {
    Ast::Indent(s.to_owned(), l, Box::new(a))
}
pub fn nest(n: usize, a: Ast) -> Ast {
    indent(&" ".repeat(n), None, cat(Ast::Newline, a))
}
pub fn style(l: Label, a: Ast) -> Ast {
    Ast::Style(l, Box::new(a))
}
pub fn check(c: Cond, p: Pos, a: Ast, b: Ast) -> Ast {
    Ast::Check(c, p, Box::new(a), Box::new(b))
}
pub fn count(z: Ast, o: Ast, m: Ast) -> Ast {
    Ast::Count(Box::new(z), Box::new(o), Box::new(m))
}
pub fn fold(f: Ast, j: Ast) -> Ast {
    Ast::Fold(Box::new(f), Box::new(j))
}

impl Ast {
    /// Convert to the crate's notation, writing the enum directly.
    pub fn to_notation(&self) -> Note {
        self.build(&mut |_| 0)
    }

    /// Convert to the crate's notation, choosing at random between the enum's variants, the
    /// constructor functions and the operators. All of them are documented to mean the same.
    pub fn to_notation_mixed(&self, rng: &mut Rng) -> Note {
        self.build(&mut |n| rng.below(n))
    }

    fn build(&self, pick: &mut dyn FnMut(usize) -> usize) -> Note {
        match self {
            Ast::Empty => [Notation::Empty, nc::empty()][pick(2)].clone(),
            Ast::Newline => [Notation::Newline, nc::nl()][pick(2)].clone(),
            Ast::Eol => [Notation::EndOfLine, nc::eol()][pick(2)].clone(),
            Ast::Lit(s) => [Notation::Literal(s.clone()), nc::lit(s)][pick(2)].clone(),
            Ast::Text => [Notation::Text, nc::text()][pick(2)].clone(),
            Ast::Mark => [Notation::FocusMark, nc::mark()][pick(2)].clone(),
            Ast::Left => [Notation::Left, nc::left()][pick(2)].clone(),
            Ast::Right => [Notation::Right, nc::right()][pick(2)].clone(),
            Ast::Child(i) => [Notation::Child(*i), nc::child(*i)][pick(2)].clone(),
            Ast::Flat(a) => {
                let a = a.build(pick);
                match pick(2) {
                    0 => Notation::Flat(Box::new(a)),
                    _ => nc::flat(a),
                }
            }
            Ast::Indent(s, l, a) => {
                if l.is_none() && s.chars().all(|c| c == ' ') && pick(2) == 1 {
                    if let Ast::Concat(nl, rest) = &**a {
                        if **nl == Ast::Newline {
                            return (s.len() as ppp::Width) >> rest.build(pick);
                        }
                    }
                }
                let a = a.build(pick);
                match pick(2) {
                    0 => Notation::Indent(s.clone(), *l, Box::new(a)),
                    _ => nc::indent(s, *l, a),
                }
            }
            Ast::Concat(a, b) => {
                // (x + nl) + y  is what  x ^ y  stands for
                if let Ast::Concat(x, nl) = &**a {
                    if **nl == Ast::Newline && pick(2) == 1 {
                        let x = x.build(pick);
                        return x ^ b.build(pick);
                    }
                }
                let a = a.build(pick);
                let b = b.build(pick);
                match pick(2) {
                    0 => Notation::Concat(Box::new(a), Box::new(b)),
                    _ => a + b,
                }
            }
            Ast::Choice(a, b) => {
                let a = a.build(pick);
                let b = b.build(pick);
                match pick(2) {
                    0 => Notation::Choice(Box::new(a), Box::new(b)),
                    _ => a | b,
                }
            }
            Ast::Check(c, p, a, b) => {
                let pos = match p {
                    Pos::Here => CheckPos::Here,
                    Pos::Child(i) => CheckPos::Child(*i),
                    Pos::LeftChild => CheckPos::LeftChild,
                    Pos::RightChild => CheckPos::RightChild,
                };
                let a = a.build(pick);
                let b = b.build(pick);
                match pick(2) {
                    0 => Notation::Check(*c, pos, Box::new(a), Box::new(b)),
                    _ => nc::check(*c, pos, a, b),
                }
            }
            Ast::Style(l, a) => {
                let a = a.build(pick);
                match pick(2) {
                    0 => Notation::Style(*l, Box::new(a)),
                    _ => nc::style(*l, a),
                }
            }
            Ast::Count(z, o, m) => {
                let (zero, one, many) = (z.build(pick), o.build(pick), m.build(pick));
                match pick(2) {
                    0 => Notation::Count {
                        zero: Box::new(zero),
                        one: Box::new(one),
                        many: Box::new(many),
                    },
                    _ => nc::count(nc::Count { zero, one, many }),
                }
            }
            Ast::Fold(f, j) => {
                let (first, join) = (f.build(pick), j.build(pick));
                match pick(2) {
                    0 => Notation::Fold {
                        first: Box::new(first),
                        join: Box::new(join),
                    },
                    _ => nc::fold(nc::Fold { first, join }),
                }
            }
        }
    }

    pub fn for_each(&self, f: &mut dyn FnMut(&Ast)) {
        f(self);
        match self {
            Ast::Flat(a) | Ast::Indent(_, _, a) | Ast::Style(_, a) => a.for_each(f),
            Ast::Concat(a, b) | Ast::Choice(a, b) | Ast::Check(_, _, a, b) | Ast::Fold(a, b) => {
                a.for_each(f);
                b.for_each(f);
            }
            Ast::Count(a, b, c) => {
                a.for_each(f);
                b.for_each(f);
                c.for_each(f);
            }
            _ => (),
        }
    }

    pub fn size(&self) -> usize {
        let mut n = 0;
        self.for_each(&mut |_| n += 1);
        n
    }
    pub fn has(&self, p: impl Fn(&Ast) -> bool) -> bool {
        let mut found = false;
        self.for_each(&mut |a| found |= p(a));
        found
    }
}

impl fmt::Display for Ast {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Ast::Empty => write!(f, "ε"),
            Ast::Newline => write!(f, "nl"),
            Ast::Eol => write!(f, "eol"),
            Ast::Lit(s) => write!(f, "{:?}", s),
            Ast::Text => write!(f, "text"),
            Ast::Mark => write!(f, "mark"),
            Ast::Left => write!(f, "left"),
            Ast::Right => write!(f, "right"),
            Ast::Child(i) => write!(f, "child({})", i),
            Ast::Flat(a) => write!(f, "flat({})", a),
            Ast::Indent(s, l, a) => write!(f, "indent({:?},{:?},{})", s, l, a),
            Ast::Concat(a, b) => write!(f, "({} + {})", a, b),
            Ast::Choice(a, b) => write!(f, "({} | {})", a, b),
            Ast::Check(c, p, a, b) => write!(f, "check({},{:?},{},{})", c, p, a, b),
            Ast::Style(l, a) => write!(f, "style({},{})", l, a),
            Ast::Count(a, b, c) => write!(f, "count({},{},{})", a, b, c),
            Ast::Fold(a, b) => write!(f, "fold({},{})", a, b),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Kind {
    Text(String),
    Kids(Vec<u32>),
}

#[derive(Clone, Debug)]
pub struct Node {
    pub id: u64,
    pub kind: Kind,
    pub note: usize,
    /// Bit set of the conditions that hold.
    pub conds: u8,
    /// Whether this node contributes a (unique) node style; otherwise its style is the identity.
    pub styled: bool,
    /// Conditions that some notation may legitimately check on this node.
    pub cond_ok: u8,
}

pub struct World {
    pub nodes: Vec<Node>,
    pub asts: Vec<Ast>,
    pub notes: Vec<VNote>,
    pub labels_of: Vec<HashSet<Label>>,
    pub root: u32,
    /// Whether any notation was rejected by the crate's validation (and was let in regardless).
    pub cheated: bool,
    /// Each node's first position among its siblings (in the last of its parents, if it has several).
    rank: Vec<u32>,
}

impl World {
    pub fn new(asts: Vec<Ast>, nodes: Vec<Node>, root: u32, rng: &mut Rng) -> World {
        let mut cheated = false;
        let notes = asts
            .iter()
            .map(|a| {
                let n = a.to_notation_mixed(rng);
                match n.clone().validate() {
                    Ok(v) => v,
                    Err(_) => {
                        cheated = true;
                        n.cheat_validation_for_testing_only()
                    }
                }
            })
            .collect();
        let labels_of = asts
            .iter()
            .map(|a| {
                let mut s = HashSet::new();
                a.for_each(&mut |x| match x {
                    Ast::Style(l, _) | Ast::Indent(_, Some(l), _) => {
                        s.insert(*l);
                    }
                    _ => (),
                });
                s
            })
            .collect();
        let mut w = World {
            nodes,
            asts,
            notes,
            labels_of,
            root,
            cheated,
            rank: vec![],
        };
        w.rank = vec![0; w.nodes.len()];
        for n in 0..w.nodes.len() {
            if let Kind::Kids(k) = &w.nodes[n].kind {
                for (i, k) in k.iter().enumerate().rev() {
                    if let Some(x) = w.rank.get_mut(*k as usize) {
                        *x = i as u32;
                    }
                }
            }
        }
        w.compute_cond_ok();
        w
    }

    fn compute_cond_ok(&mut self) {
        for n in 0..self.nodes.len() {
            let kids: Vec<u32> = match &self.nodes[n].kind {
                Kind::Kids(k) => k.clone(),
                _ => vec![],
            };
            let len = kids.len();
            let mut allow: Vec<(u32, u8)> = vec![];
            self.asts[self.nodes[n].note].for_each(&mut |a| {
                if let Ast::Check(c, p, _, _) = a {
                    let bit = 1u8 << c;
                    match p {
                        Pos::Here => allow.push((n as u32, bit)),
                        Pos::Child(i) => {
                            let j = if *i < 0 { *i + len as isize } else { *i };
                            if j >= 0 && (j as usize) < len {
                                allow.push((kids[j as usize], bit))
                            }
                        }
                        Pos::LeftChild => {
                            if len > 0 {
                                kids[..len - 1].iter().for_each(|k| allow.push((*k, bit)))
                            }
                        }
                        Pos::RightChild => {
                            if len > 0 {
                                kids[1..].iter().for_each(|k| allow.push((*k, bit)))
                            }
                        }
                    }
                }
            });
            for (k, bit) in allow {
                self.nodes[k as usize].cond_ok |= bit;
            }
        }
    }

    pub fn kids(&self, n: u32) -> &[u32] {
        match &self.nodes[n as usize].kind {
            Kind::Kids(k) => k,
            Kind::Text(_) => &[],
        }
    }
    pub fn ast(&self, n: u32) -> &Ast {
        &self.asts[self.nodes[n as usize].note]
    }
    pub fn num_children(&self, n: u32) -> Option<usize> {
        match &self.nodes[n as usize].kind {
            Kind::Kids(k) => Some(k.len()),
            Kind::Text(_) => None,
        }
    }

    /// Human readable description, for violation reports.
    pub fn describe(&self) -> String {
        let mut s = String::new();
        for (i, a) in self.asts.iter().enumerate() {
            if self.nodes.iter().any(|n| n.note == i) {
                s.push_str(&format!("notation {}: {}\n", i, a));
            }
        }
        fn rec(w: &World, n: u32, depth: usize, s: &mut String, budget: &mut usize) {
            if *budget == 0 {
                return;
            }
            *budget -= 1;
            let node = &w.nodes[n as usize];
            s.push_str(&"  ".repeat(depth.min(40)));
            match &node.kind {
                Kind::Text(t) => s.push_str(&format!(
                    "#{} note{} conds={:b} text {:?}\n",
                    n, node.note, node.conds, t
                )),
                Kind::Kids(k) => {
                    s.push_str(&format!("#{} note{} conds={:b}\n", n, node.note, node.conds));
                    for c in k {
                        if depth < 200 {
                            rec(w, *c, depth + 1, s, budget);
                        }
                    }
                }
            }
        }
        let mut budget = 200;
        rec(self, self.root, 0, &mut s, &mut budget);
        s
    }

    pub fn fingerprint(&self) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.asts.hash(&mut h);
        for n in &self.nodes {
            n.note.hash(&mut h);
            n.conds.hash(&mut h);
            match &n.kind {
                Kind::Text(t) => t.hash(&mut h),
                Kind::Kids(k) => k.hash(&mut h),
            }
        }
        h.finish()
    }
}

// ---------------------------------------------------------------------------------------------
// Styles: the free monoid, so that which styles were combined, and in which order, is visible.

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Sty(pub Vec<u32>);

pub fn tok_node(n: u32) -> u32 {
    n << 6
}
pub fn tok_label(n: u32, l: Label) -> u32 {
    (n << 6) + 1 + l
}
pub const TOK_ROOT: u32 = u32::MAX;
impl ppp::Style for Sty {
    fn combine(outer: &Sty, inner: &Sty) -> Sty {
        let mut v = Vec::with_capacity(outer.0.len() + inner.0.len());
        v.extend_from_slice(&outer.0);
        v.extend_from_slice(&inner.0);
        Sty(v)
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Fault(pub u64);
impl fmt::Display for Fault {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "injected fault {}", self.0)
    }
}
impl std::error::Error for Fault {}

pub type PErr = ppp::PrintingError<Fault>;

// ---------------------------------------------------------------------------------------------
// Monitor: what happens at the PrettyDoc boundary.

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[repr(u8)]
pub enum M {
    Id,
    Notation,
    Condition,
    LookupStyle,
    NodeStyle,
    NumChildren,
    Text,
    Child,
    LastChild,
    PrevSibling,
}
pub const NUM_M: usize = 10;
pub const ALL_M: [M; NUM_M] = [
    M::Id,
    M::Notation,
    M::Condition,
    M::LookupStyle,
    M::NodeStyle,
    M::NumChildren,
    M::Text,
    M::Child,
    M::LastChild,
    M::PrevSibling,
];

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FaultPlan {
    None,
    /// Fail only the n-th call (counting from 0).
    Nth(u64),
    /// Fail the n-th call and every later one.
    From(u64),
    /// Fail every call of this method on this node.
    NodeMethod(u32, M),
    /// Fail every call of any method on this node.
    Node(u32),
}

pub struct Monitor {
    pub calls: Cell<u64>,
    pub per: [Cell<u64>; NUM_M],
    pub budget: Cell<u64>,
    pub plan: Cell<FaultPlan>,
    pub faults: Cell<u64>,
    pub contract: RefCell<Vec<String>>,
    pub trace: RefCell<Option<Vec<(u32, M, u64)>>>,
}

/// Panic payload used when the printer makes more calls than the budget allows.
pub struct BudgetExceeded(pub u64);

impl Monitor {
    pub fn new() -> Monitor {
        Monitor {
            calls: Cell::new(0),
            per: Default::default(),
            budget: Cell::new(20_000_000),
            plan: Cell::new(FaultPlan::None),
            faults: Cell::new(0),
            contract: RefCell::new(vec![]),
            trace: RefCell::new(None),
        }
    }
    pub fn with_plan(plan: FaultPlan) -> Monitor {
        let m = Monitor::new();
        m.plan.set(plan);
        m
    }
    fn hit(&self, n: u32, m: M, arg: u64) -> Result<(), Fault> {
        let c = self.calls.get();
        self.calls.set(c + 1);
        let p = &self.per[m as usize];
        p.set(p.get() + 1);
        if c >= self.budget.get() {
            std::panic::panic_any(BudgetExceeded(c));
        }
        if let Some(t) = self.trace.borrow_mut().as_mut() {
            t.push((n, m, arg));
        }
        let fail = match self.plan.get() {
            FaultPlan::None => false,
            FaultPlan::Nth(k) => c == k,
            FaultPlan::From(k) => c >= k,
            FaultPlan::NodeMethod(x, mm) => x == n && mm == m,
            FaultPlan::Node(x) => x == n,
        };
        if fail {
            self.faults.set(self.faults.get() + 1);
            return Err(Fault(c));
        }
        Ok(())
    }
    fn breach(&self, msg: String) {
        let mut c = self.contract.borrow_mut();
        if c.len() < 20 {
            c.push(msg);
        }
    }
}

macro_rules! doc_impl {
    ($name:ident, $($optional:tt)*) => {
        #[derive(Clone, Copy)]
        pub struct $name<'d> {
            pub w: &'d World,
            pub n: u32,
            pub mon: &'d Monitor,
        }
        impl<'d> $name<'d> {
            pub fn root(w: &'d World, mon: &'d Monitor) -> Self {
                $name { w, n: w.root, mon }
            }
            #[allow(dead_code)]
            pub fn at(w: &'d World, n: u32, mon: &'d Monitor) -> Self {
                $name { w, n, mon }
            }
            fn node(&self) -> &'d Node {
                &self.w.nodes[self.n as usize]
            }
        }
        impl<'d> PrettyDoc<'d> for $name<'d> {
            type Id = u64;
            type Style = Sty;
            type StyleLabel = Label;
            type Condition = Cond;
            type Error = Fault;
            fn id(self) -> Result<u64, Fault> {
                self.mon.hit(self.n, M::Id, 0)?;
                Ok(self.node().id)
            }
            fn notation(self) -> Result<&'d VNote, Fault> {
                self.mon.hit(self.n, M::Notation, 0)?;
                Ok(&self.w.notes[self.node().note])
            }
            fn condition(self, c: &Cond) -> Result<bool, Fault> {
                self.mon.hit(self.n, M::Condition, *c as u64)?;
                if self.node().cond_ok & (1 << c) == 0 {
                    self.mon.breach(format!("condition {} asked of node #{}, though no notation checks it there", c, self.n));
                }
                Ok(self.node().conds & (1 << c) != 0)
            }
            fn lookup_style(self, l: Label) -> Result<Sty, Fault> {
                self.mon.hit(self.n, M::LookupStyle, l as u64)?;
                if !self.w.labels_of[self.node().note].contains(&l) {
                    self.mon.breach(format!("style label {} looked up in node #{}, whose notation does not mention it", l, self.n));
                }
                Ok(Sty(vec![tok_label(self.n, l)]))
            }
            fn node_style(self) -> Result<Sty, Fault> {
                self.mon.hit(self.n, M::NodeStyle, 0)?;
                Ok(Sty(if self.node().styled { vec![tok_node(self.n)] } else { vec![] }))
            }
            fn num_children(self) -> Result<Option<usize>, Fault> {
                self.mon.hit(self.n, M::NumChildren, 0)?;
                Ok(self.w.num_children(self.n))
            }
            fn unwrap_text(self) -> Result<&'d str, Fault> {
                self.mon.hit(self.n, M::Text, 0)?;
                match &self.node().kind {
                    Kind::Text(t) => Ok(t),
                    Kind::Kids(_) => {
                        self.mon.breach(format!("unwrap_text on node #{}, which has children", self.n));
                        Ok("")
                    }
                }
            }
            fn unwrap_child(self, i: usize) -> Result<Self, Fault> {
                self.mon.hit(self.n, M::Child, i as u64)?;
                match self.w.kids(self.n).get(i) {
                    Some(k) => Ok($name { n: *k, ..self }),
                    None => {
                        self.mon.breach(format!("unwrap_child({}) on node #{}, which has {:?} children", i, self.n, self.w.num_children(self.n)));
                        Ok(self)
                    }
                }
            }
            $($optional)*
        }
    };
}

doc_impl! { DocO,
    fn unwrap_last_child(self) -> Result<Self, Fault> {
        self.mon.hit(self.n, M::LastChild, 0)?;
        match self.w.kids(self.n).last() {
            Some(k) => Ok(DocO { n: *k, ..self }),
            None => {
                self.mon.breach(format!("unwrap_last_child on node #{}, which has {:?} children", self.n, self.w.num_children(self.n)));
                Ok(self)
            }
        }
    }
    fn unwrap_prev_sibling(self, parent: Self, i: usize) -> Result<Self, Fault> {
        self.mon.hit(self.n, M::PrevSibling, i as u64)?;
        let kids = self.w.kids(parent.n);
        if i + 1 >= kids.len() || kids[i + 1] != self.n {
            self.mon.breach(format!("unwrap_prev_sibling on node #{} with parent #{} and index {}, but that parent's children are {:?}", self.n, parent.n, i, kids));
        }
        // Navigate from *this node's* own position, as a linked tree would.
        let rank = self.w.rank[self.n as usize] as usize;
        let here = if kids.get(rank) == Some(&self.n) { Some(rank) } else { kids.iter().position(|k| *k == self.n) };
        match here {
            Some(p) if p > 0 => Ok(DocO { n: kids[p - 1], ..self }),
            _ => Ok(self),
        }
    }
}
doc_impl! { DocD, }
