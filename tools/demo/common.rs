// Shared by the demonstrations: a small document type with everything settable and countable.
#![allow(dead_code, unused_imports)]
pub use partial_pretty_printer as ppp;
pub use ppp::notation_constructors::*;
pub use ppp::pane::*;
pub use ppp::{
    pretty_print, pretty_print_to_string, CheckPos, FocusTarget, Line, Notation, NotationError, Pos, PrettyDoc,
    PrintingError, Row, Size, Style, ValidNotation, Width,
};
pub use std::cell::{Cell, RefCell};

pub type N = Notation<&'static str, &'static str>;
/// A style that remembers how it was put together.
#[derive(Debug, Clone, Default, PartialEq, Eq)]
pub struct S(pub Vec<String>);
impl Style for S {
    fn combine(a: &S, b: &S) -> S {
        S(a.0.iter().chain(b.0.iter()).cloned().collect())
    }
}
pub fn s(x: &str) -> S {
    S(if x.is_empty() { vec![] } else { x.split(' ').map(|t| t.to_string()).collect() })
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Boom(pub u32);
impl std::fmt::Display for Boom {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "boom {}", self.0)
    }
}
impl std::error::Error for Boom {}

pub enum Kind {
    Text(String),
    Kids(Vec<&'static Node>),
}
pub struct Node {
    pub id: u32,
    pub note: ValidNotation<&'static str, &'static str>,
    pub kind: Kind,
    pub conds: Vec<&'static str>,
    pub style: S,
    /// Name of the method that fails on this node.
    pub fails: &'static str,
}
thread_local! {
    static NEXT: Cell<u32> = Cell::new(0);
    pub static CALLS: Cell<u64> = Cell::new(0);
    pub static LOG: RefCell<Vec<String>> = RefCell::new(vec![]);
}
pub struct B(Node);
pub fn leaf(note: N, text: &str) -> B {
    B::new(note, Kind::Text(text.to_string()))
}
pub fn branch(note: N, kids: Vec<&'static Node>) -> B {
    B::new(note, Kind::Kids(kids))
}
impl B {
    fn new(note: N, kind: Kind) -> B {
        let id = NEXT.with(|n| {
            n.set(n.get() + 1);
            n.get()
        });
        B(Node { id, note: note.validate().expect("valid"), kind, conds: vec![], style: s(""), fails: "" })
    }
    pub fn cond(mut self, c: &'static str) -> B {
        self.0.conds.push(c);
        self
    }
    pub fn style(mut self, x: &str) -> B {
        self.0.style = s(x);
        self
    }
    pub fn fails(mut self, m: &'static str) -> B {
        self.0.fails = m;
        self
    }
    pub fn node(self) -> &'static Node {
        Box::leak(Box::new(self.0))
    }
}
fn at(n: &Node, m: &'static str) -> Result<(), Boom> {
    CALLS.with(|c| c.set(c.get() + 1));
    LOG.with(|l| l.borrow_mut().push(format!("{} {}", m, n.id)));
    if n.fails == m {
        Err(Boom(n.id))
    } else {
        Ok(())
    }
}
impl<'d> PrettyDoc<'d> for &'d Node {
    type Id = u32;
    type Style = S;
    type StyleLabel = &'static str;
    type Condition = &'static str;
    type Error = Boom;
    fn id(self) -> Result<u32, Boom> {
        at(self, "id")?;
        Ok(self.id)
    }
    fn notation(self) -> Result<&'d ValidNotation<&'static str, &'static str>, Boom> {
        at(self, "notation")?;
        Ok(&self.note)
    }
    fn condition(self, c: &&'static str) -> Result<bool, Boom> {
        at(self, "condition")?;
        Ok(self.conds.contains(c))
    }
    fn lookup_style(self, l: &'static str) -> Result<S, Boom> {
        at(self, "lookup_style")?;
        Ok(s(&format!("{}@{}", l, self.id)))
    }
    fn node_style(self) -> Result<S, Boom> {
        at(self, "node_style")?;
        Ok(self.style.clone())
    }
    fn num_children(self) -> Result<Option<usize>, Boom> {
        at(self, "num_children")?;
        Ok(match &self.kind {
            Kind::Text(_) => None,
            Kind::Kids(k) => Some(k.len()),
        })
    }
    fn unwrap_text(self) -> Result<&'d str, Boom> {
        at(self, "unwrap_text")?;
        match &self.kind {
            Kind::Text(t) => Ok(t),
            Kind::Kids(_) => panic!("unwrap_text on a branch"),
        }
    }
    fn unwrap_child(self, i: usize) -> Result<Self, Boom> {
        at(self, "unwrap_child")?;
        match &self.kind {
            Kind::Text(_) => panic!("unwrap_child on a text"),
            Kind::Kids(k) => Ok(k[i]),
        }
    }
}
/// (text, style) of each piece, with equal neighbours merged
pub type Runs = Vec<(String, Vec<String>)>;
pub fn runs(l: &Line<'static, &'static Node>) -> Runs {
    let mut v: Runs = vec![];
    for x in &l.segments {
        if x.str.is_empty() {
            continue;
        }
        match v.last_mut() {
            Some(last) if last.1 == x.style.0 => last.0.push_str(x.str),
            _ => v.push((x.str.to_string(), x.style.0.clone())),
        }
    }
    v
}
/// All lines around a focus, and the row, left part and right part of the focused one.
pub fn around(d: &'static Node, w: Width, path: &[usize], t: FocusTarget) -> Result<(Vec<Runs>, usize, String, String), PrintingError<Boom>> {
    let (up, f, down) = pretty_print(d, w, path, t, None)?;
    let mut above = vec![];
    for l in up {
        above.push(runs(&l?));
    }
    above.reverse();
    let row = above.len();
    let (a, b) = (f.to_left_string(), f.to_right_string());
    above.push(runs(&Line::from(f)));
    for l in down {
        above.push(runs(&l?));
    }
    Ok((above, row, a, b))
}
/// A window that records what is drawn.
pub struct Win {
    pub size: Size,
    pub chars: Vec<(char, Pos, S, bool)>,
    pub focus: Vec<Pos>,
    pub fail_at: usize,
    pub calls: usize,
}
impl Win {
    pub fn new(width: Width, height: u32) -> Win {
        Win { size: Size { width, height }, chars: vec![], focus: vec![], fail_at: usize::MAX, calls: 0 }
    }
    fn call(&mut self) -> Result<(), Boom> {
        self.calls += 1;
        if self.calls == self.fail_at {
            return Err(Boom(self.fail_at as u32));
        }
        Ok(())
    }
    pub fn at(&self, row: Row, col: u16) -> Vec<&(char, Pos, S, bool)> {
        self.chars.iter().filter(|c| c.1.row == row && (c.1.col == col || c.3 && c.1.col + 1 == col)).collect()
    }
    pub fn text(&self) -> String {
        let mut out = String::new();
        for row in 0..self.size.height {
            let mut v: Vec<_> = self.chars.iter().filter(|c| c.1.row == row).collect();
            v.sort_by_key(|c| c.1.col);
            out.extend(v.iter().map(|c| c.0));
            out.push('\n');
        }
        out
    }
}
impl PrettyWindow for Win {
    type Error = Boom;
    type Style = S;
    fn size(&self) -> Result<Size, Boom> {
        Ok(self.size)
    }
    fn display_char(&mut self, ch: char, pos: Pos, style: &S, full_width: bool) -> Result<(), Boom> {
        self.call()?;
        self.chars.push((ch, pos, style.clone(), full_width));
        Ok(())
    }
    fn set_focus(&mut self, pos: Pos) -> Result<(), Boom> {
        self.call()?;
        self.focus.push(pos);
        Ok(())
    }
}
pub fn opts(path: &[usize], target: FocusTarget, h: f32) -> PrintingOptions {
    PrintingOptions { focus_path: path.to_vec(), focus_target: target, focus_height: h, width_strategy: WidthStrategy::Full, set_focus: true }
}
pub fn show(win: &mut Win, note: &PaneNotation<&'static str, S>, docs: &[(&'static str, &'static Node, PrintingOptions)]) -> Result<(), PaneError<Boom, Boom>> {
    display_pane(win, note, &s("win"), &|l: &'static str| docs.iter().find(|d| d.0 == l).map(|d| (d.1, d.2.clone())))
}
