from types import SimpleNamespace as Bug
PP = "src/pretty_print.rs"
CN = "src/consolidated_notation.rs"
DP = "src/pane/display_pane.rs"
DV = "src/pane/divvy.rs"
PT = "src/pane/plain_text.rs"
PO = "src/pane/printing_options.rs"
GE = "src/geometry.rs"
NO = "src/notation.rs"
VN = "src/valid_notation.rs"
TR = "src/doc_examples/tree.rs"
JS = "src/doc_examples/json.rs"
OR = "src/oracle.rs"
BUGS = {}

def bug(id, property, needs, breaks, edits, demo):
    BUGS[id] = Bug(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo)

bug("C03-far-text", "C03",
    "a text of more than 65535 characters, and a position that far in it",
    "positions in a text are taken modulo 65536",
    [(CN, "            .nth(char_pos)\n", "            .nth(char_pos as u16 as usize)\n")],
    """
fn main() {
    let d = leaf(text(), &"x".repeat(70_000)).node();
    let (_, row, l, r) = around(d, 80, &[], FocusTarget::Text(69_000)).unwrap();
    assert_eq!((row, l.len(), r.len()), (0, 69_000, 1_000));
}
""")

bug("C24-label-prefix", "C24",
    "a style override whose label is the beginning of another label",
    "a label finds the override of any label that it starts with",
    [(TR, "            if *l == label {\n", "            if label.starts_with(*l) {\n")],
    """
use ppp::doc_examples::{tree::{Tree, TreeNotation}, BasicStyle, Color};
fn main() {
    let note: &'static TreeNotation = Box::leak(Box::new(lit("x").validate().unwrap()));
    let d = Tree::new_branch(note, vec![]).with_style_override("re", BasicStyle::new().color(Color::Blue));
    assert_eq!(format!("{:?}", (&d).lookup_style("red").unwrap()), format!("{:?}", BasicStyle::new().color(Color::Red)));
}
""")

bug("C20-same-focus", "C20",
    "two documents whose focuses are reported at the same position, one after the other",
    "a focus point equal to the one before is not recorded",
    [(PT, "        self.focus_points.push(pos);\n", "        if self.focus_points.last() != Some(&pos) {\n            self.focus_points.push(pos);\n        }\n")],
    """
fn main() {
    let mut w = PlainText::<S>::new(4, 4);
    for _ in 0..2 {
        w.set_focus(Pos { row: 1, col: 2 }).unwrap();
    }
    assert_eq!(w.focus_points(), &[Pos { row: 1, col: 2 }; 2]);
}
""")

bug("C16-coarse-remainders", "C16",
    "proportional panes with huge weights, whose remainders differ only in their lower halves",
    "remainders are compared as floating-point numbers",
    [(DV, "        remainders.sort_by(|(_, r1), (_, r2)| r2.cmp(r1));\n", "        remainders.sort_by(|(_, r1), (_, r2)| (*r2 as f32).total_cmp(&(*r1 as f32)));\n")],
    """
fn main() {
    let mut win = Win::new(3, 1);
    let f = |c| PaneNotation::Fill { ch: c };
    let p = |n| PaneSize::Proportional(n);
    show(&mut win, &PaneNotation::Horz(vec![(p(1_000_000_000), f('a')), (p(1_000_000_001), f('b'))]), &[]).unwrap();
    assert_eq!(win.text(), "abb\\n");
}
""")

bug("C18-clamped-cursor", "C18",
    "a focus to the right of what fits into the pane",
    "the cursor of a document is kept within the width of its pane",
    [(DP, "                col: focused_line.left_width(),\n", "                col: focused_line.left_width().min(size.width),\n")],
    """
fn main() {
    let d = leaf(text(), "abcdefgh").node();
    let mut win = Win::new(6, 1);
    let o = opts(&[], FocusTarget::Text(5), 0.0);
    let pane = PaneNotation::Horz(vec![
        (PaneSize::Fixed(3), PaneNotation::Doc { label: "d" }),
        (PaneSize::Proportional(1), PaneNotation::Fill { ch: '.' }),
    ]);
    show(&mut win, &pane, &[("d", d, o)]).unwrap();
    assert_eq!(win.focus, vec![Pos { row: 0, col: 5 }]);
}
""")

bug("C16-first-lines", "C16",
    "a dynamic-width document with more than a hundred lines, the widest of which is not among the first",
    "only the first hundred lines are measured to find the width of a document",
    [(DP, "        self.lines\n            .iter()\n            .map(|line| line.width() as Width)\n", "        self.lines[..self.lines.len().min(100)]\n            .iter()\n            .map(|line| line.width() as Width)\n")],
    """
fn main() {
    let mut kids = vec![];
    for i in 0..120 {
        kids.push(leaf(text(), if i == 110 { "wide" } else { "x" }).node());
    }
    let d = branch(fold(Fold { first: child(0), join: left() ^ right() }), kids).node();
    let mut win = Win::new(6, 120);
    let pane = PaneNotation::Horz(vec![
        (PaneSize::Dynamic, PaneNotation::Doc { label: "d" }),
        (PaneSize::Proportional(1), PaneNotation::Fill { ch: '.' }),
    ]);
    show(&mut win, &pane, &[("d", d, opts(&[], FocusTarget::Start, 0.0))]).unwrap();
    assert_eq!(win.text().lines().nth(110), Some("wide.."));
}
""")

bug("C15-control-fill", "C15",
    "a pane filled with a control character",
    "control characters are taken for an invisible filling, and nothing is drawn",
    [(DP, "                while rect.max_col - col >= char_width {\n", "                while rect.max_col - col >= char_width && !ch.is_control() {\n"),
     (DP, "                if col < rect.max_col {\n                    window\n", "                if col < rect.max_col && is_full_width {\n                    window\n")],
    """
fn main() {
    let mut win = Win::new(3, 1);
    show(&mut win, &PaneNotation::Fill { ch: '\\u{7}' }, &[]).unwrap();
    assert_eq!(win.text(), "\\u{7}\\u{7}\\u{7}\\n");
}
""")

bug("C12-copied-output", "C12",
    "a long document printed to a string",
    "the string printed so far is copied for every line",
    [(PP, "    for line in lines_iter {\n        string.push('\\n');\n        string.push_str(&line?.to_string());\n    }\n", "    for line in lines_iter {\n        string = format!(\"{}\\n{}\", string, line?.to_string());\n    }\n")],
    """
use std::alloc::{GlobalAlloc, Layout, System};
struct Count;
static BYTES: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        BYTES.fetch_add(l.size() as u64, std::sync::atomic::Ordering::SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        BYTES.fetch_add(n as u64, std::sync::atomic::Ordering::SeqCst);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static COUNT: Count = Count;
fn cost(n: usize) -> u64 {
    let kids = (0..n).map(|_| leaf(text(), "0123456789").node()).collect();
    let d = branch(fold(Fold { first: child(0), join: left() ^ right() }), kids).node();
    LOG.with(|l| l.borrow_mut().reserve(1 << 20));
    let before = BYTES.load(std::sync::atomic::Ordering::SeqCst);
    pretty_print_to_string(d, 80).unwrap();
    BYTES.load(std::sync::atomic::Ordering::SeqCst) - before
}
fn main() {
    let (a, b) = (cost(200), cost(6400));
    assert!(b < a * 32 * 3, "{} {}", a, b);
}
""")

bug("C13-width-log", "C13",
    "a long document whose lines are consumed one by one",
    "each printer keeps the width of every line it has printed",
    [(PP, "        next_blocks: printer.next_blocks,\n    });\n", "        next_blocks: printer.next_blocks,\n    }, Vec::new());\n"),
     (PP, "struct DownwardPrinter<'d, D: PrettyDoc<'d>>(Printer<'d, D>);\n", "/// It remembers how wide the lines were.\nstruct DownwardPrinter<'d, D: PrettyDoc<'d>>(Printer<'d, D>, Vec<Width>);\n"),
     (PP, "        self.0.print_next_line().transpose()\n", "        let line = self.0.print_next_line().transpose();\n        if let Some(Ok(line)) = &line {\n            self.1.push(line.width());\n        }\n        line\n")],
    """
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct Count;
static BIGGEST: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        BIGGEST.fetch_max(l.size(), SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        BIGGEST.fetch_max(n, SeqCst);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static COUNT: Count = Count;
#[derive(Clone, Copy)]
struct Endless(u32, &'static ValidNotation<&'static str, &'static str>);
impl<'d> PrettyDoc<'d> for Endless {
    type Id = u32;
    type Style = ();
    type StyleLabel = &'static str;
    type Condition = &'static str;
    type Error = Boom;
    fn id(self) -> Result<u32, Boom> { Ok(self.0) }
    fn notation(self) -> Result<&'d ValidNotation<&'static str, &'static str>, Boom> { Ok(self.1) }
    fn condition(self, _: &&'static str) -> Result<bool, Boom> { Ok(false) }
    fn lookup_style(self, _: &'static str) -> Result<(), Boom> { Ok(()) }
    fn node_style(self) -> Result<(), Boom> { Ok(()) }
    fn num_children(self) -> Result<Option<usize>, Boom> { Ok(Some(1)) }
    fn unwrap_text(self) -> Result<&'d str, Boom> { panic!() }
    fn unwrap_child(self, _: usize) -> Result<Self, Boom> { Ok(Endless(self.0 + 1, self.1)) }
}
fn main() {
    let note: &'static ValidNotation<_, _> = Box::leak(Box::new((lit("x") + nl() + child(0)).validate().unwrap()));
    let (_, _, mut down) = pretty_print(Endless(0, note), 80, &[], FocusTarget::Start, None).unwrap();
    for _ in 0..100_000 {
        assert_eq!(down.next().unwrap().unwrap().to_string(), "x");
    }
    assert!(BIGGEST.load(SeqCst) < 50_000, "{}", BIGGEST.load(SeqCst));
}
""")

bug("C01-count-wrap", "C01",
    "a node with 256 or 257 children, displayed by a Count",
    "the number of children is counted in a byte",
    [(CN, "            Count { zero, one, many } => match self.doc.num_children()? {\n", "            Count { zero, one, many } => match self.doc.num_children()?.map(|n| n as u8) {\n")],
    """
fn main() {
    for n in [3usize, 255, 256, 257, 258] {
        let kids = (0..n).map(|_| leaf(text(), "x").node()).collect();
        let d = branch(count(Count { zero: lit("0"), one: lit("1"), many: lit("many") }), kids).node();
        assert_eq!(pretty_print_to_string(d, 80).unwrap(), "many");
    }
}
""")

bug("C10-wide-index", "C10",
    "a fold over more than 65536 children",
    "the index of the child in a fold is kept in sixteen bits",
    [(CN, "                        *child = child.unwrap_prev_sibling(*parent, *index - 1)?;\n                        *index -= 1;\n", "                        *index -= 1;\n                        *child = child.unwrap_prev_sibling(*parent, *index as u16 as usize)?;\n")],
    """
fn main() {
    let kids = (0..70_000).map(|i| leaf(text(), if i % 65_536 == 7 && i > 7 { "!" } else { "x" }).node()).collect();
    let d = branch(fold(Fold { first: child(0), join: left() + right() }), kids).node();
    let s = pretty_print_to_string(d, 80).unwrap();
    assert_eq!(s.find('!'), Some(65_543));
    assert_eq!(s.matches('!').count(), 1);
}
""")

bug("C11-root-style", "C11",
    "a root style, and a document whose root fails to tell its node style",
    "if there is a root style, an error of the root's node style is ignored",
    [(CN, "                D::Style::combine(style, &doc.node_style()?)\n", "                match doc.node_style() {\n                    Ok(node_style) => D::Style::combine(style, &node_style),\n                    Err(_) => style.clone(),\n                }\n")],
    """
fn main() {
    let d = leaf(text(), "x").fails("node_style").node();
    assert!(pretty_print(d, 80, &[], FocusTarget::Start, Some(&s("r"))).is_err());
}
""")

bug("C23-round-suffix", "C23",
    "an option of a choice that contains pieces whose widths add up to ten thousand columns or more",
    "the number of columns that follow is taken modulo ten thousand",
    [(OR, "            let suffix_len = first_line_len(y.eval()?, suffix_len)?.map(|w| w.min(MAX_WIDTH));\n", "            let suffix_len = first_line_len(y.eval()?, suffix_len)?.map(|w| w % MAX_WIDTH);\n")],
    """
fn main() {
    let d = branch(lit("x") + ((lit("y") + child(0)) | nl()), vec![leaf(text(), &"z".repeat(10_000)).node()]).node();
    assert_eq!(ppp::testing::oracular_pretty_print(d, 50), pretty_print_to_string(d, 50).unwrap());
}
""")

bug("C25-unchecked-sentinel", "C25",
    "a full-width character drawn at the end of a row",
    "the column after a full-width character is written without room for it",
    [(PT, "        if line.len() < col + width {\n            line.resize(col + width, Some(' '));\n        }\n", "        if line.len() < col + 1 {\n            line.resize(col + 1, Some(' '));\n        }\n"),
     (PT, "            line[col + 1] = SENTINEL;\n", "            if line.len() < col + width {\n                line.reserve(width - 1);\n                // The room has been reserved.\n                unsafe {\n                    line.as_mut_ptr().add(col + 2).write(SENTINEL);\n                    line.as_mut_ptr().add(col + 1).write(SENTINEL);\n                    line.set_len(col + 2);\n                }\n            } else {\n                line[col + 1] = SENTINEL;\n            }\n")],
    """
use std::alloc::{GlobalAlloc, Layout, System};
struct Fenced;
// Every block is followed by sixteen bytes that have to stay as they are.
unsafe impl GlobalAlloc for Fenced {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + 16, l.align()));
        std::ptr::write_bytes(p.add(l.size()), 0xa5, 16);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        for i in 0..16 {
            if *p.add(l.size() + i) != 0xa5 {
                std::process::exit(1);
            }
        }
        System.dealloc(p, Layout::from_size_align_unchecked(l.size() + 16, l.align()))
    }
}
#[global_allocator]
static FENCED: Fenced = Fenced;
fn main() {
    for n in 1..40 {
        let mut w = PlainText::<S>::new(100, 1);
        for col in 0..n {
            w.display_char('x', Pos { row: 0, col }, &s(""), false).unwrap();
        }
        w.display_char('一', Pos { row: 0, col: n }, &s(""), true).unwrap();
        assert_eq!(w.to_string(), format!("{}一\\n", "x".repeat(n as usize)));
    }
}
""")

bug("C29-pos-order", "C29",
    "positions in different rows and columns that are compared",
    "positions are ordered column by column",
    [(GE, "pub struct Pos {\n    pub row: Row,\n    pub col: Col,\n}", "pub struct Pos {\n    pub col: Col,\n    pub row: Row,\n}")],
    """
fn main() {
    assert!(Pos { row: 1, col: 0 } > Pos { row: 0, col: 5 });
}
""")

bug("C22-wide-index", "C22",
    "a child index that does not fit into 32 bits, in a notation that is serialized",
    "child indices are serialized as 32-bit numbers",
    [(NO, "    /// for which [`PrettyDoc::num_children()`] returns `Some(n)`, with `-n <= i < n`.\n    Child(isize),\n", """    /// for which [`PrettyDoc::num_children()`] returns `Some(n)`, with `-n <= i < n`.
    Child(#[cfg_attr(feature = "serialization", serde(serialize_with = "serialize_index"))] isize),
"""),
     (NO, "/// Which document node to check a [`Condition`] on.\n", """#[cfg(feature = "serialization")]
fn serialize_index<S: serde::Serializer>(i: &isize, s: S) -> Result<S::Ok, S::Error> {
    s.serialize_i32(*i as i32)
}

/// Which document node to check a [`Condition`] on.
""")],
    """
fn main() {
    type M = Notation<String, String>;
    let n: M = Notation::Child(1 << 40);
    let t = serde_json::to_string(&n).unwrap();
    let m: M = serde_json::from_str(&t).unwrap();
    assert_eq!(m.to_string(), n.to_string());
}
""")

bug("C19-filler-error", "C19",
    "a pane of odd width filled with a full-width character, and a window that fails while the blank column is drawn",
    "the window's error is dropped",
    [(DP, "                    window\n                        .display_char(' ', Pos { row, col }, style, false)\n                        .map_err(PaneError::PrettyWindowError)?;\n", "                    let _ = window.display_char(' ', Pos { row, col }, style, false);\n")],
    """
fn main() {
    let mut win = Win::new(3, 2);
    win.fail_at = 2;
    assert!(show(&mut win, &PaneNotation::Fill { ch: '一' }, &[]).is_err());
    assert_eq!(win.calls, 2);
}
""")

bug("C05-join-style", "C05",
    "a Style notation inside a fold's join, and nodes that give different meanings to a label",
    "inside a fold's join, labels are looked up on the child",
    [(CN, "                    D::Style::combine(&self.style, &self.doc.lookup_style(style_label.clone())?);\n", "                    D::Style::combine(&self.style, &self.join_pos.map_or(self.doc, |join_pos| join_pos.child).lookup_style(style_label.clone())?);\n")],
    """
fn main() {
    let kids = vec![leaf(text(), "x").node(), leaf(text(), "y").node()];
    let d = branch(fold(Fold { first: child(0), join: left() + style("a", lit(",")) + right() }), kids).node();
    let (lines, ..) = around(d, 80, &[], FocusTarget::Start).unwrap();
    assert_eq!(lines[0][1], (",".to_string(), vec![format!("a@{}", d.id)]));
}
""")

