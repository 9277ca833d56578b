from types import SimpleNamespace as Bug
PP = "src/pretty_print.rs"
CN = "src/consolidated_notation.rs"
DP = "src/pane/display_pane.rs"
GE = "src/geometry.rs"
NO = "src/notation.rs"
BUGS = {}

def bug(id, property, needs, breaks, edits, demo):
    BUGS[id] = Bug(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo)

bug("C29-optional", "C29",
    "a notation with a choice whose second option is empty, displayed",
    "a choice between something and nothing is displayed like a literal",
    [(NO, '            Choice(opt1, opt2) => write!(f, "({} | {})", opt1, opt2),', '            Choice(something, nothing) if matches!(**nothing, Empty) => {\n                write!(f, "\'{}\'", something)\n            }\n            Choice(left, right) => write!(f, "({} | {})", left, right),')],
    """
fn main() {
    let n: N = lit("a") | empty();
    assert_eq!(n.to_string(), "('a' | ε)");
}
""")

bug("C29-column-carry", "C29",
    "a position moved past column 255",
    "adding a size to a position carries columns beyond a byte into nowhere",
    [(GE, "            col: self.col + size.width,", "            col: (self.col & 0xff00) | (self.col + size.width) & 0xff,")],
    """
fn main() {
    assert_eq!(Pos { row: 1, col: 200 } + Size { width: 100, height: 2 }, Pos { row: 3, col: 300 });
}
""")

bug("C29-no-source", "C29",
    "an error handler that walks the chain of sources of a window error",
    "the window's error is no longer the source of the pane error",
    [(DP, "    PrettyWindowError(#[source] W),", "    PrettyWindowError(W),")],
    """
use std::error::Error;
fn main() {
    let e: PaneError<Boom, Boom> = PaneError::PrettyWindowError(Boom(3));
    assert!(e.source().is_some());
}
""")

bug("C01-flat-first", "C01",
    "a fold of three or more children inside a Flat, whose `first` has a choice",
    "the first child of a fold is not flat, if its siblings before last are",
    [(CN, "                    if *index == 1 {\n                        self.notation = *first;\n", "                    if *index <= 1 {\n                        self.notation = *first;\n                        self.flat = self.flat && child.num_children()? != Some(3);\n")],
    """
fn main() {
    let x = || leaf(lit("x"), "").node();
    let y = branch(lit("y"), vec![x(), x(), x()]).node();
    let d = branch(flat(fold(Fold { first: lit("aaaa") | lit("a") + nl() + lit("a"), join: left() + lit(" ") + right() })), vec![x(), y, x()]).node();
    assert_eq!(pretty_print_to_string(d, 3).unwrap(), "aaaa y x");
}
""")

bug("C06-ascii-width", "C06",
    "a text of ASCII characters longer than 65535 columns, or with control characters",
    "the width of ASCII strings is their length, modulo 65536",
    [(GE, "pub fn str_width(s: &str) -> Width {\n", "pub fn str_width(s: &str) -> Width {\n    if s.is_ascii() {\n        return s.len() as Width;\n    }\n"),
     (GE, "/// bytes, Unicode code points, or Unicode grapheme clusters. At most `Width::MAX`.", "/// bytes, Unicode code points, or Unicode grapheme clusters.")],
    """
fn main() {
    let d = leaf(text(), &"a".repeat(70000)).node();
    let (_, f, _) = pretty_print(d, 80, &[], FocusTarget::Start, None).unwrap();
    assert_eq!(f.width(), Width::MAX);
}
""")

bug("C09-child-index", "C09",
    "a negative child index that is out of range",
    "the error for a negative child index names the index counted from the other end",
    [(CN, "                    None => Err(PrintingError::ChildIndexOutOfBounds { index: *i, len: n }),", "                    None => {\n                        let index = if *i < 0 { *i + n as isize } else { *i };\n                        Err(PrintingError::ChildIndexOutOfBounds { index, len: n })\n                    }")],
    """
fn main() {
    let d = branch(child(-3), vec![leaf(lit("x"), "").node()]).node();
    assert!(matches!(pretty_print_to_string(d, 80), Err(PrintingError::ChildIndexOutOfBounds { index: -3, len: 1 })));
}
""")

bug("C11-sibling-fallback", "C11",
    "a document whose unwrap_prev_sibling fails, but whose unwrap_child does not",
    "an error from unwrap_prev_sibling is swallowed, and unwrap_child used instead",
    [(CN, "                        *child = child.unwrap_prev_sibling(*parent, *index - 1)?;", "                        *child = match child.unwrap_prev_sibling(*parent, *index - 1) {\n                            Ok(sibling) => sibling,\n                            Err(_) => parent.unwrap_child(*index - 1)?,\n                        };")],
    """
#[derive(Clone, Copy)]
struct Doc(&'static Node);
impl PrettyDoc<'static> for Doc {
    type Id = u32;
    type Style = S;
    type StyleLabel = &'static str;
    type Condition = &'static str;
    type Error = Boom;
    fn id(self) -> Result<u32, Boom> { self.0.id() }
    fn notation(self) -> Result<&'static ValidNotation<&'static str, &'static str>, Boom> { self.0.notation() }
    fn condition(self, c: &&'static str) -> Result<bool, Boom> { self.0.condition(c) }
    fn lookup_style(self, l: &'static str) -> Result<S, Boom> { self.0.lookup_style(l) }
    fn node_style(self) -> Result<S, Boom> { self.0.node_style() }
    fn num_children(self) -> Result<Option<usize>, Boom> { self.0.num_children() }
    fn unwrap_text(self) -> Result<&'static str, Boom> { self.0.unwrap_text() }
    fn unwrap_child(self, i: usize) -> Result<Self, Boom> { self.0.unwrap_child(i).map(Doc) }
    fn unwrap_prev_sibling(self, _: Self, _: usize) -> Result<Self, Boom> { Err(Boom(77)) }
}
fn main() {
    let x = || leaf(lit("x"), "").node();
    let d = branch(fold(Fold { first: child(0), join: left() + right() }), vec![x(), x(), x()]).node();
    assert!(matches!(pretty_print_to_string(Doc(d), 80), Err(PrintingError::PrettyDoc(Boom(77)))));
}
""")

bug("C16-float", "C16",
    "proportional weights beyond 2^24, or nearly equal remainders",
    "shares are computed in single precision",
    [("src/pane/divvy.rs", "            .map(|hunger| cookies * *hunger as u128 % total_hunger)", "            .map(|hunger| {\n                let share = cookies as f32 * (*hunger as f32 / total_hunger as f32);\n                (share.fract() * 1e6) as u128\n            })")],
    """
fn main() {
    let n = PaneNotation::Horz(vec![
        (PaneSize::Proportional(100_000_001), PaneNotation::Fill { ch: 'a' }),
        (PaneSize::Proportional(100_000_003), PaneNotation::Fill { ch: 'b' }),
    ]);
    let mut w = Win::new(3, 1);
    show(&mut w, &n, &[]).unwrap();
    assert_eq!(w.text(), "abb\\n");
}
""")

bug("C17-no-more-than-zero", "C17",
    "a width strategy of no more than zero columns",
    "NoMoreThan(0) means no limit",
    [("src/pane/printing_options.rs", "            WidthStrategy::NoMoreThan(width) => width.min(available_width),", "            WidthStrategy::NoMoreThan(0) => available_width,\n            WidthStrategy::NoMoreThan(width) => available_width.min(width),")],
    """
fn main() {
    let d = leaf(lit("ab") | lit("a") + nl() + lit("b"), "").node();
    let mut w = Win::new(4, 2);
    let mut o = opts(&[], FocusTarget::Start, 0.0);
    o.width_strategy = WidthStrategy::NoMoreThan(0);
    show(&mut w, &PaneNotation::Doc { label: "d" }, &[("d", d, o)]).unwrap();
    assert_eq!(w.text(), "a   \\nb   \\n");
}
""")

bug("C08-style-history", "C08",
    "an end-of-line marker inside a style, followed by text",
    "what a styled notation ends with is forgotten in validation",
    [("src/valid_notation.rs", "            Style(_, note) => note.validate_rec(history, ctx),", "            Style(_, note) => {\n                let after = note.validate_rec(history, ctx)?;\n                Ok(History { mark: after.mark, ..history })\n            }")],
    """
fn main() {
    let n: N = style("s", lit("a") + eol()) + lit("b");
    assert!(n.validate().is_err());
}
""")

bug("C12-clone-chunks", "C12",
    "a line with many siblings after each of its choices",
    "to see whether an option fits, the whole rest of the line is copied",
    [(PP, "    let mut next_chunks = next_chunks;\n    let mut remaining = width;", "    let next_notations: Vec<_> = next_chunks\n        .iter()\n        .map(|chunk| Chunk {\n            id: chunk.id,\n            notation: chunk.notation.clone(),\n        })\n        .collect();\n    let mut next_chunks = &next_notations[..];\n    let mut remaining = width;")],
    """
fn main() {
    let cost = |n: usize| {
        let mut d = leaf(lit("end"), "").node();
        let kids: Vec<_> = (0..n).map(|_| leaf(text(), "w").node()).collect();
        d = branch(fold(Fold { first: child(0), join: left() + (lit(" ") | nl()) + right() }), kids).node();
        let t = std::time::Instant::now();
        pretty_print_to_string(d, 30).unwrap();
        t.elapsed().as_secs_f64()
    };
    cost(1000);
    let (a, b) = (cost(1000).max(0.001), cost(16000));
    assert!(b < 80.0 * a, "{} s for 1000 words, {} s for 16000", a, b);
}
""")
