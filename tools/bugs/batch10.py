from types import SimpleNamespace as Bug
PP = "src/pretty_print.rs"
CN = "src/consolidated_notation.rs"
DP = "src/pane/display_pane.rs"
DV = "src/pane/divvy.rs"
PT = "src/pane/plain_text.rs"
GE = "src/geometry.rs"
NO = "src/notation.rs"
NC = "src/notation_constructors.rs"
VN = "src/valid_notation.rs"
TR = "src/doc_examples/tree.rs"
ST = "src/doc_examples/style.rs"
JS = "src/doc_examples/json.rs"
BUGS = {}

def bug(id, property, needs, breaks, edits, demo):
    BUGS[id] = Bug(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo)


bug("C20-swallow-error", "C20",
    "a writer that fails while a window's text is written to it",
    "failures of the writer are dropped, so the text is cut short without a word",
    [(PT, "                write!(f, \"{}\", ch)?;\n", "                write!(f, \"{}\", ch).ok();\n"),
     (PT, "            writeln!(f)?;\n", "            writeln!(f).ok();\n")],
    """
use std::fmt::Write;
struct Small(String);
impl Write for Small {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.0.len() + s.len() > 3 { return Err(std::fmt::Error); }
        self.0.push_str(s);
        Ok(())
    }
}
fn main() {
    use partial_pretty_printer::{Pos, pane::{PlainText, PrettyWindow}};
    let mut w = PlainText::<()>::new(9, 1);
    for i in 0..6 { w.display_char('x', Pos { row: 0, col: i }, &(), false).unwrap(); }
    let mut out = Small(String::new());
    assert!(write!(out, "{}", w).is_err());
}
""")

bug("C29-swapped-messages", "C29",
    "a focus on a mark in a node that displays none, or on a text in one that displays none",
    "the messages of the two errors are swapped",
    [(CN, '#[error("FocusMark not found while focusing.")]', '#[error("Text not found  while focusing.")]'),
     (CN, '#[error("Text not found while focusing.")]', '#[error("FocusMark not found while focusing.")]'),
     (CN, '#[error("Text not found  while focusing.")]', '#[error("Text not found while focusing.")]')],
    """
fn main() {
    let e = pretty_print(leaf(text(), "a").node(), 9, &[], FocusTarget::Mark, None).err().unwrap();
    assert!(e.to_string().contains("FocusMark"), "{}", e);
}
""")

bug("C08-check-message", "C08",
    "a check of a child in the zero case of a count",
    "the error's message is that for a child there",
    [(VN, '#[error("Notation contains a CheckPos::Child inside Count.zero, but', '#[error("Notation contains a Child inside Count.zero, but')],
    """
fn main() {
    use partial_pretty_printer::{notation_constructors as nc, CheckPos, Notation};
    let n: Notation<(), ()> = nc::count(nc::Count {
        zero: nc::check((), CheckPos::Child(0), nc::lit("a"), nc::lit("b")),
        one: nc::empty(),
        many: nc::empty(),
    });
    let e = n.validate().err().unwrap();
    assert!(e.to_string().contains("CheckPos"), "{}", e);
}
""")
