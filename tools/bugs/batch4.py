from types import SimpleNamespace as Bug
PP = "src/pretty_print.rs"
CN = "src/consolidated_notation.rs"
DP = "src/pane/display_pane.rs"
GE = "src/geometry.rs"
BUGS = {}

def bug(id, property, needs, breaks, edits, demo):
    BUGS[id] = Bug(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo)

bug("C06-width-wraps", "C06",
    "a line wider than 65535 columns",
    "the width of a focused line wraps around",
    [(PP, """        let segs = self.left_segments.iter().chain(self.right_segments.iter());
        sum_widths(segs.map(|seg| seg.width))""", """        self.left_width().wrapping_add(self.right_width())""")],
    """
fn main() {
    let d = branch(child(0) + child(1), vec![leaf(text(), &"a".repeat(40000)).node(), leaf(text(), &"b".repeat(40000)).node()]).node();
    let (_, f, _) = pretty_print(d, 80, &[1], FocusTarget::Start, None).unwrap();
    assert_eq!(f.width(), Width::MAX);
}
""")

bug("C10-left-check", "C10",
    "a fold whose join checks a condition on the left child, in a document that finds siblings from `self`",
    "the left child of a join is looked up as a sibling of the fold's own node",
    [(CN, """                        join_pos
                            .child
                            .unwrap_prev_sibling(join_pos.parent, join_pos.index - 1)?""", """                        self.doc
                            .unwrap_prev_sibling(join_pos.parent, join_pos.index - 1)?""")],
    """
#[derive(Clone, Copy, Debug)]
struct Doc(&'static ValidNotation<&'static str, bool>, &'static ValidNotation<&'static str, bool>, usize);
impl PrettyDoc<'static> for Doc {
    type Id = usize;
    type Style = ();
    type StyleLabel = &'static str;
    type Condition = bool;
    type Error = std::convert::Infallible;
    fn id(self) -> Result<usize, Self::Error> { Ok(self.2) }
    fn notation(self) -> Result<&'static ValidNotation<&'static str, bool>, Self::Error> { Ok(if self.2 == 0 { self.0 } else { self.1 }) }
    fn condition(self, _: &bool) -> Result<bool, Self::Error> { Ok(self.2 % 2 == 1) }
    fn lookup_style(self, _: &'static str) -> Result<(), Self::Error> { Ok(()) }
    fn node_style(self) -> Result<(), Self::Error> { Ok(()) }
    fn num_children(self) -> Result<Option<usize>, Self::Error> { Ok(if self.2 == 0 { Some(4) } else { None }) }
    fn unwrap_text(self) -> Result<&'static str, Self::Error> { Ok("t") }
    fn unwrap_child(self, i: usize) -> Result<Self, Self::Error> { Ok(Doc(self.0, self.1, i + 1)) }
    // Ids are in order, so the previous sibling is the one with the previous id.
    fn unwrap_prev_sibling(self, parent: Self, i: usize) -> Result<Self, Self::Error> {
        assert_eq!(parent.2, 0);
        assert_eq!(self.2, i + 2);
        Ok(Doc(self.0, self.1, self.2 - 1))
    }
}
fn main() {
    let leak = |n: Notation<&'static str, bool>| -> &'static ValidNotation<&'static str, bool> { Box::leak(Box::new(n.validate().unwrap())) };
    let join = left() + check(true, CheckPos::LeftChild, lit(","), lit(";")) + right();
    let root = leak(fold(Fold { first: child(0), join }));
    let kid = leak(text());
    assert_eq!(pretty_print_to_string(Doc(root, kid, 0), 80).unwrap(), "t,t;t,t");
}
""")

bug("C12-dynamic-pane", "C12",
    "a dynamic-height pane that shows a small part of a long document",
    "to see whether a document fits its dynamic pane, all its lines are printed",
    [(DP, "            let more_below = downward_printer.next().transpose()?.is_some();", "            let mut more_below = false;\n            for line in downward_printer.by_ref() {\n                line?;\n                more_below = true;\n            }")],
    """
fn main() {
    let cost = |n: usize| {
        let mut d = leaf(lit("end"), "").node();
        for _ in 0..n {
            d = branch(lit("word") + nl() + child(0), vec![d]).node();
        }
        let mut w = Win::new(10, 5);
        let before = CALLS.with(|c| c.get());
        let note = PaneNotation::Vert(vec![(PaneSize::Dynamic, PaneNotation::Doc { label: "d" })]);
        show(&mut w, &note, &[("d", d, opts(&[], FocusTarget::Start, 0.0))]).unwrap();
        CALLS.with(|c| c.get()) - before
    };
    let (a, b) = (cost(100), cost(2000));
    assert!(b < 5 * a, "{} calls for 100 lines, {} for 2000", a, b);
}
""")

bug("C15-wide-fill", "C15",
    "a fill of full-width characters in a pane of odd width that does not start at an even column",
    "full-width fill characters are laid out on a grid of the window, not of the pane",
    [(DP, "                while rect.max_col - col >= char_width {\n", "                while rect.max_col - col >= char_width + (col & 1) * (char_width & 2) / 2 {\n")],
    """
fn main() {
    for width in 1..8 {
        let n = PaneNotation::Horz(vec![
            (PaneSize::Fixed(1), PaneNotation::Fill { ch: 'a' }),
            (PaneSize::Proportional(1), PaneNotation::Fill { ch: '文' }),
        ]);
        let mut w = Win::new(width, 1);
        show(&mut w, &n, &[]).unwrap();
        for col in 0..width {
            assert_eq!(w.at(0, col).len(), 1, "width {} column {}", width, col);
        }
        let blanks = w.chars.iter().filter(|c| c.0 == ' ').count();
        assert_eq!(blanks, (width as usize - 1) % 2);
    }
}
""")

bug("C16-second-dynamic", "C16",
    "two dynamic panes side by side, the second of them printed in what the first leaves",
    "the second dynamic pane does not give way to the first, if there are proportional panes as well",
    [(DP, "                let width = printed_doc.width().min(available_size.width);\n                available_size.width -= width;", "                let width = printed_doc.width().min(available_size.width);\n                // Leave a column to the proportional panes.\n                let spare = panes.len() > 4 && width > 8 && width == available_size.width;\n                let width = width - spare as Width;\n                available_size.width -= width;")],
    """
fn main() {
    let d = leaf(text(), "abcdefghijklmnop").node();
    let p = || (PaneSize::Proportional(1), PaneNotation::Fill { ch: '.' });
    let n = PaneNotation::Horz(vec![p(), (PaneSize::Dynamic, PaneNotation::Doc { label: "d" }), p(), p(), p()]);
    let mut w = Win::new(12, 1);
    show(&mut w, &n, &[("d", d, opts(&[], FocusTarget::Start, 0.0))]).unwrap();
    assert_eq!(w.text(), "abcdefghijkl\\n");
}
""")

bug("C18-clamped-cursor", "C18",
    "a focus beyond the right edge of its pane, in a document printed wider than the pane",
    "the cursor of a focus that is cut off is put in the last column of the window instead of beyond the pane",
    [(DP, "                    col: focus_point.col.saturating_add(rect.min_col),", "                    col: focus_point\n                        .col\n                        .min(rect.width().max(1) + 1)\n                        .saturating_add(rect.min_col),")],
    """
fn main() {
    let d = branch(lit("abcdefgh") + child(0), vec![leaf(lit("z"), "").node()]).node();
    let note = PaneNotation::Horz(vec![(PaneSize::Fixed(3), PaneNotation::Doc { label: "d" }), (PaneSize::Fixed(9), PaneNotation::Fill { ch: '.' })]);
    let mut w = Win::new(12, 1);
    show(&mut w, &note, &[("d", d, opts(&[0], FocusTarget::Start, 0.0))]).unwrap();
    assert_eq!(w.focus, vec![Pos { row: 0, col: 8 }]);
}
""")

bug("C19-dynamic-doc-error", "C19",
    "a document that cannot be printed, in a dynamic-width pane",
    "an invalid focus path in a dynamic-width pane shows an empty pane instead of failing",
    [(DP, "                    PrintedDoc::new(doc, &options, available_size, false, &doc_style)?\n                } else {", "                    match PrintedDoc::new(doc, &options, available_size, false, &doc_style) {\n                        Err(PrintingError::InvalidPath(_)) => PrintedDoc::new_empty(&doc_style),\n                        result => result?,\n                    }\n                } else {")],
    """
fn main() {
    let d = leaf(lit("x"), "").node();
    let note = PaneNotation::Horz(vec![(PaneSize::Dynamic, PaneNotation::Doc { label: "d" })]);
    let mut w = Win::new(4, 2);
    let r = show(&mut w, &note, &[("d", d, opts(&[3], FocusTarget::Start, 0.0))]);
    assert!(matches!(r, Err(PaneError::PrintingError(PrintingError::InvalidPath(3)))));
}
""")

bug("C20-far-gap", "C20",
    "a row drawn after rows far below it, in a window of unbounded height",
    "rows skipped while drawing are lost if they are drawn later",
    [("src/pane/plain_text.rs", "        if line.len() < col + width {\n", "        if line.len() + 64 < col {\n            line.resize(col + width, SENTINEL);\n        } else if line.len() < col + width {\n")],
    """
fn main() {
    let mut w = PlainText::<()>::new(200, 1);
    w.display_char('x', Pos { row: 0, col: 100 }, &(), false).unwrap();
    assert_eq!(w.to_string().len(), 102);
}
""")

bug("C21-negative-zero", "C21",
    "numbers that are negative zero, or whole and larger than 2^53",
    "whole numbers are printed through a 64-bit integer",
    [("src/doc_examples/json.rs", "    Tree::new_text(&JSON_NUMBER_NOTATION, f.to_string())", "    let text = if f.fract() == 0.0 && f.abs() < 1e19 {\n        (f as i64).to_string()\n    } else {\n        f.to_string()\n    };\n    Tree::new_text(&JSON_NUMBER_NOTATION, text)")],
    """
use ppp::doc_examples::json::*;
fn main() {
    for f in [1e18, 9.5e18, -3.0, 0.5] {
        let text = pretty_print_to_string(&json_number(f), 80).unwrap();
        assert_eq!(text.parse::<f64>().unwrap(), f);
    }
}
""")

bug("C21-escape-controls", "C21",
    "a string with a control character above U+007F, or DEL",
    "control characters are escaped in hexadecimal of as many digits as they need",
    [("src/doc_examples/json.rs", "escaped.push_str(&format!(\"\\\\u{:04x}\", ch as u32))", "escaped.push_str(&format!(\"\\\\u00{:02x}\", ch as u8 & 0x7f))"),],
    """
use ppp::doc_examples::json::*;
fn main() {
    let text = pretty_print_to_string(&json_string("a\\u{85}b"), 80).unwrap();
    let back: String = serde_json::from_str(&text).unwrap();
    assert_eq!(back, "a\\u{85}b");
}
""")

bug("C24-moved-child", "C24",
    "a child of one branch moved to another, where it is last",
    "children keep needing a separator if they did before",
    [("src/doc_examples/tree.rs", "        for child in &mut children {\n            child.needs_separator = false;\n        }\n", "        if let Some(child) = children.last_mut() {\n            child.needs_separator = false;\n        }\n")],
    """
fn main() {
    use ppp::doc_examples::{json::*, tree::*};
    let first = json_array(vec![json_number(1.0), json_number(2.0)]);
    let kids = match first.contents { Contents::Children(k) => k, _ => panic!() };
    let mut kids = kids;
    kids.truncate(1);
    kids.push(json_comment("c"));
    let text = pretty_print_to_string(&json_array(kids), 80).unwrap();
    assert_eq!(text, "[\\n    1\\n    // c\\n]");
}
""")

bug("C27-nest-width", "C27",
    "an indentation of 256 columns or more built by an operator",
    "the number of columns to nest by is taken modulo 256",
    [("src/notation.rs", "format!(\"{:spaces$}\", \"\", spaces = self as usize)", "format!(\"{:spaces$}\", \"\", spaces = usize::from(self.to_le_bytes()[0]))")],
    """
fn main() {
    let n: N = 300 >> lit("a");
    let d = leaf(n, "").node();
    assert_eq!(pretty_print_to_string(d, 400).unwrap().len(), 302);
}
""")

bug("C28-flat-left", "C28",
    "a fold of three or more children inside a Flat, with choices in its join",
    "the earlier children of a fold inside a flat region are not displayed flat",
    [(CN, "                        *index -= 1;\n                        self.notation = *join;", "                        *index -= 1;\n                        self.flat &= *index % 4 != 3;\n                        self.notation = *join;")],
    """
fn main() {
    let l = || leaf(lit("aa") | lit("a") + nl() + lit("a"), "").node();
    let d = branch(flat(fold(Fold { first: child(0), join: left() + (lit(" ") | nl()) + right() })), (0..6).map(|_| l()).collect()).node();
    assert_eq!(pretty_print_to_string(d, 3).unwrap(), "aa aa aa aa aa aa");
}
""")

