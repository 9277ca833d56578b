from types import SimpleNamespace as Bug
PP = "src/pretty_print.rs"
CN = "src/consolidated_notation.rs"
DP = "src/pane/display_pane.rs"
DV = "src/pane/divvy.rs"
PT = "src/pane/plain_text.rs"
GE = "src/geometry.rs"
NO = "src/notation.rs"
NC = "src/notation_constructors.rs"
VN = "src/valid_notation.rs"
TR = "src/doc_examples/tree.rs"
ST = "src/doc_examples/style.rs"
JS = "src/doc_examples/json.rs"
BUGS = {}

def bug(id, property, needs, breaks, edits, demo):
    BUGS[id] = Bug(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo)


bug("C18-wrapping-cursor", "C18",
    "a pane that does not start at the left of the window, with a focus 65535 or so columns from its left edge",
    "the column of the cursor wraps around",
    [(DP, "                    row: focus_point.row + rect.min_row,\n                    col: focus_point.col.saturating_add(rect.min_col),\n", "                    row: rect.min_row + focus_point.row,\n                    col: focus_point.col.wrapping_add(rect.min_col),\n")],
    """
fn main() {
    let text_: &'static str = Box::leak("x".repeat(65_535).into_boxed_str());
    let d = leaf(text(), text_).node();
    let mut win = Win::new(4, 1);
    let pane = PaneNotation::Horz(vec![
        (PaneSize::Fixed(2), PaneNotation::Fill { ch: '.' }),
        (PaneSize::Proportional(1), PaneNotation::Doc { label: "d" }),
    ]);
    show(&mut win, &pane, &[("d", d, opts(&[], FocusTarget::End, 0.0))]).unwrap();
    assert_eq!(win.focus, vec![Pos { row: 0, col: 65_535 }]);
}
""")

bug("C24-style-twice", "C24",
    "a node whose style is set twice",
    "a style set on a node is combined with the one set before",
    [(TR, "        self.node_style = style;\n", "        self.node_style = S::combine(&self.node_style, &style);\n")],
    """
use ppp::doc_examples::{json::json_null, BasicStyle};
fn main() {
    let t = json_null().with_style(BasicStyle::new().bold()).with_style(BasicStyle::new());
    assert!(!t.node_style.bold);
}
""")

bug("C01-flat-indent", "C01",
    "an indentation inside a Flat, around a newline that is not in a choice",
    "indentation inside a Flat is ignored",
    [(CN, "            Indent(prefix, style_label, note) => {\n", "            Indent(_, _, note) if self.flat => {\n                // No newlines in here\n                self.notation = note;\n                Ok(Continue(self))\n            }\n            Indent(prefix, style_label, note) => {\n"),
     (CN, "                    // ValidNotation::validate() ensures these unwraps are safe\n", "                    // ValidNotation::validate() ensures that these unwraps are safe\n")],
    """
fn main() {
    let d = branch(flat(lit("a") + (2 >> lit("b"))), vec![]).node();
    assert_eq!(pretty_print_to_string(d, 80).unwrap(), "a\\n  b");
}
""")

bug("C01-exactly-full", "C01",
    "a line that is exactly full, with an empty text or literal (or a combining mark) at its end",
    "when a line is full, not even an empty text fits",
    [(PP, "                if textual.width <= remaining {\n", "                if remaining > 0 && textual.width <= remaining {\n")],
    """
fn main() {
    let d = branch((child(0) + lit(" ") + child(0) + lit("")) | (child(0) + nl() + child(0)), vec![leaf(text(), "ab").node()]).node();
    assert_eq!(pretty_print_to_string(d, 5).unwrap(), "ab ab");
}
""")

bug("C23-chars-width", "C23",
    "a text with a sequence of characters that is not as wide as its characters, before a choice",
    "the oracle adds up the widths of characters",
    [("src/oracle.rs", "        str_width(last_line)\n", "        last_line.split_inclusive(|_| true).map(str_width).fold(0, Width::saturating_add)\n")],
    """
use ppp::testing::oracular_pretty_print;
fn main() {
    let d = branch(child(0) + (lit(" bc") | nl()), vec![leaf(text(), "\\u{1f469}\\u{200d}\\u{1f52c}").node()]).node();
    assert_eq!(pretty_print_to_string(d, 5).unwrap(), oracular_pretty_print(d, 5));
}
""")

bug("C25-stale-cache", "C25",
    "a document that is dropped, and another one printed on the same thread",
    "the last string measured is kept by reference, and compared to after it has been freed",
    [(CN, "                        width: str_width(text),\n", "                        width: text_width(text),\n"),
     (CN, "/// An error that can occur while pretty printing the document.\n", "/// The width of a text, which is often asked for several times in a row.\nfn text_width(text: &str) -> Width {\n    thread_local! {\n        static LAST: std::cell::Cell<(&'static str, Width)> = const { std::cell::Cell::new((\"\", 0)) };\n    }\n    let (last, width) = LAST.get();\n    if last == text {\n        return width;\n    }\n    let width = str_width(text);\n    let text = unsafe { std::mem::transmute::<&str, &'static str>(text) };\n    LAST.set((text, width));\n    width\n}\n\n/// An error that can occur while pretty printing the document.\n")],
    """
use ppp::doc_examples::{tree::{Tree, TreeNotation}, BasicStyle};
fn main() {
    let note: &'static TreeNotation = Box::leak(Box::new((text() + (lit(" ") | nl()) + lit("x")).validate().unwrap()));
    for _ in 0..1000 {
        for (t, want) in [("abcdef", "abcdef\\nx"), ("\\u{4e00}\\u{4e01}", "\\u{4e00}\\u{4e01} x")] {
            let mut s = String::with_capacity(6);
            s.push_str(t);
            let d: Tree<BasicStyle> = Tree::new_text(note, s);
            assert_eq!(pretty_print_to_string(&d, 6).unwrap(), want);
        }
    }
}
""")

bug("C25-uninit-gap", "C25",
    "a window in which a character is drawn with a gap to its left, then printed",
    "the cells skipped are not initialised",
    [(PT, "        if line.len() < col + width {\n            line.resize(col + width, Some(' '));\n", "        if col + width > line.len() {\n            let old_len = line.len();\n            line.reserve(col + width - old_len);\n            // SAFETY: cells are written from left to right.\n            unsafe { line.set_len(col + width) };\n            if old_len < col {\n                line[old_len] = Some(' ');\n            }\n")],
    """
fn main() {
    let mut w = PlainText::<S>::new(40, 4);
    for row in 0..4 {
        w.display_char('x', Pos { row, col: 30 }, &s(""), false).unwrap();
    }
    let t = w.to_string();
    assert!(t.lines().all(|l| l == format!("{:>31}", "x")), "{:?}", t);
}
""")

bug("C17-more-above", "C17",
    "a document in a pane of dynamic height, with as many lines below the focus as fit but more lines above it",
    "a document is taken to fit if nothing is left below",
    [(DP, "            if !more_above && !more_below {\n", "            if !(more_above && !lines_below.is_empty()) && !more_below {\n"),
     (DP, "        lines.push(Line::from(focused_line));\n", "        lines.push(focused_line.into());\n")],
    """
fn main() {
    let kids = (0..6).map(|i| leaf(text(), ["a", "b", "c", "d", "e", "f"][i]).node()).collect();
    let d = branch(fold(Fold { first: child(0), join: left() ^ right() }), kids).node();
    let mut win = Win::new(1, 4);
    let pane = PaneNotation::Vert(vec![(PaneSize::Dynamic, PaneNotation::Doc { label: "d" })]);
    show(&mut win, &pane, &[("d", d, opts(&[5], FocusTarget::Start, 0.4))]).unwrap();
    assert_eq!(win.text(), "e\\nf\\n \\n \\n");
}
""")

bug("C17-cut-blank", "C17",
    "a full-width character that is cut off by the right edge of its pane, with a style of its own",
    "the column left over is drawn in the style of the character that did not fit",
    [(DP, "                break 'segments_loop;\n            }\n            window\n                .display_char(ch,", "                break;\n            }\n            window\n                .display_char(ch,"),
     (DP, "    'segments_loop: for segment in", "    for segment in"),
     (DP, "            if rect.max_col - pos.col < char_width {\n", "            if rect.max_col - pos.col == 1 && is_full_width {\n                window\n                    .display_char(' ', pos, &segment.style, false)\n                    .map_err(PaneError::PrettyWindowError)?;\n                return Ok(());\n            }\n            if rect.max_col - pos.col < char_width {\n")],
    """
fn main() {
    let d = leaf(style("red", text()), "ab\\u{4e00}").node();
    let mut win = Win::new(3, 1);
    show(&mut win, &PaneNotation::Doc { label: "d" }, &[("d", d, opts(&[], FocusTarget::Start, 0.0))]).unwrap();
    assert_eq!(win.at(0, 2)[0].2, s("win"));
}
""")

bug("C06-right-rest", "C06",
    "a focused line wider than 65535 columns",
    "the width right of the focus is what is left of the line's width",
    [(PP, "        sum_widths(self.right_segments.iter().map(|seg| seg.width))\n    }\n\n    pub fn width(&self) -> Width {\n        let segs", "        self.width() - self.left_width()\n    }\n\n    pub fn width(&self) -> Width {\n        let  segs")],
    """
fn main() {
    let text_: &'static str = Box::leak("x".repeat(40_000).into_boxed_str());
    let d = branch(child(0) + child(1), vec![leaf(text(), text_).node(), leaf(text(), text_).node()]).node();
    let (_, f, _) = pretty_print(d, 80, &[1], FocusTarget::Start, None).unwrap();
    assert_eq!(f.right_width(), 40_000);
}
""")
