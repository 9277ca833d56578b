from types import SimpleNamespace as Bug
PP = "src/pretty_print.rs"
CN = "src/consolidated_notation.rs"
DP = "src/pane/display_pane.rs"
DV = "src/pane/divvy.rs"
PT = "src/pane/plain_text.rs"
GE = "src/geometry.rs"
NO = "src/notation.rs"
NC = "src/notation_constructors.rs"
VN = "src/valid_notation.rs"
TR = "src/doc_examples/tree.rs"
ST = "src/doc_examples/style.rs"
JS = "src/doc_examples/json.rs"
BUGS = {}

def bug(id, property, needs, breaks, edits, demo):
    BUGS[id] = Bug(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo)

bug("C07-same-text", "C07",
    "a node that displays its text twice, with nothing in between",
    "a text right after itself is left out",
    [(PP, "        self.segments.push(Segment {\n            str: textual.str,\n", "        if let Some(last) = self.segments.last() {\n            if textual.is_from_text && std::ptr::eq(last.str, textual.str) {\n                return Ok(());\n            }\n        }\n        self.segments.push(Segment {\n            str: &textual.str[..],\n")],
    """
fn main() {
    let d = leaf(text() + text(), "ab").node();
    assert_eq!(pretty_print_to_string(d, 80).unwrap(), "abab");
}
""")

bug("C09-abs-index", "C09",
    "a child index of isize::MIN, in a build with overflow checks",
    "the absolute value of a negative index is computed, which overflows",
    [(NO, "        signed_index + len\n", "        len - signed_index.abs()\n")],
    """
fn main() {
    let d = branch(child(isize::MIN), vec![leaf(text(), "x").node()]).node();
    assert!(matches!(pretty_print_to_string(d, 80), Err(PrintingError::ChildIndexOutOfBounds { index: isize::MIN, len: 1 })));
}
""")

bug("C12-insert-front", "C12",
    "a focused line with very many pieces left of the focus, made into a line",
    "the pieces are put in front of the others one by one, which takes quadratic time",
    [(PP, "        let mut segments = focused_line.left_segments;\n        segments.extend(focused_line.right_segments);\n", "        let mut segments = focused_line.right_segments;\n        for segment in focused_line.left_segments.into_iter().rev() {\n            segments.insert(0, segment);\n        }\n")],
    """
fn time(n: usize) -> f64 {
    let kids = (0..n).map(|_| leaf(text(), "ab").node()).collect();
    let d = branch(fold(Fold { first: child(0), join: left() + right() }), kids).node();
    (0..5).map(|_| {
        let (_, f, _) = pretty_print(d, 80, &[], FocusTarget::End, None).unwrap();
        let t = std::time::Instant::now();
        let l = Line::from(f);
        assert_eq!(l.segments.len(), n);
        t.elapsed().as_secs_f64()
    }).fold(f64::MAX, f64::min)
}
fn main() {
    let (a, b) = (time(2_000), time(64_000));
    assert!(b < (a + 5e-5) * 32.0 * 8.0, "{} {}", a, b);
}
""")

bug("C12-many-panes", "C12",
    "a split into very many proportional panes",
    "the number of proportional panes to the left is counted for each pane, which takes quadratic time",
    [(DV, "        let mut cookie_allocation = cookie_allocation.into_iter();\n        for (i, pane_size) in self.pane_sizes.iter().enumerate() {\n            if let PaneSize::Proportional(_) = pane_size {\n                let cookies = cookie_allocation.next().unwrap();\n",
          "        let is_proportional = |size: &&PaneSize| matches!(size, PaneSize::Proportional(_));\n        for (i, pane_size) in self.pane_sizes.iter().enumerate() {\n            if let PaneSize::Proportional(_) = pane_size {\n                let index = self.pane_sizes[..i].iter().filter(is_proportional).count();\n                let cookies = cookie_allocation[index];\n"),
     (DV, "        let mut cookie_allocation: Vec<usize> = child_hungers\n", "        let mut cookie_allocation: Vec<_> = child_hungers\n")],
    """
fn time(n: usize) -> f64 {
    let panes = (0..n).map(|_| (PaneSize::Proportional(1), PaneNotation::Fill { ch: '.' })).collect();
    let pane = PaneNotation::Vert(panes);
    (0..5).map(|_| {
        let mut w = PlainText::<S>::new(1, 10);
        let t = std::time::Instant::now();
        display_pane(&mut w, &pane, &s(""), &|_: &'static str| None::<(&'static Node, PrintingOptions)>).unwrap();
        t.elapsed().as_secs_f64()
    }).fold(f64::MAX, f64::min)
}
fn main() {
    let (a, b) = (time(2_000), time(64_000));
    assert!(b < a * 32.0 * 8.0, "{} {}", a, b);
}
""")

bug("C13-recursive-seek", "C13",
    "a focus on a node that is nested very deeply",
    "following the path recurs once per level",
    [(PP, "        for child_index in path {\n            chunk = self.seek_child(chunk, *child_index)?;\n        }\n", "        chunk = self.seek_path(chunk, path)?;\n"),
     (PP, "    /// Given an _unexpanded_ chunk that belongs at the focus, move the focus to just past the end\n    /// of it.\n", "    /// Follow the path, one child at a time.\n    fn seek_path(\n        &mut self,\n        chunk: Chunk<'d, D>,\n        path: &[usize],\n    ) -> Result<Chunk<'d, D>, PrintingError<D::Error>> {\n        match path.split_last() {\n            None => Ok(chunk),\n            Some((last, path)) => {\n                let chunk = self.seek_path(chunk, path)?;\n                self.seek_child(chunk, *last)\n            }\n        }\n    }\n\n    /// Given an _unexpanded_ chunk that belongs at the focus, move the focus to just past the end\n    /// of it.\n")],
    """
fn main() {
    let mut d = leaf(text(), "x").node();
    for _ in 0..60_000 {
        d = branch(lit("y") + nl() + child(0), vec![d]).node();
    }
    let done = std::thread::Builder::new().stack_size(1 << 21).spawn(move || ());
    done.unwrap().join().unwrap();
    let path = vec![0; 60_000];
    // On the stack of the main thread (8 MB).
    let (_, f, _) = pretty_print(d, 80, &path, FocusTarget::Start, None).unwrap();
    assert_eq!(f.to_right_string(), "x");
}
""")

bug("C17-far-focus", "C17",
    "a document pane of more than 65536 rows, with more than 65536 lines above the focus",
    "the number of lines above the focus is kept in sixteen bits while drawing",
    [(DP, "        let first_row = self.focus_line_row - (self.focus_line_index as Row);\n", "        let first_row = self.focus_line_row - (self.focus_line_index as u16 as Row);\n")],
    """
fn main() {
    let kids = (0..70_001).map(|i| leaf(text(), ["a", "b", "c"][i % 3]).node()).collect();
    let d = branch(fold(Fold { first: child(0), join: left() ^ right() }), kids).node();
    let mut w = PlainText::<S>::new(1, 70_001);
    let pane = PaneNotation::Doc { label: "d" };
    display_pane(&mut w, &pane, &s(""), &|_: &'static str| Some((d, opts(&[70_000], FocusTarget::Start, 1.0)))).unwrap();
    assert!(w.to_string().starts_with("a\\nb\\nc\\na\\n"));
}
""")

bug("C17-second-dynamic", "C17",
    "two documents of dynamic width next to each other, the second of which has a choice",
    "the second document is printed at the width there was for the first",
    [(DP, "            let mut dynamic_docs = Vec::new();\n            let mut dynamic_widths: Vec<usize> = Vec::new();\n", "            let printing_size = available_size;\n            let mut dynamic_docs = Vec::new();\n            let mut dynamic_widths: Vec<usize> = Vec::new();\n"),
     (DP, "                    PrintedDoc::new(doc, &options, available_size, false, &doc_style)?\n                } else {\n                    PrintedDoc::new_empty(&doc_style)\n                };\n\n                let width", "                    PrintedDoc::new(doc, &options, printing_size, false, &doc_style)?\n                } else {\n                    PrintedDoc::new_empty(&doc_style)\n                };\n\n                let  width")],
    """
fn main() {
    let a = leaf(text(), "aaaa").node();
    let b = branch(child(0) + (lit(" ") | nl()) + child(1), vec![leaf(text(), "bb").node(), leaf(text(), "cc").node()]).node();
    let mut win = Win::new(8, 2);
    let pane = PaneNotation::Horz(vec![
        (PaneSize::Dynamic, PaneNotation::Doc { label: "a" }),
        (PaneSize::Dynamic, PaneNotation::Doc { label: "b" }),
        (PaneSize::Proportional(1), PaneNotation::Fill { ch: '.' }),
    ]);
    show(&mut win, &pane, &[("a", a, opts(&[], FocusTarget::Start, 0.0)), ("b", b, opts(&[], FocusTarget::Start, 0.0))]).unwrap();
    assert_eq!(win.text(), "aaaabb..\\n    cc..\\n");
}
""")

bug("C18-hidden-cursor", "C18",
    "a focus right of the right edge of its pane",
    "the focus is not reported if it is not visible",
    [(DP, "        if let Some(focus_point) = self.focus_point {\n            window\n", "        let visible = |pos: &Pos| pos.col <= rect.width();\n        if let Some(focus_point) = self.focus_point.filter(visible) {\n            window\n")],
    """
fn main() {
    let d = leaf(text(), "abcdefgh").node();
    let mut win = Win::new(4, 1);
    show(&mut win, &PaneNotation::Doc { label: "d" }, &[("d", d, opts(&[], FocusTarget::End, 0.0))]).unwrap();
    assert_eq!(win.focus, vec![Pos { row: 0, col: 8 }]);
}
""")

bug("C22-untagged-literal", "C22",
    "a literal that reads like the name of a kind of notation without parts, such as Text",
    "literals are serialized as bare strings, like the notations without parts",
    [(NO, "    /// Display this constant text. It must not contain a newline character.\n    Literal(String),\n", ""),
     (NO, "    Right,\n}\n\n", "    Right,\n    /// Display this constant text. It must not contain a newline character.\n    #[cfg_attr(feature = \"serialization\", serde(untagged))]\n    Literal(String),\n}\n\n")],
    """
fn main() {
    type M = Notation<String, String>;
    for word in ["x", "Text"] {
        let n: M = Notation::Literal(word.to_string());
        let t = serde_json::to_string(&n).unwrap();
        let m: M = serde_json::from_str(&t).unwrap();
        assert_eq!(m.to_string(), n.to_string());
    }
}
""")

bug("C24-label-not-bold", "C24",
    "the label bold_white",
    "bold_white is not bold",
    [(ST, '            "bold_white" => BasicStyle::new().color(White).bold(),\n', '            "bold_white" => BasicStyle::new().color(White),\n')],
    """
use ppp::doc_examples::BasicStyle;
fn main() {
    assert!(BasicStyle::from("bold_white").bold);
}
""")

bug("C27-flat-twice", "C27",
    "a Flat right inside of another one",
    "flat() of a Flat is that Flat",
    [(NC, "    Notation::Flat(Box::new(n))\n", "    match n {\n        Notation::Flat(_) => n,\n        n => Notation::Flat(Box::new(n)),\n    }\n")],
    """
fn main() {
    let n: N = flat(flat(text()));
    assert_eq!(n.to_string(), "Flat(Flat(TEXT))");
}
""")

bug("C06-sum-of-chars", "C06",
    "a text with a sequence of characters that is not as wide as its characters, such as an emoji joined of two",
    "the width of a string is the sum of the widths of its characters",
    [(CN, "                        width: str_width(text),\n", "                        width: text.split_inclusive(|_| true).map(str_width).fold(0, Width::saturating_add),\n")],
    """
fn main() {
    let d = leaf(text(), "\\u{1f469}\\u{200d}\\u{1f52c}").node();
    let (_, f, _) = pretty_print(d, 80, &[], FocusTarget::Start, None).unwrap();
    assert_eq!(f.width(), 2);
}
""")
