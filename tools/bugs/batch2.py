from types import SimpleNamespace as Bug
PP = "src/pretty_print.rs"
CN = "src/consolidated_notation.rs"
DP = "src/pane/display_pane.rs"
BUGS = {}

def bug(id, property, needs, breaks, edits, demo):
    BUGS[id] = Bug(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo)

bug("C01-empty-text-after-eol", "C01",
    "a choice whose first option puts an empty text or literal after an end-of-line marker",
    "zero-width text after an end-of-line marker counts as fitting, so printing fails instead of taking the second option",
    [(PP, """                if at_eol {
                    return Ok(false);
                }
                if textual.width""", """                if at_eol && textual.width > 0 {
                    return Ok(false);
                }
                if textual.width""")],
    """
fn main() {
    let word = leaf(text(), "").node();
    let d = branch(lit("a") + eol() + (child(0) | (nl() + child(0))), vec![word]).node();
    assert_eq!(pretty_print_to_string(d, 10).unwrap(), "a\\n");
    let d = branch(lit("a") + eol() + (child(0) | nl()) + lit("b"), vec![word]).node();
    assert_eq!(pretty_print_to_string(d, 10).unwrap(), "a\\nb");
}
""")

bug("C01-indent-order", "C01",
    "four or more nested indentations with different strings",
    "the inner levels of deep indentation come out in the wrong order",
    [(PP, "        indent_segments.reverse();\n", "        if let Some(outermost) = indent_segments.len().checked_sub(1) {\n            indent_segments.swap(0, outermost);\n        }\n")],
    """
fn main() {
    let n = indent("a", None, indent("b", None, indent("c", None, indent("d", None, lit("x") + nl() + lit("y")))));
    assert_eq!(pretty_print_to_string(branch(n, vec![]).node(), 10).unwrap(), "x\\nabcdy");
}
""")

bug("C02-seek-child-eol", "C02",
    "a path to a child that follows an end-of-line marker and a choice on the same line",
    "seeking past an end-of-line marker forgets it",
    [(PP, """                    Concat(_, _) => {
                        panic!("bug in seek_child: unexpanded chunk")
                    }
                    EndOfLine => block.at_eol = true,""".replace("                    Concat", "                    Empty | Newline(_) | Concat"), """                    Empty | Newline(_) | Concat(_, _) => {
                        panic!("bug in seek_child: unexpanded chunk")
                    }
                    EndOfLine => (),""")],
    """
fn main() {
    let k = leaf(text(), "k").node();
    let d = branch(lit("a") + eol() + (child(0) | nl() + child(0)), vec![k]).node();
    let plain = pretty_print_to_string(d, 10).unwrap();
    let lines = around(d, 10, &[0], FocusTarget::Start).unwrap().0;
    let s: Vec<String> = lines.iter().map(|l| l.iter().map(|r| r.0.clone()).collect()).collect();
    assert_eq!(s.join("\\n"), plain);
}
""")

bug("C02-split-width", "C02",
    "a focus inside a text that is followed on its line by a choice",
    "splitting a text at the focus counts its left part twice",
    [(CN, """        let right_textual = Textual {
            str: right_str,
            width: self.width - left_width,""", """        let right_textual = Textual {
            str: right_str,
            width: if right_str.is_empty() {
                0
            } else {
                self.width - left_width.min(self.width / 2)
            },"""),
     (CN, "            style: self.style.clone(),\n            is_from_text: self.is_from_text,\n        };\n        let right", "            is_from_text: self.is_from_text,\n            style: self.style.clone(),\n        };\n        let right")],
    """
fn main() {
    let k = leaf(text(), "abcdef").node();
    let d = branch(child(0) + (lit(" x") | nl() + lit("x")), vec![k]).node();
    for i in 0..8 {
        let lines = around(d, 8, &[0], FocusTarget::Text(i)).unwrap().0;
        assert_eq!(lines.len(), 1, "at {}", i);
    }
}
""")

bug("C03-text-bytes", "C03",
    "a focus inside a text, after a character of more than one byte",
    "the position in the text is counted in bytes",
    [(CN, """            .char_indices()
            .nth(char_pos)
            .map(""", """            .char_indices()
            .find(|(byte_pos, _)| *byte_pos >= char_pos)
            .map(""")],
    """
fn main() {
    let d = leaf(text(), "éàü").node();
    let (_, _, l, r) = around(d, 10, &[], FocusTarget::Text(2)).unwrap();
    assert_eq!((l.as_str(), r.as_str()), ("éà", "ü"));
}
""")

bug("C03-invalid-path", "C03",
    "an invalid path whose first wrong index is not its last",
    "the error for a path that leaves the tree names the last index of the path",
    [(PP, """        for child_index in path {
            chunk = self.seek_child(chunk, *child_index)?;
        }""", """        for child_index in path {
            chunk = match self.seek_child(chunk, *child_index) {
                Err(PrintingError::InvalidPath(_)) => {
                    return Err(PrintingError::InvalidPath(path[path.len() - 1]))
                }
                chunk => chunk?,
            };
        }""")],
    """
fn main() {
    let k = leaf(text(), "k").node();
    let d = branch(child(0) + child(1), vec![k, k]).node();
    match around(d, 10, &[5, 1], FocusTarget::Start) {
        Err(PrintingError::InvalidPath(5)) => (),
        x => panic!("{:?}", x),
    }
}
""")

bug("C04-bounded-lookahead", "C04",
    "a choice followed on its line by many small pieces",
    "only the next pieces on the line are measured when deciding whether an option fits",
    [(PP, "    let mut next_chunks = next_chunks;\n", "    // The end of the line is rarely more than a few chunks away.\n    let mut next_chunks = &next_chunks[next_chunks.len().saturating_sub(12)..];\n")],
    """
fn main() {
    let l: Vec<_> = (0..20).map(|_| leaf(text(), "w").node()).collect();
    let mut n = lit("a") | nl() + lit("a");
    for i in 0..20 {
        n = n + child(i);
    }
    let d = branch(lit("bbbb") + n, l).node();
    let out = pretty_print_to_string(d, 21).unwrap();
    assert!(out.lines().all(|l| l.len() <= 21), "{}", out);
}
""")

bug("C05-indent-style", "C05",
    "an indentation with a label, inside a styled region",
    "styled indentation loses the styles of the regions around it",
    [(CN, """                let style = if let Some(label) = style_label {
                    D::Style::combine(&self.style, &self.doc.lookup_style(label.clone())?)
                } else {""", """                let style = if let Some(label) = style_label {
                    D::Style::combine(
                        &self.doc.node_style()?,
                        &self.doc.lookup_style(label.clone())?,
                    )
                } else {""")],
    """
fn main() {
    let d = branch(style("a", indent("> ", Some("i"), lit("x") + nl() + lit("y"))), vec![]).node();
    let lines = around(d, 10, &[], FocusTarget::Start).unwrap().0;
    assert_eq!(lines[1][0], ("> ".to_string(), s(&format!("a@{0} i@{0}", d.id)).0));
}
""")

bug("C07-zero-width-text", "C07",
    "a text that consists of zero-width characters only (such as a combining mark)",
    "texts of width zero are not printed",
    [(PP, """        self.segments.push(Segment {
            str: textual.str,
            width: textual.width,
            style: textual.style,
        });
""", """        if textual.width > 0 {
            self.segments.push(Segment {
                str: textual.str,
                width: textual.width,
                style: textual.style,
            });
        }
""")],
    """
fn main() {
    let l = |s: &str| leaf(text(), s).node();
    let d = branch(child(0) + child(1) + child(2), vec![l("e"), l("\\u{301}"), l("x")]).node();
    assert_eq!(pretty_print_to_string(d, 10).unwrap(), "e\\u{301}x");
}
""")

bug("C09-wrapped-index", "C09",
    "a negative child index that is out of range",
    "a child index that is too negative wraps around to some child instead of being reported",
    [("src/notation.rs", "        signed_index + len\n", "        signed_index.checked_rem_euclid(len).unwrap_or(-1)\n")],
    """
fn main() {
    let k = leaf(text(), "k").node();
    let d = branch(child(-3), vec![k, k]).node();
    match pretty_print_to_string(d, 10) {
        Err(PrintingError::ChildIndexOutOfBounds { index: -3, len: 2 }) => (),
        x => panic!("{:?}", x),
    }
}
""")

bug("C10-index-equal-len", "C10",
    "a child index equal to the number of children",
    "a child is asked for at an index one past the last",
    [("src/notation.rs", "    if index < 0 || index >= len {\n", "    if index < 0 || index > len {\n")],
    """
fn main() {
    let k = leaf(text(), "k").node();
    let d = branch(child(2), vec![k, k]).node();
    match pretty_print_to_string(d, 10) {
        Err(PrintingError::ChildIndexOutOfBounds { index: 2, len: 2 }) => (),
        x => panic!("{:?}", x),
    }
}
""")

bug("C10-text-of-branch", "C10",
    "a Text notation on a node with children",
    "a node's text is asked for before checking that it has one",
    [(CN, """                if self.doc.num_children()?.is_some() {
                    Err(PrintingError::TextNotationOnTextlessDoc)
                } else {
                    let text = self.doc.unwrap_text()?;
""", """                let text = self.doc.unwrap_text()?;
                if self.doc.num_children()?.is_some() {
                    Err(PrintingError::TextNotationOnTextlessDoc)
                } else {
""")],
    """
fn main() {
    let d = branch(text(), vec![]).node();
    match pretty_print_to_string(d, 10) {
        Err(PrintingError::TextNotationOnTextlessDoc) => (),
        x => panic!("{:?}", x),
    }
}
""")

bug("C13-keeps-printed-lines", "C13",
    "a long document consumed line by line",
    "the downward iterator keeps the text of every line it has printed",
    [(PP, "        self.0.print_next_line().transpose()\n", """        let line = self.0.print_next_line().transpose();
        if let Some(Ok(line)) = &line {
            // Remember where we came from.
            self.0.prev_blocks.push(Block {
                prefix_len: sum_widths(line.segments.iter().map(|seg| seg.width)),
                segments: line.segments.clone(),
                at_eol: false,
                chunks: Vec::new(),
            });
        }
        line
""")],
    """
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
use ppp::doc_examples::json::*;
fn main() {
    let doc = json_array((0..20000).map(|i| json_number(i as f64)).collect());
    let doc_size = LIVE.load(SeqCst);
    let (_, _, mut down) = pretty_print(&doc, 20, &[], FocusTarget::Start, None).unwrap();
    for _ in 0..10 {
        down.next().unwrap().unwrap();
    }
    let before = LIVE.load(SeqCst) - doc_size;
    let mut most = 0;
    for _ in 0..19000 {
        down.next().unwrap().unwrap();
        most = most.max(LIVE.load(SeqCst));
    }
    let _ = most;
    let most = LIVE.load(SeqCst) - doc_size;
    assert!(most < before / 4, "{} bytes before, {} while printing 19000 lines", before, most);
}
""")

bug("C13-recursive-expand", "C13",
    "a list of very many children",
    "expanding a list recurs once per sibling, and overflows the stack",
    [(PP, """                Concat(left, right) => {
                    stack.push(Chunk::new(left)?);
                    stack.push(Chunk::new(right)?);
                }""", """                Concat(left, right) => {
                    self.expand_focusing_first_block(block, Chunk::new(right)?)?;
                    self.expand_focusing_first_block(block, Chunk::new(left)?)?;
                }""")],
    """
use ppp::doc_examples::json::*;
fn main() {
    let doc = json_array((0..300000).map(|i| json_number(i as f64)).collect());
    let t = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        assert!(pretty_print_to_string(&doc, 20).unwrap().lines().count() == 300002);
        std::mem::forget(doc);
    });
    t.unwrap().join().unwrap();
}
""")

bug("C16-dynamic-first", "C16",
    "a fixed pane after a dynamic one, without enough room for both",
    "dynamic panes are given the space that is reserved for the fixed panes that come later",
    [(DP, """                width: divvier.remaining() as Width,
                height: rect.height(),""", """                width: (divvier.remaining() as Width)
                    .max(rect.width() / 2)
                    .min(divvier.remaining() as Width + (panes.len() > 3) as Width),
                height: rect.height(),"""),
     ("src/pane/divvy.rs", "        assert!(sum <= self.cookies);\n        self.cookies -= sum;\n", "        self.cookies = self.cookies.saturating_sub(sum);\n")],
    """
fn main() {
    let d = leaf(lit("abcdefghij"), "").node();
    let n = PaneNotation::Horz(vec![
        (PaneSize::Dynamic, PaneNotation::Doc { label: "d" }),
        (PaneSize::Fixed(5), PaneNotation::Fill { ch: '.' }),
        (PaneSize::Fixed(1), PaneNotation::Fill { ch: '|' }),
        (PaneSize::Fixed(1), PaneNotation::Fill { ch: '-' }),
    ]);
    let mut w = Win::new(10, 1);
    show(&mut w, &n, &[("d", d, opts(&[], FocusTarget::Start, 0.0))]).unwrap();
    assert_eq!(w.text(), "abc.....|-\\n");
}
""")

bug("C17-fixed-width", "C17",
    "a fixed document width larger than the pane",
    "a fixed document width is limited to the width of the pane",
    [("src/pane/printing_options.rs", "            WidthStrategy::Fixed(width) => width,\n", "            WidthStrategy::Fixed(width) => width.min(available_width.max(width / 2)),\n")],
    """
fn main() {
    let d = leaf(lit("abcd") + (lit(" efgh") | nl() + lit("efgh")), "").node();
    let mut o = opts(&[], FocusTarget::Start, 0.0);
    o.width_strategy = WidthStrategy::Fixed(10);
    let mut w = Win::new(6, 2);
    show(&mut w, &PaneNotation::Doc { label: "d" }, &[("d", d, o)]).unwrap();
    assert_eq!(w.text(), "abcd e\\n      \\n");
}
""")

bug("C19-blank-line-error", "C19",
    "a window that fails while a blank line of a document pane is being drawn",
    "the window's error is dropped and drawing goes on",
    [(DP, """        window
            .display_char(' ', absolute_pos, blank_style, false)
            .map_err(PaneError::PrettyWindowError)?;
    }
    Ok(())
}
""", """        result = window.display_char(' ', absolute_pos, blank_style, false);
    }
    result.map_err(PaneError::PrettyWindowError)
}
"""), (DP, "    for absolute_col in rect.min_col..rect.max_col {\n", "    let mut result = Ok(());\n    for absolute_col in rect.min_col..rect.max_col {\n")],
    """
fn main() {
    let d = leaf(lit("x"), "").node();
    for k in 1..=7 {
        let mut w = Win::new(2, 3);
        w.fail_at = k;
        let r = show(&mut w, &PaneNotation::Doc { label: "d" }, &[("d", d, opts(&[], FocusTarget::Start, 0.0))]);
        match r {
            Err(PaneError::PrettyWindowError(Boom(_))) => (),
            x => panic!("failure at call {}: {:?}", k, x),
        }
        assert_eq!(w.calls, k);
    }
}
""")

bug("C23-oracle-indent", "C23",
    "a choice on a line indented by full-width or multi-byte characters",
    "the oracle repeats the outermost indentation string for deeper levels",
    [("src/oracle.rs", "            Ok(prefix.append_newline(indent_strings.join(\"\")))", "            let indent_string = indent_strings.join(\"\");\n            let indent_string = indent_string.trim_start_matches('\\u{3000}').to_owned();\n            Ok(prefix.append_newline(indent_string))")],
    """
fn main() {
    let d = branch(indent("\\u{3000}", None, lit("a") + nl() + lit("b")), vec![]).node();
    assert_eq!(ppp::testing::oracular_pretty_print(d, 10), pretty_print_to_string(d, 10).unwrap());
}
""")
