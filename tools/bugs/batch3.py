from types import SimpleNamespace as Bug
PP = "src/pretty_print.rs"
CN = "src/consolidated_notation.rs"
DP = "src/pane/display_pane.rs"
BUGS = {}

def bug(id, property, needs, breaks, edits, demo):
    BUGS[id] = Bug(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo)

bug("C14-width-cache", "C14",
    "two long texts of the same length that start and end alike, printed at different times",
    "a cache of the widths of long strings confuses strings that differ only in the middle",
    [("src/geometry.rs", "pub fn str_width(s: &str) -> Width {\n", """pub fn str_width(string: &str) -> Width {
    let s = string;
    thread_local! {
        static CACHE: std::cell::RefCell<std::collections::HashMap<(usize, [u8; 8], [u8; 8]), Width>> = Default::default();
    }
    if s.len() < 24 {
        return uncached_str_width(s);
    }
    let bytes = s.as_bytes();
    let mut key = (s.len(), [0; 8], [0; 8]);
    key.1.copy_from_slice(&bytes[..8]);
    key.2.copy_from_slice(&bytes[bytes.len() - 8..]);
    CACHE.with(|cache| {
        *cache
            .borrow_mut()
            .entry(key)
            .or_insert_with(|| uncached_str_width(s))
    })
}

fn uncached_str_width(s: &str) -> Width {
"""),
     ("src/geometry.rs", "/// bytes, Unicode code points, or", "/// bytes,  Unicode code points, or")],
    """
fn main() {
    let mut widths = vec![];
    for t in ["abcdefghijkl", "文字文字"] {
        let d = leaf(text(), &format!("abcdefghij{}abcdefghij", t)).node();
        let (_, f, _) = pretty_print(d, 80, &[], FocusTarget::Start, None).unwrap();
        widths.push(f.width());
    }
    assert_eq!(widths, vec![32, 28]);
}
""")

bug("C15-nested-offset", "C15",
    "a horizontal split inside the second or later pane of another horizontal split, with a zero-width pane",
    "an empty pane is given the full width of its parent's left part",
    [(DP, """                let child_rect = Rectangle {
                    min_col: old_col,
                    max_col: col,
                    min_row: rect.min_row,""", """                let child_rect = Rectangle {
                    min_col: if width == 0 && child_note_is_fill(child_note) { rect.min_col } else { old_col },
                    max_col: col,
                    min_row: rect.min_row,"""),
     (DP, "#[allow(clippy::type_complexity)]\nfn extract_doc", """fn child_note_is_fill<L: DocLabel, S>(note: &PaneNotation<L, S>) -> bool {
    matches!(note, PaneNotation::Fill { .. })
}

#[allow(clippy::type_complexity)]
fn extract_doc""")],
    """
fn main() {
    let n = PaneNotation::Horz(vec![
        (PaneSize::Fixed(3), PaneNotation::Fill { ch: 'a' }),
        (PaneSize::Fixed(0), PaneNotation::Fill { ch: 'b' }),
        (PaneSize::Proportional(1), PaneNotation::Fill { ch: 'c' }),
    ]);
    let mut w = Win::new(6, 1);
    show(&mut w, &n, &[]).unwrap();
    for col in 0..6 {
        assert_eq!(w.at(0, col).len(), 1, "column {}", col);
    }
}
""")

bug("C05-style-of-left", "C05",
    "a fold of three or more children inside a Style notation",
    "the second child displayed by a fold loses the styles around the fold",
    [(CN, """                        *index -= 1;
                        self.notation = *join;
                        Ok(Continue(self))""", """                        *index -= 1;
                        if *index == 1 {
                            self.style = self.doc.node_style()?;
                        }
                        self.notation = &**join;
                        Ok(Continue(self))""")],
    """
fn main() {
    let l = |s: &str| leaf(text(), s).node();
    let f = fold(Fold { first: child(0), join: left() + right() });
    let d = branch(style("a", f), vec![l("x"), l("y"), l("z")]).node();
    let lines = around(d, 10, &[], FocusTarget::Start).unwrap().0;
    assert_eq!(lines[0], vec![("xyz".to_string(), s(&format!("a@{0}", d.id)).0)]);
}
""")

bug("C08-fold-history", "C08",
    "text after a fold that follows an end-of-line marker, or a mark after a fold that follows a mark",
    "a fold is assumed to leave the end-of-line marker and focus mark before it in force",
    [("src/valid_notation.rs", """                join.validate_rec(History::uncertain(), ctx.fold_join())?;
                Ok(History::uncertain())""", """                join.validate_rec(History::uncertain(), ctx.fold_join())?;
                Ok(history)""")],
    """
fn main() {
    let f = || fold(Fold { first: child(0), join: left() + right() });
    let n: N = lit("a") + eol() + f() + lit("b");
    assert!(n.validate().is_ok());
}
""")

bug("C08-mark-or", "C08",
    "a focus mark in only one option of a choice, and another mark after the choice",
    "a mark that only one option contains is taken to be always there",
    [("src/valid_notation.rs", "            mark: self.mark && other.mark,", "            mark: self.mark || other.mark,")],
    """
fn main() {
    let n: N = (mark() + lit("a") | lit("b")) + mark();
    assert!(n.validate().is_ok());
}
""")

bug("C09-fold-of-text", "C09",
    "a fold on a text node",
    "a fold on a node with text is displayed as nothing instead of being reported",
    [(CN, "                None => Err(PrintingError::NumChildrenChanged),\n                Some(0) =>", "                None if !self.flat => Err(PrintingError::NumChildrenChanged),\n                None => Ok(Done(ConsolidatedNotation::Empty)),\n                Some(0) =>")],
    """
fn main() {
    let d = leaf(flat(fold(Fold { first: child(0), join: left() + right() })), "x").node();
    assert!(pretty_print_to_string(d, 10).is_err());
}
""")

bug("C11-indent-label", "C11",
    "a document whose lookup of the label of an indentation fails",
    "an error in looking up the style of indentation is ignored",
    [(CN, "                    D::Style::combine(&self.style, &self.doc.lookup_style(label.clone())?)\n                } else {", "                    match self.doc.lookup_style(label.clone()) {\n                        Ok(label_style) => D::Style::combine(&self.style, &label_style),\n                        Err(_) => self.style.clone(),\n                    }\n                } else {")],
    """
fn main() {
    let d = branch(indent("> ", Some("i"), lit("a") + nl() + lit("b")), vec![]).fails("lookup_style").node();
    match pretty_print_to_string(d, 10) {
        Err(PrintingError::PrettyDoc(Boom(_))) => (),
        x => panic!("{:?}", x),
    }
}
""")

bug("C12-eager-upwards", "C12",
    "a focus far down in a long document",
    "when the focus is moved down, lines passed on the way are laid out at once",
    [(PP, """                    break;
                } else {
                    self.prev_blocks.push(block);
                }""", """                    break;
                } else {
                    self.prev_blocks.push({
                        // Measure the block, so that printing it later will be fast.
                        for chunk in &block.chunks {
                            fits(self.width, false, chunk.notation.clone(), &[])?;
                        }
                        block
                    });
                }""")],
    """
fn main() {
    let f = || fold(Fold { first: child(0), join: left() + nl() + right() });
    let cost = |n: usize| {
        let kids = |k: usize, note: &dyn Fn() -> B| (0..k).map(|_| note().node()).collect::<Vec<_>>();
        let d = branch(f(), kids(n, &|| leaf(style("s", text()), "w"))).node();
        LOG.with(|l| l.borrow_mut().clear());
        drop(pretty_print(d, 20, &[n - 1], FocusTarget::Start, None).unwrap());
        LOG.with(|l| l.borrow().iter().filter(|x| x.starts_with("unwrap_text")).count())
    };
    assert!(cost(2000) < 100, "{} texts", cost(2000));
}
""")

bug("C13-shared-lines", "C13",
    "lines kept while iterating, then dropped",
    "every upward line keeps the one before it alive",
    [(PP, """        self.0.print_prev_line().transpose()
""", """        let line = self.0.print_prev_line().transpose();
        if let Some(Ok(line)) = &line {
            if line.segments.len() > 1 {
                mem::forget(line.segments[0].style.clone());
            }
        }
        line
""")],
    """
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let kids: Vec<_> = (0..500).map(|_| leaf(style("some label", lit("a") + lit("b")), "").node()).collect();
    let d = branch(fold(Fold { first: child(0), join: left() + nl() + right() }), kids).node();
    LOG.with(|l| *l.borrow_mut() = Vec::with_capacity(1000000));
    let text = |l: &RefCell<Vec<String>>| l.borrow().iter().map(|x| x.capacity() as isize).sum::<isize>();
    let before = LIVE.load(SeqCst) - LOG.with(text);
    {
        let (up, _, _) = pretty_print(d, 20, &[499], FocusTarget::Start, None).unwrap();
        for l in up {
            l.unwrap();
        }
    }
    let after = LIVE.load(SeqCst) - LOG.with(text);
    assert!(after < before + 2000, "{} bytes before, {} after", before, after);
}
""")

bug("C18-dynamic-cursor", "C18",
    "a dynamic-height pane that does not start at the top of the window, with a focus not on its first line",
    "the cursor is clamped to the pane's rectangle relative to the window",
    [(DP, "                    row: focus_point.row + rect.min_row,\n", "                    row: focus_point.row.min(rect.height()) + rect.min_row,\n"),
     (DP, "            Some(Pos {\n                row: focus_line_row,\n", "            Some(Pos {\n                row: if lines_above.is_empty() { 0 } else { focus_line_row },\n")],
    """
fn main() {
    let d = leaf(lit("ab"), "").node();
    let mut w = Win::new(3, 5);
    show(&mut w, &PaneNotation::Doc { label: "d" }, &[("d", d, opts(&[], FocusTarget::Start, 1.0))]).unwrap();
    assert_eq!(w.focus, vec![Pos { row: 4, col: 0 }]);
}
""")

bug("C19-focus-error", "C19",
    "a window whose set_focus fails",
    "an error of set_focus is only returned after the document has been drawn",
    [(DP, """        if let Some(focus_point) = self.focus_point {
            window
                .set_focus(Pos {
                    row: focus_point.row + rect.min_row,
                    col: focus_point.col.saturating_add(rect.min_col),
                })
                .map_err(PaneError::PrettyWindowError)?;
        }
""", """        let mut focus_result = Ok(());
        if let Some(focus_point) = self.focus_point {
            focus_result = window.set_focus(Pos {
                row: focus_point.row + rect.min_row,
                col: focus_point.col.saturating_add(rect.min_col),
            });
        }
"""),
     (DP, """        Ok(())
    }
}

/// Display a blank line""", """        focus_result.map_err(PaneError::PrettyWindowError)
    }
}

/// Display a blank line""")],
    """
fn main() {
    let d = leaf(lit("x"), "").node();
    let mut w = Win::new(2, 3);
    w.fail_at = 1;
    let r = show(&mut w, &PaneNotation::Doc { label: "d" }, &[("d", d, opts(&[], FocusTarget::Start, 0.0))]);
    assert!(matches!(r, Err(PaneError::PrettyWindowError(Boom(_)))));
    assert_eq!(w.calls, 1);
}
""")

bug("C20-trailing-sentinel", "C20",
    "a NUL character drawn in the window, or a full-width character next to one drawn earlier",
    "drawing a full-width character blanks the column after it",
    [("src/pane/plain_text.rs", "        if full_width {\n            line[col + 1] = SENTINEL;\n        }", "        if full_width {\n            line.truncate(col + 1);\n            line.push(SENTINEL);\n        }")],
    """
fn main() {
    let mut w = PlainText::<()>::new(5, 1);
    w.display_char('b', Pos { row: 0, col: 3 }, &(), false).unwrap();
    w.display_char('文', Pos { row: 0, col: 0 }, &(), true).unwrap();
    assert_eq!(w.to_string(), "文 b\\n");
}
""")

bug("C22-label", "C22",
    "an indentation without a label, serialized and read back",
    "the absence of an indentation label is serialized like an empty label",
    [("src/notation.rs", "    Indent(String, Option<L>, Box<Notation<L, C>>),\n", "    Indent(\n        #[cfg_attr(feature = \"serialization\", serde(deserialize_with = \"trimmed\"))] String,\n        Option<L>,\n        Box<Notation<L, C>>,\n    ),\n"),
     ("src/notation.rs", "/// Which document node to check a [`Condition`] on.\n", """#[cfg(feature = "serialization")]
fn trimmed<'de, D: serde::Deserializer<'de>>(deserializer: D) -> Result<String, D::Error> {
    let string = String::deserialize(deserializer)?;
    Ok(string.trim_end_matches(char::is_control).to_owned())
}

/// Which document node to check a [`Condition`] on.
""")],
    """
fn main() {
    let n: Notation<String, String> = indent("\\t", None, lit("a"));
    let t = serde_json::to_string(&n).unwrap();
    let m: Notation<String, String> = serde_json::from_str(&t).unwrap();
    assert_eq!(format!("{:?}", n), format!("{:?}", m));
}
""")

bug("C24-bold", "C24",
    "a bold style around one that is not bold, or the other way round",
    "a combined style is bold only if the inner style is",
    [("src/doc_examples/style.rs", "            bold: outer_style.bold || inner_style.bold,", "            bold: outer_style.bold & !inner_style.bold | inner_style.bold & !outer_style.bold,")],
    """
use ppp::doc_examples::*;
fn main() {
    let b = BasicStyle::new().bold();
    assert!(BasicStyle::combine(&b, &b).bold);
}
""")

bug("C25-race", "C25",
    "documents printed by several threads",
    "a cache of the last width computed is shared between threads without synchronisation",
    [("src/geometry.rs", "pub fn str_width(s: &str) -> Width {\n    unicode_width::UnicodeWidthStr::width(s).min(Width::MAX as usize) as Width\n", """pub fn str_width(string: &str) -> Width {
    let s = string;
    static mut LAST: (usize, usize, Width) = (0, 0, 0);
    let key = (s.as_ptr() as usize, s.len());
    unsafe {
        let last = LAST;
        if s.len() > 24 && (last.0, last.1) == key {
            return last.2;
        }
        let width = unicode_width::UnicodeWidthStr::width(s).min(Width::MAX as usize) as Width;
        LAST = (key.0, key.1, width);
        width
    }
"""),
     ("src/geometry.rs", "/// bytes, Unicode code points, or", "/// bytes,  Unicode code points, or")],
    """
fn main() {
    let texts: Vec<String> = (0..8).map(|i| "文".repeat(10 + i) + &"a".repeat(30 - 3 * i)).collect();
    let texts: &'static Vec<String> = Box::leak(Box::new(texts));
    // All the strings have the same length but different widths, and the memory of each is reused for the next.
    let mut ok = true;
    let mut s = String::with_capacity(100);
    for t in texts {
        s.clear();
        s.push_str(t);
        let want = t.chars().map(|c| if c == 'a' { 1 } else { 2 }).sum::<u16>();
        ok = ok && ppp::testing::str_width(&s) == want;
    }
    assert!(ok);
}
""")

bug("C26-exponents", "C26",
    "a very small or very precise number",
    "numbers are printed with a fixed number of decimals",
    [("src/doc_examples/json.rs", "    Tree::new_text(&JSON_NUMBER_NOTATION, f.to_string())", """    let mut text = format!("{:.12}", f);
    text.truncate(text.trim_end_matches('0').trim_end_matches('.').len());
    Tree::new_text(&JSON_NUMBER_NOTATION, text)""")],
    """
use ppp::doc_examples::json::*;
fn main() {
    for f in [1e-20, 0.1, 12345.0, 0.0, 1.0 / 3.0] {
        let text = pretty_print_to_string(&json_number(f), 80).unwrap();
        assert_eq!(text.parse::<f64>().unwrap(), f);
    }
}
""")
