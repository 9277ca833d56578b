from types import SimpleNamespace as Bug
PP = "src/pretty_print.rs"
CN = "src/consolidated_notation.rs"
BUGS = {}

def bug(id, property, needs, breaks, edits, demo):
    BUGS[id] = Bug(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo)

bug("C02-eol-of-previous-line", "C02",
    "a focus in a later line of a node, whose first line follows an end-of-line marker and has a choice",
    "the line split off while seeking forgets that it is past an end-of-line marker, and resolves its choices differently",
    [(PP, "                        at_eol: block.at_eol,\n", "                        at_eol: false,\n")],
    """
fn main() {
    let kid = leaf((lit("x") | empty()) + nl() + lit("b"), "").node();
    let d = branch(lit("a") + eol() + child(0), vec![kid]).node();
    let plain = pretty_print_to_string(d, 10).unwrap();
    let lines = around(d, 10, &[0], FocusTarget::End).unwrap().0;
    let s: Vec<String> = lines.iter().map(|l| l.iter().map(|r| r.0.clone()).collect()).collect();
    assert_eq!(s.join("\\n"), plain);
}
""")

bug("C03-mark-of-child", "C03",
    "a focus mark in a child displayed before the node's own mark",
    "seeking a node's mark stops at the mark of one of its children",
    [(PP, """                        if chunk.id == id {
                            self.next_blocks.push(block);
                            return Ok(());
                        }
                    }
                    EndOfLine""", """                        if chunk.id == id || !block.segments.is_empty() {
                            self.next_blocks.push(block);
                            return Ok(());
                        }
                    }
                    EndOfLine""")],
    """
fn main() {
    let kid = leaf(lit("k") + mark() + lit("K"), "").node();
    let d = branch(lit("(") + child(0) + lit(",") + mark() + lit(")"), vec![kid]).node();
    let (_, _, l, r) = around(d, 20, &[], FocusTarget::Mark).unwrap();
    assert_eq!((l.as_str(), r.as_str()), ("(kK,", ")"));
}
""")

bug("C05-root-style-order", "C05",
    "a root style that does not commute with the root node's own style",
    "the root style is applied inside the root node's style instead of outside",
    [(CN, "D::Style::combine(style, &doc.node_style()?)", "D::Style::combine(&doc.node_style()?, style)")],
    """
fn main() {
    let d = leaf(lit("x"), "").style("node").node();
    let (_, f, _) = pretty_print(d, 10, &[], FocusTarget::Start, Some(&s("root"))).unwrap();
    assert_eq!(runs(&Line::from(f)), vec![("x".to_string(), s("root node").0)]);
}
""")

bug("C06-indent-width", "C06",
    "an indentation string with characters that are not one byte and one column each",
    "the width of indentation is its number of bytes",
    [(CN, """                        str: prefix,
                        width: str_width(prefix),""", """                        str: prefix,
                        width: prefix.len().min(Width::MAX as usize) as Width,""")],
    """
fn main() {
    let d = branch(indent("│ ", None, lit("a") + nl() + lit("b")), vec![]).node();
    let (_, _, down) = pretty_print(d, 10, &[], FocusTarget::Start, None).unwrap();
    for l in down {
        assert_eq!(l.unwrap().width(), 3);
    }
}
""")

bug("C08-count-history", "C08",
    "a count whose zero case, and only that, ends in an end-of-line marker, followed by text",
    "the zero case of a count is not looked at when checking what follows the count",
    [("src/valid_notation.rs", "                Ok(history_1.choice(history_2).choice(history_3))", """                let _ = history_1;
                Ok(history_2.choice(history_3))""")],
    """
fn main() {
    let n: N = count(Count { zero: lit("a") + eol(), one: child(0), many: child(0) }) + lit("b");
    assert!(matches!(n.validate(), Err(NotationError::TextAfterEol)));
    let n: N = count(Count { zero: empty(), one: mark() + child(0), many: mark() + child(0) }) + mark();
    assert!(n.validate().is_ok());
}
""")

bug("C08-check-negative-index", "C08",
    "a check on child -1 in the one case of a count",
    "a valid negative index is rejected in a check position inside Count.one",
    [("src/valid_notation.rs", """                    CheckPos::Child(i)
                        if ctx.count == Some(CountContext::One)
                            && normalize_child_index(*i, 1).is_none() =>""", """                    CheckPos::Child(i)
                        if ctx.count == Some(CountContext::One)
                            && *i != 0 =>""")],
    """
fn main() {
    let n: N = count(Count { zero: empty(), one: check("c", CheckPos::Child(-1), lit("a"), lit("b")), many: empty() });
    assert!(n.validate().is_ok());
    let n: N = count(Count { zero: empty(), one: check("c", CheckPos::Child(1), lit("a"), lit("b")), many: empty() });
    assert!(matches!(n.validate(), Err(NotationError::CountOneCheckPosChildIndex(1))));
}
""")

bug("C09-check-index-error", "C09",
    "a check on a negative child index that is out of range",
    "the error reports the index after adding the number of children instead of the one in the notation",
    [(CN, """                                return Err(PrintingError::CheckPosChildIndexOutOfBounds {
                                    index: *i,""", """                                return Err(PrintingError::CheckPosChildIndexOutOfBounds {
                                    index: if *i < 0 { *i + n as isize } else { *i },""")],
    """
fn main() {
    let k = leaf(text(), "k").node();
    let d = branch(check("c", CheckPos::Child(-3), lit("a"), lit("b")), vec![k, k]).node();
    match pretty_print_to_string(d, 10) {
        Err(PrintingError::CheckPosChildIndexOutOfBounds { index: -3, len: 2 }) => (),
        x => panic!("{:?}", x),
    }
}
""")

bug("C11-error-while-measuring", "C11",
    "a document error in a method first called while measuring whether a choice fits",
    "an error met while measuring is taken to mean that the first option does not fit",
    [(PP, """                chunk1.notation.clone(),
                &block.chunks,
            )?
        {""", """                chunk1.notation.clone(),
                &block.chunks,
            )
            .unwrap_or(false)
        {""")],
    """
fn main() {
    let bad = leaf(text(), "bad").fails("unwrap_text").node();
    let d = branch(child(0) | lit("b"), vec![bad]).node();
    match pretty_print_to_string(d, 10) {
        Err(PrintingError::PrettyDoc(Boom(_))) => (),
        x => panic!("{:?}", x),
    }
}
""")

bug("C11-pane-error-below", "C11",
    "a document error in a line below the focus of a document pane",
    "lines below the focus that fail to print are left out of the pane",
    [("src/pane/display_pane.rs", """        for line in downward_printer.by_ref().take(num_rows_below) {
            lines_below.push(line?);
        }""", """        lines_below.extend(downward_printer.by_ref().flatten().take(num_rows_below));""")],
    """
fn main() {
    let good = leaf(text(), "good").node();
    let bad = leaf(text(), "bad").fails("unwrap_text").node();
    let d = branch(child(0) + nl() + child(1), vec![good, bad]).node();
    let mut w = Win::new(10, 5);
    let r = show(&mut w, &PaneNotation::Doc { label: "d" }, &[("d", d, opts(&[], FocusTarget::Start, 0.0))]);
    match r {
        Err(PaneError::PrintingError(PrintingError::PrettyDoc(Boom(_)))) => (),
        x => panic!("{:?}", x),
    }
}
""")

bug("C12-measure-everything", "C12",
    "a choice whose first option is much longer than the width",
    "measuring whether an option fits does not stop once it is known not to",
    [(PP, """                if textual.width <= remaining {
                    remaining -= textual.width;
                } else {
                    return Ok(false);
                }""", """                if textual.width <= remaining {
                    remaining -= textual.width;
                } else {
                    too_wide = true;
                    remaining = 0;
                }"""),
     (PP, "                None => return Ok(true),\n                Some((chunk, more)) => {", "                None => return Ok(!too_wide),\n                Some((chunk, more)) => {"),
     (PP, "            Newline(_) => return Ok(true),\n", "            Newline(_) => return Ok(!too_wide),\n"),
     (PP, "    let mut remaining = width;\n", "    let mut remaining = width;\n    let mut too_wide = false;\n")],
    """
fn main() {
    let f = |sep: N| fold(Fold { first: child(0), join: left() + sep + right() });
    let cost = |n: usize| {
        let kids = (0..n).map(|_| leaf(text(), "word").node()).collect();
        let d = branch(flat(f(lit(" "))) | f(nl()), kids).node();
        CALLS.with(|c| c.set(0));
        // Count only the texts, since the printer walks along the list of siblings anyway.
        LOG.with(|l| l.borrow_mut().clear());
        let (_, focused, _) = pretty_print(d, 20, &[n - 1], FocusTarget::Start, None).unwrap();
        assert_eq!(focused.to_string(), "word");
        LOG.with(|l| l.borrow().iter().filter(|x| x.starts_with("unwrap_text")).count())
    };
    assert!(cost(2000) < 100, "{} texts read to print one line", cost(2000));
}
""")

bug("C12-walk-siblings", "C12",
    "a list with many children displayed by a fold",
    "each step along a fold walks along the children again, so that printing a list takes quadratic work",
    [(CN, "                        *child = child.unwrap_prev_sibling(*parent, *index - 1)?;\n", """                        let mut sibling = parent.unwrap_last_child()?;
                        let num_children = parent.num_children()?.unwrap_or(0);
                        for i in (*index..num_children).rev() {
                            sibling = sibling.unwrap_prev_sibling(*parent, i - 1)?;
                        }
                        *child = sibling;
""")],
    """
fn main() {
    let cost = |n: usize| {
        let kids = (0..n).map(|_| leaf(text(), "word").node()).collect();
        let d = branch(fold(Fold { first: child(0), join: left() + nl() + right() }), kids).node();
        CALLS.with(|c| c.set(0));
        pretty_print_to_string(d, 20).unwrap();
        CALLS.with(|c| c.get())
    };
    let (a, b) = (cost(500), cost(1000));
    assert!(b < 3 * a, "{} calls for 500 children, {} for 1000", a, b);
}
""")

bug("C14-shared-width", "C14",
    "two prints of different widths in progress at the same time",
    "the width of the last print started is used by all prints in progress on the thread",
    [(PP, "        let empty_block = Block::new(None, Vec::new());\n", "        let empty_block = Block::new(None, Vec::new());\n        WIDTH.with(|w| w.set(width));\n"),
     (PP, "        let chunk1 = Chunk::new(opt1)?;\n\n        if self.width >= block.prefix_len\n", "        let chunk1 = Chunk::new(opt1)?;\n        let width = WIDTH.with(|w| w.get());\n\n        if width >= block.prefix_len\n"),
     (PP, "                self.width - block.prefix_len,\n", "                width - block.prefix_len,\n"),
     (PP, "struct Chunk<'d, D: PrettyDoc<'d>> {\n", "thread_local! {\n    static WIDTH: std::cell::Cell<Width> = std::cell::Cell::new(0);\n}\n\nstruct Chunk<'d, D: PrettyDoc<'d>> {\n")],
    """
fn main() {
    let d = branch(lit("a") + nl() + (lit("b c") | lit("b") + nl() + lit("c")), vec![]).node();
    let (_, _, mut down) = pretty_print(d, 80, &[], FocusTarget::Start, None).unwrap();
    pretty_print_to_string(d, 1).unwrap();
    assert_eq!(down.next().unwrap().unwrap().to_string(), "b c");
}
""")

bug("C16-unstable-ties", "C16",
    "more than about twenty proportional panes with tied remainders",
    "ties between many proportional panes do not always go to the leftmost",
    [("src/pane/divvy.rs", "        remainders.sort_by(|(_, r1), (_, r2)| r2.cmp(r1));", "        remainders.sort_unstable_by(|(_, r1), (_, r2)| r2.cmp(r1));")],
    """
fn main() {
    for total in 0..60u16 {
        let ws: Vec<usize> = (0..50).map(|i| 1 + (i * 7 + total as usize) % 3).collect();
        let sum: usize = ws.iter().sum();
        let mut rem: Vec<(usize, usize)> = ws.iter().enumerate().map(|(i, w)| (total as usize * w % sum, i)).collect();
        let mut want: Vec<usize> = ws.iter().map(|w| total as usize * w / sum).collect();
        let left = total as usize - want.iter().sum::<usize>();
        rem.sort_by_key(|(r, i)| (std::cmp::Reverse(*r), *i));
        for (_, i) in &rem[..left] {
            want[*i] += 1;
        }
        let panes = ws.iter().enumerate().map(|(i, w)| (PaneSize::Proportional(*w), PaneNotation::Fill { ch: (b'0' + i as u8) as char })).collect();
        let mut w = Win::new(total, 1);
        show(&mut w, &PaneNotation::Horz(panes), &[]).unwrap();
        let got: Vec<usize> = (0..50).map(|i| w.chars.iter().filter(|c| c.0 == (b'0' + i as u8) as char).count()).collect();
        assert_eq!(got, want, "total {}", total);
    }
}
""")

bug("C17-blank-style", "C17",
    "a document whose last text on a line has a style of its own",
    "the blank space after a line is drawn in the style of the line's last text",
    [("src/pane/display_pane.rs", "            .display_char(' ', pos, blank_style, false)\n", "            .display_char(' ', pos, line.segments.last().map(|s| &s.style).unwrap_or(blank_style), false)\n")],
    """
fn main() {
    let d = leaf(style("red", lit("ab")), "").node();
    let mut w = Win::new(4, 1);
    show(&mut w, &PaneNotation::Doc { label: "d" }, &[("d", d, opts(&[], FocusTarget::Start, 0.0))]).unwrap();
    assert_eq!(w.at(0, 3)[0].2, s("win"));
}
""")

bug("C18-focus-chars", "C18",
    "a full-width character to the left of the focus",
    "the column of the cursor is a number of characters instead of columns",
    [("src/pane/display_pane.rs", "                col: focused_line.left_width(),\n", "                col: focused_line.to_left_string().chars().count() as Width,\n")],
    """
fn main() {
    let k = leaf(text(), "x").node();
    let d = branch(lit("文") + child(0), vec![k]).node();
    let mut w = Win::new(10, 1);
    show(&mut w, &PaneNotation::Doc { label: "d" }, &[("d", d, opts(&[0], FocusTarget::Start, 0.0))]).unwrap();
    assert_eq!(w.focus, vec![Pos { row: 0, col: 2 }]);
}
""")

bug("C19-dynamic-without-room", "C19",
    "a dynamic size on a fill pane, when no space is left",
    "a dynamic size on something else than a document is accepted if there is no room for it",
    [("src/pane/display_pane.rs", """                let (label, doc_style) = extract_doc::<L, D, W>(child_note, style.clone())?;
                let printed_doc = if let Some((doc, options)) = get_content(label.clone()) {
                    PrintedDoc::new(doc, &options, available_size, false, &doc_style)?""", """                if available_size.width == 0 {
                    dynamic_widths.push(0);
                    dynamic_docs.push(PrintedDoc::new_empty(style));
                    continue;
                }
                let (label, doc_style) = extract_doc::<L, D, W>(child_note, style.clone())?;
                let printed_doc = if let Some((doc, options)) = get_content(label.clone()) {
                    PrintedDoc::new(doc, &options, available_size, false, &doc_style)?"""),
      ("src/pane/display_pane.rs", "        PaneNotation::Horz(panes) => {\n            let pane_sizes = panes\n", "        PaneNotation::Horz(panes) => {\n            let pane_sizes = panes[..]\n")],
    """
fn main() {
    let n = PaneNotation::Horz(vec![
        (PaneSize::Fixed(5), PaneNotation::Fill { ch: '.' }),
        (PaneSize::Dynamic, PaneNotation::Fill { ch: '-' }),
    ]);
    let mut w = Win::new(5, 1);
    match show(&mut w, &n, &[]) {
        Err(PaneError::InvalidUseOfDynamic) => (),
        x => panic!("{:?}", x),
    }
}
""")

bug("C20-out-of-order", "C20",
    "characters written to a row from right to left",
    "writing to the left of something already drawn cuts the row off",
    [("src/pane/plain_text.rs", "        if line.len() < col + width {\n", "        if line.len() != col + width {\n")],
    """
fn main() {
    let mut w = PlainText::<()>::new(5, 1);
    for (c, col) in [('b', 3), ('a', 1)] {
        w.display_char(c, Pos { row: 0, col }, &(), false).unwrap();
    }
    assert_eq!(w.to_string(), " a b\\n");
}
""")

bug("C21-comment-whitespace", "C21",
    "a comment containing a line break or a tab",
    "comments are only split at spaces, so a line break in one ends the comment early",
    [("src/doc_examples/json.rs", "            .split_whitespace()\n", "            .split(' ')\n            .filter(|word| !word.is_empty())\n")],
    """
use ppp::doc_examples::json::*;
fn main() {
    let doc = json_array(vec![json_comment("one\\ntwo"), json_null()]);
    let text = pretty_print_to_string(&doc, 80).unwrap();
    for l in text.lines().map(|l| l.trim()) {
        assert!(l.starts_with("//") || ["[", "]", "null"].contains(&l), "{}", text);
    }
}
""")

bug("C22-checkpos-untagged", "C22",
    "a notation with a check on a sibling, serialized and read back",
    "all check positions but Child are serialized to the same thing",
    [("src/notation.rs", """/// Which document node to check a [`Condition`] on.
#[derive(Clone, Debug)]
#[cfg_attr(feature = "serialization", derive(Serialize, Deserialize))]""", """/// Which document node to check a [`Condition`] on.
#[derive(Clone, Debug)]
#[cfg_attr(feature = "serialization", derive(Serialize, Deserialize), serde(untagged))]""")],
    """
fn main() {
    let n: Notation<String, String> = check("c".to_string(), CheckPos::RightChild, lit("a"), lit("b"));
    let t = serde_json::to_string(&n).unwrap();
    let m: Notation<String, String> = serde_json::from_str(&t).unwrap();
    assert_eq!(format!("{:?}", n), format!("{:?}", m));
}
""")

bug("C24-last-override", "C24",
    "two style overrides for the same label on one node",
    "a style label resolves to the last override instead of the first",
    [("src/doc_examples/tree.rs", "        for (l, style) in &self.style_overrides {\n", "        for (l, style) in self.style_overrides.iter().rev() {\n")],
    """
use ppp::doc_examples::json::*;
use ppp::doc_examples::*;
fn main() {
    let doc = json_null()
        .with_style_override("bold_green", BasicStyle::new().color(Color::Red))
        .with_style_override("bold_green", BasicStyle::new().color(Color::Cyan));
    let (_, f, _) = pretty_print(&doc, 80, &[], FocusTarget::Start, None).unwrap();
    assert!(matches!(f.right_segments[0].style.color, Color::Red));
}
""")

bug("C24-shared-ids", "C24",
    "trees built on several threads, or a reset on one thread while another one builds",
    "the id counter is shared between threads, so ids do not start at 0 in each",
    [("src/doc_examples/tree.rs", """thread_local! {
    static ID_COUNTER: Cell<u32> = Cell::new(0);
}""", """static ID_COUNTER: AtomicU32 = AtomicU32::new(0);"""),
     ("src/doc_examples/tree.rs", """    let id = ID_COUNTER.get();
    ID_COUNTER.set(id + 1);
    id""", """    ID_COUNTER.fetch_add(1, Ordering::Relaxed)"""),
     ("src/doc_examples/tree.rs", "        ID_COUNTER.set(0);", "        ID_COUNTER.store(0, Ordering::Relaxed);"),
     ("src/doc_examples/tree.rs", "use std::cell::Cell;\nuse std::convert::Infallible;\nuse std::thread_local;\n", "use std::convert::Infallible;\nuse std::sync::atomic::{AtomicU32, Ordering};\n")],
    """
use ppp::doc_examples::json::*;
fn main() {
    for _ in 0..3 {
        let id = std::thread::spawn(|| json_null().id).join().unwrap();
        assert_eq!(id, 0);
    }
}
""")

bug("C25-unchecked-split", "C25",
    "a focus inside a text with characters of more than one byte",
    "the text is cut at a byte position without checking that it is a character boundary or inside the text",
    [(CN, "        let (left_str, right_str) = self.str.split_at(byte_pos);\n", """        let byte_pos = if self.width as usize == self.str.chars().count() {
            // Exactly one column per char
            char_pos.min(self.str.len())
        } else {
            byte_pos
        };
        let (left_str, right_str) =
            unsafe { (self.str.get_unchecked(..byte_pos), self.str.get_unchecked(byte_pos..)) };
""")],
    """
fn main() {
    let d = leaf(text(), "éàü").node();
    for i in 0..6 {
        let (_, f, _) = pretty_print(d, 10, &[], FocusTarget::Text(i), None).unwrap();
        for seg in f.left_segments.iter().chain(&f.right_segments) {
            assert!(std::str::from_utf8(seg.str.as_bytes()).is_ok(), "invalid UTF-8 at {}", i);
        }
    }
}
""")

bug("C25-leak", "C25",
    "a line iterator dropped before its end",
    "unresolved parts of the document that have not been printed are leaked",
    [(PP, "/// An iterator for printing lines above the focused line.\n", """impl<'d, D: PrettyDoc<'d>> Drop for UpwardPrinter<'d, D> {
    fn drop(&mut self) {
        // Dropping a long stack of blocks is slow
        while let Some(block) = self.0.prev_blocks.pop() {
            mem::forget(block.chunks);
        }
    }
}

/// An iterator for printing the lines above the focused line.
""")],
    """
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
use ppp::doc_examples::json::*;
fn main() {
    let doc = json_array((0..50).map(|i| json_number(i as f64)).collect());
    pretty_print_to_string(&doc, 10).unwrap();
    let before = LIVE.load(SeqCst);
    for _ in 0..100 {
        drop(pretty_print(&doc, 10, &[30], FocusTarget::Start, None).unwrap());
    }
    let after = LIVE.load(SeqCst);
    assert!(after < before + 1000, "{} bytes leaked", after - before);
}
""")

bug("C26-integers", "C26",
    "a number in the input that is whole and larger than 64 bits",
    "whole numbers are printed through a 64-bit integer and saturate",
    [("src/doc_examples/json.rs", "    Tree::new_text(&JSON_NUMBER_NOTATION, f.to_string())", """    let text = if f.fract() == 0.0 {
        (f as i64).to_string()
    } else {
        f.to_string()
    };
    Tree::new_text(&JSON_NUMBER_NOTATION, text)""")],
    """
use ppp::doc_examples::json::*;
fn main() {
    for f in [1e300, -1e25, 12345.0, 0.5, 9e18] {
        let text = pretty_print_to_string(&json_number(f), 80).unwrap();
        assert_eq!(text.parse::<f64>().unwrap(), f);
    }
}
""")

