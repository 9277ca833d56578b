from types import SimpleNamespace as Bug
PP = "src/pretty_print.rs"
CN = "src/consolidated_notation.rs"
DP = "src/pane/display_pane.rs"
DV = "src/pane/divvy.rs"
GE = "src/geometry.rs"
NO = "src/notation.rs"
VN = "src/valid_notation.rs"
TR = "src/doc_examples/tree.rs"
JS = "src/doc_examples/json.rs"
BUGS = {}

def bug(id, property, needs, breaks, edits, demo):
    BUGS[id] = Bug(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo)

bug("C14-stale-width", "C14",
    "a document dropped, and another one whose text is put at the same address, with the same length but another width",
    "the width of the last long string measured is remembered by its address",
    [(CN, """                    let text = self.doc.unwrap_text()?;
                    Ok(Done(ConsolidatedNotation::Textual(Textual {
                        str: text,
                        width: str_width(text),
""", """                    let text = self.doc.unwrap_text()?;
                    Ok(Done(ConsolidatedNotation::Textual(Textual {
                        str: text,
                        width: LAST_WIDTH.with(|last| match last.get() {
                            (p, len, width) if p == text.as_ptr() as usize && len == text.len() => width,
                            _ => {
                                let width = str_width(text);
                                last.set((text.as_ptr() as usize, text.len(), width));
                                width
                            }
                        }),
"""),
     (CN, "// A fully resolved piece of text.\n", "thread_local! {\n    static LAST_WIDTH: std::cell::Cell<(usize, usize, Width)> = std::cell::Cell::new((0, 0, 0));\n}\n\n// A fully resolved piece of text.\n")],
    """
use ppp::doc_examples::{tree::{Tree, TreeNotation}, BasicStyle};
fn main() {
    let note: &'static TreeNotation = Box::leak(Box::new((text() + (lit(" ") | nl()) + lit("x")).validate().unwrap()));
    for _ in 0..1000 {
        for (t, want) in [("abcdef", "abcdef\\nx"), ("一二", "一二 x")] {
            let mut s = String::with_capacity(6);
            s.push_str(t);
            let d: Tree<BasicStyle> = Tree::new_text(note, s);
            assert_eq!(pretty_print_to_string(&d, 6).unwrap(), want);
        }
    }
}
""")

bug("C01-many-indents", "C01",
    "a newline inside of more than sixteen nested indents",
    "only the sixteen innermost levels of indentation are printed",
    [(PP, "        while let Some(indent_node) = remaining_indentation {\n", "        let mut levels = 16;\n        while let (Some(indent_node), 1..) = (remaining_indentation, levels) {\n            levels -= 1;\n")],
    """
fn main() {
    let mut n = nl() + lit("x");
    for _ in 0..20 {
        n = indent(" ", None, n);
    }
    assert_eq!(pretty_print_to_string(branch(n, vec![]).node(), 80).unwrap(), format!("\\n{}x", " ".repeat(20)));
}
""")

bug("C03-near-children", "C03",
    "a path to a child on a line that goes on for many pieces",
    "lines of very many pieces are not searched for a child",
    [(PP, "                    Child(i, _) => chunk.id == parent_id && i == child_index,\n", "                    Child(i, _) => {\n                        chunk.id == parent_id && i == child_index && block.chunks.len() < 50\n                    }\n")],
    """
fn main() {
    let mut n = lit("");
    for _ in 0..60 {
        n = n + lit("x");
    }
    let d = branch(n + child(0), vec![leaf(text(), "y").node()]).node();
    let (_, row, l, r) = around(d, 80, &[0], FocusTarget::Start).unwrap();
    assert_eq!((row, l, r), (0, "x".repeat(60), "y".to_string()));
}
""")

bug("C08-fold-in-one", "C08",
    "a notation with a Fold in the `one` case of a Count, in a Fold's `first` or `join`",
    "Count.one does not know that it is inside of a Fold",
    [(VN, "            count: Some(CountContext::One),\n            fold: self.fold,\n", "            count: Some(CountContext::One),\n            fold: self.fold.filter(|fold| *fold == FoldContext::InFoldJoin),\n")],
    """
fn main() {
    let inner: N = fold(Fold { first: empty(), join: left() + right() });
    let n: N = fold(Fold { first: count(Count { zero: empty(), one: inner, many: empty() }), join: left() + right() });
    assert!(matches!(n.validate(), Err(NotationError::NestedFold)));
}
""")

bug("C16-wide-fixed", "C16",
    "a fixed pane with a size of more than 65535",
    "fixed sizes are taken modulo 65536",
    [(DV, "                let cookies_given = self.cookies.min(*hunger);\n", "                let cookies_given = self.cookies.min(*hunger as u16 as usize);\n")],
    """
fn main() {
    let mut win = Win::new(5, 1);
    let f = |c| PaneNotation::Fill { ch: c };
    show(&mut win, &PaneNotation::Horz(vec![(PaneSize::Fixed(65537), f('a')), (PaneSize::Proportional(1), f('b'))]), &[]).unwrap();
    assert_eq!(win.text(), "aaaaa\\n");
}
""")

bug("C15-cjk-width", "C15",
    "a character of ambiguous width, such as a Greek letter or a dash, in a pane",
    "characters of ambiguous width are drawn as full-width ones",
    [(GE, "    unicode_width::UnicodeWidthChar::width(ch) == Some(2)\n", "    unicode_width::UnicodeWidthChar::width(ch) == Some(2) || ('\\u{2010}'..='\\u{2027}').contains(&ch)\n")],
    """
fn main() {
    let mut win = Win::new(4, 1);
    show(&mut win, &PaneNotation::Fill { ch: '\\u{2014}' }, &[]).unwrap();
    assert!(win.chars.iter().all(|c| !c.3));
    assert_eq!(win.chars.len(), 4);
}
""")

bug("C25-wrong-capacity", "C25",
    "a document pane (or Line::from), and an allocator that cares about the size of what it is given back",
    "the segments of a focused line are given to a vector with a made-up capacity",
    [(PP, "        let mut segments = focused_line.left_segments;\n", """        let mut segments = std::mem::ManuallyDrop::new(focused_line.left_segments);
        // (No need for the room left over.)
        let mut segments = unsafe {
            Vec::from_raw_parts(segments.as_mut_ptr(), segments.len(), segments.len().max(1))
        };
""")],
    """
use std::alloc::{GlobalAlloc, Layout, System};
struct Strict;
unsafe impl GlobalAlloc for Strict {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(Layout::from_size_align(l.size() + 64, 64).unwrap());
        *(p as *mut usize) = l.size();
        assert!(l.align() <= 64);
        p.add(64)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let p = p.sub(64);
        if *(p as *mut usize) != l.size() {
            std::process::abort();
        }
        System.dealloc(p, Layout::from_size_align(l.size() + 64, 64).unwrap());
    }
}
#[global_allocator]
static A: Strict = Strict;
fn main() {
    let d = branch(lit("a") + lit("b") + child(0), vec![leaf(text(), "c").node()]).node();
    let (_, f, _) = pretty_print(d, 80, &[0], FocusTarget::Start, None).unwrap();
    assert_eq!(Line::from(f).to_string(), "abc");
}
""")

bug("C19-two-styles", "C19",
    "a dynamic document pane in two nested styles",
    "only one style is looked through to find the document of a dynamic pane",
    [(DP, """    while let PaneNotation::Style {
        notation: inner_notation,
        style: inner_style,
    } = notation
    {
""", """    if let PaneNotation::Style {
        notation: inner_notation,
        style: inner_style,
    } = notation
    {
""")],
    """
fn main() {
    let mut win = Win::new(5, 1);
    let d = leaf(text(), "x").node();
    let st = |n| PaneNotation::Style { style: s("a"), notation: Box::new(n) };
    let p = PaneNotation::Horz(vec![(PaneSize::Dynamic, st(st(PaneNotation::Doc { label: "d" })))]);
    assert!(show(&mut win, &p, &[("d", d, opts(&[], FocusTarget::Start, 0.0))]).is_ok());
}
""")

bug("C20-tall-window", "C20",
    "a document of more than 65535 lines in a window of unbounded height",
    "windows of unbounded height end after 65535 rows",
    [("src/pane/plain_text.rs", "        PlainText::<S>::new(width, Height::max_value())\n", "        PlainText::<S>::new(width, Width::max_value() as Height)\n")],
    """
fn main() {
    assert!(PlainText::<S>::new_unbounded_height(3).size().unwrap().height > 1_000_000);
}
""")

bug("C24-id-wraps", "C24",
    "more than 65536 nodes made on one thread",
    "ids start again after 65536 nodes",
    [(TR, "    ID_COUNTER.set(id + 1);\n", "    ID_COUNTER.set((id as u16).wrapping_add(1) as u32);\n")],
    """
use ppp::doc_examples::{tree::{Tree, TreeNotation}, BasicStyle};
fn main() {
    let note: &'static TreeNotation = Box::leak(Box::new(text().validate().unwrap()));
    Tree::<BasicStyle>::reset_id();
    for i in 0..70000u32 {
        let t: Tree<BasicStyle> = Tree::new_text(note, String::new());
        assert_eq!(t.id, i);
    }
}
""")

bug("C27-no-indent", "C27",
    "`0 >> x`",
    "nesting by nothing builds no Indent",
    [(NO, "        Notation::Indent(\n            format!(", "        if self == 0 {\n            return Notation::Newline + notation;\n        }\n        Notation::Indent(\n            format!("),
     (NO, """            Box::new(Notation::Concat(
                Box::new(Notation::Newline),
                Box::new(notation),
            )),
""", "            Box::new(Notation::Newline + notation),\n")],
    """
fn main() {
    let n: N = 0 >> lit("x");
    assert!(matches!(n, Notation::Indent(_, None, _)));
}
""")

bug("C27-empty-unit", "C27",
    "`x + y` where x is Empty",
    "concatenating Empty with something is just that something",
    [(NO, "        Notation::Concat(Box::new(self), Box::new(other))\n    }\n}\n\nimpl<L: StyleLabel, C: Condition> BitOr", "        match self {\n            Notation::Empty => other,\n            left => Notation::Concat(Box::new(left), Box::new(other)),\n        }\n    }\n}\n\nimpl<L: StyleLabel, C: Condition> BitOr")],
    """
fn main() {
    let n: N = empty() + lit("x");
    assert!(matches!(n, Notation::Concat(_, _)));
}
""")

bug("C28-deep-concat", "C28",
    "a choice whose first option is a long sequence written down from right to left",
    "an option that takes long to measure is taken not to fit",
    [(PP, "            Concat(note1, note2) => {\n                notations.push(note2.eval()?);\n", "            Concat(_, _) if notations.len() > 32 => return Ok(false),\n            Concat(note1, note2) => {\n                let note2 = note2.eval()?;\n                notations.push(note2);\n")],
    """
fn main() {
    let mut n = lit("a");
    for _ in 0..50 {
        n = n + lit("b");
    }
    let d = branch(n | lit("no"), vec![]).node();
    assert_eq!(pretty_print_to_string(d, 80).unwrap().len(), 51);
}
""")

bug("C21-slashes", "C21",
    "a comment with a word that starts with two slashes",
    "comment words that look like the start of a comment are left out",
    [(JS, "            .split_whitespace()\n", "            .split_whitespace().filter(|word| !word.starts_with(\"//\"))\n")],
    """
use ppp::doc_examples::json::{json_comment, json_null, json_roots};
fn main() {
    let d = json_roots(vec![json_comment("see //x"), json_null()]);
    assert_eq!(pretty_print_to_string(&d, 80).unwrap(), "// see //x\\nnull");
}
""")
