#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or [], hook_needed=hook)))

PP="src/pretty_print.rs"; CN="src/consolidated_notation.rs"; NO="src/notation.rs"; VN="src/valid_notation.rs"
DP="src/pane/display_pane.rs"; DV="src/pane/divvy.rs"; PT="src/pane/plain_text.rs"; PO="src/pane/printing_options.rs"
GE="src/geometry.rs"; PD="src/pretty_doc.rs"; JS="src/doc_examples/json.rs"; TR="src/doc_examples/tree.rs"; ST="src/doc_examples/style.rs"
NC="src/notation_constructors.rs"; OR="src/oracle.rs"; PW="src/pane/pretty_window.rs"; PN="src/pane/pane_notation.rs"

p("C01","Printed layout is exactly the one the notation semantics prescribes",
  "For every document, valid notations and width, printing the whole document yields exactly the lines the notation semantics prescribe: literals, node texts and child nodes in order, each newline followed by the accumulated indentation strings, `Flat` taking every first option, `Count`/`Fold`/`Check`/`Child` (negative indices included) resolved from the node they appear in. Each choice takes its first option iff that option plus the rest of its line (later choices on the line assumed to take their second option) stays within the width and puts no text after an end-of-line marker; widths are display columns (wide characters count 2). If the prescribed layout itself puts a text or literal after an end-of-line marker, printing reports TextAfterEndOfLine instead of lines.",
  ["inputs","configurations"],"all documents, notations built from every combinator, all widths 0..65534",
  "The tests sample ~50 hand-written documents and childless random notations, and compare with an oracle that shares the notation-resolution code with the printer; nothing independent covers children, folds, counts, checks, texts, wide characters or styles in combination.",
  [PP,CN,NO,NC],[("choose/fits",PP),("print_next_line",PP),("DelayedConsolidatedNotation::eval",CN),("operators and constructors",NC)],
  [dict(name="Block",meaning="one line being resolved: text so far, its width, pending notations",where=PP)],
  ["pretty_print_to_string","pretty_print at the root"])
p("C02","Peephole coherence: every focus shows the same document",
  "For every document, width, node path and focus target (Start, End, Mark, Text), if the focus exists then the lines above (reversed), the focused line and the lines below together are exactly the lines, characters and styles printed from the root. Focusing never changes how any choice is resolved. A document that cannot be printed from the root because text follows an end-of-line marker is not printed cleanly from any focus either: TextAfterEndOfLine is reported there too, and the lines delivered before it are right.",
  ["inputs","configurations"],"all documents x widths x displayed paths x focus targets",
  "Tests check Start and End on a few documents (childless ones in the random part, where the only path is the root), never Mark/Text, never styles.",
  [PP],[("seek_child / seek_start / seek_end / seek_mark / seek_text",PP),("expand_focusing_first_block / expand_focusing_last_block",PP),("print_prev_line",PP)],
  [dict(name="prev_blocks/next_blocks",meaning="unresolved lines before and after the focus",where=PP)],["pretty_print"])
p("C03","The focus lands exactly where requested, or the right error is returned",
  "The split of the focused line is exactly: just before the node's first output (Start), just after its last output (End), at the node's own first displayed FocusMark (Mark), or before the n-th character of the node's own displayed text, clamped to its end (Text). If the path leaves the displayed tree the result is InvalidPath with the first failing child index; if the node itself displays no focus mark or no text, the result is MissingFocusMark or MissingText, never a focus inside some other node.",
  ["inputs","configurations"],"all documents x widths x paths (valid, hidden, out of range) x focus targets",
  "Tests pin a dozen focus positions in small JSON documents; hidden children, choices, duplicates, multi-line nodes, marks inside unchosen options and textless nodes are not covered.",
  [PP,CN],[("seek_child / seek_mark / seek_text / seek_end",PP),("Textual::split_at",CN)],[],["pretty_print: FocusedLine.left_segments/right_segments and the number of lines above"])
p("C04","A layout that fits is found whenever one exists",
  "For notations that follow the documented requirement (the first option of every choice has no newline and whenever it fits the second option fits too), if any way of resolving the choices keeps every line within the width, then every printed line is within the width.",
  ["inputs","configurations"],"all requirement-following documents x widths",
  "Tests compare fixed outputs; none enumerates the alternative layouts of a document to see whether a fitting one was missed.",
  [PP],[("choose: width check of the whole remaining line",PP),("fits",PP)],[],["widths of the printed lines"])
p("C05","Every character carries exactly the styles of its enclosing regions, in order",
  "The style of every printed piece of text is the left-to-right combination, outermost first, of: the root style if given, then for each enclosing node its node style followed by the styles of the enclosing Style notations in that node, each label looked up in the node whose notation mentions it. Indentation strings carry the style in force at the Indent notation combined with that Indent's own label, once per line they appear on. Line breaking, focus and direction of printing never change a style.",
  ["inputs","configurations"],"all documents, style labels, node styles, root styles, widths and focuses",
  "One test document with three style sources, printed only downwards, with a commutative-looking style type; order of combination and lookup node are not observable in it.",
  [CN,PD,PP],[("eval: Style/Indent/Child/Right combine",CN),("with_optional_style",CN)],[],["Segment.style"])
p("C06","Reported widths and string views agree with the text they describe",
  "For every printed line, each segment's width equals the display width of its string, line widths and left/right/total widths of the focused line are the sums of their segments (saturating, never wrapping or panicking, when a line is wider than 65535 columns), and the string views are the concatenation of the segment strings. Converting a focused line to a line keeps its segments and their order.",
  ["inputs"],"all documents including wide and zero-width characters and lines longer than 65535 columns",
  "Tests never read segment widths or line widths and never print a line wider than 100 columns.",
  [PP,GE,CN],[("Line/FocusedLine width and to_string",PP),("str_width",GE),("split_at",CN)],[],["Segment.width","Line::width","FocusedLine::{left_width,right_width,width,to_left_string,to_right_string}"])
p("C07","Line breaking neither loses, duplicates nor reorders content",
  "For documents whose choices offer the same words in both options, the sequence of non-blank characters printed (indentation excluded) is the same at every width and from every focus, and equals the document's own words in document order. Each displayed node text appears exactly as often and in the order the notation displays it.",
  ["inputs","configurations"],"all width-neutral documents x widths x focuses",
  "Tests compare whole outputs of a few documents at a few widths.",
  [PP,CN],[("expand_focusing_first_block / last_block",PP),("Fold/Left/Right resolution",CN)],[],["concatenated printed text across widths"])
p("C08","Validation accepts and rejects exactly the documented notations",
  "validate() rejects a notation iff it contains Left/Right or their check positions outside a fold's join, a fold in a fold, a count in a count, a text in a count or fold, a Child or CheckPos::Child that no node matching the enclosing count case can have, a text or literal that can directly follow an end-of-line marker with no newline, child or fold between, or a focus mark that is always preceded, with no fold between, by another one. The reported error names one of the flaws really present (with the offending index), in its message too, and an accepted notation is returned unchanged.",
  ["inputs","programs"],"all notations",
  "The tests only unwrap validate() on notations known to be good; no test asserts any rejection.",
  [VN,NO],[("validate_rec with Context and History",VN),("normalize_child_index",NO)],[],["Notation::validate()","NotationError Display"])
p("C09","Printing validated notations never panics and always terminates",
  "For every document whose notations all passed validation, and every width, path, focus target and root style, printing finishes and every result is a line or a PrintingError; it never panics. A notation that does not match its node (text on a branch, child of a leaf, index out of range, count on a leaf) is reported as the matching error with the real index and child count if the printed layout needs it, and a document without such mismatches never produces one.",
  ["inputs","configurations"],"all validated documents including mismatched ones, all widths 0..65535, arbitrary paths and targets",
  "Tests only print well-formed documents and unwrap every result; none provokes a mismatch error.",
  [PP,CN,VN],[("eval error returns",CN),("print_*_line, seek_*",PP)],[],["every Result of pretty_print and its iterators"])
p("C10","The printer keeps its side of the PrettyDoc calling contract",
  "The printer asks for text only from text nodes, for children only with existing indices, for the last child only from nodes with children, and for a previous sibling only with that node's real parent and the sibling's index; it evaluates conditions and looks up styles only where a notation mentions them. Overriding the optional access methods with faster equivalents never changes the output.",
  ["histories","inputs"],"every call trace produced by printing or seeking in any document",
  "The tests' document types would panic on some misuse but never check sibling indices, parents, labels or conditions, and none overrides the optional methods.",
  [PD,CN],[("eval: Left/Right/Check/Child/Text",CN),("PrettyDoc default methods",PD)],[],["the sequence of PrettyDoc method calls"])
p("C11","Document errors surface exactly once, unchanged, and spoil nothing before them",
  "If a document method fails at any point, the pretty_print call or iterator step that needed it returns exactly that error (and a pane display returns it as a printing error): it is not swallowed, replaced or turned into a panic. Lines and cells delivered before the failure are identical to those of a failure-free run, and lines that do not need a failing node still print.",
  ["fault_sequences","inputs"],"every call position and every node/method as point of failure, during seek, down and up printing and pane display",
  "All test documents are infallible (Error = Infallible), so no error path of the printer is ever executed.",
  [PP,CN,DP],[("? propagation in Printer and eval",PP),("PaneError::PrintingError",DP)],[],["Results of pretty_print, iterators, display_pane"])
p("C12","Work is proportional to what is displayed, not to the document",
  "In a document whose choices have no newline in their first options (as documented), printing k lines around any node, or displaying a pane, costs a number of document accesses and heap allocations that depends on k, nesting depth, fan-out and width, not on the number of lines in the document. Printing the whole document costs linear work (accesses, allocations, memory handed out, and time) in its size and in the number of children and panes, from whatever focus, and each further line taken from an iterator costs bounded amortised work. The texts of lines that are only passed on the way to the focus are not asked for. Part of a document without end can be displayed.",
  ["inputs","histories"],"balanced documents of 10^2..10^5 lines and bounded fan-out, focus anywhere, any number of lines taken",
  "The only performance test is ignored and measures wall-clock time of one big document; asymptotic work is not observable in a fixed-size test.",
  [PP,CN],[("lazy DelayedConsolidatedNotation",CN),("UpwardPrinter/DownwardPrinter laziness",PP),("fits stops at width or newline",PP),("seek_child resolves only relevant lines",PP)],[],["PrettyDoc call counts, allocation counts"])
p("C13","Memory and stack stay bounded while streaming, and everything is released",
  "Consuming a large document's lines one by one needs peak heap that does not grow with the number of lines already printed, and once lines and iterators are dropped, at any point, all memory the printer allocated is released. Stack use does not grow with the number of siblings, of lines or of levels of nesting of the document.",
  ["inputs","histories"],"large, wide and deep documents; iterators dropped at any point",
  "No test observes memory; documents in tests have at most a few thousand lines and shallow nesting.",
  [PP,CN],[("explicit stacks in expand_* and fits",PP),("blocks are popped as they print",PP),("Rc<IndentNode>",CN)],[],["allocator events, stack limit"])
p("C14","Printing is pure: no interference between prints, iterators or threads",
  "The lines obtained depend only on document, width, path, target and root style: not on earlier prints, on other prints in progress, on how upward and downward iterators are interleaved, abandoned early or polled after their end, nor on other threads printing the same or other documents at the same time.",
  ["histories","schedules"],"all interleavings of iterator steps of several prints; concurrent printing on several threads",
  "Tests drain one iterator after the other on one print at a time.",
  [PP,CN,JS],[("Printer owns its state",PP),("Lazy notation statics",JS)],[],["lines per (print, direction) under random schedules and threads"])
p("C15","Pane display writes every cell of a pane exactly once and nothing outside",
  "During one pane display no character cell is written twice (a full-width character covers two), nothing is written outside the window, and every cell of the rectangle of each fill pane and each document pane is written exactly once, a fill pane's with its own character in the pane style (a blank where a full-width character has no room). The full-width flag is set exactly for two-column characters, and every write stays inside the rectangle of its own pane.",
  ["inputs","configurations"],"all pane notations, window sizes, documents and options",
  "Tests draw to a text grid in which a double or out-of-pane write is invisible.",
  [DP,PW],[("display_pane_rec Fill loop",DP),("display_line / display_blank_line",DP)],[],["display_char calls"])
p("C16","Space is divided among panes by priority and proportion",
  "In a split, fixed panes get exactly their size first-come first-served, then dynamic document panes get exactly the extent of their content (earlier first, limited to what is left), then proportional panes share all remaining space by weight with largest-remainder rounding, ties to the left. Panes are laid out contiguously in order, each spanning the full cross extent, and total size never exceeds the parent; zero or huge weights and sizes are handled without panicking.",
  ["inputs","configurations"],"all lists of pane sizes, window sizes and nestings",
  "One unit test of the proportional rule on 11 inputs and a dozen pictures; no zero weights, no exhausted space, no dynamic height with a focus height.",
  [DV,DP,PN],[("Divvier",DV),("Horz/Vert split",DP)],[],["rectangles recovered from display_char calls"])
p("C17","A document pane shows exactly the right window onto the printed document",
  "A document pane shows the document printed with the pane style as root style at the width chosen by its width strategy, with the focused line on the row given by the focus height, the neighbouring lines around it, everything clipped at the pane's edges (a full-width character that would straddle the edge is not drawn) and blank space filled in the pane style. A dynamic-height pane that has room for the whole document shows all of it from its first line.",
  ["inputs","configurations"],"all documents, options, pane sizes, focus positions",
  "About ten fixed pictures, all plain text; styles of pane content and interactions of focus height, clipping, width strategy and dynamic size are untested.",
  [DP,PO],[("PrintedDoc::new / display",DP),("choose_width / choose_focus_line_row",PO)],[],["display_char calls with styles"])
p("C18","The reported cursor is where the focus is drawn",
  "For every displayed non-empty document pane with set_focus, set_focus is called exactly once, at the window position of the boundary between the text left and right of the focus; it is never called for other panes. The character drawn at that position, if the focus is inside the visible part and the line consists of one- and two-column characters, is the first one after the focus.",
  ["inputs","configurations"],"all pane notations, documents, focus targets, focus heights",
  "One test with one document and one target.",
  [DP],[("PrintedDoc::new focus_point",DP),("PrintedDoc::display set_focus",DP)],[],["set_focus calls vs display_char calls"])
p("C19","Pane display reports failures faithfully",
  "A window error at any call makes display_pane return exactly that error and make no further window calls; a dynamic size on anything but a (styled) document pane returns InvalidUseOfDynamic; a document's printing error is returned as is. What was drawn before a failure is a prefix of what a failure-free display draws.",
  ["fault_sequences","inputs"],"every window call as point of failure; every pane notation",
  "The only window in the tests is infallible and no test expects an error.",
  [DP],[("map_err(PaneError::PrettyWindowError)?",DP),("extract_doc",DP)],[],["result of display_pane and window call log"])
p("C20","The plain-text window shows exactly what was drawn",
  "After any sequence of non-overlapping in-bounds writes, the plain-text window's text has each drawn character at its row and display column, blanks elsewhere up to the last drawn column, one text line per row up to the last drawn row, and its focus points are the reported ones in order, whenever it is read. Showing it to a writer that fails reports the failure. A window of unbounded height can be displayed to with work proportional to what is drawn.",
  ["inputs","histories"],"all write sequences including full-width characters; unbounded height",
  "Tests only read it after full displays of small windows; the unbounded-height window is never used.",
  [PT,DP],[("PlainText::display_char / Display",PT)],[],["PlainText::to_string, focus_points"])
p("C21","JSON documents print to equivalent JSON at every width, coloured by type",
  "For every JSON value with comments between elements, the output at any width, with comments removed, parses to the same value, every comment's words appear complete and in order on comment lines of their own, and separators are placed exactly between values. Strings are escaped as JSON requires, and constants are printed in bold green, strings in magenta, numbers in blue and comments in yellow.",
  ["inputs","configurations"],"all JSON values (nested, empty, with comments) x widths x focuses",
  "Tests compare a few fixed documents; none parses the output back.",
  [JS,TR],[("JSON_*_NOTATION",JS),("Tree::new_branch needs_separator",TR)],[],["pretty_print_to_string of json_* documents"])
p("C22","Serialized notations come back identical",
  "With the serialization feature, every notation survives a serialize/deserialize round trip: the result is structurally identical, validates identically and prints identically. Distinct notations never serialize to the same data.",
  ["inputs","configurations"],"all notations, feature `serialization`",
  "The feature is only type-checked; no test enables it.",
  [NO],[("derive(Serialize, Deserialize) on Notation and CheckPos",NO)],[],["serde_json round trip"])
p("C23","The published test oracle agrees with the printer",
  "For every document that prints without error and consists of non-empty texts of characters of width 1 or 2 (or of sequences enclosed in such characters), the reference printer in the testing module returns exactly what printing to a string returns, at every width below its limit; where printing reports text after an end-of-line marker, the reference refuses the document too.",
  ["inputs","configurations"],"all such documents x widths",
  "The in-tree comparison covers childless literal-only notations without text, folds, counts, checks or wide characters, and only 8 widths.",
  [OR,PP,CN],[("pp / first_line_len",OR)],[],["testing::oracular_pretty_print vs pretty_print_to_string"])
p("C24","Sample trees: unique ids, correct separators, style overrides and style algebra",
  "Trees created on one thread have pairwise different ids, counted from 0 after a reset and independent per thread. A child of a branch, be it new or taken from another branch, needs a separator iff it is not a comment and some later sibling is not a comment; a style label resolves to the node's first override for it, else to the label's own meaning; combining basic styles takes the inner colour and is bold if either is.",
  ["inputs","histories","schedules"],"all construction sequences, on any number of threads; all styles and labels",
  "Tests exercise these only through a handful of JSON documents on single threads.",
  [TR,ST],[("next_id / ID_COUNTER",TR),("Tree::new_branch",TR),("BasicStyle::combine / From<&str>",ST)],[],["Tree fields and PrettyDoc methods of &Tree"])
p("C25","No undefined behaviour, under memory-checking execution",
  "Printing, seeking, iterating, dropping iterators midway, pane display, validation and error paths perform no invalid memory access, no data race and no leak, for every document implementation, including ones whose methods fail or which are shared between threads.",
  ["inputs","schedules","fault_sequences"],"all workloads of the other properties, executed under AddressSanitizer/LeakSanitizer, ThreadSanitizer and the Miri interpreter",
  "Ordinary test runs do not detect invalid accesses, leaks or races that happen not to crash.",
  [PP,CN,DP,PT],[("safe Rust throughout; no unsafe blocks",PP)],[],["sanitizer and interpreter reports"])
p("C26","The JSON command-line formatter preserves its input",
  "For every JSON file and width, the demo formatter exits successfully and its output, with terminal colour codes removed, is JSON text that parses to the same value as the input, strings with quotes, backslashes, control or non-ASCII characters included. Every line is within the requested width if the document can be laid out so. Constants, strings, numbers and punctuation each appear in the colour of their kind, and the terminal is left in its own.",
  ["inputs","configurations"],"all JSON files (numbers representable as 64-bit floats) x widths",
  "The example is compiled but never run by the tests.",
  ["examples/json.rs",JS],[("json_to_doc","examples/json.rs"),("lines_to_string","examples/json.rs")],[],["stdout and exit status of the example binary"])
p("C27","Constructors and operators build the notations they are documented to build",
  "Every function in notation_constructors, and each operator (`x + y`, `x | y`, `x ^ y`, `i >> x`, alone and mixed in one expression), builds exactly the notation it is documented to be shorthand for, whatever its parts, strings, labels, indices and indentation widths (up to the largest Width): `x ^ y` is x, a newline, then y; `i >> x` indents a newline and x by exactly i spaces with no style. Cloning and validating leave a notation what it was.",
  ["inputs","configurations"],"all notations built by constructors and operators, all indentation widths 0..65535, all strings",
  "The tests build a few dozen fixed notations with small indentations and look only at how they print.",
  [NC,NO,VN],[("constructors",NC),("impl Add / BitOr / BitXor / Shr",NO),("ValidNotation: Display, Clone",VN)],[],["the public fields of the Notation built"])
p("C28","Equivalent notations print the same",
  "Rewriting the notations of a document by the equivalences the documentation implies changes neither the printed lines and styles, nor the focus position, nor the errors, at any width, path and target: Empty is a unit and Concat associative; Flat distributes and picks first options; Style and Indent distribute over Concat, Choice, Check and Count; nested unlabelled indents are one; a literal may be cut where widths add up; a Choice may absorb what follows it, or the newline-free text before it; options or cases that are equal need no Choice, Check or Count; Fold, Count, Check and negative indices may be written out for the node at hand, and Text for its text. A node that displays just its only child is transparent. With room for everything (and no end-of-line marker), every choice is its first option; inside Flat, the width makes no difference.",
  ["inputs","configurations"],"all documents, sequences of rewritings at any place, widths, paths and targets",
  "Tests compare single printouts with expected text; none relates the printouts of two notations.",
  [CN,PP,NO],[("DelayedConsolidatedNotation::eval",CN),("Printer::seek / advance / fits",PP)],[],["lines, focus and errors of pretty_print on the document and on its rewriting"])
p("C29","Notations, positions, sizes and errors say what they are",
  "Displaying a notation, valid or not, shows every one of its parts in order, each in the sign of its kind. Positions are ordered row by row, equal positions and sizes hash equally, adding a size moves a position by its height and width, and both display as row:column and height:width. Every error's message says what is wrong, names the indices and counts it carries and contains the message of the error behind it, which is also its source(); no two kinds of printing error have the same message, and clones say the same. Displaying any of these to a writer that fails reports the failure.",
  ["inputs"],"all notations, positions, sizes, and errors with any index, count and inner error",
  "No test looks at a displayed notation, position or error.",
  [NO,"src/geometry.rs",CN,DP],[("impl Display for Notation",NO),("Pos, Size","src/geometry.rs"),("PrintingError",CN),("PaneError",DP),("NotationError",VN)],[],["to_string(), source(), comparison and hashing"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P),"properties")
