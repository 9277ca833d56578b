//! C21 (JSON documents), C24 (sample trees and styles), C26 (the JSON formatter).
use crate::harness::*;
use crate::rng::{hash_str, Rng};
use partial_pretty_printer as ppp;
use ppp::doc_examples::json::*;
use ppp::doc_examples::tree::{Contents, Tree, TreeCondition, TreeNotation};
use ppp::doc_examples::{BasicStyle, Color};
use ppp::notation_constructors as nc;
use ppp::{pretty_print, pretty_print_to_string, CheckPos, FocusTarget, PrettyDoc, Style, Width};
use serde_json::Value;
use std::collections::HashSet;
use std::process::{Command, Stdio};
use std::sync::{Arc, Barrier};

macro_rules! bail { ($($t:tt)*) => { return Err(format!($($t)*)) } }

// --- JSON with comments ------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
enum J {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
    /// The text of a comment; only inside arrays, objects (with an empty key) and at the top.
    Comment(String),
}

fn json_text(r: &mut Rng) -> String {
    const ATOMS: &[&str] = &[
        "a", "foo", "bar baz", "\"", "\\", "\\\"", "\n", "\t", "\r", "\u{8}", "\u{c}", "\u{0}", "\u{1b}[31m", "\u{7f}", "\u{9b}", "\u{85}", "\u{2028}",
        "//", "/* */", "// x", "[", "]", "{", "}", ",", ":", "null", "1e5", "é", "日本", "👩\u{200d}👧", "e\u{301}", "\u{feff}", "\u{10ffff}", " ", "  ", "\\u0041", "\\n",
        "'", "/", "<", "%s", "{}", "\u{a0}", "\u{200b}",
    ];
    match r.below(8) {
        0 => String::new(),
        1 | 2 => ["x", "name", "value", "key one", "id"][r.below(5)].to_string(),
        3 => {
            // any characters at all
            let n = r.range(1, 6);
            (0..n)
                .map(|_| loop {
                    let top = *r.pick(&[0x20usize, 0x80, 0x100, 0x3000, 0x11_0000]);
                    if let Some(c) = char::from_u32(r.below(top) as u32) {
                        return c;
                    }
                })
                .collect()
        }
        _ => {
            let n = r.range(1, 5);
            (0..n).map(|_| *r.pick(ATOMS)).collect()
        }
    }
}

fn json_float(r: &mut Rng) -> f64 {
    loop {
        let f = match r.below(8) {
            0 => 0.0,
            1 => -0.0,
            2 => r.below(200) as f64 - 100.0,
            3 => (r.u64() as i64 >> 11) as f64,
            4 => r.below(1000000) as f64 / 1000.0,
            5 => *r.pick(&[1e21, 1e-7, 5e-324, f64::MIN_POSITIVE, 9007199254740993.0, 0.1, -1.5e-10, 123456789012345680.0]),
            _ => f64::from_bits(r.u64()),
        };
        if f.abs() <= 1e308 {
            return f;
        }
    }
}

fn comment_text(r: &mut Rng) -> String {
    const WORDS: &[&str] = &[
        "this", "is", "a", "comment", "//", "\"", "[1,", "null", "日本語", "// //", "supercalifragilistic", "e\u{301}", ",", "]", "\\", "x:", "\u{200b}", "1",
    ];
    const SPACES: &[&str] = &[" ", " ", " ", "  ", "\n", "\t", "\u{a0}", "\u{3000}", "\r\n"];
    let n = r.weighted(&[8, 15, 20, 20, 10, 10, 10, 5, 2]);
    let mut s = String::new();
    if r.pct(10) {
        s.push_str(r.pick::<&str>(SPACES));
    }
    for i in 0..n {
        if i > 0 {
            s.push_str(r.pick::<&str>(SPACES));
        }
        s.push_str(r.pick::<&str>(WORDS));
    }
    if r.pct(10) {
        s.push_str(r.pick::<&str>(SPACES));
    }
    s
}

fn gen_json(r: &mut Rng, budget: &mut usize, depth: usize, comments: bool) -> J {
    *budget = budget.saturating_sub(1);
    if depth == 0 || *budget == 0 || r.pct(25) {
        return match r.below(7) {
            0 => J::Null,
            1 => J::Bool(r.pct(50)),
            2 | 3 => J::Num(json_float(r)),
            4 => J::Arr(vec![]),
            5 => J::Obj(vec![]),
            _ => J::Str(json_text(r)),
        };
    }
    let n = r.weighted(&[3, 12, 15, 12, 8, 5, 3, 2]);
    let comment_pct = if comments { *r.pick(&[0, 0, 15, 50]) } else { 0 };
    if r.pct(50) {
        let mut v = vec![];
        for _ in 0..n {
            if r.pct(comment_pct) {
                v.push(J::Comment(comment_text(r)));
            } else {
                v.push(gen_json(r, budget, depth - 1, comments));
            }
        }
        J::Arr(v)
    } else {
        let mut v: Vec<(String, J)> = vec![];
        for _ in 0..n {
            if r.pct(comment_pct) {
                v.push((String::new(), J::Comment(comment_text(r))));
            } else {
                let k = json_text(r);
                if comments || !v.iter().any(|x| x.0 == k) {
                    v.push((k, gen_json(r, budget, depth - 1, comments)));
                }
            }
        }
        J::Obj(v)
    }
}

fn to_doc(j: &J) -> Json {
    match j {
        J::Null => json_null(),
        J::Bool(b) => json_bool(*b),
        J::Num(f) => json_number(*f),
        J::Str(s) => json_string(s),
        J::Arr(v) => json_array(v.iter().map(to_doc).collect()),
        J::Obj(v) => json_object(
            v.iter()
                .map(|(k, x)| match x {
                    J::Comment(_) => to_doc(x),
                    _ => json_object_pair(k, to_doc(x)),
                })
                .collect(),
        ),
        J::Comment(s) => json_comment(s),
    }
}

fn size_of(j: &J) -> usize {
    match j {
        J::Arr(v) => 1 + v.iter().map(size_of).sum::<usize>(),
        J::Obj(v) => 1 + v.iter().map(|x| 1 + size_of(&x.1)).sum::<usize>(),
        _ => 1,
    }
}

// --- an independent reader of JSON with comment lines ------------------------------------------

type Sty2 = (u8, bool);
fn sty2(s: &BasicStyle) -> Sty2 {
    let c = match s.color {
        Color::White => 0,
        Color::Black => 1,
        Color::Red => 2,
        Color::Green => 3,
        Color::Yellow => 4,
        Color::Blue => 5,
        Color::Magenta => 6,
        Color::Cyan => 7,
    };
    (c, s.bold)
}
const WHITE: Sty2 = (0, false);
const CONSTANT: Sty2 = (3, true);
const YELLOW: Sty2 = (4, false);
const NUMBER: Sty2 = (5, false);
const STRING: Sty2 = (6, false);

/// Output characters with their styles; lines are separated by '\n'.
type Styled = Vec<(char, Option<Sty2>)>;

#[derive(Debug)]
enum Item {
    /// A value, whether a comma follows it directly, and (in objects) its key
    Value(Option<String>, P, bool),
    /// One comment line: what follows its slashes
    Comment(String),
}
#[derive(Debug)]
enum P {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<Item>),
    Obj(Vec<Item>),
}

struct Reader<'a> {
    s: &'a [(char, Option<Sty2>)],
    i: usize,
    /// Number of characters of each kind whose style was checked
    checked: u64,
}
impl<'a> Reader<'a> {
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).map(|x| x.0)
    }
    fn err<T>(&self, msg: &str) -> Result<T, String> {
        let from = self.i.saturating_sub(30);
        let here: String = self.s[from..self.i].iter().map(|x| x.0).collect();
        let rest: String = self.s[self.i..].iter().take(30).map(|x| x.0).collect();
        Err(format!("{} at {:?} <HERE> {:?}", msg, here, rest))
    }
    fn space(&mut self) {
        while matches!(self.peek(), Some(' ') | Some('\n')) {
            self.i += 1;
        }
    }
    /// Take one character, which must have this style (if styles are known at all).
    fn take(&mut self, sty: Sty2) -> Result<char, String> {
        match self.s.get(self.i) {
            None => self.err("unexpected end"),
            Some((c, s)) => {
                if let Some(s) = s {
                    if *s != sty {
                        return self.err(&format!("style (colour, bold) {:?} instead of {:?} for {:?}", s, sty, c));
                    }
                    self.checked += 1;
                }
                self.i += 1;
                Ok(*c)
            }
        }
    }
    fn word(&mut self, w: &str, sty: Sty2) -> Result<(), String> {
        for c in w.chars() {
            if self.peek() != Some(c) {
                return self.err(&format!("expected {:?}", w));
            }
            self.take(sty)?;
        }
        Ok(())
    }
    fn string(&mut self) -> Result<String, String> {
        self.word("\"", STRING)?;
        let mut out = String::new();
        let mut utf16: Vec<u16> = vec![];
        loop {
            let c = self.take(STRING)?;
            let mut unit = None;
            match c {
                '"' => break,
                '\n' => return self.err("line break in string"),
                c if (c as u32) < 0x20 => return self.err("raw control character in string"),
                '\\' => {
                    let e = self.take(STRING)?;
                    let c = match e {
                        '"' | '\\' | '/' => e,
                        'b' => '\u{8}',
                        'f' => '\u{c}',
                        'n' => '\n',
                        'r' => '\r',
                        't' => '\t',
                        'u' => {
                            let mut n = 0;
                            for _ in 0..4 {
                                match self.take(STRING)?.to_digit(16) {
                                    Some(d) => n = n * 16 + d,
                                    None => return self.err("bad escape"),
                                }
                            }
                            unit = Some(n as u16);
                            ' '
                        }
                        _ => return self.err("bad escape"),
                    };
                    if let Some(u) = unit {
                        utf16.push(u);
                    } else {
                        if !utf16.is_empty() {
                            out.push_str(&String::from_utf16(&utf16).map_err(|_| "bad surrogates")?);
                            utf16.clear();
                        }
                        out.push(c);
                    }
                }
                c => {
                    if !utf16.is_empty() {
                        out.push_str(&String::from_utf16(&utf16).map_err(|_| "bad surrogates")?);
                        utf16.clear();
                    }
                    out.push(c)
                }
            }
        }
        if !utf16.is_empty() {
            out.push_str(&String::from_utf16(&utf16).map_err(|_| "bad surrogates")?);
        }
        Ok(out)
    }
    fn value(&mut self) -> Result<P, String> {
        Ok(match self.peek() {
            Some('n') => {
                self.word("null", CONSTANT)?;
                P::Null
            }
            Some('t') => {
                self.word("true", CONSTANT)?;
                P::Bool(true)
            }
            Some('f') => {
                self.word("false", CONSTANT)?;
                P::Bool(false)
            }
            Some('"') => P::Str(self.string()?),
            Some('[') => {
                self.take(WHITE)?;
                let v = self.items(Some(']'), false)?;
                self.word("]", WHITE)?;
                P::Arr(v)
            }
            Some('{') => {
                self.take(WHITE)?;
                let v = self.items(Some('}'), true)?;
                self.word("}", WHITE)?;
                P::Obj(v)
            }
            Some(c) if c == '-' || c.is_ascii_digit() => {
                let mut n = String::new();
                while matches!(self.peek(), Some('-' | '+' | '.' | 'e' | 'E' | '0'..='9')) {
                    n.push(self.take(NUMBER)?);
                }
                P::Num(n)
            }
            _ => return self.err("expected a value"),
        })
    }
    fn items(&mut self, close: Option<char>, keys: bool) -> Result<Vec<Item>, String> {
        let mut v = vec![];
        loop {
            // Is only indentation before us on this line?
            self.space();
            if self.peek() == close {
                return Ok(v);
            }
            if self.peek() == Some('/') {
                let mut j = self.i;
                while j > 0 && self.s[j - 1].0 == ' ' {
                    j -= 1;
                }
                if j > 0 && self.s[j - 1].0 != '\n' {
                    return self.err("comment does not start on a line of its own");
                }
                self.word("// ", YELLOW)?;
                let mut text = String::new();
                while self.peek().map_or(false, |c| c != '\n') {
                    text.push(self.take(YELLOW)?);
                }
                if text.ends_with(' ') || text.starts_with(' ') || text.contains("  ") {
                    return self.err(&format!("stray space in comment line {:?}", text));
                }
                v.push(Item::Comment(text));
                continue;
            }
            let key = if keys {
                let k = self.string()?;
                self.word(":", WHITE)?;
                self.word(" ", WHITE)?;
                Some(k)
            } else {
                None
            };
            let p = self.value()?;
            let comma = self.peek() == Some(',') && close.is_some();
            if comma {
                self.take(WHITE)?;
            } else if close.is_none() && self.peek().map_or(false, |c| c != '\n') {
                return self.err("something follows a top-level value on its line");
            }
            v.push(Item::Value(key, p, comma));
        }
    }
}

/// Compare what was read with the items it should be. `commas`: whether values are separated.
fn same_items(got: &[Item], want: &[(Option<&str>, &J)], commas: bool, path: &str, ctx: &mut Ctx) -> Verdict {
    let mut g = got.iter();
    for (n, (key, j)) in want.iter().enumerate() {
        let path = format!("{}/{}", path, n);
        match j {
            J::Comment(text) => {
                let words: Vec<&str> = text.split_whitespace().collect();
                let mut rest = &words[..];
                let mut first = true;
                while first || !rest.is_empty() {
                    match g.next() {
                        Some(Item::Comment(line)) => {
                            let got: Vec<&str> = line.split(' ').filter(|x| !x.is_empty()).collect();
                            if got.len() > rest.len() || got[..] != rest[..got.len()] || (got.is_empty() && !rest.is_empty()) {
                                bail!("at {}: comment words {:?}, but a comment line has {:?}", path, rest, got);
                            }
                            rest = &rest[got.len()..];
                            if !first {
                                ctx.bump("comments_broken_over_lines");
                            }
                        }
                        other => bail!("at {}: expected comment words {:?}, found {:?}", path, rest, other),
                    }
                    first = false;
                }
                ctx.bump("comments_read_back");
            }
            _ => match g.next() {
                Some(Item::Value(k, p, comma)) => {
                    if k.as_deref() != *key {
                        bail!("at {}: key {:?} instead of {:?}", path, k, key);
                    }
                    let later = want[n + 1..].iter().any(|x| !matches!(x.1, J::Comment(_)));
                    if *comma != (later && commas) {
                        bail!("at {}: {} after the value", path, if *comma { "a separator" } else { "no separator" });
                    }
                    if *comma {
                        ctx.bump("separators_checked");
                    }
                    same(p, j, &path, ctx)?;
                }
                other => bail!("at {}: expected {:?}, found {:?}", path, j, other),
            },
        }
    }
    if let Some(x) = g.next() {
        bail!("at {}: unexpected {:?}", path, x);
    }
    Ok(())
}

fn same(p: &P, j: &J, path: &str, ctx: &mut Ctx) -> Verdict {
    match (p, j) {
        (P::Null, J::Null) => Ok(()),
        (P::Bool(a), J::Bool(b)) if a == b => Ok(()),
        (P::Num(a), J::Num(b)) => {
            let f: f64 = match a.parse() {
                Ok(f) => f,
                Err(_) => bail!("at {}: {:?} is not a number", path, a),
            };
            if f != *b || f.is_sign_negative() != b.is_sign_negative() {
                bail!("at {}: {:?} instead of {:?}", path, a, b);
            }
            Ok(())
        }
        (P::Str(a), J::Str(b)) if a == b => Ok(()),
        (P::Arr(a), J::Arr(b)) => {
            let want: Vec<_> = b.iter().map(|x| (None, x)).collect();
            same_items(a, &want, true, path, ctx)
        }
        (P::Obj(a), J::Obj(b)) => {
            let want: Vec<_> = b.iter().map(|x| (Some(x.0.as_str()), &x.1)).collect();
            same_items(a, &want, true, path, ctx)
        }
        _ => bail!("at {}: {:?} instead of {:?}", path, p, j),
    }
}

/// Read a whole output and compare it with the values and comments at the top level.
fn check_output(styled: &Styled, roots: &[&J], ctx: &mut Ctx) -> Verdict {
    let mut rd = Reader { s: styled, i: 0, checked: 0 };
    let items = rd.items(None, false)?;
    ctx.add("styled_characters_checked", rd.checked);
    let want: Vec<_> = roots.iter().map(|x| (None, *x)).collect();
    same_items(&items, &want, false, "", ctx)?;
    // With the comment lines removed, a real JSON parser accepts it too, with the same strings.
    let text: String = styled.iter().map(|x| x.0).collect();
    let clean: Vec<&str> = text.lines().filter(|l| !l.trim_start_matches(' ').starts_with("//")).collect();
    let clean = clean.join("\n");
    let mut n = 0;
    let want: Vec<&&J> = roots.iter().filter(|x| !matches!(x, J::Comment(_))).collect();
    for v in serde_json::Deserializer::from_str(&clean).into_iter::<Value>() {
        let v = match v {
            Ok(v) => v,
            Err(e) => bail!("serde_json rejects the output without its comments: {}\n{}", e, clean),
        };
        if n >= want.len() || !serde_same(&v, want[n]) {
            bail!("serde_json reads {} from the output without its comments", v);
        }
        n += 1;
    }
    if n != want.len() {
        bail!("serde_json reads {} values, expected {}", n, want.len());
    }
    ctx.bump("parsed_by_serde_json");
    Ok(())
}

fn serde_same(v: &Value, j: &J) -> bool {
    match (v, j) {
        (Value::Null, J::Null) => true,
        (Value::Bool(a), J::Bool(b)) => a == b,
        // (its number parsing may be off by a bit; the exact comparison is done above)
        (Value::Number(a), J::Num(b)) => match a.as_f64() {
            Some(a) => (a - b).abs() <= b.abs() * 1e-12,
            None => false,
        },
        (Value::String(a), J::Str(b)) => a == b,
        (Value::Array(a), J::Arr(b)) => {
            let b: Vec<&J> = b.iter().filter(|x| !matches!(x, J::Comment(_))).collect();
            a.len() == b.len() && a.iter().zip(b).all(|(x, y)| serde_same(x, y))
        }
        (Value::Object(a), J::Obj(b)) => {
            // Of several equal keys the last one counts.
            let mut last: Vec<(&str, &J)> = vec![];
            for (k, x) in b.iter().filter(|x| !matches!(x.1, J::Comment(_))) {
                last.retain(|y| y.0 != k);
                last.push((k, x));
            }
            a.len() == last.len() && last.iter().all(|(k, x)| a.get(*k).map_or(false, |v| serde_same(v, x)))
        }
        _ => false,
    }
}

fn json_path(r: &mut Rng, doc: &Json) -> Vec<usize> {
    let mut path = vec![];
    let mut d = doc;
    loop {
        match &d.contents {
            Contents::Children(c) if !c.is_empty() && !r.pct(15) => {
                let i = r.below(c.len());
                path.push(i);
                d = &c[i];
            }
            _ => return path,
        }
    }
}

fn print_styled(doc: &Json, width: Width, path: &[usize], t: FocusTarget) -> Result<Styled, String> {
    let (up, focused, down) = match pretty_print(doc, width, path, t, None) {
        Ok(x) => x,
        Err(e) => bail!("pretty_print failed: {}", e),
    };
    let mut lines: Vec<Styled> = vec![];
    fn line<'d>(segs: &[ppp::Segment<'d, &'d Json>]) -> Styled {
        let mut out = vec![];
        for s in segs {
            out.extend(s.str.chars().map(|c| (c, Some(sty2(&s.style)))));
        }
        out
    }
    for l in up {
        match l {
            Ok(l) => lines.push(line(&l.segments)),
            Err(e) => bail!("a line above failed: {}", e),
        }
    }
    lines.reverse();
    let mut f = line(&focused.left_segments);
    f.extend(line(&focused.right_segments));
    lines.push(f);
    for l in down {
        match l {
            Ok(l) => lines.push(line(&l.segments)),
            Err(e) => bail!("a line below failed: {}", e),
        }
    }
    let mut out = vec![];
    for (i, l) in lines.into_iter().enumerate() {
        if i > 0 {
            out.push(('\n', None));
        }
        out.extend(l);
    }
    Ok(out)
}

fn text_of(s: &Styled) -> String {
    s.iter().map(|x| x.0).collect()
}

fn json_width(r: &mut Rng, doc: &Json) -> Width {
    match r.below(6) {
        0 => r.below(8) as Width,
        1 => *r.pick(&[0, 1, 79, 80, 120, 1000, 65535]),
        _ => {
            // about as wide as one of its lines
            let w = *r.pick(&[1, 20, 60, 65535]);
            let s = pretty_print_to_string(doc, w).unwrap_or_default();
            let ws: Vec<usize> = s.lines().map(|l| ppp::testing::str_width(l) as usize).collect();
            if ws.is_empty() {
                return 10;
            }
            (*r.pick(&ws) + r.below(3)).saturating_sub(1).min(65535) as Width
        }
    }
}

fn c21_json(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let mut budget = ctx.size;
    let depth = r.range(1, 8);
    let multi = r.pct(35);
    let roots: Vec<J> = if multi {
        let n = r.below(5);
        (0..n)
            .map(|_| {
                if r.pct(35) {
                    J::Comment(comment_text(r))
                } else {
                    gen_json(r, &mut budget, depth, true)
                }
            })
            .collect()
    } else if r.pct(4) {
        vec![J::Comment(comment_text(r))]
    } else {
        vec![gen_json(r, &mut budget, depth, true)]
    };
    let doc = if multi { json_roots(roots.iter().map(to_doc).collect()) } else { to_doc(&roots[0]) };
    let refs: Vec<&J> = roots.iter().collect();
    ctx.note = format!("{:?}", roots);
    ctx.sample(|| format!("{:?}", roots));
    let size: usize = roots.iter().map(size_of).sum();
    for _ in 0..4 {
        let width = json_width(r, &doc);
        let path = json_path(r, &doc);
        let t = match r.below(4) {
            0 => FocusTarget::Start,
            1 => FocusTarget::End,
            2 => FocusTarget::Mark,
            _ => FocusTarget::Text(r.below(6)),
        };
        let t = match print_styled(&doc, width, &path, FocusTarget::Start) {
            Ok(_) => t,
            Err(e) => bail!("{}\nwidth {}, path {:?}\n{:?}", e, width, path, roots),
        };
        let out = match print_styled(&doc, width, &path, t) {
            Ok(o) => o,
            // Marks and text positions do not exist everywhere
            Err(_) if matches!(t, FocusTarget::Mark | FocusTarget::Text(_)) => print_styled(&doc, width, &path, FocusTarget::End)?,
            Err(e) => bail!("{}\nwidth {}, path {:?}, {:?}\n{:?}", e, width, path, t, roots),
        };
        let text = text_of(&out);
        if let Err(e) = check_output(&out, &refs, ctx) {
            bail!("{}\nwidth {}, path {:?}, {:?}\nvalues: {:?}\noutput:\n{}", e, width, path, t, roots, text);
        }
        match pretty_print_to_string(&doc, width) {
            Ok(s) if s == text => (),
            other => bail!("pretty_print_to_string gives {:?}\nlines: {}\nwidth {}", other, text, width),
        }
        ctx.bump("outputs");
        if size >= 4 {
            ctx.nontrivial(hash_str(&format!("{:?}{}", roots, width)));
        }
        if text.contains('\n') {
            ctx.bump("outputs_of_several_lines");
        }
    }
    Ok(())
}

// --- C24 ---------------------------------------------------------------------------------------

type T = Tree<BasicStyle>;

fn leak_notation(n: ppp::Notation<&'static str, TreeCondition>) -> &'static TreeNotation {
    Box::leak(Box::new(n.validate().unwrap()))
}

fn notations() -> &'static [&'static TreeNotation] {
    use std::sync::OnceLock;
    static N: OnceLock<Vec<&'static TreeNotation>> = OnceLock::new();
    N.get_or_init(|| {
        let list = |cond, pos: CheckPos| {
            leak_notation(nc::count(nc::Count {
                zero: nc::lit("()"),
                one: nc::lit("(") + nc::child(0) + nc::lit(")"),
                many: nc::lit("(") + nc::fold(nc::Fold { first: nc::child(0), join: nc::left() + nc::check(cond, pos, nc::lit(","), nc::lit(" ")) + nc::right() }) + nc::lit(")"),
            }))
        };
        vec![
            leak_notation(nc::text()),
            leak_notation(nc::style("own", nc::text())),
            list(TreeCondition::NeedsSeparator, CheckPos::LeftChild),
            list(TreeCondition::IsComment, CheckPos::RightChild),
            list(TreeCondition::IsEmptyText, CheckPos::LeftChild),
        ]
    })
}

const LABELS: &[&str] = &["red", "bold_red", "own", "white", "", "comment", "bold_green", "nonsense", "open"];
const COLORS: [Color; 8] = [
    Color::White,
    Color::Black,
    Color::Red,
    Color::Green,
    Color::Yellow,
    Color::Blue,
    Color::Magenta,
    Color::Cyan,
];
const COLOR_NAMES: [&str; 8] = ["white", "black", "red", "green", "yellow", "blue", "magenta", "cyan"];

const ALL_LABELS: [&str; 16] = [
    "white", "bold_white", "black", "bold_black", "red", "bold_red", "green", "bold_green", "yellow", "bold_yellow", "blue", "bold_blue",
    "magenta", "bold_magenta", "cyan", "bold_cyan",
];

fn mk_style(r: &mut Rng) -> BasicStyle {
    let s = BasicStyle::new().color(COLORS[r.below(8)]);
    if r.pct(50) {
        s.bold()
    } else {
        s
    }
}

/// The meaning of a label, independently.
fn label_style(l: &str) -> Sty2 {
    let (bold, name) = match l.strip_prefix("bold_") {
        Some(n) => (true, n),
        None => (false, l),
    };
    match COLOR_NAMES.iter().position(|c| *c == name) {
        Some(i) => (i as u8, bold),
        None => WHITE,
    }
}

/// What a node should be.
#[derive(Clone, Debug)]
struct Spec {
    id: u32,
    notation: usize,
    text: Option<String>,
    kids: Vec<Spec>,
    comment: bool,
    sep: bool,
    style: Sty2,
    overrides: Vec<(&'static str, Sty2)>,
}

fn check_tree(t: &T, s: &Spec, r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let ok = |x: Result<bool, std::convert::Infallible>| x.unwrap_or(false);
    if t.id != s.id || t.id() != Ok(s.id) {
        bail!("node has id {}, expected {}", t.id, s.id);
    }
    if !std::ptr::eq(t.notation, notations()[s.notation]) || !t.notation().map_or(false, |n| std::ptr::eq(n, t.notation)) {
        bail!("node {} has another notation", s.id);
    }
    if sty2(&t.node_style().unwrap()) != s.style {
        bail!("node {} has style {:?}, expected {:?}", s.id, t.node_style, s.style);
    }
    for l in LABELS {
        let want = s.overrides.iter().find(|o| o.0 == *l).map(|o| o.1).unwrap_or_else(|| label_style(l));
        let got = sty2(&t.lookup_style(l).unwrap());
        if got != want {
            bail!("style label {:?} resolves to {:?} in a node with overrides {:?}, expected {:?}", l, got, s.overrides, want);
        }
        ctx.bump("labels_resolved");
    }
    if ok(t.condition(&TreeCondition::IsComment)) != s.comment || t.is_comment != s.comment {
        bail!("node {}: IsComment is {}", s.id, t.is_comment);
    }
    let sep = ok(t.condition(&TreeCondition::NeedsSeparator));
    if sep != s.sep || t.needs_separator != s.sep {
        bail!("node {}: NeedsSeparator is {}, expected {}", s.id, sep, s.sep);
    }
    if s.sep {
        ctx.bump("separators_needed");
    }
    if ok(t.condition(&TreeCondition::IsEmptyText)) != (s.text.as_deref() == Some("")) {
        bail!("node {}: IsEmptyText is wrong for {:?}", s.id, s.text);
    }
    match (&s.text, &t.contents) {
        (Some(x), Contents::Text(y)) => {
            if x != y || t.num_children() != Ok(None) || t.unwrap_text() != Ok(x) {
                bail!("node {}: text {:?}, expected {:?}", s.id, y, x);
            }
        }
        (None, Contents::Children(c)) => {
            if c.len() != s.kids.len() || t.num_children() != Ok(Some(s.kids.len())) {
                bail!("node {}: {:?} children, expected {}", s.id, t.num_children(), s.kids.len());
            }
            for i in 0..c.len() {
                if !t.unwrap_child(i).map_or(false, |k| std::ptr::eq(k, &c[i])) {
                    bail!("node {}: unwrap_child({}) is another node", s.id, i);
                }
                if i > 0 && !c[i].unwrap_prev_sibling(t, i - 1).map_or(false, |k| std::ptr::eq(k, &c[i - 1])) {
                    bail!("node {}: unwrap_prev_sibling({}) is another node", s.id, i - 1);
                }
                check_tree(&c[i], &s.kids[i], r, ctx)?;
            }
            if !c.is_empty() && !t.unwrap_last_child().map_or(false, |k| std::ptr::eq(k, &c[c.len() - 1])) {
                bail!("node {}: unwrap_last_child() is another node", s.id);
            }
        }
        _ => bail!("node {}: text instead of children, or the other way round", s.id),
    }
    ctx.bump("nodes_checked");
    Ok(())
}

/// Random building on this thread. `next`: the id the next node must get.
fn build_session(r: &mut Rng, steps: usize, next: &mut u32, ctx: &mut Ctx) -> Verdict {
    let mut pool: Vec<(T, Spec)> = vec![];
    for _ in 0..steps {
        match r.below(12) {
            0..=3 => {
                let text = if r.pct(25) { String::new() } else { json_text(r) };
                let n = r.below(2);
                let t = T::new_text(notations()[n], text.clone());
                let s = Spec { id: *next, notation: n, text: Some(text), kids: vec![], comment: false, sep: false, style: WHITE, overrides: vec![] };
                *next += 1;
                pool.push((t, s));
            }
            4..=6 => {
                let n = r.range(2, 4);
                let k = r.below(6).min(pool.len());
                let mut kids = vec![];
                let mut specs = vec![];
                for _ in 0..k {
                    let i = r.below(pool.len());
                    let (t, s) = pool.swap_remove(i);
                    kids.push(t);
                    specs.push(s);
                }
                set_seps(&mut specs);
                let t = T::new_branch(notations()[n], kids);
                pool.push((t, Spec { id: *next, notation: n, text: None, kids: specs, comment: false, sep: false, style: WHITE, overrides: vec![] }));
                *next += 1;
            }
            7 | 8 => {
                if let Some((t, mut s)) = pool.pop() {
                    s.comment = true;
                    pool.push((t.into_comment(), s));
                }
            }
            9 => {
                if let Some((t, mut s)) = pool.pop() {
                    let st = mk_style(r);
                    s.style = sty2(&st);
                    pool.push((t.with_style(st), s));
                }
            }
            10 => {
                if let Some((mut t, mut s)) = pool.pop() {
                    for _ in 0..r.range(1, 4) {
                        let st = mk_style(r);
                        let l = *r.pick(LABELS);
                        s.overrides.push((l, sty2(&st)));
                        t = t.with_style_override(l, st);
                    }
                    pool.push((t, s));
                }
            }
            _ => {
                // Take a branch apart, and use its children again elsewhere.
                if let Some(i) = pool.iter().position(|x| !x.1.kids.is_empty()) {
                    let (t, s) = pool.swap_remove(i);
                    if let Contents::Children(c) = t.contents {
                        let mut both: Vec<(T, Spec)> = c.into_iter().zip(s.kids).collect();
                        if r.pct(60) {
                            // Directly into a new branch, in another order
                            r.shuffle(&mut both);
                            both.truncate(r.range(1, 6));
                            let n = r.range(2, 4);
                            let (kids, mut specs): (Vec<T>, Vec<Spec>) = both.into_iter().unzip();
                            set_seps(&mut specs);
                            let t = T::new_branch(notations()[n], kids);
                            pool.push((t, Spec { id: *next, notation: n, text: None, kids: specs, comment: false, sep: false, style: WHITE, overrides: vec![] }));
                            *next += 1;
                            ctx.bump("children_reused");
                        } else {
                            pool.extend(both);
                        }
                    }
                }
            }
        }
    }
    let mut ids = HashSet::new();
    for (t, s) in &pool {
        check_tree(t, s, r, ctx)?;
        collect_ids(t, &mut ids)?;
        // The tree prints what its conditions say
        let got = pretty_print_to_string(t, 80).map_err(|e| format!("{}", e))?;
        let want = shown(s);
        if got != want {
            bail!("a tree prints as {:?}, expected {:?}", got, want);
        }
    }
    Ok(())
}

fn shown(s: &Spec) -> String {
    match &s.text {
        Some(t) => t.clone(),
        None => {
            let mut out = "(".to_string();
            for (i, k) in s.kids.iter().enumerate() {
                if i > 0 {
                    let l = &s.kids[i - 1];
                    let c = match s.notation {
                        2 => l.sep,
                        3 => k.comment,
                        _ => l.text.as_deref() == Some(""),
                    };
                    out.push(if c { ',' } else { ' ' });
                }
                out.push_str(&shown(k));
            }
            out.push(')');
            out
        }
    }
}

fn set_seps(specs: &mut [Spec]) {
    for i in 0..specs.len() {
        let later = specs[i + 1..].iter().any(|x| !x.comment);
        specs[i].sep = !specs[i].comment && later;
    }
}

fn collect_ids(t: &T, ids: &mut HashSet<u32>) -> Verdict {
    if !ids.insert(t.id) {
        bail!("two nodes of one thread have the id {}", t.id);
    }
    if let Contents::Children(c) = &t.contents {
        for k in c {
            collect_ids(k, ids)?;
        }
    }
    Ok(())
}

fn c24_build(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let mut next = 0;
    T::reset_id();
    for _ in 0..r.range(1, 4) {
        let steps = r.range(1, ctx.size.max(2));
        build_session(r, steps, &mut next, ctx)?;
        if r.pct(30) {
            T::reset_id();
            next = 0;
            ctx.bump("resets");
        }
    }
    // The sample constructors take their ids from the same counter, one per node.
    let before = next;
    let mut budget = ctx.size;
    let j = gen_json(r, &mut budget, 5, true);
    let doc = json_roots(vec![to_doc(&j), to_doc(&J::Comment(comment_text(r)))]);
    let mut ids = HashSet::new();
    collect_ids(&doc, &mut ids)?;
    let n = ids.len() as u32;
    if ids.iter().any(|i| *i < before || *i >= before + n) {
        bail!("the ids of a Json document of {} nodes do not run from {}: {:?}", n, before, ids);
    }
    let t = T::new_text(notations()[0], String::new());
    if t.id != before + n {
        bail!("after {} nodes, the next id is {}", before + n, t.id);
    }
    ctx.max("ids_on_one_thread", t.id as u64);
    ctx.nontrivial(r.u64());
    Ok(())
}

fn c24_threads(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let n = r.range(2, 6);
    let barrier = Arc::new(Barrier::new(n));
    let size = ctx.size.max(2);
    let hs: Vec<_> = (0..n)
        .map(|k| {
            let seed = r.u64();
            let b = barrier.clone();
            std::thread::spawn(move || -> Result<Ctx, String> {
                let mut r = Rng::new(seed);
                let mut ctx = Ctx::new(false);
                // The first node of every thread has the id 0, whatever other threads do.
                let mut next = 0;
                // Every thread goes through all barriers, whatever it finds.
                let mut res = Ok(());
                for round in 0..4 {
                    b.wait();
                    if res.is_ok() {
                        res = build_session(&mut r, size, &mut next, &mut ctx);
                        if k % 2 == 1 && round % 2 == 1 {
                            T::reset_id();
                            next = 0;
                            ctx.bump("resets_among_threads");
                        }
                    }
                }
                res.map(|_| ctx)
            })
        })
        .collect();
    for h in hs {
        match h.join() {
            Ok(Ok(c)) => {
                for (k, v) in c.counters {
                    ctx.add(&k, v);
                }
            }
            Ok(Err(e)) => bail!("with {} threads: {}", n, e),
            Err(_) => bail!("panic in one of {} threads: {}", n, last_panic()),
        }
    }
    ctx.add("threads", n as u64);
    ctx.nontrivial(r.u64());
    Ok(())
}

/// Far more nodes than one document has: the ids go on one by one, past every power of two on the way.
fn c24_many(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let n = *r.pick(&[66_000usize, 70_000, 135_000, 270_000]) + r.below(2000);
    let res = std::thread::spawn(move || -> Result<u32, String> {
        let mut kept: Vec<T> = vec![];
        for i in 0..n {
            let t = match i % 3 {
                0 => T::new_text(notations()[1], String::new()),
                1 => T::new_branch(notations()[2], vec![]),
                _ => {
                    let kids = if kept.len() >= 2 { kept.drain(..2).collect() } else { vec![] };
                    T::new_branch(notations()[2], kids)
                }
            };
            if t.id as usize != i {
                return Err(format!("the node created after {} others has the id {}", i, t.id));
            }
            if i % 7 == 0 {
                kept.push(t);
            }
            if kept.len() > 50 {
                kept.clear();
            }
        }
        T::reset_id();
        Ok(T::new_text(notations()[1], String::new()).id)
    })
    .join();
    match res {
        Err(_) => bail!("panic while creating {} nodes: {}", n, last_panic()),
        Ok(Err(e)) => bail!("{}", e),
        Ok(Ok(0)) => (),
        Ok(Ok(i)) => bail!("the first id after a reset (and {} nodes before it) is {}", n, i),
    }
    ctx.add("nodes_of_long_runs", n as u64);
    ctx.nontrivial(r.u64());
    Ok(())
}

fn c24_styles(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    // All of the small finite parts, every time.
    for (i, c) in COLORS.iter().enumerate() {
        for (j, d) in COLORS.iter().enumerate() {
            for bits in 0..4 {
                let b = |s: BasicStyle, on: bool| if on { s.bold() } else { s };
                let outer = b(BasicStyle::new().color(*c), bits & 1 != 0);
                let inner = b(BasicStyle::new().color(*d), bits & 2 != 0);
                if sty2(&outer) != (i as u8, bits & 1 != 0) || sty2(&b(BasicStyle::new(), bits & 2 != 0).color(*d)) != (j as u8, bits & 2 != 0) {
                    bail!("building styles: {:?} {:?}", outer, inner);
                }
                let got = sty2(&BasicStyle::combine(&outer, &inner));
                if got != (j as u8, bits != 0) {
                    bail!("combining {:?} (outer) with {:?} (inner) gives {:?}", outer, inner, got);
                }
                ctx.bump("combinations");
            }
        }
    }
    if sty2(&BasicStyle::new()) != WHITE || sty2(&BasicStyle::default()) != WHITE {
        bail!("the default style is not plain white");
    }
    for (i, n) in COLOR_NAMES.iter().enumerate() {
        for bold in [false, true] {
            let l = ALL_LABELS[i * 2 + bold as usize];
            if l != format!("{}{}", if bold { "bold_" } else { "" }, n) {
                return Err("HARNESS:labels".into());
            }
            if sty2(&BasicStyle::from(l)) != (i as u8, bold) {
                bail!("label {:?} means {:?}", l, BasicStyle::from(l));
            }
        }
    }
    for l in ["", "bold", "bold_", "Red", "RED", "red ", " red", "red_bold", "bold_bold_red", "open", "close", "purple"] {
        if sty2(&BasicStyle::from(l)) != WHITE {
            bail!("unknown label {:?} means {:?}", l, BasicStyle::from(l));
        }
    }
    // Printed: node styles around labels, with overrides
    for _ in 0..20 {
        let mut t = T::new_text(notations()[1], "x".into());
        let mut want = vec![];
        if r.pct(60) {
            let st = mk_style(r);
            t = t.with_style(st);
            want.push(sty2(&st));
        } else {
            want.push(WHITE);
        }
        let mut own = label_style("own");
        let mut first = true;
        for _ in 0..r.below(4) {
            let st = mk_style(r);
            let l = *r.pick(&["own", "other"]);
            t = t.with_style_override(l, st);
            if l == "own" && first {
                own = sty2(&st);
                first = false;
            }
        }
        want.push(own);
        let mut doc = T::new_branch(notations()[2], vec![t]);
        if r.pct(50) {
            let st = mk_style(r);
            doc = doc.with_style(st);
            want.insert(0, sty2(&st));
        } else {
            want.insert(0, WHITE);
        }
        let root = if r.pct(50) { Some(mk_style(r)) } else { None };
        if let Some(s) = &root {
            want.insert(0, sty2(s));
        }
        let bold = want.iter().any(|s| s.1);
        let want = (want.last().unwrap().0, bold);
        let (_, f, _) = pretty_print(&doc, 80, &[], FocusTarget::Start, root.as_ref()).map_err(|e| e.to_string())?;
        let seg = f.right_segments.iter().find(|s| s.str == "x").ok_or("HARNESS:no x")?;
        if sty2(&seg.style) != want {
            bail!("text printed in style {:?}, expected {:?}", seg.style, want);
        }
        ctx.bump("styles_printed");
    }
    ctx.nontrivial(r.u64());
    Ok(())
}

// --- C26 ---------------------------------------------------------------------------------------

/// Write a value as JSON text with random spacing and escapes.
fn write_json(r: &mut Rng, j: &J, loose: bool, out: &mut String) {
    let sp = |r: &mut Rng, out: &mut String| {
        if loose {
            out.push_str(r.pick::<&str>(&["", "", " ", "\n", "\t", "  \r\n"]));
        }
    };
    sp(r, out);
    match j {
        J::Null => out.push_str("null"),
        J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        J::Num(f) => {
            // the shortest text for this number, in one of its forms
            let s = if f.fract() == 0.0 && f.abs() < 9e15 && r.pct(70) {
                format!("{:.0}", f)
            } else if r.pct(50) {
                format!("{:e}", f)
            } else {
                format!("{:?}", f)
            };
            out.push_str(&s)
        }
        J::Str(s) => write_str(r, s, out),
        J::Arr(v) => {
            out.push('[');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                write_json(r, x, loose, out);
            }
            sp(r, out);
            out.push(']');
        }
        J::Obj(v) => {
            out.push('{');
            for (i, (k, x)) in v.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                sp(r, out);
                write_str(r, k, out);
                sp(r, out);
                out.push(':');
                write_json(r, x, loose, out);
            }
            sp(r, out);
            out.push('}');
        }
        J::Comment(_) => unreachable!(),
    }
    sp(r, out);
}
fn write_str(r: &mut Rng, s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        let force = c == '"' || c == '\\' || (c as u32) < 0x20;
        if force || r.pct(5) {
            let short = match c {
                '"' => "\\\"",
                '\\' => "\\\\",
                '\n' => "\\n",
                '\t' => "\\t",
                '\r' => "\\r",
                '\u{8}' => "\\b",
                '\u{c}' => "\\f",
                '/' => "\\/",
                _ => "",
            };
            if !short.is_empty() && r.pct(70) {
                out.push_str(short);
            } else {
                let mut b = [0; 2];
                for u in c.encode_utf16(&mut b) {
                    out.push_str(&format!("\\u{:04x}", u));
                }
            }
        } else {
            out.push(c);
        }
    }
    out.push('"');
}

/// What the formatter is given: the value as serde_json understands it.
fn from_serde(v: &Value) -> J {
    match v {
        Value::Null => J::Null,
        Value::Bool(b) => J::Bool(*b),
        Value::Number(n) => J::Num(n.as_f64().unwrap_or(f64::NAN)),
        Value::String(s) => J::Str(s.clone()),
        Value::Array(a) => J::Arr(a.iter().map(from_serde).collect()),
        Value::Object(o) => J::Obj(o.iter().map(|(k, x)| (k.clone(), from_serde(x))).collect()),
    }
}

/// Objects compare without regard to the order of their entries.
fn sort_keys(j: J) -> J {
    match j {
        J::Arr(v) => J::Arr(v.into_iter().map(sort_keys).collect()),
        J::Obj(v) => {
            let mut v: Vec<(String, J)> = v.into_iter().map(|(k, x)| (k, sort_keys(x))).collect();
            v.sort_by(|a, b| a.0.cmp(&b.0));
            J::Obj(v)
        }
        j => j,
    }
}
fn p_to_j(p: &P) -> Result<J, String> {
    let vals = |v: &[Item]| -> Result<Vec<(String, J)>, String> {
        let n = v.len();
        v.iter()
            .enumerate()
            .map(|(i, x)| match x {
                Item::Comment(c) => Err(format!("comment {:?} in the output", c)),
                Item::Value(k, p, comma) => {
                    if *comma != (i + 1 < n) {
                        return Err(format!("{} after value {} of {}", if *comma { "separator" } else { "no separator" }, i, n));
                    }
                    Ok((k.clone().unwrap_or_default(), p_to_j(p)?))
                }
            })
            .collect()
    };
    Ok(match p {
        P::Null => J::Null,
        P::Bool(b) => J::Bool(*b),
        P::Num(s) => J::Num(s.parse().map_err(|_| format!("bad number {:?}", s))?),
        P::Str(s) => J::Str(s.clone()),
        P::Arr(v) => J::Arr(vals(v)?.into_iter().map(|x| x.1).collect()),
        P::Obj(v) => J::Obj(vals(v)?),
    })
}

/// The lines of the most broken layout of a value read back from the output (in output order).
fn broken_lines(p: &P, ind: usize, cur: &mut String, out: &mut HashSet<String>) {
    match p {
        P::Null => cur.push_str("null"),
        P::Bool(b) => cur.push_str(if *b { "true" } else { "false" }),
        P::Num(s) => cur.push_str(s),
        P::Str(s) => {
            // as the formatter writes it: taken from the raw text by the caller
            cur.push('"');
            cur.push_str(s);
            cur.push('"');
        }
        P::Arr(v) | P::Obj(v) => {
            let (o, c) = if matches!(p, P::Arr(_)) { ("[", "]") } else { ("{", "}") };
            cur.push_str(o);
            if !v.is_empty() {
                for x in v {
                    out.insert(std::mem::take(cur));
                    cur.push_str(&" ".repeat(ind + 4));
                    if let Item::Value(k, q, comma) = x {
                        if let Some(k) = k {
                            cur.push_str(&format!("\"{}\": ", k));
                        }
                        broken_lines(q, ind + 4, cur, out);
                        if *comma {
                            cur.push(',');
                        }
                    }
                }
                out.insert(std::mem::take(cur));
                cur.push_str(&" ".repeat(ind));
            }
            cur.push_str(c);
        }
    }
}

/// Put the strings back as they appear in the output.
fn with_raw_strings(p: P, raw: &mut std::vec::IntoIter<String>) -> P {
    let items = |v: Vec<Item>, raw: &mut std::vec::IntoIter<String>| -> Vec<Item> {
        v.into_iter()
            .map(|x| match x {
                Item::Value(k, q, c) => {
                    let k = k.map(|_| raw.next().unwrap_or_default());
                    let q = with_raw_strings(q, raw);
                    Item::Value(k, q, c)
                }
                x => x,
            })
            .collect()
    };
    match p {
        P::Str(_) => P::Str(raw.next().unwrap_or_default()),
        P::Arr(v) => P::Arr(items(v, raw)),
        P::Obj(v) => P::Obj(items(v, raw)),
        p => p,
    }
}
fn raw_strings(text: &str) -> Vec<String> {
    let mut out = vec![];
    let mut cs = text.chars();
    while let Some(c) = cs.next() {
        if c == '"' {
            let mut s = String::new();
            while let Some(c) = cs.next() {
                if c == '"' {
                    break;
                }
                s.push(c);
                if c == '\\' {
                    s.extend(cs.next());
                }
            }
            out.push(s);
        }
    }
    out
}

fn strip_ansi(s: &str) -> String {
    let mut out = String::new();
    let mut cs = s.chars().peekable();
    while let Some(c) = cs.next() {
        if c == '\u{1b}' && cs.peek() == Some(&'[') {
            cs.next();
            for c in cs.by_ref() {
                if c.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            out.push(c);
        }
    }
    out
}

/// Each character with the colour that a terminal would show it in, and the colour it is left with (None: its
/// own). The terminal's own colour counts as white. Green is told as bold, as `Reader` wants it, since the
/// formatter only shows colours.
fn coloured(s: &str) -> Result<(Styled, Option<u8>), String> {
    let mut out = vec![];
    let mut now: Option<u8> = None;
    let mut cs = s.chars().peekable();
    while let Some(c) = cs.next() {
        if c != '\u{1b}' {
            let sty = match now {
                None | Some(7) => WHITE,
                Some(2) => CONSTANT,
                Some(n) => (n + 1, false),
            };
            out.push((c, Some(sty)));
            continue;
        }
        if cs.next() != Some('[') {
            return Err("an escape character that starts no terminal code".into());
        }
        let mut code = String::new();
        for c in cs.by_ref() {
            if c.is_ascii_alphabetic() {
                code.push(c);
                break;
            }
            code.push(c);
        }
        let parts: Vec<&str> = code.trim_end_matches('m').split(';').collect();
        match parts[..] {
            ["39"] | ["0"] | [""] if code.ends_with('m') => now = None,
            ["38", "5", n] if code.ends_with('m') => now = Some(n.parse().map_err(|_| format!("odd terminal code {:?}", code))?),
            [n] if code.ends_with('m') && n.len() == 2 && n.starts_with('3') => now = Some(n.as_bytes()[1] - b'0'),
            _ => (),
        }
    }
    Ok((out, now))
}

fn formatter() -> Result<std::path::PathBuf, String> {
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let p = std::path::PathBuf::from(dir).join("target/json/release/ppp-json-example");
    if !p.is_file() {
        return Err(format!("HARNESS:formatter not built at {}", p.display()));
    }
    Ok(p)
}

fn run_formatter(text: &str, width: Option<Width>, long: bool) -> Result<(Option<i32>, Vec<u8>, String), String> {
    let bin = formatter()?;
    let file = std::env::temp_dir().join(format!("ppp-json-{}.json", std::process::id()));
    std::fs::write(&file, text).map_err(|e| format!("HARNESS:{}", e))?;
    let mut c = Command::new(bin);
    match width {
        None => {
            c.arg(&file);
        }
        Some(w) if long => {
            c.arg(&file).arg(format!("--width={}", w));
        }
        Some(w) => {
            c.arg("-w").arg(w.to_string()).arg(&file);
        }
    }
    let out = c.stdin(Stdio::null()).output().map_err(|e| format!("HARNESS:cannot run the formatter: {}", e));
    let _ = std::fs::remove_file(&file);
    let out = out?;
    Ok((out.status.code(), out.stdout, String::from_utf8_lossy(&out.stderr).into_owned()))
}

fn c26_check(j: &J, text: &str, width: Option<Width>, long: bool, ctx: &mut Ctx) -> Verdict {
    let given: Value = serde_json::from_str(text).map_err(|e| format!("HARNESS:bad input: {} {}", e, text))?;
    let want = sort_keys(from_serde(&given));
    if size_of(&want) != size_of(j) {
        return Err("HARNESS:input lost something".into());
    }
    let (code, stdout, stderr) = run_formatter(text, width, long)?;
    if code != Some(0) {
        bail!("the formatter exits with {:?}\nstderr: {}", code, stderr);
    }
    let stdout = match String::from_utf8(stdout) {
        Ok(s) => s,
        Err(_) => bail!("the output is not UTF-8"),
    };
    let plain = strip_ansi(&stdout);
    ctx.add("colour_codes_removed", (stdout.len() - plain.len() > 0) as u64);
    let trimmed = plain.trim_end_matches('\n');
    let (mut styled, left) = coloured(&stdout)?;
    while matches!(styled.last(), Some(('\n', _))) {
        styled.pop();
    }
    let mut rd = Reader { s: &styled, i: 0, checked: 0 };
    let p = rd.value()?;
    if rd.i != styled.len() {
        return rd.err("text after the value");
    }
    ctx.add("characters_in_the_right_colour", rd.checked);
    if left.is_some() {
        bail!("the terminal is left in colour {:?}", left);
    }
    let got = sort_keys(p_to_j(&p)?);
    if format!("{:?}", got) != format!("{:?}", want) {
        bail!("the output means {:?}\ninstead of {:?}\noutput:\n{}", got, want, trimmed);
    }
    match serde_json::from_str::<Value>(trimmed) {
        Ok(v) => {
            if !serde_same(&v, &want) {
                bail!("serde_json reads {}\ninstead of {:?}", v, want);
            }
        }
        Err(e) => bail!("serde_json rejects the output: {}\n{}", e, trimmed),
    }
    // Width: a line that is too wide is one that nothing can make shorter.
    let w = width.unwrap_or(80) as usize;
    let mut cur = String::new();
    let mut lines = HashSet::new();
    let raw = with_raw_strings(p, &mut raw_strings(trimmed).into_iter());
    broken_lines(&raw, 0, &mut cur, &mut lines);
    lines.insert(cur);
    for l in trimmed.lines() {
        if ppp::testing::str_width(l) as usize > w {
            if !lines.contains(l) {
                bail!("a line is wider than {} though it could be broken: {:?}\noutput:\n{}", w, l, trimmed);
            }
            ctx.bump("unavoidably_wide_lines");
        } else {
            ctx.bump("lines_within_width");
        }
    }
    ctx.bump("files_formatted");
    if size_of(&want) >= 4 {
        ctx.nontrivial(hash_str(&format!("{}{:?}", text, width)));
    }
    Ok(())
}

fn c26_files(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    for _ in 0..4 {
        let mut budget = ctx.size;
        let depth = if r.pct(5) { 100 } else { r.range(1, 10) };
        let j = gen_json(r, &mut budget, depth, false);
        let loose = r.pct(60);
        let mut text = String::new();
        write_json(r, &j, loose, &mut text);
        let width = match r.below(6) {
            0 => None,
            1 => Some(*r.pick(&[0u16, 1, 2, 80, 65535])),
            2 => {
                let n = text.chars().count().min(65535) as u16;
                Some(n.saturating_sub(r.below(4) as u16))
            }
            _ => Some(r.below(100) as u16),
        };
        ctx.note = format!("width {:?}, file:\n{}", width, text);
        ctx.sample(|| format!("width {:?}, file: {:?}", width, text));
        if let Err(e) = c26_check(&j, &text, width, r.pct(50), ctx) {
            if e.starts_with("HARNESS:") {
                return Err(e);
            }
            bail!("{}\nwidth {:?}, file:\n{}", e, width, text);
        }
    }
    Ok(())
}

/// Long arrays, long strings, long chains: files of many lines.
fn c26_big(r: &mut Rng, ctx: &mut Ctx) -> Verdict {
    let j = match r.below(4) {
        0 => J::Arr((0..r.range(100, 3000)).map(|_| J::Num(json_float(r))).collect()),
        1 => {
            let mut j = J::Num(1.0);
            for i in 0..r.range(50, 120) {
                j = if i % 2 == 0 { J::Arr(vec![j, J::Null]) } else { J::Obj(vec![(json_text(r), j)]) };
            }
            j
        }
        2 => {
            let n = r.range(1000, 80000);
            J::Arr(vec![J::Str("x".repeat(n)), J::Str("日".repeat(n / 2)), J::Null])
        }
        _ => {
            let n = r.range(50, 800);
            J::Obj((0..n).map(|i| (format!("{}:{}", i, json_text(r)), J::Arr(vec![J::Str(json_text(r)), J::Bool(r.pct(50)), J::Obj(vec![])]))).collect())
        }
    };
    let mut text = String::new();
    write_json(r, &j, true, &mut text);
    let width = match r.below(3) {
        0 => None,
        1 => Some(r.below(300) as u16),
        _ => Some(*r.pick(&[0u16, 80, 20000, 65535])),
    };
    ctx.note = format!("width {:?}, {} bytes", width, text.len());
    if let Err(e) = c26_check(&j, &text, width, r.pct(50), ctx) {
        if e.starts_with("HARNESS:") {
            return Err(e);
        }
        let cut: String = e.chars().take(3000).collect();
        bail!("{}\nwidth {:?}, file of {} bytes", cut, width, text.len());
    }
    ctx.bump("big_files");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C21",
            rule: "a printed output of a document with at least 4 values and comments",
            workloads: vec![W { name: "json", f: c21_json, quick: 20000, thorough: 1000000, max_size: 80 }],
            required: vec![
                "outputs",
                "outputs_of_several_lines",
                "comments_read_back",
                "comments_broken_over_lines",
                "separators_checked",
                "styled_characters_checked",
                "parsed_by_serde_json",
            ],
            assumptions: vec!["numbers are finite and at most 1e308 (beyond that, the comparison parser overflows)", "comments stand between values, as entries of arrays, objects or at the top level"],
        },
        Prop {
            id: "C24",
            rule: "one building session (with its own random construction sequence), on one or several threads",
            workloads: vec![
                W { name: "build", f: c24_build, quick: 20000, thorough: 1000000, max_size: 60 },
                W { name: "threads", f: c24_threads, quick: 3000, thorough: 100000, max_size: 40 },
                W { name: "many", f: c24_many, quick: 24, thorough: 400, max_size: 10 },
                W { name: "styles", f: c24_styles, quick: 200, thorough: 10000, max_size: 10 },
            ],
            required: vec![
                "nodes_checked",
                "labels_resolved",
                "separators_needed",
                "children_reused",
                "resets",
                "resets_among_threads",
                "threads",
                "nodes_of_long_runs",
                "combinations",
                "styles_printed",
            ],
            assumptions: vec!["ids are compared between nodes created since the last reset; clones keep their id"],
        },
        Prop {
            id: "C26",
            rule: "a formatted file of at least 4 values",
            workloads: vec![
                W { name: "files", f: c26_files, quick: 2500, thorough: 150000, max_size: 60 },
                W { name: "big", f: c26_big, quick: 150, thorough: 5000, max_size: 10 },
            ],
            required: vec!["files_formatted", "lines_within_width", "unavoidably_wide_lines", "big_files", "colour_codes_removed", "characters_in_the_right_colour"],
            assumptions: vec!["numbers are 64-bit floats, nesting is at most 120 levels (serde_json refuses more than 128)"],
        },
    ]
}
