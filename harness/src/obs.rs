//! Running the printer and recording what it delivers, in owned form.
use crate::model::{push_run, At, Runs};
use crate::world::*;
use partial_pretty_printer as ppp;
use ppp::{pretty_print, FocusTarget, FocusedLine, Line, PrettyDoc, Segment, Width};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct OSeg {
    pub s: String,
    pub width: u64,
    pub sty: Sty,
}
pub type OLine = Vec<OSeg>;

pub fn own_seg<'d, D: PrettyDoc<'d, Style = Sty>>(seg: &Segment<'d, D>) -> OSeg {
    OSeg {
        s: seg.str.to_owned(),
        width: seg.width as u64,
        sty: seg.style.clone(),
    }
}
pub fn own_line<'d, D: PrettyDoc<'d, Style = Sty>>(line: &Line<'d, D>) -> OLine {
    line.segments.iter().map(own_seg).collect()
}
pub fn own_focused<'d, D: PrettyDoc<'d, Style = Sty>>(f: &FocusedLine<'d, D>) -> (OLine, OLine) {
    (
        f.left_segments.iter().map(own_seg).collect(),
        f.right_segments.iter().map(own_seg).collect(),
    )
}
pub fn text_of(l: &[OSeg]) -> String {
    l.iter().map(|s| s.s.as_str()).collect()
}
pub fn runs_of(l: &[OSeg]) -> Runs {
    let mut r = vec![];
    for s in l {
        push_run(&mut r, &s.s, &s.sty);
    }
    r
}
pub fn runs_text(r: &Runs) -> String {
    r.iter().map(|x| x.0.as_str()).collect()
}

/// What one call of pretty_print, with its iterators drained, delivered.
#[derive(Debug)]
pub struct Obs {
    /// Lines above, nearest first.
    pub up: Vec<OLine>,
    pub up_err: Option<PErr>,
    pub left: OLine,
    pub right: OLine,
    pub down: Vec<OLine>,
    pub down_err: Option<PErr>,
}

pub fn observe<'d, D>(
    doc: D,
    width: Width,
    path: &[usize],
    target: FocusTarget,
    root_style: Option<&Sty>,
) -> Result<Obs, PErr>
where
    D: PrettyDoc<'d, Style = Sty, Error = Fault>,
{
    observe_n(doc, width, path, target, root_style, usize::MAX, usize::MAX)
}

pub fn observe_n<'d, D>(
    doc: D,
    width: Width,
    path: &[usize],
    target: FocusTarget,
    root_style: Option<&Sty>,
    max_up: usize,
    max_down: usize,
) -> Result<Obs, PErr>
where
    D: PrettyDoc<'d, Style = Sty, Error = Fault>,
{
    let (up, focused, down) = pretty_print(doc, width, path, target, root_style)?;
    let (left, right) = own_focused(&focused);
    let mut obs = Obs {
        up: vec![],
        up_err: None,
        left,
        right,
        down: vec![],
        down_err: None,
    };
    for l in up.take(max_up) {
        match l {
            Ok(l) => obs.up.push(own_line(&l)),
            Err(e) => {
                obs.up_err = Some(e);
                break;
            }
        }
    }
    for l in down.take(max_down) {
        match l {
            Ok(l) => obs.down.push(own_line(&l)),
            Err(e) => {
                obs.down_err = Some(e);
                break;
            }
        }
    }
    Ok(obs)
}

impl Obs {
    pub fn clean(&self) -> bool {
        self.up_err.is_none() && self.down_err.is_none()
    }
    /// All lines, top to bottom, as style runs.
    pub fn all_runs(&self) -> Vec<Runs> {
        let mut v: Vec<Runs> = self.up.iter().rev().map(|l| runs_of(l)).collect();
        let mut f = self.left.clone();
        f.extend(self.right.iter().cloned());
        v.push(runs_of(&f));
        v.extend(self.down.iter().map(|l| runs_of(l)));
        v
    }
    pub fn all_text(&self) -> Vec<String> {
        self.all_runs().iter().map(runs_text).collect()
    }
    pub fn at(&self) -> At {
        At {
            line: self.up.len(),
            byte: self.left.iter().map(|s| s.s.len()).sum(),
        }
    }
}

pub fn show_target(t: &FocusTarget) -> String {
    format!("{:?}", t)
}

/// Show lines with their styles, for reports.
pub fn show_runs(r: &Runs) -> String {
    r.iter()
        .map(|(s, st)| format!("{:?}{:?}", s, st.0))
        .collect::<Vec<_>>()
        .join(" ")
}
pub fn show_lines(ls: &[String]) -> String {
    let mut out = String::new();
    for l in ls.iter().take(60) {
        out.push_str(&format!("  |{}|\n", l));
    }
    if ls.len() > 60 {
        out.push_str(&format!("  ... {} lines\n", ls.len()));
    }
    out
}

/// Show something to a writer that has room for `room` bytes: what fits (whole pieces only) must be the start of
/// its text, and a writer that fails must be heard of.
pub fn short_of_room(what: &dyn std::fmt::Display, text: &str, room: usize) -> Result<bool, String> {
    struct Short(String, usize, bool);
    impl std::fmt::Write for Short {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            if self.2 || self.0.len() + s.len() > self.1 {
                self.2 = true;
                return Err(std::fmt::Error);
            }
            self.0.push_str(s);
            Ok(())
        }
    }
    let mut w = Short(String::new(), room, false);
    let res = std::fmt::write(&mut w, format_args!("{}", what));
    if res.is_err() != w.2 {
        return Err(format!("a writer with room for {} bytes: failed: {}, display said {:?}\n{}", room, w.2, res, text));
    }
    if w.2 != (text.len() > room) || !text.starts_with(&w.0) {
        return Err(format!("a writer with room for {} bytes received\n{}\nof\n{}", room, w.0, text));
    }
    Ok(w.2)
}
