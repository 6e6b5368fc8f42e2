//! What a pane should show: space division, positions and contents, in plain arithmetic.
#![allow(dead_code)]

use crate::all::ast::*;
use crate::all::h_doc::{locate, Where};
use crate::all::model::*;
use crate::all::sx;
use partial_pretty_printer as ppp;
use ppp::pane::{PaneNotation, PaneSize, PrettyWindow, PrintingOptions, WidthStrategy};
use ppp::{FocusTarget, Pos, Size};

pub enum P {
    Horz(Vec<(PaneSize, P)>),
    Vert(Vec<(PaneSize, P)>),
    Doc(usize),
    Fill(char),
    Style(St, Box<P>),
}

pub fn build_pane(p: &P) -> PaneNotation<usize, St> {
    match p {
        P::Horz(v) => PaneNotation::Horz(v.iter().map(|(s, p)| (*s, build_pane(p))).collect()),
        P::Vert(v) => PaneNotation::Vert(v.iter().map(|(s, p)| (*s, build_pane(p))).collect()),
        P::Doc(l) => PaneNotation::Doc { label: *l },
        P::Fill(c) => PaneNotation::Fill { ch: *c },
        P::Style(s, p) => PaneNotation::Style {
            style: *s,
            notation: Box::new(build_pane(p)),
        },
    }
}

pub fn wide(c: char) -> bool {
    c as u32 >= 0x1100
}

#[derive(Clone, Copy, PartialEq)]
pub struct Cell {
    pub n: u32,
    pub ch: char,
    pub st: St,
    /// The right half of a full-width character.
    pub right_half: bool,
}
pub const BLANK: Cell = Cell {
    n: 0,
    ch: '\0',
    st: St::NONE,
    right_half: false,
};

/// A window that records every call.
pub struct Win {
    pub w: u64,
    pub h: u64,
    pub cells: Vec<Cell>,
    pub focus: Vec<Pos>,
    pub calls: u64,
    /// The call that fails.
    pub fail_at: u64,
    pub count: bool,
    pub failed: bool,
    /// Calls that put a wide character with the wrong flag.
    pub bad_flag: bool,
}
impl Win {
    pub fn new(w: u64, h: u64) -> Win {
        Win {
            w,
            h,
            cells: vec![BLANK; (w * h) as usize],
            focus: vec![],
            calls: 0,
            fail_at: u64::MAX,
            count: false,
            failed: false,
            bad_flag: false,
        }
    }
    fn call(&mut self) -> Result<(), DocErr> {
        sx::check(!self.failed, "window-used-after-its-failure");
        if self.count {
            let k = self.calls;
            self.calls += 1;
            if k == self.fail_at {
                self.failed = true;
                return Err(DocErr(k));
            }
        }
        Ok(())
    }
}
impl PrettyWindow for Win {
    type Error = DocErr;
    type Style = St;
    fn size(&self) -> Result<Size, DocErr> {
        Ok(Size {
            width: self.w as u16,
            height: self.h as u32,
        })
    }
    fn display_char(&mut self, ch: char, pos: Pos, style: &St, full_width: bool) -> Result<(), DocErr> {
        self.call()?;
        let cw = 1 + full_width as u64;
        let inside = (pos.row as u64) < self.h && pos.col as u64 + cw <= self.w;
        sx::check(inside, "pane-writes-outside-the-window");
        if !inside {
            return Ok(());
        }
        if full_width != wide(ch) {
            self.bad_flag = true;
        }
        let at = (pos.row as u64 * self.w + pos.col as u64) as usize;
        for k in 0..cw as usize {
            let c = &mut self.cells[at + k];
            sx::check(c.n == 0, "pane-writes-a-cell-twice");
            *c = Cell {
                n: c.n + 1,
                ch,
                st: *style,
                right_half: k == 1,
            };
        }
        Ok(())
    }
    fn set_focus(&mut self, pos: Pos) -> Result<(), DocErr> {
        self.call()?;
        self.focus.push(pos);
        Ok(())
    }
}

/// A document together with how to print it.
pub struct Content {
    pub nodes: Vec<Node>,
    pub path: Vec<usize>,
    pub target: FocusTarget,
    pub fh: f32,
    pub strategy: WidthStrategy,
    pub set_focus: bool,
}
impl Content {
    pub fn options(&self) -> PrintingOptions {
        PrintingOptions {
            focus_path: self.path.clone(),
            focus_target: self.target,
            focus_height: self.fh,
            width_strategy: self.strategy,
            set_focus: self.set_focus,
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Rect {
    pub row: u64,
    pub col: u64,
    pub w: u64,
    pub h: u64,
}

pub struct Expect {
    pub w: u64,
    pub h: u64,
    /// `None`: not written.
    pub cells: Vec<Option<(char, St, bool)>>,
    pub focus: Vec<(u64, u64)>,
    pub bad_dynamic: bool,
    /// Some document was cut, or blank lines were added.
    pub cut: bool,
    pub padded: bool,
    pub dynamic: usize,
}

/// Lines of a document, ready to be shown.
struct Shown {
    lines: Vec<Vec<Seg>>,
    /// On which row of the pane the first line goes.
    first_row: u64,
    focus: Option<(u64, u64)>,
    blank: St,
}

fn width_of(l: &[Seg]) -> u64 {
    l.iter().fold(0, |a, s| a + s.s.width())
}

/// A document printed for a space of `w` x `h`.
fn shown(c: Option<&Content>, w: u64, h: u64, st: St, dynamic_height: bool, x: &mut Expect) -> Shown {
    let empty = Shown {
        lines: vec![],
        first_row: 0,
        focus: None,
        blank: st,
    };
    let c = match c {
        Some(c) if w > 0 && h > 0 => c,
        _ => return empty,
    };
    let pw = match c.strategy {
        WidthStrategy::Full => w,
        WidthStrategy::Fixed(k) => k as u64,
        WidthStrategy::NoMoreThan(k) => {
            if (k as u64) < w {
                k as u64
            } else {
                w
            }
        }
    };
    let m = Model::new(&c.nodes).layout(pw, Some(st));
    assert!(m.err.is_none(), "pane documents print without error");
    let (line, segs, chars) = match locate(&m, &c.nodes, &c.path, c.target) {
        Where::At(l, s, n) => (l, s, n),
        _ => panic!("pane documents have their focus"),
    };
    let col = width_of(&m.lines[line][..segs]) + chars;
    // the row of the focus line: rounded half away from zero
    let row = ((h - 1) as f64 * c.fh as f64 + 0.5) as u64;
    let (line, total) = (line as u64, m.lines.len() as u64);
    let mut above = row.min(line);
    let mut below = (h - 1 - row).min(total - 1 - line);
    let mut first_row = row - above;
    if dynamic_height {
        // no blank lines: what is not needed on one side goes to the other
        below = (h - 1 - above).min(total - 1 - line);
        above = (h - 1 - below).min(line);
        first_row = 0;
    }
    if total > above + 1 + below {
        x.cut = true;
    }
    let lines = m.lines[(line - above) as usize..(line + below + 1) as usize].to_vec();
    Shown {
        lines,
        first_row,
        focus: if c.set_focus { Some((first_row + above, col)) } else { None },
        blank: st,
    }
}

fn put(x: &mut Expect, row: u64, col: u64, ch: char, st: St) {
    let at = (row * x.w + col) as usize;
    x.cells[at] = Some((ch, st, false));
    if wide(ch) {
        x.cells[at + 1] = Some((ch, st, true));
    }
}

fn display(s: &Shown, r: Rect, x: &mut Expect) {
    if let Some((row, col)) = s.focus {
        x.focus.push((r.row + row, r.col + col));
    }
    for row in 0..r.h {
        let mut col = 0;
        if row >= s.first_row && row < s.first_row + s.lines.len() as u64 {
            'line: for seg in &s.lines[(row - s.first_row) as usize] {
                let ch = seg.s.letter();
                let cw = 1 + wide(ch) as u64;
                let mut k = 0;
                while k < seg.s.len {
                    if col + cw > r.w {
                        x.cut = true;
                        break 'line;
                    }
                    put(x, r.row + row, r.col + col, ch, seg.st);
                    col += cw;
                    k += 1;
                }
            }
        } else {
            x.padded = true;
        }
        while col < r.w {
            put(x, r.row + row, r.col + col, ' ', s.blank);
            col += 1;
        }
    }
}

/// Largest remainder division of `n` among the weights; ties to the left.
pub fn proportional(n: u64, ws: &[u64]) -> Vec<u64> {
    let total: u128 = ws.iter().map(|w| *w as u128).sum();
    if total == 0 {
        return vec![0; ws.len()];
    }
    let mut out: Vec<u64> = ws.iter().map(|w| (n as u128 * *w as u128 / total) as u64).collect();
    let rem: Vec<u128> = ws.iter().map(|w| n as u128 * *w as u128 % total).collect();
    let mut left = n - out.iter().sum::<u64>();
    let mut given = vec![false; ws.len()];
    while left > 0 {
        let mut best = usize::MAX;
        for i in 0..ws.len() {
            if !given[i] && (best == usize::MAX || rem[i] > rem[best]) {
                best = i;
            }
        }
        given[best] = true;
        out[best] += 1;
        left -= 1;
    }
    out
}

fn as_doc(p: &P, st: St) -> Option<(usize, St)> {
    match p {
        P::Doc(l) => Some((*l, st)),
        P::Style(s, p) => as_doc(p, st.then(*s)),
        _ => None,
    }
}

pub fn expect(p: &P, st: St, docs: &[Option<Content>], r: Rect, x: &mut Expect) {
    if x.bad_dynamic {
        return;
    }
    match p {
        P::Fill(c) => {
            let cw = 1 + wide(*c) as u64;
            for row in 0..r.h {
                let mut col = 0;
                while col + cw <= r.w {
                    put(x, r.row + row, r.col + col, *c, st);
                    col += cw;
                }
                if col < r.w {
                    put(x, r.row + row, r.col + col, ' ', st);
                }
            }
        }
        P::Doc(l) => {
            if let Some(c) = &docs[*l] {
                let s = shown(Some(c), r.w, r.h, st, false, x);
                display(&s, r, x);
            }
        }
        P::Style(s, p) => expect(p, st.then(*s), docs, r, x),
        P::Horz(v) | P::Vert(v) => {
            let horz = matches!(p, P::Horz(_));
            let mut left = if horz { r.w } else { r.h };
            let mut got = vec![0u64; v.len()];
            for (i, (s, _)) in v.iter().enumerate() {
                if let PaneSize::Fixed(k) = s {
                    got[i] = left.min(*k as u64);
                    left -= got[i];
                }
            }
            let mut dynamic = Vec::new();
            for (i, (s, q)) in v.iter().enumerate() {
                if let PaneSize::Dynamic = s {
                    let (l, dst) = match as_doc(q, st) {
                        Some(y) => y,
                        None => {
                            x.bad_dynamic = true;
                            return;
                        }
                    };
                    x.dynamic += 1;
                    let (w, h) = if horz { (left, r.h) } else { (r.w, left) };
                    let s = shown(docs[l].as_ref(), w, h, dst, !horz, x);
                    let want = if horz {
                        s.lines.iter().map(|l| width_of(l)).max().unwrap_or(0)
                    } else {
                        s.lines.len() as u64
                    };
                    got[i] = want.min(left);
                    left -= got[i];
                    dynamic.push((i, s));
                }
            }
            let mut ws = Vec::new();
            let mut who = Vec::new();
            for (i, (s, _)) in v.iter().enumerate() {
                if let PaneSize::Proportional(k) = s {
                    ws.push(*k as u64);
                    who.push(i);
                }
            }
            for (i, k) in who.iter().zip(proportional(left, &ws)) {
                got[*i] = k;
            }
            let mut at = 0;
            for (i, (_, q)) in v.iter().enumerate() {
                let c = if horz {
                    Rect {
                        col: r.col + at,
                        w: got[i],
                        ..r
                    }
                } else {
                    Rect {
                        row: r.row + at,
                        h: got[i],
                        ..r
                    }
                };
                at += got[i];
                match dynamic.iter().find(|d| d.0 == i) {
                    Some((_, s)) => display(s, c, x),
                    None => expect(q, st, docs, c, x),
                }
            }
        }
    }
}

pub fn show_pane(p: &P) -> String {
    format!("{:?}", build_pane(p))
}
