//! Widths and positions near and beyond what the crate's types can hold.

use crate::all::ast::*;
use crate::all::cmp::*;
use crate::all::h_doc::*;
use crate::all::model::*;
use crate::all::pane_model::P;
use crate::all::sx;
use partial_pretty_printer as ppp;
use ppp::pane::{display_pane, PaneNotation, PaneSize, PrettyWindow, PrintingOptions, WidthStrategy};
use ppp::{FocusTarget, Pos, PrettyDoc, Size};

const MAX: u64 = 65535;
fn cap(x: u64) -> u64 {
    if x < MAX {
        x
    } else {
        MAX
    }
}
fn sum<'d, D: PrettyDoc<'d>>(segs: &[ppp::Segment<'d, D>]) -> u64 {
    segs.iter().fold(0, |a, s| a + s.str.len() as u64)
}

/// Documents with very wide texts, printed from any focus.
pub fn document() {
    let c = cfg(0);
    let nodes = gen_doc(&c);
    let doc = match doc_of(&c, &nodes) {
        Some(d) => d,
        None => return,
    };
    let width = sx::var(0, MAX - 1);
    show_case(&nodes, width);
    let m = Model::new(&nodes).layout(width, None);
    if m.err.is_some() {
        return sx::assume(false);
    }
    let (path, _) = pick_path(&nodes, false);
    let target = pick_target();
    sx::show(|| format!("path {path:?} target {target:?}"));
    let (up, f, down) = match ppp::pretty_print(doc.root(), width as u16, &path, target, None) {
        Ok(x) => x,
        Err(_) => return,
    };
    let seg = |s: &ppp::Segment<D>| sx::check(s.width as u64 == cap(s.str.len() as u64), "wide-segment-width");
    f.left_segments.iter().for_each(seg);
    f.right_segments.iter().for_each(seg);
    let (l, r) = (sum(&f.left_segments), sum(&f.right_segments));
    sx::check(f.left_width() as u64 == cap(l), "wide-left-width");
    sx::check(f.right_width() as u64 == cap(r), "wide-right-width");
    sx::check(f.width() as u64 == cap(l + r), "wide-focused-line-width");
    let mut rows = vec![];
    let mut wide = l + r > MAX;
    for x in up {
        match x {
            Ok(x) => {
                x.segments.iter().for_each(seg);
                let w = sum(&x.segments);
                wide = sx::or(wide, w > MAX);
                sx::check(x.width() as u64 == cap(w), "wide-line-width");
                rows.push(row_of(&x.segments));
            }
            Err(_) => return sx::check(false, "wide-unexpected-error"),
        }
    }
    rows.reverse();
    let mut all = row_of(&f.left_segments);
    all.extend(row_of(&f.right_segments));
    rows.push(all);
    for x in down {
        match x {
            Ok(x) => {
                x.segments.iter().for_each(seg);
                let w = sum(&x.segments);
                wide = sx::or(wide, w > MAX);
                sx::check(x.width() as u64 == cap(w), "wide-line-width");
                rows.push(row_of(&x.segments));
            }
            Err(_) => return sx::check(false, "wide-unexpected-error"),
        }
    }
    if wide {
        sx::cover(1);
    }
    sx::check(same_rows(&rows, &rows_of_layout(&m), TEXT), "wide-text");
    obs_rows(&rows);
}

/// A window of any size of which only the written cells are remembered.
struct Far {
    w: u64,
    h: u64,
    cells: Vec<(u64, u64, char)>,
    focus: Vec<(u64, u64)>,
    fail: bool,
}
impl PrettyWindow for Far {
    type Error = DocErr;
    type Style = St;
    fn size(&self) -> Result<Size, DocErr> {
        Ok(Size {
            width: self.w as u16,
            height: self.h as u32,
        })
    }
    fn display_char(&mut self, ch: char, pos: Pos, _style: &St, full_width: bool) -> Result<(), DocErr> {
        let (r, c) = (pos.row as u64, pos.col as u64);
        sx::check(sx::and(r < self.h, c + 1 + (full_width as u64) <= self.w), "far-pane-writes-outside-the-window");
        self.cells.push((r, c, ch));
        if self.fail {
            // All rows may be written before the focus is set, which takes too long for tall panes.
            sx::assume(self.cells.len() <= 3 * 101);
            return Ok(());
        }
        // runaway loops
        sx::check(self.cells.len() <= 64, "far-pane-writes-too-much");
        Ok(())
    }
    fn set_focus(&mut self, pos: Pos) -> Result<(), DocErr> {
        self.focus.push((pos.row as u64, pos.col as u64));
        if self.fail {
            return Err(DocErr(7));
        }
        Ok(())
    }
}

fn line(ch: u8, len: u64, max: u64) -> Node {
    Node::new(N::Lit(Str { ch, len, max }))
}
fn show(f: &Far, p: &PaneNotation<usize, St>) {
    sx::show(|| format!("{:?} in {} x {}: {:?} focus {:?}", p, f.w, f.h, f.cells, f.focus));
}

/// Panes at the right and bottom end of very large windows.
/// params: max size of the pane at the end, max width of the text in it
pub fn panes() {
    let vert = sx::pick(2) == 1;
    let end = sx::pick(sx::param(0) as usize + 1) as u64;
    let max = if vert { u32::MAX as u64 } else { MAX };
    let total = sx::var(max - 3000, max);
    // text wider than any window
    let len = sx::var(0, sx::param(1));
    let mut nodes = [line(b'a', len, sx::param(1))];
    // perhaps in two pieces
    let mut len2 = 0;
    if sx::pick(2) == 1 {
        len2 = sx::var(0, sx::param(1));
        let s = Str {
            ch: b'b',
            len: len2,
            max: sx::param(1),
        };
        let a = std::mem::replace(&mut nodes[0].n, N::Empty);
        nodes[0].n = cat(a, N::Style(1, Box::new(N::Lit(s))));
    }
    let doc = make_doc(&nodes, true).ok().expect("valid");
    let target = if sx::pick(2) == 0 { FocusTarget::Start } else { FocusTarget::End };
    let (w, h) = if vert { (3, total) } else { (total, 1) };
    let leaf = match sx::pick(4) {
        0 => P::Fill('x'),
        1 => P::Fill('\u{4E00}'),
        2 => P::Doc(0),
        _ => P::Style(St::atom(1), Box::new(P::Doc(0))),
    };
    let is_doc = !matches!(leaf, P::Fill(_));
    let size = match sx::pick(if is_doc && vert { 3 } else { 2 }) {
        0 => PaneSize::Proportional(1),
        1 => PaneSize::Fixed(if sx::pick(2) == 0 { end as usize } else { usize::MAX }),
        _ => PaneSize::Dynamic,
    };
    let v = vec![(PaneSize::Fixed((total - end) as usize), P::Doc(1)), (size, leaf)];
    let p = if vert { P::Vert(v) } else { P::Horz(v) };
    let pn = crate::all::pane_model::build_pane(&p);
    let mut win = Far {
        w,
        h,
        cells: vec![],
        focus: vec![],
        fail: false,
    };
    let r = display_pane(&mut win, &pn, &St::NONE, &|l: usize| {
        if l == 0 {
            Some((
                doc.root(),
                PrintingOptions {
                    focus_path: vec![],
                    focus_target: target,
                    focus_height: 0.0,
                    width_strategy: WidthStrategy::Full,
                    set_focus: true,
                },
            ))
        } else {
            None
        }
    });
    show(&win, &pn);
    sx::check(r.is_ok(), "far-pane-unexpected-error");
    let dynamic = matches!(size, PaneSize::Dynamic);
    // every cell at the end is written
    let (ew, eh) = if vert { (3, if dynamic { 1.min(end) } else { end }) } else { (end, 1) };
    let from = total - end;
    let mut area = 0;
    for c in &win.cells {
        sx::cover(1);
        area += 1 + (c.2 as u32 >= 0x1100) as u64;
        let (at, o) = if vert { (c.0, c.1) } else { (c.1, c.0) };
        sx::check(sx::and(at >= from, o < 3), "far-pane-writes-outside-its-rectangle");
        if is_doc && !vert {
            // the text, then blanks
            let k = c.1 - from;
            sx::check((c.2 == 'a') == (k < len), "far-pane-text");
            sx::check((c.2 == 'b') == sx::and(k >= len, k < len + len2), "far-pane-text");
        }
    }
    sx::check(area == ew * eh, "far-pane-cells");
    if is_doc && ew * eh > 0 {
        sx::check(win.focus.len() == 1, "far-pane-focus");
        if let Some(f) = win.focus.first() {
            let (r0, c0) = if vert { (from, 0) } else { (0, from) };
            let col = if matches!(target, FocusTarget::End) { cap(c0 + len + len2) } else { c0 };
            sx::cover(2);
            sx::check(sx::and(f.0 == r0, f.1 == col), "far-pane-focus");
            sx::obs(f.1);
        }
    }
}

const HEIGHTS: &[u64] = &[
    1,
    2,
    3,
    4,
    5,
    7,
    10,
    11,
    100,
    101,
    1000,
    65535,
    65536,
    (1 << 24) - 1,
    1 << 24,
    (1 << 24) + 1,
    (1 << 24) + 2,
    (1 << 24) + 3,
    (1 << 24) + 4,
    (1 << 25) + 1,
    (1 << 25) + 3,
    (1 << 31) - 1,
    1 << 31,
    (1 << 32) - 129,
    (1 << 32) - 128,
    (1 << 32) - 2,
    (1 << 32) - 1,
];
/// Which row the focus line is put on, in panes of any height (see `HEIGHTS`).
pub fn focus_row() {
    let h = HEIGHTS[sx::pick(HEIGHTS.len())];
    let k = sx::pick(sx::param(0) as usize + 1) as u64;
    let fh = k as f32 / sx::param(0) as f32;
    // the document has no lines above its focus, or very few
    let above = sx::pick(2);
    let mut nodes = vec![Node::new(N::Child(0)).kids(&[1]), line(b'a', 2, 2)];
    if above == 1 {
        nodes[0].n = cat(N::Nl, N::Child(0));
    }
    let doc = make_doc(&nodes, true).ok().expect("valid");
    let p: PaneNotation<usize, St> = PaneNotation::Doc { label: 0 };
    let mut win = Far {
        w: 3,
        h,
        cells: vec![],
        focus: vec![],
        fail: true,
    };
    let r = display_pane(&mut win, &p, &St::NONE, &|_| {
        Some((
            doc.root(),
            PrintingOptions {
                focus_path: vec![0],
                focus_target: FocusTarget::Start,
                focus_height: fh,
                width_strategy: WidthStrategy::Full,
                set_focus: true,
            },
        ))
    });
    show(&win, &p);
    sx::check(r.is_err() && win.focus.len() == 1, "focus-row-focus");
    sx::cover(1);
    if let Some(f) = win.focus.first() {
        sx::check(f.0 < h, "focus-row-below-the-pane");
        // rounded to the nearest row, up to the precision of an f32
        let exact = (h - 1) as f64 * fh as f64;
        let err = 0.5 + exact / (1u64 << 23) as f64;
        sx::check((f.0 as f64 - exact).abs() <= err, "focus-row-far-from-the-focus-height");
        sx::obs(f.0);
    }
}
