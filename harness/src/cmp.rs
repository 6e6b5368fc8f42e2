//! Comparison of real output with the reference layout.
#![allow(dead_code)]

use crate::all::ast::*;
use crate::all::model::{Layout, MErr, Seg};
use crate::all::sx;
use partial_pretty_printer as ppp;
use ppp::{FocusTarget, PrettyDoc, PrintingError, Segment};

/// One piece of output: `len` letters `ch` in style `st`, `width` columns wide.
#[derive(Clone, Copy)]
pub struct Run {
    pub ch: u8,
    pub len: u64,
    pub width: u64,
    pub st: St,
}
pub type Row = Vec<Run>;

pub type Err = PrintingError<DocErr>;

pub fn run_of<'a, P: PrettyDoc<'a, Style = St>>(s: &Segment<'a, P>) -> Run {
    let len = s.str.len() as u64;
    let ch = if !sx::is_sym(len) {
        let b = s.str.as_bytes();
        if !b.is_empty() && b[0] >= 0x80 {
            // number of characters, all of which are the same
            let first = s.str.chars().next().expect("run_of: empty");
            return Run {
                ch: if s.str.chars().all(|c| c == first) { number_of(first) } else { 1 },
                len: s.str.chars().count() as u64,
                width: s.width as u64,
                st: s.style,
            };
        }
        if b.is_empty() {
            0
        } else {
            // a single letter, repeated
            for x in b {
                if *x != b[0] {
                    return Run {
                        ch: 1,
                        len,
                        width: s.width as u64,
                        st: s.style,
                    };
                }
            }
            b[0]
        }
    } else {
        unsafe { *s.str.as_ptr() }
    };
    Run {
        ch,
        len,
        width: s.width as u64,
        st: s.style,
    }
}
pub fn row_of<'a, P: PrettyDoc<'a, Style = St>>(segs: &[Segment<'a, P>]) -> Row {
    segs.iter().map(run_of).collect()
}
pub fn row_of_model(segs: &[Seg]) -> Row {
    segs.iter()
        .map(|s| Run {
            ch: s.s.ch,
            len: s.s.len,
            width: s.s.width(),
            st: s.st,
        })
        .collect()
}

/// Everything printed for one call.
pub struct Printed {
    pub rows: Vec<Row>,
    pub focus_row: usize,
    pub left: Row,
    pub right: Row,
    /// An error among the lines above or below: (above?, how many lines came before it).
    pub err: Option<(bool, usize, Err)>,
}

pub fn print(doc: &Doc, width: u64, path: &[usize], target: FocusTarget, root: Option<&St>) -> Result<Printed, Err> {
    print_doc(doc.root(), width, path, target, root)
}
pub fn print_doc<'a, P: PrettyDoc<'a, Style = St, Error = DocErr>>(
    doc: P,
    width: u64,
    path: &[usize],
    target: FocusTarget,
    root: Option<&St>,
) -> Result<Printed, Err> {
    let (up, focused, down) = ppp::pretty_print(doc, width as u16, path, target, root)?;
    let mut rows = Vec::new();
    let mut err = None;
    for l in up {
        match l {
            Ok(l) => rows.push(row_of(&l.segments)),
            Err(e) => {
                err = Some((true, rows.len(), e));
                break;
            }
        }
    }
    rows.reverse();
    let focus_row = rows.len();
    let left = row_of(&focused.left_segments);
    let right = row_of(&focused.right_segments);
    let mut all = left.clone();
    all.extend_from_slice(&right);
    rows.push(all);
    if err.is_none() {
        let mut k = 0;
        for l in down {
            match l {
                Ok(l) => rows.push(row_of(&l.segments)),
                Err(e) => {
                    err = Some((false, k, e));
                    break;
                }
            }
            k += 1;
        }
    }
    Ok(Printed {
        rows,
        focus_row,
        left,
        right,
        err,
    })
}

/// What to compare.
#[derive(Clone, Copy)]
pub struct What {
    pub text: bool,
    pub style: bool,
    pub width: bool,
}
pub const ALL: What = What {
    text: true,
    style: true,
    width: true,
};
pub const TEXT: What = What {
    text: true,
    style: false,
    width: false,
};

/// Merge adjacent runs of the same letter and style, and drop empty ones.
fn normal(r: &[Run], w: What) -> Row {
    let mut out: Row = Vec::new();
    for x in r {
        if x.len == 0 {
            continue;
        }
        if let Some(l) = out.last_mut() {
            if l.ch == x.ch && (!w.style || l.st == x.st) {
                l.len += x.len;
                l.width += x.width;
                continue;
            }
        }
        out.push(*x);
    }
    out
}

fn same_exact(a: &[Run], b: &[Run], w: What) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for (x, y) in a.iter().zip(b) {
        let len_eq = x.len == y.len;
        // the letter of an empty piece does not matter
        let ch_eq = x.ch == y.ch || (!sx::is_sym(x.len) && x.len == 0);
        ok = sx::and(ok, len_eq);
        if w.text && !ch_eq {
            return false;
        }
        if w.width {
            ok = sx::and(ok, x.width == y.width);
        }
        if w.style && x.st != y.st {
            return false;
        }
    }
    ok
}

pub fn same_row(a: &[Run], b: &[Run], w: What) -> bool {
    if a.len() == b.len() {
        let ok = same_exact(a, b, w);
        if sx::is_sym(ok as u64) || ok {
            return ok;
        }
    }
    let (a, b) = (normal(a, w), normal(b, w));
    same_exact(&a, &b, w)
}

/// Same text (and, as asked, style and width) in the same order?
pub fn same_rows(a: &[Row], b: &[Row], w: What) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for (x, y) in a.iter().zip(b) {
        ok = sx::and(ok, same_row(x, y, w));
    }
    ok
}

pub fn rows_of_layout(l: &Layout) -> Vec<Row> {
    l.lines.iter().map(|x| row_of_model(x)).collect()
}

pub fn obs_rows(rows: &[Row]) {
    sx::obs(rows.len() as u64);
    for r in rows {
        sx::obs(0x1000 + r.len() as u64);
        for x in r {
            sx::obs(x.len);
            sx::obs(x.width);
            sx::obs((x.st.bits as u64) ^ (x.st.len as u64) << 56);
        }
    }
}

pub fn show_nodes(nodes: &[Node]) -> String {
    let mut o = String::new();
    for (i, n) in nodes.iter().enumerate() {
        if i > 0 {
            o.push('\n');
        }
        o += &format!("node {i}: children {:?}, text {:?}, node style {:x}, conditions {:?}", n.kids, n.text.map(|t| t.make()), n.style.bits, n.cond);
        o += &format!("\n  notation {:?}", build(&n.n));
        if let Some(k) = n.like {
            o += &format!(", shared with node {k}");
        }
    }
    o
}
pub fn show_rows(what: &str, rows: &[Row]) {
    sx::show(|| {
        let mut o = format!("{what}:");
        for r in rows {
            o += "\n  |";
            for x in r {
                for _ in 0..x.len.min(40) {
                    o.push(Str { ch: x.ch, len: 1, max: 1 }.letter());
                }
                o += &format!("{{{} wide, style {:x}}}", x.width, x.st.bits);
            }
        }
        o
    });
}
pub fn show_case(nodes: &[Node], width: u64) {
    sx::show(|| format!("{}\nwidth {width}", show_nodes(nodes)));
}

/// Is `e` the error that the model predicts?
pub fn same_err(e: &Err, m: MErr) -> bool {
    match (e, m) {
        (PrintingError::TextAfterEndOfLine, MErr::TextAfterEol) => true,
        (PrintingError::ChildIndexOutOfBounds { index, len }, MErr::ChildIndex { index: i, len: l }) => {
            sx::and(*index as i64 == i, *len == l)
        }
        (PrintingError::CheckPosChildIndexOutOfBounds { index, len }, MErr::CheckIndex { index: i, len: l }) => {
            sx::and(*index as i64 == i, *len == l)
        }
        (PrintingError::ChildNotationOnChildlessDoc, MErr::ChildOnText) => true,
        (PrintingError::CheckPosChildOnChildlessDoc, MErr::CheckOnText) => true,
        (PrintingError::CountNotationOnChildlessDoc, MErr::CountOnText) => true,
        // there is no error of its own for this one
        (PrintingError::NumChildrenChanged, MErr::FoldOnText) => true,
        (PrintingError::CountNotationOnChildlessDoc, MErr::FoldOnText) => true,
        (PrintingError::ChildNotationOnChildlessDoc, MErr::FoldOnText) => true,
        (PrintingError::TextNotationOnTextlessDoc, MErr::TextOnNonText) => true,
        _ => false,
    }
}
/// Is `e` an error that some node's notation really gives rise to? (Of several faults, any may be
/// met first.)
pub fn justified(nodes: &[Node], e: &Err) -> bool {
    fn walk(x: &N, nd: &Node, e: &Err) -> bool {
        let here = match x {
            N::Eol => matches!(e, PrintingError::TextAfterEndOfLine),
            N::Text => nd.text.is_none() && same_err(e, MErr::TextOnNonText),
            N::Child(_) if nd.text.is_some() => same_err(e, MErr::ChildOnText),
            N::Child(i) => {
                let len = nd.kids.len();
                sx::and(out_of(*i, len), same_err(e, MErr::ChildIndex { index: *i, len }))
            }
            N::Check(_, At::Child(_), ..) if nd.text.is_some() => same_err(e, MErr::CheckOnText),
            N::Check(_, At::Child(i), ..) => {
                let len = nd.kids.len();
                sx::and(out_of(*i, len), same_err(e, MErr::CheckIndex { index: *i, len }))
            }
            N::Count(..) => nd.text.is_some() && same_err(e, MErr::CountOnText),
            N::Fold(..) => nd.text.is_some() && same_err(e, MErr::FoldOnText),
            _ => false,
        };
        let below = match x {
            N::Flat(x) | N::Indent(_, _, x) | N::Style(_, x) => walk(x, nd, e),
            N::Cat(x, y) | N::Choice(x, y) | N::Check(_, _, x, y) | N::Fold(x, y) => {
                sx::or(walk(x, nd, e), walk(y, nd, e))
            }
            N::Count(x, y, z) => sx::or(walk(x, nd, e), sx::or(walk(y, nd, e), walk(z, nd, e))),
            _ => false,
        };
        sx::or(here, below)
    }
    nodes.iter().fold(false, |a, nd| sx::or(a, walk(&nd.n, nd, e)))
}
fn out_of(i: i64, len: usize) -> bool {
    sx::or(i >= len as i64, i < -(len as i64))
}

/// Does `e` tell of a notation that does not match its document node?
pub fn is_mismatch(e: &Err) -> bool {
    matches!(
        e,
        PrintingError::ChildIndexOutOfBounds { .. }
            | PrintingError::CheckPosChildIndexOutOfBounds { .. }
            | PrintingError::ChildNotationOnChildlessDoc
            | PrintingError::CheckPosChildOnChildlessDoc
            | PrintingError::CountNotationOnChildlessDoc
            | PrintingError::NumChildrenChanged
            | PrintingError::TextNotationOnTextlessDoc
    )
}
pub fn obs_err(e: &Err) {
    sx::obs(match e {
        PrintingError::InvalidPath(i) => 9000u64.wrapping_add(*i as u64),
        PrintingError::TextNotationOnTextlessDoc => 9101,
        PrintingError::ChildIndexOutOfBounds { .. } => 9102,
        PrintingError::ChildNotationOnChildlessDoc => 9103,
        PrintingError::CheckPosChildIndexOutOfBounds { .. } => 9104,
        PrintingError::CheckPosChildOnChildlessDoc => 9105,
        PrintingError::CountNotationOnChildlessDoc => 9106,
        PrintingError::NumChildrenChanged => 9107,
        PrintingError::TextAfterEndOfLine => 9108,
        PrintingError::MissingFocusMark => 9109,
        PrintingError::MissingText => 9110,
        PrintingError::PrettyDoc(e) => 9200 + e.0,
        #[allow(unreachable_patterns)]
        _ => 9999,
    });
}
