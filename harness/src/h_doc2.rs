//! Harnesses over documents: mismatching documents, failing documents, the calls made to a
//! document, and what printing a few lines looks at.

use crate::all::ast::*;
use crate::all::cmp::*;
use crate::all::h_doc::*;
use crate::all::model::*;
use crate::all::pane_model::*;
use crate::all::sx;
use partial_pretty_printer as ppp;
use ppp::pane::{PaneSize, PrintingOptions, WidthStrategy};
use ppp::{FocusTarget, PrettyDoc, PrintingError, ValidNotation};

/// A document that does not match its notations, focused anywhere: a specific error, no panic.
pub fn mismatch() {
    let c = cfg(0);
    let (nodes, doc, width) = match setup(&c) {
        Some(x) => x,
        None => return,
    };
    let (path, _) = pick_path(&nodes, true);
    let target = pick_target();
    sx::show(|| format!("path {path:?} target {target:?}"));
    let m = Model::new(&nodes).layout(width, None);
    let r = print(&doc, width, &path, target, None);
    let e = match &r {
        Err(e) => Some(e),
        Ok(p) => {
            show_rows("printed", &p.rows);
            p.err.as_ref().map(|x| &x.2)
        }
    };
    match e {
        None => {
            sx::cover(1);
            sx::check(m.err.is_none() || m.ahead, "mismatch-not-reported");
        }
        Some(e) => {
            obs_err(e);
            match e {
                PrintingError::InvalidPath(i) => sx::check(path.contains(i), "invalid-path-with-wrong-index"),
                PrintingError::MissingFocusMark => {
                    sx::check(matches!(target, FocusTarget::Mark), "missing-mark-without-asking")
                }
                PrintingError::MissingText => sx::check(matches!(target, FocusTarget::Text(_)), "missing-text-without-asking"),
                e => {
                    sx::cover(2);
                    sx::check(justified(&nodes, e), "error-names-no-actual-mismatch");
                    sx::check(m.err.is_some(), "error-on-a-matching-document");
                }
            }
        }
    }
}

/// A document whose methods may fail.
pub fn faults() {
    let c = cfg(0);
    let (nodes, mut doc, width) = match setup(&c) {
        Some(x) => x,
        None => return,
    };
    let (path, _) = pick_path(&nodes, false);
    let target = pick_target();
    sx::show(|| format!("path {path:?} target {target:?}"));
    doc.count_calls = true;
    let good = print(&doc, width, &path, target, None);
    if matches!(&good, Ok(p) if p.err.is_some()) {
        return sx::assume(false);
    }
    let total = doc.calls.get();
    let k = sx::var(0, 4000);
    sx::assume(k < total);
    doc.calls.set(0);
    doc.fail_at = k;
    sx::show(|| format!("call {k} of {total} fails"));
    let bad = print(&doc, width, &path, target, None);
    let (rows, e, above) = match &bad {
        Err(e) => (None, e, false),
        Ok(p) => match &p.err {
            Some((above, _, e)) => (Some(p), e, *above),
            None => return sx::check(false, "failure-of-the-document-swallowed"),
        },
    };
    obs_err(e);
    sx::check(matches!(e, PrintingError::PrettyDoc(DocErr(j)) if *j == k), "failure-of-the-document-misreported");
    match rows {
        None => sx::cover(1),
        Some(p) => match &good {
            Err(_) => sx::check(false, "lines-printed-although-the-focus-does-not-exist"),
            Ok(g) => {
                show_rows("without failure", &g.rows);
                show_rows("with failure", &p.rows);
                if above {
                    // lines nearest to the focus came first
                    sx::cover(2);
                    let n = p.focus_row;
                    sx::check(n < g.focus_row, "more-lines-with-a-failure-than-without");
                    let from = g.focus_row - n;
                    sx::check(same_rows(&p.rows, &g.rows[from..=g.focus_row], ALL), "failure-changes-other-lines");
                } else {
                    sx::cover(3);
                    let n = p.rows.len();
                    sx::check(n < g.rows.len(), "more-lines-with-a-failure-than-without");
                    sx::check(same_rows(&p.rows, &g.rows[..n], ALL), "failure-changes-other-lines");
                }
            }
        },
    }
}

/// Only documented calls are made to the document.
pub fn contract() {
    let c = cfg(0);
    let (nodes, mut doc, width) = match setup(&c) {
        Some(x) => x,
        None => return,
    };
    let (path, _) = pick_path(&nodes, true);
    let target = pick_target();
    sx::show(|| format!("path {path:?} target {target:?}"));
    doc.contract = true;
    let r = print(&doc, width, &path, target, None);
    match &r {
        Ok(p) => {
            sx::cover(1);
            if p.err.is_some() {
                sx::cover(3);
            }
        }
        Err(e) => {
            obs_err(e);
            sx::cover(2);
        }
    }
}

/// The same document with the trait's default methods.
#[derive(Clone, Copy)]
pub struct Plain<'d>(pub D<'d>);
impl<'d> PrettyDoc<'d> for Plain<'d> {
    type Id = usize;
    type Style = St;
    type StyleLabel = u8;
    type Condition = u8;
    type Error = DocErr;

    fn id(self) -> Result<usize, DocErr> {
        self.0.id()
    }
    fn notation(self) -> Result<&'d ValidNotation<u8, u8>, DocErr> {
        self.0.notation()
    }
    fn condition(self, c: &u8) -> Result<bool, DocErr> {
        self.0.condition(c)
    }
    fn lookup_style(self, l: u8) -> Result<St, DocErr> {
        self.0.lookup_style(l)
    }
    fn node_style(self) -> Result<St, DocErr> {
        self.0.node_style()
    }
    fn num_children(self) -> Result<Option<usize>, DocErr> {
        self.0.num_children()
    }
    fn unwrap_text(self) -> Result<&'d str, DocErr> {
        self.0.unwrap_text()
    }
    fn unwrap_child(self, i: usize) -> Result<Self, DocErr> {
        Ok(Plain(self.0.unwrap_child(i)?))
    }
}

/// A document may rely on the trait's default methods.
pub fn defaults() {
    let c = cfg(0);
    let (_nodes, mut doc, width) = match setup(&c) {
        Some(x) => x,
        None => return,
    };
    let own = print(&doc, width, &[], FocusTarget::Start, None);
    doc.contract = true;
    let def = print_doc(Plain(doc.root()), width, &[], FocusTarget::Start, None);
    match (&own, &def) {
        (Ok(a), Ok(b)) => {
            show_rows("with methods of its own", &a.rows);
            show_rows("with default methods", &b.rows);
            if a.rows.len() > 1 {
                sx::cover(1);
            }
            sx::check(same_rows(&a.rows, &b.rows, ALL), "default-methods-change-the-output");
            sx::check(a.err.is_some() == b.err.is_some(), "default-methods-change-the-outcome");
        }
        (Err(a), Err(b)) => {
            obs_err(a);
            obs_err(b);
        }
        _ => sx::check(false, "default-methods-change-the-outcome"),
    }
}

/// Taking a few lines looks only at the children these lines belong to.
/// The root puts each of its children on lines of its own.
/// params: number of children (max 4), constructors, vocabulary, widths from, to; flags 1: shown in
/// a pane, 2: all children in one line of the root's notation, the second being a newline.
pub fn lazy() {
    let kids = sx::param(0) as usize;
    let size = sx::param(1) as usize;
    let voc = sx::param(2);
    let (lo, hi) = (sx::param(3), sx::param(4));
    // root; children 1..=kids; each child has one grandchild of its own
    let flags = sx::param(5);
    let style = if flags & 2 != 0 { 3 } else { sx::pick(3) };
    let sep = |a: N, b: N| cat(a, cat(N::Nl, b));
    let root = match style {
        0 => N::Fold(Box::new(N::Child(0)), Box::new(sep(N::Left, N::Right))),
        1 => {
            let mut n = N::Child(0);
            for i in 1..kids {
                n = sep(n, N::Child(i as i64));
            }
            n
        }
        3 => seq((0..kids).map(|i| N::Child(i as i64)).collect()),
        _ => {
            let mut n = N::Child(kids as i64 - 1);
            for i in (0..kids - 1).rev() {
                n = sep(N::Child(i as i64), n);
            }
            N::Indent(
                Str { ch: b'>', len: 1, max: 1 },
                None,
                Box::new(n),
            )
        }
    };
    let mut nodes = vec![Node::new(root).kids(&(1..=kids).collect::<Vec<_>>())];
    let mut left = size;
    let mut letter = 0;
    let mut grand = Vec::new();
    for i in 0..kids {
        let mut g = Gen::new(voc | crate::all::ast::voc::CHILD, 1, lo, hi);
        g.next = letter;
        let sizes: Vec<usize> = (1..=left.saturating_sub(kids - 1 - i)).filter(|s| g.can(*s, 0, false)).collect();
        let s = sizes[sx::pick(sizes.len())];
        left -= s;
        let n = if style == 3 && i == 1 { N::Nl } else { g.gen(s) };
        letter = g.next;
        nodes.push(Node::new(n).kids(&[kids + 1 + i]));
        grand.push(kids + 1 + i);
    }
    for _ in 0..kids {
        let s = Str { ch: b'a' + letter, len: sx::var(lo, hi), max: hi };
        letter += 1;
        nodes.push(Node::new(N::Lit(s)));
    }
    let mut doc = match make_doc(&nodes, true) {
        Ok(d) => d,
        Err(_) => return sx::assume(false),
    };
    let width = sx::var(0, 65535);
    show_case(&nodes, width);
    let m = Model::new(&nodes).layout(width, None);
    if m.err.is_some() {
        return sx::assume(false);
    }
    // focus on some child
    let at = if style == 3 { 0 } else { sx::pick(kids) };
    let end = sx::pick(2) == 1;
    let target = if end { FocusTarget::End } else { FocusTarget::Start };
    doc.log_touch = true;
    let line = m
        .events
        .iter()
        .find(|e| match e.ev {
            Ev::Start { id, .. } => !end && id == at + 1,
            Ev::End { id } => end && id == at + 1,
            _ => false,
        })
        .map(|e| e.line)
        .expect("model: focus line");
    let focus = line;
    let (a, b) = if flags & 1 != 0 {
        // as many rows as the window has
        let h = 1 + sx::pick(3);
        let fh = [0.0, 0.5, 1.0][sx::pick(3)];
        let dynamic = sx::pick(2) == 1;
        sx::show(|| format!("child {at} {target:?}, window of height {h}, focus height {fh}, dynamic {dynamic}"));
        let mut win = Win::new(1, h as u64);
        let options = PrintingOptions {
            focus_path: vec![at],
            focus_target: target,
            focus_height: fh,
            width_strategy: WidthStrategy::Fixed(width as u16),
            set_focus: true,
        };
        let p = if dynamic {
            P::Vert(vec![(PaneSize::Dynamic, P::Doc(0))])
        } else {
            P::Doc(0)
        };
        let r = ppp::pane::display_pane(&mut win, &build_pane(&p), &St::NONE, &|_: usize| Some((doc.root(), options.clone())));
        sx::check(r.is_ok(), "unexpected-error");
        if dynamic {
            (h - 1, h - 1)
        } else {
            let row = ((h - 1) as f32 * fh + 0.5) as usize;
            (row, h - 1 - row)
        }
    } else {
        let (up, down) = (sx::pick(3), sx::pick(3));
        sx::show(|| format!("child {at} {target:?}, {up} lines above, {down} lines below"));
        let r = ppp::pretty_print(doc.root(), width as u16, &[at], target, None);
        let (ups, _, downs) = match r {
            Ok(x) => x,
            Err(_) => return sx::check(false, "unexpected-error"),
        };
        let a = ups.take(up).filter(|l| l.is_ok()).count();
        let b = downs.take(down).filter(|l| l.is_ok()).count();
        sx::check(a == up.min(focus), "wrong-number-of-lines-above");
        sx::check(b == down.min(m.lines.len() - 1 - focus), "wrong-number-of-lines-below");
        (a, b)
    };
    // the children on these lines
    let line_of = |ev: Ev| m.events.iter().find(|e| e.ev == ev).map(|e| e.line);
    let start = |i: usize| {
        m.events
            .iter()
            .find(|e| matches!(e.ev, Ev::Start { id, .. } if id == i + 1))
            .map(|e| e.line)
            .expect("model: child line")
    };
    let touched = doc.touched.borrow();
    let starts: Vec<usize> = (0..kids).map(|i| start(i)).collect();
    for i in 0..kids {
        let from = starts[i];
        let to = line_of(Ev::End { id: i + 1 }).expect("model: child end");
        if i != at && (to + a < focus || from > focus + b) && (style != 3 || (i > 1 && starts[1] >= focus + b)) {
            sx::cover(1);
            sx::check(!touched[grand[i]], "looks-at-what-is-not-displayed");
        }
    }
}
