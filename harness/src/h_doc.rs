//! Harnesses over documents of several nodes.

use crate::all::ast::*;
use crate::all::cmp::*;
use crate::all::model::*;
use crate::all::sx;
use crate::all::tmpl::has_text;
use partial_pretty_printer::{FocusTarget, PrintingError};

/// Children of each node.
const SHAPES: &[&[&[usize]]] = &[
    /* 0 */ &[&[]],
    /* 1 */ &[&[1], &[]],
    /* 2 */ &[&[1, 2], &[], &[]],
    /* 3 */ &[&[1], &[2], &[]],
    /* 4 */ &[&[1, 2], &[3], &[], &[]],
    /* 5 */ &[&[1, 2], &[], &[3], &[]],
    /* 6 */ &[&[1, 2, 3], &[], &[], &[]],
    /* 7 */ &[&[1, 2], &[3], &[4], &[], &[]],
    /* 8 */ &[&[1, 2, 3, 4], &[], &[], &[], &[]],
    /* 9 */ &[&[1, 2], &[3, 4], &[], &[], &[]],
];

pub struct Cfg {
    pub shapes: u64,
    pub total: usize,
    pub voc_root: u64,
    pub voc_inner: u64,
    pub voc_leaf: u64,
    pub lo: u64,
    pub hi: u64,
    pub flags: u64,
}
pub mod flag {
    /// `Child` indices are arbitrary numbers.
    pub const SYM_CHILD: u64 = 1;
    /// Indentation has style labels.
    pub const INDENT_LABEL: u64 = 2;
    /// Nodes have styles of their own.
    pub const NODE_STYLE: u64 = 4;
    /// Any leaf may be text, whatever its notation.
    pub const ANY_TEXT: u64 = 8;
    /// Do not require notations to be valid.
    pub const NO_VALIDATE: u64 = 16;
    /// The root may be text.
    pub const ROOT_TEXT: u64 = 32;
    /// Inner nodes that the parent does not mention are generated all the same.
    pub const GEN_ALL: u64 = 64;
    /// Lengths are picked, not symbolic.
    pub const CONCRETE: u64 = 1 << 20;
    /// Documents made from templates (see tmpl.rs).
    pub const TEMPLATE: u64 = 1 << 21;
    /// Strings of other than ASCII characters, of given lengths.
    pub const FOREIGN: u64 = 1 << 22;
    /// Templates: all children are alike.
    pub const ALIKE: u64 = 1 << 23;
    /// Templates: two wrappers.
    pub const DOUBLE: u64 = 1 << 24;
    /// Templates: children are texts.
    pub const TEXTS: u64 = 1 << 25;
    /// Several nodes may share one notation.
    pub const SHARE: u64 = 1 << 26;
}

/// params: shapes, total size, vocabularies (root, inner, leaf), width lo, width hi, flags
pub fn cfg(at: u64) -> Cfg {
    Cfg {
        shapes: sx::param(at),
        total: sx::param(at + 1) as usize,
        voc_root: sx::param(at + 2),
        voc_inner: sx::param(at + 3),
        voc_leaf: sx::param(at + 4),
        lo: sx::param(at + 5),
        hi: sx::param(at + 6),
        flags: sx::param(at + 7),
    }
}

/// Might the notation display or inspect child `k` (of `n`)? `any`: child indices are symbolic.
fn mentions(x: &N, k: usize, n: usize, any: bool) -> bool {
    match x {
        N::Child(i) => any || norm_index(*i, n) == Some(k),
        N::Fold(..) | N::Left | N::Right => true,
        N::Flat(x) | N::Indent(_, _, x) | N::Style(_, x) => mentions(x, k, n, any),
        N::Cat(x, y) | N::Choice(x, y) | N::Check(_, _, x, y) => mentions(x, k, n, any) || mentions(y, k, n, any),
        N::Count(z, o, m) => match n {
            0 => mentions(z, k, n, any),
            1 => mentions(o, k, n, any),
            _ => mentions(m, k, n, any),
        },
        _ => false,
    }
}

pub fn gen_doc(c: &Cfg) -> Vec<Node> {
    if c.flags & flag::TEMPLATE != 0 {
        return crate::all::tmpl::gen(c);
    }
    let mut shapes = Vec::new();
    for (i, s) in SHAPES.iter().enumerate() {
        if c.shapes >> i & 1 != 0 {
            shapes.push(*s);
        }
    }
    let shape = shapes[sx::pick(shapes.len())];
    let any = c.flags & flag::SYM_CHILD != 0;
    let mut left = c.total;
    let mut wanted = vec![false; shape.len()];
    wanted[0] = true;
    let mut nodes: Vec<Node> = Vec::new();
    let mut letter = 0;
    let mut labels = 0;
    let mut alphabet = Gen::new(0, 0, 0, 0);
    alphabet.foreign = c.flags & flag::FOREIGN != 0;
    alphabet.start();
    for (id, kids) in shape.iter().enumerate() {
        let voc = if id == 0 {
            c.voc_root
        } else if kids.is_empty() {
            c.voc_leaf
        } else {
            c.voc_inner
        };
        let mut node = Node::new(N::Empty);
        let mut twin = None;
        if wanted[id] && c.flags & flag::SHARE != 0 {
            let twins: Vec<usize> = (1..id).filter(|j| wanted[*j] && nodes[*j].like.is_none() && shape[*j].len() == kids.len()).collect();
            let k = sx::pick(twins.len() + 1);
            if k > 0 {
                twin = Some(twins[k - 1]);
            }
        }
        if let Some(k) = twin {
            node.like = twin;
            node.n = nodes[k].n.clone();
            if nodes[k].text.is_some() {
                let mut g = Gen::new(0, 0, c.lo, c.hi);
                g.concrete = c.flags & flag::CONCRETE != 0;
                g.alphabet = alphabet.alphabet;
                g.next = letter;
                node.text = Some(g.str());
                if let (true, Some(t)) = (g.alphabet > 0, nodes[k].text) {
                    node.text = Some(respelled(t, letter, c.lo == 0));
                }
                letter = g.next;
            }
            for (j, k) in kids.iter().enumerate() {
                if c.flags & flag::GEN_ALL != 0 || mentions(&node.n, j, kids.len(), any) {
                    wanted[*k] = true;
                }
            }
        } else if wanted[id] {
            let can_be_text = kids.is_empty() && (id != 0 || c.flags & flag::ROOT_TEXT != 0);
            let voc = if can_be_text || c.flags & flag::ANY_TEXT != 0 { voc } else { voc & !voc::TEXT };
            let mut g = Gen::new(voc, kids.len(), c.lo, c.hi);
            g.sym_child = c.flags & flag::SYM_CHILD != 0;
            g.indent_label = c.flags & flag::INDENT_LABEL != 0;
            g.concrete = c.flags & flag::CONCRETE != 0;
            g.check_child = voc & voc::CHILD != 0;
            g.alphabet = alphabet.alphabet;
            g.next = letter;
            g.next_label = labels;
            // first how many of the children it mentions, so that budget is left for these
            let n = kids.len();
            let mut w = n;
            if c.flags & flag::GEN_ALL == 0 {
                w = if g.sym_child { n * sx::pick(2.min(n + 1)) } else { sx::pick(n + 1) };
                if w < n {
                    g.voc &= !(voc::FOLD | voc::LEFT | voc::RIGHT | voc::CHECKJ);
                }
                // (any child of a node without children is out of range)
                if w == 0 && !(g.sym_child && n == 0) {
                    g.voc &= !voc::CHILD;
                }
            }
            let pending = (id + 1..shape.len()).filter(|k| wanted[*k]).count() + w;
            let sizes: Vec<usize> = (1..=left.saturating_sub(pending)).filter(|s| g.can(*s, 0, false)).collect();
            let size = sizes[sx::pick(sizes.len())];
            left -= size;
            node.n = g.gen(size);
            if c.flags & flag::GEN_ALL == 0 {
                sx::assume((0..n).filter(|j| mentions(&node.n, *j, n, any)).count() == w);
            }
            let text = if c.flags & flag::ANY_TEXT != 0 {
                can_be_text && sx::pick(2) == 1
            } else {
                can_be_text && has_text(&node.n)
            };
            if text {
                node.text = Some(g.str());
            }
            letter = g.next;
            labels = g.next_label;
            for (j, k) in kids.iter().enumerate() {
                if c.flags & flag::GEN_ALL != 0 || mentions(&node.n, j, kids.len(), any) {
                    wanted[*k] = true;
                }
            }
        }
        if c.flags & flag::NODE_STYLE != 0 {
            node.style = St::atom(1 + id as u8);
        }
        node.kids = kids.to_vec();
        if (c.voc_root | c.voc_inner | c.voc_leaf) & (voc::CHECK | voc::CHECKJ) != 0 {
            node.cond = [sx::boolean(), false];
        }
        nodes.push(node);
    }
    nodes
}

pub fn doc_of(c: &Cfg, nodes: &[Node]) -> Option<Doc> {
    match make_doc(nodes, c.flags & flag::NO_VALIDATE == 0) {
        Ok(d) => Some(d),
        Err(_) => {
            sx::assume(false);
            None
        }
    }
}

/// Printed from the top: compare with the reference layout.
pub fn against_model(p: &Result<Printed, Err>, nodes: &[Node], m: &Layout, what: What, id: [&'static str; 3]) {
    let want = rows_of_layout(m);
    show_rows("reference layout", &want);
    match (p, m.err) {
        (Ok(p), None) => {
            show_rows("printed", &p.rows);
            if m.took_first > 0 {
                sx::cover(1);
            }
            if m.took_second > 0 {
                sx::cover(2);
            }
            if m.lines.len() > 1 {
                sx::cover(3);
            }
            match &p.err {
                None => {
                    sx::check(same_rows(&p.rows, &want, what), id[0]);
                    obs_rows(&p.rows);
                }
                Some((_, _, e)) => {
                    obs_err(e);
                    sx::check(false, id[1])
                }
            }
        }
        (Ok(p), Some(e)) => {
            sx::cover(4);
            match &p.err {
                Some((_, _, pe)) => {
                    show_rows("printed", &p.rows);
                    obs_err(pe);
                    sx::check(sx::or(same_err(pe, e), justified(nodes, pe)), id[2]);
                    if !m.ahead && e == MErr::TextAfterEol && matches!(pe, PrintingError::TextAfterEndOfLine) {
                        // everything before the faulty line is printed as usual
                        let k = want.len() - 1;
                        sx::check(p.rows.len() == k && same_rows(&p.rows, &want[..k], what), id[0]);
                    }
                }
                // an error that is only met by looking ahead may not be met at all
                None => sx::check(m.ahead, id[2]),
            }
        }
        (Err(pe), Some(e)) => {
            sx::cover(4);
            obs_err(pe);
            sx::check(sx::or(same_err(pe, e), justified(nodes, pe)), id[2]);
        }
        (Err(pe), None) => {
            obs_err(pe);
            sx::check(false, id[1])
        }
    }
}

pub fn setup(c: &Cfg) -> Option<(Vec<Node>, Doc, u64)> {
    let nodes = gen_doc(c);
    let doc = doc_of(c, &nodes)?;
    let width = sx::var(0, 65535);
    show_case(&nodes, width);
    Some((nodes, doc, width))
}

/// Text of the whole document.
pub fn text() {
    let c = cfg(0);
    let (nodes, doc, width) = match setup(&c) {
        Some(x) => x,
        None => return,
    };
    let m = Model::new(&nodes).layout(width, None);
    let p = print(&doc, width, &[], FocusTarget::Start, None);
    against_model(&p, &nodes, &m, TEXT, ["document-text", "document-unexpected-error", "document-wrong-or-missing-error"]);
}

/// Styles of the whole document.
pub fn styles() {
    let c = cfg(0);
    let (nodes, doc, width) = match setup(&c) {
        Some(x) => x,
        None => return,
    };
    let root = St::atom(0x40);
    let root = if sx::pick(2) == 0 { None } else { Some(root) };
    let m = Model::new(&nodes).layout(width, root);
    let p = print(&doc, width, &[], FocusTarget::Start, root.as_ref());
    let what = What { text: true, style: true, width: false };
    against_model(&p, &nodes, &m, what, ["document-styles", "document-unexpected-error", "document-wrong-or-missing-error"]);
}

/// Pick a path (in the document, or, with `bad`, possibly out of it), and the node it leads to.
pub fn pick_path(nodes: &[Node], bad: bool) -> (Vec<usize>, Option<usize>) {
    let mut path = Vec::new();
    let mut at = 0;
    loop {
        let n = nodes[at].kids.len();
        let k = sx::pick(n + 1 + bad as usize);
        if k == 0 {
            return (path, Some(at));
        }
        if k - 1 == n {
            let i = sx::var64();
            sx::assume(i >= n as u64);
            path.push(i as usize);
            return (path, None);
        }
        path.push(k - 1);
        at = nodes[at].kids[k - 1];
    }
}

#[derive(Clone, Copy)]
pub enum Where {
    At(usize, usize, u64), // line, segments before, characters before in the next segment
    BadPath(usize),
    NoMark,
    NoText,
}

/// Where the model says that the focus is. `None`: the position is not determined.
pub fn locate(m: &Layout, nodes: &[Node], path: &[usize], target: FocusTarget) -> Where {
    let mut at = 0;
    for i in path {
        let mut next = None;
        for e in &m.events {
            if let Ev::Start { parent, index, id } = e.ev {
                if parent == at && index == *i {
                    next = Some(id);
                    break;
                }
            }
        }
        match next {
            None => return Where::BadPath(*i),
            Some(n) => at = n,
        }
    }
    let find = |f: &dyn Fn(&Ev) -> bool| m.events.iter().find(|e| f(&e.ev)).map(|e| (e.line, e.segs));
    match target {
        FocusTarget::Start => {
            let (l, s) = find(&|e| matches!(e, Ev::Start { id, .. } if *id == at)).expect("model: start");
            Where::At(l, s, 0)
        }
        FocusTarget::End => {
            let (l, s) = find(&|e| *e == Ev::End { id: at }).expect("model: end");
            Where::At(l, s, 0)
        }
        FocusTarget::Mark => match find(&|e| *e == Ev::Mark { id: at }) {
            Some((l, s)) => Where::At(l, s, 0),
            None => Where::NoMark,
        },
        FocusTarget::Text(n) => match find(&|e| *e == Ev::Text { id: at }) {
            Some((l, s)) => {
                let len = nodes[at].text.map_or(0, |t| t.len);
                Where::At(l, s, if n as u64 >= len { len } else { n as u64 })
            }
            None => Where::NoText,
        },
    }
}

pub fn pick_target() -> FocusTarget {
    match sx::pick(4) {
        0 => FocusTarget::Start,
        1 => FocusTarget::End,
        2 => FocusTarget::Mark,
        // (Looking for a position in a long text takes too long.)
        _ if sx::param(6) > 6 => FocusTarget::Text(sx::var(0, 4) as usize),
        _ => FocusTarget::Text(sx::var64() as usize),
    }
}

/// No node is displayed twice.
fn once(m: &Layout) -> bool {
    let mut seen = Vec::new();
    for e in &m.events {
        if let Ev::Start { id, .. } = e.ev {
            if seen.contains(&id) {
                return false;
            }
            seen.push(id);
        }
    }
    true
}

/// The printed lines do not depend on the focus.
/// Printed for every focus, against what is printed from the top.
pub fn same_lines() {
    let c = cfg(0);
    let (nodes, doc, width) = match setup(&c) {
        Some(x) => x,
        None => return,
    };
    let (path, _) = pick_path(&nodes, false);
    let target = pick_target();
    sx::show(|| format!("path {path:?} target {target:?}"));
    let f = match print(&doc, width, &path, target, None) {
        Ok(f) => f,
        Err(PrintingError::InvalidPath(_)) | Err(PrintingError::MissingFocusMark) | Err(PrintingError::MissingText) => return,
        Err(e) => {
            // only because the same fault is met from the top
            let top = print(&doc, width, &[], FocusTarget::Start, None);
            let te = match &top {
                Ok(p) => p.err.as_ref().map(|x| &x.2),
                Err(e) => Some(e),
            };
            sx::check(
                matches!((&e, te), (PrintingError::TextAfterEndOfLine, Some(PrintingError::TextAfterEndOfLine))),
                "focus-changes-the-outcome",
            );
            return;
        }
    };
    let top = print(&doc, width, &[], FocusTarget::Start, None);
    match top {
        Ok(top) => {
            show_rows("from the top", &top.rows);
            show_rows("focused", &f.rows);
            match (&top.err, &f.err) {
                (None, None) => {
                    if f.focus_row > 0 {
                        sx::cover(1);
                    }
                    if f.focus_row + 1 < f.rows.len() {
                        sx::cover(2);
                    }
                    if !f.left.is_empty() && !f.right.is_empty() {
                        sx::cover(3);
                    }
                    sx::check(same_rows(&top.rows, &f.rows, ALL), "focus-changes-the-lines");
                    obs_rows(&f.rows);
                }
                (Some((_, _, a)), Some((_, _, b))) => sx::check(
                    matches!((a, b), (PrintingError::TextAfterEndOfLine, PrintingError::TextAfterEndOfLine)),
                    "focus-changes-the-outcome",
                ),
                _ => sx::check(false, "focus-changes-the-outcome"),
            }
        }
        Err(PrintingError::TextAfterEndOfLine) => sx::check(f.err.is_some(), "focus-changes-the-outcome"),
        Err(_) => sx::check(false, "focus-changes-the-outcome"),
    }
}

/// The focus is where it was asked to be.
pub fn position() {
    let c = cfg(0);
    let (nodes, doc, width) = match setup(&c) {
        Some(x) => x,
        None => return,
    };
    let m = Model::new(&nodes).layout(width, None);
    if m.err.is_some() || !once(&m) {
        return sx::assume(false);
    }
    let (path, _) = pick_path(&nodes, false);
    let target = pick_target();
    sx::show(|| format!("path {path:?} target {target:?}"));
    let w = locate(&m, &nodes, &path, target);
    if let Where::At(line, segs, chars) = w {
        match print(&doc, width, &path, target, None) {
            Ok(p) => {
                show_rows("focused", &p.rows);
                show_rows("left of the focus", &[p.left.clone()]);
                sx::show(|| format!("expected focus: line {line}, {segs} segments before, {chars} characters"));
                if path.len() > 0 {
                    sx::cover(1);
                }
                if line > 0 {
                    sx::cover(2);
                }
                match target {
                    FocusTarget::Start => sx::cover(3),
                    FocusTarget::End => sx::cover(4),
                    FocusTarget::Mark => sx::cover(5),
                    FocusTarget::Text(_) => sx::cover(6),
                }
                sx::check(p.focus_row == line, "focus-on-the-wrong-line");
                let row = row_of_model(&m.lines[line]);
                let mut left: Row = row[..segs].to_vec();
                let mut right: Row = row[segs..].to_vec();
                if matches!(target, FocusTarget::Text(_)) {
                    let mut l = right[0];
                    let len = l.len;
                    let u = unit(l.ch);
                    l.len = chars;
                    l.width = if u == 1 { chars } else { u * chars };
                    left.push(l);
                    right[0].len = len - chars;
                    right[0].width = if u == 1 { len - chars } else { u * (len - chars) };
                }
                let what = What { text: true, style: false, width: true };
                sx::check(same_row(&p.left, &left, what), "focus-at-the-wrong-column");
                sx::check(same_row(&p.right, &right, what), "wrong-text-right-of-the-focus");
                sx::obs(p.focus_row as u64);
                obs_rows(&[p.left, p.right]);
            }
            Err(e) => {
                obs_err(&e);
                sx::check(false, "focus-not-found")
            }
        }
    } else {
        sx::assume(false)
    }
}

/// What cannot be focused on is reported as such.
pub fn missing() {
    let c = cfg(0);
    let (nodes, doc, width) = match setup(&c) {
        Some(x) => x,
        None => return,
    };
    let m = Model::new(&nodes).layout(width, None);
    if m.err.is_some() || !once(&m) {
        return sx::assume(false);
    }
    let (mut path, at) = pick_path(&nodes, true);
    if at.is_none() && sx::pick(2) == 1 {
        path.push(0);
    }
    let target = pick_target();
    sx::show(|| format!("path {path:?} target {target:?}"));
    let w = locate(&m, &nodes, &path, target);
    let r = print(&doc, width, &path, target, None);
    if let Err(e) = &r {
        obs_err(e);
    }
    match w {
        Where::At(..) => sx::check(r.is_ok(), "error-although-the-target-exists"),
        Where::BadPath(i) => {
            sx::cover(1);
            sx::check(matches!(r, Err(PrintingError::InvalidPath(k)) if k == i), "invalid-path-not-reported")
        }
        Where::NoMark => {
            sx::cover(2);
            sx::check(matches!(r, Err(PrintingError::MissingFocusMark)), "missing-mark-not-reported")
        }
        Where::NoText => {
            sx::cover(3);
            sx::check(matches!(r, Err(PrintingError::MissingText)), "missing-text-not-reported")
        }
    }
}
