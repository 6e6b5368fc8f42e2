//! Panes.

use crate::all::ast::*;
use crate::all::model::*;
use crate::all::pane_model::*;
use crate::all::sx;
use partial_pretty_printer as ppp;
use ppp::pane::{display_pane, PaneError, PaneSize, PrettyWindow, WidthStrategy};
use ppp::FocusTarget;

type PErr = PaneError<DocErr, DocErr>;

fn run(win: &mut Win, p: &P, st: St, docs: &[Option<Content>], real: &[Option<Doc>]) -> Result<(), PErr> {
    let pn = build_pane(p);
    display_pane(win, &pn, &st, &|l: usize| match (&real[l], &docs[l]) {
        (Some(d), Some(c)) => Some((d.root(), c.options())),
        _ => None,
    })
}
fn real_docs(docs: &[Option<Content>]) -> Vec<Option<Doc>> {
    docs.iter()
        .map(|c| c.as_ref().map(|c| make_doc(&c.nodes, true).ok().expect("pane documents are valid")))
        .collect()
}

/// Everything on the window is as expected.
fn compare(win: &Win, x: &Expect) {
    sx::show(|| {
        let mut s = String::from("displayed / expected:\n");
        for row in 0..win.h {
            let line = |f: &dyn Fn(usize) -> char| (0..win.w).map(|c| f((row * win.w + c) as usize)).collect::<String>();
            s += &format!(
                "  |{}|   |{}|\n",
                line(&|i| if win.cells[i].n == 0 { '.' } else { win.cells[i].ch }),
                line(&|i| x.cells[i].map_or('.', |c| c.0))
            );
        }
        s + &format!("focus {:?} expected {:?}", win.focus, x.focus)
    });
    sx::check(!win.bad_flag, "pane-wrong-character-width");
    let mut content = true;
    let mut styles = true;
    let mut written = true;
    for (c, e) in win.cells.iter().zip(x.cells.iter()) {
        match e {
            Some((ch, st, right)) => {
                written = sx::and(written, c.n == 1);
                content = sx::and(content, c.ch == *ch && c.right_half == *right);
                styles = sx::and(styles, c.st == *st);
                sx::obs(c.ch as u64);
            }
            None => written = sx::and(written, c.n == 0),
        }
    }
    sx::check(written, "pane-cell-not-written-exactly-once");
    sx::check(content, "pane-content");
    sx::check(styles, "pane-style");
    let mut focus = win.focus.len() == x.focus.len();
    for f in &x.focus {
        let mut found = false;
        for g in &win.focus {
            found = sx::or(found, sx::and(g.row as u64 == f.0, g.col as u64 == f.1));
            sx::obs(g.col as u64);
        }
        focus = sx::and(focus, found);
    }
    sx::check(focus, "pane-focus-point");
}

fn expected(p: &P, st: St, docs: &[Option<Content>], w: u64, h: u64) -> Expect {
    let mut x = Expect {
        w,
        h,
        cells: vec![None; (w * h) as usize],
        focus: vec![],
        bad_dynamic: false,
        cut: false,
        padded: false,
        dynamic: 0,
    };
    expect(p, st, docs, Rect { row: 0, col: 0, w, h }, &mut x);
    x
}

/// A document of up to `max` lines; the length of each is symbolic in 0..=hi. The focus is at the
/// start or end of some line.
fn some_doc(max: usize, hi: u64, letter: u8, rich: u64) -> Content {
    let n = 1 + sx::pick(max);
    let mut nodes = vec![Node::new(N::Empty).kids(&(1..=n).collect::<Vec<_>>())];
    let mut root = N::Child(0);
    for i in 1..n {
        root = cat(root, cat(N::Nl, N::Child(i as i64)));
    }
    nodes[0].n = root;
    let mut next = letter;
    let mut str = |wide: bool| {
        next += 1;
        Str {
            ch: next - 1 + if wide { 0x80 - b'a' } else { 0 },
            len: if wide { sx::pick(hi as usize + 1) as u64 } else { sx::var(0, hi) },
            max: hi,
        }
    };
    for i in 0..n {
        let line = match if rich & 1 != 0 && i == 0 { sx::pick(5) } else { 0 } {
            0 => N::Lit(str(false)),
            // two pieces, of which the first is wide
            1 => {
                let a = N::Lit(str(true));
                cat(a, N::Style(1, Box::new(N::Lit(str(false)))))
            }
            2 => {
                let a = N::Lit(str(false));
                cat(a, N::Lit(str(true)))
            }
            3 => N::Style(1, Box::new(N::Lit(str(false)))),
            // depends on the printing width
            _ => {
                let a = str(false);
                let b = str(false);
                choice(
                    N::Flat(Box::new(cat(N::Lit(a), N::Lit(b)))),
                    cat(N::Lit(a), cat(N::Nl, N::Lit(b))),
                )
            }
        };
        nodes.push(Node::new(line));
    }
    let k = sx::pick(n + 1);
    let path = if k == n { vec![] } else { vec![k] };
    let target = if rich & 2 != 0 && sx::pick(2) == 1 { FocusTarget::End } else { FocusTarget::Start };
    let fh = if rich & 8 != 0 {
        [0.0, 0.25, 0.5, 0.75, 1.0][sx::pick(5)]
    } else {
        0.0
    };
    let strategy = match if rich & 4 != 0 { sx::pick(3) } else { 0 } {
        0 => WidthStrategy::Full,
        1 => WidthStrategy::Fixed(sx::var(0, 65535) as u16),
        _ => WidthStrategy::NoMoreThan(sx::var(0, 65535) as u16),
    };
    Content {
        nodes,
        path,
        target,
        fh,
        strategy,
        set_focus: true,
    }
}
fn show_content(c: &[Option<Content>]) {
    for (i, c) in c.iter().enumerate() {
        if let Some(c) = c {
            sx::show(|| {
                format!(
                    "document {i}: path {:?} {:?} focus height {} {:?}\n{}",
                    c.path,
                    c.target,
                    c.fh,
                    c.strategy,
                    crate::all::cmp::show_nodes(&c.nodes)
                )
            });
        }
    }
}

const WEIGHTS: [u64; 9] = [1, 0, 2, 3, 7, 5, 100, u64::MAX, u64::MAX - 1];

/// Division of a line of cells among fixed and proportional panes.
/// params: max panes, max length, max fixed size, number of weights, 0 horizontal / 1 vertical
pub fn divide() {
    let n = 1 + sx::pick(sx::param(0) as usize);
    let len = sx::var(0, sx::param(1));
    let vert = sx::param(4) == 1;
    let mut v = Vec::new();
    let mut sizes = Vec::new();
    for i in 0..n {
        let (fixed, k) = if sx::pick(2) == 0 {
            (true, sx::var(0, sx::param(2)))
        } else {
            (false, WEIGHTS[sx::pick(sx::param(3) as usize)])
        };
        sizes.push((fixed, k));
        let s = if fixed { PaneSize::Fixed(k as usize) } else { PaneSize::Proportional(k as usize) };
        v.push((s, P::Fill((b'a' + i as u8) as char)));
    }
    let p = if vert { P::Vert(v) } else { P::Horz(v) };
    sx::show(|| format!("{} in {len}", show_pane(&p)));
    let (w, h) = if vert { (1, len) } else { (len, 1) };
    let mut win = Win::new(w, h);
    let r = run(&mut win, &p, St::NONE, &[], &[]);
    sx::check(r.is_ok(), "pane-unexpected-error");
    // what each got, in order and without holes
    let mut got = vec![0u64; n];
    let mut at = 0;
    for c in &win.cells {
        if c.n == 0 {
            at = n;
            continue;
        }
        let i = (c.ch as u8 - b'a') as usize;
        sx::check(i >= at, "panes-out-of-order");
        at = i;
        got[i] += 1;
    }
    sx::show(|| format!("got {got:?}"));
    for g in &got {
        sx::obs(*g);
    }
    let mut left = len;
    for i in 0..n {
        if sizes[i].0 {
            let want = if left < sizes[i].1 { left } else { sizes[i].1 };
            sx::check(got[i] == want, "fixed-pane-size");
            left -= want;
        }
    }
    let total: u128 = sizes.iter().filter(|s| !s.0).map(|s| s.1 as u128).sum();
    let any = sizes.iter().any(|s| !s.0);
    if !any {
        return;
    }
    let sum: u64 = (0..n).filter(|i| !sizes[*i].0).map(|i| got[i]).sum();
    if total == 0 {
        sx::cover(1);
        sx::check(sum == 0, "space-for-weight-zero");
        return;
    }
    sx::cover(2);
    sx::check(sum == left, "proportional-panes-do-not-fill-the-space");
    for i in 0..n {
        if sizes[i].0 {
            continue;
        }
        let w = sizes[i].1 as u128;
        let (exact, g) = (left as u128 * w, got[i] as u128 * total);
        // within one cell of the exact share
        sx::check(sx::and(g < exact + total, exact < g + total), "proportional-pane-far-from-its-share");
        for j in 0..n {
            if j == i || sizes[j].0 {
                continue;
            }
            let u = sizes[j].1 as u128;
            sx::check(sx::or(sx::or(w < u, sx::and(w == u, i > j)), got[i] >= got[j] || sx::and(w == u, j < i && got[i] + 1 == got[j])), "heavier-pane-gets-less");
            // who is rounded up has at least as large a remainder as who is rounded down
            let up = |g: u64, w: u128| g as u128 * total > left as u128 * w;
            if up(got[i], w) && !up(got[j], u) {
                sx::cover(3);
                let a = left as u128 * w + total - got[i] as u128 * total;
                let b = left as u128 * u - got[j] as u128 * total;
                sx::check(sx::or(a > b, sx::and(a == b, i < j)), "leftover-cell-to-the-wrong-pane");
            }
        }
    }
}

/// Many proportional panes.
/// params: fewest panes, most panes, max length, 0 horizontal / 1 vertical
pub fn divide_many() {
    let n = sx::param(0) as usize + sx::pick((sx::param(1) - sx::param(0) + 1) as usize);
    let len = sx::var(0, sx::param(2));
    let vert = sx::param(3) == 1;
    // patterns of weights, repeated
    let pattern: &[u64] = match sx::pick(7) {
        0 => &[1],
        1 => &[1, 2],
        2 => &[1, 1, 0, 2],
        3 => &[3, 1, 1, 1, 2],
        4 => &[u64::MAX],
        5 => &[5, 7],
        _ => &[1, 2, 3, 4, 5, 6, 7, 8, 9],
    };
    let ws: Vec<u64> = (0..n).map(|i| pattern[i % pattern.len()]).collect();
    let p: Vec<(PaneSize, P)> = ws
        .iter()
        .enumerate()
        .map(|(i, w)| (PaneSize::Proportional(*w as usize), P::Fill((b'A' + i as u8) as char)))
        .collect();
    let p = if vert { P::Vert(p) } else { P::Horz(p) };
    sx::show(|| format!("weights {ws:?} in {len}"));
    let (w, h) = if vert { (1, len) } else { (len, 1) };
    let mut win = Win::new(w, h);
    let r = run(&mut win, &p, St::NONE, &[], &[]);
    sx::check(r.is_ok(), "pane-unexpected-error");
    let mut got = vec![0u64; n];
    for c in &win.cells {
        sx::check(c.n == 1, "proportional-panes-do-not-fill-the-space");
        if c.n == 1 {
            got[(c.ch as u8 - b'A') as usize] += 1;
        }
    }
    let want = proportional(len, &ws);
    sx::show(|| format!("got {got:?} expected {want:?}"));
    sx::check(got == want, "proportional-division");
    sx::cover(1);
}

/// A single document in a window.
/// params: max lines, max line length, max window width, max window height, rich
pub fn doc() {
    let rich = sx::param(4);
    let c = some_doc(sx::param(0) as usize, sx::param(1), b'a', rich);
    let (w, h) = (sx::pick(sx::param(2) as usize + 1) as u64, sx::pick(sx::param(3) as usize + 1) as u64);
    let docs = [Some(c)];
    let p = match sx::pick(2) {
        0 => P::Doc(0),
        _ => P::Style(St::atom(7), Box::new(P::Doc(0))),
    };
    show_content(&docs);
    sx::show(|| format!("{} in {w} x {h}", show_pane(&p)));
    let real = real_docs(&docs);
    let mut win = Win::new(w, h);
    let st = St::atom(3);
    let r = run(&mut win, &p, st, &docs, &real);
    sx::check(r.is_ok(), "pane-unexpected-error");
    let x = expected(&p, st, &docs, w, h);
    if x.cut {
        sx::cover(1);
    }
    if x.padded {
        sx::cover(2);
    }
    compare(&win, &x);
}

/// Dynamic panes next to others.
/// params: max lines, max line length, max window width, max window height, rich (16: several
/// Dynamic panes), 0 horizontal / 1 vertical
pub fn dynamic() {
    let rich = sx::param(4);
    let vert = sx::param(5) == 1;
    let a = some_doc(sx::param(0) as usize, sx::param(1), b'a', rich);
    let other = if rich & 16 != 0 { 4 + sx::pick(2) } else { sx::pick(5) };
    let mut docs = vec![Some(a), None];
    let d = || match sx::pick(2) {
        0 => P::Doc(0),
        _ => P::Style(St::atom(7), Box::new(P::Doc(0))),
    };
    let v = match other {
        0 => vec![(PaneSize::Dynamic, d())],
        1 => vec![(PaneSize::Proportional(1), P::Fill('.')), (PaneSize::Dynamic, d())],
        2 => vec![(PaneSize::Dynamic, d()), (PaneSize::Fixed(sx::var(0, 3) as usize), P::Fill('-'))],
        3 => vec![(PaneSize::Dynamic, P::Doc(1)), (PaneSize::Dynamic, d()), (PaneSize::Proportional(1), P::Fill('.'))],
        _ => {
            docs[1] = Some(some_doc(sx::param(0) as usize, sx::param(1), b'n', 0));
            let last = if other == 4 {
                (PaneSize::Proportional(1), P::Fill('.'))
            } else {
                (PaneSize::Dynamic, P::Doc(1))
            };
            vec![(PaneSize::Dynamic, P::Doc(1)), (PaneSize::Dynamic, d()), last]
        }
    };
    let (w, h) = (sx::pick(sx::param(2) as usize + 1) as u64, sx::pick(sx::param(3) as usize + 1) as u64);
    let p = if vert { P::Vert(v) } else { P::Horz(v) };
    show_content(&docs);
    sx::show(|| format!("{} in {w} x {h}", show_pane(&p)));
    let real = real_docs(&docs);
    let mut win = Win::new(w, h);
    let st = St::atom(3);
    let r = run(&mut win, &p, st, &docs, &real);
    sx::check(r.is_ok(), "pane-unexpected-error");
    let x = expected(&p, st, &docs, w, h);
    if x.cut {
        sx::cover(1);
    }
    if x.dynamic > 1 {
        sx::cover(2);
    }
    compare(&win, &x);
}

struct PGen {
    leaves: usize,
    next: u8,
    labels: usize,
    atom: u8,
    bad: bool,
    styles: bool,
    few_sizes: bool,
}
impl PGen {
    fn size(&mut self) -> PaneSize {
        if self.few_sizes {
            return match sx::pick(3) {
                0 => PaneSize::Fixed(sx::var(0, 3) as usize),
                1 => PaneSize::Proportional(1),
                _ => PaneSize::Dynamic,
            };
        }
        match sx::pick(4) {
            0 => PaneSize::Fixed(sx::var(0, 3) as usize),
            1 => PaneSize::Proportional(1),
            2 => PaneSize::Proportional(2),
            _ => PaneSize::Dynamic,
        }
    }
    fn leaf(&mut self, doc: bool) -> P {
        if doc {
            return P::Doc(sx::pick(self.labels));
        }
        match sx::pick(1 + self.labels) {
            0 => {
                self.next += 1;
                match sx::pick(2) {
                    0 => P::Fill((b'A' + self.next) as char),
                    _ => P::Fill(char::from_u32(0x5000 + self.next as u32).expect("wide")),
                }
            }
            k => P::Doc(k - 1),
        }
    }
    /// A pane with `n` leaves, of a depth of at most `depth`.
    fn pane(&mut self, n: usize, depth: usize, doc: bool) -> P {
        let styled = self.styles && sx::pick(2) == 1;
        let p = if n == 1 && (doc || depth == 0 || sx::pick(2) == 0) {
            self.leaf(doc)
        } else {
            let mut left = n;
            let mut v = Vec::new();
            let horz = sx::pick(2) == 0;
            while left > 0 {
                let k = if depth <= 1 { 1 } else { 1 + sx::pick(left) };
                left -= k;
                let s = self.size();
                let dynamic = s == PaneSize::Dynamic;
                if dynamic && k > 1 && !self.bad {
                    sx::assume(false);
                }
                let q = self.pane(k, depth - 1, dynamic && !self.bad);
                v.push((s, q));
            }
            if horz {
                P::Horz(v)
            } else {
                P::Vert(v)
            }
        };
        if styled {
            self.atom += 1;
            P::Style(St::atom(self.atom), Box::new(p))
        } else {
            p
        }
    }
}

fn fixed_docs(kind: usize) -> Vec<Option<Content>> {
    let lit = |ch, len| N::Lit(Str { ch, len, max: 9 });
    let a = Node::new(cat(lit(b'a', 2), cat(N::Nl, N::Child(0)))).kids(&[1]);
    let b = Node::new(N::Style(1, Box::new(cat(lit(b'b', 3), lit(0x81, 1)))));
    let c = Content {
        nodes: vec![a, b],
        path: vec![0],
        target: FocusTarget::Start,
        fh: 1.0,
        strategy: WidthStrategy::Full,
        set_focus: true,
    };
    let d = match kind {
        // the first line is styled, the focus at the top
        1 => {
            let a = Node::new(cat(N::Style(2, Box::new(lit(b'd', 1))), cat(N::Nl, N::Child(0)))).kids(&[1]);
            let b = Node::new(lit(b'e', 2));
            Some(Content {
                nodes: vec![a, b],
                path: vec![],
                target: FocusTarget::Start,
                fh: 0.0,
                strategy: WidthStrategy::Fixed(7),
                set_focus: false,
            })
        }
        // a line in the middle
        2 => {
            let a = Node::new(N::Style(2, Box::new(lit(b'd', 1))));
            Some(Content {
                nodes: vec![a],
                path: vec![],
                target: FocusTarget::End,
                fh: 0.5,
                strategy: WidthStrategy::NoMoreThan(1),
                set_focus: true,
            })
        }
        _ => None,
    };
    vec![Some(c), d]
}

/// Nested panes.
/// params: max leaves, max depth, max window width, max window height,
/// flags 1: dynamic sizes anywhere, 2: no styles, 4: fewer sizes, 8: only the largest window;
/// the second document (0: none)
pub fn tree() {
    let mut g = PGen {
        leaves: sx::param(0) as usize,
        next: 0,
        labels: 2,
        atom: 0x10,
        bad: sx::param(4) & 1 != 0,
        styles: sx::param(4) & 2 == 0,
        few_sizes: sx::param(4) & 4 != 0,
    };
    let n = 1 + sx::pick(g.leaves);
    let depth = sx::param(1) as usize;
    let p = g.pane(n, depth, false);
    let docs = fixed_docs(sx::param(5) as usize);
    let (mut w, mut h) = (sx::param(2), sx::param(3));
    if sx::param(4) & 8 == 0 {
        w = sx::pick(w as usize + 1) as u64;
        h = sx::pick(h as usize + 1) as u64;
    }
    sx::show(|| format!("{} in {w} x {h}", show_pane(&p)));
    let real = real_docs(&docs);
    let mut win = Win::new(w, h);
    let st = St::atom(3);
    let r = run(&mut win, &p, st, &docs, &real);
    let x = expected(&p, st, &docs, w, h);
    if x.bad_dynamic {
        sx::cover(1);
        sx::check(matches!(r, Err(PaneError::InvalidUseOfDynamic)), "invalid-dynamic-pane-not-reported");
        return;
    }
    sx::cover(2);
    sx::check(r.is_ok(), "pane-unexpected-error");
    compare(&win, &x);
}

/// A window or a document that fails.
/// params: max window width, max window height
pub fn faults() {
    let mut g = PGen {
        leaves: 2,
        next: 0,
        labels: 2,
        atom: 0x10,
        bad: false,
        styles: true,
        few_sizes: false,
    };
    let n = 1 + sx::pick(2);
    let p = g.pane(n, 1, false);
    let docs = fixed_docs(0);
    let (w, h) = (sx::pick(sx::param(0) as usize + 1) as u64, sx::pick(sx::param(1) as usize + 1) as u64);
    sx::show(|| format!("{} in {w} x {h}", show_pane(&p)));
    let mut real = real_docs(&docs);
    let in_window = sx::pick(2) == 0;
    let st = St::atom(3);
    let mut win = Win::new(w, h);
    win.count = true;
    if let Some(d) = &mut real[0] {
        d.count_calls = true;
    }
    sx::check(run(&mut win, &p, st, &docs, &real).is_ok(), "pane-unexpected-error");
    let total = if in_window { win.calls } else { real[0].as_ref().map_or(0, |d| d.calls.get()) };
    let good = win;
    let k = sx::var(0, 4000);
    sx::assume(k < total);
    let mut win = Win::new(w, h);
    win.count = true;
    if let Some(d) = &mut real[0] {
        d.calls.set(0);
        d.count_calls = true;
    }
    if in_window {
        win.fail_at = k;
    } else if let Some(d) = &mut real[0] {
        d.fail_at = k;
    }
    let r = run(&mut win, &p, st, &docs, &real);
    if in_window {
        sx::cover(1);
        sx::check(matches!(r, Err(PaneError::PrettyWindowError(DocErr(j))) if j == k), "window-failure-not-reported");
    } else {
        sx::cover(2);
        sx::check(
            matches!(r, Err(PaneError::PrintingError(ppp::PrintingError::PrettyDoc(DocErr(j)))) if j == k),
            "document-failure-not-reported",
        );
    }
    // what was displayed until then is what would have been displayed
    let mut same = true;
    for (a, b) in win.cells.iter().zip(good.cells.iter()) {
        same = same && (a.n == 0 || *a == *b);
    }
    sx::check(same, "failure-changes-what-is-displayed");
}

/// The plain text window shows what was written to it.
/// A document that cannot be printed, in one of two panes or in both.
/// params: max window width, max window height
pub fn unprintable() {
    let mut g = PGen {
        leaves: 2,
        next: 0,
        labels: 2,
        atom: 0x10,
        bad: false,
        styles: true,
        few_sizes: false,
    };
    let n = 1 + sx::pick(2);
    let p = g.pane(n, 1, false);
    let (w, h) = (sx::pick(sx::param(0) as usize + 1) as u64, sx::pick(sx::param(1) as usize + 1) as u64);
    let mut docs = fixed_docs(1);
    let st = St::atom(3);
    let mut good = Win::new(w, h);
    {
        let real = real_docs(&docs);
        sx::check(run(&mut good, &p, st, &docs, &real).is_ok(), "pane-unexpected-error");
    }
    let k = sx::pick(5);
    sx::show(|| format!("{} in {w} x {h}, flaw {k}", show_pane(&p)));
    if let Some(d) = &mut docs[0] {
        match k {
            0 => d.path = vec![0, 1],
            1 => d.target = FocusTarget::Mark,
            2 => d.target = FocusTarget::Text(0),
            3 => d.nodes[1].n = cat(std::mem::replace(&mut d.nodes[1].n, N::Empty), N::Child(7)),
            _ => d.nodes[1].n = cat(N::Text, std::mem::replace(&mut d.nodes[1].n, N::Empty)),
        }
    }
    let real = real_docs(&docs);
    let mut win = Win::new(w, h);
    let r = run(&mut win, &p, st, &docs, &real);
    // was something of it displayed?
    let mut shown = false;
    for c in &good.cells {
        let of_it = matches!(c.ch, 'a' | 'b' | '\u{4E01}');
        shown = sx::or(shown, sx::and(c.n > 0, of_it));
    }
    if shown {
        sx::cover(1);
        sx::check(r.is_err(), "unprintable-document-not-reported");
    }
    if !mentions(&p, 0) {
        sx::cover(2);
        sx::check(r.is_ok(), "unprintable-document-that-is-not-displayed");
    }
    if let Err(e) = r {
        sx::cover(3);
        let right = match (&e, k) {
            (PaneError::PrintingError(ppp::PrintingError::InvalidPath(1)), 0) => true,
            (PaneError::PrintingError(ppp::PrintingError::MissingFocusMark), 1) => true,
            (PaneError::PrintingError(ppp::PrintingError::MissingText), 2) => true,
            (PaneError::PrintingError(ppp::PrintingError::ChildIndexOutOfBounds { index: 7, len: 0 }), 3) => true,
            (PaneError::PrintingError(ppp::PrintingError::TextNotationOnTextlessDoc), 4) => true,
            _ => false,
        };
        sx::check(right, "wrong-error-for-an-unprintable-document");
        // what was displayed until then is what would have been displayed
        let mut same = true;
        for (a, b) in win.cells.iter().zip(good.cells.iter()) {
            same = same && (a.n == 0 || *a == *b);
        }
        sx::check(same, "failure-changes-what-is-displayed");
    }
}
fn mentions(p: &P, k: usize) -> bool {
    match p {
        P::Doc(l) => *l == k,
        P::Style(_, x) => mentions(x, k),
        P::Horz(v) | P::Vert(v) => v.iter().any(|x| mentions(&x.1, k)),
        _ => false,
    }
}

/// params: number of writes, max width, max height
pub fn plain() {
    let n = sx::param(0) as usize;
    let (w, h) = (sx::param(1), sx::param(2));
    let mut win: ppp::pane::PlainText<St> = ppp::pane::PlainText::new(w as u16, h as u32);
    let size = win.size().ok().expect("plain text never fails");
    sx::check(size.width as u64 == w && size.height as u64 == h, "plain-text-size");
    // of one, two, three and four bytes
    let (narrow, full) = [('a', '\u{4E00}'), ('\u{3B1}', '\u{1F600}'), ('\u{1D4B0}', '\u{FF21}')][sx::pick(3)];
    // one row per line written; later writes replace earlier ones
    let mut rows: Vec<Vec<char>> = vec![];
    let k = 1 + sx::pick(n);
    for i in 0..k {
        let is_full = sx::pick(2) == 1;
        let ch = char::from_u32(if is_full { full } else { narrow } as u32 + i as u32).expect("a character");
        let row = sx::var(0, h - 1) as usize;
        let col = sx::var(0, w - 1 - is_full as u64) as usize;
        // no half of a full-width character is written over
        if let Some(r) = rows.get(row) {
            for c in col..col + 1 + is_full as usize {
                sx::assume(r.get(c).map_or(true, |x| *x != '\0'));
                sx::assume(r.get(c + 1).map_or(true, |x| *x != '\0'));
            }
        }
        while rows.len() <= row {
            rows.push(vec![]);
        }
        while rows[row].len() <= col + is_full as usize {
            rows[row].push(' ');
        }
        rows[row][col] = ch;
        if is_full {
            rows[row][col + 1] = '\0';
        }
        let r = win.display_char(
            ch,
            ppp::Pos {
                row: row as u32,
                col: col as u16,
            },
            &St::NONE,
            is_full,
        );
        sx::check(r.is_ok(), "plain-text-fails");
    }
    let mut want = String::new();
    for r in &rows {
        for c in r {
            if *c != '\0' {
                want.push(*c);
            }
        }
        want.push('\n');
    }
    let got = win.to_string();
    sx::show(|| format!("{got}expected\n{want}"));
    sx::check(got == want, "plain-text-content");
    let mut asked = vec![];
    for _ in 0..2 {
        let pos = ppp::Pos {
            row: sx::var(0, u32::MAX as u64) as u32,
            col: sx::var(0, 65535) as u16,
        };
        asked.push(pos);
        sx::check(win.set_focus(pos).is_ok(), "plain-text-fails");
    }
    let f = win.focus_points();
    sx::check(f.len() == 2, "plain-text-focus");
    let mut same = true;
    for (a, b) in f.iter().zip(&asked) {
        same = sx::and(same, sx::and(a.row == b.row, a.col == b.col));
    }
    sx::check(same, "plain-text-focus");
}
