//! Constructors and operators of notations; the example style and tree.

use crate::all::ast::*;
use crate::all::sx;
use partial_pretty_printer as ppp;
use ppp::doc_examples::tree::{Contents, Tree, TreeCondition, TreeNotation};
use ppp::doc_examples::{BasicStyle, Color};
use ppp::notation_constructors as nc;
use ppp::{CheckPos, Notation, PrettyDoc, Style};
use std::cell::Cell;

// ------------------------------------------------------------------ constructors

/// The notation made by hand, and the same by constructors and operators.
struct Pair(Real, Real);

/// (Strings that are copied have a concrete length.)
fn copied(t: &Option<Cell<usize>>) -> String {
    let n = if t.is_some() { 1 } else { sx::pick(4) };
    if n == 3 {
        return ["\u{e9}", " \u{4E00}", "\u{1F600}\u{300}", "\t\u{a0}\n"][sx::pick(4)].to_owned();
    }
    (0..n).map(|_| sx::var(0, 127) as u8 as char).collect()
}

/// With `t`, leaves take turns instead of being picked, and there is less variation otherwise.
fn by_hand_and_by_constructor(left: &mut usize, t: &Option<Cell<usize>>) -> Pair {
    let leaf = *left == 0;
    let bx = Box::new;
    let k = match t {
        None => sx::pick(if leaf { 9 } else { 20 }),
        Some(t) => {
            let k = if leaf { 0 } else { sx::pick(12) };
            if k == 0 {
                t.set(t.get() + 1);
                [6, 2, 1, 0, 4, 3][t.get() % 6]
            } else {
                8 + k
            }
        }
    };
    if !leaf && (t.is_none() || k > 8) {
        *left -= 1;
    }
    match k {
        0 => Pair(Notation::Newline, nc::nl()),
        1 => {
            let s = copied(t);
            Pair(Notation::Literal(s.clone()), nc::lit(&s))
        }
        2 => {
            let i = sx::var64() as isize;
            Pair(Notation::Child(i), nc::child(i))
        }
        3 => Pair(Notation::Empty, nc::empty()),
        4 => Pair(Notation::EndOfLine, nc::eol()),
        5 => Pair(Notation::FocusMark, nc::mark()),
        6 => Pair(Notation::Text, nc::text()),
        7 => Pair(Notation::Left, nc::left()),
        8 => Pair(Notation::Right, nc::right()),
        9 => {
            let a = by_hand_and_by_constructor(left, t);
            let b = by_hand_and_by_constructor(left, t);
            Pair(Notation::Concat(bx(a.0), bx(b.0)), a.1 + b.1)
        }
        10 => {
            let a = by_hand_and_by_constructor(left, t);
            let b = by_hand_and_by_constructor(left, t);
            Pair(Notation::Choice(bx(a.0), bx(b.0)), a.1 | b.1)
        }
        11 => {
            let a = by_hand_and_by_constructor(left, t);
            let b = by_hand_and_by_constructor(left, t);
            let nl = bx(Notation::Newline);
            Pair(Notation::Concat(bx(Notation::Concat(bx(a.0), nl)), bx(b.0)), a.1 ^ b.1)
        }
        12 => {
            let a = by_hand_and_by_constructor(left, t);
            let w = if t.is_some() { 2 } else { sx::var(0, sx::param(1)) };
            let s = sx::sym_string(b' ', w, sx::param(1));
            let x = Notation::Concat(bx(Notation::Newline), bx(a.0));
            Pair(Notation::Indent(s, None, bx(x)), w as u16 >> a.1)
        }
        13 => {
            let a = by_hand_and_by_constructor(left, t);
            Pair(Notation::Flat(bx(a.0)), nc::flat(a.1))
        }
        14 => {
            let a = by_hand_and_by_constructor(left, t);
            let l = sx::var(0, 255) as u8;
            Pair(Notation::Style(l, bx(a.0)), nc::style(l, a.1))
        }
        15 => {
            let a = by_hand_and_by_constructor(left, t);
            let l = if t.is_some() || sx::pick(2) == 1 { Some(sx::var(0, 255) as u8) } else { None };
            let s = copied(t);
            Pair(Notation::Indent(s.clone(), l, bx(a.0)), nc::indent(&s, l, a.1))
        }
        16 => {
            let c = sx::var(0, 255) as u8;
            let i = sx::var64() as isize;
            let at = |k: usize| match k {
                0 => CheckPos::Here,
                1 => CheckPos::Child(i),
                2 => CheckPos::LeftChild,
                _ => CheckPos::RightChild,
            };
            let k = if t.is_some() { 1 } else { sx::pick(4) };
            let a = by_hand_and_by_constructor(left, t);
            let b = by_hand_and_by_constructor(left, t);
            Pair(Notation::Check(c, at(k), bx(a.0), bx(b.0)), nc::check(c, at(k), a.1, b.1))
        }
        17 => {
            let (zero, one, many) = (by_hand_and_by_constructor(left, t), by_hand_and_by_constructor(left, t), by_hand_and_by_constructor(left, t));
            Pair(
                Notation::Count { zero: bx(zero.0), one: bx(one.0), many: bx(many.0) },
                nc::count(nc::Count { zero: zero.1, one: one.1, many: many.1 }),
            )
        }
        18 => {
            let (first, join) = (by_hand_and_by_constructor(left, t), by_hand_and_by_constructor(left, t));
            Pair(
                Notation::Fold { first: bx(first.0), join: bx(join.0) },
                nc::fold(nc::Fold { first: first.1, join: join.1 }),
            )
        }
        _ => {
            let a = by_hand_and_by_constructor(left, t);
            Pair(Notation::Concat(bx(Notation::Empty), bx(a.0)), nc::empty() + a.1)
        }
    }
}

fn same_str(a: &str, b: &str) {
    sx::check(a.len() == b.len(), "constructed-string");
    let eq = a.bytes().zip(b.bytes()).fold(true, |e, (x, y)| sx::and(e, x == y));
    sx::check(eq, "constructed-string");
}
pub fn same_notation(a: &Real, b: &Real) {
    use Notation as N;
    match (a, b) {
        (N::Empty, N::Empty)
        | (N::Newline, N::Newline)
        | (N::EndOfLine, N::EndOfLine)
        | (N::FocusMark, N::FocusMark)
        | (N::Text, N::Text)
        | (N::Left, N::Left)
        | (N::Right, N::Right) => (),
        (N::Literal(x), N::Literal(y)) => same_str(x, y),
        (N::Child(x), N::Child(y)) => sx::check(x == y, "constructed-child-index"),
        (N::Flat(x), N::Flat(y)) => same_notation(x, y),
        (N::Style(l, x), N::Style(k, y)) => {
            sx::check(l == k, "constructed-label");
            same_notation(x, y)
        }
        (N::Indent(s, l, x), N::Indent(t, k, y)) => {
            same_str(s, t);
            let same = match (l, k) {
                (None, None) => true,
                (Some(l), Some(k)) => l == k,
                _ => false,
            };
            sx::check(same, "constructed-label");
            same_notation(x, y)
        }
        (N::Concat(x, x2), N::Concat(y, y2)) | (N::Choice(x, x2), N::Choice(y, y2)) => {
            same_notation(x, y);
            same_notation(x2, y2)
        }
        (N::Check(c, p, x, x2), N::Check(d, q, y, y2)) => {
            let at = match (p, q) {
                (CheckPos::Here, CheckPos::Here) | (CheckPos::LeftChild, CheckPos::LeftChild) | (CheckPos::RightChild, CheckPos::RightChild) => true,
                (CheckPos::Child(i), CheckPos::Child(j)) => i == j,
                _ => false,
            };
            sx::check(at && c == d, "constructed-check");
            same_notation(x, y);
            same_notation(x2, y2)
        }
        (N::Count { zero, one, many }, N::Count { zero: z, one: o, many: m }) => {
            same_notation(zero, z);
            same_notation(one, o);
            same_notation(many, m)
        }
        (N::Fold { first, join }, N::Fold { first: f, join: j }) => {
            same_notation(first, f);
            same_notation(join, j)
        }
        _ => sx::check(false, "constructed-notation"),
    }
}

/// params: number of constructors with arguments, largest nesting width, 1: leaves take turns
pub fn constructors() {
    let mut left = sx::param(0) as usize;
    let turns = if sx::param(2) == 1 { Some(Cell::new(0)) } else { None };
    let p = by_hand_and_by_constructor(&mut left, &turns);
    sx::assume(left == 0);
    sx::cover(1);
    same_notation(&p.0, &p.1);
}

// ------------------------------------------------------------------ styles

fn color(i: usize) -> Color {
    use Color::*;
    [White, Black, Red, Green, Yellow, Blue, Magenta, Cyan][i]
}
const NAMES: [&str; 8] = ["white", "black", "red", "green", "yellow", "blue", "magenta", "cyan"];
fn code(c: Color) -> u64 {
    match c {
        Color::White => 0,
        Color::Black => 1,
        Color::Red => 2,
        Color::Green => 3,
        Color::Yellow => 4,
        Color::Blue => 5,
        Color::Magenta => 6,
        Color::Cyan => 7,
    }
}

/// params: length of the label
pub fn basic_style() {
    let (a, b) = (sx::var(0, 7) as usize, sx::var(0, 7) as usize);
    let (p, q) = (sx::boolean(), sx::boolean());
    let mk = |c, bold| {
        let s = BasicStyle::new().color(color(c));
        BasicStyle { bold, ..s }
    };
    let (x, y) = (mk(a, p), mk(b, q));
    sx::check(code(x.color) == a as u64 && x.bold == p, "style-builder");
    sx::check(code(x.bold().color(color(b)).color) == b as u64 && x.bold().color(color(b)).bold, "style-builder");
    let z = BasicStyle::combine(&x, &y);
    sx::check(code(z.color) == b as u64, "combined-colour");
    sx::check(z.bold == (p || q), "combined-bold");
    let (x, y) = (mk(a, false).bold(), mk(b, false));
    sx::check(code(x.color) == a as u64 && x.bold && !y.bold, "style-builder");
    let d = BasicStyle::default();
    sx::check(code(d.color) == 0 && !d.bold, "default-style");
}

/// Every label of that length. params: length
pub fn style_label() {
    let n = sx::param(0) as usize;
    let v: Vec<u8> = (0..n).map(|_| sx::var(0, 127) as u8).collect();
    let s: &'static str = Box::leak(unsafe { String::from_utf8_unchecked(v) }.into_boxed_str());
    let got = BasicStyle::from(s);
    let mut want = (0, false);
    for (i, name) in NAMES.iter().enumerate() {
        for bold in [false, true] {
            let pre = if bold { "bold_" } else { "" };
            if n == pre.len() + name.len() {
                let eq = |t: &str, at: usize| t.bytes().enumerate().fold(true, |e, (k, c)| sx::and(e, s.as_bytes()[at + k] == c));
                if sx::and(eq(pre, 0), eq(name, pre.len())) {
                    want = (i as u64, bold);
                    sx::cover(1);
                }
            }
        }
    }
    sx::cover(2);
    sx::obs(code(got.color) * 2 + got.bold as u64);
    sx::check(code(got.color) == want.0, "label-colour");
    sx::check(got.bold == want.1, "label-bold");
}

// ------------------------------------------------------------------ trees

type T = Tree<BasicStyle>;

/// What a tree was made from.
struct Made {
    id: u32,
    text: Option<(u64, &'static str)>,
    kids: Vec<Made>,
    comment: bool,
    style: (u64, bool),
    /// What the label `a` stands for.
    label: (u64, bool),
}

fn any_style() -> (BasicStyle, (u64, bool)) {
    let c = sx::var(0, 7);
    let bold = sx::boolean();
    (BasicStyle { color: color(c as usize), bold }, (c, bold))
}

fn make(note: &'static TreeNotation, next: &mut u32, kids: &mut usize, depth: usize) -> (T, Made) {
    let (mut t, text, below) = if depth > 0 && sx::pick(2) == 1 {
        let n = sx::pick(*kids + 1);
        *kids -= n;
        let (a, b): (Vec<T>, Vec<Made>) = (0..n).map(|_| make(note, next, kids, depth - 1)).unzip();
        (T::new_branch(note, a), None, b)
    } else {
        let k = if depth == sx::param(1) as usize { sx::pick(12) } else { 0 };
        let s = ["x\r", " x\t", "a\n", "\r\n", "\u{e9} \u{4E00}\u{3000}", "\0x\0"];
        if k < 6 {
            let n = sx::var(0, 3000);
            let ch = [b'a', b' ', b'\t', 0, b'\r', b'\n'][k];
            (T::new_text(note, sx::sym_string(ch, n, 3000)), Some((n, "")), vec![])
        } else {
            let s = s[k - 6];
            (T::new_text(note, s.to_owned()), Some((s.len() as u64, s)), vec![])
        }
    };
    let mut m = Made { id: *next, text, kids: below, comment: false, style: (0, false), label: (0, false) };
    *next += 1;
    m.comment = sx::boolean();
    t.is_comment = m.comment;
    (t, m)
}

fn ok<X>(r: Result<X, std::convert::Infallible>) -> X {
    match r {
        Ok(x) => x,
        Err(e) => match e {},
    }
}

fn style_is(s: BasicStyle, want: (u64, bool), id: &'static str) {
    sx::check(sx::and(code(s.color) == want.0, s.bold == want.1), id);
}

fn tree_is(t: &T, m: &Made, needs_separator: bool, note: &'static TreeNotation) {
    sx::check(t.id == m.id && ok(t.id()) == m.id, "tree-id");
    sx::check(std::ptr::eq(ok::<&TreeNotation>(t.notation()), note), "tree-notation");
    sx::check(ok(t.condition(&TreeCondition::IsComment)) == m.comment, "tree-comment");
    sx::check(ok(t.condition(&TreeCondition::NeedsSeparator)) == needs_separator, "tree-separator");
    style_is(ok(t.node_style()), m.style, "tree-style");
    style_is(ok(t.lookup_style("a")), m.label, "tree-label");
    style_is(ok(t.lookup_style("bold_red")), (2, true), "tree-label");
    let empty = ok(t.condition(&TreeCondition::IsEmptyText));
    match m.text {
        Some((n, s)) => {
            sx::check(ok(t.num_children()).is_none(), "tree-text");
            sx::check(ok(t.unwrap_text()).len() as u64 == n, "tree-text");
            sx::check(empty == (n == 0), "tree-empty-text");
            if !s.is_empty() {
                sx::check(ok(t.unwrap_text()) == s, "tree-text");
            }
        }
        None => {
            sx::check(!empty, "tree-empty-text");
            let n = m.kids.len();
            sx::check(ok(t.num_children()) == Some(n), "tree-children");
            if let Contents::Children(c) = &t.contents {
                sx::check(c.len() == n, "tree-children");
            }
            for (i, k) in m.kids.iter().enumerate() {
                let kid = ok(t.unwrap_child(i));
                let later = m.kids[i + 1..].iter().fold(false, |a, x| sx::or(a, !x.comment));
                tree_is(kid, k, sx::and(!k.comment, later), note);
                if i + 1 == n {
                    sx::cover(1);
                    sx::check(ok(t.unwrap_last_child()).id == k.id, "tree-last-child");
                } else {
                    let next = ok(t.unwrap_child(i + 1));
                    sx::check(ok(next.unwrap_prev_sibling(t, i)).id == k.id, "tree-prev-sibling");
                }
            }
        }
    }
}

/// params: number of nodes below the root, depth
pub fn example_tree() {
    let note: &'static TreeNotation = match nc::empty().validate() {
        Ok(n) => Box::leak(Box::new(n)),
        Err(_) => return sx::check(false, "empty-notation-is-invalid"),
    };
    T::reset_id();
    let mut next = 0;
    let mut kids = sx::param(0) as usize;
    let (mut t, mut m) = make(note, &mut next, &mut kids, sx::param(1) as usize);
    tree_is(&t, &m, false, note);
    // what is said about the node after it was made
    if sx::pick(2) == 1 {
        t = t.into_comment();
        m.comment = true;
    }
    let way = sx::pick(5);
    if way & 1 == 1 {
        let (s, want) = any_style();
        t = t.with_style(s);
        m.style = want;
    }
    if way > 1 {
        let (s, want) = any_style();
        if way == 4 {
            t = t.with_style_override("b", any_style().0);
        }
        t = t.with_style_override("a", s);
        m.label = want;
        if way == 4 {
            t = t.with_style_override("c", any_style().0);
        }
    }
    tree_is(&t, &m, false, note);
    // the node in another branch, before or after another one
    let other = T::new_text(note, String::new());
    let first = sx::pick(2) == 0;
    let v = if first { vec![t, other] } else { vec![other, t] };
    let outer = T::new_branch(note, v);
    sx::check(outer.id == next + 1, "tree-id");
    if let Contents::Children(c) = &outer.contents {
        let (t, other) = if first { (&c[0], &c[1]) } else { (&c[1], &c[0]) };
        tree_is(t, &m, sx::and(first, !m.comment), note);
        sx::check(other.id == next, "tree-id");
        sx::check(other.needs_separator == sx::and(!first, !m.comment), "tree-separator");
    }
    // and in yet another one, as the only child
    if let Contents::Children(mut c) = outer.contents {
        let t = if first { c.remove(0) } else { c.remove(1) };
        let alone = T::new_branch(note, vec![t]);
        if let Contents::Children(c) = &alone.contents {
            tree_is(&c[0], &m, false, note);
        }
    }
    T::reset_id();
    sx::check(T::new_text(note, String::new()).id == 0, "tree-reset");
}
