//! Validation of notations.

use crate::all::ast::*;
use crate::all::cmp::*;
use crate::all::model::*;
use crate::all::sx;
use partial_pretty_printer::{FocusTarget, NotationError, PrintingError};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Flaw {
    LeftOutsideJoin,
    RightOutsideJoin,
    CheckLeftOutsideJoin,
    CheckRightOutsideJoin,
    NestedFold,
    NestedCount,
    CountZeroChild,
    CountOneChild(i64),
    CountZeroCheckChild,
    CountOneCheckChild(i64),
    TextInCount,
    TextInFold,
    TextAfterEol,
    TwoMarks,
}

#[derive(Clone, Copy)]
struct Ctx {
    /// 1 zero, 2 one, 3 many
    count: u8,
    /// 1 first, 2 join
    fold: u8,
}

/// What may have come before: can it end with an end-of-line, does it surely contain a mark?
#[derive(Clone, Copy)]
struct Before {
    eol: bool,
    mark: bool,
}

fn either(a: Before, b: Before) -> Before {
    Before {
        eol: a.eol || b.eol,
        mark: a.mark && b.mark,
    }
}

/// All flaws of a notation, wherever they are.
fn flaws(n: &N, b: Before, c: Ctx, out: &mut Vec<Flaw>) -> Before {
    const UNKNOWN: Before = Before { eol: false, mark: false };
    match n {
        N::Empty => b,
        N::Nl => Before { eol: false, ..b },
        N::Eol => Before { eol: true, ..b },
        N::Lit(_) | N::Text => {
            if matches!(n, N::Text) {
                if c.count != 0 {
                    out.push(Flaw::TextInCount);
                }
                if c.fold != 0 {
                    out.push(Flaw::TextInFold);
                }
            }
            if b.eol {
                out.push(Flaw::TextAfterEol);
            }
            Before { eol: false, ..b }
        }
        N::Flat(x) | N::Indent(_, _, x) | N::Style(_, x) => flaws(x, b, c, out),
        N::Cat(x, y) => {
            let b = flaws(x, b, c, out);
            flaws(y, b, c, out)
        }
        N::Choice(x, y) => {
            let p = flaws(x, b, c, out);
            let q = flaws(y, b, c, out);
            either(p, q)
        }
        N::Check(_, at, x, y) => {
            match at {
                At::Here => (),
                At::Child(i) => match c.count {
                    1 => out.push(Flaw::CountZeroCheckChild),
                    2 if norm_index(*i, 1).is_none() => out.push(Flaw::CountOneCheckChild(*i)),
                    _ => (),
                },
                At::Left if c.fold != 2 => out.push(Flaw::CheckLeftOutsideJoin),
                At::Right if c.fold != 2 => out.push(Flaw::CheckRightOutsideJoin),
                _ => (),
            }
            let p = flaws(x, b, c, out);
            let q = flaws(y, b, c, out);
            either(p, q)
        }
        N::Child(i) => {
            match c.count {
                1 => out.push(Flaw::CountZeroChild),
                2 if norm_index(*i, 1).is_none() => out.push(Flaw::CountOneChild(*i)),
                _ => (),
            }
            Before { eol: false, ..b }
        }
        N::Mark => {
            if b.mark {
                out.push(Flaw::TwoMarks);
            }
            Before { mark: true, ..b }
        }
        N::Count(z, o, m) => {
            if c.count != 0 {
                out.push(Flaw::NestedCount);
            }
            let p = flaws(z, b, Ctx { count: 1, ..c }, out);
            let q = flaws(o, b, Ctx { count: 2, ..c }, out);
            let r = flaws(m, b, Ctx { count: 3, ..c }, out);
            either(either(p, q), r)
        }
        N::Fold(f, j) => {
            if c.fold != 0 {
                out.push(Flaw::NestedFold);
            }
            flaws(f, UNKNOWN, Ctx { fold: 1, ..c }, out);
            flaws(j, UNKNOWN, Ctx { fold: 2, ..c }, out);
            UNKNOWN
        }
        N::Left | N::Right => {
            if c.fold != 2 {
                out.push(if matches!(n, N::Left) { Flaw::LeftOutsideJoin } else { Flaw::RightOutsideJoin });
            }
            UNKNOWN
        }
    }
}

fn is(e: &NotationError, f: Flaw) -> bool {
    use NotationError as E;
    match (e, f) {
        (E::LeftOutsideJoin, Flaw::LeftOutsideJoin)
        | (E::RightOutsideJoin, Flaw::RightOutsideJoin)
        | (E::CheckPosLeftOutsideJoin, Flaw::CheckLeftOutsideJoin)
        | (E::CheckPosRightOutsideJoin, Flaw::CheckRightOutsideJoin)
        | (E::NestedFold, Flaw::NestedFold)
        | (E::NestedCount, Flaw::NestedCount)
        | (E::CountZeroChild, Flaw::CountZeroChild)
        | (E::CountZeroCheckPosChild, Flaw::CountZeroCheckChild)
        | (E::TextInsideCount, Flaw::TextInCount)
        | (E::TextInsideFold, Flaw::TextInFold)
        | (E::TextAfterEol, Flaw::TextAfterEol)
        | (E::MultipleFocusMarks, Flaw::TwoMarks) => true,
        (E::CountOneChildIndex(i), Flaw::CountOneChild(j)) => *i as i64 == j,
        (E::CountOneCheckPosChildIndex(i), Flaw::CountOneCheckChild(j)) => *i as i64 == j,
        _ => false,
    }
}

fn number(e: &NotationError) -> u64 {
    use NotationError as E;
    match e {
        E::LeftOutsideJoin => 1,
        E::RightOutsideJoin => 2,
        E::CheckPosLeftOutsideJoin => 3,
        E::CheckPosRightOutsideJoin => 4,
        E::NestedFold => 5,
        E::NestedCount => 6,
        E::CountZeroChild => 7,
        E::CountOneChildIndex(_) => 8,
        E::CountZeroCheckPosChild => 9,
        E::CountOneCheckPosChildIndex(_) => 10,
        E::TextInsideCount => 11,
        E::TextInsideFold => 12,
        E::TextAfterEol => 13,
        E::MultipleFocusMarks => 14,
    }
}

/// Accepted exactly when there is no flaw; rejected for a flaw that is there.
/// params: size lo, size hi, vocabulary, 1: only well-scoped notations
pub fn validate() {
    let (lo, hi) = (sx::param(0) as usize, sx::param(1) as usize);
    let mut g = Gen::new(sx::param(2), 0, 0, 3);
    g.scoped = sx::param(3) == 1;
    g.sym_child = true;
    let size = lo + sx::pick(hi - lo + 1);
    let n = g.gen(size);
    judge(&n);
}

fn judge(n: &N) {
    sx::show(|| format!("{:?}", build(n)));
    let mut fs = Vec::new();
    flaws(n, Before { eol: false, mark: false }, Ctx { count: 0, fold: 0 }, &mut fs);
    sx::show(|| format!("flaws: {fs:?}"));
    match build(n).validate() {
        Ok(_) => {
            sx::cover(20);
            sx::check(fs.is_empty(), "flawed-notation-accepted");
        }
        Err(e) => {
            let k = number(&e);
            sx::cover(k as u32);
            sx::obs(k);
            sx::check(!fs.is_empty(), "flawless-notation-rejected");
            sx::check(fs.iter().fold(false, |a, f| sx::or(a, is(&e, *f))), "rejected-for-a-flaw-that-is-not-there");
        }
    }
}

/// An atom of a notation, for `nested`.
fn atom(g: &mut Gen, k: usize) -> N {
    let e = || Box::new(N::Empty);
    match k {
        0 => N::Lit(g.str()),
        1 => N::Nl,
        2 => N::Eol,
        3 => N::Text,
        4 => N::Mark,
        5 => N::Child(sx::var64() as i64),
        6 => N::Check(0, At::Child(sx::var64() as i64), e(), e()),
        7 => N::Left,
        8 => N::Right,
        9 => N::Check(0, At::Left, e(), e()),
        10 => N::Check(0, At::Right, e(), e()),
        11 => N::Count(e(), e(), e()),
        12 => N::Fold(e(), e()),
        _ => N::Empty,
    }
}
/// A notation around a notation, for `nested`.
fn around(g: &mut Gen, k: usize, x: N) -> N {
    let e = || Box::new(N::Empty);
    let b = Box::new(x);
    match k {
        0 => N::Flat(b),
        1 => N::Indent(g.str(), if sx::pick(2) == 1 { Some(1) } else { None }, b),
        2 => N::Style(0, b),
        3 => cat(*b, N::Lit(g.str())),
        4 => cat(N::Lit(g.str()), *b),
        5 => cat(*b, N::Eol),
        6 => cat(N::Eol, *b),
        7 => cat(*b, N::Nl),
        8 => cat(N::Nl, *b),
        9 => N::Choice(b, e()),
        10 => N::Choice(e(), b),
        11 => N::Check(0, At::Here, b, e()),
        12 => N::Check(0, At::Here, e(), b),
        13 => N::Count(b, e(), e()),
        14 => N::Count(e(), b, e()),
        15 => N::Count(e(), e(), b),
        16 => N::Fold(b, e()),
        17 => N::Fold(e(), b),
        18 => cat(*b, N::Mark),
        19 => cat(N::Mark, *b),
        20 => cat(*b, N::Child(0)),
        21 => N::Choice(Box::new(N::Mark), b),
        22 => N::Choice(b, Box::new(N::Mark)),
        _ => N::Choice(Box::new(N::Eol), b),
    }
}
const ATOMS: usize = 14;
const AROUND: usize = 24;

/// The same, for notations in notations in notations.
/// params: depth, number of atoms one after the other in the middle
pub fn nested() {
    let mut g = Gen::new(0, 0, 0, 3);
    let depth = sx::param(0) as usize;
    let n = sx::param(1) as usize;
    let first = atom_at(&mut g);
    let mut x = first;
    for _ in 1..n {
        let y = atom_at(&mut g);
        x = cat(x, y);
    }
    for _ in 0..depth {
        let k = sx::pick(AROUND);
        x = around(&mut g, k, x);
    }
    judge(&x);
}
fn atom_at(g: &mut Gen) -> N {
    let k = sx::pick(ATOMS);
    atom(g, k)
}

/// What a valid notation promises: printed on a node that it matches, there is never text after an
/// end-of-line from that notation itself, and no internal error.
/// params: size lo, size hi, vocabulary
pub fn promise() {
    let (lo, hi) = (sx::param(0) as usize, sx::param(1) as usize);
    let mut g = Gen::new(sx::param(2), 0, 0, 6);
    let size = lo + sx::pick(hi - lo + 1);
    let n = g.gen(size);
    let mut node = Node::new(n);
    if sx::param(2) & voc::TEXT != 0 {
        node.text = Some(g.str());
    }
    node.cond = [sx::boolean(), false];
    let nodes = [node];
    let doc = match make_doc(&nodes, true) {
        Ok(d) => d,
        Err(_) => return sx::assume(false),
    };
    let width = sx::var(0, 65535);
    show_case(&nodes, width);
    let bad = |e: &Err| {
        obs_err(e);
        sx::check(!matches!(e, PrintingError::TextAfterEndOfLine), "valid-notation-prints-text-after-end-of-line");
        sx::check(false, "valid-notation-fails");
    };
    for target in [FocusTarget::Start, FocusTarget::End] {
        match print(&doc, width, &[], target, None) {
            Ok(p) => {
                sx::cover(1);
                if let Some((_, _, e)) = &p.err {
                    bad(e);
                }
            }
            Err(e) => bad(&e),
        }
    }
}
