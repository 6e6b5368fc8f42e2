//! Documents made from templates: larger than what can be enumerated constructor by constructor,
//! with the combinations that notations are commonly written with.

use crate::all::ast::*;
use crate::all::h_doc::{flag, Cfg};
use crate::all::sx;

/// What a run's parameters mean for templates.
struct T {
    wraps: u64,
    bodies: u64,
    leaves: u64,
    flags: u64,
    g: Gen,
    nodes: Vec<Node>,
    budget: u64,
}

fn lit_s(s: Str) -> N {
    N::Lit(s)
}
fn bx(n: N) -> Box<N> {
    Box::new(n)
}
fn style(l: u8, n: N) -> N {
    N::Style(l, bx(n))
}

impl T {
    fn lit(&mut self) -> N {
        lit_s(self.g.str())
    }
    fn label(&mut self) -> u8 {
        self.g.label()
    }
    fn indent(&mut self, n: N) -> N {
        let s = self.g.str();
        let l = if self.flags & flag::INDENT_LABEL != 0 { Some(self.label()) } else { None };
        N::Indent(s, l, bx(n))
    }
    fn check(&self, at: At, a: N, b: N) -> N {
        N::Check(0, at, bx(a), bx(b))
    }
    /// The first alternative, or one of the others, of which there is only a limited number in a
    /// document.
    fn one_of(&mut self, mask: u64) -> usize {
        let v: Vec<usize> = (0..64).filter(|i| mask >> i & 1 != 0).collect();
        let k = if self.budget == 0 { 0 } else { sx::pick(v.len()) };
        if k > 0 {
            self.budget -= 1;
        }
        v[k]
    }
    /// Node `b` is made like node `a`: let it share its notations.
    fn share(&mut self, a: usize, b: usize) {
        self.nodes[b].n = self.nodes[a].n.clone();
        self.nodes[b].like = Some(a);
        if let (true, Some(t)) = (self.flags & flag::FOREIGN != 0, self.nodes[a].text) {
            self.nodes[b].text = Some(respelled(t, b as u8, self.g.lo == 0));
        }
        for i in 0..self.nodes[b].kids.len() {
            let (x, y) = (self.nodes[a].kids[i], self.nodes[b].kids[i]);
            self.share(x, y);
        }
    }
    fn node(&mut self, n: N, kids: &[usize]) -> usize {
        let id = self.nodes.len();
        self.nodes.push(Node::new(n).kids(kids));
        id
    }

    /// A notation around the body. `x` makes the body.
    fn wrap(&mut self, k: usize, x: &mut dyn FnMut(&mut T) -> N) -> N {
        match k {
            0 => x(self),
            1 => N::Flat(bx(x(self))),
            2 => {
                let l = self.label();
                style(l, x(self))
            }
            3 => {
                let b = x(self);
                self.indent(cat(N::Nl, b))
            }
            4 => {
                let b = x(self);
                let i = self.indent(cat(N::Nl, b));
                self.indent(i)
            }
            5 => {
                let (z, o) = (self.lit(), self.lit());
                let m = x(self);
                N::Count(bx(z), bx(cat(o, N::Child(0))), bx(m))
            }
            6 => {
                let a = x(self);
                let b = x(self);
                let b = self.indent(cat(N::Nl, b));
                choice(N::Flat(bx(a)), b)
            }
            7 => {
                let a = self.lit();
                let b = x(self);
                let c = self.lit();
                seq(vec![a, b, c])
            }
            8 => {
                let b = x(self);
                let (l, r) = (self.lit(), self.lit());
                cat(b, choice(l, cat(N::Nl, r)))
            }
            9 => {
                let b = x(self);
                let l = self.lit();
                seq(vec![b, N::Eol, N::Nl, l])
            }
            10 => {
                let (z, o) = (self.lit(), self.lit());
                let m = x(self);
                let c = N::Count(bx(z), bx(cat(o, N::Child(0))), bx(m));
                N::Flat(bx(self.indent(c)))
            }
            11 => {
                let (a, b) = (self.label(), self.label());
                let (l, r) = (self.lit(), self.lit());
                let m = x(self);
                style(a, seq(vec![l, style(b, m), r]))
            }
            12 => {
                let l = self.lit();
                let b = x(self);
                cat(choice(l, N::Nl), b)
            }
            13 => {
                // the indentation ends with the notation
                let b = x(self);
                let i = self.indent(b);
                let l = self.lit();
                seq(vec![i, N::Nl, l])
            }
            14 => {
                // the style ends with the notation
                let l = self.label();
                let b = x(self);
                let r = self.lit();
                cat(style(l, b), r)
            }
            15 => {
                // the flatness ends with the notation
                let b = x(self);
                let (l, r) = (self.lit(), self.lit());
                cat(N::Flat(bx(b)), choice(l, cat(N::Nl, r)))
            }
            16 => {
                let a = x(self);
                let b = x(self);
                self.check(At::Here, a, cat(N::Nl, b))
            }
            17 => {
                let a = x(self);
                let b = x(self);
                self.check(At::Child(-1), a, cat(N::Nl, b))
            }
            18 => cat(N::Mark, x(self)),
            19 => cat(x(self), N::Mark),
            20 => {
                let (l, r) = (self.lit(), self.lit());
                let b = x(self);
                cat(choice(l, cat(N::Nl, r)), N::Flat(bx(b)))
            }
            21 => {
                // text on both sides of an end of line
                let (l, r) = (self.lit(), self.lit());
                let b = x(self);
                seq(vec![l, N::Eol, N::Nl, b, N::Nl, r])
            }
            22 => {
                let a = x(self);
                let b = x(self);
                let (l, r) = (self.lit(), self.lit());
                cat(choice(cat(l, a), seq(vec![r, N::Nl, b])), N::Empty)
            }
            23 => {
                let a = x(self);
                let i = self.indent(cat(N::Nl, a));
                let l = self.lit();
                let r = self.lit();
                seq(vec![l, i, N::Nl, r])
            }
            24 => {
                // three nested choices
                let a = x(self);
                let b = x(self);
                let c = x(self);
                let l = self.lit();
                let b = cat(N::Nl, b);
                let c = seq(vec![N::Nl, l, N::Nl, c]);
                choice(a, choice(b, c))
            }
            27 => {
                let a = x(self);
                let b = x(self);
                let (l, r) = (self.lit(), self.lit());
                choice(cat(l, a), cat(r, b))
            }
            28 => {
                let (l, r) = (self.lit(), self.lit());
                let b = x(self);
                seq(vec![choice(l, r), b])
            }
            29 => {
                let (l, r) = (self.lit(), self.lit());
                let b = x(self);
                seq(vec![b, choice(l, r)])
            }
            26 => {
                // what follows is on the same line as an end of line
                let (l, r) = (self.lit(), self.lit());
                let b = x(self);
                seq(vec![choice(l, cat(N::Nl, r)), N::Eol, b])
            }
            _ => {
                // a choice whose second option is tried on a line of its own
                let a = x(self);
                let b = x(self);
                let (l, r) = (self.lit(), self.lit());
                choice(cat(l, N::Flat(bx(a))), self.check(At::Here, cat(N::Nl, b), r))
            }
        }
    }

    /// First and join of a fold.
    fn fold(&mut self) -> N {
        let f = self.one_of(self.bodies >> 32);
        let j = self.one_of(self.bodies & 0xffff_ffff);
        let first = match f {
            0 => N::Child(0),
            1 => {
                let l = self.lit();
                cat(l, N::Child(0))
            }
            2 => {
                let l = self.label();
                style(l, N::Child(0))
            }
            3 => {
                let l = self.lit();
                cat(N::Child(0), choice(l, N::Nl))
            }
            4 => N::Flat(bx(N::Child(0))),
            5 => self.indent(cat(N::Nl, N::Child(0))),
            6 => {
                let (l, r) = (self.lit(), self.lit());
                self.check(At::Child(0), cat(l, N::Child(0)), seq(vec![N::Nl, r, N::Child(0)]))
            }
            7 => {
                let (l, r) = (self.lit(), self.lit());
                choice(cat(l, N::Child(0)), seq(vec![N::Nl, r, N::Child(0)]))
            }
            _ => self.lit(),
        };
        let (l, r) = (N::Left, N::Right);
        let join = match j {
            0 => cat(l, r),
            1 => seq(vec![l, self.lit(), r]),
            2 => seq(vec![l, self.lit(), N::Flat(bx(r))]),
            3 => seq(vec![l, choice(self.lit(), N::Nl), r]),
            4 => {
                let a = self.lit();
                seq(vec![l, self.check(At::Left, a, N::Nl), r])
            }
            5 => {
                let a = self.lit();
                seq(vec![l, self.check(At::Right, a, N::Nl), r])
            }
            6 => {
                let s = self.label();
                cat(style(s, l), r)
            }
            7 => {
                let s = self.label();
                cat(l, style(s, r))
            }
            8 => seq(vec![l, N::Nl, r]),
            9 => seq(vec![N::Flat(bx(l)), choice(self.lit(), N::Nl), r]),
            10 => {
                let i = self.indent(cat(N::Nl, r));
                cat(l, i)
            }
            11 => {
                let a = self.lit();
                choice(
                    seq(vec![N::Flat(bx(l)), a, N::Flat(bx(r))]),
                    seq(vec![N::Left, N::Nl, N::Right]),
                )
            }
            12 => seq(vec![r, self.lit(), l]),
            13 => seq(vec![l, N::Eol, N::Nl, r]),
            14 => {
                let a = self.lit();
                let x = seq(vec![l, a, r]);
                self.check(At::Here, x, seq(vec![N::Left, N::Nl, N::Right]))
            }
            15 => r,
            16 => l,
            17 => {
                let i = self.indent(l);
                seq(vec![i, N::Nl, r])
            }
            18 => {
                let (a, b) = (self.lit(), self.lit());
                seq(vec![l, choice(a, cat(N::Nl, b)), r])
            }
            19 => {
                // only in lines of their own
                let a = self.lit();
                let s = self.label();
                seq(vec![l, N::Nl, style(s, cat(a, r))])
            }
            20 => {
                let a = self.lit();
                let b = self.check(At::Right, cat(N::Nl, N::Nl), N::Nl);
                seq(vec![l, a, self.check(At::Left, b, choice(N::Empty, N::Nl)), r])
            }
            21 => {
                let a = self.lit();
                let b = self.lit();
                let x = cat(a, N::Right);
                let y = seq(vec![N::Nl, b, N::Right]);
                cat(l, choice(x, y))
            }
            _ => {
                let (a, b) = (self.lit(), self.lit());
                seq(vec![a, l, b, r])
            }
        };
        N::Fold(bx(first), bx(join))
    }

    /// The children one after another.
    fn row(&mut self, n: usize) -> N {
        let j = self.one_of(self.bodies & 0xffff_ffff);
        let negative = self.bodies >> 32 & 1 != 0 && sx::pick(2) == 1;
        let mut v = Vec::new();
        for i in 0..n {
            if i > 0 {
                match j {
                    0 => {}
                    1 => v.push(self.lit()),
                    2 => v.push(N::Nl),
                    3 => {
                        let a = self.lit();
                        v.push(choice(a, N::Nl))
                    }
                    4 => {
                        v.push(N::Eol);
                        v.push(N::Nl)
                    }
                    5 => {
                        let (a, b) = (self.lit(), self.lit());
                        v.push(choice(a, cat(N::Nl, b)))
                    }
                    6 => {
                        let a = self.lit();
                        v.push(self.check(At::Child(i as i64 - 1), a, N::Nl))
                    }
                    7 => {
                        let a = self.lit();
                        let i = self.indent(N::Nl);
                        v.push(choice(a, i))
                    }
                    _ => {
                        let a = self.lit();
                        v.push(a);
                        v.push(N::Nl)
                    }
                }
            }
            v.push(N::Child(if negative { i as i64 - n as i64 } else { i as i64 }));
        }
        if j == 8 {
            // associated to the left
            let mut it = v.into_iter();
            let mut acc = it.next().unwrap_or(N::Empty);
            for x in it {
                acc = cat(acc, x);
            }
            return acc;
        }
        seq(v)
    }

    /// A child.
    fn leaf(&mut self, k: usize) -> usize {
        let n = match k {
            0 => self.lit(),
            1 => N::Text,
            2 => {
                let (a, b) = (self.lit(), self.lit());
                choice(a, b)
            }
            3 => {
                let (a, b) = (self.lit(), self.lit());
                seq(vec![a, N::Nl, b])
            }
            4 => {
                let (a, b) = (self.lit(), self.lit());
                seq(vec![a, N::Mark, b])
            }
            5 => {
                let (a, b) = (self.lit(), self.lit());
                seq(vec![a, N::Text, N::Mark, b])
            }
            6 => {
                let (a, b) = (self.lit(), self.lit());
                choice(a, cat(N::Nl, b))
            }
            23 => {
                let a = self.lit();
                choice(N::Empty, cat(N::Nl, a))
            }
            24 => {
                let (a, b) = (self.lit(), self.lit());
                choice(cat(a, N::Eol), cat(N::Nl, b))
            }
            7 => cat(self.lit(), N::Eol),
            9 => N::Empty,
            11 => {
                let a = self.lit();
                self.check(At::Here, a, N::Nl)
            }
            12 => {
                let (a, b) = (self.lit(), self.lit());
                N::Flat(bx(seq(vec![a, choice(b, N::Nl)])))
            }
            13 => {
                let l = self.label();
                let (a, b) = (self.lit(), self.lit());
                cat(style(l, a), b)
            }
            14 => {
                let (a, b) = (self.lit(), self.lit());
                let i = self.indent(cat(N::Nl, b));
                cat(a, i)
            }
            15 => seq(vec![N::Nl, N::Text, N::Nl]),
            16 => {
                let (a, b) = (self.lit(), self.lit());
                seq(vec![a, N::Nl, N::Mark, N::Nl, b])
            }
            17 => {
                let l = self.label();
                style(l, N::Text)
            }
            18 => {
                let (a, b) = (self.lit(), self.lit());
                seq(vec![a, N::Eol, N::Nl, b, N::Eol])
            }
            8 | 10 | 19 | 20 => {
                // a node with children of its own
                let id = self.node(N::Empty, &[]);
                let a = self.leaf(if k == 20 { 4 } else { 1 });
                let l = self.lit();
                if k == 8 || k == 20 {
                    self.nodes[id].n = cat(l, N::Child(0));
                    self.nodes[id].kids = vec![a];
                } else if k == 10 {
                    let b = self.leaf(0);
                    self.nodes[id].n = N::Fold(bx(N::Child(0)), bx(seq(vec![N::Left, l, N::Right])));
                    self.nodes[id].kids = vec![a, b];
                } else {
                    let b = self.leaf(0);
                    let x = |l: N| seq(vec![N::Child(0), l, N::Child(1)]);
                    let m = self.indent(cat(N::Nl, x(N::Nl)));
                    self.nodes[id].n = choice(N::Flat(bx(x(l))), m);
                    self.nodes[id].kids = vec![a, b];
                }
                return id;
            }
            21 => N::Mark,
            _ => {
                // a text of several lines
                let a = self.lit();
                let (b, c) = (self.lit(), self.lit());
                seq(vec![a, N::Nl, b, N::Nl, N::Text, c])
            }
        };
        let text = has_text(&n);
        let id = self.node(n, &[]);
        if text {
            let s = self.g.str();
            self.nodes[id].text = Some(s);
        }
        id
    }
}
pub fn has_text(x: &N) -> bool {
    match x {
        N::Text => true,
        N::Flat(x) | N::Indent(_, _, x) | N::Style(_, x) => has_text(x),
        N::Cat(x, y) | N::Choice(x, y) | N::Check(_, _, x, y) | N::Fold(x, y) => has_text(x) || has_text(y),
        N::Count(x, y, z) => has_text(x) || has_text(y) || has_text(z),
        _ => false,
    }
}

/// Families: 1 a fold over the children, 2 the children one after another, 3 a chain of nodes.
pub fn gen(c: &Cfg) -> Vec<Node> {
    let (klo, khi) = (c.total / 1000, c.total % 1000);
    let k = klo + sx::pick(khi - klo + 1);
    let mut g = Gen::new(0, 0, c.lo, c.hi);
    g.concrete = c.flags & flag::CONCRETE != 0;
    g.foreign = c.flags & flag::FOREIGN != 0;
    let mut t = T {
        wraps: c.voc_root,
        bodies: c.voc_inner,
        leaves: c.voc_leaf,
        flags: c.flags,
        g,
        nodes: vec![],
        budget: c.flags >> 40,
    };
    t.g.start();
    if c.shapes == 3 {
        // k nodes, each around the next
        let mut done: Vec<(usize, usize)> = Vec::new();
        for i in 0..k {
            let w = t.one_of(t.wraps);
            let earlier = done.iter().find(|d| d.0 == w).map(|d| d.1);
            match earlier {
                Some(a) if c.flags & flag::SHARE != 0 => {
                    let b = t.node(N::Empty, &[i + 1]);
                    t.nodes[b].n = t.nodes[a].n.clone();
                    t.nodes[b].like = Some(a);
                }
                _ => {
                    let n = t.wrap(w, &mut |_| N::Child(0));
                    let b = t.node(n, &[i + 1]);
                    done.push((w, b));
                }
            }
        }
        let l = t.one_of(t.leaves);
        t.leaf(l);
    } else {
        let root = t.node(N::Empty, &[]);
        // one child is special
        let same = c.flags & flag::ALIKE != 0;
        let plain = if c.flags & flag::TEXTS != 0 { 1 } else { 0 };
        let form = if k == 0 { 0 } else { t.one_of(t.leaves) };
        let at = if k == 0 || same || form == plain { 0 } else { sx::pick(k) };
        let mut kids = Vec::new();
        let mut first: [Option<usize>; 2] = [None; 2];
        for i in 0..k {
            let special = i == at || same;
            let id = t.leaf(if special { form } else { plain });
            if c.flags & flag::SHARE != 0 {
                match first[special as usize] {
                    Some(a) => t.share(a, id),
                    None => first[special as usize] = Some(id),
                }
            }
            kids.push(id);
        }
        let w = t.one_of(t.wraps);
        let fold = c.shapes == 1;
        // the same choice of body in all options
        let n = if c.flags & flag::DOUBLE != 0 {
            let w2 = t.one_of(t.wraps);
            t.wrap(w, &mut |t| t.wrap(w2, &mut |t| if fold { t.fold() } else { t.row(k) }))
        } else {
            t.wrap(w, &mut |t| if fold { t.fold() } else { t.row(k) })
        };
        t.nodes[root].n = n;
        t.nodes[root].kids = kids;
    }
    let mut nodes = t.nodes;
    let checks = nodes.iter().any(|n| has_check(&n.n));
    for (id, n) in nodes.iter_mut().enumerate() {
        if c.flags & flag::NODE_STYLE != 0 {
            n.style = St::atom(1 + id as u8);
        }
        if checks {
            n.cond = [sx::boolean(), false];
        }
    }
    nodes
}
fn has_check(x: &N) -> bool {
    match x {
        N::Check(..) => true,
        N::Flat(x) | N::Indent(_, _, x) | N::Style(_, x) => has_check(x),
        N::Cat(x, y) | N::Choice(x, y) | N::Fold(x, y) => has_check(x) || has_check(y),
        N::Count(x, y, z) => has_check(x) || has_check(y) || has_check(z),
        _ => false,
    }
}
