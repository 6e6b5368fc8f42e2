//! Reference layout: resolves a document from left to right, by the documented rules.
#![allow(dead_code)]

use crate::all::ast::*;

#[derive(Clone, Copy)]
pub struct Seg {
    pub s: Str,
    pub st: St,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ev {
    /// Child number `index` of `parent`, which is node `id`, begins.
    Start { parent: usize, index: usize, id: usize },
    End { id: usize },
    Mark { id: usize },
    Text { id: usize },
}

pub struct Event {
    pub ev: Ev,
    pub line: usize,
    pub segs: usize,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum MErr {
    TextAfterEol,
    ChildIndex { index: i64, len: usize },
    ChildOnText,
    CheckIndex { index: i64, len: usize },
    CheckOnText,
    CountOnText,
    FoldOnText,
    TextOnNonText,
}

pub struct Layout {
    pub lines: Vec<Vec<Seg>>,
    pub events: Vec<Event>,
    /// The error that stops the layout, if any (in the last line).
    pub err: Option<MErr>,
    /// The error was met while looking ahead, to decide whether something fits.
    pub ahead: bool,
    pub choices: usize,
    pub took_first: usize,
    pub took_second: usize,
}

#[derive(Clone, Copy)]
struct Item<'a> {
    /// `None`: end of node `node`.
    n: Option<&'a N>,
    node: usize,
    flat: bool,
    ind: usize, // 1-based index into the indentation arena, 0: none
    st: St,
    join: Option<(usize, usize, &'a N, &'a N)>, // parent, child index, first, join
}

pub struct Model<'a> {
    nodes: &'a [Node],
    inds: Vec<(usize, Seg)>,
}

pub enum Step<'a> {
    Nothing,
    Lit(Seg, bool),
    Nl(usize),
    Eol,
    Mark,
    Cat(ItemPub<'a>, ItemPub<'a>),
    Choice(ItemPub<'a>, ItemPub<'a>),
    Child(usize, ItemPub<'a>),
}
#[derive(Clone, Copy)]
pub struct ItemPub<'a>(Item<'a>);

pub fn norm_index(i: i64, len: usize) -> Option<usize> {
    // Python-style indexing, in arithmetic that cannot overflow
    let l = len as i128;
    let i = i as i128;
    if i >= 0 && i < l {
        Some(i as usize)
    } else if i < 0 && i + l >= 0 {
        Some((i + l) as usize)
    } else {
        None
    }
}

impl<'a> Model<'a> {
    pub fn new(nodes: &'a [Node]) -> Model<'a> {
        Model { nodes, inds: vec![] }
    }

    /// Peel off the constructors that do not depend on the width.
    fn step(&mut self, mut it: Item<'a>) -> Result<Step<'a>, MErr> {
        loop {
            let nd = &self.nodes[it.node];
            let n = match it.n {
                None => return Ok(Step::Nothing),
                Some(n) => n,
            };
            let with = |x: &'a N| Item { n: Some(x), ..it };
            match n {
                N::Empty => return Ok(Step::Nothing),
                N::Nl => return Ok(Step::Nl(it.ind)),
                N::Eol => return Ok(Step::Eol),
                N::Mark => return Ok(Step::Mark),
                N::Lit(s) => return Ok(Step::Lit(Seg { s: *s, st: it.st }, false)),
                N::Text => match nd.text {
                    None => return Err(MErr::TextOnNonText),
                    Some(s) => return Ok(Step::Lit(Seg { s, st: it.st }, true)),
                },
                N::Flat(x) => {
                    it = Item {
                        flat: true,
                        ..with(x)
                    }
                }
                N::Indent(s, l, x) => {
                    let st = match l {
                        Some(l) => it.st.then(label_style(*l, it.node)),
                        None => it.st,
                    };
                    self.inds.push((it.ind, Seg { s: *s, st }));
                    it = Item {
                        ind: self.inds.len(),
                        ..with(x)
                    }
                }
                N::Style(l, x) => {
                    it = Item {
                        st: it.st.then(label_style(*l, it.node)),
                        ..with(x)
                    }
                }
                N::Cat(x, y) => return Ok(Step::Cat(ItemPub(with(x)), ItemPub(with(y)))),
                N::Choice(x, y) => {
                    if it.flat {
                        it = with(x)
                    } else {
                        return Ok(Step::Choice(ItemPub(with(x)), ItemPub(with(y))));
                    }
                }
                N::Check(c, at, x, y) => {
                    let who = match at {
                        At::Here => it.node,
                        At::Child(i) => {
                            if nd.text.is_some() {
                                return Err(MErr::CheckOnText);
                            }
                            match norm_index(*i, nd.kids.len()) {
                                Some(k) => nd.kids[k],
                                None => {
                                    return Err(MErr::CheckIndex {
                                        index: *i,
                                        len: nd.kids.len(),
                                    })
                                }
                            }
                        }
                        At::Left => {
                            let j = it.join.expect("model: Left outside join");
                            self.nodes[j.0].kids[j.1 - 1]
                        }
                        At::Right => {
                            let j = it.join.expect("model: Right outside join");
                            self.nodes[j.0].kids[j.1]
                        }
                    };
                    it = if self.nodes[who].cond[*c as usize] { with(x) } else { with(y) }
                }
                N::Child(i) => {
                    if nd.text.is_some() {
                        return Err(MErr::ChildOnText);
                    }
                    match norm_index(*i, nd.kids.len()) {
                        None => {
                            return Err(MErr::ChildIndex {
                                index: *i,
                                len: nd.kids.len(),
                            })
                        }
                        Some(k) => {
                            let c = nd.kids[k];
                            return Ok(Step::Child(
                                k,
                                ItemPub(Item {
                                    n: Some(&self.nodes[c].n),
                                    node: c,
                                    st: it.st.then(self.nodes[c].style),
                                    join: None,
                                    ..it
                                }),
                            ));
                        }
                    }
                }
                N::Count(z, o, m) => {
                    if nd.text.is_some() {
                        return Err(MErr::CountOnText);
                    }
                    it = with(match nd.kids.len() {
                        0 => z,
                        1 => o,
                        _ => m,
                    })
                }
                N::Fold(first, join) => {
                    if nd.text.is_some() {
                        return Err(MErr::FoldOnText);
                    }
                    match nd.kids.len() {
                        0 => return Ok(Step::Nothing),
                        1 => it = with(first),
                        k => {
                            it = Item {
                                join: Some((it.node, k - 1, &**first, &**join)),
                                ..with(join)
                            }
                        }
                    }
                }
                N::Left => {
                    let (p, k, first, join) = it.join.expect("model: Left outside join");
                    if k == 1 {
                        it = Item {
                            join: None,
                            ..with(first)
                        }
                    } else {
                        it = Item {
                            join: Some((p, k - 1, first, join)),
                            ..with(join)
                        }
                    }
                }
                N::Right => {
                    let (p, k, _, _) = it.join.expect("model: Right outside join");
                    let c = self.nodes[p].kids[k];
                    return Ok(Step::Child(
                        k,
                        ItemPub(Item {
                            n: Some(&self.nodes[c].n),
                            node: c,
                            st: it.st.then(self.nodes[c].style),
                            join: None,
                            ..it
                        }),
                    ));
                }
            }
        }
    }

    /// Does `first`, followed by `rest` (a stack), fit in what is left of the line?
    fn fits(&mut self, width: u64, used: u64, at_eol: bool, first: Item<'a>, rest: &[Item<'a>]) -> Result<bool, MErr> {
        let mut stack: Vec<Item<'a>> = rest.to_vec();
        stack.push(first);
        let mut sum = used;
        let mut eol = at_eol;
        while let Some(it) = stack.pop() {
            match self.step(it)? {
                Step::Nothing | Step::Mark => {}
                Step::Lit(s, _) => {
                    if eol {
                        return Ok(false);
                    }
                    sum += s.s.width();
                }
                Step::Nl(_) => break,
                Step::Eol => eol = true,
                Step::Cat(x, y) => {
                    stack.push(y.0);
                    stack.push(x.0);
                }
                Step::Choice(_, y) => stack.push(y.0),
                Step::Child(_, x) => stack.push(x.0),
            }
        }
        Ok(sum <= width)
    }

    pub fn layout(&mut self, width: u64, root_style: Option<St>) -> Layout {
        let mut l = Layout {
            lines: vec![vec![]],
            events: vec![],
            err: None,
            ahead: false,
            choices: 0,
            took_first: 0,
            took_second: 0,
        };
        let st = self.nodes[0].style;
        let st = match root_style {
            Some(r) => r.then(st),
            None => st,
        };
        let root = Item {
            n: Some(&self.nodes[0].n),
            node: 0,
            flat: false,
            ind: 0,
            st,
            join: None,
        };
        let end = Item { n: None, ..root };
        l.events.push(Event {
            ev: Ev::Start {
                parent: usize::MAX,
                index: 0,
                id: 0,
            },
            line: 0,
            segs: 0,
        });
        let mut stack = vec![end, root];
        let mut used = 0u64;
        let mut eol = false;
        while let Some(it) = stack.pop() {
            let line = l.lines.len() - 1;
            let segs = l.lines[line].len();
            if it.n.is_none() {
                l.events.push(Event {
                    ev: Ev::End { id: it.node },
                    line,
                    segs,
                });
                continue;
            }
            let s = match self.step(it) {
                Ok(s) => s,
                Err(e) => {
                    l.err = Some(e);
                    return l;
                }
            };
            match s {
                Step::Nothing => {}
                Step::Mark => l.events.push(Event {
                    ev: Ev::Mark { id: it.node },
                    line,
                    segs,
                }),
                Step::Lit(s, from_text) => {
                    if eol {
                        l.err = Some(MErr::TextAfterEol);
                        return l;
                    }
                    if from_text {
                        l.events.push(Event {
                            ev: Ev::Text { id: it.node },
                            line,
                            segs,
                        });
                    }
                    used += s.s.width();
                    l.lines[line].push(s);
                }
                Step::Eol => eol = true,
                Step::Nl(ind) => {
                    let mut v = Vec::new();
                    let mut i = ind;
                    while i != 0 {
                        let (p, s) = self.inds[i - 1];
                        v.push(s);
                        i = p;
                    }
                    v.reverse();
                    used = 0;
                    for s in &v {
                        used += s.s.width();
                    }
                    eol = false;
                    l.lines.push(v);
                }
                Step::Cat(x, y) => {
                    stack.push(y.0);
                    stack.push(x.0);
                }
                Step::Child(index, x) => {
                    l.events.push(Event {
                        ev: Ev::Start {
                            parent: it.join.map_or(it.node, |j| j.0),
                            index,
                            id: x.0.node,
                        },
                        line,
                        segs,
                    });
                    stack.push(Item { n: None, ..x.0 });
                    stack.push(x.0);
                }
                Step::Choice(x, y) => {
                    l.choices += 1;
                    let f = match self.fits(width, used, eol, x.0, &stack) {
                        Ok(f) => f,
                        Err(e) => {
                            l.err = Some(e);
                            l.ahead = true;
                            return l;
                        }
                    };
                    if f {
                        l.took_first += 1;
                        stack.push(x.0);
                    } else {
                        l.took_second += 1;
                        stack.push(y.0);
                    }
                }
            }
        }
        l
    }
}
