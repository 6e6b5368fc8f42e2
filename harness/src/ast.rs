//! The harness's own notation syntax, its documents, and their translation to the real types.
#![allow(dead_code)]

use crate::all::sx;
use partial_pretty_printer as ppp;
use ppp::{CheckPos, Notation, PrettyDoc, Style, ValidNotation};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

/// A string used in a notation or document: `len` letters `ch`; `len` may be symbolic.
#[derive(Clone, Copy)]
pub struct Str {
    pub ch: u8,
    pub len: u64,
    pub max: u64,
}
impl Str {
    pub fn make(&self) -> String {
        if self.ch >= 0x80 {
            (0..self.len).map(|_| self.letter()).collect()
        } else {
            sx::sym_string(self.ch, self.len, self.max)
        }
    }
    /// Letters from 0x80 on stand for other than ASCII characters (whose number is not symbolic).
    pub fn letter(&self) -> char {
        let ch = self.ch as u32;
        char::from_u32(match self.ch {
            0..=0x7F => ch,
            0x80..=0xBF => 0x4E00 + ch - 0x80, // full-width, three bytes
            0xC0..=0xDF => 0xE0 + ch - 0xC0,   // two bytes
            0xE0..=0xEF => 0x300 + ch - 0xE0,  // combining
            _ => 0x1F600 + ch - 0xF0,          // full-width, four bytes
        })
        .expect("letter")
    }
    /// Width of a letter.
    pub fn unit(&self) -> u64 {
        unit(self.ch)
    }
    pub fn width(&self) -> u64 {
        match self.unit() {
            1 => self.len,
            n => n * self.len,
        }
    }
}
/// A string of as many bytes as `s` (whose length is not symbolic) but of another width.
pub fn respelled(s: Str, k: u8, weightless: bool) -> Str {
    let (ch, len) = match s.ch {
        0x80..=0xBF => (b'a' + k % 26, 3 * s.len),
        0xC0..=0xDF if weightless => (0xE0 + k % 16, s.len),
        0xC0..=0xDF => (b'a' + k % 26, 2 * s.len),
        0xE0..=0xEF => (0xC0 + k % 32, s.len),
        0xF0..=0xFF => (0xC0 + k % 32, 2 * s.len),
        _ => (0xC0 + k % 32, s.len / 2),
    };
    Str { ch, len, max: len }
}
pub fn unit(ch: u8) -> u64 {
    match ch {
        0x80..=0xBF | 0xF0..=0xFF => 2,
        0xE0..=0xEF => 0,
        _ => 1,
    }
}
/// The number that stands for a character (1: none does).
pub fn number_of(c: char) -> u8 {
    match c as u32 {
        c @ 0..=0x7F => c as u8,
        c @ 0xE0..=0xFF => (c - 0xE0) as u8 + 0xC0,
        c @ 0x300..=0x30F => (c - 0x300) as u8 + 0xE0,
        c @ 0x4E00..=0x4E3F => (c - 0x4E00) as u8 + 0x80,
        c @ 0x1F600..=0x1F60F => (c - 0x1F600) as u8 + 0xF0,
        _ => 1,
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum At {
    Here,
    Child(i64),
    Left,
    Right,
}

#[derive(Clone)]
pub enum N {
    Empty,
    Nl,
    Eol,
    Lit(Str),
    Text,
    Flat(Box<N>),
    Indent(Str, Option<u8>, Box<N>),
    Cat(Box<N>, Box<N>),
    Choice(Box<N>, Box<N>),
    Check(u8, At, Box<N>, Box<N>),
    Child(i64),
    Style(u8, Box<N>),
    Mark,
    Count(Box<N>, Box<N>, Box<N>),
    Fold(Box<N>, Box<N>),
    Left,
    Right,
}

pub fn cat(a: N, b: N) -> N {
    N::Cat(Box::new(a), Box::new(b))
}
pub fn choice(a: N, b: N) -> N {
    N::Choice(Box::new(a), Box::new(b))
}
pub fn seq(v: Vec<N>) -> N {
    let mut it = v.into_iter().rev();
    let mut acc = match it.next() {
        None => return N::Empty,
        Some(n) => n,
    };
    for n in it {
        acc = cat(n, acc);
    }
    acc
}

pub type Real = Notation<u8, u8>;

pub fn build(n: &N) -> Real {
    let b = |n: &N| Box::new(build(n));
    match n {
        N::Empty => Notation::Empty,
        N::Nl => Notation::Newline,
        N::Eol => Notation::EndOfLine,
        N::Lit(s) => Notation::Literal(s.make()),
        N::Text => Notation::Text,
        N::Flat(x) => Notation::Flat(b(x)),
        N::Indent(s, l, x) => Notation::Indent(s.make(), *l, b(x)),
        N::Cat(x, y) => Notation::Concat(b(x), b(y)),
        N::Choice(x, y) => Notation::Choice(b(x), b(y)),
        N::Check(c, p, x, y) => Notation::Check(
            *c,
            match p {
                At::Here => CheckPos::Here,
                At::Child(i) => CheckPos::Child(*i as isize),
                At::Left => CheckPos::LeftChild,
                At::Right => CheckPos::RightChild,
            },
            b(x),
            b(y),
        ),
        N::Child(i) => Notation::Child(*i as isize),
        N::Style(l, x) => Notation::Style(*l, b(x)),
        N::Mark => Notation::FocusMark,
        N::Count(z, o, m) => Notation::Count {
            zero: b(z),
            one: b(o),
            many: b(m),
        },
        N::Fold(f, j) => Notation::Fold {
            first: b(f),
            join: b(j),
        },
        N::Left => Notation::Left,
        N::Right => Notation::Right,
    }
}

// ------------------------------------------------------------------ styles

/// A style is the sequence of the atoms it was combined from, outermost first. `combine` is
/// concatenation, so a lost, duplicated or swapped contribution shows.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct St {
    pub len: u8,
    pub bits: u128,
}
impl St {
    pub const NONE: St = St { len: 0, bits: 0 };
    pub fn atom(a: u8) -> St {
        St {
            len: 1,
            bits: a as u128,
        }
    }
    pub fn then(self, inner: St) -> St {
        let sh = 8 * inner.len as u32;
        St {
            len: self.len.wrapping_add(inner.len),
            bits: if sh >= 128 { inner.bits } else { (self.bits << sh) | inner.bits },
        }
    }
}
impl Style for St {
    fn combine(outer: &Self, inner: &Self) -> Self {
        outer.then(*inner)
    }
}
/// The style that label `l` stands for at node `id`.
pub fn label_style(l: u8, id: usize) -> St {
    St::atom(0x80 | (l << 4) | (id as u8 & 15))
}

// ------------------------------------------------------------------ documents

/// A document node as the models see it.
pub struct Node {
    pub n: N,
    pub kids: Vec<usize>,
    pub text: Option<Str>,
    pub style: St,
    /// Truth of each condition (may be symbolic).
    pub cond: [bool; 2],
    /// An earlier node with which this one shares its notation (not just an equal one).
    pub like: Option<usize>,
}
impl Node {
    pub fn new(n: N) -> Node {
        Node {
            n,
            kids: vec![],
            text: None,
            style: St::NONE,
            cond: [false; 2],
            like: None,
        }
    }
    pub fn kids(mut self, k: &[usize]) -> Node {
        self.kids = k.to_vec();
        self
    }
    pub fn text(mut self, t: Str) -> Node {
        self.text = Some(t);
        self
    }
    pub fn style(mut self, s: St) -> Node {
        self.style = s;
        self
    }
    pub fn cond(mut self, a: bool, b: bool) -> Node {
        self.cond = [a, b];
        self
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub struct DocErr(pub u64);
impl std::fmt::Display for DocErr {
    fn fmt(&self, _f: &mut std::fmt::Formatter) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for DocErr {}

pub struct RNode {
    pub vn: Rc<ValidNotation<u8, u8>>,
    pub text: Option<String>,
    pub kids: Vec<usize>,
    pub parent: usize,
    pub index: usize,
    pub style: St,
    pub cond: [bool; 2],
}

#[derive(Clone, Copy, PartialEq)]
pub enum Calls {
    /// Overrides for `unwrap_last_child` and `unwrap_prev_sibling`.
    Overridden,
    /// The trait's default methods.
    Default,
}

pub struct Doc {
    pub nodes: Vec<RNode>,
    pub root: usize,
    /// Number of trait-method calls so far.
    pub calls: Cell<u64>,
    /// The call that fails (`u64::MAX`: none); may be symbolic.
    pub fail_at: u64,
    pub count_calls: bool,
    pub contract: bool,
    /// Per node: was anything but its id asked for?
    pub touched: RefCell<Vec<bool>>,
    pub log_touch: bool,
}

/// Why a document could not be built.
pub enum Bad {
    Invalid,
}

/// Build the real document. With `validate`, every notation must pass validation.
pub fn make_doc(nodes: &[Node], validate: bool) -> Result<Doc, Bad> {
    make_doc_like(nodes, validate, None)
}
/// With `twin`, the nodes share the notations of its nodes.
pub fn make_doc_like(nodes: &[Node], validate: bool, twin: Option<&Doc>) -> Result<Doc, Bad> {
    let mut out = Vec::new();
    for nd in nodes {
        let vn = match (twin, nd.like) {
            (Some(twin), _) => twin.nodes[out.len()].vn.clone(),
            (None, Some(k)) => {
                let earlier: &RNode = &out[k];
                earlier.vn.clone()
            }
            (None, None) => {
                let real = build(&nd.n);
                Rc::new(if validate {
                    match real.validate() {
                        Ok(v) => v,
                        Err(_) => return Err(Bad::Invalid),
                    }
                } else {
                    real.cheat_validation_for_testing_only()
                })
            }
        };
        out.push(RNode {
            vn,
            text: nd.text.map(|t| t.make()),
            kids: nd.kids.clone(),
            parent: usize::MAX,
            index: 0,
            style: nd.style,
            cond: nd.cond,
        });
    }
    for i in 0..out.len() {
        let ks = out[i].kids.clone();
        for (j, k) in ks.iter().enumerate() {
            out[*k].parent = i;
            out[*k].index = j;
        }
    }
    let n = out.len();
    Ok(Doc {
        nodes: out,
        root: 0,
        calls: Cell::new(0),
        fail_at: u64::MAX,
        count_calls: false,
        contract: false,
        touched: RefCell::new(vec![false; n]),
        log_touch: false,
    })
}

#[derive(Clone, Copy)]
pub struct D<'d> {
    pub doc: &'d Doc,
    pub id: usize,
}

impl Doc {
    pub fn root(&self) -> D<'_> {
        D {
            doc: self,
            id: self.root,
        }
    }
    fn step(&self, id: usize, touch: bool) -> Result<(), DocErr> {
        if self.log_touch && touch {
            self.touched.borrow_mut()[id] = true;
        }
        if self.count_calls {
            let k = self.calls.get();
            self.calls.set(k + 1);
            if k == self.fail_at {
                return Err(DocErr(k));
            }
        }
        Ok(())
    }
}

impl<'d> PrettyDoc<'d> for D<'d> {
    type Id = usize;
    type Style = St;
    type StyleLabel = u8;
    type Condition = u8;
    type Error = DocErr;

    fn id(self) -> Result<usize, DocErr> {
        self.doc.step(self.id, false)?;
        Ok(self.id)
    }
    fn notation(self) -> Result<&'d ValidNotation<u8, u8>, DocErr> {
        self.doc.step(self.id, true)?;
        Ok(&self.doc.nodes[self.id].vn)
    }
    fn condition(self, c: &u8) -> Result<bool, DocErr> {
        self.doc.step(self.id, true)?;
        Ok(self.doc.nodes[self.id].cond[*c as usize])
    }
    fn lookup_style(self, l: u8) -> Result<St, DocErr> {
        self.doc.step(self.id, true)?;
        Ok(label_style(l, self.id))
    }
    fn node_style(self) -> Result<St, DocErr> {
        self.doc.step(self.id, true)?;
        Ok(self.doc.nodes[self.id].style)
    }
    fn num_children(self) -> Result<Option<usize>, DocErr> {
        self.doc.step(self.id, true)?;
        let nd = &self.doc.nodes[self.id];
        Ok(if nd.text.is_some() { None } else { Some(nd.kids.len()) })
    }
    fn unwrap_text(self) -> Result<&'d str, DocErr> {
        let nd = &self.doc.nodes[self.id];
        if nd.text.is_none() {
            sx::check(false, "contract-unwrap_text-on-a-node-without-text");
        }
        self.doc.step(self.id, true)?;
        Ok(nd.text.as_ref().expect("unwrap_text: no text"))
    }
    fn unwrap_child(self, i: usize) -> Result<Self, DocErr> {
        let nd = &self.doc.nodes[self.id];
        if !(nd.text.is_none() && i < nd.kids.len()) {
            sx::check(false, "contract-unwrap_child-out-of-range");
        }
        self.doc.step(self.id, true)?;
        Ok(D {
            doc: self.doc,
            id: nd.kids[i],
        })
    }
    fn unwrap_last_child(self) -> Result<Self, DocErr> {
        let nd = &self.doc.nodes[self.id];
        if !(nd.text.is_none() && !nd.kids.is_empty()) {
            sx::check(false, "contract-unwrap_last_child-on-childless-node");
        }
        self.doc.step(self.id, true)?;
        Ok(D {
            doc: self.doc,
            id: *nd.kids.last().expect("unwrap_last_child: no children"),
        })
    }
    fn unwrap_prev_sibling(self, parent: Self, i: usize) -> Result<Self, DocErr> {
        let p = &self.doc.nodes[parent.id];
        if !(p.text.is_none() && i < p.kids.len()) {
            sx::check(false, "contract-unwrap_prev_sibling-arguments");
        }
        if self.doc.contract {
            sx::check(
                i + 1 < p.kids.len() && p.kids[i + 1] == self.id,
                "contract-unwrap_prev_sibling-arguments",
            );
        }
        self.doc.step(self.id, true)?;
        Ok(D {
            doc: self.doc,
            id: p.kids[i],
        })
    }
}

// ------------------------------------------------------------------ generation

pub mod voc {
    pub const EMPTY: u64 = 1;
    pub const NL: u64 = 2;
    pub const EOL: u64 = 4;
    pub const LIT: u64 = 8;
    pub const TEXT: u64 = 16;
    pub const FLAT: u64 = 32;
    pub const INDENT: u64 = 64;
    pub const CAT: u64 = 128;
    pub const CHOICE: u64 = 256;
    pub const CHECK: u64 = 512;
    pub const CHILD: u64 = 1024;
    pub const STYLE: u64 = 2048;
    pub const MARK: u64 = 4096;
    pub const COUNT: u64 = 8192;
    pub const FOLD: u64 = 16384;
    pub const LEFT: u64 = 32768;
    pub const RIGHT: u64 = 65536;
    pub const CHECKJ: u64 = 131072;
    /// Concatenations associate to the right.
    pub const CANON: u64 = 1 << 30;
}

pub struct Gen {
    pub voc: u64,
    pub nkids: usize,
    /// Range of literal and indentation widths.
    pub lo: u64,
    pub hi: u64,
    pub next: u8,
    pub total: u64,
    /// Literals so far (for constraints on the total width).
    pub lits: Vec<u64>,
    /// `Child` indices are arbitrary symbolic numbers.
    pub sym_child: bool,
    pub indent_label: bool,
    pub next_label: u8,
    pub check_child: bool,
    /// Only generate notations that respect the scoping rules of the validator.
    pub scoped: bool,
    /// Lengths are picked, not symbolic.
    pub concrete: bool,
    /// Other than ASCII characters.
    pub foreign: bool,
    /// Which ones (0: ASCII).
    pub alphabet: usize,
    memo: Vec<u8>,
}

impl Gen {
    pub fn new(voc: u64, nkids: usize, lo: u64, hi: u64) -> Gen {
        Gen {
            voc,
            nkids,
            lo,
            hi,
            next: 0,
            total: 0,
            lits: vec![],
            sym_child: false,
            indent_label: false,
            next_label: 0,
            check_child: voc & voc::CHILD != 0,
            scoped: true,
            concrete: false,
            foreign: false,
            alphabet: 0,
            memo: vec![],
        }
    }
    /// Choose an alphabet.
    pub fn start(&mut self) {
        if self.foreign {
            // the last one is of characters without width
            self.alphabet = 1 + sx::pick(if self.lo == 0 { 4 } else { 3 });
        }
    }
    pub fn str(&mut self) -> Str {
        if self.alphabet > 0 {
            let k = self.next;
            self.next = self.next.wrapping_add(1);
            let (base, n) = [(0x80, 64), (0xC0, 32), (0xF0, 16), (0xE0, 16)][self.alphabet - 1];
            let len = self.lo + (k as u64 * 5 + 1) % (self.hi - self.lo + 1);
            self.lits.push(len);
            return Str {
                ch: base + k % n,
                len,
                max: self.hi,
            };
        }
        let len = if self.concrete {
            self.lo + sx::pick((self.hi - self.lo + 1) as usize) as u64
        } else {
            sx::var(self.lo, self.hi)
        };
        self.next = self.next.wrapping_add(1);
        self.lits.push(len);
        Str {
            ch: b'a' + self.next.wrapping_sub(1) % 26,
            len,
            max: self.hi,
        }
    }
    pub fn label(&mut self) -> u8 {
        self.next_label = self.next_label.wrapping_add(1);
        self.next_label.wrapping_sub(1) % 8
    }
    fn has(&self, v: u64) -> bool {
        self.voc & v != 0
    }
    /// Constructors of notations of size 1.
    fn nullary(&self, ctx: u8) -> Vec<u64> {
        use voc::*;
        let mut c = Vec::new();
        for v in [LIT, NL, EOL, EMPTY, TEXT, MARK, LEFT, RIGHT] {
            let bad = match v {
                TEXT => ctx & (IN_FOLD | IN_COUNT) != 0,
                LEFT | RIGHT => ctx & IN_JOIN == 0,
                _ => false,
            };
            if self.has(v) && !(bad && self.scoped) {
                c.push(v);
            }
        }
        c
    }
    fn child_picks(&self) -> usize {
        if !self.has(voc::CHILD) {
            0
        } else if self.sym_child {
            1
        } else {
            self.nkids
        }
    }
    /// (constructor, size of first, size of second), all of which can be completed.
    fn options(&mut self, size: usize, ctx: u8, no_cat: bool) -> Vec<(u64, usize, usize)> {
        use voc::*;
        let mut c: Vec<(u64, usize, usize)> = Vec::new();
        let (f, j, k) = self.inner(ctx);
        for v in [FLAT, INDENT, STYLE] {
            if self.has(v) && self.can(size - 1, ctx, false) {
                c.push((v, 0, 0));
            }
        }
        if size >= 3 {
            let canon = self.has(CANON);
            for l in 1..=size - 2 {
                let r = size - 1 - l;
                if self.has(CAT) && !no_cat && self.can(l, ctx, canon) && self.can(r, ctx, false) {
                    c.push((CAT, l, 0));
                }
                for v in [CHOICE, CHECK, CHECKJ] {
                    let bad = v == CHECKJ && ctx & IN_JOIN == 0 && self.scoped;
                    if self.has(v) && !bad && self.can(l, ctx, false) && self.can(r, ctx, false) {
                        c.push((v, l, 0));
                    }
                }
                let bad = ctx & IN_FOLD != 0 && self.scoped;
                if self.has(FOLD) && !bad && self.can(l, f, false) && self.can(r, j, false) {
                    c.push((FOLD, l, 0));
                }
            }
        }
        let bad = ctx & IN_COUNT != 0 && self.scoped;
        if size >= 4 && self.has(COUNT) && !bad {
            for l in 1..=size - 3 {
                for m in 1..=size - 2 - l {
                    if self.can(l, k, false) && self.can(m, k, false) && self.can(size - 1 - l - m, k, false) {
                        c.push((COUNT, l, m));
                    }
                }
            }
        }
        c
    }
    /// Contexts of the first and join parts of a fold, and of the parts of a count.
    fn inner(&self, ctx: u8) -> (u8, u8, u8) {
        ((ctx & !IN_JOIN) | IN_FOLD, ctx | IN_FOLD | IN_JOIN, ctx | IN_COUNT)
    }
    /// Is there a notation of this size?
    pub fn can(&mut self, size: usize, ctx: u8, no_cat: bool) -> bool {
        let at = size * 16 + ctx as usize * 2 + no_cat as usize;
        if self.memo.len() <= at {
            self.memo.resize(at + 1, 0);
        }
        if self.memo[at] == 0 {
            let yes = if size == 1 {
                !self.nullary(ctx).is_empty() || self.child_picks() > 0
            } else {
                !self.options(size, ctx, no_cat).is_empty()
            };
            self.memo[at] = 1 + yes as u8;
        }
        self.memo[at] == 2
    }
    /// A notation with exactly `size` constructors.
    pub fn gen(&mut self, size: usize) -> N {
        self.gen2(size, 0, false)
    }
    fn gen2(&mut self, size: usize, ctx: u8, no_cat: bool) -> N {
        use voc::*;
        if size == 1 {
            let c = self.nullary(ctx);
            let base = c.len();
            let k = sx::pick(base + self.child_picks());
            if k >= base {
                if self.sym_child {
                    return N::Child(sx::var64() as i64);
                }
                return N::Child((k - base) as i64);
            }
            return match c[k] {
                LIT => N::Lit(self.str()),
                NL => N::Nl,
                EOL => N::Eol,
                EMPTY => N::Empty,
                TEXT => N::Text,
                MARK => N::Mark,
                LEFT => N::Left,
                _ => N::Right,
            };
        }
        let c = self.options(size, ctx, no_cat);
        let k = sx::pick(c.len());
        let (v, l, m) = c[k];
        let r = size.wrapping_sub(1).wrapping_sub(l);
        let canon = self.has(CANON);
        let (f, j, k) = self.inner(ctx);
        match v {
            FLAT => N::Flat(Box::new(self.gen2(size - 1, ctx, false))),
            INDENT => {
                let s = self.str();
                let lab = if self.indent_label { Some(self.label()) } else { None };
                N::Indent(s, lab, Box::new(self.gen2(size - 1, ctx, false)))
            }
            STYLE => {
                let lab = self.label();
                N::Style(lab, Box::new(self.gen2(size - 1, ctx, false)))
            }
            CAT => {
                let a = self.gen2(l, ctx, canon);
                let b = self.gen2(r, ctx, false);
                cat(a, b)
            }
            CHOICE => {
                let a = self.gen2(l, ctx, false);
                let b = self.gen2(r, ctx, false);
                choice(a, b)
            }
            CHECK | CHECKJ => {
                let at = if v == CHECKJ {
                    if sx::pick(2) == 0 {
                        At::Left
                    } else {
                        At::Right
                    }
                } else if self.check_child && (self.nkids > 0 || self.sym_child) {
                    if self.sym_child {
                        if sx::pick(2) == 0 {
                            At::Here
                        } else {
                            At::Child(sx::var64() as i64)
                        }
                    } else {
                        let k = sx::pick(self.nkids + 1);
                        if k == 0 {
                            At::Here
                        } else {
                            At::Child(k as i64 - 1)
                        }
                    }
                } else {
                    At::Here
                };
                let a = self.gen2(l, ctx, false);
                let b = self.gen2(r, ctx, false);
                N::Check(0, at, Box::new(a), Box::new(b))
            }
            FOLD => {
                let a = self.gen2(l, f, false);
                let b = self.gen2(r, j, false);
                N::Fold(Box::new(a), Box::new(b))
            }
            _ => {
                let a = self.gen2(l, k, false);
                let b = self.gen2(m, k, false);
                let c = self.gen2(size - 1 - l - m, k, false);
                N::Count(Box::new(a), Box::new(b), Box::new(c))
            }
        }
    }
}
const IN_JOIN: u8 = 1;
const IN_FOLD: u8 = 2;
const IN_COUNT: u8 = 4;
