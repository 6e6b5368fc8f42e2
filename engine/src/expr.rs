//! Hash-consed bit-vector expressions with a simplifying builder.
//!
//! Every node carries its width (1..=128), an unsigned interval, a structural
//! hash that does not depend on the arena it lives in, and the set of variables it mentions.

use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub type E = u32;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.write_u64(*b as u64);
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    fn write_u128(&mut self, v: u128) {
        self.write_u64(v as u64);
        self.write_u64((v >> 64) as u64);
    }
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,
    Extract,
    ZExt,
    SExt,
}

#[derive(Clone, Copy, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: E,
    pub b: E,
    pub c: E,
    /// Const: value. Var: index. Extract: low bit.
    pub k: u128,
    /// Unsigned interval.
    pub lo: u128,
    pub hi: u128,
    pub vars: u128,
    pub h: u128,
}

#[derive(PartialEq, Eq, Hash, Clone, Copy)]
struct Key(Op, u8, E, E, E, u128, u64, u64);

pub struct Arena {
    pub nodes: Vec<Node>,
    map: FxMap<Key, E>,
    memo: Vec<(u32, u128)>,
    epoch: u32,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn mask64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

fn mix(h: u128, v: u128) -> u128 {
    let x = (h ^ v).wrapping_mul(0x2360ED051FC65DA44385DF649FCCF645);
    x ^ (x >> 67) ^ (x << 31)
}

pub fn bin_const(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    let r = match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = sx(a, w);
            (s >> (b.min(127))) as u128
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, w) < sx(b, w)) as u128,
        Op::Sle => (sx(a, w) <= sx(b, w)) as u128,
        _ => unreachable!(),
    };
    r & m
}

impl Arena {
    pub fn new() -> Arena {
        Arena {
            nodes: Vec::new(),
            map: FxMap::default(),
            memo: Vec::new(),
            epoch: 0,
        }
    }

    #[inline]
    pub fn n(&self, e: E) -> &Node {
        &self.nodes[e as usize]
    }
    pub fn w(&self, e: E) -> u32 {
        self.n(e).w as u32
    }
    pub fn as_const(&self, e: E) -> Option<u128> {
        let n = self.n(e);
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }

    fn intern(&mut self, op: Op, w: u32, a: E, b: E, c: E, k: u128, vlo: u64, vhi: u64) -> E {
        let key = Key(op, w as u8, a, b, c, k, vlo, vhi);
        if let Some(e) = self.map.get(&key) {
            return *e;
        }
        let (lo, hi) = self.interval(op, w, a, b, c, k, vlo as u128, vhi as u128);
        if lo == hi && op != Op::Const && op != Op::Var {
            let e = self.konst(w, lo as u128);
            self.map.insert(key, e);
            return e;
        }
        let nargs = match op {
            Op::Const | Op::Var => 0,
            Op::Extract | Op::ZExt | Op::SExt => 1,
            Op::Ite => 3,
            _ => 2,
        };
        let mut vars = 0u128;
        let mut h = mix(0x9E3779B97F4A7C15F39CC0605CEDC835, op as u8 as u128);
        h = mix(h, w as u128);
        h = mix(h, k);
        if op == Op::Var {
            vars = 1u128 << (k as u64).min(127);
            h = mix(h, vlo as u128);
            h = mix(h, vhi as u128);
        }
        for (i, x) in [a, b, c].iter().enumerate() {
            if i < nargs {
                vars |= self.n(*x).vars;
                h = mix(h, self.n(*x).h);
            }
        }
        let e = self.nodes.len() as E;
        self.nodes.push(Node {
            op,
            w: w as u8,
            a,
            b,
            c,
            k,
            lo,
            hi,
            vars,
            h,
        });
        self.memo.push((0, 0));
        self.map.insert(key, e);
        e
    }

    fn interval(&self, op: Op, w: u32, a: E, b: E, c: E, k: u128, vlo: u128, vhi: u128) -> (u128, u128) {
        let m = mask(w);
        let full = (0, m);
        let iv = |e: E| -> (u128, u128) {
            let n = self.n(e);
            (n.lo, n.hi)
        };
        match op {
            Op::Const => (k, k),
            Op::Var => (vlo, vhi),
            Op::Add => {
                let (x, y) = (iv(a), iv(b));
                if x.1.checked_add(y.1).map_or(true, |s| w > 64 && s > m) {
                    full
                } else if x.1 + y.1 <= m {
                    ((x.0 + y.0), (x.1 + y.1))
                } else if x.0 + y.0 > m && x.1 + y.1 <= m + m + 1 {
                    // always wraps exactly once
                    ((x.0 + y.0 - m - 1), (x.1 + y.1 - m - 1))
                } else {
                    full
                }
            }
            Op::Sub => {
                let (x, y) = (iv(a), iv(b));
                if x.0 >= y.1 {
                    ((x.0 - y.1), (x.1 - y.0))
                } else {
                    full
                }
            }
            Op::Mul => {
                let (x, y) = (iv(a), iv(b));
                match x.1.checked_mul(y.1) {
                    Some(p) if p <= m => ((x.0 * y.0), p),
                    _ => full,
                }
            }
            Op::UDiv => {
                let (x, y) = (iv(a), iv(b));
                if y.0 > 0 {
                    ((x.0 / y.1), (x.1 / y.0))
                } else {
                    full
                }
            }
            Op::URem => {
                let (x, y) = (iv(a), iv(b));
                if y.0 > 0 {
                    if x.1 < y.0 {
                        (x.0, x.1)
                    } else {
                        (0, x.1.min(y.1 - 1))
                    }
                } else {
                    full
                }
            }
            Op::And => {
                let (x, y) = (iv(a), iv(b));
                (0, x.1.min(y.1))
            }
            Op::Or | Op::Xor => {
                let (x, y) = (iv(a), iv(b));
                let top = x.1 | y.1;
                let bits = 128 - top.leading_zeros();
                let lo = if op == Op::Or { x.0.max(y.0) } else { 0 };
                (lo, mask(bits))
            }
            Op::LShr => {
                let (x, y) = (iv(a), iv(b));
                if y.0 == y.1 && y.0 < 128 {
                    ((x.0 >> y.0), (x.1 >> y.0))
                } else {
                    (0, x.1)
                }
            }
            Op::Shl => {
                let (x, y) = (iv(a), iv(b));
                if y.0 == y.1 && y.0 < w as u128 && x.1 <= m >> y.0 {
                    ((x.0 << y.0), (x.1 << y.0))
                } else {
                    full
                }
            }
            Op::Eq => {
                let (x, y) = (iv(a), iv(b));
                if x.1 < y.0 || y.1 < x.0 {
                    (0, 0)
                } else {
                    (0, 1)
                }
            }
            Op::Ult => {
                let (x, y) = (iv(a), iv(b));
                if x.1 < y.0 {
                    (1, 1)
                } else if x.0 >= y.1 {
                    (0, 0)
                } else {
                    (0, 1)
                }
            }
            Op::Ule => {
                let (x, y) = (iv(a), iv(b));
                if x.1 <= y.0 {
                    (1, 1)
                } else if x.0 > y.1 {
                    (0, 0)
                } else {
                    (0, 1)
                }
            }
            Op::Slt | Op::Sle => {
                let (x, y) = (iv(a), iv(b));
                let wa = self.w(a);
                let half = 1u128 << (wa - 1);
                // signed interval if it does not straddle the sign boundary
                let s = |v: (u128, u128)| -> Option<(i128, i128)> {
                    if v.1 < half || v.0 >= half {
                        Some((sx(v.0, wa), sx(v.1, wa)))
                    } else {
                        None
                    }
                };
                let fullr = ((half as i128).wrapping_neg(), (half as i128).wrapping_sub(1));
                let x = s(x).unwrap_or(fullr);
                let y = s(y).unwrap_or(fullr);
                let strict = op == Op::Slt;
                if (strict && x.1 < y.0) || (!strict && x.1 <= y.0) {
                    (1, 1)
                } else if (strict && x.0 >= y.1) || (!strict && x.0 > y.1) {
                    (0, 0)
                } else {
                    (0, 1)
                }
            }
            Op::Ite => {
                let (x, y) = (iv(b), iv(c));
                (x.0.min(y.0), x.1.max(y.1))
            }
            Op::ZExt => {
                let x = iv(a);
                (x.0, x.1)
            }
            Op::SExt => {
                let x = iv(a);
                let wa = self.w(a);
                if x.1 < (1u128 << (wa - 1)) {
                    (x.0, x.1)
                } else {
                    full
                }
            }
            Op::Extract => {
                let x = iv(a);
                if k == 0 && x.1 <= m {
                    (x.0, x.1)
                } else {
                    full
                }
            }
            _ => full,
        }
    }

    pub fn konst(&mut self, w: u32, v: u128) -> E {
        self.intern(Op::Const, w, 0, 0, 0, v & mask(w), 0, 0)
    }
    pub fn var(&mut self, w: u32, idx: u32, lo: u64, hi: u64) -> E {
        self.intern(Op::Var, w, 0, 0, 0, idx as u128, lo, hi)
    }
    pub fn not(&mut self, a: E) -> E {
        let n = *self.n(a);
        debug_assert!(n.w == 1);
        match n.op {
            Op::Const => self.konst(1, 1 - n.k),
            Op::Ult => self.bin(Op::Ule, n.b, n.a),
            Op::Ule => self.bin(Op::Ult, n.b, n.a),
            Op::Slt => self.bin(Op::Sle, n.b, n.a),
            Op::Sle => self.bin(Op::Slt, n.b, n.a),
            Op::Xor if self.as_const(n.b) == Some(1) => n.a,
            _ => {
                let one = self.konst(1, 1);
                self.intern(Op::Xor, 1, a, one, 0, 0, 0, 0)
            }
        }
    }

    /// A product, quotient or remainder of two small unknowns, in no more bits than needed.
    fn narrow(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        if w <= 8 || self.as_const(a).is_some() || self.as_const(b).is_some() {
            return None;
        }
        let (na, nb) = (self.n(a), self.n(b));
        if op != Op::Mul && nb.lo == 0 {
            return None;
        }
        let mut hi = (na.hi as u128).max(nb.hi as u128);
        if op == Op::Mul {
            hi = na.hi.checked_mul(nb.hi)?;
        }
        let k = (128 - hi.leading_zeros() + 7) / 8 * 8;
        if k >= w || k == 0 {
            return None;
        }
        let x = self.extract(a, k - 1, 0);
        let y = self.extract(b, k - 1, 0);
        let e = self.bin(op, x, y);
        Some(self.zext(e, w))
    }

    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let wa = self.w(a);
        debug_assert_eq!(wa, self.w(b), "{:?}", op);
        let cmp = matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle);
        let w = if cmp { 1 } else { wa };
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let r = bin_const(op, wa, x, y);
            return self.konst(w, r);
        }
        // constants to the right for commutative ops
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            if self.as_const(a).is_some() || (self.as_const(b).is_none() && a > b) {
                std::mem::swap(&mut a, &mut b);
            }
        }
        let m = mask(wa);
        let kb = self.as_const(b);
        let na = *self.n(a);
        match op {
            Op::Add => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if na.op == Op::Add {
                        if let Some(k2) = self.as_const(na.b) {
                            let s = self.konst(wa, k.wrapping_add(k2));
                            return self.bin(Op::Add, na.a, s);
                        }
                    }
                }
                // (x - y) + y
                if na.op == Op::Sub && na.b == b {
                    return na.a;
                }
                let nb = *self.n(b);
                if nb.op == Op::Sub && nb.b == a {
                    return nb.a;
                }
            }
            Op::Sub => {
                if a == b {
                    return self.konst(wa, 0);
                }
                if let Some(k) = kb {
                    let nk = self.konst(wa, (m.wrapping_add(1)).wrapping_sub(k));
                    // keep interval information: only rewrite when it cannot go below zero is unknown
                    if k == 0 {
                        return a;
                    }
                    if na.op == Op::Add && self.as_const(na.b).is_some() {
                        return self.bin(Op::Add, a, nk);
                    }
                }
                // (x + y) - x
                if na.op == Op::Add {
                    if na.a == b {
                        return na.b;
                    }
                    if na.b == b {
                        return na.a;
                    }
                }
            }
            Op::Mul => {
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(1) {
                    return a;
                }
                if let Some(e) = self.narrow(op, a, b) {
                    return e;
                }
            }
            Op::UDiv if kb == Some(1) => return a,
            Op::UDiv | Op::URem => {
                if let Some(e) = self.narrow(op, a, b) {
                    return e;
                }
            }
            Op::And => {
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(m) || a == b {
                    return a;
                }
                if let Some(k) = kb {
                    // low-bit mask that covers the whole interval
                    if k < u128::MAX && (k & (k + 1)) == 0 && (na.hi as u128) <= k {
                        return a;
                    }
                    // low mask = zext(extract)
                    if k < u128::MAX && (k & (k + 1)) == 0 {
                        let bits = 128 - k.leading_zeros();
                        let x = self.extract(a, bits - 1, 0);
                        return self.zext(x, wa);
                    }
                }
                if wa == 1 {
                    let na_ = self.not(a);
                    if na_ == b {
                        return self.konst(1, 0);
                    }
                }
            }
            Op::Or => {
                if kb == Some(0) || a == b {
                    return a;
                }
                if kb == Some(m) {
                    return b;
                }
            }
            Op::Xor => {
                if kb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.konst(wa, 0);
                }
                if wa == 1 && kb == Some(1) {
                    return self.not(a);
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if k >= wa as u128 && op != Op::AShr {
                        return self.konst(wa, 0);
                    }
                    if op == Op::LShr && k < wa as u128 {
                        let x = self.extract(a, wa - 1, k as u32);
                        return self.zext(x, wa);
                    }
                }
            }
            Op::Eq => {
                if a == b {
                    return self.konst(1, 1);
                }
                if wa == 1 {
                    if kb == Some(1) {
                        return a;
                    }
                    if kb == Some(0) {
                        return self.not(a);
                    }
                }
                if let Some(k) = kb {
                    match na.op {
                        Op::ZExt => {
                            let wi = self.w(na.a);
                            if k > mask(wi) {
                                return self.konst(1, 0);
                            }
                            let kk = self.konst(wi, k);
                            return self.bin(Op::Eq, na.a, kk);
                        }
                        Op::Add => {
                            if let Some(k2) = self.as_const(na.b) {
                                let kk = self.konst(wa, k.wrapping_sub(k2));
                                return self.bin(Op::Eq, na.a, kk);
                            }
                        }
                        Op::Xor => {
                            if let Some(k2) = self.as_const(na.b) {
                                let kk = self.konst(wa, k ^ k2);
                                return self.bin(Op::Eq, na.a, kk);
                            }
                        }
                        Op::Ite => {
                            if let (Some(x), Some(y)) = (self.as_const(na.b), self.as_const(na.c)) {
                                return match (x == k, y == k) {
                                    (true, true) => self.konst(1, 1),
                                    (true, false) => na.a,
                                    (false, true) => self.not(na.a),
                                    (false, false) => self.konst(1, 0),
                                };
                            }
                        }
                        _ => {}
                    }
                }
                let nb = *self.n(b);
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Eq, na.a, nb.a);
                }
            }
            Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                if a == b {
                    return self.konst(1, matches!(op, Op::Ule | Op::Sle) as u128);
                }
                let nb = *self.n(b);
                if matches!(op, Op::Slt | Op::Sle) {
                    // both non-negative: unsigned comparison
                    let half = 1u128 << (wa - 1);
                    if na.hi < half && nb.hi < half {
                        return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                    }
                }
                if matches!(op, Op::Ult | Op::Ule) {
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                        return self.bin(op, na.a, nb.a);
                    }
                    if op == Op::Ult && kb == Some(1) {
                        let z = self.konst(wa, 0);
                        return self.bin(Op::Eq, a, z);
                    }
                    if op == Op::Ult && self.as_const(a) == Some(0) {
                        let z = self.konst(wa, 0);
                        let q = self.bin(Op::Eq, b, z);
                        return self.not(q);
                    }
                }
            }
            _ => {}
        }
        self.intern(op, w, a, b, 0, 0, 0, 0)
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.as_const(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.bin(Op::And, nc, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.bin(Op::Or, nc, a);
                }
                _ => {}
            }
        }
        self.intern(Op::Ite, w, c, a, b, 0, 0, 0)
    }

    pub fn zext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        debug_assert!(wa < w);
        let n = *self.n(a);
        match n.op {
            Op::Const => self.konst(w, n.k),
            Op::ZExt => self.zext(n.a, w),
            _ => self.intern(Op::ZExt, w, a, 0, 0, 0, 0, 0),
        }
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        let n = *self.n(a);
        if n.op == Op::Const {
            return self.konst(w, sx(n.k, wa) as u128);
        }
        if n.op == Op::ZExt || (wa > 1 && n.hi < (1u128 << (wa - 1))) {
            return self.zext(a, w);
        }
        self.intern(Op::SExt, w, a, 0, 0, 0, 0, 0)
    }
    pub fn extract(&mut self, a: E, hi: u32, lo: u32) -> E {
        let wa = self.w(a);
        let w = hi - lo + 1;
        if w == wa {
            return a;
        }
        let n = *self.n(a);
        match n.op {
            Op::Const => return self.konst(w, n.k >> lo),
            Op::ZExt => {
                let wi = self.w(n.a);
                if lo >= wi {
                    return self.konst(w, 0);
                }
                if hi < wi {
                    return self.extract(n.a, hi, lo);
                }
                let x = self.extract(n.a, wi - 1, lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let wi = self.w(n.a);
                if hi < wi {
                    return self.extract(n.a, hi, lo);
                }
            }
            Op::Extract => {
                let k = n.k as u32;
                return self.extract(n.a, hi + k, lo + k);
            }
            Op::Concat => {
                let wl = self.w(n.b);
                if hi < wl {
                    return self.extract(n.b, hi, lo);
                }
                if lo >= wl {
                    return self.extract(n.a, hi - wl, lo - wl);
                }
            }
            Op::Ite => {
                // single bytes are mostly put together again
                let (x, y) = (self.as_const(n.b).is_some(), self.as_const(n.c).is_some());
                if (x && y) || (w != 8 && (x || y)) {
                    let x = self.extract(n.b, hi, lo);
                    let y = self.extract(n.c, hi, lo);
                    return self.ite(n.a, x, y);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, hi, lo);
                let y = self.extract(n.b, hi, lo);
                return self.bin(n.op, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 && w != 8 => {
                let x = self.extract(n.a, hi, lo);
                let y = self.extract(n.b, hi, lo);
                return self.bin(n.op, x, y);
            }
            _ => {}
        }
        self.intern(Op::Extract, w, a, 0, 0, lo as u128, 0, 0)
    }
    /// `a` is the high part.
    pub fn concat(&mut self, a: E, b: E) -> E {
        let (wa, wb) = (self.w(a), self.w(b));
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.konst(wa + wb, (x << wb) | y);
        }
        if self.as_const(a) == Some(0) {
            return self.zext(b, wa + wb);
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a {
            if na.k as u32 == nb.k as u32 + wb {
                return self.extract(na.a, na.k as u32 + wa - 1, nb.k as u32);
            }
        }
        // extract of the upper bits, with the low bits being all the rest
        if na.op == Op::Extract && na.a == b && na.k as u32 == wb {
            unreachable!();
        }
        self.intern(Op::Concat, wa + wb, a, b, 0, 0, 0, 0)
    }

    /// Start evaluating under a new model: forget memoized values.
    pub fn new_epoch(&mut self) {
        self.epoch = self.epoch.wrapping_add(1);
        if self.epoch == 0 {
            for m in &mut self.memo {
                m.0 = 0;
            }
            self.epoch = 1;
        }
    }

    pub fn eval(&mut self, e: E, model: &[u64]) -> u128 {
        let (ep, v) = self.memo[e as usize];
        if ep == self.epoch {
            return v;
        }
        let n = *self.n(e);
        let r = match n.op {
            Op::Const => n.k,
            Op::Var => model.get(n.k as usize).copied().unwrap_or(n.lo as u64) as u128,
            Op::Ite => {
                if self.eval(n.a, model) == 1 {
                    self.eval(n.b, model)
                } else {
                    self.eval(n.c, model)
                }
            }
            Op::ZExt => self.eval(n.a, model),
            Op::SExt => {
                let wa = self.w(n.a);
                (sx(self.eval(n.a, model), wa) as u128) & mask(n.w as u32)
            }
            Op::Extract => (self.eval(n.a, model) >> (n.k as u32)) & mask(n.w as u32),
            Op::Concat => {
                let wb = self.w(n.b);
                (self.eval(n.a, model) << wb) | self.eval(n.b, model)
            }
            op => {
                let wa = self.w(n.a);
                let x = self.eval(n.a, model);
                let y = self.eval(n.b, model);
                let r = bin_const(op, wa, x, y);
                r & mask(n.w as u32)
            }
        };
        self.memo[e as usize] = (self.epoch, r);
        r
    }
}
