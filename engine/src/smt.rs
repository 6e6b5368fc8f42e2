//! Z3 through its C API. A query is first put as linear integer arithmetic, when the bit-vector
//! terms in it have an exact integer reading (wrap-around is spelled out as a case split wherever
//! the operands' ranges do not rule it out); otherwise, or when that is undecided, as bit-vectors.

use crate::expr::{mask, Arena, Op, E};
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};

type P = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const std::os::raw::c_char;
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_sub(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_div(c: P, a: P, b: P) -> P;
    fn Z3_mk_mod(c: P, a: P, b: P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
}

extern "C" fn on_error(c: P, e: c_int) {
    let m = unsafe { std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("z3 error: {}", m.to_string_lossy());
    std::process::exit(3);
}

pub enum Res {
    Sat(Vec<(u32, u64)>),
    Unsat,
    Unknown,
}

pub struct Smt {
    ctx: P,
    solver: P,
    bv: Vec<P>,
    bl: Vec<P>,
    vars: Vec<(u32, P)>,
    isolver: P,
    int_sort: P,
    /// Integer reading of a term: unset, impossible, or the term.
    it: Vec<Tr>,
    ib: Vec<Tr>,
    /// Decide every query both ways and compare.
    pub cross: bool,
    /// Show queries that are not decided in time.
    pub dump: bool,
    pub n_int: u64,
    pub n_bv: u64,
}

#[derive(Clone, Copy)]
enum Tr {
    Unset,
    No,
    Yes(P),
}

unsafe impl Send for Smt {}

impl Smt {
    pub fn new(timeout_ms: u32) -> Smt {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(ctx, Some(on_error));
            let l = CString::new("QF_BV").unwrap();
            let solver = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, l.as_ptr()));
            Z3_solver_inc_ref(ctx, solver);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(ctx, solver, p);
            let l2 = CString::new("QF_LIA").unwrap();
            let isolver = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, l2.as_ptr()));
            Z3_solver_inc_ref(ctx, isolver);
            let pi = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, pi);
            Z3_params_set_uint(ctx, pi, Z3_mk_string_symbol(ctx, k.as_ptr()), (timeout_ms / 4).max(500));
            Z3_solver_set_params(ctx, isolver, pi);
            Smt {
                ctx,
                solver,
                bv: Vec::new(),
                bl: Vec::new(),
                vars: Vec::new(),
                isolver,
                int_sort: Z3_mk_int_sort(ctx),
                it: Vec::new(),
                ib: Vec::new(),
                dump: std::env::var_os("SX_DUMP").is_some(),
                cross: std::env::var_os("SX_CROSS").is_some(),
                n_int: 0,
                n_bv: 0,
            }
        }
    }

    fn bv(&mut self, ar: &Arena, e: E) -> P {
        let i = e as usize;
        if i >= self.bv.len() {
            self.bv.resize(ar.nodes.len(), std::ptr::null_mut());
            self.bl.resize(ar.nodes.len(), std::ptr::null_mut());
        }
        if !self.bv[i].is_null() {
            return self.bv[i];
        }
        let n = *ar.n(e);
        let c = self.ctx;
        let w = n.w as u32;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    let s = Z3_mk_bv_sort(c, w);
                    if w <= 64 {
                        Z3_mk_unsigned_int64(c, n.k as u64, s)
                    } else {
                        let t = CString::new(n.k.to_string()).unwrap();
                        Z3_mk_numeral(c, t.as_ptr(), s)
                    }
                }
                Op::Var => {
                    // one z3 constant per (index, width)
                    let sym = Z3_mk_int_symbol(c, (n.k as c_int) * 256 + w as c_int);
                    Z3_mk_const(c, sym, Z3_mk_bv_sort(c, w))
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let b = self.bl(ar, e);
                    let s = Z3_mk_bv_sort(c, 1);
                    Z3_mk_ite(
                        c,
                        b,
                        Z3_mk_unsigned_int64(c, 1, s),
                        Z3_mk_unsigned_int64(c, 0, s),
                    )
                }
                Op::Ite => {
                    let x = self.bl(ar, n.a);
                    let y = self.bv(ar, n.b);
                    let z = self.bv(ar, n.c);
                    Z3_mk_ite(c, x, y, z)
                }
                Op::Extract => {
                    let x = self.bv(ar, n.a);
                    Z3_mk_extract(c, n.k as c_uint + w - 1, n.k as c_uint, x)
                }
                Op::ZExt => {
                    let x = self.bv(ar, n.a);
                    Z3_mk_zero_ext(c, w - ar.w(n.a), x)
                }
                Op::SExt => {
                    let x = self.bv(ar, n.a);
                    Z3_mk_sign_ext(c, w - ar.w(n.a), x)
                }
                _ => {
                    let x = self.bv(ar, n.a);
                    let y = self.bv(ar, n.b);
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, x, y),
                        Op::Sub => Z3_mk_bvsub(c, x, y),
                        Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::And => Z3_mk_bvand(c, x, y),
                        Op::Or => Z3_mk_bvor(c, x, y),
                        Op::Xor => Z3_mk_bvxor(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                        Op::Concat => Z3_mk_concat(c, x, y),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.bv[i] = r;
        r
    }

    fn bl(&mut self, ar: &Arena, e: E) -> P {
        let i = e as usize;
        if i >= self.bl.len() {
            self.bv.resize(ar.nodes.len(), std::ptr::null_mut());
            self.bl.resize(ar.nodes.len(), std::ptr::null_mut());
        }
        if !self.bl[i].is_null() {
            return self.bl[i];
        }
        let n = *ar.n(e);
        assert_eq!(n.w, 1);
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.k == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let x = self.bv(ar, n.a);
                    let y = self.bv(ar, n.b);
                    match n.op {
                        Op::Eq => Z3_mk_eq(c, x, y),
                        Op::Ult => Z3_mk_bvult(c, x, y),
                        Op::Ule => Z3_mk_bvule(c, x, y),
                        Op::Slt => Z3_mk_bvslt(c, x, y),
                        _ => Z3_mk_bvsle(c, x, y),
                    }
                }
                Op::And => {
                    let a = [self.bl(ar, n.a), self.bl(ar, n.b)];
                    Z3_mk_and(c, 2, a.as_ptr())
                }
                Op::Or => {
                    let a = [self.bl(ar, n.a), self.bl(ar, n.b)];
                    Z3_mk_or(c, 2, a.as_ptr())
                }
                Op::Xor => {
                    let x = self.bl(ar, n.a);
                    if ar.as_const(n.b) == Some(1) {
                        Z3_mk_not(c, x)
                    } else {
                        let y = self.bl(ar, n.b);
                        Z3_mk_xor(c, x, y)
                    }
                }
                Op::Ite => {
                    let x = self.bl(ar, n.a);
                    let y = self.bl(ar, n.b);
                    let z = self.bl(ar, n.c);
                    Z3_mk_ite(c, x, y, z)
                }
                _ => {
                    let x = self.bv(ar, e);
                    let s = Z3_mk_bv_sort(c, 1);
                    Z3_mk_eq(c, x, Z3_mk_unsigned_int64(c, 1, s))
                }
            }
        };
        self.bl[i] = r;
        r
    }

    fn num(&self, v: u128) -> P {
        let t = CString::new(v.to_string()).unwrap();
        unsafe { Z3_mk_numeral(self.ctx, t.as_ptr(), self.int_sort) }
    }
    fn iadd(&self, a: P, b: P) -> P {
        unsafe { Z3_mk_add(self.ctx, 2, [a, b].as_ptr()) }
    }
    fn isub(&self, a: P, b: P) -> P {
        unsafe { Z3_mk_sub(self.ctx, 2, [a, b].as_ptr()) }
    }
    fn imul(&self, a: P, k: u128) -> P {
        unsafe { Z3_mk_mul(self.ctx, 2, [a, self.num(k)].as_ptr()) }
    }
    fn grow(&mut self, n: usize) {
        if self.it.len() < n {
            self.it.resize(n, Tr::Unset);
            self.ib.resize(n, Tr::Unset);
        }
    }
    /// The unsigned value of `e` as an integer term.
    fn int(&mut self, ar: &Arena, e: E) -> Option<P> {
        self.grow(ar.nodes.len());
        match self.it[e as usize] {
            Tr::No => return None,
            Tr::Yes(p) => return Some(p),
            Tr::Unset => {}
        }
        let r = self.int1(ar, e);
        self.it[e as usize] = match r {
            None => Tr::No,
            Some(p) => Tr::Yes(p),
        };
        r
    }
    fn int1(&mut self, ar: &Arena, e: E) -> Option<P> {
        let n = *ar.n(e);
        let w = n.w as u32;
        let c = self.ctx;
        if n.op == Op::Const {
            return Some(self.num(n.k));
        }
        if w == 1 && n.op != Op::Var {
            let b = self.ibl(ar, e)?;
            return Some(unsafe { Z3_mk_ite(c, b, self.num(1), self.num(0)) });
        }
        // 2^w; a bound that is never reached for 128 bits
        let m = 1u128.checked_shl(w).unwrap_or(u128::MAX);
        let known = w < 128;
        unsafe {
            Some(match n.op {
                Op::Var => {
                    let sym = Z3_mk_int_symbol(c, (n.k as c_int) * 256 + w as c_int);
                    Z3_mk_const(c, sym, self.int_sort)
                }
                Op::Add => {
                    let (x, y) = (self.int(ar, n.a)?, self.int(ar, n.b)?);
                    let (na, nb) = (ar.n(n.a), ar.n(n.b));
                    let s = self.iadd(x, y);
                    if na.hi.checked_add(nb.hi).map_or(false, |h| h < m) {
                        s
                    } else if !known {
                        return None;
                    } else if na.lo + nb.lo >= m {
                        self.isub(s, self.num(m))
                    } else {
                        Z3_mk_ite(c, Z3_mk_lt(c, s, self.num(m)), s, self.isub(s, self.num(m)))
                    }
                }
                Op::Sub => {
                    let (x, y) = (self.int(ar, n.a)?, self.int(ar, n.b)?);
                    let (na, nb) = (ar.n(n.a), ar.n(n.b));
                    let d = self.isub(x, y);
                    if na.lo >= nb.hi {
                        d
                    } else {
                        let wrap = self.iadd(self.num(mask(w)), self.num(1));
                        Z3_mk_ite(c, Z3_mk_le(c, y, x), d, self.iadd(d, wrap))
                    }
                }
                Op::Mul => {
                    let (k, v) = match (ar.as_const(n.a), ar.as_const(n.b)) {
                        (Some(k), _) => (k, n.b),
                        (_, Some(k)) => (k, n.a),
                        _ => return None,
                    };
                    let x = self.int(ar, v)?;
                    let p = self.imul(x, k);
                    if ar.n(v).hi.checked_mul(k)? < m {
                        p
                    } else if !known {
                        return None;
                    } else {
                        Z3_mk_mod(c, p, self.num(m))
                    }
                }
                Op::UDiv | Op::URem => {
                    let k = ar.as_const(n.b)?;
                    if k == 0 {
                        return None;
                    }
                    let x = self.int(ar, n.a)?;
                    if n.op == Op::UDiv {
                        Z3_mk_div(c, x, self.num(k))
                    } else {
                        Z3_mk_mod(c, x, self.num(k))
                    }
                }
                Op::LShr => {
                    let k = ar.as_const(n.b)?;
                    if k >= w as u128 {
                        return None;
                    }
                    let x = self.int(ar, n.a)?;
                    Z3_mk_div(c, x, self.num(1 << k))
                }
                Op::Shl => {
                    let k = ar.as_const(n.b)?;
                    if k >= w as u128 {
                        return None;
                    }
                    let x = self.int(ar, n.a)?;
                    let p = self.imul(x, 1 << k);
                    if ar.n(n.a).hi <= mask(w) >> k {
                        p
                    } else if !known {
                        return None;
                    } else {
                        Z3_mk_mod(c, p, self.num(m))
                    }
                }
                Op::And => {
                    let (k, v) = match (ar.as_const(n.a), ar.as_const(n.b)) {
                        (Some(k), _) => (k, n.b),
                        (_, Some(k)) => (k, n.a),
                        _ => return None,
                    };
                    if k == u128::MAX || (k + 1) & k != 0 {
                        return None;
                    }
                    let x = self.int(ar, v)?;
                    if ar.n(v).hi as u128 <= k {
                        x
                    } else {
                        Z3_mk_mod(c, x, self.num(k + 1))
                    }
                }
                Op::Ite => {
                    let b = self.ibl(ar, n.a)?;
                    let (x, y) = (self.int(ar, n.b)?, self.int(ar, n.c)?);
                    Z3_mk_ite(c, b, x, y)
                }
                Op::ZExt => self.int(ar, n.a)?,
                Op::SExt => {
                    let x = self.int(ar, n.a)?;
                    let aw = ar.w(n.a);
                    let h = 1u128 << (aw - 1);
                    if (ar.n(n.a).hi as u128) < h {
                        x
                    } else {
                        let up = self.iadd(x, self.num(mask(w) - mask(aw)));
                        Z3_mk_ite(c, Z3_mk_lt(c, x, self.num(h)), x, up)
                    }
                }
                Op::Extract => {
                    let mut x = self.int(ar, n.a)?;
                    let k = n.k as u32;
                    if k > 0 {
                        x = Z3_mk_div(c, x, self.num(1 << k));
                    }
                    if ar.n(n.a).hi >> k >= m {
                        x = Z3_mk_mod(c, x, self.num(m));
                    }
                    x
                }
                Op::Concat => {
                    let (x, y) = (self.int(ar, n.a)?, self.int(ar, n.b)?);
                    let h = self.imul(x, 1u128 << ar.w(n.b));
                    self.iadd(h, y)
                }
                _ => return None,
            })
        }
    }
    fn signed(&mut self, ar: &Arena, e: E) -> Option<P> {
        let x = self.int(ar, e)?;
        let n = *ar.n(e);
        let h = 1u128 << (n.w as u32 - 1);
        if n.hi < h {
            return Some(x);
        }
        let d = self.isub(self.isub(x, self.num(h)), self.num(h));
        Some(unsafe { Z3_mk_ite(self.ctx, Z3_mk_lt(self.ctx, x, self.num(h)), x, d) })
    }
    fn ibl(&mut self, ar: &Arena, e: E) -> Option<P> {
        self.grow(ar.nodes.len());
        match self.ib[e as usize] {
            Tr::No => return None,
            Tr::Yes(p) => return Some(p),
            Tr::Unset => {}
        }
        let r = self.ibl1(ar, e);
        self.ib[e as usize] = match r {
            None => Tr::No,
            Some(p) => Tr::Yes(p),
        };
        r
    }
    fn ibl1(&mut self, ar: &Arena, e: E) -> Option<P> {
        let n = *ar.n(e);
        let c = self.ctx;
        unsafe {
            Some(match n.op {
                Op::Const => {
                    if n.k == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Eq | Op::Ult | Op::Ule => {
                    if n.op == Op::Eq && ar.w(n.a) == 1 {
                        let (x, y) = (self.ibl(ar, n.a)?, self.ibl(ar, n.b)?);
                        return Some(Z3_mk_eq(c, x, y));
                    }
                    let (x, y) = (self.int(ar, n.a)?, self.int(ar, n.b)?);
                    match n.op {
                        Op::Eq => Z3_mk_eq(c, x, y),
                        Op::Ult => Z3_mk_lt(c, x, y),
                        _ => Z3_mk_le(c, x, y),
                    }
                }
                Op::Slt | Op::Sle => {
                    let (x, y) = (self.signed(ar, n.a)?, self.signed(ar, n.b)?);
                    if n.op == Op::Slt {
                        Z3_mk_lt(c, x, y)
                    } else {
                        Z3_mk_le(c, x, y)
                    }
                }
                Op::And | Op::Or => {
                    let a = [self.ibl(ar, n.a)?, self.ibl(ar, n.b)?];
                    if n.op == Op::And {
                        Z3_mk_and(c, 2, a.as_ptr())
                    } else {
                        Z3_mk_or(c, 2, a.as_ptr())
                    }
                }
                Op::Xor => {
                    let x = self.ibl(ar, n.a)?;
                    if ar.as_const(n.b) == Some(1) {
                        Z3_mk_not(c, x)
                    } else {
                        let y = self.ibl(ar, n.b)?;
                        Z3_mk_xor(c, x, y)
                    }
                }
                Op::Ite => {
                    let (x, y, z) = (self.ibl(ar, n.a)?, self.ibl(ar, n.b)?, self.ibl(ar, n.c)?);
                    Z3_mk_ite(c, x, y, z)
                }
                Op::Var => {
                    let x = self.int(ar, e)?;
                    Z3_mk_eq(c, x, self.num(1))
                }
                Op::Extract => {
                    let mut x = self.int(ar, n.a)?;
                    if n.k > 0 {
                        x = Z3_mk_div(c, x, self.num(1 << n.k));
                    }
                    if ar.n(n.a).hi >> n.k > 1 {
                        x = Z3_mk_mod(c, x, self.num(2));
                    }
                    Z3_mk_eq(c, x, self.num(1))
                }
                _ => return None,
            })
        }
    }

    fn finish(&mut self, s: P) -> Res {
        let c = self.ctx;
        unsafe {
            let r = Z3_solver_check(c, s);
            if r == 0 && self.dump {
                let t = std::ffi::CStr::from_ptr(Z3_solver_to_string(c, s));
                eprintln!("undecided in time:\n{}", t.to_string_lossy());
            }
            let out = match r {
                -1 => Res::Unsat,
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut vals = Vec::new();
                    for (idx, x) in &self.vars {
                        let mut v: P = std::ptr::null_mut();
                        assert!(Z3_model_eval(c, m, *x, true, &mut v));
                        let mut u = 0u64;
                        assert!(Z3_get_numeral_uint64(c, v, &mut u));
                        vals.push((*idx, u));
                    }
                    Z3_model_dec_ref(c, m);
                    Res::Sat(vals)
                }
                _ => Res::Unknown,
            };
            Z3_solver_pop(c, s, 1);
            out
        }
    }

    /// Decide the conjunction of `cs` (each of width 1) together with the declared ranges of `vars`
    /// (the variable nodes that occur in `cs`).
    pub fn check(&mut self, ar: &Arena, cs: &[E], vars: &[E]) -> Res {
        let ints: Option<Vec<P>> = cs.iter().map(|e| self.ibl(ar, *e)).collect();
        let mut first = Res::Unknown;
        if let Some(ts) = ints {
            unsafe {
                let (c, s) = (self.ctx, self.isolver);
                Z3_solver_push(c, s);
                self.vars.clear();
                for v in vars {
                    let n = *ar.n(*v);
                    let x = self.int(ar, *v).unwrap();
                    Z3_solver_assert(c, s, Z3_mk_le(c, self.num(n.lo as u128), x));
                    Z3_solver_assert(c, s, Z3_mk_le(c, x, self.num(n.hi as u128)));
                    self.vars.push((n.k as u32, x));
                }
                for t in ts {
                    Z3_solver_assert(c, s, t);
                }
                first = self.finish(s);
            }
            if !matches!(first, Res::Unknown) {
                self.n_int += 1;
                if !self.cross {
                    return first;
                }
            }
        }
        unsafe {
            let (c, s) = (self.ctx, self.solver);
            Z3_solver_push(c, s);
            self.vars.clear();
            for v in vars {
                let n = *ar.n(*v);
                let x = self.bv(ar, *v);
                let w = n.w as u32;
                let sort = Z3_mk_bv_sort(c, w);
                if n.lo > 0 {
                    Z3_solver_assert(c, s, Z3_mk_bvule(c, Z3_mk_unsigned_int64(c, n.lo as u64, sort), x));
                }
                if n.hi < mask(w) {
                    Z3_solver_assert(c, s, Z3_mk_bvule(c, x, Z3_mk_unsigned_int64(c, n.hi as u64, sort)));
                }
                self.vars.push((n.k as u32, x));
            }
            for e in cs {
                let b = self.bl(ar, *e);
                Z3_solver_assert(c, s, b);
            }
            self.n_bv += 1;
            let second = self.finish(s);
            match (&first, &second) {
                (Res::Sat(_), Res::Unsat) | (Res::Unsat, Res::Sat(_)) => {
                    eprintln!("symex: the integer and bit-vector encodings disagree");
                    std::process::exit(3);
                }
                (Res::Unknown, _) => second,
                _ => first,
            }
        }
    }
}

impl Drop for Smt {
    fn drop(&mut self) {
        unsafe { Z3_del_context(self.ctx) }
    }
}
