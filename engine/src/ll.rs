//! Parser for textual LLVM IR (the subset rustc/LTO emits) into a compact executable form.

use std::collections::HashMap;

pub type TyId = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Struct(Vec<TyId>, bool),
    Arr(u64, TyId),
    Vec(u64, TyId),
    Other,
}

/// A runtime value. `C`: integers up to 64 bits, pointers, floats (as bits). `W`: wider integers
/// (index into the wide arena). `E`: symbolic. `A`: aggregate or vector (offset, length in the
/// aggregate arena).
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Val {
    C(u64),
    E(u32),
    W(u32),
    A(u32, u32),
}

#[derive(Clone, Copy, Debug)]
pub enum Opd {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FBin {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Bit,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpTrunc,
    FpExt,
}

#[derive(Debug)]
pub enum Inst {
    /// An instruction that is not supported.
    Bad(Box<str>),
    Bin(Bin, u32, u32, Opd, Opd),
    /// Like `Bin` on vectors: (op, lane width, lanes, dst, a, b)
    VBin(Bin, u32, u32, u32, Opd, Opd),
    FBin(FBin, bool, u32, Opd, Opd),
    FNeg(bool, u32, Opd),
    /// pred, width, lanes (0 = scalar), dst
    ICmp(Pred, u32, u32, u32, Opd, Opd),
    /// LLVM fcmp predicate number, is f64
    FCmp(u8, bool, u32, Opd, Opd),
    Cast(Cast, TyId, TyId, u32, Opd),
    /// Integer cast on scalars: kind, from width, to width
    ICast(Cast, u32, u32, u32, Opd),
    Load(u32, TyId, Opd),
    Store(TyId, Opd, Opd),
    Gep(u32, Opd, i64, Vec<(Opd, u32, i64)>),
    /// dst, cond, a, b, type, vector condition
    Select(u32, Opd, Opd, Opd, TyId, bool),
    Extract(u32, Opd, Vec<u32>),
    Insert(u32, Opd, Opd, Vec<u32>),
    ExtractEl(u32, Opd, Opd),
    InsertEl(u32, Opd, Opd, Opd),
    Shuffle(u32, Opd, Opd, Vec<i32>, u32),
    Copy(u32, Opd),
    Alloca(u32, u32),
    /// dst (u32::MAX: none), callee, args, return type, normal edge for invoke
    Call(u32, Callee, Vec<Opd>, TyId),
    CmpXchg(u32, TyId, Opd, Opd, Opd),
    AtomicRmw(u32, u8, TyId, Opd, Opd),
    Br(Edge),
    CondBr(Opd, Edge, Edge),
    Switch(Opd, u32, Edge, Vec<(u64, Edge)>),
    Ret(Option<Opd>),
    Unreachable,
    /// Parsed but not supported: reported only if executed.
    Unsupported(String),
}

#[derive(Debug, Clone)]
pub struct Edge {
    pub to: u32,
    pub moves: Vec<(u32, Opd)>,
}

#[derive(Debug, Clone)]
pub enum Callee {
    Fn(u32),
    Ind(Opd),
}

#[derive(Debug)]
pub struct Block {
    pub insts: Vec<Inst>,
    /// Debug location (metadata id) of each instruction, 0 if none.
    pub dbg: Vec<u32>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub nparams: u32,
    pub nregs: u32,
    pub frame: u32,
    pub blocks: Vec<Block>,
    pub defined: bool,
    pub ret: TyId,
    pub params: Vec<TyId>,
}

pub struct Global {
    pub name: String,
    pub data: Vec<u8>,
    pub constant: bool,
}

#[derive(Default, Clone)]
pub struct Scope {
    /// Index into `files`, or u32::MAX.
    pub file: u32,
    pub name: String,
    pub link: String,
    pub parent: u32,
    pub is_sub: bool,
    pub line: u32,
}

#[derive(Default)]
pub struct Debug {
    /// loc id -> (line, scope, inlinedAt)
    pub locs: HashMap<u32, (u32, u32, u32)>,
    pub scopes: HashMap<u32, Scope>,
    pub files: HashMap<u32, String>,
}

pub struct Program {
    pub types: Vec<Ty>,
    pub funcs: Vec<Func>,
    pub fn_by_name: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub aggs: Vec<Val>,
    pub wides: Vec<u128>,
    /// Distances between objects that are stored as 32 bits: see `REL`.
    pub rels: Vec<u64>,
    pub debug: Debug,
}

/// Tag of an index into `Prog::rels`, in the upper 8 of 32 bits.
pub const REL: u64 = 0x7D00_0000;
pub const FN_BASE: u64 = 0xFFFF_0000_0000_0000;
pub fn fn_addr(i: u32) -> u64 {
    FN_BASE + 0x1000 + (i as u64) * 16
}
/// Object id of the i'th global.
pub fn global_addr(i: u32) -> u64 {
    ((i as u64) + 1) << 32
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum T<'a> {
    Word(&'a str),
    Local(&'a str),
    Global(&'a str),
    Meta,
    Attr,
    Num(&'a str),
    Str(&'a str),
    CStr(&'a str),
    P(u8),
    Eof,
}

struct Lex<'a> {
    s: &'a [u8],
    src: &'a str,
    toks: Vec<(T<'a>, bool)>,
}

fn is_word(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b == b'_' || b == b'.' || b == b'$' || b == b'-'
}

impl<'a> Lex<'a> {
    fn run(src: &'a str) -> Vec<(T<'a>, bool)> {
        let mut l = Lex {
            s: src.as_bytes(),
            src,
            toks: Vec::new(),
        };
        let s = l.s;
        let mut i = 0;
        let mut nl = true;
        let n = s.len();
        while i < n {
            let b = s[i];
            match b {
                b'\n' => {
                    nl = true;
                    i += 1;
                    continue;
                }
                b' ' | b'\t' | b'\r' => {
                    i += 1;
                    continue;
                }
                b';' => {
                    while i < n && s[i] != b'\n' {
                        i += 1;
                    }
                    continue;
                }
                b'%' | b'@' => {
                    let (name, j) = if s[i + 1] == b'"' {
                        let mut j = i + 2;
                        while s[j] != b'"' {
                            j += 1;
                        }
                        (&l.src[i + 2..j], j + 1)
                    } else {
                        let mut j = i + 1;
                        while j < n && is_word(s[j]) {
                            j += 1;
                        }
                        (&l.src[i + 1..j], j)
                    };
                    l.toks.push((if b == b'%' { T::Local(name) } else { T::Global(name) }, nl));
                    i = j;
                }
                b'!' => {
                    let mut j = i + 1;
                    while j < n && is_word(s[j]) {
                        j += 1;
                    }
                    l.toks.push((T::Meta, nl));
                    // keep numeric metadata ids
                    if j > i + 1 {
                        l.toks.push((T::Num(&l.src[i + 1..j]), false));
                    }
                    i = j;
                }
                b'#' => {
                    let mut j = i + 1;
                    while j < n && is_word(s[j]) {
                        j += 1;
                    }
                    if l.src[i + 1..j].starts_with("dbg_") {
                        while j < n && s[j] != b'\n' {
                            j += 1;
                        }
                    } else {
                        l.toks.push((T::Attr, nl));
                    }
                    i = j;
                }
                b'"' => {
                    let mut j = i + 1;
                    while s[j] != b'"' {
                        j += 1;
                    }
                    l.toks.push((T::Str(&l.src[i + 1..j]), nl));
                    i = j + 1;
                }
                b'c' if i + 1 < n && s[i + 1] == b'"' => {
                    let mut j = i + 2;
                    while s[j] != b'"' {
                        j += 1;
                    }
                    l.toks.push((T::CStr(&l.src[i + 2..j]), nl));
                    i = j + 1;
                }
                b'0'..=b'9' | b'-' => {
                    let mut j = i + 1;
                    while j < n && (is_word(s[j]) || s[j] == b'+') {
                        j += 1;
                    }
                    l.toks.push((T::Num(&l.src[i..j]), nl));
                    i = j;
                }
                _ if is_word(b) => {
                    let mut j = i + 1;
                    while j < n && is_word(s[j]) {
                        j += 1;
                    }
                    l.toks.push((T::Word(&l.src[i..j]), nl));
                    i = j;
                }
                _ => {
                    l.toks.push((T::P(b), nl));
                    i += 1;
                }
            }
            nl = false;
        }
        l.toks.push((T::Eof, true));
        l.toks
    }
}

struct Ps<'a> {
    t: Vec<(T<'a>, bool)>,
    i: usize,
    ty_map: HashMap<Ty, TyId>,
    named: HashMap<String, TyId>,
    p: Program,
    gmap: HashMap<String, u32>,
    aliases: HashMap<String, String>,
    // function state
    regs: HashMap<String, u32>,
    bmap: HashMap<String, u32>,
    pending: Option<u32>,
    implicit_entry: String,
}

type R<X> = Result<X, String>;

impl<'a> Ps<'a> {
    fn pk(&self) -> T<'a> {
        self.t[self.i].0
    }
    fn pk_at(&self, k: usize) -> T<'a> {
        self.t.get(self.i + k).map(|x| x.0).unwrap_or(T::Eof)
    }
    fn nx(&mut self) -> T<'a> {
        let t = self.t[self.i].0;
        self.i += 1;
        t
    }
    fn at_nl(&self) -> bool {
        self.t[self.i].1
    }
    fn is_p(&self, c: u8) -> bool {
        self.pk() == T::P(c)
    }
    fn eat_p(&mut self, c: u8) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn want(&mut self, c: u8) -> R<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected '{}' got {:?} near {:?}", c as char, self.pk(), &self.t[self.i.saturating_sub(12)..(self.i + 4).min(self.t.len())]))
        }
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if let T::Word(x) = self.pk() {
            if x == w {
                self.i += 1;
                return true;
            }
        }
        false
    }
    fn ty_id(&mut self, t: Ty) -> TyId {
        if let Some(i) = self.ty_map.get(&t) {
            return *i;
        }
        let i = self.p.types.len() as TyId;
        self.p.types.push(t.clone());
        self.ty_map.insert(t, i);
        i
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.nx() {
                T::P(b'(') => d += 1,
                T::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                T::Eof => return,
                _ => {}
            }
        }
    }
    fn type_starts(&self) -> bool {
        match self.pk() {
            T::Word(w) => {
                matches!(w, "void" | "ptr" | "float" | "double" | "half" | "label" | "metadata" | "token" | "fp128" | "x86_fp80")
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit()))
            }
            T::P(b'[') | T::P(b'<') | T::P(b'{') => true,
            T::Local(n) => self.named.contains_key(n),
            _ => false,
        }
    }
    fn ty(&mut self) -> R<TyId> {
        let t = match self.nx() {
            T::Word(w) => match w {
                "void" => Ty::Void,
                "ptr" => {
                    if let T::Word("addrspace") = self.pk() {
                        self.i += 1;
                        self.skip_parens();
                    }
                    Ty::Ptr
                }
                "float" => Ty::F32,
                "double" => Ty::F64,
                _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                _ => Ty::Other,
            },
            T::P(b'[') => {
                let n = self.num()?;
                if !self.eat_w("x") {
                    return Err("array x".into());
                }
                let e = self.ty()?;
                self.want(b']')?;
                Ty::Arr(n, e)
            }
            T::P(b'<') => {
                if self.is_p(b'{') {
                    let t = self.ty()?;
                    self.want(b'>')?;
                    match self.p.types[t as usize].clone() {
                        Ty::Struct(f, _) => Ty::Struct(f, true),
                        _ => unreachable!(),
                    }
                } else {
                    let n = self.num()?;
                    self.eat_w("x");
                    let e = self.ty()?;
                    self.want(b'>')?;
                    Ty::Vec(n, e)
                }
            }
            T::P(b'{') => {
                let mut f = Vec::new();
                if !self.eat_p(b'}') {
                    loop {
                        f.push(self.ty()?);
                        if self.eat_p(b'}') {
                            break;
                        }
                        self.want(b',')?;
                    }
                }
                Ty::Struct(f, false)
            }
            T::Local(n) => return self.named.get(n).copied().ok_or(format!("unknown type {n}")),
            x => return Err(format!("type expected, got {:?} near {:?}", x, &self.t[self.i.saturating_sub(10)..self.i + 3])),
        };
        Ok(self.ty_id(t))
    }
    fn num(&mut self) -> R<u64> {
        match self.nx() {
            T::Num(s) => s.parse().map_err(|_| format!("bad num {s}")),
            x => Err(format!("num expected, got {:?}", x)),
        }
    }
    fn align(&self, t: TyId) -> u64 {
        p_align(&self.p.types, t)
    }
    fn size(&self, t: TyId) -> u64 {
        p_size(&self.p.types, t)
    }
    fn agg(&mut self, v: Vec<Val>) -> Val {
        let off = self.p.aggs.len() as u32;
        let n = v.len() as u32;
        self.p.aggs.extend(v);
        Val::A(off, n)
    }
    fn int_val(&mut self, w: u32, v: u128) -> Val {
        if w <= 64 {
            Val::C((v as u64) & crate::expr::mask64(w))
        } else {
            self.p.wides.push(v & crate::expr::mask(w));
            Val::W(self.p.wides.len() as u32 - 1)
        }
    }
    fn zero(&mut self, t: TyId) -> Val {
        match self.p.types[t as usize].clone() {
            Ty::Int(w) => self.int_val(w, 0),
            Ty::Struct(f, _) => {
                let v = f.iter().map(|x| self.zero(*x)).collect();
                self.agg(v)
            }
            Ty::Arr(n, e) | Ty::Vec(n, e) => {
                let z = self.zero(e);
                self.agg(vec![z; n as usize])
            }
            _ => Val::C(0),
        }
    }
    fn fn_idx(&mut self, n: &str) -> u32 {
        if let Some(i) = self.p.fn_by_name.get(n) {
            return *i;
        }
        let i = self.p.funcs.len() as u32;
        let void = self.ty_id(Ty::Void);
        self.p.funcs.push(Func {
            name: n.to_string(),
            nparams: 0,
            nregs: 0,
            frame: 0,
            blocks: vec![],
            defined: false,
            ret: void,
            params: vec![],
        });
        self.p.fn_by_name.insert(n.to_string(), i);
        i
    }
    fn global_val(&mut self, n: &str) -> u64 {
        if let Some(a) = self.aliases.get(n).cloned() {
            return self.global_val(&a);
        }
        if let Some(i) = self.gmap.get(n) {
            return global_addr(*i);
        }
        let i = self.fn_idx(n);
        fn_addr(i)
    }
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn opd(&mut self, t: TyId) -> R<Opd> {
        if let T::Local(n) = self.pk() {
            self.i += 1;
            return Ok(Opd::R(self.reg(n)));
        }
        Ok(Opd::K(self.konst(t)?))
    }
    fn typed_opd(&mut self) -> R<(TyId, Opd)> {
        let t = self.ty()?;
        let o = self.opd(t)?;
        Ok((t, o))
    }
    fn kint(&mut self, t: TyId) -> R<i128> {
        // typed constant already had its type parsed
        match self.konst(t)? {
            Val::C(v) => {
                let w = match self.p.types[t as usize] {
                    Ty::Int(w) => w,
                    _ => 64,
                };
                Ok(crate::expr::sx(v as u128, w))
            }
            Val::W(i) => Ok(self.p.wides[i as usize] as i128),
            _ => Err("kint".into()),
        }
    }
    fn konst(&mut self, t: TyId) -> R<Val> {
        let ty = self.p.types[t as usize].clone();
        match self.nx() {
            T::Num(s) => match ty {
                Ty::Int(w) => {
                    let v = if let Some(r) = s.strip_prefix('-') {
                        (r.parse::<u128>().map_err(|_| s.to_string())?).wrapping_neg()
                    } else {
                        s.parse::<u128>().map_err(|_| format!("int {s}"))?
                    };
                    Ok(self.int_val(w, v))
                }
                Ty::F64 | Ty::F32 => {
                    let d = if let Some(h) = s.strip_prefix("0x") {
                        f64::from_bits(u64::from_str_radix(h, 16).map_err(|_| format!("float {s}"))?)
                    } else {
                        s.parse::<f64>().map_err(|_| format!("float {s}"))?
                    };
                    if ty == Ty::F64 {
                        Ok(Val::C(d.to_bits()))
                    } else {
                        Ok(Val::C((d as f32).to_bits() as u64))
                    }
                }
                _ => Err(format!("number for type {:?}", ty)),
            },
            T::Global(n) => Ok(Val::C(self.global_val(n))),
            T::CStr(s) => {
                let b = unescape(s);
                let v = b.iter().map(|x| Val::C(*x as u64)).collect();
                Ok(self.agg(v))
            }
            T::P(b'[') => {
                let mut v = Vec::new();
                if !self.eat_p(b']') {
                    loop {
                        let t = self.ty()?;
                        v.push(self.konst(t)?);
                        if self.eat_p(b']') {
                            break;
                        }
                        self.want(b',')?;
                    }
                }
                Ok(self.agg(v))
            }
            T::P(b'{') => {
                let v = self.struct_rest()?;
                Ok(self.agg(v))
            }
            T::P(b'<') => {
                if self.eat_p(b'{') {
                    let v = self.struct_rest()?;
                    self.want(b'>')?;
                    return Ok(self.agg(v));
                }
                let mut v = Vec::new();
                loop {
                    let t = self.ty()?;
                    v.push(self.konst(t)?);
                    if self.eat_p(b'>') {
                        break;
                    }
                    self.want(b',')?;
                }
                Ok(self.agg(v))
            }
            T::Word(w) => match w {
                "true" => Ok(Val::C(1)),
                "false" => Ok(Val::C(0)),
                "null" | "none" => Ok(Val::C(0)),
                "undef" | "poison" | "zeroinitializer" => Ok(self.zero(t)),
                "splat" => {
                    self.want(b'(')?;
                    let et = self.ty()?;
                    let v = self.konst(et)?;
                    self.want(b')')?;
                    match ty {
                        Ty::Vec(n, _) => Ok(self.agg(vec![v; n as usize])),
                        _ => Err("splat".into()),
                    }
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "sext" | "ptrtoaddr" => {
                    while !self.is_p(b'(') {
                        self.i += 1;
                    }
                    self.want(b'(')?;
                    let ft = self.ty()?;
                    let v = self.konst(ft)?;
                    self.eat_w("to");
                    let tt = self.ty()?;
                    self.want(b')')?;
                    let (v, fw) = match v {
                        Val::C(x) => (x as u128, self.bits(ft)),
                        Val::W(i) => (self.p.wides[i as usize], self.bits(ft)),
                        _ => return Err("const cast".into()),
                    };
                    let v = if w == "sext" { crate::expr::sx(v, fw) as u128 } else { v };
                    let tw = self.bits(tt);
                    if w == "trunc" && fw == 64 && tw == 32 && v as u64 as i64 != v as u32 as i32 as i64 {
                        // The distance between two objects, for llvm.load.relative: objects are
                        // further apart here than 32 bits can tell.
                        self.p.rels.push(v as u64);
                        return Ok(Val::C(REL | (self.p.rels.len() as u64 - 1)));
                    }
                    Ok(self.int_val(tw, v))
                }
                "add" | "sub" | "mul" | "xor" => {
                    while !self.is_p(b'(') {
                        self.i += 1;
                    }
                    self.want(b'(')?;
                    let t1 = self.ty()?;
                    let a = self.kint(t1)?;
                    self.want(b',')?;
                    let t2 = self.ty()?;
                    let b = self.kint(t2)?;
                    self.want(b')')?;
                    let r = match w {
                        "add" => a.wrapping_add(b),
                        "sub" => a.wrapping_sub(b),
                        "mul" => a.wrapping_mul(b),
                        _ => a ^ b,
                    };
                    let tw = self.bits(t1);
                    Ok(self.int_val(tw, r as u128))
                }
                "getelementptr" => {
                    while !self.is_p(b'(') {
                        if let T::Word("inrange") = self.pk() {
                            self.i += 1;
                            self.skip_parens();
                            continue;
                        }
                        self.i += 1;
                    }
                    self.want(b'(')?;
                    let et = self.ty()?;
                    self.want(b',')?;
                    let pt = self.ty()?;
                    let base = self.kint(pt)? as u64;
                    let mut idx = Vec::new();
                    while self.eat_p(b',') {
                        let it = self.ty()?;
                        idx.push(self.kint(it)?);
                    }
                    self.want(b')')?;
                    let mut off = 0i64;
                    let mut cur = et;
                    for (k, i) in idx.iter().enumerate() {
                        if k == 0 {
                            off += *i as i64 * self.size(et) as i64;
                        } else {
                            match self.p.types[cur as usize].clone() {
                                Ty::Struct(f, packed) => {
                                    off += field_off(&self.p.types, &f, packed, *i as usize) as i64;
                                    cur = f[*i as usize];
                                }
                                Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                    off += *i as i64 * self.size(e) as i64;
                                    cur = e;
                                }
                                _ => return Err("const gep".into()),
                            }
                        }
                    }
                    Ok(Val::C(base.wrapping_add(off as u64)))
                }
                _ if w.starts_with("f0x") && matches!(ty, Ty::F32 | Ty::F64) => {
                    let b = u64::from_str_radix(&w[3..], 16).map_err(|_| format!("float {w}"))?;
                    Ok(Val::C(b))
                }
                _ => Err(format!("const word {w}")),
            },
            T::Meta => Ok(Val::C(0)),
            x => Err(format!("const {:?} near {:?}", x, &self.t[self.i.saturating_sub(10)..self.i + 3])),
        }
    }
    fn struct_rest(&mut self) -> R<Vec<Val>> {
        let mut v = Vec::new();
        if self.eat_p(b'}') {
            return Ok(v);
        }
        loop {
            let t = self.ty()?;
            v.push(self.konst(t)?);
            if self.eat_p(b'}') {
                return Ok(v);
            }
            self.want(b',')?;
        }
    }
    fn bits(&self, t: TyId) -> u32 {
        match self.p.types[t as usize] {
            Ty::Int(w) => w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 64,
        }
    }
    fn emit_bytes(&self, t: TyId, v: Val, out: &mut [u8]) {
        match self.p.types[t as usize].clone() {
            Ty::Int(w) if w > 64 => {
                let x = match v {
                    Val::W(i) => self.p.wides[i as usize],
                    Val::C(c) => c as u128,
                    _ => panic!(),
                };
                let n = (w as usize).div_ceil(8);
                out[..n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                let n = self.size(t) as usize;
                if let Val::C(c) = v {
                    out[..n].copy_from_slice(&c.to_le_bytes()[..n]);
                } else {
                    panic!("emit");
                }
            }
            Ty::Arr(n, e) | Ty::Vec(n, e) => {
                let sz = self.size(e) as usize;
                if let Val::A(off, len) = v {
                    assert_eq!(len as u64, n);
                    for i in 0..n as usize {
                        let x = self.p.aggs[off as usize + i];
                        self.emit_bytes(e, x, &mut out[i * sz..(i + 1) * sz]);
                    }
                } else {
                    panic!("emit arr");
                }
            }
            Ty::Struct(f, packed) => {
                if let Val::A(off, _) = v {
                    for i in 0..f.len() {
                        let o = field_off(&self.p.types, &f, packed, i) as usize;
                        let x = self.p.aggs[off as usize + i];
                        let sz = self.size(f[i]) as usize;
                        self.emit_bytes(f[i], x, &mut out[o..o + sz]);
                    }
                } else {
                    panic!("emit struct");
                }
            }
            _ => panic!("emit type"),
        }
    }

    /// Skip parameter or return attributes until a type or value can start.
    fn skip_attrs(&mut self, is_start: fn(&Ps<'a>) -> bool) {
        loop {
            if is_start(self) {
                return;
            }
            match self.nx() {
                T::Word("align") => {
                    if let T::Num(_) = self.pk() {
                        self.i += 1;
                    } else if self.is_p(b'(') {
                        self.skip_parens();
                    }
                }
                T::Word(_) => {
                    if self.is_p(b'(') {
                        self.skip_parens();
                    }
                }
                T::Str(_) => {
                    if self.eat_p(b'=') {
                        self.i += 1;
                    }
                }
                T::P(_) | T::Attr => {}
                _ => return,
            }
        }
    }
    fn value_starts(&self) -> bool {
        match self.pk() {
            T::Local(_) | T::Global(_) | T::Num(_) | T::CStr(_) | T::Meta => true,
            T::P(b'[') | T::P(b'{') | T::P(b'<') => true,
            T::P(b',') | T::P(b')') => true,
            T::Word(w) => matches!(
                w,
                "true"
                    | "false"
                    | "null"
                    | "undef"
                    | "poison"
                    | "zeroinitializer"
                    | "splat"
                    | "inttoptr"
                    | "ptrtoint"
                    | "bitcast"
                    | "trunc"
                    | "zext"
                    | "sext"
                    | "add"
                    | "sub"
                    | "mul"
                    | "xor"
                    | "getelementptr"
                    | "none"
                    | "ptrtoaddr"
                    | "blockaddress"
                    | "asm"
            ),
            _ => false,
        }
    }
    fn skip_line(&mut self) {
        self.i += 1;
        while !self.at_nl() {
            self.i += 1;
        }
    }

    fn label(&mut self) -> R<u32> {
        // label %x
        if !self.eat_w("label") {
            return Err(format!("label expected, got {:?}", self.pk()));
        }
        match self.nx() {
            T::Local(n) => Ok(self.block(n)),
            x => Err(format!("label name {:?}", x)),
        }
    }
    fn block(&mut self, n: &str) -> u32 {
        if let Some(b) = self.bmap.get(n) {
            return *b;
        }
        let b = self.bmap.len() as u32;
        self.bmap.insert(n.to_string(), b);
        b
    }
    fn edge(&self, to: u32) -> Edge {
        Edge { to, moves: vec![] }
    }

    fn lanes(&self, t: TyId) -> (u32, u32) {
        match self.p.types[t as usize] {
            Ty::Vec(n, e) => (self.bits(e), n as u32),
            _ => (self.bits(t), 0),
        }
    }

    fn inst(&mut self, dst: Option<&'a str>) -> R<Option<Inst>> {
        let d = match dst {
            Some(n) => self.reg(n),
            None => u32::MAX,
        };
        let mut w = match self.nx() {
            T::Word(w) => w,
            x => return Err(format!("opcode {:?}", x)),
        };
        while matches!(w, "tail" | "musttail" | "notail") {
            w = match self.nx() {
                T::Word(w) => w,
                x => return Err(format!("opcode {:?}", x)),
            };
        }
        let r = match w {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                while !self.type_starts() {
                    self.i += 1;
                }
                let t = self.ty()?;
                let a = self.opd(t)?;
                self.want(b',')?;
                let b = self.opd(t)?;
                let op = match w {
                    "add" => Bin::Add,
                    "sub" => Bin::Sub,
                    "mul" => Bin::Mul,
                    "udiv" => Bin::UDiv,
                    "sdiv" => Bin::SDiv,
                    "urem" => Bin::URem,
                    "srem" => Bin::SRem,
                    "and" => Bin::And,
                    "or" => Bin::Or,
                    "xor" => Bin::Xor,
                    "shl" => Bin::Shl,
                    "lshr" => Bin::LShr,
                    _ => Bin::AShr,
                };
                let (bw, n) = self.lanes(t);
                if n > 0 {
                    Inst::VBin(op, bw, n, d, a, b)
                } else {
                    Inst::Bin(op, bw, d, a, b)
                }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                while !self.type_starts() {
                    self.i += 1;
                }
                let t = self.ty()?;
                let a = self.opd(t)?;
                self.want(b',')?;
                let b = self.opd(t)?;
                let op = match w {
                    "fadd" => FBin::Add,
                    "fsub" => FBin::Sub,
                    "fmul" => FBin::Mul,
                    "fdiv" => FBin::Div,
                    _ => FBin::Rem,
                };
                Inst::FBin(op, self.p.types[t as usize] == Ty::F64, d, a, b)
            }
            "fneg" => {
                while !self.type_starts() {
                    self.i += 1;
                }
                let t = self.ty()?;
                let a = self.opd(t)?;
                Inst::FNeg(self.p.types[t as usize] == Ty::F64, d, a)
            }
            "icmp" => {
                let mut p = self.nx();
                if p == T::Word("samesign") {
                    p = self.nx();
                }
                let pr = match p {
                    T::Word("eq") => Pred::Eq,
                    T::Word("ne") => Pred::Ne,
                    T::Word("ugt") => Pred::Ugt,
                    T::Word("uge") => Pred::Uge,
                    T::Word("ult") => Pred::Ult,
                    T::Word("ule") => Pred::Ule,
                    T::Word("sgt") => Pred::Sgt,
                    T::Word("sge") => Pred::Sge,
                    T::Word("slt") => Pred::Slt,
                    T::Word("sle") => Pred::Sle,
                    x => return Err(format!("pred {:?}", x)),
                };
                let t = self.ty()?;
                let a = self.opd(t)?;
                self.want(b',')?;
                let b = self.opd(t)?;
                let (bw, n) = self.lanes(t);
                Inst::ICmp(pr, bw, n, d, a, b)
            }
            "fcmp" => {
                let mut pr = None;
                while !self.type_starts() {
                    if let T::Word(x) = self.nx() {
                        pr = ["false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "uno", "ueq", "ugt", "uge", "ult", "ule", "une", "true"]
                            .iter()
                            .position(|y| *y == x)
                            .or(pr);
                    }
                }
                let t = self.ty()?;
                let a = self.opd(t)?;
                self.want(b',')?;
                let b = self.opd(t)?;
                Inst::FCmp(pr.unwrap() as u8, self.p.types[t as usize] == Ty::F64, d, a, b)
            }
            "trunc" | "zext" | "sext" | "bitcast" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fptrunc" | "fpext" => {
                while !self.type_starts() {
                    self.i += 1;
                }
                let t = self.ty()?;
                let a = self.opd(t)?;
                self.eat_w("to");
                let tt = self.ty()?;
                let (fw, fl) = self.lanes(t);
                let (tw, _) = self.lanes(tt);
                let k = match w {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "inttoptr" | "ptrtoint" | "ptrtoaddr" => {
                        if fw > tw {
                            Cast::Trunc
                        } else {
                            Cast::ZExt
                        }
                    }
                    "bitcast" => Cast::Bit,
                    "fptoui" => Cast::FpToUi,
                    "fptosi" => Cast::FpToSi,
                    "uitofp" => Cast::UiToFp,
                    "sitofp" => Cast::SiToFp,
                    "fptrunc" => Cast::FpTrunc,
                    _ => Cast::FpExt,
                };
                if matches!(k, Cast::Trunc | Cast::ZExt | Cast::SExt) && fl == 0 {
                    if fw == tw {
                        Inst::Copy(d, a)
                    } else {
                        Inst::ICast(k, fw, tw, d, a)
                    }
                } else {
                    Inst::Cast(k, t, tt, d, a)
                }
            }
            "freeze" => {
                let (_, a) = self.typed_opd()?;
                Inst::Copy(d, a)
            }
            "load" => {
                while matches!(self.pk(), T::Word("atomic") | T::Word("volatile")) {
                    self.i += 1;
                }
                let t = self.ty()?;
                self.want(b',')?;
                let (_, p) = self.typed_opd()?;
                Inst::Load(d, t, p)
            }
            "store" => {
                while matches!(self.pk(), T::Word("atomic") | T::Word("volatile")) {
                    self.i += 1;
                }
                let (t, v) = self.typed_opd()?;
                self.want(b',')?;
                let (_, p) = self.typed_opd()?;
                Inst::Store(t, v, p)
            }
            "getelementptr" => {
                while !self.type_starts() {
                    self.i += 1;
                }
                let et = self.ty()?;
                self.want(b',')?;
                let (_, base) = self.typed_opd()?;
                let mut off = 0i64;
                let mut terms = Vec::new();
                let mut cur = et;
                let mut k = 0;
                while self.is_p(b',') {
                    if let T::Meta = self.pk_at(1) {
                        break;
                    }
                    self.i += 1;
                    let (it, o) = self.typed_opd()?;
                    let iw = self.bits(it);
                    let scale;
                    if k == 0 {
                        scale = self.size(et) as i64;
                    } else {
                        match self.p.types[cur as usize].clone() {
                            Ty::Struct(f, packed) => {
                                let i = match o {
                                    Opd::K(Val::C(c)) => c as usize,
                                    _ => return Err("struct gep".into()),
                                };
                                off += field_off(&self.p.types, &f, packed, i) as i64;
                                cur = f[i];
                                k += 1;
                                continue;
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                scale = self.size(e) as i64;
                                cur = e;
                            }
                            _ => return Err("gep".into()),
                        }
                    }
                    match o {
                        Opd::K(Val::C(c)) => {
                            off = off.wrapping_add((crate::expr::sx(c as u128, iw) as i64).wrapping_mul(scale))
                        }
                        _ => terms.push((o, iw, scale)),
                    }
                    k += 1;
                }
                Inst::Gep(d, base, off, terms)
            }
            "select" => {
                while !self.type_starts() {
                    self.i += 1;
                }
                let (ct, c) = self.typed_opd()?;
                self.want(b',')?;
                let (t, a) = self.typed_opd()?;
                self.want(b',')?;
                let (_, b) = self.typed_opd()?;
                let vec = matches!(self.p.types[ct as usize], Ty::Vec(..));
                Inst::Select(d, c, a, b, t, vec)
            }
            "extractvalue" => {
                let (_, a) = self.typed_opd()?;
                let mut ix = Vec::new();
                while self.is_p(b',') {
                    if let T::Num(_) = self.pk_at(1) {
                        self.i += 1;
                        ix.push(self.num()? as u32);
                    } else {
                        break;
                    }
                }
                Inst::Extract(d, a, ix)
            }
            "insertvalue" => {
                let (_, a) = self.typed_opd()?;
                self.want(b',')?;
                let (_, v) = self.typed_opd()?;
                let mut ix = Vec::new();
                while self.is_p(b',') {
                    if let T::Num(_) = self.pk_at(1) {
                        self.i += 1;
                        ix.push(self.num()? as u32);
                    } else {
                        break;
                    }
                }
                Inst::Insert(d, a, v, ix)
            }
            "extractelement" => {
                let (_, a) = self.typed_opd()?;
                self.want(b',')?;
                let (_, i) = self.typed_opd()?;
                Inst::ExtractEl(d, a, i)
            }
            "insertelement" => {
                let (_, a) = self.typed_opd()?;
                self.want(b',')?;
                let (_, v) = self.typed_opd()?;
                self.want(b',')?;
                let (_, i) = self.typed_opd()?;
                Inst::InsertEl(d, a, v, i)
            }
            "shufflevector" => {
                let (t, a) = self.typed_opd()?;
                self.want(b',')?;
                let (_, b) = self.typed_opd()?;
                self.want(b',')?;
                let mt = self.ty()?;
                let m = self.konst(mt)?;
                let mut ix = Vec::new();
                if let Val::A(o, n) = m {
                    for i in 0..n {
                        if let Val::C(c) = self.p.aggs[(o + i) as usize] {
                            ix.push(c as i32);
                        }
                    }
                }
                let n = self.lanes(t).1;
                Inst::Shuffle(d, a, b, ix, n)
            }
            "alloca" => {
                let t = self.ty()?;
                let mut n = 1;
                let save = self.i;
                if self.eat_p(b',') && self.type_starts() {
                    let it = self.ty()?;
                    n = self.kint(it)? as u64;
                } else {
                    self.i = save;
                }
                let sz = self.size(t) * n;
                Inst::Alloca(d, sz as u32)
            }
            "call" | "invoke" => {
                self.skip_attrs(|p| p.type_starts());
                let mut rt = self.ty()?;
                if self.is_p(b'(') {
                    // function type
                    self.skip_parens();
                }
                let _ = &mut rt;
                if let T::Word("asm") = self.pk() {
                    self.skip_line();
                    return Ok(Some(Inst::Unsupported("inline asm".into())));
                }
                let callee = match self.nx() {
                    T::Global(n) => {
                        let n = self.aliases.get(n).cloned().unwrap_or(n.to_string());
                        Callee::Fn(self.fn_idx(&n))
                    }
                    T::Local(n) => Callee::Ind(Opd::R(self.reg(n))),
                    T::Word(x) => {
                        self.i -= 1;
                        let pt = self.ty_id(Ty::Ptr);
                        let _ = x;
                        Callee::Ind(Opd::K(self.konst(pt)?))
                    }
                    x => return Err(format!("callee {:?}", x)),
                };
                self.want(b'(')?;
                let mut args = Vec::new();
                if !self.eat_p(b')') {
                    loop {
                        if self.eat_w("metadata") {
                            // metadata operand
                            let mut depth = 0;
                            loop {
                                match self.pk() {
                                    T::P(b'(') => depth += 1,
                                    T::P(b')') if depth == 0 => break,
                                    T::P(b')') => depth -= 1,
                                    T::P(b',') if depth == 0 => break,
                                    _ => {}
                                }
                                self.i += 1;
                            }
                            args.push(Opd::K(Val::C(0)));
                        } else {
                            let t = self.ty()?;
                            self.skip_attrs(|p| p.value_starts());
                            args.push(self.opd(t)?);
                        }
                        if self.eat_p(b')') {
                            break;
                        }
                        self.want(b',')?;
                    }
                }
                if w == "invoke" {
                    while !matches!(self.pk(), T::Word("to")) {
                        self.i += 1;
                    }
                    self.i += 1;
                    let n = self.label()?;
                    self.eat_w("unwind");
                    let _u = self.label()?;
                    // represented as call; br
                    self.pending = Some(n);
                }
                Inst::Call(d, callee, args, rt)
            }
            "cmpxchg" => {
                while matches!(self.pk(), T::Word("weak") | T::Word("volatile")) {
                    self.i += 1;
                }
                let (_, p) = self.typed_opd()?;
                self.want(b',')?;
                let (t, c) = self.typed_opd()?;
                self.want(b',')?;
                let (_, n) = self.typed_opd()?;
                Inst::CmpXchg(d, t, p, c, n)
            }
            "atomicrmw" => {
                self.eat_w("volatile");
                let op = match self.nx() {
                    T::Word("xchg") => 0,
                    T::Word("add") => 1,
                    T::Word("sub") => 2,
                    T::Word("and") => 3,
                    T::Word("or") => 4,
                    T::Word("xor") => 5,
                    _ => 255,
                };
                let (_, p) = self.typed_opd()?;
                self.want(b',')?;
                let (t, v) = self.typed_opd()?;
                Inst::AtomicRmw(d, op, t, p, v)
            }
            "fence" => return Ok(None),
            "br" => {
                if matches!(self.pk(), T::Word("label")) {
                    let b = self.label()?;
                    Inst::Br(self.edge(b))
                } else {
                    let (_, c) = self.typed_opd()?;
                    self.want(b',')?;
                    let a = self.label()?;
                    self.want(b',')?;
                    let b = self.label()?;
                    Inst::CondBr(c, self.edge(a), self.edge(b))
                }
            }
            "switch" => {
                let (t, v) = self.typed_opd()?;
                self.want(b',')?;
                let def = self.label()?;
                self.want(b'[')?;
                let mut cs = Vec::new();
                while !self.eat_p(b']') {
                    let ct = self.ty()?;
                    let k = self.konst(ct)?;
                    self.want(b',')?;
                    let b = self.label()?;
                    if let Val::C(c) = k {
                        cs.push((c, self.edge(b)));
                    } else {
                        return Err("wide switch".into());
                    }
                }
                Inst::Switch(v, self.bits(t), self.edge(def), cs)
            }
            "ret" => {
                if self.eat_w("void") {
                    Inst::Ret(None)
                } else {
                    let (_, v) = self.typed_opd()?;
                    Inst::Ret(Some(v))
                }
            }
            "unreachable" => Inst::Unreachable,
            "resume" | "landingpad" | "cleanupret" | "catchswitch" | "va_arg" | "indirectbr" => {
                // may span lines (landingpad): skip continuation lines that start with cleanup/catch/filter
                self.skip_line();
                while matches!(self.pk(), T::Word("cleanup") | T::Word("catch") | T::Word("filter")) {
                    self.skip_line();
                }
                return Ok(Some(Inst::Unsupported(w.to_string())));
            }
            _ => return Err(format!("unknown opcode {w}")),
        };
        Ok(Some(r))
    }

    fn func_body(&mut self, idx: u32) -> R<()> {
        // at '{'
        self.want(b'{')?;
        let mut blocks: Vec<Option<Block>> = Vec::new();
        let mut phis: HashMap<u32, Vec<(u32, Vec<(u32, Opd)>)>> = HashMap::new();
        let mut frame = 0u32;
        let mut cur: Option<(u32, Block)> = None;
        let put = |blocks: &mut Vec<Option<Block>>, c: Option<(u32, Block)>| {
            if let Some((i, b)) = c {
                while blocks.len() <= i as usize {
                    blocks.push(None);
                }
                blocks[i as usize] = Some(b);
            }
        };
        loop {
            if self.is_p(b'}') && self.at_nl() {
                self.i += 1;
                put(&mut blocks, cur.take());
                break;
            }
            // label?
            if self.at_nl() && self.pk_at(1) == T::P(b':') {
                let n = match self.nx() {
                    T::Word(n) | T::Num(n) | T::Str(n) => n,
                    x => return Err(format!("label def {:?}", x)),
                };
                self.i += 1;
                put(&mut blocks, cur.take());
                let b = self.block(n);
                cur = Some((
                    b,
                    Block {
                        insts: vec![],
                        dbg: vec![],
                    },
                ));
                continue;
            }
            if cur.is_none() {
                // implicit entry block gets a number equal to the number of params
                let n = self.implicit_entry.clone();
                let b = self.block(&n);
                cur = Some((
                    b,
                    Block {
                        insts: vec![],
                        dbg: vec![],
                    },
                ));
            }
            let dst = if let T::Local(n) = self.pk() {
                self.i += 1;
                self.want(b'=')?;
                Some(n)
            } else {
                None
            };
            let start = self.i;
            if let T::Word("phi") = self.pk() {
                self.i += 1;
                while !self.type_starts() {
                    self.i += 1;
                }
                let t = self.ty()?;
                let d = self.reg(dst.unwrap());
                let mut inc = Vec::new();
                loop {
                    self.want(b'[')?;
                    let v = self.opd(t)?;
                    self.want(b',')?;
                    let b = match self.nx() {
                        T::Local(n) => self.block(n),
                        x => return Err(format!("phi {:?}", x)),
                    };
                    self.want(b']')?;
                    inc.push((b, v));
                    if self.is_p(b',') && self.pk_at(1) == T::P(b'[') {
                        self.i += 1;
                    } else {
                        break;
                    }
                }
                phis.entry(cur.as_ref().unwrap().0).or_default().push((d, inc));
                while !self.at_nl() {
                    self.i += 1;
                }
                continue;
            }
            self.pending = None;
            // what cannot be read is only an error when it is executed
            let mut ins = match self.inst(dst) {
                Ok(i) => i,
                Err(e) => {
                    if let Some(d) = dst {
                        self.reg(d);
                    }
                    self.pending = None;
                    Some(Inst::Bad(format!("{} in {} near {:?}", e, self.p.funcs[idx as usize].name, &self.t[start..(start + 14).min(self.t.len())]).into()))
                }
            };
            // rest of line: metadata
            let mut dbg = 0;
            while !self.at_nl() {
                if self.pk() == T::Meta {
                    if let T::Num("dbg") = self.pk_at(1) {
                        if let (T::Meta, T::Num(x)) = (self.pk_at(2), self.pk_at(3)) {
                            dbg = x.parse().unwrap_or(0);
                        }
                    }
                }
                self.i += 1;
            }
            if let Some(Inst::Alloca(d, sz)) = ins {
                let off = frame;
                frame += (sz + 15) & !15;
                ins = Some(Inst::Alloca(d, off));
            }
            if let Some(x) = ins {
                let b = &mut cur.as_mut().unwrap().1;
                b.insts.push(x);
                b.dbg.push(dbg);
                if let Some(n) = self.pending.take() {
                    b.insts.push(Inst::Br(Edge { to: n, moves: vec![] }));
                    b.dbg.push(dbg);
                }
            }
        }
        // attach phi moves to edges
        let mut out = Vec::new();
        for (bi, b) in blocks.into_iter().enumerate() {
            let mut b = b.ok_or_else(|| format!("missing block in {}", self.p.funcs[idx as usize].name))?;
            let fix = |e: &mut Edge| {
                if let Some(ps) = phis.get(&e.to) {
                    for (d, inc) in ps {
                        if let Some((_, v)) = inc.iter().find(|(p, _)| *p == bi as u32) {
                            e.moves.push((*d, *v));
                        }
                    }
                }
            };
            if let Some(l) = b.insts.last_mut() {
                match l {
                    Inst::Br(e) => fix(e),
                    Inst::CondBr(_, x, y) => {
                        fix(x);
                        fix(y);
                    }
                    Inst::Switch(_, _, d, cs) => {
                        fix(d);
                        for c in cs {
                            fix(&mut c.1);
                        }
                    }
                    _ => {}
                }
            }
            out.push(b);
        }
        let f = &mut self.p.funcs[idx as usize];
        f.blocks = out;
        f.frame = frame;
        f.nregs = self.regs.len() as u32;
        f.defined = true;
        Ok(())
    }
}

pub fn field_off(types: &[Ty], f: &[TyId], packed: bool, i: usize) -> u64 {
    let mut o = 0u64;
    for (k, t) in f.iter().enumerate() {
        if !packed {
            let a = p_align(types, *t);
            o = o.div_ceil(a) * a;
        }
        if k == i {
            return o;
        }
        o += p_size(types, *t);
    }
    o
}
pub fn p_align(types: &[Ty], t: TyId) -> u64 {
    match &types[t as usize] {
        Ty::Int(w) => match w {
            0..=8 => 1,
            9..=16 => 2,
            17..=32 => 4,
            33..=64 => 8,
            _ => 16,
        },
        Ty::Ptr | Ty::F64 => 8,
        Ty::F32 => 4,
        Ty::Struct(_, true) => 1,
        Ty::Struct(f, _) => f.iter().map(|x| p_align(types, *x)).max().unwrap_or(1),
        Ty::Arr(_, e) => p_align(types, *e),
        Ty::Vec(n, e) => (n * p_size(types, *e)).next_power_of_two().max(1),
        _ => 1,
    }
}
pub fn p_size(types: &[Ty], t: TyId) -> u64 {
    match &types[t as usize] {
        Ty::Int(w) => {
            let b = (*w as u64).div_ceil(8);
            let a = p_align(types, t);
            b.div_ceil(a) * a
        }
        Ty::Ptr | Ty::F64 => 8,
        Ty::F32 => 4,
        Ty::Struct(f, packed) => {
            let o = field_off(types, f, *packed, usize::MAX);
            if *packed {
                o
            } else {
                let a = p_align(types, t);
                o.div_ceil(a) * a
            }
        }
        Ty::Arr(n, e) | Ty::Vec(n, e) => n * p_size(types, *e),
        _ => 0,
    }
}

fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

fn field<'a>(line: &'a str, key: &str) -> Option<&'a str> {
    let mut from = 0;
    while let Some(p) = line[from..].find(key) {
        let at = from + p;
        let prev = line.as_bytes()[at - 1];
        if prev == b'(' || prev == b' ' {
            let rest = &line[at + key.len()..];
            return Some(rest);
        }
        from = at + key.len();
    }
    None
}
fn fnum(line: &str, key: &str) -> u32 {
    field(line, key)
        .map(|r| {
            let r = r.trim_start_matches('!');
            let e = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
            r[..e].parse().unwrap_or(0)
        })
        .unwrap_or(0)
}
fn fstr(line: &str, key: &str) -> String {
    field(line, key)
        .and_then(|r| r.strip_prefix('"'))
        .and_then(|r| r.find('"').map(|e| r[..e].to_string()))
        .unwrap_or_default()
}

fn parse_debug(line: &str, d: &mut Debug) {
    let eq = match line.find(" = ") {
        Some(e) => e,
        None => return,
    };
    let id: u32 = match line[1..eq].parse() {
        Ok(i) => i,
        Err(_) => return,
    };
    let rest = line[eq + 3..].trim_start_matches("distinct ");
    if rest.starts_with("!DILocation(") {
        d.locs.insert(id, (fnum(rest, "line: "), fnum(rest, "scope: "), fnum(rest, "inlinedAt: ")));
    } else if rest.starts_with("!DISubprogram(") {
        d.scopes.insert(
            id,
            Scope {
                file: fnum(rest, "file: "),
                name: fstr(rest, "name: "),
                link: fstr(rest, "linkageName: "),
                parent: 0,
                is_sub: true,
                line: fnum(rest, "line: "),
            },
        );
    } else if rest.starts_with("!DILexicalBlock") {
        d.scopes.insert(
            id,
            Scope {
                file: fnum(rest, "file: "),
                parent: fnum(rest, "scope: "),
                ..Default::default()
            },
        );
    } else if rest.starts_with("!DIFile(") {
        d.files.insert(id, fstr(rest, "filename: "));
    }
}

pub fn parse(src: &str) -> R<Program> {
    // Split off module-level metadata (parsed line by line) from everything else.
    let mut debug = Debug::default();
    let mut end = src.len();
    if let Some(p) = src.find("\nattributes #0") {
        end = p + 1;
    }
    for line in src[end..].lines() {
        if line.starts_with('!') {
            parse_debug(line, &mut debug);
        }
    }
    let toks = Lex::run(&src[..end]);
    let mut ps = Ps {
        t: toks,
        i: 0,
        ty_map: HashMap::new(),
        named: HashMap::new(),
        p: Program {
            types: vec![],
            funcs: vec![],
            fn_by_name: HashMap::new(),
            globals: vec![],
            aggs: vec![],
            wides: vec![],
            rels: Vec::new(),
            debug,
        },
        gmap: HashMap::new(),
        aliases: HashMap::new(),
        regs: HashMap::new(),
        bmap: HashMap::new(),
        pending: None,
        implicit_entry: String::new(),
    };
    // pass 1: globals and named types
    let mut ginit: Vec<(u32, TyId, usize)> = Vec::new();
    let mut fdefs = Vec::new();
    while ps.pk() != T::Eof {
        match ps.pk() {
            T::Global(n) if ps.at_nl() => {
                ps.i += 1;
                ps.want(b'=')?;
                let mut external = false;
                let mut alias = false;
                let mut constant = false;
                loop {
                    match ps.nx() {
                        T::Word("external") | T::Word("extern_weak") => external = true,
                        T::Word("global") => break,
                        T::Word("constant") => {
                            constant = true;
                            break;
                        }
                        T::Word("alias") => {
                            alias = true;
                            break;
                        }
                        T::Word(_) => {
                            if ps.is_p(b'(') {
                                ps.skip_parens();
                            }
                        }
                        x => return Err(format!("global {n}: {:?}", x)),
                    }
                }
                if alias {
                    while !matches!(ps.pk(), T::Global(_)) {
                        ps.i += 1;
                    }
                    if let T::Global(t) = ps.nx() {
                        ps.aliases.insert(n.to_string(), t.to_string());
                    }
                } else {
                    let t = ps.ty()?;
                    let gi = ps.p.globals.len() as u32;
                    let sz = ps.size(t) as usize;
                    ps.p.globals.push(Global {
                        name: n.to_string(),
                        data: vec![0; sz],
                        constant,
                    });
                    ps.gmap.insert(n.to_string(), gi);
                    if !external {
                        ginit.push((gi, t, ps.i));
                    }
                }
                while !ps.at_nl() {
                    ps.i += 1;
                }
            }
            T::Local(n) if ps.at_nl() && ps.pk_at(1) == T::P(b'=') => {
                ps.i += 3;
                if ps.eat_w("opaque") {
                    let t = ps.ty_id(Ty::Other);
                    ps.named.insert(n.to_string(), t);
                } else {
                    let t = ps.ty()?;
                    ps.named.insert(n.to_string(), t);
                }
            }
            T::Word("define") if ps.at_nl() => {
                fdefs.push(ps.i);
                // skip the body: find a line that is exactly '}'
                loop {
                    ps.i += 1;
                    if ps.is_p(b'}') && ps.at_nl() {
                        break;
                    }
                }
                ps.i += 1;
            }
            _ => ps.skip_line(),
        }
    }
    for (gi, t, pos) in ginit {
        ps.i = pos;
        let v = ps.konst(t)?;
        let mut buf = std::mem::take(&mut ps.p.globals[gi as usize].data);
        ps.emit_bytes(t, v, &mut buf);
        ps.p.globals[gi as usize].data = buf;
    }
    // the constants of initializers are no longer needed
    for pos in fdefs {
        ps.i = pos + 1;
        ps.regs.clear();
        ps.bmap.clear();
        ps.skip_attrs(|p| p.type_starts());
        let rt = ps.ty()?;
        let name = match ps.nx() {
            T::Global(n) => n.to_string(),
            x => return Err(format!("define {:?}", x)),
        };
        let idx = ps.fn_idx(&name);
        ps.want(b'(')?;
        let mut n = 0;
        let mut unnamed = 0;
        let mut params = vec![];
        if !ps.eat_p(b')') {
            loop {
                if ps.eat_p(b'.') || matches!(ps.pk(), T::Word("...")) {
                    ps.i += 1;
                    if ps.eat_p(b')') {
                        break;
                    }
                }
                let t = ps.ty()?;
                params.push(t);
                ps.skip_attrs(|p| matches!(p.pk(), T::Local(_) | T::P(b',') | T::P(b')')));
                if let T::Local(pn) = ps.pk() {
                    ps.i += 1;
                    ps.reg(pn);
                    if pn.bytes().all(|b| b.is_ascii_digit()) {
                        unnamed += 1;
                    }
                } else {
                    unnamed += 1;
                    let nm = format!("{n}");
                    ps.reg(&nm);
                }
                n += 1;
                if ps.eat_p(b')') {
                    break;
                }
                ps.want(b',')?;
            }
        }
        ps.p.funcs[idx as usize].nparams = n;
        ps.p.funcs[idx as usize].ret = rt;
        ps.p.funcs[idx as usize].params = params;
        ps.implicit_entry = format!("{unnamed}");
        while !ps.is_p(b'{') {
            ps.i += 1;
        }
        ps.func_body(idx)?;
    }
    Ok(ps.p)
}
