//! Symbolic execution of one path of a `Program`, guided by a prefix of decisions.

use crate::expr::{mask, mask64, sx, Arena, FxMap, Op, E};
use crate::ll::*;
use crate::smt::{Res, Smt};
use std::sync::{Arc, Mutex};
use std::time::Instant;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Dec {
    pub dir: u32,
    /// The other direction was infeasible: no constraint needed.
    pub forced: bool,
    /// For concretisations: the value compared against.
    pub val: u64,
}

#[derive(Clone, Debug)]
pub struct Item {
    pub prefix: Vec<Dec>,
    pub model: Vec<u64>,
}

#[derive(Clone, Debug)]
pub enum Input {
    Var(u32),
    Pick(u64),
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub id: String,
    pub what: String,
    pub inputs: Vec<u64>,
    pub stack: Vec<String>,
}

#[derive(Debug)]
pub enum Stop {
    Done,
    Infeasible,
    Violation(Viol),
    Error(String),
}

type R<T> = Result<T, Stop>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ext {
    None,
    Unknown,
    Panic,
    Trap,
    Nop,
    Arg0,
    Memcpy,
    Memset,
    GetRandom,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    AlignedAlloc,
    Memcmp,
    Strlen,
    Zero,
    Write,
    Umin(u32),
    Umax(u32),
    Smin(u32),
    Smax(u32),
    Abs(u32),
    Ctlz(u32),
    Cttz(u32),
    Ctpop(u32),
    Bswap(u32),
    Bitrev(u32),
    Fshl(u32),
    Fshr(u32),
    UaddSat(u32),
    UsubSat(u32),
    SaddSat(u32),
    SsubSat(u32),
    UaddO(u32),
    UsubO(u32),
    UmulO(u32),
    SaddO(u32),
    SsubO(u32),
    SmulO(u32),
    Ucmp(u32, u32),
    Scmp(u32, u32),
    LoadRel,
    FUn(u8, bool),
    FBinI(u8, bool),
    FToI(bool, u32, bool),
    VReduce(u8),
    SxVar,
    SxPick,
    SxAssume,
    SxCheck,
    SxCover,
    SxObs,
    SxIsSym,
    SxParam,
    SxEval,
    SxOr,
    SxAnd,
}

fn ext_of(name: &str) -> Ext {
    let iw = |s: &str| -> u32 {
        s.rsplit('.').next().and_then(|x| x.strip_prefix('i')).and_then(|x| x.parse().ok()).unwrap_or(64)
    };
    if let Some(n) = name.strip_prefix("llvm.") {
        let base = |p: &str| n.starts_with(p);
        let w = iw(n);
        if base("memcpy") || base("memmove") {
            return Ext::Memcpy;
        }
        if base("memset") {
            return Ext::Memset;
        }
        if base("lifetime") || base("assume") || base("experimental.noalias") || base("dbg") || base("x86.sse2.pause") || base("prefetch") || base("donothing") {
            return Ext::Nop;
        }
        if base("expect") || base("threadlocal.address") || base("launder") || base("strip.invariant") {
            return Ext::Arg0;
        }
        if base("trap") || base("ubsantrap") || base("debugtrap") {
            return Ext::Trap;
        }
        if base("is.constant") {
            return Ext::Zero;
        }
        if base("umin.i") {
            return Ext::Umin(w);
        }
        if base("umax.i") {
            return Ext::Umax(w);
        }
        if base("smin.i") {
            return Ext::Smin(w);
        }
        if base("smax.i") {
            return Ext::Smax(w);
        }
        if base("abs.i") {
            return Ext::Abs(w);
        }
        if base("ctlz.i") {
            return Ext::Ctlz(w);
        }
        if base("cttz.i") {
            return Ext::Cttz(w);
        }
        if base("ctpop.i") {
            return Ext::Ctpop(w);
        }
        if base("bswap.i") {
            return Ext::Bswap(w);
        }
        if base("bitreverse.i") {
            return Ext::Bitrev(w);
        }
        if base("fshl.i") {
            return Ext::Fshl(w);
        }
        if base("fshr.i") {
            return Ext::Fshr(w);
        }
        if base("uadd.sat.i") {
            return Ext::UaddSat(w);
        }
        if base("usub.sat.i") {
            return Ext::UsubSat(w);
        }
        if base("sadd.sat.i") {
            return Ext::SaddSat(w);
        }
        if base("ssub.sat.i") {
            return Ext::SsubSat(w);
        }
        if base("uadd.with.overflow.i") {
            return Ext::UaddO(w);
        }
        if base("usub.with.overflow.i") {
            return Ext::UsubO(w);
        }
        if base("umul.with.overflow.i") {
            return Ext::UmulO(w);
        }
        if base("sadd.with.overflow.i") {
            return Ext::SaddO(w);
        }
        if base("ssub.with.overflow.i") {
            return Ext::SsubO(w);
        }
        if base("smul.with.overflow.i") {
            return Ext::SmulO(w);
        }
        if base("ucmp.") || base("scmp.") {
            let mut it = n.split('.');
            it.next();
            let p = |s: Option<&str>| s.and_then(|x| x.strip_prefix('i')).and_then(|x| x.parse().ok()).unwrap_or(64);
            let rw = p(it.next());
            let aw = p(it.next());
            return if base("ucmp.") { Ext::Ucmp(rw, aw) } else { Ext::Scmp(rw, aw) };
        }
        if base("load.relative") {
            return Ext::LoadRel;
        }
        let d = n.ends_with("f64");
        for (i, f) in ["round.", "floor.", "ceil.", "trunc.", "rint.", "nearbyint.", "roundeven.", "fabs.", "sqrt."].iter().enumerate() {
            if base(f) {
                return Ext::FUn(i as u8, d);
            }
        }
        for (i, f) in ["minnum.", "maxnum.", "minimum.", "maximum.", "copysign.", "minimumnum.", "maximumnum."].iter().enumerate() {
            if base(f) {
                return Ext::FBinI(i as u8, d);
            }
        }
        if base("fptoui.sat") || base("fptosi.sat") {
            let mut it = n.split('.');
            it.next();
            it.next();
            let w = it.next().and_then(|x| x.strip_prefix('i')).and_then(|x| x.parse().ok()).unwrap_or(64);
            return Ext::FToI(base("fptosi"), w, d);
        }
        if let Some(r) = n.strip_prefix("vector.reduce.") {
            for (i, f) in ["add.", "or.", "and.", "xor.", "umax.", "umin."].iter().enumerate() {
                if r.starts_with(f) {
                    return Ext::VReduce(i as u8);
                }
            }
        }
        return Ext::Unknown;
    }
    match name {
        "malloc" => Ext::Malloc,
        "calloc" => Ext::Calloc,
        "realloc" => Ext::Realloc,
        "free" => Ext::Free,
        "posix_memalign" => Ext::PosixMemalign,
        "aligned_alloc" => Ext::AlignedAlloc,
        "memcmp" | "bcmp" => Ext::Memcmp,
        "strlen" => Ext::Strlen,
        "memcpy" | "memmove" => Ext::Memcpy,
        "memset" => Ext::Memset,
        "abort" => Ext::Trap,
        "getenv" | "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" | "pthread_getspecific" => Ext::Zero,
        "getrandom" => Ext::GetRandom,
        "write" => Ext::Write,
        "roundf" => Ext::FUn(0, false),
        "round" => Ext::FUn(0, true),
        "floorf" => Ext::FUn(1, false),
        "floor" => Ext::FUn(1, true),
        "ceilf" => Ext::FUn(2, false),
        "ceil" => Ext::FUn(2, true),
        "truncf" => Ext::FUn(3, false),
        "trunc" => Ext::FUn(3, true),
        "sx_var" => Ext::SxVar,
        "sx_pick" => Ext::SxPick,
        "sx_assume" => Ext::SxAssume,
        "sx_check" => Ext::SxCheck,
        "sx_cover" => Ext::SxCover,
        "sx_obs" => Ext::SxObs,
        "sx_is_sym" => Ext::SxIsSym,
        "sx_param" => Ext::SxParam,
        "sx_eval" => Ext::SxEval,
        "sx_or" => Ext::SxOr,
        "sx_and" => Ext::SxAnd,
        _ => Ext::Unknown,
    }
}

fn hooked(name: &str) -> Ext {
    if let Some(p) = name.find("4core9panicking") {
        if p < 34 {
            return Ext::Panic;
        }
    }
    if name.contains("3std9panicking11begin_panic") && name.starts_with("_RINv") {
        return Ext::Panic;
    }
    if name.contains("___rustc17rust_begin_unwind") || name.contains("___rustc10rust_panic") {
        return Ext::Panic;
    }
    Ext::None
}

struct Obj {
    data: Vec<u8>,
    sym: Option<Box<FxMap<u32, (E, u8)>>>,
    /// 0: alive, 1: dead, 2: read-only
    state: u8,
    heap: bool,
}

struct Frame {
    f: u32,
    b: u32,
    ip: u32,
    base: u32,
    obj: u32,
    dst: u32,
}

#[derive(Clone)]
pub enum Cached {
    Sat(Arc<Vec<(u32, u64)>>),
    Unsat,
    Unknown,
}

pub struct Cache {
    shards: Vec<Mutex<FxMap<u128, Cached>>>,
}
impl Cache {
    pub fn new() -> Cache {
        Cache {
            shards: (0..64).map(|_| Mutex::new(FxMap::default())).collect(),
        }
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub forks: u64,
    pub picks: u64,
    pub queries: u64,
    pub cache_hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub solver_ns: u128,
    pub checks: u64,
    pub checks_trivial: u64,
    pub check_queries: u64,
    pub steps: u64,
    pub max_steps: u64,
    pub max_query_ns: u128,
    pub sym_branches: u64,
    pub n_int: u64,
    pub n_bv: u64,
}

pub struct Cfg {
    pub entry: u32,
    pub params: Vec<u64>,
    pub step_limit: u64,
    pub timeout_ms: u32,
}

pub struct Exec {
    prog: &'static Program,
    ext: Arc<Vec<Ext>>,
    pub cfg: Arc<Cfg>,
    pub ar: Arena,
    smt: Smt,
    cache: Arc<Cache>,
    regs: Vec<Val>,
    frames: Vec<Frame>,
    objs: Vec<Obj>,
    dirty: Vec<u32>,
    pool: Vec<Vec<u8>>,
    aggs: Vec<Val>,
    wides: Vec<u128>,
    tmp: Vec<Val>,
    // path state
    prefix: Vec<Dec>,
    pos: usize,
    log: Vec<Dec>,
    pc: Vec<E>,
    pcset: FxMap<E, ()>,
    model: Vec<u64>,
    vars: Vec<E>,
    pub inputs: Vec<Input>,
    pub obs: Vec<Val>,
    pub covers: Vec<u32>,
    pub new_items: Vec<Item>,
    pub st: Stats,
    pub check_ids: std::collections::BTreeMap<String, (u64, u64)>,
    pub cov: Vec<Vec<u8>>,
    steps: u64,
}

impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.forks += o.forks;
        self.picks += o.picks;
        self.queries += o.queries;
        self.cache_hits += o.cache_hits;
        self.sat += o.sat;
        self.unsat += o.unsat;
        self.unknown += o.unknown;
        self.solver_ns += o.solver_ns;
        self.checks += o.checks;
        self.checks_trivial += o.checks_trivial;
        self.check_queries += o.check_queries;
        self.steps += o.steps;
        self.max_steps = self.max_steps.max(o.max_steps);
        self.max_query_ns = self.max_query_ns.max(o.max_query_ns);
        self.sym_branches += o.sym_branches;
        self.n_int += o.n_int;
        self.n_bv += o.n_bv;
    }
}

impl Exec {
    pub fn new(prog: &'static Program, cfg: Arc<Cfg>, cache: Arc<Cache>) -> Exec {
        let ext: Vec<Ext> = prog
            .funcs
            .iter()
            .map(|f| {
                let h = hooked(&f.name);
                if h != Ext::None {
                    h
                } else if f.defined {
                    Ext::None
                } else {
                    ext_of(&f.name)
                }
            })
            .collect();
        let mut objs = Vec::new();
        objs.push(Obj {
            data: vec![],
            sym: None,
            state: 1,
            heap: false,
        });
        for g in &prog.globals {
            objs.push(Obj {
                data: g.data.clone(),
                sym: None,
                state: if g.constant { 2 } else { 0 },
                heap: false,
            });
        }
        let timeout = cfg.timeout_ms;
        Exec {
            prog,
            ext: Arc::new(ext),
            cfg,
            ar: Arena::new(),
            smt: Smt::new(timeout),
            cache,
            regs: Vec::new(),
            frames: Vec::new(),
            objs,
            dirty: Vec::new(),
            pool: Vec::new(),
            aggs: prog.aggs.clone(),
            wides: prog.wides.clone(),
            tmp: Vec::new(),
            prefix: Vec::new(),
            pos: 0,
            log: Vec::new(),
            pc: Vec::new(),
            pcset: FxMap::default(),
            model: Vec::new(),
            vars: Vec::new(),
            inputs: Vec::new(),
            obs: Vec::new(),
            covers: Vec::new(),
            new_items: Vec::new(),
            st: Stats::default(),
            check_ids: Default::default(),
            cov: prog.funcs.iter().map(|f| vec![0; f.blocks.len()]).collect(),
            steps: 0,
        }
    }

    fn reset(&mut self) {
        let g = self.prog.globals.len() + 1;
        for o in self.objs.drain(g..) {
            if o.data.capacity() > 0 && self.pool.len() < 256 {
                self.pool.push(o.data);
            }
        }
        for d in std::mem::take(&mut self.dirty) {
            let o = &mut self.objs[d as usize];
            o.sym = None;
            o.data.copy_from_slice(&self.prog.globals[d as usize - 1].data);
        }
        self.aggs.truncate(self.prog.aggs.len());
        self.wides.truncate(self.prog.wides.len());
        self.regs.clear();
        self.frames.clear();
        self.log.clear();
        self.pc.clear();
        self.pcset.clear();
        self.vars.clear();
        self.inputs.clear();
        self.obs.clear();
        self.covers.clear();
        self.pos = 0;
        self.steps = 0;
        if self.ar.nodes.len() > 3_000_000 {
            self.ar = Arena::new();
            self.smt = Smt::new(self.cfg.timeout_ms);
        }
    }

    // ---------------------------------------------------------------- values

    fn ex(&mut self, v: Val, w: u32) -> E {
        match v {
            Val::E(e) => e,
            Val::C(c) => self.ar.konst(w, c as u128),
            Val::W(i) => {
                let x = self.wides[i as usize];
                self.ar.konst(w, x)
            }
            Val::A(..) => panic!("aggregate as expression"),
        }
    }
    fn from_e(&mut self, e: E) -> Val {
        let n = self.ar.n(e);
        if n.op == Op::Const {
            if n.w <= 64 {
                return Val::C(n.k as u64);
            }
            let k = n.k;
            self.wides.push(k);
            return Val::W(self.wides.len() as u32 - 1);
        }
        Val::E(e)
    }
    fn mk_int(&mut self, w: u32, v: u128) -> Val {
        if w <= 64 {
            Val::C(v as u64 & mask64(w))
        } else {
            self.wides.push(v & mask(w));
            Val::W(self.wides.len() as u32 - 1)
        }
    }
    fn conc_int(&self, v: Val) -> Option<u128> {
        match v {
            Val::C(c) => Some(c as u128),
            Val::W(i) => Some(self.wides[i as usize]),
            _ => None,
        }
    }
    fn agg(&mut self, v: &[Val]) -> Val {
        let o = self.aggs.len() as u32;
        self.aggs.extend_from_slice(v);
        Val::A(o, v.len() as u32)
    }
    fn eval(&mut self, e: E) -> u128 {
        self.ar.eval(e, &self.model)
    }
    pub fn eval_val(&mut self, v: Val) -> u64 {
        match v {
            Val::C(c) => c,
            Val::E(e) => self.ar.eval(e, &self.model) as u64,
            _ => 0,
        }
    }
    pub fn input_vals(&mut self) -> Vec<u64> {
        let ins = self.inputs.clone();
        ins.iter()
            .map(|i| match i {
                Input::Pick(k) => *k,
                Input::Var(v) => {
                    let e = self.vars[*v as usize];
                    self.ar.eval(e, &self.model) as u64
                }
            })
            .collect()
    }

    // ---------------------------------------------------------------- solver

    /// Is `pc && extra` satisfiable? On success returns the new model.
    fn query(&mut self, extra: E) -> R<Option<Vec<u64>>> {
        self.st.queries += 1;
        let mut vm = self.ar.n(extra).vars;
        let mut sel: Vec<E> = vec![extra];
        let mut used = vec![false; self.pc.len()];
        loop {
            let mut changed = false;
            for (i, c) in self.pc.iter().enumerate() {
                if !used[i] && self.ar.n(*c).vars & vm != 0 {
                    used[i] = true;
                    sel.push(*c);
                    vm |= self.ar.n(*c).vars;
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        let mut key = 0u128;
        for e in &sel {
            let h = self.ar.n(*e).h;
            let x = (h ^ 0x5bd1e995).wrapping_mul(0x2360ED051FC65DA44385DF649FCCF645);
            key = key.wrapping_add(x ^ (x >> 59));
        }
        let shard = (key >> 100) as usize % 64;
        let hit = self.cache.shards[shard].lock().unwrap().get(&key).cloned();
        let res = match hit {
            Some(r) => {
                self.st.cache_hits += 1;
                r
            }
            None => {
                let mut vs = Vec::new();
                for (i, v) in self.vars.iter().enumerate() {
                    if vm & (1u128 << i.min(127)) != 0 {
                        vs.push(*v);
                    }
                }
                let t = Instant::now();
                let r = self.smt.check(&self.ar, &sel, &vs);
                let ns = t.elapsed().as_nanos();
                self.st.n_int += std::mem::take(&mut self.smt.n_int);
                self.st.n_bv += std::mem::take(&mut self.smt.n_bv);
                self.st.solver_ns += ns;
                self.st.max_query_ns = self.st.max_query_ns.max(ns);
                let c = match r {
                    Res::Sat(m) => {
                        self.st.sat += 1;
                        Cached::Sat(Arc::new(m))
                    }
                    Res::Unsat => {
                        self.st.unsat += 1;
                        Cached::Unsat
                    }
                    Res::Unknown => {
                        self.st.unknown += 1;
                        Cached::Unknown
                    }
                };
                self.cache.shards[shard].lock().unwrap().insert(key, c.clone());
                c
            }
        };
        match res {
            Cached::Unsat => Ok(None),
            Cached::Sat(m) => {
                let mut model = self.model.clone();
                for (i, v) in m.iter() {
                    if model.len() <= *i as usize {
                        model.resize(*i as usize + 1, 0);
                    }
                    model[*i as usize] = *v;
                }
                Ok(Some(model))
            }
            Cached::Unknown => Err(Stop::Error("solver returned unknown (time limit)".into())),
        }
    }

    fn add_pc(&mut self, c: E) {
        if self.pcset.insert(c, ()).is_none() {
            self.pc.push(c);
        }
    }

    fn branch_val(&mut self, c: E, val: u64) -> R<bool> {
        self.st.sym_branches += 1;
        if self.pcset.contains_key(&c) {
            return Ok(true);
        }
        let nc = self.ar.not(c);
        if self.pcset.contains_key(&nc) {
            return Ok(false);
        }
        if self.pos < self.prefix.len() {
            let d = self.prefix[self.pos];
            self.pos += 1;
            self.log.push(d);
            if !d.forced {
                self.add_pc(if d.dir == 1 { c } else { nc });
            }
            return Ok(d.dir == 1);
        }
        let dir = self.eval(c) == 1;
        let (yes, no) = if dir { (c, nc) } else { (nc, c) };
        match self.query(no)? {
            Some(model) => {
                self.st.forks += 1;
                let mut p = self.log.clone();
                p.push(Dec {
                    dir: !dir as u32,
                    forced: false,
                    val,
                });
                self.new_items.push(Item { prefix: p, model });
                self.log.push(Dec {
                    dir: dir as u32,
                    forced: false,
                    val,
                });
                self.add_pc(yes);
            }
            None => {
                self.log.push(Dec {
                    dir: dir as u32,
                    forced: true,
                    val,
                });
            }
        }
        Ok(dir)
    }
    fn branch(&mut self, c: E) -> R<bool> {
        if let Some(k) = self.ar.as_const(c) {
            return Ok(k == 1);
        }
        self.branch_val(c, 0)
    }
    fn truth(&mut self, v: Val) -> R<bool> {
        match v {
            Val::C(c) => Ok(c & 1 == 1),
            Val::E(e) => self.branch(e),
            _ => Err(Stop::Error("truth of aggregate".into())),
        }
    }
    /// Pick a concrete value, forking on the others.
    fn conc(&mut self, v: Val) -> R<u64> {
        let e = match v {
            Val::C(c) => return Ok(c),
            Val::E(e) => e,
            _ => return Err(Stop::Error("concretise wide".into())),
        };
        let w = self.ar.w(e);
        // Every round consumes exactly one decision (even when the equality is
        // already implied), so that a replayed prefix stays in step.
        loop {
            if self.pos < self.prefix.len() {
                let d = self.prefix[self.pos];
                let k = self.ar.konst(w, d.val as u128);
                let c = self.ar.bin(Op::Eq, e, k);
                match self.ar.as_const(c) {
                    Some(b) if b as u32 != d.dir => return Err(self.err("concretisation diverged")),
                    _ => {}
                }
                self.st.sym_branches += 1;
                self.pos += 1;
                self.log.push(d);
                if !d.forced {
                    let c = if d.dir == 1 { c } else { self.ar.not(c) };
                    self.add_pc(c);
                }
                if d.dir == 1 {
                    return Ok(d.val);
                }
                continue;
            }
            let val = self.eval(e) as u64;
            let k = self.ar.konst(w, val as u128);
            let c = self.ar.bin(Op::Eq, e, k);
            if self.ar.as_const(c) == Some(1) || self.pcset.contains_key(&c) {
                self.log.push(Dec {
                    dir: 1,
                    forced: true,
                    val,
                });
                return Ok(val);
            }
            // `e == val` holds in the current model, so this cannot be false.
            if !self.branch_val(c, val)? {
                return Err(self.err("model does not satisfy its own value"));
            }
            return Ok(val);
        }
    }

    fn stack(&self) -> Vec<String> {
        self.frames.iter().rev().take(30).map(|f| self.prog.funcs[f.f as usize].name.clone()).collect()
    }
    fn err(&self, m: impl Into<String>) -> Stop {
        Stop::Error(format!("{} [stack: {}]", m.into(), self.stack().iter().take(6).cloned().collect::<Vec<_>>().join(" < ")))
    }
    fn viol(&mut self, id: &str, what: String) -> Stop {
        let inputs = self.input_vals();
        Stop::Violation(Viol {
            id: id.to_string(),
            what,
            inputs,
            stack: self.stack(),
        })
    }

    // ---------------------------------------------------------------- memory

    fn alloc(&mut self, size: u64, heap: bool) -> R<u64> {
        if size > 1 << 30 {
            return Err(self.err(format!("allocation of {size} bytes")));
        }
        let mut d = self.pool.pop().unwrap_or_default();
        d.clear();
        d.resize(size as usize, 0);
        let id = self.objs.len() as u64;
        if id > 0xEFFF_0000 {
            return Err(self.err("too many objects"));
        }
        self.objs.push(Obj {
            data: d,
            sym: None,
            state: 0,
            heap,
        });
        Ok(id << 32)
    }
    fn kill(&mut self, id: u32) {
        let o = &mut self.objs[id as usize];
        o.state = 1;
        o.sym = None;
        let d = std::mem::take(&mut o.data);
        if self.pool.len() < 256 {
            self.pool.push(d);
        }
    }
    #[inline]
    fn locate(&mut self, addr: u64, n: u64, write: bool) -> R<(usize, usize)> {
        let id = (addr >> 32) as usize;
        let off = (addr & 0xffff_ffff) as usize;
        if id < self.objs.len() {
            let o = &self.objs[id];
            if o.state != 1 && off + n as usize <= o.data.len() {
                if write {
                    if o.state == 2 {
                        return Err(self.viol("memory", "write to read-only memory".into()));
                    }
                    if id <= self.prog.globals.len() {
                        self.dirty.push(id as u32);
                    }
                }
                return Ok((id, off));
            }
        }
        if n == 0 {
            return Ok((0, 0));
        }
        let what = if id < self.objs.len() && id > 0 {
            let o = &self.objs[id];
            if o.state == 1 {
                format!("access of {n} bytes to freed memory")
            } else {
                format!("access of {n} bytes at offset {off} of a {}-byte object", o.data.len())
            }
        } else {
            format!("access of {n} bytes at wild address {addr:#x}")
        };
        Err(self.viol("memory", what))
    }

    fn load_int(&mut self, addr: u64, w: u32) -> R<Val> {
        let n = w.div_ceil(8) as usize;
        let (id, off) = self.locate(addr, n as u64, false)?;
        let o = &self.objs[id];
        if let Some(s) = &o.sym {
            if (0..n).any(|i| s.contains_key(&((off + i) as u32))) {
                return self.load_sym(id, off, n, w);
            }
        }
        let d = &o.data[off..off + n];
        if w <= 64 {
            let v = match n {
                8 => u64::from_le_bytes(d.try_into().unwrap()),
                4 => u32::from_le_bytes(d.try_into().unwrap()) as u64,
                2 => u16::from_le_bytes(d.try_into().unwrap()) as u64,
                1 => d[0] as u64,
                _ => {
                    let mut b = [0u8; 8];
                    b[..n].copy_from_slice(d);
                    u64::from_le_bytes(b)
                }
            };
            Ok(Val::C(v & mask64(w)))
        } else {
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(d);
            Ok(self.mk_int(w, u128::from_le_bytes(b)))
        }
    }
    fn load_sym(&mut self, id: usize, off: usize, n: usize, w: u32) -> R<Val> {
        // whole value stored at once?
        let s = self.objs[id].sym.as_ref().unwrap();
        let first = s.get(&(off as u32)).copied();
        if let Some((e, 0)) = first {
            let ew = self.ar.w(e);
            if ew.div_ceil(8) as usize >= n && (1..n).all(|i| s.get(&((off + i) as u32)) == Some(&(e, i as u8))) {
                if ew == w {
                    return Ok(Val::E(e));
                }
                if ew > w {
                    let r = self.ar.extract(e, w - 1, 0);
                    return Ok(self.from_e(r));
                }
            }
        }
        let mut acc: Option<E> = None;
        for i in 0..n {
            let ent = self.objs[id].sym.as_ref().unwrap().get(&((off + i) as u32)).copied();
            let b = match ent {
                Some((e, k)) => {
                    let ew = self.ar.w(e);
                    let e8 = if ew % 8 != 0 { self.ar.zext(e, ew.div_ceil(8) * 8) } else { e };
                    self.ar.extract(e8, k as u32 * 8 + 7, k as u32 * 8)
                }
                None => {
                    let c = self.objs[id].data[off + i] as u128;
                    self.ar.konst(8, c)
                }
            };
            acc = Some(match acc {
                None => b,
                Some(a) => self.ar.concat(b, a),
            });
        }
        let mut e = acc.unwrap();
        if self.ar.w(e) > w {
            e = self.ar.extract(e, w - 1, 0);
        }
        Ok(self.from_e(e))
    }
    fn store_int(&mut self, addr: u64, w: u32, v: Val) -> R<()> {
        let n = w.div_ceil(8) as usize;
        let (id, off) = self.locate(addr, n as u64, true)?;
        match v {
            Val::E(e) => {
                let e = if w % 8 != 0 { self.ar.zext(e, n as u32 * 8) } else { e };
                if let Some(k) = self.ar.as_const(e) {
                    let x = self.mk_int(n as u32 * 8, k);
                    return self.store_int(addr, n as u32 * 8, x);
                }
                let s = self.objs[id].sym.get_or_insert_with(Default::default);
                for i in 0..n {
                    s.insert((off + i) as u32, (e, i as u8));
                }
            }
            _ => {
                let x = match v {
                    Val::C(c) => c as u128,
                    Val::W(i) => self.wides[i as usize],
                    _ => return Err(self.err("store of aggregate as int")),
                };
                let o = &mut self.objs[id];
                if n <= 8 {
                    o.data[off..off + n].copy_from_slice(&(x as u64).to_le_bytes()[..n]);
                } else {
                    o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                }
                if let Some(s) = &mut o.sym {
                    for i in 0..n {
                        s.remove(&((off + i) as u32));
                    }
                    if s.is_empty() {
                        o.sym = None;
                    }
                }
            }
        }
        Ok(())
    }
    fn scalar_bits(&self, t: TyId) -> Option<u32> {
        match self.prog.types[t as usize] {
            Ty::Int(w) => Some(w),
            Ty::Ptr | Ty::F64 => Some(64),
            Ty::F32 => Some(32),
            _ => None,
        }
    }
    fn load(&mut self, t: TyId, addr: u64) -> R<Val> {
        if let Some(w) = self.scalar_bits(t) {
            return self.load_int(addr, w);
        }
        let p = self.prog;
        match &p.types[t as usize] {
            Ty::Struct(f, packed) => {
                let mut v = Vec::new();
                for i in 0..f.len() {
                    let o = field_off(&p.types, f, *packed, i);
                    v.push(self.load(f[i], addr + o)?);
                }
                Ok(self.agg(&v))
            }
            Ty::Arr(n, e) | Ty::Vec(n, e) => {
                if let Ty::Int(1) = p.types[*e as usize] {
                    return Err(self.err("load of bit vector"));
                }
                let sz = p_size(&p.types, *e);
                let mut v = Vec::new();
                for i in 0..*n {
                    v.push(self.load(*e, addr + i * sz)?);
                }
                Ok(self.agg(&v))
            }
            _ => Err(self.err("load type")),
        }
    }
    fn store(&mut self, t: TyId, addr: u64, v: Val) -> R<()> {
        if let Some(w) = self.scalar_bits(t) {
            return self.store_int(addr, w, v);
        }
        let p = self.prog;
        let (ao, _) = match v {
            Val::A(o, n) => (o, n),
            _ => return Err(self.err("store aggregate")),
        };
        match &p.types[t as usize] {
            Ty::Struct(f, packed) => {
                for i in 0..f.len() {
                    let o = field_off(&p.types, f, *packed, i);
                    let x = self.aggs[ao as usize + i];
                    self.store(f[i], addr + o, x)?;
                }
                Ok(())
            }
            Ty::Arr(n, e) | Ty::Vec(n, e) => {
                let sz = p_size(&p.types, *e);
                for i in 0..*n {
                    let x = self.aggs[ao as usize + i as usize];
                    self.store(*e, addr + i * sz, x)?;
                }
                Ok(())
            }
            _ => Err(self.err("store type")),
        }
    }
    fn memcpy(&mut self, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (si, so) = self.locate(s, n, false)?;
        let (di, d_o) = self.locate(d, n, true)?;
        let n = n as usize;
        if si == di {
            self.objs[si].data.copy_within(so..so + n, d_o);
        } else {
            let (a, b) = if si < di {
                let (x, y) = self.objs.split_at_mut(di);
                (&x[si], &mut y[0])
            } else {
                let (x, y) = self.objs.split_at_mut(si);
                (&y[0], &mut x[di])
            };
            b.data[d_o..d_o + n].copy_from_slice(&a.data[so..so + n]);
        }
        let ents: Vec<(u32, (E, u8))> = match &self.objs[si].sym {
            Some(m) => {
                if m.len() < n {
                    m.iter().filter(|(k, _)| (**k as usize) >= so && (**k as usize) < so + n).map(|(k, v)| (*k, *v)).collect()
                } else {
                    (so..so + n).filter_map(|k| m.get(&(k as u32)).map(|v| (k as u32, *v))).collect()
                }
            }
            None => vec![],
        };
        self.clear_sym(di, d_o, n);
        if !ents.is_empty() {
            let m = self.objs[di].sym.get_or_insert_with(Default::default);
            for (k, v) in ents {
                m.insert((k as usize - so + d_o) as u32, v);
            }
        }
        Ok(())
    }
    fn clear_sym(&mut self, id: usize, off: usize, n: usize) {
        let o = &mut self.objs[id];
        if let Some(m) = &mut o.sym {
            if m.len() < n {
                m.retain(|k, _| (*k as usize) < off || (*k as usize) >= off + n);
            } else {
                for i in 0..n {
                    m.remove(&((off + i) as u32));
                }
            }
            if m.is_empty() {
                o.sym = None;
            }
        }
    }
    fn read_str(&mut self, addr: u64, n: u64) -> R<String> {
        let (id, off) = self.locate(addr, n, false)?;
        Ok(String::from_utf8_lossy(&self.objs[id].data[off..off + n as usize]).into_owned())
    }
    fn location(&mut self, addr: u64) -> String {
        // core::panic::Location { file: (ptr, len), line: u32, col: u32 }
        let r = (|| -> R<String> {
            let p = self.load_int(addr, 64)?;
            let n = self.load_int(addr + 8, 64)?;
            let l = self.load_int(addr + 16, 32)?;
            if let (Val::C(p), Val::C(n), Val::C(l)) = (p, n, l) {
                if n < 400 {
                    let s = self.read_str(p, n)?;
                    return Ok(format!("{s}:{l}"));
                }
            }
            Ok("?".into())
        })();
        r.unwrap_or("?".into())
    }

    // ---------------------------------------------------------------- operations

    fn bin(&mut self, op: Bin, w: u32, a: Val, b: Val) -> R<Val> {
        if w <= 64 {
            if let (Val::C(x), Val::C(y)) = (a, b) {
                let m = mask64(w);
                let sxx = |v: u64| ((v << (64 - w)) as i64) >> (64 - w);
                let r = match op {
                    Bin::Add => x.wrapping_add(y),
                    Bin::Sub => x.wrapping_sub(y),
                    Bin::Mul => x.wrapping_mul(y),
                    Bin::And => x & y,
                    Bin::Or => x | y,
                    Bin::Xor => x ^ y,
                    Bin::Shl => {
                        if y >= w as u64 {
                            0
                        } else {
                            x << y
                        }
                    }
                    Bin::LShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    Bin::AShr => (sxx(x) >> y.min(63)) as u64,
                    Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem => {
                        if y == 0 {
                            return Err(self.viol("ub", "division by zero".into()));
                        }
                        match op {
                            Bin::UDiv => x / y,
                            Bin::URem => x % y,
                            Bin::SDiv => sxx(x).wrapping_div(sxx(y)) as u64,
                            _ => sxx(x).wrapping_rem(sxx(y)) as u64,
                        }
                    }
                };
                return Ok(Val::C(r & m));
            }
        }
        let eop = match op {
            Bin::Add => Op::Add,
            Bin::Sub => Op::Sub,
            Bin::Mul => Op::Mul,
            Bin::And => Op::And,
            Bin::Or => Op::Or,
            Bin::Xor => Op::Xor,
            Bin::Shl => Op::Shl,
            Bin::LShr => Op::LShr,
            Bin::AShr => Op::AShr,
            Bin::UDiv => Op::UDiv,
            Bin::SDiv => Op::SDiv,
            Bin::URem => Op::URem,
            Bin::SRem => Op::SRem,
        };
        if let (Some(x), Some(y)) = (self.conc_int(a), self.conc_int(b)) {
            let r = crate::expr::bin_const(eop, w, x, y);
            return Ok(self.mk_int(w, r));
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        if matches!(op, Bin::UDiv | Bin::SDiv | Bin::URem | Bin::SRem) {
            let z = self.ar.konst(w, 0);
            let c = self.ar.bin(Op::Eq, y, z);
            if self.branch(c)? {
                return Err(self.viol("ub", "division by zero".into()));
            }
        }
        let e = self.ar.bin(eop, x, y);
        Ok(self.from_e(e))
    }

    fn icmp(&mut self, p: Pred, w: u32, a: Val, b: Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let s = |v: u64| ((v << (64 - w)) as i64) >> (64 - w);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => s(x) > s(y),
                Pred::Sge => s(x) >= s(y),
                Pred::Slt => s(x) < s(y),
                Pred::Sle => s(x) <= s(y),
            };
            return Ok(Val::C(r as u64));
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let e = match p {
            Pred::Eq => self.ar.bin(Op::Eq, x, y),
            Pred::Ne => {
                let q = self.ar.bin(Op::Eq, x, y);
                self.ar.not(q)
            }
            Pred::Ugt => self.ar.bin(Op::Ult, y, x),
            Pred::Uge => self.ar.bin(Op::Ule, y, x),
            Pred::Ult => self.ar.bin(Op::Ult, x, y),
            Pred::Ule => self.ar.bin(Op::Ule, x, y),
            Pred::Sgt => self.ar.bin(Op::Slt, y, x),
            Pred::Sge => self.ar.bin(Op::Sle, y, x),
            Pred::Slt => self.ar.bin(Op::Slt, x, y),
            Pred::Sle => self.ar.bin(Op::Sle, x, y),
        };
        Ok(self.from_e(e))
    }

    fn icast(&mut self, k: Cast, fw: u32, tw: u32, a: Val) -> R<Val> {
        if let Val::C(x) = a {
            if tw <= 64 {
                return Ok(Val::C(match k {
                    Cast::Trunc => x & mask64(tw),
                    Cast::ZExt => x,
                    _ => (((x << (64 - fw)) as i64) >> (64 - fw)) as u64 & mask64(tw),
                }));
            }
        }
        let x = self.ex(a, fw);
        let e = match k {
            Cast::Trunc => self.ar.extract(x, tw - 1, 0),
            Cast::ZExt => self.ar.zext(x, tw),
            _ => self.ar.sext(x, tw),
        };
        Ok(self.from_e(e))
    }

    fn to_f(&mut self, v: Val, d: bool) -> R<f64> {
        let c = self.conc(v)?;
        Ok(if d { f64::from_bits(c) } else { f32::from_bits(c as u32) as f64 })
    }

    fn cast(&mut self, k: Cast, ft: TyId, tt: TyId, a: Val) -> R<Val> {
        let p = self.prog;
        let f = p.types[ft as usize].clone();
        let t = p.types[tt as usize].clone();
        let bits = |t: &Ty| match t {
            Ty::Int(w) => *w,
            Ty::F32 => 32,
            _ => 64,
        };
        match k {
            Cast::Trunc | Cast::ZExt | Cast::SExt => {
                if let (Ty::Vec(n, fe), Ty::Vec(_, te)) = (&f, &t) {
                    let (fw, tw) = (bits(&p.types[*fe as usize]), bits(&p.types[*te as usize]));
                    let mut out = Vec::new();
                    if let Val::A(o, _) = a {
                        for i in 0..*n as u32 {
                            let x = self.aggs[(o + i) as usize];
                            out.push(self.icast(k, fw, tw, x)?);
                        }
                    }
                    return Ok(self.agg(&out));
                }
                Err(self.err("cast"))
            }
            Cast::Bit => {
                // flatten to bits and back
                let mut acc = 0u128;
                let mut pos = 0;
                match (&f, a) {
                    (Ty::Vec(n, e), Val::A(o, _)) => {
                        let w = bits(&p.types[*e as usize]);
                        if let Ty::Vec(n2, e2) = &t {
                            if bits(&p.types[*e2 as usize]) == w && n2 == n {
                                return Ok(a);
                            }
                        }
                        for i in 0..*n as u32 {
                            let x = self.aggs[(o + i) as usize];
                            let c = self.conc(x)?;
                            acc |= (c as u128) << pos;
                            pos += w;
                        }
                    }
                    (_, v) => {
                        if !matches!(t, Ty::Vec(..)) {
                            return Ok(v);
                        }
                        acc = match v {
                            Val::W(i) => self.wides[i as usize],
                            v => self.conc(v)? as u128,
                        };
                    }
                }
                match &t {
                    Ty::Vec(n, e) => {
                        let w = bits(&p.types[*e as usize]);
                        let mut out = Vec::new();
                        for i in 0..*n as u32 {
                            let x = (acc >> (i * w)) & mask(w);
                            out.push(self.mk_int(w, x));
                        }
                        Ok(self.agg(&out))
                    }
                    _ => {
                        let w = bits(&t);
                        Ok(self.mk_int(w, acc))
                    }
                }
            }
            Cast::UiToFp | Cast::SiToFp => {
                let w = bits(&f);
                let c = self.conc(a)?;
                let r = if k == Cast::UiToFp {
                    if t == Ty::F64 {
                        (c as f64).to_bits()
                    } else {
                        (c as f32).to_bits() as u64
                    }
                } else {
                    let s = sx(c as u128, w) as i64;
                    if t == Ty::F64 {
                        (s as f64).to_bits()
                    } else {
                        (s as f32).to_bits() as u64
                    }
                };
                Ok(Val::C(r))
            }
            Cast::FpToUi | Cast::FpToSi => {
                let w = bits(&t);
                let x = self.to_f(a, f == Ty::F64)?;
                let r = if k == Cast::FpToUi { x as u128 as u64 } else { x as i64 as u64 };
                Ok(Val::C(r & mask64(w)))
            }
            Cast::FpTrunc => {
                let x = self.to_f(a, true)?;
                Ok(Val::C((x as f32).to_bits() as u64))
            }
            Cast::FpExt => {
                let x = self.to_f(a, false)?;
                Ok(Val::C(x.to_bits()))
            }
        }
    }

    fn select(&mut self, c: Val, a: Val, b: Val, t: TyId, vec: bool) -> R<Val> {
        if vec {
            if let (Val::A(co, n), Val::A(ao, _), Val::A(bo, _)) = (c, a, b) {
                let et = match &self.prog.types[t as usize] {
                    Ty::Vec(_, e) => *e,
                    _ => return Err(self.err("vselect")),
                };
                let mut out = Vec::new();
                for i in 0..n {
                    let (x, y, z) = (self.aggs[(co + i) as usize], self.aggs[(ao + i) as usize], self.aggs[(bo + i) as usize]);
                    out.push(self.select(x, y, z, et, false)?);
                }
                return Ok(self.agg(&out));
            }
            return Err(self.err("vselect"));
        }
        match c {
            Val::C(x) => Ok(if x & 1 == 1 { a } else { b }),
            Val::E(e) => {
                if a == b {
                    return Ok(a);
                }
                match self.prog.types[t as usize] {
                    Ty::Int(w) => {
                        let x = self.ex(a, w);
                        let y = self.ex(b, w);
                        let r = self.ar.ite(e, x, y);
                        Ok(self.from_e(r))
                    }
                    _ => Ok(if self.branch(e)? { a } else { b }),
                }
            }
            _ => Err(self.err("select")),
        }
    }

    fn insert(&mut self, a: Val, v: Val, ix: &[u32]) -> R<Val> {
        if let Val::A(o, n) = a {
            let mut f: Vec<Val> = self.aggs[o as usize..(o + n) as usize].to_vec();
            let i = ix[0] as usize;
            f[i] = if ix.len() == 1 { v } else { self.insert(f[i], v, &ix[1..])? };
            Ok(self.agg(&f))
        } else {
            Err(self.err("insertvalue"))
        }
    }

    // ---------------------------------------------------------------- calls

    fn call_ext(&mut self, x: Ext, name: &str, args: &[Val]) -> R<Val> {
        let bin2 = |s: &mut Self, w: u32, p: Op| -> (E, E, E) {
            let a = s.ex(args[0], w);
            let b = s.ex(args[1], w);
            let c = s.ar.bin(p, a, b);
            (a, b, c)
        };
        match x {
            Ext::None | Ext::Unknown => Err(self.err(format!("call of unmodelled function {name}"))),
            Ext::Panic => {
                let mut loc = "?".to_string();
                if let Some(Val::C(p)) = args.last() {
                    loc = self.location(*p);
                }
                if loc == "?" && args.len() >= 2 {
                    if let Val::C(p) = args[1] {
                        loc = self.location(p);
                    }
                }
                Err(self.viol("panic", format!("panic at {loc} ({name})")))
            }
            Ext::Trap => Err(self.viol("panic", format!("abort/trap ({name})"))),
            Ext::Nop => Ok(Val::C(0)),
            Ext::Zero => Ok(Val::C(0)),
            Ext::Arg0 => Ok(args[0]),
            Ext::Write => Ok(args[2]),
            Ext::Memcpy => {
                let n = self.conc(args[2])?;
                let d = self.conc(args[0])?;
                let s = self.conc(args[1])?;
                self.memcpy(d, s, n)?;
                Ok(Val::C(d))
            }
            // The keys of hash maps: any fixed value will do.
            Ext::GetRandom => {
                let n = self.conc(args[1])?;
                let d = self.conc(args[0])?;
                if n > 0 {
                    let (id, off) = self.locate(d, n, true)?;
                    self.clear_sym(id, off, n as usize);
                    self.objs[id].data[off..off + n as usize].fill(0x5a);
                }
                Ok(Val::C(n))
            }
            Ext::Memset => {
                let n = self.conc(args[2])?;
                let d = self.conc(args[0])?;
                if n == 0 {
                    return Ok(Val::C(d));
                }
                let b = self.conc(args[1])? as u8;
                let (id, off) = self.locate(d, n, true)?;
                self.clear_sym(id, off, n as usize);
                self.objs[id].data[off..off + n as usize].fill(b);
                Ok(Val::C(d))
            }
            Ext::Malloc => {
                let n = self.conc(args[0])?;
                if n > 1 << 30 {
                    return Ok(Val::C(0));
                }
                Ok(Val::C(self.alloc(n, true)?))
            }
            Ext::Calloc => {
                let n = self.conc(args[0])?;
                let m = self.conc(args[1])?;
                if n.saturating_mul(m) > 1 << 30 {
                    return Ok(Val::C(0));
                }
                Ok(Val::C(self.alloc(n * m, true)?))
            }
            Ext::AlignedAlloc => {
                let n = self.conc(args[1])?;
                if n > 1 << 30 {
                    return Ok(Val::C(0));
                }
                Ok(Val::C(self.alloc(n, true)?))
            }
            Ext::PosixMemalign => {
                let n = self.conc(args[2])?;
                if n > 1 << 30 {
                    return Ok(Val::C(12));
                }
                let p = self.conc(args[0])?;
                let a = self.alloc(n, true)?;
                self.store_int(p, 64, Val::C(a))?;
                Ok(Val::C(0))
            }
            Ext::Realloc => {
                let p = self.conc(args[0])?;
                let n = self.conc(args[1])?;
                if n > 1 << 30 {
                    return Ok(Val::C(0));
                }
                let a = self.alloc(n, true)?;
                if p != 0 {
                    let id = (p >> 32) as usize;
                    if id >= self.objs.len() || self.objs[id].state != 0 || !self.objs[id].heap || p as u32 != 0 {
                        return Err(self.viol("memory", "realloc of invalid pointer".into()));
                    }
                    let old = self.objs[id].data.len() as u64;
                    self.memcpy(a, p, old.min(n))?;
                    self.kill(id as u32);
                }
                Ok(Val::C(a))
            }
            Ext::Free => {
                let p = self.conc(args[0])?;
                if p != 0 {
                    let id = (p >> 32) as usize;
                    if id >= self.objs.len() || self.objs[id].state != 0 || !self.objs[id].heap || p as u32 != 0 {
                        return Err(self.viol("memory", "free of invalid pointer".into()));
                    }
                    self.kill(id as u32);
                }
                Ok(Val::C(0))
            }
            Ext::Memcmp => {
                let n = self.conc(args[2])?;
                let p = self.conc(args[0])?;
                let q = self.conc(args[1])?;
                for i in 0..n {
                    let x = self.load_int(p + i, 8)?;
                    let y = self.load_int(q + i, 8)?;
                    let eq = self.icmp(Pred::Eq, 8, x, y)?;
                    if !self.truth(eq)? {
                        let lt = self.icmp(Pred::Ult, 8, x, y)?;
                        return Ok(Val::C(if self.truth(lt)? { 0xffff_ffff } else { 1 }));
                    }
                }
                Ok(Val::C(0))
            }
            Ext::Strlen => {
                let p = self.conc(args[0])?;
                let mut n = 0;
                loop {
                    let b = self.load_int(p + n, 8)?;
                    if self.conc(b)? == 0 {
                        return Ok(Val::C(n));
                    }
                    n += 1;
                }
            }
            Ext::Umin(w) | Ext::Umax(w) | Ext::Smin(w) | Ext::Smax(w) => {
                let op = if matches!(x, Ext::Umin(_) | Ext::Umax(_)) { Op::Ult } else { Op::Slt };
                let (a, b, c) = bin2(self, w, op);
                let e = if matches!(x, Ext::Umin(_) | Ext::Smin(_)) { self.ar.ite(c, a, b) } else { self.ar.ite(c, b, a) };
                Ok(self.from_e(e))
            }
            Ext::Abs(w) => {
                let a = self.ex(args[0], w);
                let z = self.ar.konst(w, 0);
                let neg = self.ar.bin(Op::Slt, a, z);
                let m = self.ar.bin(Op::Sub, z, a);
                let e = self.ar.ite(neg, m, a);
                Ok(self.from_e(e))
            }
            Ext::Ctlz(w) | Ext::Cttz(w) | Ext::Ctpop(w) | Ext::Bswap(w) | Ext::Bitrev(w) => {
                let v = match args[0] {
                    Val::W(i) => self.wides[i as usize],
                    v => self.conc(v)? as u128,
                };
                let r = match x {
                    Ext::Ctlz(_) => (v.leading_zeros() - (128 - w)) as u128,
                    Ext::Cttz(_) => v.trailing_zeros().min(w) as u128,
                    Ext::Ctpop(_) => v.count_ones() as u128,
                    Ext::Bswap(_) => v.swap_bytes() >> (128 - w),
                    _ => v.reverse_bits() >> (128 - w),
                };
                Ok(self.mk_int(w, r))
            }
            Ext::Fshl(w) | Ext::Fshr(w) => {
                let k = self.conc(args[2])? % w as u64;
                let a = self.ex(args[0], w);
                let b = self.ex(args[1], w);
                let cat = self.ar.concat(a, b);
                let lo = if matches!(x, Ext::Fshl(_)) { w - k as u32 } else { k as u32 };
                let e = self.ar.extract(cat, lo + w - 1, lo);
                Ok(self.from_e(e))
            }
            Ext::UsubSat(w) => {
                let (a, b, c) = bin2(self, w, Op::Ult);
                let d = self.ar.bin(Op::Sub, a, b);
                let z = self.ar.konst(w, 0);
                let e = self.ar.ite(c, z, d);
                Ok(self.from_e(e))
            }
            Ext::UaddSat(w) => {
                let (a, _b, s) = bin2(self, w, Op::Add);
                let c = self.ar.bin(Op::Ult, s, a);
                let m = self.ar.konst(w, mask(w));
                let e = self.ar.ite(c, m, s);
                Ok(self.from_e(e))
            }
            Ext::SaddSat(w) | Ext::SsubSat(w) => {
                let a = self.conc(args[0])?;
                let b = self.conc(args[1])?;
                let (a, b) = (sx(a as u128, w), sx(b as u128, w));
                let r = if matches!(x, Ext::SaddSat(_)) { a + b } else { a - b };
                let hi = (1i128 << (w - 1)) - 1;
                Ok(self.mk_int(w, r.clamp(-hi - 1, hi) as u128))
            }
            Ext::UaddO(w) => {
                if let (Val::C(a), Val::C(b), true) = (args[0], args[1], w <= 64) {
                    let s = a as u128 + b as u128;
                    return Ok(self.agg(&[Val::C(s as u64 & mask64(w)), Val::C((s > mask(w)) as u64)]));
                }
                let (a, b, s) = bin2(self, w, Op::Add);
                let o = self.add_overflow(w, a, b, s);
                let (v, o) = (self.from_e(s), self.from_e(o));
                Ok(self.agg(&[v, o]))
            }
            Ext::UsubO(w) => {
                let (a, b, s) = bin2(self, w, Op::Sub);
                let o = self.ar.bin(Op::Ult, a, b);
                let (v, o) = (self.from_e(s), self.from_e(o));
                Ok(self.agg(&[v, o]))
            }
            Ext::UmulO(w) => {
                let (a, b, s) = bin2(self, w, Op::Mul);
                let w2 = (2 * w).min(128);
                let x = self.ar.zext(a, w2);
                let y = self.ar.zext(b, w2);
                let p = self.ar.bin(Op::Mul, x, y);
                let (na, nb) = (*self.ar.n(a), *self.ar.n(b));
                let o = if na.hi.checked_mul(nb.hi).map_or(false, |p| p <= mask(w)) {
                    self.ar.konst(1, 0)
                } else if w > 64 {
                    // a != 0 && a * b / a != b
                    let z = self.ar.konst(w, 0);
                    let z = self.ar.bin(Op::Eq, a, z);
                    let nz = self.ar.not(z);
                    let q = self.ar.bin(Op::UDiv, s, a);
                    let q = self.ar.bin(Op::Eq, q, b);
                    let nq = self.ar.not(q);
                    self.ar.bin(Op::And, nz, nq)
                } else {
                    let h = self.ar.extract(p, w2 - 1, w);
                    let z = self.ar.konst(w2 - w, 0);
                    let q = self.ar.bin(Op::Eq, h, z);
                    self.ar.not(q)
                };
                let (v, o) = (self.from_e(s), self.from_e(o));
                Ok(self.agg(&[v, o]))
            }
            Ext::SaddO(w) | Ext::SsubO(w) | Ext::SmulO(w) => {
                let op = match x {
                    Ext::SaddO(_) => Op::Add,
                    Ext::SsubO(_) => Op::Sub,
                    _ => Op::Mul,
                };
                let (a, b, s) = bin2(self, w, op);
                let w2 = (2 * w).min(128);
                let xa = self.ar.sext(a, w2);
                let xb = self.ar.sext(b, w2);
                let p = self.ar.bin(op, xa, xb);
                let q = self.ar.sext(s, w2);
                let eq = self.ar.bin(Op::Eq, p, q);
                let o = self.ar.not(eq);
                let (v, o) = (self.from_e(s), self.from_e(o));
                Ok(self.agg(&[v, o]))
            }
            Ext::Ucmp(rw, aw) | Ext::Scmp(rw, aw) => {
                let op = if matches!(x, Ext::Ucmp(..)) { Op::Ult } else { Op::Slt };
                let (a, b, lt) = bin2(self, aw, op);
                let eq = self.ar.bin(Op::Eq, a, b);
                let m1 = self.ar.konst(rw, mask(rw));
                let z = self.ar.konst(rw, 0);
                let one = self.ar.konst(rw, 1);
                let t = self.ar.ite(eq, z, one);
                let e = self.ar.ite(lt, m1, t);
                Ok(self.from_e(e))
            }
            Ext::LoadRel => {
                let p = self.conc(args[0])?;
                let o = self.conc(args[1])?;
                let v = self.load_int(p.wrapping_add(o), 32)?;
                let v = self.conc(v)?;
                let d = match v & 0xFF00_0000 {
                    crate::ll::REL => self.prog.rels[(v & 0xFF_FFFF) as usize],
                    _ => v as u32 as i32 as i64 as u64,
                };
                Ok(Val::C(p.wrapping_add(d)))
            }
            Ext::FUn(k, d) => {
                let v = self.to_f(args[0], d)?;
                let r = match k {
                    0 => v.round(),
                    1 => v.floor(),
                    2 => v.ceil(),
                    3 => v.trunc(),
                    4..=6 => v.round_ties_even(),
                    7 => v.abs(),
                    _ => v.sqrt(),
                };
                Ok(Val::C(if d { r.to_bits() } else { (r as f32).to_bits() as u64 }))
            }
            Ext::FBinI(k, d) => {
                let a = self.to_f(args[0], d)?;
                let b = self.to_f(args[1], d)?;
                let r = match k {
                    0 | 2 | 5 => a.min(b),
                    1 | 3 | 6 => a.max(b),
                    _ => a.copysign(b),
                };
                Ok(Val::C(if d { r.to_bits() } else { (r as f32).to_bits() as u64 }))
            }
            Ext::FToI(signed, w, d) => {
                let v = self.to_f(args[0], d)?;
                let r = if signed {
                    let hi = (1i128 << (w - 1)) - 1;
                    (v as i128).clamp(-hi - 1, hi) as u128
                } else {
                    (v as u128).min(mask(w))
                };
                Ok(self.mk_int(w, r))
            }
            Ext::VReduce(k) => {
                if let Val::A(o, n) = args[0] {
                    let mut acc = self.aggs[o as usize];
                    for i in 1..n {
                        let y = self.aggs[(o + i) as usize];
                        // lanes are concrete in practice
                        let (a, b) = (self.conc(acc)?, self.conc(y)?);
                        acc = Val::C(match k {
                            0 => a.wrapping_add(b),
                            1 => a | b,
                            2 => a & b,
                            3 => a ^ b,
                            4 => a.max(b),
                            _ => a.min(b),
                        });
                    }
                    return Ok(acc);
                }
                Err(self.err("vreduce"))
            }
            Ext::SxVar => {
                let (w, lo, hi) = (self.conc(args[0])? as u32, self.conc(args[1])?, self.conc(args[2])?);
                if lo == hi {
                    self.inputs.push(Input::Pick(lo));
                    return Ok(Val::C(lo));
                }
                let idx = self.vars.len() as u32;
                let e = self.ar.var(w, idx, lo, hi);
                self.vars.push(e);
                if self.model.len() <= idx as usize {
                    self.model.push(lo);
                    // memoised evaluations of this variable under the default are still valid
                }
                let m = self.model[idx as usize];
                if m < lo || m > hi {
                    self.model[idx as usize] = lo;
                    self.ar.new_epoch();
                }
                self.inputs.push(Input::Var(idx));
                let e64 = self.ar.zext(e, 64);
                Ok(Val::E(e64))
            }
            Ext::SxPick => {
                let n = self.conc(args[0])? as u32;
                self.st.picks += 1;
                if n == 0 {
                    return Err(Stop::Infeasible);
                }
                let k = if n == 1 {
                    0
                } else if self.pos < self.prefix.len() {
                    let d = self.prefix[self.pos];
                    self.pos += 1;
                    self.log.push(d);
                    d.dir
                } else {
                    for k in (1..n).rev() {
                        let mut p = self.log.clone();
                        p.push(Dec {
                            dir: k,
                            forced: false,
                            val: 0,
                        });
                        self.new_items.push(Item {
                            prefix: p,
                            model: self.model.clone(),
                        });
                        self.st.forks += 1;
                    }
                    self.log.push(Dec {
                        dir: 0,
                        forced: false,
                        val: 0,
                    });
                    0
                };
                self.inputs.push(Input::Pick(k as u64));
                Ok(Val::C(k as u64))
            }
            Ext::SxAssume => {
                match args[0] {
                    Val::C(c) => {
                        if c & 1 == 0 {
                            return Err(Stop::Infeasible);
                        }
                    }
                    Val::E(e) => {
                        let e = if self.ar.w(e) != 1 { self.ar.extract(e, 0, 0) } else { e };
                        if let Some(k) = self.ar.as_const(e) {
                            return if k == 1 { Ok(Val::C(0)) } else { Err(Stop::Infeasible) };
                        }
                        if self.pos >= self.prefix.len() && self.eval(e) != 1 {
                            match self.query(e)? {
                                Some(m) => {
                                    self.model = m;
                                    self.ar.new_epoch();
                                }
                                None => return Err(Stop::Infeasible),
                            }
                        }
                        self.add_pc(e);
                    }
                    _ => {}
                }
                Ok(Val::C(0))
            }
            Ext::SxCheck => {
                let p = self.conc(args[1])?;
                let n = self.conc(args[2])?;
                let id = self.read_str(p, n)?;
                self.st.checks += 1;
                let ent = self.check_ids.entry(id.clone()).or_insert((0, 0));
                ent.0 += 1;
                match args[0] {
                    Val::C(c) => {
                        self.st.checks_trivial += 1;
                        if c & 1 == 0 {
                            return Err(self.viol(&id, "assertion fails".into()));
                        }
                    }
                    Val::E(e) => {
                        let e = if self.ar.w(e) != 1 { self.ar.extract(e, 0, 0) } else { e };
                        match self.ar.as_const(e) {
                            Some(1) => self.st.checks_trivial += 1,
                            Some(_) => return Err(self.viol(&id, "assertion fails".into())),
                            None => {
                                if self.pos >= self.prefix.len() {
                                    ent.1 += 1;
                                    self.st.check_queries += 1;
                                    let ne = self.ar.not(e);
                                    if self.eval(e) != 1 {
                                        return Err(self.viol(&id, "assertion fails".into()));
                                    }
                                    if let Some(m) = self.query(ne)? {
                                        self.model = m;
                                        self.ar.new_epoch();
                                        return Err(self.viol(&id, "assertion fails".into()));
                                    }
                                }
                            }
                        }
                    }
                    _ => {}
                }
                Ok(Val::C(0))
            }
            Ext::SxCover => {
                let k = self.conc(args[0])? as u32;
                if !self.covers.contains(&k) {
                    self.covers.push(k);
                }
                Ok(Val::C(0))
            }
            Ext::SxObs => {
                self.obs.push(args[0]);
                Ok(Val::C(0))
            }
            Ext::SxIsSym => Ok(Val::C(matches!(args[0], Val::E(_)) as u64)),
            Ext::SxEval => {
                // the value under the current model (no constraint): only for hints
                let v = self.eval_val(args[0]);
                Ok(Val::C(v))
            }
            Ext::SxOr | Ext::SxAnd => {
                let a = self.ex(args[0], 1);
                let b = self.ex(args[1], 1);
                let a = if self.ar.w(a) != 1 { self.ar.extract(a, 0, 0) } else { a };
                let b = if self.ar.w(b) != 1 { self.ar.extract(b, 0, 0) } else { b };
                let e = self.ar.bin(if x == Ext::SxOr { Op::Or } else { Op::And }, a, b);
                Ok(self.from_e(e))
            }
            Ext::SxParam => {
                let k = self.conc(args[0])? as usize;
                Ok(Val::C(self.cfg.params.get(k).copied().unwrap_or(0)))
            }
        }
    }

    fn add_overflow(&mut self, w: u32, a: E, b: E, s: E) -> E {
        {
            let (na, nb) = (*self.ar.n(a), *self.ar.n(b));
            if na.hi.checked_add(nb.hi).map_or(false, |s| s <= mask(w)) {
                return self.ar.konst(1, 0);
            }
        }
        self.ar.bin(Op::Ult, s, a)
    }

    // ---------------------------------------------------------------- main loop

    pub fn run(&mut self, item: Item) -> Stop {
        self.reset();
        self.prefix = item.prefix;
        self.model = item.model;
        self.ar.new_epoch();
        let entry = self.cfg.entry;
        if let Err(s) = self.push_frame(entry, &[], u32::MAX) {
            return s;
        }
        let r = match self.go() {
            Ok(()) => Stop::Done,
            Err(s) => s,
        };
        self.st.steps += self.steps;
        self.st.max_steps = self.st.max_steps.max(self.steps);
        r
    }

    fn push_frame(&mut self, f: u32, args: &[Val], dst: u32) -> R<()> {
        let func = &self.prog.funcs[f as usize];
        if self.frames.len() > 100_000 {
            return Err(self.viol("hang", "call depth over 100000".into()));
        }
        let base = self.regs.len();
        self.regs.resize(base + func.nregs as usize, Val::C(0));
        self.regs[base..base + args.len()].copy_from_slice(args);
        let obj = if func.frame > 0 { (self.alloc(func.frame as u64, false)? >> 32) as u32 } else { 0 };
        self.frames.push(Frame {
            f,
            b: 0,
            ip: 0,
            base: base as u32,
            obj,
            dst,
        });
        self.cov[f as usize][0] = 1;
        Ok(())
    }

    fn go(&mut self) -> R<()> {
        let prog = self.prog;
        'frame: loop {
            let (f, mut b, mut ip, base, obj) = {
                let fr = self.frames.last().unwrap();
                (fr.f, fr.b, fr.ip, fr.base as usize, fr.obj)
            };
            let func = &prog.funcs[f as usize];
            macro_rules! get {
                ($o:expr) => {
                    match $o {
                        Opd::R(r) => self.regs[base + *r as usize],
                        Opd::K(v) => *v,
                    }
                };
            }
            macro_rules! set {
                ($d:expr, $v:expr) => {{
                    let v = $v;
                    self.regs[base + *$d as usize] = v;
                }};
            }
            macro_rules! jump {
                ($l:lifetime, $e:expr) => {{
                    let e: &Edge = $e;
                    match e.moves.len() {
                        0 => {}
                        1 => {
                            let (d, o) = &e.moves[0];
                            let v = get!(o);
                            set!(d, v);
                        }
                        _ => {
                            self.tmp.clear();
                            for (_, o) in &e.moves {
                                let v = get!(o);
                                self.tmp.push(v);
                            }
                            for (i, (d, _)) in e.moves.iter().enumerate() {
                                let v = self.tmp[i];
                                set!(d, v);
                            }
                        }
                    }
                    b = e.to;
                    ip = 0;
                    self.cov[f as usize][b as usize] = 1;
                    continue $l;
                }};
            }
            'block: loop {
                let insts = &func.blocks[b as usize].insts;
                loop {
                    let ins = &insts[ip as usize];
                    self.steps += 1;
                    match ins {
                        Inst::Bin(op, w, d, a, c) => {
                            let (x, y) = (get!(a), get!(c));
                            let v = self.bin(*op, *w, x, y)?;
                            set!(d, v);
                        }
                        Inst::ICmp(p, w, 0, d, a, c) => {
                            let (x, y) = (get!(a), get!(c));
                            let v = self.icmp(*p, *w, x, y)?;
                            set!(d, v);
                        }
                        Inst::ICast(k, fw, tw, d, a) => {
                            let x = get!(a);
                            let v = self.icast(*k, *fw, *tw, x)?;
                            set!(d, v);
                        }
                        Inst::Copy(d, a) => {
                            let x = get!(a);
                            set!(d, x);
                        }
                        Inst::Load(d, t, p) => {
                            let a = match get!(p) {
                                Val::C(c) => c,
                                v => {
                                    self.sync(b, ip);
                                    self.conc(v)?
                                }
                            };
                            let v = match self.load(*t, a) {
                                Ok(v) => v,
                                Err(e) => {
                                    self.sync(b, ip);
                                    return Err(e);
                                }
                            };
                            set!(d, v);
                        }
                        Inst::Store(t, v, p) => {
                            let a = match get!(p) {
                                Val::C(c) => c,
                                v => self.conc(v)?,
                            };
                            let v = get!(v);
                            self.store(*t, a, v)?;
                        }
                        Inst::Gep(d, bs, off, terms) => {
                            let x = get!(bs);
                            let mut acc = if *off == 0 { x } else { self.bin(Bin::Add, 64, x, Val::C(*off as u64))? };
                            for (o, iw, sc) in terms {
                                let i = get!(o);
                                let i = if *iw < 64 { self.icast(Cast::SExt, *iw, 64, i)? } else { i };
                                let s = if *sc == 1 { i } else { self.bin(Bin::Mul, 64, i, Val::C(*sc as u64))? };
                                acc = self.bin(Bin::Add, 64, acc, s)?;
                            }
                            set!(d, acc);
                        }
                        Inst::Select(d, c, x, y, t, vec) => {
                            let (c, x, y) = (get!(c), get!(x), get!(y));
                            let v = self.select(c, x, y, *t, *vec)?;
                            set!(d, v);
                        }
                        Inst::Extract(d, a, ix) => {
                            let mut v = get!(a);
                            for i in ix {
                                v = match v {
                                    Val::A(o, _) => self.aggs[(o + i) as usize],
                                    _ => return Err(self.err("extractvalue")),
                                };
                            }
                            set!(d, v);
                        }
                        Inst::Insert(d, a, v, ix) => {
                            let (a, v) = (get!(a), get!(v));
                            let r = self.insert(a, v, ix)?;
                            set!(d, r);
                        }
                        Inst::Bad(m) => return Err(self.err(format!("unsupported instruction: {m}"))),
                        Inst::Alloca(d, off) => {
                            set!(d, Val::C(((obj as u64) << 32) + *off as u64));
                        }
                        Inst::Br(e) => jump!('block, e),
                        Inst::CondBr(c, x, y) => {
                            let c = get!(c);
                            if self.steps > self.cfg.step_limit {
                                self.sync(b, ip);
                                return Err(self.viol("hang", format!("no end after {} steps", self.steps)));
                            }
                            if self.truth(c)? {
                                jump!('block, x)
                            } else {
                                jump!('block, y)
                            }
                        }
                        Inst::Switch(v, w, def, cs) => {
                            let v = get!(v);
                            match v {
                                Val::C(c) => {
                                    for (k, e) in cs {
                                        if *k == c {
                                            jump!('block, e);
                                        }
                                    }
                                    jump!('block, def)
                                }
                                Val::E(x) => {
                                    for (k, e) in cs {
                                        let kk = self.ar.konst(*w, *k as u128);
                                        let c = self.ar.bin(Op::Eq, x, kk);
                                        if self.branch(c)? {
                                            jump!('block, e);
                                        }
                                    }
                                    jump!('block, def)
                                }
                                _ => return Err(self.err("switch")),
                            }
                        }
                        Inst::Ret(v) => {
                            let v = v.as_ref().map(|o| get!(o)).unwrap_or(Val::C(0));
                            let fr = self.frames.pop().unwrap();
                            self.regs.truncate(base);
                            if fr.obj != 0 {
                                self.kill(fr.obj);
                            }
                            match self.frames.last() {
                                None => return Ok(()),
                                Some(p) => {
                                    if fr.dst != u32::MAX {
                                        let i = p.base as usize + fr.dst as usize;
                                        self.regs[i] = v;
                                    }
                                }
                            }
                            continue 'frame;
                        }
                        Inst::Call(d, callee, args, _) => {
                            let mut av = [Val::C(0); 24];
                            for (i, a) in args.iter().enumerate() {
                                av[i] = get!(a);
                            }
                            let fi = match callee {
                                Callee::Fn(i) => *i,
                                Callee::Ind(o) => {
                                    let v = get!(o);
                                    let a = self.conc(v)?;
                                    let k = a.wrapping_sub(FN_BASE + 0x1000);
                                    if a < FN_BASE || k % 16 != 0 || k / 16 >= prog.funcs.len() as u64 {
                                        self.sync(b, ip);
                                        return Err(self.viol("memory", format!("call of invalid function pointer {a:#x}")));
                                    }
                                    (k / 16) as u32
                                }
                            };
                            let x = self.ext[fi as usize];
                            if x == Ext::None {
                                let fr = self.frames.last_mut().unwrap();
                                fr.b = b;
                                fr.ip = ip + 1;
                                let np = (prog.funcs[fi as usize].nparams as usize).min(args.len());
                                self.push_frame(fi, &av[..np], *d)?;
                                continue 'frame;
                            }
                            {
                                let fr = self.frames.last_mut().unwrap();
                                fr.b = b;
                                fr.ip = ip;
                            }
                            let v = self.call_ext(x, &prog.funcs[fi as usize].name, &av[..args.len()])?;
                            if *d != u32::MAX {
                                set!(d, v);
                            }
                        }
                        Inst::VBin(op, w, n, d, a, c) => {
                            let (x, y) = (get!(a), get!(c));
                            if let (Val::A(o1, _), Val::A(o2, _)) = (x, y) {
                                let mut out = Vec::new();
                                for i in 0..*n {
                                    let (p, q) = (self.aggs[(o1 + i) as usize], self.aggs[(o2 + i) as usize]);
                                    out.push(self.bin(*op, *w, p, q)?);
                                }
                                let v = self.agg(&out);
                                set!(d, v);
                            }
                        }
                        Inst::ICmp(p, w, n, d, a, c) => {
                            let (x, y) = (get!(a), get!(c));
                            if let (Val::A(o1, _), Val::A(o2, _)) = (x, y) {
                                let mut out = Vec::new();
                                for i in 0..*n {
                                    let (s, q) = (self.aggs[(o1 + i) as usize], self.aggs[(o2 + i) as usize]);
                                    out.push(self.icmp(*p, *w, s, q)?);
                                }
                                let v = self.agg(&out);
                                set!(d, v);
                            }
                        }
                        Inst::FBin(op, dbl, d, a, c) => {
                            let (x, y) = (get!(a), get!(c));
                            let (x, y) = (self.conc(x)?, self.conc(y)?);
                            let r = if *dbl {
                                let (x, y) = (f64::from_bits(x), f64::from_bits(y));
                                match op {
                                    FBin::Add => x + y,
                                    FBin::Sub => x - y,
                                    FBin::Mul => x * y,
                                    FBin::Div => x / y,
                                    FBin::Rem => x % y,
                                }
                                .to_bits()
                            } else {
                                let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                                match op {
                                    FBin::Add => x + y,
                                    FBin::Sub => x - y,
                                    FBin::Mul => x * y,
                                    FBin::Div => x / y,
                                    FBin::Rem => x % y,
                                }
                                .to_bits() as u64
                            };
                            set!(d, Val::C(r));
                        }
                        Inst::FNeg(dbl, d, a) => {
                            let x = get!(a);
                            let x = self.conc(x)?;
                            set!(d, Val::C(if *dbl { x ^ (1 << 63) } else { x ^ (1 << 31) }));
                        }
                        Inst::FCmp(p, dbl, d, a, c) => {
                            let (x, y) = (get!(a), get!(c));
                            let x = self.to_f(x, *dbl)?;
                            let y = self.to_f(y, *dbl)?;
                            let un = x.is_nan() || y.is_nan();
                            // bit 0: eq, 1: gt, 2: lt, 3: unordered (LLVM encoding)
                            let code = if un {
                                8
                            } else if x == y {
                                1
                            } else if x > y {
                                2
                            } else {
                                4
                            };
                            set!(d, Val::C((*p & code != 0) as u64));
                        }
                        Inst::Cast(k, ft, tt, d, a) => {
                            let x = get!(a);
                            let v = self.cast(*k, *ft, *tt, x)?;
                            set!(d, v);
                        }
                        Inst::ExtractEl(d, a, i) => {
                            let (a, i) = (get!(a), get!(i));
                            let i = self.conc(i)?;
                            if let Val::A(o, _) = a {
                                let v = self.aggs[o as usize + i as usize];
                                set!(d, v);
                            }
                        }
                        Inst::InsertEl(d, a, v, i) => {
                            let (a, v, i) = (get!(a), get!(v), get!(i));
                            let i = self.conc(i)?;
                            let r = self.insert(a, v, &[i as u32])?;
                            set!(d, r);
                        }
                        Inst::Shuffle(d, a, c, ix, n) => {
                            if let (Val::A(o1, _), Val::A(o2, _)) = (get!(a), get!(c)) {
                                let mut out = Vec::new();
                                for k in ix {
                                    let k = *k as u32;
                                    out.push(if k < *n { self.aggs[(o1 + k) as usize] } else { self.aggs[(o2 + k - n) as usize] });
                                }
                                let v = self.agg(&out);
                                set!(d, v);
                            }
                        }
                        Inst::CmpXchg(d, t, p, c, n) => {
                            let (p, c, n) = (get!(p), get!(c), get!(n));
                            let a = self.conc(p)?;
                            let old = self.load(*t, a)?;
                            let w = self.scalar_bits(*t).unwrap_or(64);
                            let eq = self.icmp(Pred::Eq, w, old, c)?;
                            let ok = self.truth(eq)?;
                            if ok {
                                self.store(*t, a, n)?;
                            }
                            let v = self.agg(&[old, Val::C(ok as u64)]);
                            set!(d, v);
                        }
                        Inst::AtomicRmw(d, op, t, p, v) => {
                            let (p, v) = (get!(p), get!(v));
                            let a = self.conc(p)?;
                            let old = self.load(*t, a)?;
                            let w = self.scalar_bits(*t).unwrap_or(64);
                            let new = match op {
                                0 => v,
                                1 => self.bin(Bin::Add, w, old, v)?,
                                2 => self.bin(Bin::Sub, w, old, v)?,
                                3 => self.bin(Bin::And, w, old, v)?,
                                4 => self.bin(Bin::Or, w, old, v)?,
                                5 => self.bin(Bin::Xor, w, old, v)?,
                                _ => return Err(self.err("atomicrmw")),
                            };
                            self.store(*t, a, new)?;
                            if *d != u32::MAX {
                                set!(d, old);
                            }
                        }
                        Inst::Unreachable => {
                            self.sync(b, ip);
                            return Err(self.viol("ub", "unreachable code reached".into()));
                        }
                        Inst::Unsupported(w) => {
                            self.sync(b, ip);
                            return Err(self.err(format!("unsupported instruction {w}")));
                        }
                    }
                    ip += 1;
                }
            }
        }
    }

    fn sync(&mut self, b: u32, ip: u32) {
        let fr = self.frames.last_mut().unwrap();
        fr.b = b;
        fr.ip = ip;
    }
}
