//! symex: solver-based bounded exploration of LLVM IR.
//!
//!   symex --ll FILE --entry NAME [--params a,b,..] [--threads N] [--time SECONDS]
//!         [--steps N] [--max-viol N] [--samples N] [--seed N] --out RESULT.json

mod exec;
mod expr;
mod ll;
mod smt;

use exec::{Cache, Cfg, Exec, Item, Stats, Stop};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

struct Args {
    ll: String,
    entry: String,
    params: Vec<u64>,
    threads: usize,
    time: f64,
    steps: u64,
    max_viol: usize,
    samples: usize,
    seed: u64,
    query_ms: u32,
    out: String,
}

fn args() -> Args {
    let mut a = Args {
        ll: String::new(),
        entry: String::new(),
        params: vec![],
        threads: 8,
        time: 1e9,
        steps: 20_000_000,
        max_viol: 6,
        samples: 64,
        seed: 1,
        query_ms: 20_000,
        out: String::new(),
    };
    let v: Vec<String> = std::env::args().skip(1).collect();
    let mut i = 0;
    while i + 1 < v.len() {
        let x = v[i + 1].clone();
        match v[i].as_str() {
            "--ll" => a.ll = x,
            "--entry" => a.entry = x,
            "--params" => a.params = x.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(),
            "--threads" => a.threads = x.parse().unwrap(),
            "--time" => a.time = x.parse().unwrap(),
            "--steps" => a.steps = x.parse().unwrap(),
            "--max-viol" => a.max_viol = x.parse().unwrap(),
            "--samples" => a.samples = x.parse().unwrap(),
            "--seed" => a.seed = x.parse().unwrap(),
            "--query-ms" => a.query_ms = x.parse().unwrap(),
            "--out" => a.out = x,
            o => {
                eprintln!("unknown option {o}");
                std::process::exit(2);
            }
        }
        i += 2;
    }
    a
}

struct Shared {
    q: Mutex<(Vec<Item>, usize)>, // queue, idle threads
    cv: Condvar,
    stop: AtomicBool,
    timed_out: AtomicBool,
    hungry: AtomicU64,
    out: Mutex<Out>,
    done: AtomicU64,
}

#[derive(Default)]
struct Out {
    viols: Vec<exec::Viol>,
    nviol: u64,
    errors: BTreeMap<String, u64>,
    samples: Vec<(Vec<u64>, Vec<u64>)>,
    covers: BTreeMap<u32, u64>,
    checks: BTreeMap<String, (u64, u64)>,
    st: Stats,
    cov: Vec<Vec<u8>>,
    done: u64,
    infeasible: u64,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jnums(v: &[u64]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}

fn worker(sh: &Shared, prog: &'static ll::Program, cfg: Arc<Cfg>, cache: Arc<Cache>, a: &Args, start: Instant, id: u64) {
    let mut ex = Exec::new(prog, cfg, cache);
    let mut local: Vec<Item> = Vec::new();
    let mut covers: BTreeMap<u32, u64> = BTreeMap::new();
    let mut samples: Vec<(Vec<u64>, Vec<u64>)> = Vec::new();
    let mut done = 0u64;
    let mut infeasible = 0u64;
    let mut rng = a.seed.wrapping_mul(0x9E3779B97F4A7C15) ^ (id + 1).wrapping_mul(0xD1B54A32D192ED03);
    let cap = (a.samples / a.threads.max(1)).max(4);
    loop {
        if sh.stop.load(Ordering::Relaxed) {
            break;
        }
        let item = match local.pop() {
            Some(i) => i,
            None => {
                let mut g = sh.q.lock().unwrap();
                g.1 += 1;
                sh.hungry.fetch_add(1, Ordering::Relaxed);
                let it = loop {
                    if sh.stop.load(Ordering::Relaxed) {
                        break None;
                    }
                    if let Some(i) = g.0.pop() {
                        break Some(i);
                    }
                    if g.1 == a.threads {
                        sh.stop.store(true, Ordering::Relaxed);
                        sh.cv.notify_all();
                        break None;
                    }
                    g = sh.cv.wait_timeout(g, Duration::from_millis(50)).unwrap().0;
                };
                g.1 -= 1;
                sh.hungry.fetch_sub(1, Ordering::Relaxed);
                match it {
                    Some(i) => i,
                    None => break,
                }
            }
        };
        if start.elapsed().as_secs_f64() > a.time {
            sh.timed_out.store(true, Ordering::Relaxed);
            sh.stop.store(true, Ordering::Relaxed);
            break;
        }
        let r = ex.run(item);
        let mut newi = std::mem::take(&mut ex.new_items);
        local.append(&mut newi);
        // share the oldest work
        if local.len() > 1 && sh.hungry.load(Ordering::Relaxed) > 0 {
            let k = (local.len() / 2).max(1);
            let mut g = sh.q.lock().unwrap();
            if g.0.len() < a.threads {
                g.0.extend(local.drain(..k));
                sh.cv.notify_all();
            }
        }
        match r {
            Stop::Done => {
                done += 1;
                sh.done.fetch_add(1, Ordering::Relaxed);
                for c in &ex.covers {
                    *covers.entry(*c).or_default() += 1;
                }
                rng ^= rng << 13;
                rng ^= rng >> 7;
                rng ^= rng << 17;
                let slot = if samples.len() < cap { Some(samples.len()) } else {
                    let k = rng % done;
                    if (k as usize) < cap { Some(k as usize) } else { None }
                };
                if let Some(s) = slot {
                    let ins = ex.input_vals();
                    let ob = ex.obs.clone();
                    let ob: Vec<u64> = ob.into_iter().map(|v| ex.eval_val(v)).collect();
                    if s == samples.len() {
                        samples.push((ins, ob));
                    } else {
                        samples[s] = (ins, ob);
                    }
                }
            }
            Stop::Infeasible => infeasible += 1,
            Stop::Violation(v) => {
                let mut o = sh.out.lock().unwrap();
                o.nviol += 1;
                let same = o.viols.iter().filter(|w| w.id == v.id && w.what == v.what).count();
                if same < 2 && o.viols.len() < 64 {
                    o.viols.push(v);
                }
                if o.nviol as usize >= a.max_viol {
                    sh.stop.store(true, Ordering::Relaxed);
                    sh.cv.notify_all();
                }
            }
            Stop::Error(e) => {
                let mut o = sh.out.lock().unwrap();
                let e: String = e.chars().take(600).collect();
                *o.errors.entry(e).or_default() += 1;
                if o.errors.values().sum::<u64>() > 200 {
                    sh.stop.store(true, Ordering::Relaxed);
                    sh.cv.notify_all();
                }
            }
        }
    }
    let mut o = sh.out.lock().unwrap();
    o.done += done;
    o.infeasible += infeasible;
    for (k, v) in covers {
        *o.covers.entry(k).or_default() += v;
    }
    for (k, v) in &ex.check_ids {
        let e = o.checks.entry(k.clone()).or_default();
        e.0 += v.0;
        e.1 += v.1;
    }
    o.samples.extend(samples);
    o.st.add(&ex.st);
    if o.cov.is_empty() {
        o.cov = ex.cov.clone();
    } else {
        for (x, y) in o.cov.iter_mut().zip(&ex.cov) {
            for (p, q) in x.iter_mut().zip(y) {
                *p |= *q;
            }
        }
    }
}

fn main() {
    let a = args();
    let t0 = Instant::now();
    let src = std::fs::read_to_string(&a.ll).unwrap_or_else(|e| {
        eprintln!("symex: cannot read {}: {e}", a.ll);
        std::process::exit(2);
    });
    let prog = match ll::parse(&src) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("symex: cannot parse {}: {e}", a.ll);
            std::process::exit(2);
        }
    };
    drop(src);
    let prog: &'static ll::Program = Box::leak(Box::new(prog));
    let parse_s = t0.elapsed().as_secs_f64();
    let entry = match prog.fn_by_name.get(&a.entry) {
        Some(e) if prog.funcs[*e as usize].defined => *e,
        _ => {
            eprintln!("symex: no entry point {}", a.entry);
            std::process::exit(2);
        }
    };
    let cfg = Arc::new(Cfg {
        entry,
        params: a.params.clone(),
        step_limit: a.steps,
        timeout_ms: a.query_ms,
    });
    let cache = Arc::new(Cache::new());
    let sh = Shared {
        q: Mutex::new((
            vec![Item {
                prefix: vec![],
                model: vec![],
            }],
            0,
        )),
        cv: Condvar::new(),
        stop: AtomicBool::new(false),
        timed_out: AtomicBool::new(false),
        hungry: AtomicU64::new(0),
        out: Mutex::new(Out::default()),
        done: AtomicU64::new(0),
    };
    let start = Instant::now();
    std::thread::scope(|s| {
        for t in 0..a.threads {
            let (sh, cfg, cache, a) = (&sh, cfg.clone(), cache.clone(), &a);
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, move || worker(sh, prog, cfg, cache, a, start, t as u64))
                .unwrap();
        }
    });
    let wall = start.elapsed().as_secs_f64();
    let o = sh.out.into_inner().unwrap();
    // functions reached, from debug locations
    let mut fns: BTreeSet<(String, String, u32)> = BTreeSet::new();
    let mut scopes_seen = std::collections::HashSet::new();
    for (fi, f) in prog.funcs.iter().enumerate() {
        for (bi, b) in f.blocks.iter().enumerate() {
            if o.cov.get(fi).map_or(false, |c| c[bi] != 0) {
                for d in &b.dbg {
                    let mut l = *d;
                    while l != 0 && l != u32::MAX {
                        match prog.debug.locs.get(&l) {
                            Some((_, s, at)) => {
                                scopes_seen.insert(*s);
                                l = *at;
                            }
                            None => break,
                        }
                    }
                }
            }
        }
    }
    for s in scopes_seen {
        let mut s = s;
        for _ in 0..50 {
            match prog.debug.scopes.get(&s) {
                Some(sc) if sc.is_sub => {
                    let file = prog.debug.files.get(&sc.file).cloned().unwrap_or_default();
                    fns.insert((file, sc.name.clone(), sc.line));
                    break;
                }
                Some(sc) => s = sc.parent,
                None => break,
            }
        }
    }
    let mut j = String::from("{");
    let _ = write!(j, "\"entry\":{},\"params\":{},", js(&a.entry), jnums(&a.params));
    let _ = write!(
        j,
        "\"paths\":{},\"infeasible\":{},\"violations\":{},\"exhausted\":{},\"timed_out\":{},\"wall_s\":{:.3},\"parse_s\":{:.3},",
        o.done,
        o.infeasible,
        o.nviol,
        !sh.timed_out.load(Ordering::Relaxed) && (o.nviol as usize) < a.max_viol && o.errors.is_empty(),
        sh.timed_out.load(Ordering::Relaxed),
        wall,
        parse_s
    );
    let s = &o.st;
    let _ = write!(
        j,
        "\"forks\":{},\"picks\":{},\"sym_branches\":{},\"queries\":{},\"cache_hits\":{},\"solver_calls\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"decided_as_integers\":{},\"decided_as_bitvectors\":{},\"checks\":{},\"checks_concrete\":{},\"checks_solver\":{},\"steps\":{},\"max_path_steps\":{},",
        s.forks, s.picks, s.sym_branches, s.queries, s.cache_hits, s.sat + s.unsat + s.unknown, s.sat, s.unsat, s.unknown,
        s.solver_ns as f64 / 1e9, s.max_query_ns as f64 / 1e9, s.n_int, s.n_bv, s.checks, s.checks_trivial, s.check_queries, s.steps, s.max_steps
    );
    let cands: Vec<String> = o
        .viols
        .iter()
        .map(|v| {
            format!(
                "{{\"id\":{},\"what\":{},\"inputs\":{},\"stack\":[{}]}}",
                js(&v.id),
                js(&v.what),
                jnums(&v.inputs),
                v.stack.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")
            )
        })
        .collect();
    let _ = write!(j, "\"candidates\":[{}],", cands.join(","));
    let _ = write!(j, "\"errors\":[{}],", o.errors.iter().map(|(k, n)| format!("{{\"what\":{},\"n\":{}}}", js(k), n)).collect::<Vec<_>>().join(","));
    let _ = write!(j, "\"covers\":{{{}}},", o.covers.iter().map(|(k, n)| format!("\"{k}\":{n}")).collect::<Vec<_>>().join(","));
    let _ = write!(
        j,
        "\"assertions\":{{{}}},",
        o.checks.iter().map(|(k, n)| format!("{}:[{},{}]", js(k), n.0, n.1)).collect::<Vec<_>>().join(",")
    );
    let _ = write!(
        j,
        "\"samples\":[{}],",
        o.samples.iter().map(|(i, ob)| format!("{{\"inputs\":{},\"obs\":{}}}", jnums(i), jnums(ob))).collect::<Vec<_>>().join(",")
    );
    let _ = write!(
        j,
        "\"functions\":[{}]",
        fns.iter().map(|(f, n, l)| format!("[{},{},{}]", js(f), js(n), l)).collect::<Vec<_>>().join(",")
    );
    j.push('}');
    if a.out.is_empty() {
        println!("{j}");
    } else if let Err(e) = std::fs::write(&a.out, j) {
        eprintln!("symex: cannot write {}: {e}", a.out);
        std::process::exit(2);
    }
    eprintln!(
        "symex: {} {:?}: {} paths ({} cut by assumptions) in {:.1}s; {} candidate(s), {} error kind(s); {} queries, {} to the solver, {:.1}s in the solver",
        a.entry, a.params, o.done, o.infeasible, wall, o.nviol, o.errors.len(), s.queries, s.sat + s.unsat + s.unknown, s.solver_ns as f64 / 1e9
    );
    // skip destructors of the leaked solver contexts
    std::process::exit(0);
}
