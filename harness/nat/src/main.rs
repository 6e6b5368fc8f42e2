//! Native replay of harness inputs against the real crate.
//!
//! Reads a case file: lines `entry param,param,.. input,input,..` and prints one line per case:
//! `done obs,obs,..` / `fail ID` / `panic LOCATION: MESSAGE` / `skip` (assumption false).

#[path = "../../src/all.rs"]
pub mod all;

use std::cell::RefCell;
use std::panic;

#[derive(Default)]
struct State {
    params: Vec<u64>,
    inputs: Vec<u64>,
    pos: usize,
    obs: Vec<u64>,
}
thread_local! {
    static ST: RefCell<State> = RefCell::new(State::default());
    static LOC: RefCell<String> = RefCell::new(String::new());
}

struct Fail(String);
struct Skip;
struct Mismatch(String);

fn next(lo: u64, hi: u64) -> u64 {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let p = s.pos;
        s.pos += 1;
        match s.inputs.get(p) {
            Some(v) if *v >= lo && *v <= hi => Ok(*v),
            Some(v) => Err(format!("input {p} = {v} not in {lo}..={hi}")),
            None => Err(format!("input {p} missing")),
        }
    })
    .unwrap_or_else(|e| panic::panic_any(Mismatch(e)))
}

#[no_mangle]
pub extern "C-unwind" fn sx_var(_bits: u32, lo: u64, hi: u64) -> u64 {
    next(lo, hi)
}
#[no_mangle]
pub extern "C-unwind" fn sx_pick(n: u32) -> u32 {
    if n == 0 {
        panic::panic_any(Skip);
    }
    next(0, n as u64 - 1) as u32
}
#[no_mangle]
pub extern "C-unwind" fn sx_assume(b: bool) {
    if !b {
        panic::panic_any(Skip);
    }
}
#[no_mangle]
pub extern "C-unwind" fn sx_check(b: bool, id: *const u8, len: usize) {
    if !b {
        let s = unsafe { std::slice::from_raw_parts(id, len) };
        panic::panic_any(Fail(String::from_utf8_lossy(s).into_owned()));
    }
}
#[no_mangle]
pub extern "C-unwind" fn sx_cover(_k: u32) {}
#[no_mangle]
pub extern "C-unwind" fn sx_obs(v: u64) {
    ST.with(|s| s.borrow_mut().obs.push(v));
}
#[no_mangle]
pub extern "C-unwind" fn sx_is_sym(_v: u64) -> bool {
    false
}
#[no_mangle]
pub extern "C-unwind" fn sx_param(i: u64) -> u64 {
    ST.with(|s| s.borrow().params.get(i as usize).copied().unwrap_or(0))
}
#[no_mangle]
pub extern "C-unwind" fn sx_or(a: bool, b: bool) -> bool {
    a | b
}
#[no_mangle]
pub extern "C-unwind" fn sx_and(a: bool, b: bool) -> bool {
    a & b
}

fn nums(s: &str) -> Vec<u64> {
    s.split(',').filter(|x| !x.is_empty() && *x != "-").map(|x| x.parse().unwrap()).collect()
}

fn main() {
    let file = std::env::args().nth(1).expect("case file");
    let text = std::fs::read_to_string(&file).expect("readable case file");
    panic::set_hook(Box::new(|info| {
        let l = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LOC.with(|x| *x.borrow_mut() = l);
    }));
    let run = move || {
        for line in text.lines() {
            let f: Vec<&str> = line.split_whitespace().collect();
            if f.is_empty() || f[0].starts_with('#') {
                continue;
            }
            let entry = match all::ENTRIES.iter().find(|e| e.0 == f[0]) {
                Some(e) => e.1,
                None => {
                    println!("error no entry {}", f[0]);
                    continue;
                }
            };
            ST.with(|s| {
                *s.borrow_mut() = State {
                    params: nums(f.get(1).unwrap_or(&"")),
                    inputs: nums(f.get(2).unwrap_or(&"")),
                    pos: 0,
                    obs: vec![],
                }
            });
            let r = panic::catch_unwind(|| entry());
            match r {
                Ok(()) => {
                    let o = ST.with(|s| s.borrow().obs.clone());
                    println!("done {}", o.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
                }
                Err(e) => {
                    if let Some(f) = e.downcast_ref::<Fail>() {
                        println!("fail {}", f.0);
                    } else if e.downcast_ref::<Skip>().is_some() {
                        println!("skip");
                    } else if let Some(m) = e.downcast_ref::<Mismatch>() {
                        println!("mismatch {}", m.0);
                    } else {
                        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                        let loc = LOC.with(|x| x.borrow().clone());
                        println!("panic {}: {}", loc, m.replace('\n', " "));
                    }
                }
            }
            use std::io::Write;
            let _ = std::io::stdout().flush();
        }
    };
    std::thread::Builder::new().stack_size(512 << 20).spawn(run).unwrap().join().unwrap();
}
