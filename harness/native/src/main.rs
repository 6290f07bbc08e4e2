//! Native replay: runs harness entries on concrete models against the real code.
//! stdin: lines `entry a,b,c,d hexbytes`; stdout: one JSON line per input line.
#[path = "../../src/lib.rs"]
mod h;
use std::cell::RefCell;
use std::io::{BufRead, Write};
#[derive(Default)]
struct St {
    bytes: Vec<u8>,
    pos: usize,
    obs: Vec<Vec<u8>>,
    reach: Vec<u32>,
    end: Option<(String, String)>,
}
thread_local!(static S: RefCell<St> = RefCell::new(St::default()));
struct Stop;
fn stop(o: &str, d: String) -> ! {
    S.with(|s| { let mut s = s.borrow_mut(); if s.end.is_none() { s.end = Some((o.into(), d)); } });
    std::panic::resume_unwind(Box::new(Stop))
}
#[no_mangle]
extern "C-unwind" fn sym_bytes(p: *mut u8, n: usize) {
    S.with(|s| {
        let mut s = s.borrow_mut();
        for i in 0..n {
            let v = s.bytes.get(s.pos).copied().unwrap_or(0);
            s.pos += 1;
            unsafe { *p.add(i) = v }
        }
    })
}
#[no_mangle]
extern "C-unwind" fn sym_assume(c: bool) { if !c { stop("drop", String::new()) } }
#[no_mangle]
extern "C-unwind" fn sym_check(c: bool, id: u32) { if !c { stop("check", id.to_string()) } }
#[no_mangle]
extern "C-unwind" fn sym_check_eq(p: *const u8, q: *const u8, n: usize, id: u32) {
    let (a, b) = unsafe { (std::slice::from_raw_parts(p, n), std::slice::from_raw_parts(q, n)) };
    if a != b { stop("check", id.to_string()) }
}
#[no_mangle]
extern "C-unwind" fn sym_reach(id: u32) { S.with(|s| s.borrow_mut().reach.push(id)) }
#[no_mangle]
extern "C-unwind" fn sym_observe(p: *const u8, n: usize) {
    let v = unsafe { std::slice::from_raw_parts(p, n) }.to_vec();
    S.with(|s| s.borrow_mut().obs.push(v))
}
#[no_mangle]
extern "C-unwind" fn sym_concretize(v: u64) -> u64 { v }

fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn main() {
    // same stack as a spawned Rust thread gets by default, unless told otherwise
    let stack: usize = std::env::var("REPLAY_STACK").ok().and_then(|x| x.parse().ok()).unwrap_or(8 << 20);
    std::thread::Builder::new().stack_size(stack).spawn(work).unwrap().join().unwrap();
}
fn work() {
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = i.payload().downcast_ref::<String>().cloned().or(i.payload().downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
        S.with(|s| { let mut s = s.borrow_mut(); if s.end.is_none() { s.end = Some(("panic".into(), format!("{} {}", l, m))); } });
    }));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout().lock();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let p: Vec<&str> = line.split(' ').collect();
        let a: Vec<usize> = p[1].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
        let g = |i: usize| a.get(i).copied().unwrap_or(0);
        S.with(|s| *s.borrow_mut() = St { bytes: unhex(p.get(2).unwrap_or(&"")), ..St::default() });
        let f = h::lookup(p[0]).expect("entry");
        let _ = std::panic::catch_unwind(|| f(g(0), g(1), g(2), g(3)));
        let (o, d, obs, reach) = S.with(|s| { let mut s = s.borrow_mut(); let (o, d) = s.end.take().unwrap_or(("ok".into(), String::new())); (o, d, std::mem::take(&mut s.obs), std::mem::take(&mut s.reach)) });
        let d: String = d.chars().map(|c| if c == '"' || c == '\\' || c.is_control() { ' ' } else { c }).collect();
        writeln!(out, "{{\"outcome\":\"{}\",\"detail\":\"{}\",\"obs\":[{}],\"reach\":{:?}}}", o, d, obs.iter().map(|o| format!("\"{}\"", hex(o))).collect::<Vec<_>>().join(","), reach).unwrap();
        out.flush().unwrap();
    }
}
