//! SMT back end: a persistent incremental z3 for small queries, a portfolio of
//! stand-alone solvers for the hard ones. Every model is validated by evaluation
//! before it is used; `Unsat` is the only verdict that prunes a path.
use crate::term::*;
use std::collections::{HashMap, HashSet, VecDeque};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Res {
    Sat(Vec<(u32, u8)>),
    Unsat,
    Unknown,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub cache_hits: u64,
    pub trivial: u64,
    pub rewritten: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub hard: u64,
    pub solver_s: f64,
    pub max_s: f64,
    pub lemmas: u64,
    pub by: HashMap<String, u64>,
}

struct Proc {
    child: Arc<Mutex<Child>>,
    /// milliseconds since the solver started at which a running query is given up; 0: idle
    limit: Arc<AtomicU64>,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    defined: HashSet<T>,
    ufs: HashSet<String>,
    /// constraints asserted in the open scope, and what was declared inside it
    base: Vec<T>,
    inner: Vec<T>,
    inner_ufs: Vec<String>,
    open: bool,
}

pub struct Solver {
    t0: Instant,
    recent: VecDeque<(Vec<u8>, HashMap<T, u128>)>,
    proc: Option<Proc>,
    cache: HashMap<Vec<T>, Res>,
    pub stats: Stats,
    pub soft_ms: u64,
    pub hard_s: u64,
    pub deadline: Instant,
    seen_f2i: HashMap<Vec<u32>, Vec<T>>,
    lemmas: Vec<T>,
    lemma_set: HashSet<T>,
    goal: T,
    pub dump: Option<String>,
    ndump: usize,
    pid: u32,
}

fn is_fp_op(n: &N) -> bool {
    match n {
        N::Un(op, _) => !matches!(op, UOp::Not | UOp::ZExt | UOp::SExt | UOp::Ext(_)),
        N::Bin(op, _, _) => matches!(op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FMin | Op::FMax | Op::FEq | Op::FLt | Op::FLe | Op::FUno),
        _ => false,
    }
}

impl Solver {
    pub fn new(soft_ms: u64, hard_s: u64, deadline: Instant) -> Solver {
        Solver {
            t0: Instant::now(), recent: VecDeque::new(), proc: None, cache: HashMap::new(), stats: Stats::default(), soft_ms, hard_s, deadline,
            seen_f2i: HashMap::new(), lemmas: vec![], lemma_set: HashSet::new(), goal: 0, dump: std::env::var("IRSYM_DUMP").ok(), ndump: 0,
            pid: std::process::id(),
        }
    }
    fn start(&mut self) {
        let mut child = Command::new("z3-new").arg("-in").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("z3-new");
        let mut inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        writeln!(inp, "(set-option :timeout {})", self.soft_ms).unwrap();
        let child = Arc::new(Mutex::new(child));
        let limit = Arc::new(AtomicU64::new(0));
        let (c2, l2, t0) = (Arc::downgrade(&child), limit.clone(), self.t0);
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(100));
            let Some(c) = c2.upgrade() else { break };
            let l = l2.load(Ordering::Relaxed);
            if l != 0 && t0.elapsed().as_millis() as u64 > l { let _ = c.lock().unwrap().kill(); break; }
        });
        self.proc = Some(Proc { child, limit, inp, out, defined: HashSet::new(), ufs: HashSet::new(), base: vec![], inner: vec![], inner_ufs: vec![], open: false });
    }
    fn stop(&mut self) {
        if let Some(mut p) = self.proc.take() {
            p.limit.store(0, Ordering::Relaxed);
            let mut c = p.child.lock().unwrap();
            let _ = c.kill();
            let _ = c.wait();
            drop(c);
            let _ = &mut p;
        }
    }

    /// constraints of `pc` transitively sharing variables with `seed`
    pub fn slice(pc: &[T], seed: &[u64]) -> Vec<T> {
        let s = st();
        let mut vars: Vec<u64> = seed.to_vec();
        let mut out = vec![];
        let mut left: Vec<T> = pc.to_vec();
        loop {
            let mut changed = false;
            let mut rest = vec![];
            for &c in &left {
                let cv = &s.nodes[c as usize].vars;
                if overlaps(cv, &vars) {
                    if cv.len() > vars.len() { vars.resize(cv.len(), 0); }
                    for (i, x) in cv.iter().enumerate() { vars[i] |= x; }
                    out.push(c);
                    changed = true;
                } else {
                    rest.push(c);
                }
            }
            left = rest;
            if !changed { break; }
        }
        out
    }

    /// decide satisfiability of pc /\ c, where pc is known satisfiable: only the
    /// constraints connected to c matter.
    pub fn check(&mut self, pc: &[T], c: T) -> Res {
        let s = st();
        if c == s.ff { self.stats.trivial += 1; return Res::Unsat; }
        if c == s.tt { self.stats.trivial += 1; return Res::Sat(vec![]); }
        let vars = s.nodes[c as usize].vars.clone();
        let mut cs = Self::slice(pc, &vars);
        // syntactic shortcuts
        let nc = s.not(c);
        if cs.contains(&nc) { self.stats.trivial += 1; return Res::Unsat; }
        if !s.nodes[c as usize].fp && Self::refuted(&cs, c) { self.stats.rewritten += 1; return Res::Unsat; }
        cs.push(c);
        self.check_all(cs)
    }
    /// t with the equalities of pc substituted
    pub fn simplify(pc: &[T], known: &[(T, u128)], t: T) -> T {
        let s = st();
        let mut map: HashMap<T, T> = HashMap::new();
        let tvars = s.nodes[t as usize].vars.clone();
        for &p in pc {
            if !overlaps(&s.nodes[p as usize].vars, &tvars) { continue; }
            // the path facts themselves
            map.insert(p, s.tt);
            if let N::Un(UOp::Not, x) = s.nodes[p as usize].n { map.insert(x, s.ff); }
            if let N::Bin(Op::Eq, a, b) = s.nodes[p as usize].n {
                if s.as_c(b).is_some() && s.as_c(a).is_none() { map.insert(a, b); continue; }
                if s.as_c(a).is_some() && s.as_c(b).is_none() { map.insert(b, a); continue; }
            }
        }
        for &(x, v) in known {
            if !overlaps(&s.nodes[x as usize].vars, &tvars) { continue; }
            // a < 2^k: only the low k bits of a matter
            let (neg, u) = match s.nodes[x as usize].n { N::Un(UOp::Not, u) => (true, u), _ => (false, x) };
            if let N::Bin(Op::Ult, a, b) = s.nodes[u as usize].n {
                if let (Some(k), None) = (s.as_c(b), s.as_c(a)) {
                    if k.is_power_of_two() && k > 1 && (v == 1) != neg && !map.contains_key(&a) {
                        let w = s.w(a);
                        let e = s.ext(a, 0, k.trailing_zeros() as u16);
                        let z = s.zext(e, w);
                        if z != a { map.insert(a, z); }
                    }
                }
            }
            let k = s.konst(s.w(x), v);
            map.insert(x, k);
        }
        if map.is_empty() { return t; }
        let mut budget = 3000usize;
        s.subst(t, &mut map, &mut budget).unwrap_or(t)
    }
    /// a cheap sound refutation of pc /\ c: substitute the equalities of pc into everything
    /// and compare the remaining single-term bounds
    fn refuted(pc: &[T], c: T) -> bool {
        let s = st();
        if s.nodes[c as usize].vars.len() > 64 { return false; }
        let mut map: HashMap<T, T> = HashMap::new();
        for &p in pc {
            if let N::Bin(Op::Eq, a, b) = s.nodes[p as usize].n {
                if s.as_c(b).is_some() && s.as_c(a).is_none() { map.insert(a, b); continue; }
                if s.as_c(a).is_some() && s.as_c(b).is_none() { map.insert(b, a); continue; }
            }
        }
        let mut memo: HashMap<T, T> = map.clone();
        let mut budget = 4000usize;
        let Some(c2) = s.subst(c, &mut memo, &mut budget) else { return false };
        if c2 == s.ff { return true; }
        if c2 == s.tt { return false; }
        let mut facts: Vec<T> = vec![];
        for &p in pc {
            if let N::Bin(Op::Eq, a, b) = s.nodes[p as usize].n { if map.contains_key(&a) || map.contains_key(&b) { continue; } }
            match s.subst(p, &mut memo, &mut budget) { Some(q) => if q == s.ff { return true } else if q != s.tt { facts.push(q) }, None => return false }
        }
        let n2 = s.not(c2);
        if facts.contains(&n2) { return true; }
        // bounds on the compared term
        let bound = |t: T| -> Option<(T, u128, u128)> {
            let (neg, u) = match s.nodes[t as usize].n { N::Un(UOp::Not, x) => (true, x), _ => (false, t) };
            let (a, b, eq) = match s.nodes[u as usize].n { N::Bin(Op::Ult, a, b) => (a, b, false), N::Bin(Op::Eq, a, b) if !neg => (a, b, true), _ => return None };
            if let Some(k) = s.as_c(b) {
                let h = s.nodes[a as usize].uhi;
                if eq { return Some((a, k, k)); }
                return if neg { Some((a, k, h)) } else { if k == 0 { None } else { Some((a, 0, k - 1)) } };
            }
            if let Some(k) = s.as_c(a) {
                let h = s.nodes[b as usize].uhi;
                if eq { return Some((b, k, k)); }
                return if neg { Some((b, 0, k)) } else { Some((b, k.checked_add(1)?, h)) };
            }
            None
        };
        if let Some((x, mut lo, mut hi)) = bound(c2) {
            for f in &facts {
                if let Some((y, l, h)) = bound(*f) { if y == x { lo = lo.max(l); hi = hi.min(h); } }
            }
            if lo > hi { return true; }
        }
        false
    }
    pub fn check_all(&mut self, mut cs: Vec<T>) -> Res {
        // the last constraint is the goal, the others are the path so far
        self.goal = cs.last().copied().unwrap_or(0);
        cs.sort();
        cs.dedup();
        if let Some(r) = self.cache.get(&cs) { self.stats.cache_hits += 1; return r.clone(); }
        if let Some(m) = self.by_model(&cs) { self.stats.cache_hits += 1; self.cache.insert(cs, Res::Sat(m.clone())); return Res::Sat(m); }
        let t0 = Instant::now();
        let r = self.solve(&cs);
        if let Res::Sat(m) = &r { self.remember(m); }
        let dt = t0.elapsed().as_secs_f64();
        self.stats.queries += 1;
        self.stats.solver_s += dt;
        if dt > self.stats.max_s { self.stats.max_s = dt; }
        if dt > 2.0 { self.stats.hard += 1; if std::env::var("IRSYM_V").is_ok() { eprintln!("[slow query {:.1}s {} constraints -> {}]", dt, cs.len(), match &r { Res::Sat(_) => "sat", Res::Unsat => "unsat", _ => "unknown" }); } }
        match &r { Res::Sat(_) => self.stats.sat += 1, Res::Unsat => self.stats.unsat += 1, Res::Unknown => self.stats.unknown += 1 }
        self.cache.insert(cs, r.clone());
        r
    }

    /// a recent model that satisfies all of cs
    fn by_model(&mut self, cs: &[T]) -> Option<Vec<(u32, u8)>> {
        let s = st();
        for i in 0..self.recent.len() {
            let (vals, memo) = &mut self.recent[i];
            // the goal is the most likely one to fail
            if s.eval(self.goal, vals, memo) != 1 { continue; }
            if !cs.iter().all(|c| s.eval(*c, vals, memo) == 1) { continue; }
            let mut vars: Vec<u64> = vec![];
            for c in cs { let v = &s.nodes[*c as usize].vars; if v.len() > vars.len() { vars.resize(v.len(), 0); } for (i, x) in v.iter().enumerate() { vars[i] |= x; } }
            let m = var_list(&vars).into_iter().map(|v| (v, vals.get(v as usize).copied().unwrap_or(0))).collect();
            if i > 0 { let e = self.recent.remove(i).unwrap(); self.recent.push_front(e); }
            return Some(m);
        }
        None
    }
    fn remember(&mut self, m: &[(u32, u8)]) {
        let mut vals = self.recent.front().map(|x| x.0.clone()).unwrap_or_default();
        for (i, v) in m { let i = *i as usize; if vals.len() <= i { vals.resize(i + 1, 0); } vals[i] = *v; }
        self.recent.push_front((vals, HashMap::new()));
        self.recent.truncate(12);
        for r in self.recent.iter_mut() { if r.1.len() > 300_000 { r.1.clear(); } }
    }

    fn valid(&self, cs: &[T], m: &[(u32, u8)]) -> bool {
        let n = m.iter().map(|x| x.0 as usize + 1).max().unwrap_or(0);
        let mut vals = vec![0u8; n];
        for (i, v) in m { vals[*i as usize] = *v; }
        let mut memo = HashMap::new();
        cs.iter().all(|c| st().eval(*c, &vals, &mut memo) == 1)
    }

    /// brute force over at most two bytes (used for float constraints only)
    fn small(&self, cs: &[T]) -> Option<Res> {
        let s = st();
        let mut vars: Vec<u64> = vec![];
        for c in cs { let v = &s.nodes[*c as usize].vars; if v.len() > vars.len() { vars.resize(v.len(), 0); } for (i, x) in v.iter().enumerate() { vars[i] |= x; } }
        let vl = var_list(&vars);
        if vl.len() > 2 || vl.is_empty() { return None; }
        match s.tabulate(cs, &vl)? {
            None => Some(Res::Unsat),
            Some(x) => Some(Res::Sat(vl.iter().enumerate().map(|(i, v)| (*v, (x >> (8 * i)) as u8)).collect())),
        }
    }

    fn solve(&mut self, cs: &[T]) -> Res {
        let s = st();
        if cs.iter().any(|c| *c == s.ff) { return Res::Unsat; }
        let hasfp = cs.iter().any(|c| s.nodes[*c as usize].fp);
        if hasfp {
            if let Some(r) = self.small(cs) { *self.stats.by.entry("tabulated<=16bit".into()).or_default() += 1; return r; }
            if let Some(m) = self.guess(cs) { *self.stats.by.entry("guessed model".into()).or_default() += 1; return Res::Sat(m); }
            if self.abstracted(cs) { return Res::Unsat; }
            return self.solve_fp(cs);
        }
        if cs.iter().any(|c| s.nodes[*c as usize].nl > 0) {
            if let Some(m) = self.guess(cs) { *self.stats.by.entry("guessed model".into()).or_default() += 1; return Res::Sat(m); }
        }
        if self.abstracted(cs) { return Res::Unsat; }
        match self.incremental(cs, self.soft_ms) {
            Res::Unknown => {}
            Res::Unsat => { *self.stats.by.entry("z3-incremental".into()).or_default() += 1; return Res::Unsat; }
            Res::Sat(m) => {
                if self.valid(cs, &m) { *self.stats.by.entry("z3-incremental".into()).or_default() += 1; return Res::Sat(m); }
                eprintln!("[solver model failed validation]");
            }
        }
        if let Some(r) = self.small(cs) { *self.stats.by.entry("tabulated<=16bit".into()).or_default() += 1; return r; }
        let r = self.portfolio(cs, false, self.hard_s);
        if let Res::Sat(m) = &r { if !self.valid(cs, m) { eprintln!("[portfolio model failed validation]"); return Res::Unknown; } }
        r
    }

    /// all float nodes below cs
    fn fp_nodes(&self, cs: &[T]) -> Vec<T> {
        st().topo(cs).into_iter().filter(|t| is_fp_op(&st().nodes[*t as usize].n)).collect()
    }

    fn add_lemma(&mut self, l: T) -> bool {
        if self.lemma_set.insert(l) { self.lemmas.push(l); self.stats.lemmas += 1; true } else { false }
    }

    /// Equalities between float-derived terms over the same (at most two) bytes,
    /// established by exhaustive evaluation of both terms.
    fn equal_lemmas(&mut self, cs: &[T]) -> bool {
        let s = st();
        let mut groups: HashMap<Vec<u32>, Vec<T>> = HashMap::new();
        for t in s.topo(cs) {
            let nd = &s.nodes[t as usize];
            if !nd.fp { continue; }
            let interesting = is_fp_op(&nd.n) || matches!(nd.n, N::Ite(..));
            if !interesting { continue; }
            let vl = var_list(&nd.vars);
            if vl.is_empty() || vl.len() > 2 { continue; }
            groups.entry(vl).or_default().push(t);
        }
        let mut any = false;
        for (vl, ts) in groups {
            let known = self.seen_f2i.entry(vl.clone()).or_default().clone();
            let fresh: Vec<T> = ts.iter().filter(|t| !known.contains(t)).cloned().collect();
            if fresh.is_empty() { continue; }
            let all: Vec<T> = known.iter().cloned().chain(fresh.iter().cloned()).collect();
            if all.len() < 2 { self.seen_f2i.insert(vl.clone(), all); continue; }
            let order = s.topo(&all);
            let n = *vl.iter().max().unwrap() as usize + 1;
            let mut vals = vec![0u8; n];
            let mut buf: HashMap<T, u128> = HashMap::new();
            let mut sig: Vec<u128> = vec![0; all.len()];
            for x in 0..(1u32 << (8 * vl.len())) {
                for (i, v) in vl.iter().enumerate() { vals[*v as usize] = (x >> (8 * i)) as u8; }
                s.eval_order(&order, &vals, &mut buf, all[0]);
                for (i, t) in all.iter().enumerate() {
                    sig[i] = (sig[i] ^ buf[t]).wrapping_mul(0x9E3779B97F4A7C15F39CC0605CEDC835).rotate_left(29) ^ (x as u128);
                }
            }
            let mut rep: HashMap<(u16, u128), T> = HashMap::new();
            for (i, t) in all.iter().enumerate() {
                let w = s.w(*t);
                if let Some(r) = rep.get(&(w, sig[i])) {
                    let (r, t) = (*r, *t);
                    // confirm exactly
                    let order = s.topo(&[r, t]);
                    let mut same = true;
                    for x in 0..(1u32 << (8 * vl.len())) {
                        for (i, v) in vl.iter().enumerate() { vals[*v as usize] = (x >> (8 * i)) as u8; }
                        s.eval_order(&order, &vals, &mut buf, r);
                        if buf[&r] != buf[&t] { same = false; break; }
                    }
                    if same { let e = s.eq(r, t); if s.as_c(e).is_none() { any |= self.add_lemma(e); } }
                } else { rep.insert((w, sig[i]), *t); }
            }
            self.seen_f2i.insert(vl, all);
        }
        any
    }

    fn relevant_lemmas(&self, cs: &[T]) -> Vec<T> {
        let s = st();
        let nodes: HashSet<T> = s.topo(cs).into_iter().collect();
        // a lemma is relevant when the node it talks about occurs
        self.lemmas.iter().filter(|l| {
            s.topo(&[**l]).iter().filter(|t| is_fp_op(&s.nodes[**t as usize].n)).all(|t| nodes.contains(t))
        }).cloned().collect()
    }

    fn solve_fp(&mut self, cs: &[T]) -> Res {
        self.equal_lemmas(cs);
        let nodes = self.fp_nodes(cs);
        let s = st();
        let t0 = Instant::now();
        for round in 0..40 {
            if round == 3 {
                // float constraints over at most two bytes: decided by tabulating them
                if let Some(r) = self.small(cs) { *self.stats.by.entry("tabulated<=16bit".into()).or_default() += 1; return r; }
            }
            let mut all = cs.to_vec();
            all.extend(self.relevant_lemmas(cs));
            let mut r = self.incremental(&all, self.soft_ms);
            if let Res::Unknown = r { r = self.portfolio(&all, false, self.hard_s.min(60)); }
            match r {
                Res::Unsat => { *self.stats.by.entry("uf+lemmas".into()).or_default() += 1; return Res::Unsat; }
                Res::Unknown => break,
                Res::Sat(m) => {
                    // variables of cs only
                    if self.valid(cs, &m) { *self.stats.by.entry("uf+lemmas".into()).or_default() += 1; return Res::Sat(m); }
                    let n = m.iter().map(|x| x.0 as usize + 1).max().unwrap_or(0);
                    let mut vals = vec![0u8; n];
                    for (i, v) in &m { vals[*i as usize] = *v; }
                    let mut memo = HashMap::new();
                    let mut any = false;
                    for t in &nodes {
                        let r = s.eval(*t, &vals, &mut memo);
                        let w = s.w(*t);
                        let rk = s.konst(w, r);
                        let res_eq = s.eq(*t, rk);
                        let pre = match s.nodes[*t as usize].n {
                            N::Un(_, a) => { let v = s.eval(a, &vals, &mut memo); let k = s.konst(s.w(a), v); s.eq(a, k) }
                            N::Bin(_, a, b) => {
                                let v = s.eval(a, &vals, &mut memo); let k = s.konst(s.w(a), v); let e1 = s.eq(a, k);
                                let v = s.eval(b, &vals, &mut memo); let k = s.konst(s.w(b), v); let e2 = s.eq(b, k);
                                s.and(e1, e2)
                            }
                            _ => continue,
                        };
                        let np = s.not(pre);
                        let l = s.or(np, res_eq);
                        if s.as_c(l).is_none() { any |= self.add_lemma(l); }
                    }
                    if !any { break; }
                }
            }
            if round > 4 && t0.elapsed().as_secs() > self.hard_s { break; }
        }
        let r = self.portfolio(cs, true, self.hard_s);
        if let Res::Sat(m) = &r { if !self.valid(cs, m) { return Res::Unknown; } }
        r
    }

    fn incremental(&mut self, cs: &[T], _ms: u64) -> Res {
        if self.proc.is_none() { self.start(); }
        match self.incremental_inner(cs) {
            Ok(r) => r,
            Err(e) => { eprintln!("[z3 restarted: {}]", e); self.stop(); Res::Unknown }
        }
    }
    fn incremental_inner(&mut self, cs: &[T]) -> std::io::Result<Res> {
        let s = st();
        if self.proc.as_ref().unwrap().defined.len() > 400_000 { self.stop(); self.start(); }
        let goal = self.goal;
        let base: Vec<T> = cs.iter().copied().filter(|c| *c != goal).collect();
        let rest: Vec<T> = cs.iter().copied().filter(|c| *c == goal).collect();
        let p = self.proc.as_mut().unwrap();
        let mut buf = String::new();
        if p.base != base || !p.open {
            if p.open {
                buf.push_str("(pop)\n");
                for t in p.inner.drain(..) { p.defined.remove(&t); }
                for u in p.inner_ufs.drain(..) { p.ufs.remove(&u); }
                p.open = false;
            }
        }
        fn declare(p: &mut Proc, buf: &mut String, roots: &[T]) {
            let s = st();
            for t in s.topo(roots) {
                if p.defined.contains(&t) { continue; }
                match s.nodes[t as usize].n {
                    N::Const(_) => continue,
                    N::Var(i) => { buf.push_str(&format!("(declare-const b{} (_ BitVec 8))\n", i)); }
                    _ => {
                        if let Some((nm, d)) = s.uf_decl(t) { if p.ufs.insert(nm.clone()) { if p.open { p.inner_ufs.push(nm); } buf.push_str(&d); buf.push('\n'); } }
                        buf.push_str(&format!("(define-fun t{} () {} {})\n", t, s.sort(t), s.smt_body(t, false)));
                    }
                }
                p.defined.insert(t);
                if p.open { p.inner.push(t); }
            }
        }
        if !p.open {
            declare(p, &mut buf, cs);
            buf.push_str("(push)\n");
            for c in &base { buf.push_str(&format!("(assert {})\n", s.smt_ref(*c))); }
            p.open = true;
            p.base = base;
        } else { declare(p, &mut buf, &rest); }
        let vars: Vec<u32> = s.topo(cs).into_iter().filter_map(|t| if let N::Var(i) = s.nodes[t as usize].n { Some(i) } else { None }).collect();
        buf.push_str("(push)\n");
        for c in &rest { buf.push_str(&format!("(assert {})\n", s.smt_ref(*c))); }
        buf.push_str("(check-sat)\n(echo \"@@\")\n");
        p.limit.store(self.t0.elapsed().as_millis() as u64 + 3 * self.soft_ms + 500, Ordering::Relaxed);
        p.inp.write_all(buf.as_bytes())?;
        p.inp.flush()?;
        let mut ans = String::new();
        let mut line = String::new();
        loop {
            line.clear();
            if p.out.read_line(&mut line)? == 0 { return Err(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "eof")); }
            let l = line.trim().trim_matches('"');
            if l == "@@" { break; }
            if l.starts_with("(error") { eprintln!("[z3: {}]", l); ans = "error".into(); }
            else if ans != "error" && !l.is_empty() { ans = l.to_string(); }
        }
        let r = match ans.as_str() {
            "unsat" => Res::Unsat,
            "sat" => {
                let mut m = vec![];
                if !vars.is_empty() {
                    let q = format!("(get-value ({}))\n(echo \"@@\")\n", vars.iter().map(|v| format!("b{}", v)).collect::<Vec<_>>().join(" "));
                    p.inp.write_all(q.as_bytes())?;
                    p.inp.flush()?;
                    let mut txt = String::new();
                    loop {
                        line.clear();
                        if p.out.read_line(&mut line)? == 0 { return Err(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "eof")); }
                        if line.trim().trim_matches('"') == "@@" { break; }
                        txt.push_str(&line);
                    }
                    m = parse_model(&txt);
                }
                Res::Sat(m)
            }
            _ => Res::Unknown,
        };
        p.inp.write_all(b"(pop)\n")?;
        p.inp.flush()?;
        p.limit.store(0, Ordering::Relaxed);
        Ok(r)
    }

    /// models of multiplicative constraints are often easier to guess than to derive
    fn guess(&self, cs: &[T]) -> Option<Vec<(u32, u8)>> {
        let s = st();
        let order = s.topo(cs);
        let vl: Vec<u32> = order.iter().filter_map(|t| if let N::Var(i) = s.nodes[*t as usize].n { Some(i) } else { None }).collect();
        if vl.is_empty() || vl.len() > 24 { return None; }
        let mut vals = vec![0u8; *vl.iter().max().unwrap() as usize + 1];
        let mut buf: HashMap<T, u128> = HashMap::new();
        let mut r = 0x9e3779b97f4a7c15u64;
        for _ in 0..(400_000 / order.len().max(100)).min(1500) {
            for v in &vl {
                r ^= r << 13; r ^= r >> 7; r ^= r << 17;
                vals[*v as usize] = if r & 3 == 0 { [0, 1, 2, 127, 128, 129, 254, 255][(r >> 8) as usize % 8] } else { (r >> 16) as u8 };
            }
            buf.clear();
            s.eval_order(&order, &vals, &mut buf, cs[0]);
            if cs.iter().all(|c| buf.get(c).copied().unwrap_or_else(|| s.as_c(*c).unwrap_or(0)) == 1) { return Some(vl.iter().map(|v| (*v, vals[*v as usize])).collect()); }
        }
        None
    }
    /// unsat already with the quotients as unknowns of which only basic facts are kept?
    fn abstracted(&mut self, cs: &[T]) -> bool {
        let s = st();
        if cs.iter().all(|c| s.nodes[*c as usize].nl == 0 && !s.nodes[*c as usize].fp) { return false; }
        let mut last = None;
        for deep in [true, false] {
            let cut = s.cuts(cs, deep);
            if !cut.iter().any(|t| matches!(s.nodes[*t as usize].n, N::Bin(..) | N::Un(UOp::FToU | UOp::FToS, _))) || last.as_ref() == Some(&cut) { return false; }
            let text = { let extra = s.cut_bounds(&cut, cs); s.smt_file_abs(cs, false, &extra, false, &cut) };
            last = Some(cut);
            self.ndump += 1;
            let path = format!("/tmp/irsym.{}.{}.abs.smt2", self.pid, self.ndump);
            std::fs::write(&path, text).unwrap();
            if let Some(d) = &self.dump { let _ = std::fs::copy(&path, format!("{}/abs{}.{}.smt2", d, self.pid, self.ndump)); }
            let out = Command::new("z3-new").arg("-T:4").arg(&path).output();
            let _ = std::fs::remove_file(&path);
            let txt = out.map(|o| String::from_utf8_lossy(&o.stdout).to_string()).unwrap_or_default();
            if txt.contains("(error") { eprintln!("[abs: {}]", txt.lines().next().unwrap_or("")); return false; }
            if txt.trim() == "unsat" { *self.stats.by.entry("quotients-abstracted".into()).or_default() += 1; return true; }
        }
        false
    }

    fn portfolio(&mut self, cs: &[T], fp: bool, secs: u64) -> Res {
        let now = Instant::now();
        let left = if self.deadline > now { (self.deadline - now).as_secs() } else { 0 };
        let secs = secs.min(left.max(1));
        let text = st().smt_file(cs, fp, "", true);
        self.ndump += 1;
        let base = format!("/tmp/irsym.{}.{}", self.pid, self.ndump);
        let path = format!("{}.smt2", base);
        std::fs::write(&path, format!("(set-option :produce-models true)\n{}", text)).unwrap();
        if let Some(d) = &self.dump { let _ = std::fs::copy(&path, format!("{}/q{}.{}.smt2", d, self.pid, self.ndump)); }
        let cmds: Vec<(&str, Vec<String>)> = vec![
            ("z3", vec!["z3-new".into(), format!("-T:{}", secs), path.clone()]),
            ("cvc5", vec!["cvc5".into(), format!("--tlimit={}", secs * 1000), path.clone()]),
            ("cvc5-int", vec!["cvc5".into(), "--solve-bv-as-int=sum".into(), format!("--tlimit={}", secs * 1000), path.clone()]),
        ];
        let mut kids = vec![];
        for (i, (nm, c)) in cmds.iter().enumerate() {
            if fp && i == 2 { continue; }
            let of = format!("{}.{}.out", base, i);
            let f = std::fs::File::create(&of).unwrap();
            if let Ok(ch) = Command::new(&c[0]).args(&c[1..]).stdout(f).stderr(Stdio::null()).spawn() { kids.push((nm.to_string(), of, Some(ch))); }
        }
        let t0 = Instant::now();
        let mut res = Res::Unknown;
        'o: loop {
            let mut alive = 0;
            for (nm, of, ch) in kids.iter_mut() {
                if let Some(c) = ch {
                    match c.try_wait() {
                        Ok(Some(_)) => {
                            *ch = None;
                            let txt = std::fs::read_to_string(&of).unwrap_or_default();
                            let first = txt.lines().next().unwrap_or("").trim().to_string();
                            if txt.contains("(error") && first != "unsat" { continue; }
                            if first == "unsat" { res = Res::Unsat; *self.stats.by.entry(nm.clone()).or_default() += 1; break 'o; }
                            if first == "sat" { res = Res::Sat(parse_model(&txt)); *self.stats.by.entry(nm.clone()).or_default() += 1; break 'o; }
                        }
                        Ok(None) => alive += 1,
                        Err(_) => *ch = None,
                    }
                }
            }
            if alive == 0 { break; }
            if t0.elapsed().as_secs() > secs + 5 { break; }
            std::thread::sleep(Duration::from_millis(5));
        }
        for (_, of, ch) in kids.iter_mut() {
            if let Some(c) = ch { let _ = c.kill(); let _ = c.wait(); }
            let _ = std::fs::remove_file(&of);
        }
        let _ = std::fs::remove_file(&path);
        res
    }

    /// like bounds, but None as soon as the span is known to exceed `span`; v is a feasible value
    pub fn bounds_near(&mut self, pc: &[T], t: T, v: u128, span: u128) -> Option<(u128, u128)> {
        let s = st();
        let nd = &s.nodes[t as usize];
        let (w, ulo, uhi) = (nd.w, nd.ulo, nd.uhi);
        let k = s.konst(w, v);
        let e = s.eq(t, k);
        let ne = s.not(e);
        if let Res::Unsat = self.check(pc, ne) { return Some((v, v)); }
        let mut hi = uhi;
        if hi > v + span {
            let k = s.konst(w, v + span);
            let c = s.bin(Op::Ult, k, t);
            match self.check(pc, c) { Res::Unsat => hi = v + span, _ => return None }
        }
        let mut lo = ulo;
        if v > span && lo < v - span {
            let k = s.konst(w, v - span);
            let c = s.bin(Op::Ult, t, k);
            match self.check(pc, c) { Res::Unsat => lo = v - span, _ => return None }
        }
        let (mut a, mut b) = (v, hi);
        while a < b {
            let mid = a + (b - a) / 2;
            let k = s.konst(w, mid);
            let c = s.bin(Op::Ult, k, t);
            match self.check(pc, c) { Res::Sat(_) => a = mid + 1, Res::Unsat => b = mid, Res::Unknown => return None }
        }
        let hi = b;
        let _ = (ulo, uhi);
        let (mut a, mut b) = (lo, v);
        while a < b {
            let mid = a + (b - a) / 2;
            let k = s.konst(w, mid);
            let c = s.bin(Op::Ult, k, t);
            let c = s.not(c);
            match self.check(pc, c) { Res::Sat(_) => b = mid, Res::Unsat => a = mid + 1, Res::Unknown => return None }
        }
        Some((a, hi))
    }
    /// smallest / largest unsigned value of t under pc (exact), by bisection
    pub fn bounds(&mut self, pc: &[T], t: T) -> Option<(u128, u128)> {
        let s = st();
        let nd = &s.nodes[t as usize];
        let (w, mut lo0, mut hi0) = (nd.w, nd.ulo, nd.uhi);
        // upper
        let (mut lo, mut hi) = (lo0, hi0);
        while lo < hi {
            let mid = lo + (hi - lo) / 2;
            let k = s.konst(w, mid);
            let c = s.bin(Op::Ult, k, t); // t > mid
            match self.check(pc, c) { Res::Sat(_) => lo = mid + 1, Res::Unsat => hi = mid, Res::Unknown => return None }
        }
        hi0 = hi;
        let (mut lo, mut hi) = (lo0, hi0);
        while lo < hi {
            let mid = lo + (hi - lo) / 2;
            let k = s.konst(w, mid);
            let c = s.bin(Op::Ult, k, t);
            let c = s.not(c); // t <= mid
            match self.check(pc, c) { Res::Sat(_) => hi = mid, Res::Unsat => lo = mid + 1, Res::Unknown => return None }
        }
        lo0 = lo;
        Some((lo0, hi0))
    }
}
impl Drop for Solver { fn drop(&mut self) { self.stop(); } }

fn parse_model(txt: &str) -> Vec<(u32, u8)> {
    let mut out = vec![];
    let toks: Vec<&str> = txt.split(|c: char| c.is_whitespace() || c == '(' || c == ')').filter(|x| !x.is_empty()).collect();
    let mut i = 0;
    while i + 1 < toks.len() {
        if let Some(id) = toks[i].strip_prefix('b').and_then(|x| x.parse::<u32>().ok()) {
            let v = toks[i + 1];
            let val = if let Some(h) = v.strip_prefix("#x") { u8::from_str_radix(h, 16).ok() } else if let Some(b) = v.strip_prefix("#b") { u8::from_str_radix(b, 2).ok() } else { None };
            if let Some(x) = val { out.push((id, x)); i += 2; continue; }
        }
        i += 1;
    }
    out
}
