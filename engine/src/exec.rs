//! Symbolic executor over LLVM IR: forking depth-first search, copy-on-write memory,
//! concrete object addresses, every state carries a model of its path condition.
use crate::ir::*;
use crate::solver::*;
use crate::term::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0.rotate_left(5) ^ *x as u64).wrapping_mul(0x517cc1b727220a95); } }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95); }
}
#[derive(Default, Clone)]
pub struct FxB;
impl std::hash::BuildHasher for FxB { type Hasher = Fx; fn build_hasher(&self) -> Fx { Fx(0) } }

const PS: u64 = 1024;
#[derive(Clone)]
struct Page { c: [u8; PS as usize], s: Option<Box<[T; PS as usize]>> }
#[derive(Clone, Default)]
pub struct Mem { pages: HashMap<u64, Rc<Page>, FxB> }
impl Mem {
    fn rd(&self, a: u64) -> Bv {
        match self.pages.get(&(a / PS)) {
            None => Bv::k(8, 0),
            Some(p) => {
                let o = (a % PS) as usize;
                if let Some(s) = &p.s { if s[o] != 0 { return Bv { w: 8, t: s[o], c: 0 }; } }
                Bv { w: 8, t: 0, c: p.c[o] as u128 }
            }
        }
    }
    fn page(&mut self, n: u64) -> &mut Page {
        let e = self.pages.entry(n).or_insert_with(|| Rc::new(Page { c: [0; PS as usize], s: None }));
        Rc::make_mut(e)
    }
    fn wr(&mut self, a: u64, v: Bv) {
        let p = self.page(a / PS);
        let o = (a % PS) as usize;
        if v.t == 0 { p.c[o] = v.c as u8; if let Some(s) = &mut p.s { s[o] = 0; } }
        else {
            if p.s.is_none() { p.s = Some(Box::new([0; PS as usize])); }
            p.s.as_mut().unwrap()[o] = v.t;
        }
    }
    fn wr_bytes(&mut self, a: u64, b: &[u8]) {
        let mut i = 0usize;
        while i < b.len() {
            let ad = a + i as u64;
            let o = (ad % PS) as usize;
            let n = (PS as usize - o).min(b.len() - i);
            let p = self.page(ad / PS);
            p.c[o..o + n].copy_from_slice(&b[i..i + n]);
            if let Some(s) = &mut p.s { for x in &mut s[o..o + n] { *x = 0; } }
            i += n;
        }
    }
    fn fill(&mut self, a: u64, v: Bv, n: u64) {
        if v.t == 0 { let b = vec![v.c as u8; n as usize]; self.wr_bytes(a, &b); }
        else { for i in 0..n { self.wr(a + i, v); } }
    }
    fn copy(&mut self, d: u64, s: u64, n: u64) {
        if n == 0 || d == s { return; }
        // read everything first (memmove semantics)
        let mut buf: Vec<u8> = Vec::with_capacity(n as usize);
        let mut sym: Vec<(u64, T)> = vec![];
        let mut i = 0;
        while i < n {
            let ad = s + i;
            let o = (ad % PS) as usize;
            let k = (PS - o as u64).min(n - i) as usize;
            match self.pages.get(&(ad / PS)) {
                None => buf.extend(std::iter::repeat(0).take(k)),
                Some(p) => {
                    buf.extend_from_slice(&p.c[o..o + k]);
                    if let Some(sy) = &p.s { for j in 0..k { if sy[o + j] != 0 { sym.push((i + j as u64, sy[o + j])); } } }
                }
            }
            i += k as u64;
        }
        self.wr_bytes(d, &buf);
        for (i, t) in sym { self.wr(d + i, Bv { w: 8, t, c: 0 }); }
    }
}

pub struct Model { pub vals: Vec<u8>, memo: RefCell<HashMap<T, u128>> }
impl Model {
    fn new(vals: Vec<u8>) -> Rc<Model> { Rc::new(Model { vals, memo: RefCell::new(HashMap::new()) }) }
    fn eval(&self, t: T) -> u128 { st().eval(t, &self.vals, &mut self.memo.borrow_mut()) }
}

#[derive(Clone)]
struct Frame { f: Rc<Func>, blk: u32, ip: usize, regs: Vec<Val>, sp: u64 }
#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    mem: Mem,
    heap: u64,
    sp: u64,
    pub pc: Vec<T>,
    conc: Vec<(T, u128)>,
    model: Rc<Model>,
    nvars: u32,
    uncertain: bool,
    reach: Vec<u32>,
    obs: Vec<Vec<Bv>>,
    steps: u64,
    forks: u32,
    maxdepth: usize,
}
pub const HEAP: u64 = 0x10_0000_0000;
pub const STACK: u64 = 0x7f00_0000_0000;

#[derive(Clone, Debug)]
pub struct PathRec {
    pub outcome: String, // ok | panic | stack | check | abort
    pub detail: String,
    pub bytes: Vec<u8>,
    pub obs: Vec<Vec<u8>>,
    pub reach: Vec<u32>,
    pub steps: u64,
    pub uncertain: bool,
}
enum Step { Cont, End(String, String), Drop, Incomplete(String) }
type R<X> = Result<X, Step>;

pub struct Cfg { pub max_depth: usize, pub max_steps: u64, pub max_paths: usize, pub max_viol: usize, pub deadline: Instant, pub keep_paths: usize, pub trace: bool }
pub struct Exec {
    pub m: Module,
    pub sv: Solver,
    pub cfg: Cfg,
    pub work: Vec<State>,
    pub paths: Vec<PathRec>,
    pub npaths: usize,
    pub outcomes: BTreeMap<String, u64>,
    pub viol: Vec<PathRec>,
    pub incomplete: BTreeMap<String, u64>,
    pub checks: BTreeMap<u32, u64>,
    pub checks_symbolic: u64,
    pub reached: BTreeMap<u32, u64>,
    pub total_steps: u64,
    pub total_forks: u64,
    pub funcs_seen: BTreeMap<String, u64>,
    pub maxdepth_seen: usize,
    pub fork_sites: HashMap<String, u64>,
    pub unmodelled: BTreeMap<String, u64>,
}

fn b1(c: bool) -> Bv { Bv::k(1, c as u128) }
pub fn bin(op: Op, a: Bv, b: Bv) -> Bv {
    if a.t == 0 && b.t == 0 {
        let rw = match op { Op::Eq | Op::Ult | Op::Slt | Op::FEq | Op::FLt | Op::FLe | Op::FUno => 1, Op::Cat => a.w + b.w, _ => a.w };
        return Bv::k(rw, eval_bin(op, a.w, a.c, b.c, b.w));
    }
    // cheap identities without building constants
    if b.t == 0 && b.c == 0 && matches!(op, Op::Add | Op::Sub | Op::Or | Op::Xor | Op::Shl | Op::LShr) { return a; }
    let (x, y) = (a.term(), b.term());
    Bv::of(st().bin(op, x, y))
}
pub fn un(op: UOp, a: Bv, w: u16) -> Bv {
    if a.t == 0 { return Bv::k(w, eval_un(op, a.w, w, a.c)); }
    Bv::of(st().un(op, a.t, w))
}
pub fn not(a: Bv) -> Bv { un(UOp::Not, a, a.w) }
pub fn ite(c: Bv, a: Bv, b: Bv) -> Bv {
    if c.t == 0 { return if c.c != 0 { a } else { b }; }
    let (x, y) = (a.term(), b.term());
    Bv::of(st().ite(c.t, x, y))
}
fn ite_val(c: Bv, a: &Val, b: &Val) -> Val {
    match (a, b) {
        (Val::B(x), Val::B(y)) => Val::B(ite(c, *x, *y)),
        (Val::A(x), Val::A(y)) => Val::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| ite_val(c, p, q)).collect())),
        _ => panic!("select mismatch"),
    }
}
fn lanes(v: &Val) -> Rc<Vec<Val>> { match v { Val::A(x) => x.clone(), Val::B(_) => panic!("lanes") } }
fn map2(a: &Val, b: &Val, f: &mut dyn FnMut(Bv, Bv) -> Bv) -> Val {
    match (a, b) {
        (Val::B(x), Val::B(y)) => Val::B(f(*x, *y)),
        (Val::A(x), Val::A(y)) => Val::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| map2(p, q, f)).collect())),
        _ => panic!("map2"),
    }
}
fn map1(a: &Val, f: &mut dyn FnMut(Bv) -> Bv) -> Val {
    match a { Val::B(x) => Val::B(f(*x)), Val::A(x) => Val::A(Rc::new(x.iter().map(|p| map1(p, f)).collect())) }
}
fn icmp(p: &str, a: Bv, b: Bv) -> Bv {
    match p {
        "eq" => bin(Op::Eq, a, b),
        "ne" => not(bin(Op::Eq, a, b)),
        "ult" => bin(Op::Ult, a, b),
        "ugt" => bin(Op::Ult, b, a),
        "ule" => not(bin(Op::Ult, b, a)),
        "uge" => not(bin(Op::Ult, a, b)),
        "slt" => bin(Op::Slt, a, b),
        "sgt" => bin(Op::Slt, b, a),
        "sle" => not(bin(Op::Slt, b, a)),
        _ => not(bin(Op::Slt, a, b)),
    }
}
fn fcmp(p: &str, a: Bv, b: Bv) -> Bv {
    let uno = |a, b| bin(Op::FUno, a, b);
    let or = |a, b| bin(Op::Or, a, b);
    let and = |a, b| bin(Op::And, a, b);
    match p {
        "oeq" => bin(Op::FEq, a, b),
        "olt" => bin(Op::FLt, a, b),
        "ole" => bin(Op::FLe, a, b),
        "ogt" => bin(Op::FLt, b, a),
        "oge" => bin(Op::FLe, b, a),
        "one" => and(not(uno(a, b)), not(bin(Op::FEq, a, b))),
        "ord" => not(uno(a, b)),
        "uno" => uno(a, b),
        "une" => not(bin(Op::FEq, a, b)),
        "ueq" => or(uno(a, b), bin(Op::FEq, a, b)),
        "ult" => not(bin(Op::FLe, b, a)),
        "ule" => not(bin(Op::FLt, b, a)),
        "ugt" => not(bin(Op::FLe, a, b)),
        "uge" => not(bin(Op::FLt, a, b)),
        "true" => b1(true),
        _ => b1(false),
    }
}
/// bit width of a first-class scalar or vector
fn bits(t: &Ty) -> u64 { match t { Ty::I(w) | Ty::F(w) => *w as u64, Ty::Ptr => 64, Ty::Vec(n, e) => n * bits(e), _ => t.size() * 8 } }
/// flatten to lanes of width lw (little endian order)
fn to_bits(v: &Val) -> Vec<Bv> { match v { Val::B(b) => vec![*b], Val::A(x) => x.iter().flat_map(|e| to_bits(e)).collect() } }
fn concat(parts: &[Bv]) -> Bv { let mut r = parts[0]; for p in &parts[1..] { r = bin(Op::Cat, *p, r); } r }
fn bitcast(v: &Val, from: &Ty, to: &Ty) -> Val {
    if from == to { return v.clone(); }
    match to {
        Ty::Vec(n, e) => {
            let lw = bits(e) as u16;
            let src = to_bits(v);
            if src[0].w == lw { return Val::A(Rc::new(src.into_iter().map(Val::B).collect())); }
            if src[0].w > lw {
                let per = src[0].w / lw;
                return Val::A(Rc::new(src.iter().flat_map(|s| (0..per).map(move |i| Val::B(un(UOp::Ext(i * lw), *s, lw)))).collect()));
            }
            let per = (lw / src[0].w) as usize;
            let _ = n;
            Val::A(Rc::new(src.chunks(per).map(|c| Val::B(concat(c))).collect()))
        }
        _ => match v { Val::B(b) => Val::B(*b), Val::A(_) => Val::B(concat(&to_bits(v))) },
    }
}
fn stride(t: T) -> u128 {
    let s = st();
    match s.nodes[t as usize].n {
        N::Bin(Op::Add, a, b) => if s.as_c(b).is_some() { stride(a) } else { gcd(stride(a), stride(b)) },
        N::Bin(Op::Mul, a, b) => match s.as_c(b) { Some(c) => stride(a).saturating_mul(c), None => 1 },
        N::Un(UOp::ZExt, a) | N::Un(UOp::SExt, a) => stride(a),
        N::Bin(Op::Cat, _, _) => 1u128 << s.trailing_zeros(t).min(60),
        _ => 1,
    }
}
fn gcd(a: u128, b: u128) -> u128 { if b == 0 { a } else { gcd(b, a % b) } }

impl Exec {
    pub fn new(m: Module, sv: Solver, cfg: Cfg) -> Exec {
        Exec { m, sv, cfg, work: vec![], paths: vec![], npaths: 0, outcomes: BTreeMap::new(), viol: vec![], incomplete: BTreeMap::new(), checks: BTreeMap::new(), checks_symbolic: 0, reached: BTreeMap::new(), total_steps: 0, total_forks: 0, funcs_seen: BTreeMap::new(), maxdepth_seen: 0, fork_sites: HashMap::new(), unmodelled: BTreeMap::new() }
    }

    pub fn run(&mut self, entry: &str, args: &[u64]) {
        let mut mem = Mem::default();
        for (a, b) in self.m.global_bytes() { mem.wr_bytes(a, &b); }
        let f = self.m.func(&entry.into()).unwrap_or_else(|| { eprintln!("no entry {}", entry); std::process::exit(3) });
        let mut regs = vec![Val::B(Bv::k(1, 0)); f.nregs as usize];
        for (i, (t, r)) in f.params.iter().enumerate() { regs[*r as usize] = Val::B(Bv::k(bits(t) as u16, *args.get(i).unwrap_or(&0) as u128)); }
        let s = State { frames: vec![Frame { f, blk: 0, ip: 0, regs, sp: STACK }], mem, heap: HEAP, sp: STACK, pc: vec![], conc: vec![], model: Model::new(vec![]), nvars: 0, uncertain: false, reach: vec![], obs: vec![], steps: 0, forks: 0, maxdepth: 1 };
        self.work.push(s);
        while let Some(s) = self.work.pop() {
            if Instant::now() > self.cfg.deadline { *self.incomplete.entry("deadline".into()).or_default() += 1 + self.work.len() as u64; break; }
            if self.npaths >= self.cfg.max_paths { *self.incomplete.entry("path limit".into()).or_default() += 1 + self.work.len() as u64; break; }
            if self.viol.len() >= self.cfg.max_viol { break; }
            self.run_state(s);
        }
    }

    fn record(&mut self, s: &mut State, outcome: &str, detail: &str) {
        self.npaths += 1;
        self.total_steps += s.steps;
        self.maxdepth_seen = self.maxdepth_seen.max(s.maxdepth);
        *self.outcomes.entry(if outcome == "panic" { format!("panic {}", detail) } else { outcome.to_string() }).or_default() += 1;
        if s.uncertain {
            match self.sv.check_all(s.pc.clone()) {
                Res::Sat(m) => { self.set_model(s, &m); s.uncertain = false; }
                Res::Unsat => { self.npaths -= 1; return; }
                Res::Unknown => { *self.incomplete.entry("path feasibility undecided".into()).or_default() += 1; }
            }
        }
        for r in &s.reach { *self.reached.entry(*r).or_default() += 1; }
        let rec = PathRec {
            outcome: outcome.into(), detail: detail.into(),
            bytes: { let mut v = s.model.vals.clone(); v.resize(s.nvars as usize, 0); v },
            obs: s.obs.iter().map(|o| o.iter().map(|b| if b.t == 0 { b.c as u8 } else { s.model.eval(b.t) as u8 }).collect()).collect(),
            reach: s.reach.clone(), steps: s.steps, uncertain: s.uncertain,
        };
        if outcome != "ok" && !s.uncertain { self.viol.push(rec.clone()); }
        if self.paths.len() < self.cfg.keep_paths { self.paths.push(rec); }
        else if self.cfg.keep_paths > 0 {
            // deterministic thinning: overwrite pseudo-randomly
            let h = (self.npaths as u64).wrapping_mul(0x9E3779B97F4A7C15) >> 20;
            let k = h % self.npaths as u64;
            if (k as usize) < self.cfg.keep_paths { self.paths[k as usize] = rec; }
        }
    }
    fn set_model(&self, s: &mut State, m: &[(u32, u8)]) {
        let mut v = s.model.vals.clone();
        v.resize(s.nvars as usize, 0);
        for (i, x) in m { if (*i as usize) < v.len() { v[*i as usize] = *x; } else { v.resize(*i as usize + 1, 0); v[*i as usize] = *x; } }
        s.model = Model::new(v);
    }

    fn run_state(&mut self, mut s: State) {
        let mut n = 0u64;
        loop {
            let r = self.step(&mut s);
            s.steps += 1;
            n += 1;
            if n % 65536 == 0 && Instant::now() > self.cfg.deadline {
                *self.incomplete.entry("deadline".into()).or_default() += 1;
                self.total_steps += s.steps;
                return;
            }
            match r {
                Ok(()) | Err(Step::Cont) => {}
                Err(Step::End(o, d)) => { self.record(&mut s, &o, &d); return; }
                Err(Step::Drop) => { self.total_steps += s.steps; return; }
                Err(Step::Incomplete(why)) => {
                    *self.incomplete.entry(why).or_default() += 1;
                    self.total_steps += s.steps;
                    return;
                }
            }
            if s.steps > self.cfg.max_steps { *self.incomplete.entry("step limit".into()).or_default() += 1; self.total_steps += s.steps; return; }
        }
    }

    fn val(&self, s: &State, o: &Op_) -> Val {
        match o { Op_::R(r) => s.frames.last().unwrap().regs[*r as usize].clone(), Op_::K(v) => v.clone(), Op_::Undef(t) => zero(t) }
    }
    fn bv(&self, s: &State, o: &Op_) -> Bv {
        match o { Op_::R(r) => match &s.frames.last().unwrap().regs[*r as usize] { Val::B(b) => *b, Val::A(_) => panic!("agg operand") }, Op_::K(Val::B(b)) => *b, Op_::Undef(t) => zero(t).bv(), _ => panic!() }
    }
    fn set(&self, s: &mut State, r: u32, v: Val) { if r != u32::MAX { s.frames.last_mut().unwrap().regs[r as usize] = v; } }

    /// c holds (or not) on this path: values it bounds to the low bits are replaced by these bits
    fn learn(&self, s: &mut State, c: T, v: bool) {
        let (v, c) = match st().nodes[c as usize].n { N::Un(UOp::Not, x) => (!v, x), _ => (v, c) };
        if !v { return; }
        let N::Bin(Op::Ult, a, b) = st().nodes[c as usize].n else { return };
        let Some(k) = st().as_c(b) else { return };
        if st().nodes[a as usize].nl == 0 && !st().nodes[a as usize].fp || !k.is_power_of_two() || k < 2 { return; }
        let w = st().w(a);
        let e = st().ext(a, 0, k.trailing_zeros() as u16);
        let z = st().zext(e, w);
        if z == a { return; }
        for r in s.frames.last_mut().unwrap().regs.iter_mut() {
            if let Val::B(x) = r { if x.t == a { *x = Bv::of(z); } }
        }
    }
    /// add a constraint (already known to be consistent with the path)
    fn assume(&self, s: &mut State, c: T) {
        if c == st().tt { return; }
        // split conjunctions so that later slices are small
        if let N::Bin(Op::And, a, b) = st().nodes[c as usize].n { if st().w(c) == 1 { self.assume(s, a); self.assume(s, b); return; } }
        if !s.pc.contains(&c) { s.pc.push(c); }
    }
    /// fork `s`: returns the twin constrained by c (or None if infeasible)
    fn twin(&mut self, s: &State, c: T) -> R<Option<State>> {
        let r = self.sv.check(&s.pc, c);
        match r {
            Res::Unsat => Ok(None),
            Res::Sat(m) => {
                let mut o = s.clone();
                self.set_model(&mut o, &m);
                self.assume(&mut o, c);
                o.forks += 1;
                self.total_forks += 1;
                Ok(Some(o))
            }
            Res::Unknown => {
                let mut o = s.clone();
                o.uncertain = true;
                self.assume(&mut o, c);
                Ok(Some(o))
            }
        }
    }
    /// in an uncertain state, make the model valid again or drop the path
    fn settle(&mut self, s: &mut State) -> R<()> {
        if !s.uncertain { return Ok(()); }
        match self.sv.check_all(s.pc.clone()) {
            Res::Sat(m) => { self.set_model(s, &m); s.uncertain = false; Ok(()) }
            Res::Unsat => Err(Step::Drop),
            Res::Unknown => Err(Step::Incomplete("solver undecided".into())),
        }
    }
    fn site(&mut self, s: &State) {
        let f = s.frames.last().unwrap();
        let k = format!("{}:{}", f.f.name, f.f.blocks[f.blk as usize].ins.get(f.ip).map(|x| x.line).unwrap_or(0));
        *self.fork_sites.entry(k).or_default() += 1;
    }

    /// a concrete value for b on this path, forking off the other values
    fn conc(&mut self, s: &mut State, b: Bv) -> R<u128> {
        if b.t == 0 { return Ok(b.c); }
        if let Some((_, v)) = s.conc.iter().find(|x| x.0 == b.t) { return Ok(*v); }
        let b2 = Solver::simplify(&s.pc, &s.conc, b.t);
        if let Some(v) = st().as_c(b2) { s.conc.push((b.t, v)); return Ok(v); }
        self.settle(s)?;
        let v = s.model.eval(b.t);
        let k = st().konst(b.w, v);
        // stated about the simplified term, which is equal on this path
        let e = st().eq(b2, k);
        let ne = st().not(e);
        if let Some(o) = self.twin(s, ne)? { self.site(s); self.work.push(o); self.assume(s, e); }
        s.conc.push((b.t, v));
        Ok(v)
    }
    /// decide a condition on this path, forking off the other outcome; the twin re-executes
    /// the current instruction
    fn decide(&mut self, s: &mut State, c: Bv) -> R<bool> {
        if c.t == 0 { return Ok(c.c != 0); }
        Ok(self.conc(s, c)? != 0)
    }

    fn ok_addr(&self, s: &State, a: u64, n: u64) -> R<()> {
        let good = (a >= GBASE && a + n <= HEAP) || (a >= HEAP && a + n <= s.heap + 16) || (a >= STACK && a + n <= s.sp + 16);
        if !good { let f = s.frames.last().unwrap(); return Err(Step::End("badmem".into(), format!("access of {} bytes at {:#x} in {}", n, a, f.f.name))); }
        Ok(())
    }
    fn read_n(&self, s: &State, a: u64, n: u64) -> Bv {
        // little endian
        let mut all = true;
        let mut c: u128 = 0;
        let mut tmp: [Bv; 16] = [Bv::k(8, 0); 16];
        for i in 0..n { let b = s.mem.rd(a + i); if b.t != 0 { all = false; } c |= b.c << (8 * i); tmp[i as usize] = b; }
        if all { return Bv::k(n as u16 * 8, c); }
        concat(&tmp[..n as usize])
    }
    fn load_c(&self, s: &State, ty: &Ty, a: u64) -> Val {
        match ty {
            Ty::I(w) | Ty::F(w) => { let n = (*w as u64 + 7) / 8; let v = self.read_n(s, a, n); Val::B(if v.w != *w { un(UOp::Ext(0), v, *w) } else { v }) }
            Ty::Ptr => Val::B(self.read_n(s, a, 8)),
            Ty::Arr(n, t) => { let z = t.size(); Val::A(Rc::new((0..*n).map(|i| self.load_c(s, t, a + i * z)).collect())) }
            Ty::Vec(n, t) => {
                if bits(t) % 8 != 0 { let v = self.read_n(s, a, ty.size()); let w = bits(t) as u16; return Val::A(Rc::new((0..*n as u16).map(|i| Val::B(un(UOp::Ext(i * w), v, w))).collect())); }
                let z = t.size(); Val::A(Rc::new((0..*n).map(|i| self.load_c(s, t, a + i * z)).collect()))
            }
            Ty::Struct(fs, _) => { let (o, _) = ty.layout(); Val::A(Rc::new(fs.iter().enumerate().map(|(i, f)| self.load_c(s, f, a + o[i])).collect())) }
            _ => panic!("load {:?}", ty),
        }
    }
    fn write_n(&self, s: &mut State, a: u64, v: Bv) {
        let n = (v.w as u64 + 7) / 8;
        let v = if v.w % 8 != 0 { un(UOp::ZExt, v, n as u16 * 8) } else { v };
        if v.t == 0 { let mut b = [0u8; 16]; for i in 0..n as usize { b[i] = (v.c >> (8 * i)) as u8; } s.mem.wr_bytes(a, &b[..n as usize]); return; }
        for i in 0..n { let b = un(UOp::Ext(8 * i as u16), v, 8); s.mem.wr(a + i, b); }
    }
    fn store_c(&self, s: &mut State, ty: &Ty, a: u64, v: &Val) {
        match (ty, v) {
            (Ty::Struct(fs, _), Val::A(x)) => { let (o, _) = ty.layout(); for (i, f) in fs.iter().enumerate() { self.store_c(s, f, a + o[i], &x[i]); } }
            (Ty::Arr(_, t), Val::A(x)) | (Ty::Vec(_, t), Val::A(x)) => {
                if bits(t) % 8 != 0 { let b = concat(&to_bits(v)); self.write_n(s, a, b); return; }
                let z = t.size(); for (i, e) in x.iter().enumerate() { self.store_c(s, t, a + i as u64 * z, e); }
            }
            (_, Val::B(b)) => self.write_n(s, a, *b),
            _ => panic!("store {:?}", ty),
        }
    }
    /// possible concrete addresses of a symbolic pointer, with selecting conditions
    fn leaves(&self, t: T, c: Bv, out: &mut Vec<(Bv, u64)>) {
        match st().nodes[t as usize].n {
            N::Const(k) => out.push((c, k as u64)),
            N::Ite(x, a, b) => { let xc = Bv::of(x); let y = bin(Op::And, c, xc); let z = bin(Op::And, c, not(xc)); self.leaves(a, y, out); self.leaves(b, z, out); }
            _ => unreachable!(),
        }
    }
    fn range(&mut self, s: &mut State, p: Bv, max: u128) -> R<Option<(u64, u64, u64)>> {
        let sd = stride(p.t).max(1);
        let (lo, hi);
        {
            self.settle(s)?;
            let v = s.model.eval(p.t);
            match self.sv.bounds_near(&s.pc, p.t, v, max * sd) { Some((l, h)) => { lo = l; hi = h; } None => return Ok(None) }
        }
        if (hi - lo) / sd + 1 > max { return Ok(None); }
        Ok(Some((lo as u64, hi as u64, sd as u64)))
    }
    fn load(&mut self, s: &mut State, ty: &Ty, mut p: Bv) -> R<Val> {
        if p.t != 0 && !s.conc.iter().any(|x| x.0 == p.t) { p = Bv::of(Solver::simplify(&s.pc, &s.conc, p.t)); }
        if p.t == 0 { self.ok_addr(s, p.c as u64, ty.size())?; return Ok(self.load_c(s, ty, p.c as u64)); }
        if let Some((_, v)) = s.conc.iter().find(|x| x.0 == p.t) { let a = *v as u64; self.ok_addr(s, a, ty.size())?; return Ok(self.load_c(s, ty, a)); }
        let lv = st().nodes[p.t as usize].leaves;
        if lv > 0 && lv <= 32 {
            let mut out = vec![];
            self.leaves(p.t, b1(true), &mut out);
            let mut feas = vec![];
            for (c, a) in out { if c.t != 0 { if let Res::Unsat = self.sv.check(&s.pc, c.t) { continue; } } feas.push((c, a)); }
            for (_, a) in &feas { self.ok_addr(s, *a, ty.size())?; }
            let mut r = self.load_c(s, ty, feas.last().unwrap().1);
            for (c, a) in feas.iter().rev().skip(1) { let v = self.load_c(s, ty, *a); r = ite_val(*c, &v, &r); }
            return Ok(r);
        }
        if let Some((lo, hi, sd)) = self.range(s, p, 4096)? {
            let n = (hi - lo) / sd + 1;
            self.ok_addr(s, lo, ty.size())?;
            self.ok_addr(s, hi, ty.size())?;
            let vals: Vec<Val> = (0..n).map(|i| self.load_c(s, ty, lo + i * sd)).collect();
            fn tree(p: Bv, lo: u64, sd: u64, v: &[Val], base: usize) -> Val {
                if v.len() == 1 { return v[0].clone(); }
                let m = v.len() / 2;
                let l = tree(p, lo, sd, &v[..m], base);
                let r = tree(p, lo, sd, &v[m..], base + m);
                let c = bin(Op::Ult, p, Bv::k(64, (lo + (base + m) as u64 * sd) as u128));
                ite_val(c, &l, &r)
            }
            return Ok(tree(p, lo, sd, &vals, 0));
        }
        let a = self.conc(s, p)? as u64;
        self.ok_addr(s, a, ty.size())?;
        Ok(self.load_c(s, ty, a))
    }
    fn store(&mut self, s: &mut State, ty: &Ty, mut p: Bv, v: &Val) -> R<()> {
        if p.t != 0 && !s.conc.iter().any(|x| x.0 == p.t) { p = Bv::of(Solver::simplify(&s.pc, &s.conc, p.t)); }
        if p.t == 0 { self.ok_addr(s, p.c as u64, ty.size())?; self.store_c(s, ty, p.c as u64, v); return Ok(()); }
        let known = s.conc.iter().any(|x| x.0 == p.t);
        if !known {
            let lv = st().nodes[p.t as usize].leaves;
            let mut cands: Vec<(Bv, u64)> = vec![];
            if lv > 0 && lv <= 32 {
                let mut out = vec![];
                self.leaves(p.t, b1(true), &mut out);
                for (c, a) in out { if c.t != 0 { if let Res::Unsat = self.sv.check(&s.pc, c.t) { continue; } } cands.push((c, a)); }
            } else if let Some((lo, hi, sd)) = self.range(s, p, 64)? {
                let n = (hi - lo) / sd + 1;
                for i in 0..n { let a = lo + i * sd; cands.push((bin(Op::Eq, p, Bv::k(64, a as u128)), a)); }
            }
            if !cands.is_empty() {
                for (_, a) in &cands { self.ok_addr(s, *a, ty.size())?; }
                for (c, a) in cands { let old = self.load_c(s, ty, a); let nv = ite_val(c, v, &old); self.store_c(s, ty, a, &nv); }
                return Ok(());
            }
        }
        let a = self.conc(s, p)? as u64;
        self.ok_addr(s, a, ty.size())?;
        self.store_c(s, ty, a, v);
        Ok(())
    }

    fn alloc(&mut self, s: &mut State, size: Bv, align: u64) -> R<u64> {
        let n = if size.t == 0 { size.c } else {
            let nd = &st().nodes[size.t as usize];
            if nd.uhi < 1 << 36 { nd.uhi } else { self.settle(s)?; match self.sv.bounds(&s.pc, size.t) { Some((_, h)) => h, None => return Err(Step::Incomplete("allocation bound".into())) } }
        };
        if n > 1 << 44 { return Err(Step::End("oom".into(), format!("allocation of up to {} bytes", n))); }
        let n = n as u64;
        let al = align.max(16);
        let a = (s.heap + 16 + al - 1) / al * al;
        s.mem.wr_bytes(a - 8, &n.to_le_bytes());
        s.heap = a + (n + 15) / 16 * 16 + 16;
        Ok(a)
    }

    fn jump(&mut self, s: &mut State, to: u32) {
        let fr = s.frames.last_mut().unwrap();
        let from = fr.blk;
        let f = fr.f.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut tmp: Vec<(u32, Val)> = Vec::with_capacity(b.phis.len());
            for (d, v) in &b.phis {
                let o = v.iter().find(|x| x.0 == from).unwrap_or_else(|| panic!("phi edge in {}", f.name));
                let val = match &o.1 { Op_::R(r) => fr.regs[*r as usize].clone(), Op_::K(v) => v.clone(), Op_::Undef(t) => zero(t) };
                tmp.push((*d, val));
            }
            for (d, v) in tmp { fr.regs[d as usize] = v; }
        }
        fr.blk = to;
        fr.ip = 0;
    }

    fn step(&mut self, s: &mut State) -> R<()> {
        let fr = s.frames.last().unwrap();
        let f = fr.f.clone();
        let ins = &f.blocks[fr.blk as usize].ins[fr.ip];
        let dst = ins.dst;
        macro_rules! done { ($v:expr) => {{ let v = $v; self.set(s, dst, v); s.frames.last_mut().unwrap().ip += 1; return Ok(()); }}; }
        match &ins.i {
            I::Alloca(sz, al, cnt) => {
                let mut n = *sz;
                if let Some(c) = cnt { let c = self.bv(s, c); n *= self.conc(s, c)? as u64; }
                let al = (*al).max(16);
                let a = (s.sp + al - 1) / al * al;
                s.sp = a + n.max(1);
                done!(Val::B(Bv::k(64, a as u128)))
            }
            I::Load(ty, p) => { let p = self.bv(s, p); let v = self.load(s, ty, p)?; done!(v) }
            I::Store(ty, v, p) => { let v = self.val(s, v); let p = self.bv(s, p); self.store(s, ty, p, &v)?; s.frames.last_mut().unwrap().ip += 1; Ok(()) }
            I::Gep(b, off, vars) => {
                let mut p = bin(Op::Add, self.bv(s, b), Bv::k(64, *off as u128));
                for (v, sz, w) in vars {
                    let mut x = self.bv(s, v);
                    if *w < 64 { x = un(UOp::SExt, x, 64); } else if *w > 64 { x = un(UOp::Ext(0), x, 64); }
                    if x.t != 0 { if let Some((_, v)) = s.conc.iter().find(|c| c.0 == x.t) { x = Bv::k(64, *v); } }
                    let y = if *sz == 1 { x } else { bin(Op::Mul, x, Bv::k(64, *sz as u128)) };
                    p = bin(Op::Add, p, y);
                }
                done!(Val::B(p))
            }
            I::Bin(op, _, a, b) => {
                let (a, b) = (self.val(s, a), self.val(s, b));
                let o = match op { BOp::Add => Op::Add, BOp::Sub => Op::Sub, BOp::Mul => Op::Mul, BOp::UDiv => Op::UDiv, BOp::SDiv => Op::SDiv, BOp::URem => Op::URem, BOp::SRem => Op::SRem, BOp::Shl => Op::Shl, BOp::LShr => Op::LShr, BOp::AShr => Op::AShr, BOp::And => Op::And, BOp::Or => Op::Or, BOp::Xor => Op::Xor, BOp::FAdd => Op::FAdd, BOp::FSub => Op::FSub, BOp::FMul => Op::FMul, BOp::FDiv => Op::FDiv, BOp::FRem => Op::FRem };
                let v = if let (Val::B(x), Val::B(y)) = (&a, &b) { Val::B(bin(o, *x, *y)) } else { map2(&a, &b, &mut |x, y| bin(o, x, y)) };
                done!(v)
            }
            I::FNeg(_, a) => { let a = self.val(s, a); done!(map1(&a, &mut |x| un(UOp::FNeg, x, x.w))) }
            I::ICmp(p, _, a, b) => { let (a, b) = (self.val(s, a), self.val(s, b)); done!(map2(&a, &b, &mut |x, y| icmp(p, x, y))) }
            I::FCmp(p, _, a, b) => { let (a, b) = (self.val(s, a), self.val(s, b)); done!(map2(&a, &b, &mut |x, y| fcmp(p, x, y))) }
            I::Cast(c, ft, tt, a) => {
                let a = self.val(s, a);
                if let Cast::Bitcast = c { done!(bitcast(&a, ft, tt)) }
                let dw = match tt { Ty::Vec(_, e) => bits(e) as u16, t => bits(t) as u16 };
                let v = map1(&a, &mut |x| match c {
                    Cast::Trunc => un(UOp::Ext(0), x, dw),
                    Cast::ZExt => un(UOp::ZExt, x, dw),
                    Cast::SExt => un(UOp::SExt, x, dw),
                    Cast::PtrToInt | Cast::IntToPtr => if dw < x.w { un(UOp::Ext(0), x, dw) } else if dw > x.w { un(UOp::ZExt, x, dw) } else { x },
                    Cast::FpToUi => un(UOp::FToU, x, dw),
                    Cast::FpToSi => un(UOp::FToS, x, dw),
                    Cast::UiToFp => un(UOp::UToF, x, dw),
                    Cast::SiToFp => un(UOp::SToF, x, dw),
                    Cast::FpTrunc | Cast::FpExt => un(UOp::FCvt, x, dw),
                    Cast::Bitcast => x,
                });
                done!(v)
            }
            I::Select(c, a, b) => {
                let (c, a, b) = (self.val(s, c), self.val(s, a), self.val(s, b));
                let v = match &c {
                    Val::B(c) => if c.t == 0 { if c.c != 0 { a } else { b } } else { ite_val(*c, &a, &b) },
                    Val::A(cs) => { let (a, b) = (lanes(&a), lanes(&b)); Val::A(Rc::new(cs.iter().enumerate().map(|(i, c)| ite_val(c.bv(), &a[i], &b[i])).collect())) }
                };
                done!(v)
            }
            I::Phi(_) => unreachable!(),
            I::Extract(a, ix) => {
                let mut v = self.val(s, a);
                for i in ix { let n = match &v { Val::A(x) => x[*i as usize].clone(), _ => panic!("extract") }; v = n; }
                done!(v)
            }
            I::Insert(a, b, ix) => {
                fn ins(v: &Val, ix: &[u32], n: Val) -> Val { if ix.is_empty() { return n; } match v { Val::A(x) => { let mut y = (**x).clone(); y[ix[0] as usize] = ins(&x[ix[0] as usize], &ix[1..], n); Val::A(Rc::new(y)) } _ => panic!("insert") } }
                let (a, b) = (self.val(s, a), self.val(s, b));
                done!(ins(&a, ix, b))
            }
            I::ExtElem(a, i) => { let a = self.val(s, a); let i = self.bv(s, i); let i = self.conc(s, i)? as usize; done!(lanes(&a)[i].clone()) }
            I::InsElem(a, b, i) => { let (a, b) = (self.val(s, a), self.val(s, b)); let i = self.bv(s, i); let i = self.conc(s, i)? as usize; let mut v = (*lanes(&a)).clone(); v[i] = b; done!(Val::A(Rc::new(v))) }
            I::Shuffle(a, b, m) => {
                let (a, b) = (lanes(&self.val(s, a)), lanes(&self.val(s, b)));
                let v: Vec<Val> = m.iter().map(|i| { let i = *i as usize; if i < a.len() { a[i].clone() } else { b[(i - a.len()).min(b.len() - 1)].clone() } }).collect();
                done!(Val::A(Rc::new(v)))
            }
            I::Freeze(a) => { let v = self.val(s, a); done!(v) }
            I::Rmw(o, ty, p, v) => {
                let p = self.bv(s, p);
                let old = self.load(s, ty, p)?;
                let (x, y) = (old.bv(), self.bv(s, v));
                let n = match o.as_str() { "xchg" => y, "add" => bin(Op::Add, x, y), "sub" => bin(Op::Sub, x, y), "and" => bin(Op::And, x, y), "or" => bin(Op::Or, x, y), "xor" => bin(Op::Xor, x, y), _ => return Err(Step::Incomplete(format!("atomicrmw {}", o))) };
                self.store(s, ty, p, &Val::B(n))?;
                done!(old)
            }
            I::CmpXchg(ty, p, c, n) => {
                let p = self.bv(s, p);
                let old = self.load(s, ty, p)?;
                let ok = bin(Op::Eq, old.bv(), self.bv(s, c));
                let nv = ite(ok, self.bv(s, n), old.bv());
                self.store(s, ty, p, &Val::B(nv))?;
                done!(Val::A(Rc::new(vec![old, Val::B(ok)])))
            }
            I::Fence => { s.frames.last_mut().unwrap().ip += 1; Ok(()) }
            I::Br(l) => { self.jump(s, *l); Ok(()) }
            I::CondBr(c, a, b) => {
                let c = self.bv(s, c);
                if c.t == 0 { self.jump(s, if c.c != 0 { *a } else { *b }); return Ok(()); }
                if a == b { self.jump(s, *a); return Ok(()); }
                if let Some((_, v)) = s.conc.iter().find(|x| x.0 == c.t) { let v = *v; self.jump(s, if v != 0 { *a } else { *b }); return Ok(()); }
                let c2 = Solver::simplify(&s.pc, &s.conc, c.t);
                if let Some(v) = st().as_c(c2) { s.conc.push((c.t, v)); self.learn(s, c.t, v != 0); self.jump(s, if v != 0 { *a } else { *b }); return Ok(()); }
                self.settle(s)?;
                let v = s.model.eval(c.t) != 0;
                let nc = st().not(c2);
                let (mine, other) = if v { (c2, nc) } else { (nc, c2) };
                if let Some(mut o) = self.twin(s, other)? {
                    self.site(s);
                    o.conc.push((c.t, !v as u128));
                    self.learn(&mut o, c.t, !v);
                    self.jump(&mut o, if v { *b } else { *a });
                    self.work.push(o);
                    self.assume(s, mine);
                }
                s.conc.push((c.t, v as u128));
                self.learn(s, c.t, v);
                self.jump(s, if v { *a } else { *b });
                Ok(())
            }
            I::Switch(_, v, d, cases) => {
                let v = self.bv(s, v);
                let v = if v.t != 0 { match s.conc.iter().find(|x| x.0 == v.t) { Some((_, k)) => Bv::k(v.w, *k), None => Bv::of(Solver::simplify(&s.pc, &s.conc, v.t)) } } else { v };
                if v.t == 0 { let t = cases.iter().find(|c| c.0 == v.c).map(|c| c.1).unwrap_or(*d); self.jump(s, t); return Ok(()); }
                self.settle(s)?;
                let mut groups: Vec<(u32, T)> = vec![];
                let mut any = st().ff;
                for (k, l) in cases {
                    let kt = st().konst(v.w, *k);
                    let e = st().eq(v.t, kt);
                    any = st().or(any, e);
                    match groups.iter_mut().find(|g| g.0 == *l) { Some(g) => g.1 = st().or(g.1, e), None => groups.push((*l, e)) }
                }
                let nd = st().not(any);
                match groups.iter_mut().find(|g| g.0 == *d) { Some(g) => g.1 = st().or(g.1, nd), None => groups.push((*d, nd)) }
                let mut mine = None;
                for (l, c) in groups {
                    if s.model.eval(c) != 0 { mine = Some((l, c)); continue; }
                    if let Some(mut o) = self.twin(s, c)? { self.site(s); self.jump(&mut o, l); self.work.push(o); }
                }
                let (l, c) = mine.expect("switch target");
                self.assume(s, c);
                self.jump(s, l);
                Ok(())
            }
            I::Ret(v) => {
                let r = v.as_ref().map(|(_, v)| self.val(s, v));
                let fr = s.frames.pop().unwrap();
                s.sp = fr.sp;
                if s.frames.is_empty() {
                    s.frames.push(fr);
                    return Err(Step::End("ok".into(), String::new()));
                }
                self.ret(s, r);
                Ok(())
            }
            I::Unreachable => Err(Step::End("unreachable".into(), format!("undefined behaviour: unreachable in {}", f.name))),
            I::Landingpad | I::Resume => Err(Step::End("unwind".into(), f.name.to_string())),
            I::Call { callee, args, ret, .. } => {
                let name: Rc<str> = match callee {
                    Callee::Direct(n) => n.clone(),
                    Callee::Ind(o) => {
                        let p = self.bv(s, o);
                        let a = self.conc(s, p)? as u64;
                        match self.m.addrf.get(&a) { Some(n) => n.clone(), None => return Err(Step::End("badcall".into(), format!("call through {:#x}", a))) }
                    }
                    Callee::Asm => { s.frames.last_mut().unwrap().ip += 1; return Ok(()); }
                };
                if name.starts_with("llvm.") {
                    let av: Vec<Val> = args.iter().map(|(_, o)| self.val(s, o)).collect();
                    let r = self.intrinsic(s, &name, &av, ret)?;
                    if let Some(v) = r { self.set(s, dst, v); }
                    self.ret_ip(s);
                    return Ok(());
                }
                let av: Vec<Val> = args.iter().map(|(_, o)| self.val(s, o)).collect();
                if let Some(r) = self.external(s, &name, &av, ret)? {
                    if let Some(v) = r { self.set(s, dst, v); }
                    self.ret_ip(s);
                    return Ok(());
                }
                let g = match self.m.func(&name) { Some(g) => g, None => { *self.unmodelled.entry(name.to_string()).or_default() += 1; return Err(Step::Incomplete(format!("external function {}", name))); } };
                *self.funcs_seen.entry(name.to_string()).or_default() += 1;
                let mut regs = vec![Val::B(Bv { w: 1, t: 0, c: 0 }); g.nregs as usize];
                for ((_, r), v) in g.params.iter().zip(av) { regs[*r as usize] = v; }
                if s.frames.len() >= self.cfg.max_depth { return Err(Step::End("stack".into(), format!("call depth exceeds {} in {}", self.cfg.max_depth, name))); }
                let sp = s.sp;
                s.frames.push(Frame { f: g, blk: 0, ip: 0, regs, sp });
                s.maxdepth = s.maxdepth.max(s.frames.len());
                Ok(())
            }
        }
    }
    /// after a call completed in the current frame: move past it
    fn ret_ip(&mut self, s: &mut State) {
        let fr = s.frames.last().unwrap();
        let f = fr.f.clone();
        let ins = &f.blocks[fr.blk as usize].ins[fr.ip];
        match &ins.i { I::Call { normal: Some(l), .. } => { let l = *l; self.jump(s, l) } _ => s.frames.last_mut().unwrap().ip += 1 }
    }
    fn ret(&mut self, s: &mut State, v: Option<Val>) {
        let fr = s.frames.last().unwrap();
        let dst = fr.f.blocks[fr.blk as usize].ins[fr.ip].dst;
        if let Some(v) = v { self.set(s, dst, v); }
        self.ret_ip(s);
    }

    fn copylen(&mut self, s: &mut State, n: Bv) -> R<u64> { let n = self.conc(s, n)? as u64; if n > 1 << 28 { return Err(Step::Incomplete("huge copy".into())); } Ok(n) }

    fn intrinsic(&mut self, s: &mut State, name: &str, a: &[Val], ret: &Ty) -> R<Option<Val>> {
        let n = &name[5..];
        let base = n.split(".i").next().unwrap().split(".p0").next().unwrap().split(".f").next().unwrap().split(".v").next().unwrap();
        let two = |op: &mut dyn FnMut(Bv, Bv) -> Bv| Ok(Some(map2(&a[0], &a[1], op)));
        match base {
            "lifetime.start" | "lifetime.end" | "assume" | "experimental.noalias.scope.decl" | "prefetch" | "donothing" | "x86.sse2.pause" | "dbg.value" | "dbg.declare" | "va_start" | "va_end" => Ok(None),
            "memcpy" | "memmove" | "memcpy.inline" => {
                let n = self.copylen(s, a[2].bv())?;
                if n == 0 { return Ok(None); }
                let d = self.conc(s, a[0].bv())? as u64;
                let r = self.conc(s, a[1].bv())? as u64;
                self.ok_addr(s, d, n)?; self.ok_addr(s, r, n)?;
                s.mem.copy(d, r, n);
                Ok(None)
            }
            "memset" => {
                let n = self.copylen(s, a[2].bv())?;
                if n == 0 { return Ok(None); }
                let d = self.conc(s, a[0].bv())? as u64;
                self.ok_addr(s, d, n)?;
                s.mem.fill(d, a[1].bv(), n);
                Ok(None)
            }
            "trap" | "debugtrap" | "ubsantrap" => Err(Step::End("abort".into(), "trap".into())),
            "threadlocal.address" => Ok(Some(a[0].clone())),
            "is.constant" => Ok(Some(Val::B(b1(false)))),
            "expect" | "expect.with.probability" | "launder.invariant.group" | "arithmetic.fence" | "ssa.copy" => Ok(Some(a[0].clone())),
            "objectsize" => Ok(Some(Val::B(Bv::k(64, u64::MAX as u128)))),
            "umax" => two(&mut |x, y| ite(bin(Op::Ult, x, y), y, x)),
            "umin" => two(&mut |x, y| ite(bin(Op::Ult, y, x), y, x)),
            "smax" => two(&mut |x, y| ite(bin(Op::Slt, x, y), y, x)),
            "smin" => two(&mut |x, y| ite(bin(Op::Slt, y, x), y, x)),
            "abs" => Ok(Some(map1(&a[0], &mut |x| { let z = Bv::k(x.w, 0); ite(bin(Op::Slt, x, z), bin(Op::Sub, z, x), x) }))),
            "uadd.sat" => two(&mut |x, y| { let r = bin(Op::Add, x, y); ite(bin(Op::Ult, r, x), Bv::k(x.w, mask(x.w)), r) }),
            "usub.sat" => two(&mut |x, y| ite(bin(Op::Ult, x, y), Bv::k(x.w, 0), bin(Op::Sub, x, y))),
            "sadd.sat" | "ssub.sat" => {
                let add = base == "sadd.sat";
                two(&mut |x, y| {
                    let w = x.w + 1;
                    let (p, q) = (un(UOp::SExt, x, w), un(UOp::SExt, y, w));
                    let r = bin(if add { Op::Add } else { Op::Sub }, p, q);
                    let hi = Bv::k(w, mask(x.w) >> 1);
                    let lo = not(hi);
                    let c = ite(bin(Op::Slt, hi, r), hi, ite(bin(Op::Slt, r, lo), lo, r));
                    un(UOp::Ext(0), c, x.w)
                })
            }
            "uadd.with.overflow" | "usub.with.overflow" | "umul.with.overflow" | "sadd.with.overflow" | "ssub.with.overflow" | "smul.with.overflow" => {
                let (x, y) = (a[0].bv(), a[1].bv());
                let w = x.w;
                let op = match &base[1..4] { "add" => Op::Add, "sub" => Op::Sub, _ => Op::Mul };
                let r = bin(op, x, y);
                let signed = base.starts_with('s');
                let ov = if x.t == 0 && y.t == 0 {
                    if signed {
                        let (p, q) = (sext128(w, x.c), sext128(w, y.c));
                        let e = match op { Op::Add => p.checked_add(q), Op::Sub => p.checked_sub(q), _ => p.checked_mul(q) };
                        b1(e.map_or(true, |e| e != sext128(w, r.c)))
                    } else {
                        let e = match op { Op::Add => x.c.checked_add(y.c), Op::Sub => x.c.checked_sub(y.c), _ => x.c.checked_mul(y.c) };
                        b1(e.map_or(true, |e| e > mask(w)))
                    }
                } else if !signed && op == Op::Add { 
                    let w2 = w + 1;
                    let e = bin(Op::Add, un(UOp::ZExt, x, w2), un(UOp::ZExt, y, w2));
                    bin(Op::Ult, Bv::k(w2, mask(w)), e)
                }
                else if !signed && op == Op::Sub { bin(Op::Ult, x, y) }
                else {
                    let w2 = (2 * w).min(128);
                    let o = if signed { UOp::SExt } else { UOp::ZExt };
                    let e = bin(op, un(o, x, w2), un(o, y, w2));
                    // compare through intervals first
                    if signed { let k1 = Bv::k(w2, mask(w) >> 1); let k2 = not(k1); bin(Op::Or, bin(Op::Slt, k1, e), bin(Op::Slt, e, k2)) }
                    else { bin(Op::Ult, Bv::k(w2, mask(w)), e) }
                };
                Ok(Some(Val::A(Rc::new(vec![Val::B(r), Val::B(ov)]))))
            }
            "fshl" | "fshr" => {
                let f = |x: Bv, y: Bv, z: Bv| {
                    let w = x.w;
                    if z.t == 0 {
                        let k = (z.c % w as u128) as u16;
                        let c = bin(Op::Cat, x, y);
                        return if base == "fshl" { un(UOp::Ext(w - k), c, w) } else { un(UOp::Ext(k), c, w) };
                    }
                    let zz = bin(Op::URem, z, Bv::k(w, w as u128));
                    let c = bin(Op::Cat, x, y);
                    let z2 = un(UOp::ZExt, zz, 2 * w);
                    if base == "fshl" { let r = bin(Op::Shl, c, z2); un(UOp::Ext(w), r, w) } else { let r = bin(Op::LShr, c, z2); un(UOp::Ext(0), r, w) }
                };
                Ok(Some(Val::B(f(a[0].bv(), a[1].bv(), a[2].bv()))))
            }
            "bswap" => { let x = a[0].bv(); let n = x.w / 8; let parts: Vec<Bv> = (0..n).rev().map(|i| un(UOp::Ext(8 * i), x, 8)).collect(); Ok(Some(Val::B(concat(&parts)))) }
            "bitreverse" => Ok(Some(map1(&a[0], &mut |x| { let parts: Vec<Bv> = (0..x.w).rev().map(|i| un(UOp::Ext(i), x, 1)).collect(); concat(&parts) }))),
            "ctpop" => Ok(Some(map1(&a[0], &mut |x| { let mut r = Bv::k(x.w, 0); if x.t == 0 { return Bv::k(x.w, x.c.count_ones() as u128); } for i in 0..x.w { r = bin(Op::Add, r, un(UOp::ZExt, un(UOp::Ext(i), x, 1), x.w)); } r }))),
            "cttz" => Ok(Some(map1(&a[0], &mut |x| { let w = x.w; if x.t == 0 { return Bv::k(w, if x.c == 0 { w as u128 } else { x.c.trailing_zeros() as u128 }); } let mut r = Bv::k(w, w as u128); for i in (0..w).rev() { r = ite(un(UOp::Ext(i), x, 1), Bv::k(w, i as u128), r); } r }))),
            "ctlz" => Ok(Some(map1(&a[0], &mut |x| { let w = x.w; if x.t == 0 { return Bv::k(w, if x.c == 0 { w as u128 } else { (x.c.leading_zeros() as u128) - (128 - w as u128) }); } let mut r = Bv::k(w, w as u128); for i in 0..w { r = ite(un(UOp::Ext(i), x, 1), Bv::k(w, (w - 1 - i) as u128), r); } r }))),
            "ucmp" | "scmp" => {
                let rw = bits(ret) as u16;
                let op = if base == "ucmp" { Op::Ult } else { Op::Slt };
                let (x, y) = (a[0].bv(), a[1].bv());
                Ok(Some(Val::B(ite(bin(op, x, y), Bv::k(rw, mask(rw)), ite(bin(Op::Eq, x, y), Bv::k(rw, 0), Bv::k(rw, 1))))))
            }
            "fptosi.sat" | "fptoui.sat" => { let rw = bits(ret) as u16; let o = if base == "fptosi.sat" { UOp::FToS } else { UOp::FToU }; Ok(Some(Val::B(un(o, a[0].bv(), rw)))) }
            "sqrt" => Ok(Some(map1(&a[0], &mut |x| un(UOp::FSqrt, x, x.w)))),
            "fabs" => Ok(Some(map1(&a[0], &mut |x| un(UOp::FAbs, x, x.w)))),
            "floor" => Ok(Some(map1(&a[0], &mut |x| un(UOp::FFloor, x, x.w)))),
            "ceil" => Ok(Some(map1(&a[0], &mut |x| un(UOp::FCeil, x, x.w)))),
            "trunc" => Ok(Some(map1(&a[0], &mut |x| un(UOp::FTruncI, x, x.w)))),
            "round" => Ok(Some(map1(&a[0], &mut |x| un(UOp::FRound, x, x.w)))),
            "roundeven" | "rint" | "nearbyint" => Ok(Some(map1(&a[0], &mut |x| un(UOp::FRint, x, x.w)))),
            "minnum" | "minimumnum" => two(&mut |x, y| bin(Op::FMin, x, y)),
            "maxnum" | "maximumnum" => two(&mut |x, y| bin(Op::FMax, x, y)),
            "fmuladd" => Ok(Some(Val::B(bin(Op::FAdd, bin(Op::FMul, a[0].bv(), a[1].bv()), a[2].bv())))),
            "vector.reduce.or" | "vector.reduce.and" | "vector.reduce.add" | "vector.reduce.xor" => {
                let o = match &base[14..] { "or" => Op::Or, "and" => Op::And, "xor" => Op::Xor, _ => Op::Add };
                let v = to_bits(&a[0]);
                let mut r = v[0];
                for x in &v[1..] { r = bin(o, r, *x); }
                Ok(Some(Val::B(r)))
            }
            "x86.sse2.psad.bw" => {
                let (x, y) = (to_bits(&a[0]), to_bits(&a[1]));
                let r = x.chunks(8).zip(y.chunks(8)).map(|(x, y)| {
                    let mut r = Bv::k(64, 0);
                    for (p, q) in x.iter().zip(y) {
                        let d = ite(bin(Op::Ult, *p, *q), bin(Op::Sub, *q, *p), bin(Op::Sub, *p, *q));
                        r = bin(Op::Add, r, un(UOp::ZExt, d, 64));
                    }
                    Val::B(r)
                }).collect();
                Ok(Some(Val::A(Rc::new(r))))
            }
            "x86.sse2.pmadd.wd" => {
                let (x, y) = (to_bits(&a[0]), to_bits(&a[1]));
                let p: Vec<Bv> = x.iter().zip(&y).map(|(p, q)| bin(Op::Mul, un(UOp::SExt, *p, 32), un(UOp::SExt, *q, 32))).collect();
                Ok(Some(Val::A(Rc::new(p.chunks(2).map(|c| Val::B(bin(Op::Add, c[0], c[1]))).collect()))))
            }
            _ => { *self.unmodelled.entry(name.to_string()).or_default() += 1; Err(Step::Incomplete(format!("intrinsic {}", name))) }
        }
    }

    fn cstr(&self, s: &State, a: u64, n: u64) -> String { (0..n.min(300)).map(|i| s.mem.rd(a + i).c as u8 as char).collect() }
    fn location(&self, s: &State, p: u64) -> String {
        if p < GBASE || p > HEAP { return "?".into(); }
        let file = self.read_n(s, p, 8); let len = self.read_n(s, p + 8, 8); let line = self.read_n(s, p + 16, 4);
        if len.t != 0 || len.c > 400 { return "?".into(); }
        format!("{}:{}", self.cstr(s, file.c as u64, len.c as u64 ).trim_end_matches('\0'), line.c)
    }

    /// None: not modelled here, execute its body. Some(r): handled.
    fn external(&mut self, s: &mut State, name: &str, a: &[Val], ret: &Ty) -> R<Option<Option<Val>>> {
        let k64 = |v: u64| Some(Some(Val::B(Bv::k(64, v as u128))));
        match name {
            "sym_bytes" => {
                let p = self.conc(s, a[0].bv())? as u64;
                let n = self.conc(s, a[1].bv())? as u64;
                for i in 0..n { let t = st().var(s.nvars); s.mem.wr(p + i, Bv { w: 8, t, c: 0 }); s.nvars += 1; }
                let mut v = s.model.vals.clone();
                v.resize(s.nvars as usize, 0);
                s.model = Model::new(v);
                return Ok(Some(None));
            }
            "sym_assume" => {
                let c = self.cond(a[0].bv());
                if c.t == 0 { return if c.c != 0 { Ok(Some(None)) } else { Err(Step::Drop) }; }
                self.settle(s)?;
                if s.model.eval(c.t) == 0 {
                    match self.sv.check(&s.pc, c.t) {
                        Res::Sat(m) => self.set_model(s, &m),
                        Res::Unsat => return Err(Step::Drop),
                        Res::Unknown => return Err(Step::Incomplete("assumption undecided".into())),
                    }
                }
                self.assume(s, c.t);
                return Ok(Some(None));
            }
            "sym_check" | "sym_check_eq" => {
                let (c, id) = if name == "sym_check" { (self.cond(a[0].bv()), self.conc(s, a[1].bv())? as u32) } else {
                    let p = self.conc(s, a[0].bv())? as u64; let q = self.conc(s, a[1].bv())? as u64; let n = self.conc(s, a[2].bv())? as u64;
                    let id = self.conc(s, a[3].bv())? as u32;
                    // one query per differing byte keeps the queries small
                    let mut bad = b1(true);
                    for i in 0..n {
                        let e = bin(Op::Eq, s.mem.rd(p + i), s.mem.rd(q + i));
                        if e.t == 0 { if e.c == 0 { bad = e; break; } continue; }
                        let e = Bv::of(Solver::simplify(&s.pc, &s.conc, e.t));
                        if e.t == 0 { if e.c == 0 { bad = e; break; } continue; }
                        match self.sv.check(&s.pc, st().not(e.t)) { Res::Unsat => continue, _ => { bad = e; break; } }
                    }
                    (bad, id)
                };
                *self.checks.entry(id).or_default() += 1;
                if c.t == 0 {
                    if c.c != 0 { return Ok(Some(None)); }
                    return Err(Step::End("check".into(), format!("{}", id)));
                }
                self.checks_symbolic += 1;
                self.settle(s)?;
                let nc = st().not(c.t);
                match self.sv.check(&s.pc, nc) {
                    Res::Unsat => Ok(Some(None)),
                    Res::Unknown => Err(Step::Incomplete(format!("check {} undecided", id))),
                    Res::Sat(m) => {
                        let mut o = s.clone();
                        self.set_model(&mut o, &m);
                        self.record(&mut o, "check", &format!("{}", id));
                        self.npaths -= 1;
                        match self.sv.check(&s.pc, c.t) {
                            Res::Sat(m) => { self.set_model(s, &m); self.assume(s, c.t); Ok(Some(None)) }
                            _ => Err(Step::Drop),
                        }
                    }
                }
            }
            "sym_reach" => { let id = self.conc(s, a[0].bv())? as u32; s.reach.push(id); Ok(Some(None)) }
            "sym_observe" => {
                let p = self.conc(s, a[0].bv())? as u64; let n = self.conc(s, a[1].bv())? as u64;
                let o: Vec<Bv> = (0..n).map(|i| s.mem.rd(p + i)).collect();
                s.obs.push(o);
                Ok(Some(None))
            }
            "sym_concretize" => { let v = self.conc(s, a[0].bv())?; Ok(k64(v as u64)) }
            // no fork: true when the solver shows c can only be true
            "sym_implied" => {
                let c = self.cond(a[0].bv());
                if c.t == 0 { return Ok(Some(Some(Val::B(Bv::k(32, c.c))))); }
                let nc = st().not(c.t);
                let r = matches!(self.sv.check(&s.pc, nc), Res::Unsat);
                Ok(Some(Some(Val::B(Bv::k(32, r as u128)))))
            }
            "sym_depth" => Ok(k64(s.maxdepth as u64)),
            "malloc" => { let p = self.alloc(s, a[0].bv(), 16)?; Ok(k64(p)) }
            "calloc" => { let n = bin(Op::Mul, a[0].bv(), a[1].bv()); let p = self.alloc(s, n, 16)?; Ok(k64(p)) }
            "posix_memalign" => {
                let al = self.conc(s, a[1].bv())? as u64;
                let d = self.conc(s, a[0].bv())? as u64;
                let p = self.alloc(s, a[2].bv(), al)?;
                s.mem.wr_bytes(d, &p.to_le_bytes());
                Ok(Some(Some(Val::B(Bv::k(32, 0)))))
            }
            "realloc" => {
                let old = self.conc(s, a[0].bv())? as u64;
                let p = self.alloc(s, a[1].bv(), 16)?;
                if old != 0 {
                    let on = self.read_n(s, old - 8, 8).c as u64;
                    let nn = self.read_n(s, p - 8, 8).c as u64;
                    let n = on.min(nn);
                    if n > 1 << 26 { return Err(Step::Incomplete("huge realloc".into())); }
                    s.mem.copy(p, old, n);
                }
                Ok(k64(p))
            }
            "free" => Ok(Some(None)),
            "memcpy" | "memmove" => { let n = self.copylen(s, a[2].bv())?; let d = self.conc(s, a[0].bv())? as u64; let r = self.conc(s, a[1].bv())? as u64; s.mem.copy(d, r, n); Ok(k64(d)) }
            "memset" => { let n = self.copylen(s, a[2].bv())?; let d = self.conc(s, a[0].bv())? as u64; s.mem.fill(d, un(UOp::Ext(0), a[1].bv(), 8), n); Ok(k64(d)) }
            "bcmp" | "memcmp" => {
                let n = self.copylen(s, a[2].bv())?;
                let (p, q) = (self.conc(s, a[0].bv())? as u64, self.conc(s, a[1].bv())? as u64);
                if name == "bcmp" {
                    let mut c = b1(true);
                    for i in 0..n { c = bin(Op::And, c, bin(Op::Eq, s.mem.rd(p + i), s.mem.rd(q + i))); }
                    return Ok(Some(Some(Val::B(ite(c, Bv::k(32, 0), Bv::k(32, 1))))));
                }
                let mut r = Bv::k(32, 0);
                for i in (0..n).rev() {
                    let (x, y) = (s.mem.rd(p + i), s.mem.rd(q + i));
                    r = ite(bin(Op::Eq, x, y), r, ite(bin(Op::Ult, x, y), Bv::k(32, mask(32)), Bv::k(32, 1)));
                }
                Ok(Some(Some(Val::B(r))))
            }
            "strlen" => { let p = self.conc(s, a[0].bv())? as u64; let mut n = 0; loop { let b = s.mem.rd(p + n); let z = bin(Op::Eq, b, Bv::k(8, 0)); if self.decide(s, z)? { break; } n += 1; } Ok(k64(n)) }
            "getrandom" => { let p = self.conc(s, a[0].bv())? as u64; let n = self.conc(s, a[1].bv())? as u64; for i in 0..n { s.mem.wr(p + i, Bv::k(8, 0x5a)); } Ok(k64(n)) }
            "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" => Ok(Some(Some(Val::B(Bv::k(32, 0))))),
            "abort" => Err(Step::End("abort".into(), "abort()".into())),
            "fmod" => Ok(Some(Some(Val::B(bin(Op::FRem, a[0].bv(), a[1].bv()))))),
            _ => {
                if name.contains("9panicking") || name.contains("handle_alloc_error") || name.contains("17rust_begin_unwind") || name.contains("rust_panic") {
                    if name.contains("panic_fmt") || name.contains("panic_nounwind") || name.contains("handle_alloc_error") || name.contains("rust_begin_unwind") || name.contains("panic_cannot_unwind") || name.contains("rust_panic") || name.contains("begin_panic") {
                        // the location is the last pointer argument that points into the constants
                        let mut loc = String::from("?");
                        for v in a.iter().rev() { if let Val::B(b) = v { if b.w == 64 && b.t == 0 { let l = self.location(s, b.c as u64); if l != "?" && l.contains(".rs:") { loc = l; break; } } } }
                        let mut stack: Vec<String> = s.frames.iter().rev().take(6).map(|f| short(&f.f.name)).collect();
                        stack.dedup();
                        if loc == "?" { loc = format!("? {}", name); }
                        return Err(Step::End("panic".into(), format!("{} [{}]", loc, stack.join(" < "))));
                    }
                }
                if name.contains("4core3fmt5write") && !name.contains("write_") && matches!(ret, Ty::I(1)) { return Ok(Some(Some(Val::B(b1(false))))); }
                if name.contains("hashmap_random_keys") { return Ok(Some(Some(Val::A(Rc::new(vec![Val::B(Bv::k(64, 0x0123456789abcdef)), Val::B(Bv::k(64, 0x1122334455667788))]))))); }
                Ok(None)
            }
        }
    }
    fn cond(&self, b: Bv) -> Bv { if b.w == 1 { b } else { un(UOp::Ext(0), b, 1) } }
}
/// readable tail of a v0-mangled name
pub fn short(n: &str) -> String {
    let mut out: Vec<String> = vec![];
    let b = n.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            let mut k = 0usize;
            while j < b.len() && b[j].is_ascii_digit() { k = k * 10 + (b[j] - b'0') as usize; j += 1; }
            if j < b.len() && b[j] == b'_' { j += 1; }
            if k > 1 && j + k <= b.len() && b[j..j + k].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') { out.push(n[j..j + k].to_string()); i = j + k; continue; }
        }
        i += 1;
    }
    let l = out.len();
    out[l.saturating_sub(2)..].join("::")
}
