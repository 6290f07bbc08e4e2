//! Hash-consed bit-vector terms with a simplifier, interval analysis, evaluator
//! and SMT-LIB printer. Width-1 terms are printed as SMT booleans.
use std::collections::HashMap;
use std::fmt::Write as _;
use std::rc::Rc;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add, Sub, Mul, UDiv, URem, SDiv, SRem, Shl, LShr, AShr, And, Or, Xor,
    Eq, Ult, Slt, Cat,
    FAdd, FSub, FMul, FDiv, FRem, FMin, FMax, FEq, FLt, FLe, FUno,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum UOp {
    Not, ZExt, SExt, Ext(u16),
    FSqrt, FNeg, FAbs, FFloor, FCeil, FTruncI, FRound, FRint,
    UToF, SToF, FToU, FToS, FCvt,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(u128),
    Var(u32),
    Un(UOp, T),
    Bin(Op, T, T),
    Ite(T, T, T),
}
pub struct Node {
    pub n: N,
    pub w: u16,
    pub ulo: u128,
    pub uhi: u128,
    pub slo: i128,
    pub shi: i128,
    pub vars: Rc<Vec<u64>>,
    pub fp: bool,
    pub nl: u8, // 1: multiplies or divides by constants, 2: by other terms
    pub leaves: u32, // >0: ite-tree over constants with this many leaves
}

#[derive(Clone, Copy, Debug)]
pub struct Bv {
    pub w: u16,
    pub t: T, // 0: constant c
    pub c: u128,
}
impl Bv {
    pub fn k(w: u16, c: u128) -> Bv {
        Bv { w, t: 0, c: c & mask(w) }
    }
    pub fn is_c(&self) -> bool {
        self.t == 0
    }
    pub fn term(&self) -> T {
        if self.t == 0 {
            st().konst(self.w, self.c)
        } else {
            self.t
        }
    }
    pub fn of(t: T) -> Bv {
        let n = &st().nodes[t as usize];
        match n.n {
            N::Const(c) => Bv { w: n.w, t: 0, c },
            _ => Bv { w: n.w, t, c: 0 },
        }
    }
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
pub fn sext128(w: u16, v: u128) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}
fn f(w: u16, v: u128) -> f64 {
    if w == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v as u64) }
}
fn canon(x: f64) -> f64 { if x.is_nan() { f64::from_bits(0x7ff8000000000000) } else { x } }
fn fb(w: u16, x: f64) -> u128 {
    if w == 32 {
        let y = x as f32;
        if y.is_nan() { 0x7fc00000 } else { y.to_bits() as u128 }
    } else {
        canon(x).to_bits() as u128
    }
}

pub fn eval_bin(op: Op, w: u16, a: u128, b: u128, wb: u16) -> u128 {
    // w: operand width (for Cat: width of a; wb: width of b)
    let m = mask(w);
    use Op::*;
    match op {
        Add => a.wrapping_add(b) & m,
        Sub => a.wrapping_sub(b) & m,
        Mul => a.wrapping_mul(b) & m,
        UDiv => if b == 0 { m } else { a / b },
        URem => if b == 0 { a } else { a % b },
        SDiv => {
            let (x, y) = (sext128(w, a), sext128(w, b));
            if y == 0 { if x >= 0 { m } else { 1 } } else { (x.wrapping_div(y) as u128) & m }
        }
        SRem => {
            let (x, y) = (sext128(w, a), sext128(w, b));
            if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m }
        }
        Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        LShr => if b >= w as u128 { 0 } else { a >> b },
        AShr => {
            let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 };
            ((sext128(w, a) >> s) as u128) & m
        }
        And => a & b,
        Or => a | b,
        Xor => a ^ b,
        Eq => (a == b) as u128,
        Ult => (a < b) as u128,
        Slt => (sext128(w, a) < sext128(w, b)) as u128,
        Cat => (a << wb) | b,
        FAdd => if w == 32 { fb32(f32::from_bits(a as u32) + f32::from_bits(b as u32)) } else { fb(w, f(w, a) + f(w, b)) },
        FSub => if w == 32 { fb32(f32::from_bits(a as u32) - f32::from_bits(b as u32)) } else { fb(w, f(w, a) - f(w, b)) },
        FMul => if w == 32 { fb32(f32::from_bits(a as u32) * f32::from_bits(b as u32)) } else { fb(w, f(w, a) * f(w, b)) },
        FDiv => if w == 32 { fb32(f32::from_bits(a as u32) / f32::from_bits(b as u32)) } else { fb(w, f(w, a) / f(w, b)) },
        FRem => if w == 32 { fb32(f32::from_bits(a as u32) % f32::from_bits(b as u32)) } else { fb(w, f(w, a) % f(w, b)) },
        FMin => fb(w, f(w, a).min(f(w, b))),
        FMax => fb(w, f(w, a).max(f(w, b))),
        FEq => (f(w, a) == f(w, b)) as u128,
        FLt => (f(w, a) < f(w, b)) as u128,
        FLe => (f(w, a) <= f(w, b)) as u128,
        FUno => (f(w, a).is_nan() || f(w, b).is_nan()) as u128,
    }
}
fn fb32(y: f32) -> u128 { if y.is_nan() { 0x7fc00000 } else { y.to_bits() as u128 } }

pub fn eval_un(op: UOp, wa: u16, w: u16, a: u128) -> u128 {
    use UOp::*;
    match op {
        Not => !a & mask(w),
        ZExt => a,
        SExt => (sext128(wa, a) as u128) & mask(w),
        Ext(lo) => (a >> lo) & mask(w),
        FSqrt => if w == 32 { fb32(f32::from_bits(a as u32).sqrt()) } else { fb(w, f(w, a).sqrt()) },
        FNeg => a ^ (1u128 << (w - 1)),
        FAbs => a & mask(w - 1),
        FFloor => fb(w, f(w, a).floor()),
        FCeil => fb(w, f(w, a).ceil()),
        FTruncI => fb(w, f(w, a).trunc()),
        FRound => fb(w, f(w, a).round()),
        FRint => fb(w, f(w, a).round_ties_even()),
        UToF => if w == 32 { fb32(a as f32) } else { fb(w, a as f64) },
        SToF => { let s = sext128(wa, a); if w == 32 { fb32(s as f32) } else { fb(w, s as f64) } }
        FToU => { let x = f(wa, a); let v = x as u128; if v > mask(w) { mask(w) } else { v } }
        FToS => {
            let x = f(wa, a);
            let v = x as i128;
            let hi = (mask(w) >> 1) as i128;
            let lo = -hi - 1;
            (v.clamp(lo, hi) as u128) & mask(w)
        }
        FCvt => fb(w, f(wa, a)),
    }
}

pub struct Store {
    pub nodes: Vec<Node>,
    map: HashMap<(N, u16), T>,
    empty: Rc<Vec<u64>>,
    tabs: HashMap<(T, u64), Rc<Vec<u64>>>,
    tab_bytes: usize,
    canon: HashMap<(u16, u64, u128), T>,
    canon_of: HashMap<T, T>,
    pub tabulated: u64,
    narrowing: bool,
    pub tt: T,
    pub ff: T,
}

static mut STORE: *mut Store = std::ptr::null_mut();
pub fn st() -> &'static mut Store {
    unsafe {
        if STORE.is_null() {
            let mut s = Store { nodes: vec![], map: HashMap::new(), empty: Rc::new(vec![]), tabs: HashMap::new(), tab_bytes: 0, canon: HashMap::new(), canon_of: HashMap::new(), tabulated: 0, narrowing: false, tt: 0, ff: 0 };
            // index 0 reserved
            s.nodes.push(Node { n: N::Const(0), w: 0, ulo: 0, uhi: 0, slo: 0, shi: 0, vars: s.empty.clone(), fp: false, nl: 0, leaves: 0 });
            STORE = Box::into_raw(Box::new(s));
            let s = &mut *STORE;
            s.tt = s.konst(1, 1);
            s.ff = s.konst(1, 0);
        }
        &mut *STORE
    }
}

fn union(a: &Rc<Vec<u64>>, b: &Rc<Vec<u64>>) -> Rc<Vec<u64>> {
    if Rc::ptr_eq(a, b) || b.is_empty() { return a.clone(); }
    if a.is_empty() { return b.clone(); }
    let n = a.len().max(b.len());
    let v: Vec<u64> = (0..n).map(|i| a.get(i).unwrap_or(&0) | b.get(i).unwrap_or(&0)).collect();
    if v == **a { return a.clone(); }
    if v == **b { return b.clone(); }
    Rc::new(v)
}
pub fn var_list(v: &[u64]) -> Vec<u32> {
    let mut out = vec![];
    for (i, x) in v.iter().enumerate() {
        let mut x = *x;
        while x != 0 {
            let b = x.trailing_zeros();
            out.push(i as u32 * 64 + b);
            x &= x - 1;
        }
    }
    out
}
fn leaves_free(a: &Node, b: &Node) -> bool { a.leaves == 0 || b.leaves == 0 }
pub fn overlaps(a: &[u64], b: &[u64]) -> bool {
    a.iter().zip(b).any(|(x, y)| x & y != 0)
}

impl Store {
    pub fn w(&self, t: T) -> u16 { self.nodes[t as usize].w }
    pub fn konst(&mut self, w: u16, c: u128) -> T { self.intern(N::Const(c & mask(w)), w) }
    pub fn var(&mut self, id: u32) -> T { self.intern(N::Var(id), 8) }
    pub fn as_c(&self, t: T) -> Option<u128> {
        match self.nodes[t as usize].n { N::Const(c) => Some(c), _ => None }
    }
    fn n(&self, t: T) -> &Node { &self.nodes[t as usize] }

    fn intern(&mut self, n: N, w: u16) -> T {
        if let Some(&t) = self.map.get(&(n.clone(), w)) { return t; }
        let m = mask(w);
        let (smin, smax) = if w >= 128 { (i128::MIN, i128::MAX) } else { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) };
        let (mut ulo, mut uhi, mut slo, mut shi) = (0u128, m, smin, smax);
        let mut fp = false;
        let mut leaves = 0;
        let mut nl = 0u8;
        let vars;
        match &n {
            N::Const(c) => {
                ulo = *c; uhi = *c; slo = sext128(w, *c); shi = slo; leaves = 1;
                vars = self.empty.clone();
            }
            N::Var(id) => {
                let mut v = vec![0u64; *id as usize / 64 + 1];
                v[*id as usize / 64] |= 1 << (id % 64);
                vars = Rc::new(v);
            }
            N::Un(op, a) => {
                let an = self.n(*a);
                vars = an.vars.clone();
                fp = an.fp;
                nl = an.nl;
                let wa = an.w;
                match op {
                    UOp::ZExt => { ulo = an.ulo; uhi = an.uhi; }
                    UOp::SExt => { slo = an.slo; shi = an.shi; }
                    UOp::Ext(lo) => {
                        if *lo == 0 && an.uhi <= m { ulo = an.ulo; uhi = an.uhi; }
                        else if *lo + w == wa { ulo = an.ulo >> lo; uhi = an.uhi >> lo; }
                        if *lo == 0 && an.slo >= smin && an.shi <= smax { slo = an.slo; shi = an.shi; }
                    }
                    UOp::Not => { ulo = m - an.uhi; uhi = m - an.ulo; }
                    _ => { fp = true; }
                }
            }
            N::Ite(c, a, b) => {
                let (cn, an, bn) = (self.n(*c), self.n(*a), self.n(*b));
                ulo = an.ulo.min(bn.ulo); uhi = an.uhi.max(bn.uhi);
                slo = an.slo.min(bn.slo); shi = an.shi.max(bn.shi);
                fp = an.fp | bn.fp | cn.fp;
                nl = an.nl.max(bn.nl).max(cn.nl);
                // a minimum, maximum, saturation...
                if w >= 8 && w <= 32 && leaves_free(an, bn) && matches!(cn.n, N::Bin(Op::Ult | Op::Slt, ..)) { nl = 2; }
                if an.leaves > 0 && bn.leaves > 0 { leaves = an.leaves + bn.leaves; }
                vars = union(&union(&cn.vars, &an.vars), &bn.vars);
            }
            N::Bin(op, a, b) => {
                let (an, bn) = (self.n(*a), self.n(*b));
                vars = union(&an.vars, &bn.vars);
                fp = an.fp | bn.fp;
                nl = an.nl.max(bn.nl);
                use Op::*;
                if matches!(op, Mul | UDiv | URem | SDiv | SRem) { nl = nl.max(if bn.ulo == bn.uhi || an.ulo == an.uhi { 1 } else { 2 }); }
                let snonneg = an.slo >= 0 && bn.slo >= 0;
                match op {
                    Add => {
                        if let Some(h) = an.uhi.checked_add(bn.uhi) { if h <= m { ulo = an.ulo + bn.ulo; uhi = h; } }
                        if let (Some(l), Some(h)) = (an.slo.checked_add(bn.slo), an.shi.checked_add(bn.shi)) {
                            if l >= smin && h <= smax { slo = l; shi = h; }
                        }
                    }
                    Sub => {
                        if an.ulo >= bn.uhi { ulo = an.ulo - bn.uhi; uhi = an.uhi - bn.ulo; }
                        if let (Some(l), Some(h)) = (an.slo.checked_sub(bn.shi), an.shi.checked_sub(bn.slo)) {
                            if l >= smin && h <= smax { slo = l; shi = h; }
                        }
                    }
                    Mul => {
                        if let Some(h) = an.uhi.checked_mul(bn.uhi) { if h <= m { ulo = an.ulo * bn.ulo; uhi = h; } }
                        let c = [an.slo.checked_mul(bn.slo), an.slo.checked_mul(bn.shi), an.shi.checked_mul(bn.slo), an.shi.checked_mul(bn.shi)];
                        if c.iter().all(|x| x.is_some()) {
                            let l = c.iter().map(|x| x.unwrap()).min().unwrap();
                            let h = c.iter().map(|x| x.unwrap()).max().unwrap();
                            if l >= smin && h <= smax { slo = l; shi = h; }
                        }
                    }
                    UDiv => if bn.ulo > 0 { ulo = an.ulo / bn.uhi; uhi = an.uhi / bn.ulo; },
                    URem => if bn.ulo > 0 { uhi = (bn.uhi - 1).min(an.uhi); },
                    SDiv => {
                        if bn.slo > 0 {
                            let c = [an.slo / bn.slo, an.slo / bn.shi, an.shi / bn.slo, an.shi / bn.shi];
                            slo = *c.iter().min().unwrap(); shi = *c.iter().max().unwrap();
                        } else if an.slo > smin {
                            let h = an.slo.abs().max(an.shi.abs());
                            if bn.slo > 0 || bn.shi < 0 { slo = -h; shi = h; }
                        }
                    }
                    SRem => {
                        if bn.slo > 0 {
                            shi = if an.shi > 0 { an.shi.min(bn.shi - 1) } else { 0 };
                            slo = if an.slo < 0 { an.slo.max(-(bn.shi - 1)) } else { 0 };
                        }
                    }
                    Shl => if bn.ulo == bn.uhi && bn.uhi < w as u128 {
                        let s = bn.uhi as u32;
                        if an.uhi <= (m >> s) { ulo = an.ulo << s; uhi = an.uhi << s; }
                        if an.slo >= (smin >> s) && an.shi <= (smax >> s) { slo = an.slo << s; shi = an.shi << s; }
                    },
                    LShr => {
                        if bn.ulo == bn.uhi && bn.uhi < w as u128 { ulo = an.ulo >> bn.uhi; uhi = an.uhi >> bn.uhi; }
                        else { uhi = an.uhi; }
                    }
                    AShr => if bn.ulo == bn.uhi && bn.uhi < w as u128 { slo = an.slo >> bn.uhi; shi = an.shi >> bn.uhi; }
                        else if an.slo >= 0 { slo = 0; shi = an.shi; },
                    And => uhi = an.uhi.min(bn.uhi),
                    Or => {
                        ulo = an.ulo.max(bn.ulo);
                        let x = an.uhi | bn.uhi;
                        let bits = 128 - x.leading_zeros() as u16;
                        uhi = mask(bits).min(m);
                    }
                    Xor => {
                        let x = an.uhi | bn.uhi;
                        let bits = 128 - x.leading_zeros() as u16;
                        uhi = mask(bits).min(m);
                    }
                    Cat => { let wb = bn.w; ulo = (an.ulo << wb) + bn.ulo; uhi = (an.uhi << wb) + bn.uhi;
                        if an.slo != i128::MIN { slo = (an.slo << wb) + bn.ulo as i128; shi = (an.shi << wb) + bn.uhi as i128; } }
                    Eq | Ult | Slt => {}
                    _ => { fp = true; }
                }
                let _ = snonneg;
            }
        }
        // reconcile
        if w < 128 {
            if uhi <= smax as u128 { slo = slo.max(ulo as i128); shi = shi.min(uhi as i128); }
            if slo >= 0 { ulo = ulo.max(slo as u128); uhi = uhi.min(shi as u128); }
            if shi < 0 { ulo = ulo.max((slo as u128) & m); uhi = uhi.min((shi as u128) & m); }
        }
        if ulo > uhi || slo > shi { ulo = 0; uhi = m; slo = smin; shi = smax; }
        let t = self.nodes.len() as T;
        self.nodes.push(Node { n: n.clone(), w, ulo, uhi, slo, shi, vars: vars.clone(), fp, nl, leaves });
        self.map.insert((n, w), t);
        if let N::Const(_) = self.nodes[t as usize].n { return t; }
        t
    }

    pub fn topo(&self, roots: &[T]) -> Vec<T> { self.topo_cut(roots, &Default::default()) }
    /// operands before users, not descending into the float-derived terms of `cut`
    fn topo_cut(&self, roots: &[T], cut: &std::collections::HashSet<T>) -> Vec<T> {
        let mut seen = std::collections::HashSet::new();
        let mut out = vec![];
        let mut stack: Vec<(T, bool)> = roots.iter().map(|r| (*r, false)).collect();
        while let Some((t, done)) = stack.pop() {
            if done { out.push(t); continue; }
            if !seen.insert(t) { continue; }
            stack.push((t, true));
            match self.n(t).n {
                N::Const(_) | N::Var(_) => {}
                N::Un(UOp::FToU | UOp::FToS, _) if cut.contains(&t) => {}
                N::Un(_, a) => stack.push((a, false)),
                N::Bin(_, a, b) => { stack.push((a, false)); stack.push((b, false)); }
                N::Ite(c, a, b) => { stack.push((a, false)); stack.push((b, false)); stack.push((c, false)); }
            }
        }
        out
    }
    fn eval_node(&self, t: T, vals: &[u8], get: &dyn Fn(T) -> u128) -> u128 {
        let nd = self.n(t);
        match nd.n {
            N::Const(c) => c,
            N::Var(i) => *vals.get(i as usize).unwrap_or(&0) as u128,
            N::Un(op, a) => eval_un(op, self.w(a), nd.w, get(a)),
            N::Bin(op, a, b) => eval_bin(op, self.w(a), get(a), get(b), self.w(b)),
            N::Ite(c, a, b) => if get(c) != 0 { get(a) } else { get(b) },
        }
    }
    pub fn eval_order(&self, order: &[T], vals: &[u8], buf: &mut HashMap<T, u128>, root: T) -> u128 {
        buf.clear();
        for &t in order {
            let v = self.eval_node(t, vals, &|x| buf[&x]);
            buf.insert(t, v);
        }
        buf[&root]
    }
    pub fn eval(&self, t: T, vals: &[u8], memo: &mut HashMap<T, u128>) -> u128 {
        if let N::Const(c) = self.n(t).n { return c; }
        if let Some(v) = memo.get(&t) { return *v; }
        let mut stack = vec![t];
        while let Some(&x) = stack.last() {
            if memo.contains_key(&x) { stack.pop(); continue; }
            let mut pending = false;
            let mut need = |y: T, memo: &HashMap<T, u128>| {
                if !memo.contains_key(&y) { stack.push(y); pending = true; }
            };
            match self.n(x).n {
                N::Const(_) | N::Var(_) => {}
                N::Un(_, a) => need(a, memo),
                N::Bin(_, a, b) => { need(a, memo); need(b, memo); }
                N::Ite(c, a, b) => { need(c, memo); need(a, memo); need(b, memo); }
            }
            if pending { continue; }
            let v = self.eval_node(x, vals, &|y| memo[&y]);
            memo.insert(x, v);
            stack.pop();
        }
        memo[&t]
    }

    /// rebuild t with the replacements in memo; None when the budget runs out
    pub fn subst(&mut self, t: T, memo: &mut HashMap<T, T>, budget: &mut usize) -> Option<T> {
        if let Some(r) = memo.get(&t) { return Some(*r); }
        if self.nodes[t as usize].vars.is_empty() { return Some(t); }
        if *budget == 0 { return None; }
        *budget -= 1;
        let w = self.w(t);
        let r = match self.n(t).n {
            N::Const(_) | N::Var(_) => t,
            N::Un(op, a) => { let x = self.subst(a, memo, budget)?; if x == a { t } else { self.un(op, x, w) } }
            N::Bin(op, a, b) => { let x = self.subst(a, memo, budget)?; let y = self.subst(b, memo, budget)?; if x == a && y == b { t } else { self.bin(op, x, y) } }
            N::Ite(c, a, b) => { let x = self.subst(c, memo, budget)?; let y = self.subst(a, memo, budget)?; let z = self.subst(b, memo, budget)?; if x == c && y == a && z == b { t } else { self.ite(x, y, z) } }
        };
        memo.insert(t, r);
        Some(r)
    }

    // ---- constructors -------------------------------------------------------------
    pub fn not(&mut self, a: T) -> T { self.un(UOp::Not, a, self.w(a)) }
    pub fn zext(&mut self, a: T, w: u16) -> T { self.un(UOp::ZExt, a, w) }
    pub fn sext(&mut self, a: T, w: u16) -> T { self.un(UOp::SExt, a, w) }
    pub fn ext(&mut self, a: T, lo: u16, w: u16) -> T { self.un(UOp::Ext(lo), a, w) }
    pub fn cat(&mut self, hi: T, lo: T) -> T { self.bin(Op::Cat, hi, lo) }
    pub fn eq(&mut self, a: T, b: T) -> T { self.bin(Op::Eq, a, b) }
    pub fn and(&mut self, a: T, b: T) -> T { self.bin(Op::And, a, b) }
    pub fn or(&mut self, a: T, b: T) -> T { self.bin(Op::Or, a, b) }

    fn fold(&mut self, t: T) -> T {
        let nd = self.n(t);
        if nd.ulo == nd.uhi { if let N::Const(_) = nd.n { return t; } let (w, v) = (nd.w, nd.ulo); return self.konst(w, v); }
        if nd.w == 1 && nd.fp && nd.vars.iter().map(|x| x.count_ones()).sum::<u32>() == 1 { return self.threshold(t); }
        if matches!(nd.n, N::Un(UOp::FToU | UOp::FToS, _)) && nd.w <= 64 {
            let k: u32 = nd.vars.iter().map(|x| x.count_ones()).sum();
            if k == 1 || k == 2 { return self.canonical(t); }
        }
        if nd.nl > 0 && !nd.fp && nd.w <= 64 {
            let k: u32 = nd.vars.iter().map(|x| x.count_ones()).sum();
            if k == 1 || k == 2 && nd.nl == 2 { return self.canonical(t); }
        }
        t
    }
    fn table(&mut self, t: T, vl: &[u32], key: u64, depth: usize) -> Option<Rc<Vec<u64>>> {
        if let Some(r) = self.tabs.get(&(t, key)) { return Some(r.clone()); }
        if depth == 0 { return None; }
        let size = 1usize << (8 * vl.len());
        let w = self.w(t);
        if w > 64 { return None; }
        let r: Vec<u64> = match self.n(t).n {
            N::Const(c) => vec![c as u64; size],
            N::Var(i) => { let p = vl.iter().position(|v| *v == i)?; (0..size).map(|x| (x >> (8 * p)) as u64 & 255).collect() }
            N::Un(op, a) => { let wa = self.w(a); let x = self.table(a, vl, key, depth - 1)?; x.iter().map(|x| eval_un(op, wa, w, *x as u128) as u64).collect() }
            N::Bin(op, a, b) => {
                let (wa, wb) = (self.w(a), self.w(b));
                let x = self.table(a, vl, key, depth - 1)?;
                let y = self.table(b, vl, key, depth - 1)?;
                x.iter().zip(y.iter()).map(|(x, y)| eval_bin(op, wa, *x as u128, *y as u128, wb) as u64).collect()
            }
            N::Ite(c, a, b) => {
                let c = self.table(c, vl, key, depth - 1)?;
                let x = self.table(a, vl, key, depth - 1)?;
                let y = self.table(b, vl, key, depth - 1)?;
                (0..size).map(|i| if c[i] != 0 { x[i] } else { y[i] }).collect()
            }
        };
        let r = Rc::new(r);
        if self.tab_bytes > 400 << 20 { self.tabs.clear(); self.tab_bytes = 0; }
        self.tab_bytes += size * 8;
        self.tabs.insert((t, key), r.clone());
        Some(r)
    }
    /// a float predicate over one byte: the ranges of the byte for which it holds
    fn threshold(&mut self, t: T) -> T {
        let vl = var_list(&self.n(t).vars);
        let Some(tab) = self.table(t, &vl, vl[0] as u64, 60) else { return t };
        let mut runs: Vec<(u128, u128)> = vec![];
        for (i, v) in tab.iter().enumerate() {
            if *v == 0 { continue; }
            match runs.last_mut() { Some(r) if r.1 == i as u128 => r.1 += 1, _ => runs.push((i as u128, i as u128 + 1)) }
        }
        if runs.len() > 3 { return t; }
        self.tabulated += 1;
        let x = self.var(vl[0]);
        let mut r = self.ff;
        for (l, h) in runs {
            let mut c = if h == 256 { self.tt } else { let k = self.konst(8, h); self.bin(Op::Ult, x, k) };
            if l > 0 { let k = self.konst(8, l - 1); let g = self.bin(Op::Ult, k, x); c = self.and(c, g); }
            r = self.or(r, c);
        }
        r
    }
    /// smallest and largest value of t (over one or two bytes) where those of cs about the same bytes hold
    fn bounded_by(&mut self, t: T, cs: &[T]) -> Option<(u64, u64)> {
        let vl = var_list(&self.n(t).vars);
        if vl.is_empty() || vl.len() > 2 { return None; }
        let key = vl[0] as u64 | (vl.get(1).map_or(0, |x| *x as u64 + 1)) << 32;
        let tab = self.table(t, &vl, key, 80)?;
        let mut ok = vec![];
        for c in cs {
            if self.n(*c).vars.is_empty() || !var_list(&self.n(*c).vars).iter().all(|v| vl.contains(v)) { continue; }
            if let Some(x) = self.table(*c, &vl, key, 80) { ok.push(x); }
        }
        let (mut lo, mut hi) = (u64::MAX, 0);
        for i in 0..tab.len() {
            if ok.iter().all(|x| x[i] != 0) { lo = lo.min(tab[i]); hi = hi.max(tab[i]); }
        }
        if lo > hi { None } else { Some((lo, hi)) }
    }
    /// a model of cs, all over the (at most two) bytes vl; None: cannot be tabulated
    pub fn tabulate(&mut self, cs: &[T], vl: &[u32]) -> Option<Option<usize>> {
        let key = vl[0] as u64 | (vl.get(1).map_or(0, |x| *x as u64 + 1)) << 32;
        let (order, pos) = self.cone(cs)?;
        if order.len() > 300 { return self.tabulate_wide(cs, vl, &order, &pos); }
        let mut ts = vec![];
        for c in cs { ts.push(self.table(*c, vl, key, 200)?); }
        Some((0..1usize << (8 * vl.len())).find(|i| ts.iter().all(|t| t[*i] != 0)))
    }
    /// the terms below cs, operands first
    fn cone(&self, cs: &[T]) -> Option<(Vec<T>, HashMap<T, usize>)> {
        let (mut order, mut pos) = (vec![], HashMap::new());
        let mut stack: Vec<(T, bool)> = cs.iter().map(|c| (*c, false)).collect();
        while let Some((t, done)) = stack.pop() {
            if pos.contains_key(&t) { continue; }
            if done { pos.insert(t, order.len()); order.push(t); continue; }
            if self.w(t) > 64 || order.len() > 60_000 { return None; }
            stack.push((t, true));
            match self.n(t).n {
                N::Const(_) | N::Var(_) => {}
                N::Un(_, a) => stack.push((a, false)),
                N::Bin(_, a, b) => { stack.push((a, false)); stack.push((b, false)); }
                N::Ite(c, a, b) => { stack.push((c, false)); stack.push((a, false)); stack.push((b, false)); }
            }
        }
        Some((order, pos))
    }
    /// tabulate for large cones: all terms over a block of values at a time
    fn tabulate_wide(&self, cs: &[T], vl: &[u32], order: &[T], pos: &HashMap<T, usize>) -> Option<Option<usize>> {
        const B: usize = 256;
        let mut v: Vec<[u64; B]> = vec![[0; B]; order.len()];
        for block in 0..(1usize << (8 * vl.len())) / B {
            for (k, &t) in order.iter().enumerate() {
                let mut o = [0u64; B];
                match self.n(t).n {
                    N::Const(c) => o = [c as u64; B],
                    N::Var(i) => { let p = vl.iter().position(|v| *v == i)?; for (j, x) in o.iter_mut().enumerate() { *x = ((block * B + j) >> (8 * p)) as u64 & 255; } }
                    N::Un(op, a) => { let (x, wa, w) = (&v[pos[&a]], self.w(a), self.w(t)); for j in 0..B { o[j] = eval_un(op, wa, w, x[j] as u128) as u64; } }
                    N::Bin(op, a, b) => { let (x, y, wa, wb) = (&v[pos[&a]], &v[pos[&b]], self.w(a), self.w(b)); for j in 0..B { o[j] = eval_bin(op, wa, x[j] as u128, y[j] as u128, wb) as u64; } }
                    N::Ite(c, a, b) => { let (c, x, y) = (&v[pos[&c]], &v[pos[&a]], &v[pos[&b]]); for j in 0..B { o[j] = if c[j] != 0 { x[j] } else { y[j] }; } }
                }
                v[k] = o;
            }
            if let Some(j) = (0..B).find(|j| cs.iter().all(|c| v[pos[c]][*j] != 0)) { return Some(Some(block * B + j)); }
        }
        Some(None)
    }
    /// bounds that hold under cs for the cut terms over at most two bytes
    pub fn cut_bounds(&mut self, cut: &std::collections::HashSet<T>, cs: &[T]) -> String {
        let mut o = String::new();
        for &t in cut {
            if !matches!(self.n(t).n, N::Un(..)) { continue; }
            if let Some((l, h)) = self.bounded_by(t, cs) {
                let w = self.w(t);
                let _ = writeln!(o, "(assert (and (bvule {} t{}) (bvule t{} {})))", Self::smt_const(w, l as u128), t, t, Self::smt_const(w, h as u128));
            }
        }
        o
    }
    /// Terms over one or two bytes that multiply or divide: replaced by an equal older term (equal
    /// for all values of the bytes), with exact bounds.
    fn canonical(&mut self, t: T) -> T {
        if let Some(&r) = self.canon_of.get(&t) { return r; }
        let r = self.canonical_(t);
        // a term met while narrowing may get a shorter form later
        if !self.narrowing { self.canon_of.insert(t, r); }
        r
    }
    fn canonical_(&mut self, t: T) -> T {
        let vl = var_list(&self.n(t).vars);
        let key = vl[0] as u64 | (vl.get(1).map_or(0, |x| *x as u64 + 1)) << 32;
        let Some(tab) = self.table(t, &vl, key, 60) else { return t };
        self.tabulated += 1;
        let w = self.w(t);
        let (mut lo, mut hi, mut sl, mut sh) = (u128::MAX, 0u128, i128::MAX, i128::MIN);
        let mut h = 0xcbf29ce484222325u128;
        let mut ident = vl.len() == 1;
        for (i, v) in tab.iter().enumerate() {
            let v = *v as u128;
            lo = lo.min(v); hi = hi.max(v);
            let s = sext128(w, v); sl = sl.min(s); sh = sh.max(s);
            ident &= v == i as u128;
            h = (h ^ v).wrapping_mul(0x9E3779B97F4A7C15F39CC0605CEDC835).rotate_left(61);
        }
        if lo == hi { return self.konst(w, lo); }
        if ident && w >= 8 { let v = self.var(vl[0]); return self.zext(v, w); }
        { let nd = &mut self.nodes[t as usize]; nd.ulo = lo; nd.uhi = hi; nd.slo = sl; nd.shi = sh; }
        if w > 8 && !self.narrowing && !matches!(self.n(t).n, N::Un(UOp::ZExt, _)) && self.n(t).leaves == 0 {
            let bits = 128 - hi.leading_zeros() as u16;
            let k = if bits <= 8 { 8 } else if bits <= 16 { 16 } else { w };
            if k < w && !self.n(t).fp {
                self.narrowing = true;
                let e = self.ext(t, 0, k);
                // only when the narrower term got a form of its own
                let r = if !matches!(self.n(e).n, N::Un(UOp::Ext(0), x) if x == t) { Some(self.zext(e, w)) } else { None };
                self.narrowing = false;
                if let Some(r) = r { return r; }
            }
        }
        if let Some(&r) = self.canon.get(&(w, key, h)) {
            if r != t && self.table(r, &vl, key, 80).map_or(false, |x| x == tab) { return r; }
            return t;
        }
        self.canon.insert((w, key, h), t);
        t
    }

    pub fn un(&mut self, op: UOp, a: T, w: u16) -> T {
        let wa = self.w(a);
        if let Some(c) = self.as_c(a) { let v = eval_un(op, wa, w, c); return self.konst(w, v); }
        match op {
            UOp::Not => {
                if let N::Un(UOp::Not, x) = self.n(a).n { return x; }
                if let N::Ite(c, x, y) = self.n(a).n {
                    if self.n(a).leaves > 0 && self.n(a).leaves <= 64 {
                        let (nx, ny) = (self.not(x), self.not(y));
                        return self.ite(c, nx, ny);
                    }
                }
            }
            UOp::ZExt => {
                if w == wa { return a; }
                match self.n(a).n {
                    N::Un(UOp::ZExt, x) => return self.zext(x, w),
                    N::Un(UOp::Ext(0), x) => {
                        let (wx, hx) = (self.w(x), self.n(x).uhi);
                        if hx <= mask(wa) {
                            if wx == w { return x; }
                            if wx > w { return self.ext(x, 0, w); }
                            return self.zext(x, w);
                        }
                    }
                    N::Ite(c, x, y) if self.n(a).leaves > 0 => {
                        let (nx, ny) = (self.zext(x, w), self.zext(y, w));
                        return self.ite(c, nx, ny);
                    }
                    _ => {}
                }
            }
            UOp::SExt => {
                if w == wa { return a; }
                if wa < 128 && self.n(a).uhi <= (mask(wa) >> 1) { return self.zext(a, w); }
                match self.n(a).n {
                    N::Un(UOp::SExt, x) => return self.sext(x, w),
                    N::Un(UOp::Ext(0), x) if wa < 128 => {
                        let (wx, sl, sh) = (self.w(x), self.n(x).slo, self.n(x).shi);
                        if sl >= -(1i128 << (wa - 1)) && sh < (1i128 << (wa - 1)) {
                            if wx == w { return x; }
                            if wx > w { return self.ext(x, 0, w); }
                            return self.sext(x, w);
                        }
                    }
                    N::Ite(c, x, y) if self.n(a).leaves > 0 || wa == 1 => {
                        let (nx, ny) = (self.sext(x, w), self.sext(y, w));
                        return self.ite(c, nx, ny);
                    }
                    _ => {}
                }
                if wa == 1 {
                    let (o, z) = (self.konst(w, mask(w)), self.konst(w, 0));
                    return self.ite(a, o, z);
                }
            }
            UOp::Ext(lo) => {
                if lo == 0 && w == wa { return a; }
                // arithmetic whose upper bits are known to be zero
                if lo > 0 && self.n(a).nl > 0 && wa < 128 && self.n(a).uhi < 1 << (lo + w - 1) {
                    let k = 128 - self.n(a).uhi.leading_zeros() as u16;
                    if k <= lo { return self.konst(w, 0); }
                    let e = self.ext(a, lo, k - lo);
                    return self.zext(e, w);
                }
                match self.n(a).n.clone() {
                    N::Un(UOp::Ext(l2), x) => return self.ext(x, lo + l2, w),
                    N::Bin(Op::Cat, h, l) => {
                        let wl = self.w(l);
                        if lo >= wl { return self.ext(h, lo - wl, w); }
                        if lo + w <= wl { return self.ext(l, lo, w); }
                        let p = self.ext(l, lo, wl - lo);
                        let q = self.ext(h, 0, w - (wl - lo));
                        return self.cat(q, p);
                    }
                    N::Un(UOp::ZExt, x) => {
                        let wx = self.w(x);
                        if lo >= wx { return self.konst(w, 0); }
                        if lo + w <= wx { return self.ext(x, lo, w); }
                        let p = self.ext(x, lo, wx - lo);
                        return self.zext(p, w);
                    }
                    N::Un(UOp::SExt, x) => {
                        let wx = self.w(x);
                        if lo + w <= wx { return self.ext(x, lo, w); }
                        if lo < wx {
                            let p = self.ext(x, lo, wx - lo);
                            return self.sext(p, w);
                        }
                    }
                    N::Bin(o, x, y) if lo == 0 && matches!(o, Op::Add | Op::Sub | Op::Mul | Op::And | Op::Or | Op::Xor) => {
                        let (p, q) = (self.ext(x, 0, w), self.ext(y, 0, w));
                        return self.bin(o, p, q);
                    }
                    // how an operand was extended does not matter
                    N::Bin(o, x, y) if matches!(o, Op::Add | Op::Sub | Op::Mul) && lo + w < wa && [x, y].iter().any(|t| match self.n(*t).n { N::Un(UOp::ZExt | UOp::SExt, i) => self.w(i) >= lo + w, _ => false })
                        || matches!((o, &self.n(x).n), (Op::Add, N::Bin(Op::Add, _, i)) if lo + w < wa && matches!(self.n(*i).n, N::Un(UOp::ZExt | UOp::SExt, j) if self.w(j) >= lo + w)) => {
                        let (p, q) = (self.ext(x, 0, lo + w), self.ext(y, 0, lo + w));
                        let r = self.bin(o, p, q);
                        return self.ext(r, lo, w);
                    }
                    N::Bin(o, x, y) if matches!(o, Op::And | Op::Or | Op::Xor) => {
                        let (p, q) = (self.ext(x, lo, w), self.ext(y, lo, w));
                        return self.bin(o, p, q);
                    }
                    N::Un(UOp::Not, x) => { let p = self.ext(x, lo, w); return self.not(p); }
                    N::Ite(c, x, y) => {
                        if self.n(a).leaves > 0 || lo == 0 {
                            let (p, q) = (self.ext(x, lo, w), self.ext(y, lo, w));
                            return self.ite(c, p, q);
                        }
                    }
                    _ => {}
                }
            }
            _ => {}
        }
        let t = self.intern(N::Un(op, a), w);
        self.fold(t)
    }

    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if c == self.tt { return a; }
        if c == self.ff { return b; }
        if a == b { return a; }
        if let N::Un(UOp::Not, x) = self.n(c).n { return self.ite(x, b, a); }
        let w = self.w(a);
        if w == 1 {
            if a == self.tt { return self.or(c, b); }
            if a == self.ff { let n = self.not(c); return self.and(n, b); }
            if b == self.tt { let n = self.not(c); return self.or(n, a); }
            if b == self.ff { return self.and(c, a); }
            if a == c { return self.or(c, b); }
            if b == c { return self.and(c, a); }
        }
        if let N::Ite(c2, x, y) = self.n(a).n { if c2 == c { return self.ite(c, x, b); } let _ = y; }
        if let N::Ite(c2, x, y) = self.n(b).n { if c2 == c { return self.ite(c, a, y); } let _ = x; }
        let t = self.intern(N::Ite(c, a, b), w);
        self.fold(t)
    }

    pub fn bin(&mut self, op: Op, a0: T, b0: T) -> T {
        let (mut a, mut b) = (a0, b0);
        let w = self.w(a);
        let wb = self.w(b);
        debug_assert!(op == Op::Cat || w == wb, "{:?} {} {}", op, w, wb);
        let rw = match op {
            Op::Eq | Op::Ult | Op::Slt | Op::FEq | Op::FLt | Op::FLe | Op::FUno => 1,
            Op::Cat => w + wb,
            _ => w,
        };
        if let (Some(x), Some(y)) = (self.as_c(a), self.as_c(b)) {
            let v = eval_bin(op, w, x, y, wb);
            return self.konst(rw, v);
        }
        use Op::*;
        if matches!(op, Add | Mul | And | Or | Xor | Eq | FAdd | FMul | FEq) {
            if self.as_c(a).is_some() || (self.as_c(b).is_none() && a > b) { std::mem::swap(&mut a, &mut b); }
        }
        // ite-trees over constants against a constant
        if self.as_c(b).is_some() && self.n(a).leaves > 1 && self.n(a).leaves <= 300 && !matches!(op, FAdd|FSub|FMul|FDiv|FRem) {
            if let N::Ite(c, x, y) = self.n(a).n {
                let (p, q) = (self.bin(op, x, b), self.bin(op, y, b));
                return self.ite(c, p, q);
            }
        }
        if self.as_c(a).is_some() && self.n(b).leaves > 1 && self.n(b).leaves <= 300 && !matches!(op, FAdd|FSub|FMul|FDiv|FRem) {
            if let N::Ite(c, x, y) = self.n(b).n {
                let (p, q) = (self.bin(op, a, x), self.bin(op, a, y));
                return self.ite(c, p, q);
            }
        }
        let ca = self.as_c(a);
        let cb = self.as_c(b);
        let m = mask(w);
        match op {
            Add => {
                if cb == Some(0) { return a; }
                if let (Some(c), N::Bin(Add, x, y)) = (cb, self.n(a).n.clone()) {
                    if let Some(c2) = self.as_c(y) { let k = self.konst(w, c.wrapping_add(c2)); return self.bin(Add, x, k); }
                }
                // (x + c) + y -> (x + y) + c
                if cb.is_none() {
                    if let N::Bin(Add, x, y) = self.n(a).n.clone() { if self.as_c(y).is_some() { let s = self.bin(Add, x, b); return self.bin(Add, s, y); } }
                    if let N::Bin(Add, x, y) = self.n(b).n.clone() { if self.as_c(y).is_some() { let s = self.bin(Add, a, x); return self.bin(Add, s, y); } }
                    if let N::Bin(Sub, x, y) = self.n(a).n { if y == b { return x; } }
                    if let N::Bin(Sub, x, y) = self.n(b).n { if y == a { return x; } }
                }
                if w == 1 { return self.bin(Xor, a, b); }
                if let Some(t) = self.disjoint_or(a, b) { return t; }
            }
            Sub => {
                if a == b { return self.konst(w, 0); }
                if let Some(c) = cb { let k = self.konst(w, c.wrapping_neg()); return self.bin(Add, a, k); }
                if let N::Bin(Add, x, y) = self.n(a).n { if x == b { return y; } if y == b { return x; } }
                // (x + c) - y
                if let N::Bin(Add, x, y) = self.n(a).n { if self.as_c(y).is_some() { let s = self.bin(Sub, x, b); return self.bin(Add, s, y); } }
                if let N::Bin(Add, x, y) = self.n(b).n { if let Some(c) = self.as_c(y) { let s = self.bin(Sub, a, x); let k = self.konst(w, c.wrapping_neg()); return self.bin(Add, s, k); } }
            }
            Mul => {
                if cb == Some(0) { return b; }
                if cb == Some(1) { return a; }
                if let Some(c) = cb { if c.is_power_of_two() { let k = self.konst(w, c.trailing_zeros() as u128); return self.bin(Shl, a, k); } }
            }
            UDiv => {
                if cb == Some(1) { return a; }
                if let Some(c) = cb { if c.is_power_of_two() { let k = self.konst(w, c.trailing_zeros() as u128); return self.bin(LShr, a, k); } }
            }
            URem => {
                if let Some(c) = cb { if c.is_power_of_two() { let k = self.konst(w, c - 1); return self.bin(And, a, k); } }
                if self.n(a).uhi < self.n(b).ulo { return a; }
            }
            SDiv => {
                if cb == Some(1) { return a; }
                if self.n(a).slo >= 0 && self.n(b).slo >= 0 { return self.bin(UDiv, a, b); }
            }
            SRem => {
                if self.n(a).slo >= 0 && self.n(b).slo >= 0 { return self.bin(URem, a, b); }
            }
            Shl => {
                if let Some(c) = cb {
                    if c == 0 { return a; }
                    if c >= w as u128 { return self.konst(w, 0); }
                    let lo = self.ext(a, 0, w - c as u16);
                    let z = self.konst(c as u16, 0);
                    return self.cat(lo, z);
                }
                if ca == Some(0) { return a; }
            }
            LShr => {
                if let Some(c) = cb {
                    if c == 0 { return a; }
                    if c >= w as u128 { return self.konst(w, 0); }
                    let hi = self.ext(a, c as u16, w - c as u16);
                    return self.zext(hi, w);
                }
                if ca == Some(0) { return a; }
            }
            AShr => {
                if let Some(c) = cb {
                    if c == 0 { return a; }
                    let c = c.min(w as u128 - 1);
                    let hi = self.ext(a, c as u16, w - c as u16);
                    return self.sext(hi, w);
                }
            }
            And => {
                if a == b { return a; }
                if cb == Some(0) { return b; }
                if cb == Some(m) { return a; }
                if w == 1 {
                    if let N::Un(UOp::Not, x) = self.n(a).n { if x == b { return self.ff; } }
                    if let N::Un(UOp::Not, x) = self.n(b).n { if x == a { return self.ff; } }
                }
                if let Some(c) = cb {
                    // split constant masks at byte/run boundaries
                    if w > 1 {
                        let tz = c.trailing_zeros() as u16;
                        let run = (c >> tz).trailing_ones() as u16;
                        if tz + run >= w || (c >> (tz + run)) == 0 {
                            let run = run.min(w - tz);
                            let mid = self.ext(a, tz, run);
                            let mid = self.zext(mid, w - tz);
                            if tz == 0 { return mid; }
                            let z = self.konst(tz, 0);
                            return self.cat(mid, z);
                        }
                    }
                    if let N::Bin(Cat, h, l) = self.n(a).n {
                        let wl = self.w(l);
                        let (kh, kl) = (self.konst(w - wl, c >> wl), self.konst(wl, c));
                        let (p, q) = (self.bin(And, h, kh), self.bin(And, l, kl));
                        return self.cat(p, q);
                    }
                    if let N::Un(UOp::ZExt, x) = self.n(a).n {
                        let wx = self.w(x);
                        let k = self.konst(wx, c);
                        let p = self.bin(And, x, k);
                        return self.zext(p, w);
                    }
                }
                if w > 1 { if let Some(t) = self.bitwise_struct(And, a, b) { return t; } }
            }
            Or => {
                if a == b { return a; }
                if cb == Some(0) { return a; }
                if cb == Some(m) { return b; }
                if w == 1 {
                    if let N::Un(UOp::Not, x) = self.n(a).n { if x == b { return self.tt; } }
                    if let N::Un(UOp::Not, x) = self.n(b).n { if x == a { return self.tt; } }
                }
                if let Some(t) = self.disjoint_or(a, b) { return t; }
                if w > 1 { if let Some(t) = self.bitwise_struct(Or, a, b) { return t; } }
            }
            Xor => {
                if a == b { return self.konst(w, 0); }
                if cb == Some(0) { return a; }
                if cb == Some(m) { return self.not(a); }
                if let Some(t) = self.disjoint_or(a, b) { return t; }
                if w > 1 { if let Some(t) = self.bitwise_struct(Xor, a, b) { return t; } }
            }
            Eq => {
                if a == b { return self.tt; }
                let (an, bn) = (self.n(a), self.n(b));
                if an.uhi < bn.ulo || bn.uhi < an.ulo || an.shi < bn.slo || bn.shi < an.slo { return self.ff; }
                if w == 1 {
                    if cb == Some(1) { return a; }
                    if cb == Some(0) { return self.not(a); }
                }
                if let Some(c) = cb {
                    match self.n(a).n.clone() {
                        N::Un(UOp::ZExt, x) => { let wx = self.w(x); if c > mask(wx) { return self.ff; } let k = self.konst(wx, c); return self.eq(x, k); }
                        N::Un(UOp::SExt, x) => { let wx = self.w(x); let k = self.konst(wx, c); if eval_un(UOp::SExt, wx, w, c & mask(wx)) != c { return self.ff; } return self.eq(x, k); }
                        N::Un(UOp::Not, x) => { let k = self.konst(w, !c); return self.eq(x, k); }
                        N::Bin(Add, x, y) => if let Some(c2) = self.as_c(y) { let k = self.konst(w, c.wrapping_sub(c2)); return self.eq(x, k); },
                        N::Bin(Xor, x, y) => if let Some(c2) = self.as_c(y) { let k = self.konst(w, c ^ c2); return self.eq(x, k); },
                        N::Bin(Sub, x, y) if c == 0 => return self.eq(x, y),
                        N::Bin(Cat, h, l) => {
                            let wl = self.w(l);
                            let (kh, kl) = (self.konst(w - wl, c >> wl), self.konst(wl, c));
                            let (p, q) = (self.eq(h, kh), self.eq(l, kl));
                            return self.and(p, q);
                        }
                        _ => {}
                    }
                } else {
                    match (self.n(a).n.clone(), self.n(b).n.clone()) {
                        (N::Un(UOp::ZExt, x), N::Un(UOp::ZExt, y)) if self.w(x) == self.w(y) => return self.eq(x, y),
                        (N::Un(UOp::SExt, x), N::Un(UOp::SExt, y)) if self.w(x) == self.w(y) => return self.eq(x, y),
                        (N::Bin(Cat, h1, l1), N::Bin(Cat, h2, l2)) if self.w(l1) == self.w(l2) => {
                            let (p, q) = (self.eq(h1, h2), self.eq(l1, l2));
                            return self.and(p, q);
                        }
                        (N::Bin(Add, x, y), N::Bin(Add, x2, y2)) if y == y2 => return self.eq(x, x2),
                        _ => {}
                    }
                }
            }
            Ult => {
                if a == b { return self.ff; }
                let (an, bn) = (self.n(a), self.n(b));
                if an.uhi < bn.ulo { return self.tt; }
                if an.ulo >= bn.uhi { return self.ff; }
                if cb == Some(1) { let z = self.konst(w, 0); return self.eq(a, z); }
                if ca == Some(0) { let z = self.konst(w, 0); let e = self.eq(b, z); return self.not(e); }
                if w == 1 { let n = self.not(a); return self.and(n, b); }
                match (self.n(a).n.clone(), self.n(b).n.clone()) {
                    (N::Un(UOp::ZExt, x), N::Un(UOp::ZExt, y)) => {
                        let (wx, wy) = (self.w(x), self.w(y));
                        let ww = wx.max(wy);
                        let (p, q) = (self.zext(x, ww), self.zext(y, ww));
                        return self.bin(Ult, p, q);
                    }
                    (N::Un(UOp::ZExt, x), N::Const(c)) => {
                        let wx = self.w(x);
                        if c > mask(wx) { return self.tt; }
                        let k = self.konst(wx, c);
                        return self.bin(Ult, x, k);
                    }
                    (N::Const(c), N::Un(UOp::ZExt, y)) => {
                        let wy = self.w(y);
                        if c > mask(wy) { return self.ff; }
                        let k = self.konst(wy, c);
                        return self.bin(Ult, k, y);
                    }
                    _ => {}
                }
            }
            Slt => {
                if a == b { return self.ff; }
                let (an, bn) = (self.n(a), self.n(b));
                if an.shi < bn.slo { return self.tt; }
                if an.slo >= bn.shi { return self.ff; }
                if an.slo >= 0 && bn.slo >= 0 { return self.bin(Ult, a, b); }
            }
            Cat => {
                if ca == Some(0) { return self.zext(b, rw); }
                // cat(ext(x, hi..), ext(x, lo..)) -> ext
                if let (N::Un(UOp::Ext(l1), x), N::Un(UOp::Ext(l2), y)) = (self.n(a).n.clone(), self.n(b).n.clone()) {
                    if x == y && l1 == l2 + wb { return self.ext(x, l2, rw); }
                }
                if let (N::Un(UOp::Ext(l1), x), _) = (self.n(a).n.clone(), 0) {
                    // low part narrower source: ext(x, k..) ++ x' where x' = ext(x,0,k) folded to something else is handled above
                    if x == b && l1 == wb { /* impossible: widths differ */ }
                }
                // cat(a, cat(b, c)) with a,b joinable
                if let N::Bin(Cat, h, l) = self.n(b).n.clone() {
                    if let (N::Un(UOp::Ext(l1), x), N::Un(UOp::Ext(l2), y)) = (self.n(a).n.clone(), self.n(h).n.clone()) {
                        if x == y && l1 == l2 + self.w(h) { let j = self.cat(a, h); return self.cat(j, l); }
                    }
                    if let (Some(c1), Some(c2)) = (ca, self.as_c(h)) {
                        let wh = self.w(h);
                        let k = self.konst(w + wh, (c1 << wh) | c2);
                        return self.cat(k, l);
                    }
                }
                if let N::Bin(Cat, h, l) = self.n(a).n.clone() {
                    // normalise to right association
                    let r = self.cat(l, b);
                    return self.cat(h, r);
                }
                if let N::Un(UOp::ZExt, x) = self.n(a).n.clone() {
                    let lo = self.cat(x, b);
                    return self.zext(lo, rw);
                }
                // cat(ite(c,k1,k2), const)
                if cb.is_some() && self.n(a).leaves > 1 {
                    if let N::Ite(c, x, y) = self.n(a).n { let (p, q) = (self.cat(x, b), self.cat(y, b)); return self.ite(c, p, q); }
                }
                // cat of sign-extension pieces: ext(sext(x), hi) ++ ... left alone
            }
            _ => {}
        }
        let t = self.intern(N::Bin(op, a, b), rw);
        self.fold(t)
    }

    fn low_zeros(&self, a: T) -> u16 {
        match self.n(a).n {
            N::Const(c) => if c == 0 { self.w(a) } else { c.trailing_zeros() as u16 },
            N::Bin(Op::Cat, _, l) => { let wl = self.w(l); let z = self.low_zeros(l); if z == wl { if let N::Bin(Op::Cat, h, _) = self.n(a).n { return wl + self.low_zeros(h); } } z }
            N::Un(UOp::ZExt, x) | N::Un(UOp::SExt, x) => { let z = self.low_zeros(x); z }
            N::Bin(Op::Mul, x, y) => self.low_zeros(x).saturating_add(self.low_zeros(y)).min(self.w(a)),
            N::Bin(Op::Add, x, y) | N::Bin(Op::Sub, x, y) | N::Bin(Op::Or, x, y) => self.low_zeros(x).min(self.low_zeros(y)),
            _ => 0,
        }
    }
    pub fn trailing_zeros(&self, a: T) -> u16 { self.low_zeros(a) }

    /// a | b (or a + b, a ^ b) when one has k low zero bits and the other fits in k bits
    fn disjoint_or(&mut self, a: T, b: T) -> Option<T> {
        for (x, y) in [(a, b), (b, a)] {
            let z = self.low_zeros(x);
            if z == 0 || z >= self.w(x) { continue; }
            let hy = self.n(y).uhi;
            let bits = 128 - hy.leading_zeros() as u16;
            if bits <= z && bits > 0 {
                // only when x is structurally a concat/zext so that it helps
                let k = bits;
                if !matches!(self.n(x).n, N::Bin(Op::Cat, ..) | N::Un(UOp::ZExt, _)) { continue; }
                // take k as the structural boundary z for canonical form
                let _ = k;
                let w = self.w(x);
                let hi = self.ext(x, z, w - z);
                let lo = self.ext(y, 0, z);
                return Some(self.cat(hi, lo));
            }
        }
        None
    }
    /// bitwise op over two concats / zexts split at a common boundary
    fn bitwise_struct(&mut self, op: Op, a: T, b: T) -> Option<T> {
        let w = self.w(a);
        let cut = |s: &Store, t: T| match s.n(t).n {
            N::Bin(Op::Cat, _, l) => Some(s.w(l)),
            N::Un(UOp::ZExt, x) => Some(s.w(x)),
            _ => None,
        };
        let (ka, kb) = (cut(self, a), cut(self, b));
        let k = match (ka, kb) {
            (Some(x), Some(y)) => x.min(y),
            (Some(x), None) if self.as_c(b).is_some() => x,
            (None, Some(y)) if self.as_c(a).is_some() => y,
            _ => return None,
        };
        let (ha, la) = (self.ext(a, k, w - k), self.ext(a, 0, k));
        let (hb, lb) = (self.ext(b, k, w - k), self.ext(b, 0, k));
        let (h, l) = (self.bin(op, ha, hb), self.bin(op, la, lb));
        Some(self.cat(h, l))
    }

    // ---- SMT printing ---------------------------------------------------------------
    fn smt_const(w: u16, c: u128) -> String {
        if w == 1 { return if c == 1 { "true".into() } else { "false".into() }; }
        if w % 4 == 0 { format!("#x{:0width$x}", c, width = w as usize / 4) } else { format!("#b{:0width$b}", c, width = w as usize) }
    }
    pub fn smt_ref(&self, t: T) -> String {
        match self.n(t).n {
            N::Const(c) => Self::smt_const(self.w(t), c),
            N::Var(i) => format!("b{}", i),
            _ => format!("t{}", t),
        }
    }
    fn smt_bv(&self, t: T) -> String {
        // bit-vector view of a possibly boolean term
        if self.w(t) == 1 { format!("(ite {} #b1 #b0)", self.smt_ref(t)) } else { self.smt_ref(t) }
    }
    pub fn sort(&self, t: T) -> String { if self.w(t) == 1 { "Bool".into() } else { format!("(_ BitVec {})", self.w(t)) } }
    /// definition body of a non-leaf node. fpmode: false = uninterpreted, true = FP theory
    pub fn smt_body(&self, t: T, fpmode: bool) -> String {
        let nd = self.n(t);
        let w = nd.w;
        match nd.n {
            N::Const(_) | N::Var(_) => self.smt_ref(t),
            N::Ite(c, a, b) => format!("(ite {} {} {})", self.smt_ref(c), self.smt_ref(a), self.smt_ref(b)),
            N::Un(op, a) => {
                let wa = self.w(a);
                match op {
                    UOp::Not => if w == 1 { format!("(not {})", self.smt_ref(a)) } else { format!("(bvnot {})", self.smt_ref(a)) },
                    UOp::ZExt => if wa == 1 { format!("(ite {} {} {})", self.smt_ref(a), Self::smt_const(w, 1), Self::smt_const(w, 0)) } else { format!("((_ zero_extend {}) {})", w - wa, self.smt_ref(a)) },
                    UOp::SExt => if wa == 1 { format!("(ite {} {} {})", self.smt_ref(a), Self::smt_const(w, mask(w)), Self::smt_const(w, 0)) } else { format!("((_ sign_extend {}) {})", w - wa, self.smt_ref(a)) },
                    UOp::Ext(lo) => { let s = format!("((_ extract {} {}) {})", lo + w - 1, lo, self.smt_ref(a)); if w == 1 { format!("(= {} #b1)", s) } else { s } }
                    _ => if fpmode { self.smt_fp_un(op, a, w) } else { format!("(uf_{:?}_{}_{} {})", op, wa, w, self.smt_ref(a)) },
                }
            }
            N::Bin(op, a, b) => {
                let (x, y) = (self.smt_ref(a), self.smt_ref(b));
                let wa = self.w(a);
                use Op::*;
                if wa == 1 && w == 1 {
                    return match op { And => format!("(and {} {})", x, y), Or => format!("(or {} {})", x, y), Xor => format!("(xor {} {})", x, y), Eq => format!("(= {} {})", x, y),
                        Add | Sub => format!("(xor {} {})", x, y), Mul => format!("(and {} {})", x, y),
                        _ => format!("(= ({} {} {}) #b1)", bvname(op), self.smt_bv(a), self.smt_bv(b)) };
                }
                match op {
                    Cat => format!("(concat {} {})", self.smt_bv(a), self.smt_bv(b)),
                    Eq => format!("(= {} {})", x, y),
                    FAdd | FSub | FMul | FDiv | FRem | FMin | FMax | FEq | FLt | FLe | FUno => {
                        if fpmode { self.smt_fp_bin(op, a, b, wa) } else { format!("(uf_{:?}_{} {} {})", op, wa, x, y) }
                    }
                    _ => format!("({} {} {})", bvname(op), x, y),
                }
            }
        }
    }
    fn fpsort(w: u16) -> &'static str { if w == 32 { "8 24" } else { "11 53" } }
    fn tofp(&self, t: T) -> String { format!("((_ to_fp {}) {})", Self::fpsort(self.w(t)), self.smt_ref(t)) }
    fn smt_fp_un(&self, op: UOp, a: T, w: u16) -> String {
        let wa = self.w(a);
        let r = |s: String| format!("(fp.to_ieee_bv {})", s);
        match op {
            UOp::FSqrt => r(format!("(fp.sqrt RNE {})", self.tofp(a))),
            UOp::FNeg => format!("(bvxor {} {})", self.smt_ref(a), Self::smt_const(w, 1u128 << (w - 1))),
            UOp::FAbs => format!("(bvand {} {})", self.smt_ref(a), Self::smt_const(w, mask(w - 1))),
            UOp::FFloor => r(format!("(fp.roundToIntegral RTN {})", self.tofp(a))),
            UOp::FCeil => r(format!("(fp.roundToIntegral RTP {})", self.tofp(a))),
            UOp::FTruncI => r(format!("(fp.roundToIntegral RTZ {})", self.tofp(a))),
            UOp::FRound => r(format!("(fp.roundToIntegral RNA {})", self.tofp(a))),
            UOp::FRint => r(format!("(fp.roundToIntegral RNE {})", self.tofp(a))),
            UOp::UToF => r(format!("((_ to_fp_unsigned {}) RNE {})", Self::fpsort(w), self.smt_bv(a))),
            UOp::SToF => r(format!("((_ to_fp {}) RNE {})", Self::fpsort(w), self.smt_bv(a))),
            UOp::FCvt => r(format!("((_ to_fp {}) RNE {})", Self::fpsort(w), self.tofp(a))),
            UOp::FToU => {
                let x = self.tofp(a);
                let max = fb(wa, mask(w) as f64);
                format!("(ite (fp.isNaN {x}) {z} (ite (fp.lt {x} ((_ to_fp {s}) {zero})) {z} (ite (fp.geq {x} ((_ to_fp {s}) {max})) {m} ((_ fp.to_ubv {w}) RTZ {x}))))",
                    x = x, z = Self::smt_const(w, 0), s = Self::fpsort(wa), zero = Self::smt_const(wa, 0), max = Self::smt_const(wa, max), m = Self::smt_const(w, mask(w)), w = w)
            }
            UOp::FToS => {
                let x = self.tofp(a);
                let hi = (mask(w) >> 1) as f64;
                let lo = -(hi + 1.0);
                format!("(ite (fp.isNaN {x}) {z} (ite (fp.leq {x} ((_ to_fp {s}) {lo})) {ml} (ite (fp.geq {x} ((_ to_fp {s}) {hi})) {mh} ((_ fp.to_sbv {w}) RTZ {x}))))",
                    x = x, z = Self::smt_const(w, 0), s = Self::fpsort(wa), lo = Self::smt_const(wa, fb(wa, lo)), hi = Self::smt_const(wa, fb(wa, hi)),
                    ml = Self::smt_const(w, (mask(w) >> 1) + 1), mh = Self::smt_const(w, mask(w) >> 1), w = w)
            }
            _ => unreachable!(),
        }
    }
    fn smt_fp_bin(&self, op: Op, a: T, b: T, _w: u16) -> String {
        let (x, y) = (self.tofp(a), self.tofp(b));
        let r = |s: String| format!("(fp.to_ieee_bv {})", s);
        match op {
            Op::FAdd => r(format!("(fp.add RNE {} {})", x, y)),
            Op::FSub => r(format!("(fp.sub RNE {} {})", x, y)),
            Op::FMul => r(format!("(fp.mul RNE {} {})", x, y)),
            Op::FDiv => r(format!("(fp.div RNE {} {})", x, y)),
            Op::FRem => r(format!("(fp.rem {} {})", x, y)),
            Op::FMin => r(format!("(ite (fp.isNaN {x}) {y} (ite (fp.isNaN {y}) {x} (ite (fp.lt {y} {x}) {y} {x})))", x = x, y = y)),
            Op::FMax => r(format!("(ite (fp.isNaN {x}) {y} (ite (fp.isNaN {y}) {x} (ite (fp.gt {y} {x}) {y} {x})))", x = x, y = y)),
            Op::FEq => format!("(fp.eq {} {})", x, y),
            Op::FLt => format!("(fp.lt {} {})", x, y),
            Op::FLe => format!("(fp.leq {} {})", x, y),
            Op::FUno => format!("(or (fp.isNaN {}) (fp.isNaN {}))", x, y),
            _ => unreachable!(),
        }
    }
    /// uninterpreted function signature used by a node, if any
    pub fn uf_decl(&self, t: T) -> Option<(String, String)> {
        match self.n(t).n {
            N::Un(op, a) if !matches!(op, UOp::Not | UOp::ZExt | UOp::SExt | UOp::Ext(_)) => {
                let name = format!("uf_{:?}_{}_{}", op, self.w(a), self.n(t).w);
                let d = format!("(declare-fun {} ({}) {})", name, self.sort(a), self.sort(t));
                Some((name, d))
            }
            N::Bin(op, a, b) if matches!(op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FMin | Op::FMax | Op::FEq | Op::FLt | Op::FLe | Op::FUno) => {
                let name = format!("uf_{:?}_{}", op, self.w(a));
                let d = format!("(declare-fun {} ({} {}) {})", name, self.sort(a), self.sort(b), self.sort(t));
                Some((name, d))
            }
            _ => None,
        }
    }
    /// stand-alone SMT-LIB query asserting all of `cs`
    pub fn smt_file(&self, cs: &[T], fpmode: bool, extra: &str, get: bool) -> String {
        self.smt_file_abs(cs, fpmode, extra, get, &std::collections::HashSet::new())
    }
    /// quotients with a symbolic divisor below cs; with `deep` also byte-sized products
    pub fn cuts(&self, cs: &[T], deep: bool) -> std::collections::HashSet<T> {
        self.topo(cs).into_iter().filter(|t| match self.n(*t).n {
            N::Bin(Op::SDiv | Op::UDiv, _, d) => self.as_c(d).is_none(),
            N::Un(UOp::FToU | UOp::FToS, _) => true,
            N::Un(UOp::Ext(_), _) => deep && self.n(*t).nl == 2 && self.n(*t).w <= 8,
            _ => false,
        }).collect()
    }
    /// what stays known about a cut term
    fn cut_lemmas(&self, t: T, o: &mut String) {
        let nd = self.n(t);
        let w = nd.w;
        let r = |x: T| self.smt_ref(x);
        let k = |c: u128| Self::smt_const(w, c);
        if nd.ulo > 0 || nd.uhi < mask(w) { let _ = writeln!(o, "(assert (and (bvule {} t{}) (bvule t{} {})))", k(nd.ulo), t, t, k(nd.uhi)); }
        let (signed, n, d) = match nd.n { N::Bin(Op::SDiv, n, d) => (true, n, d), N::Bin(Op::UDiv, n, d) => (false, n, d), _ => return };
        let le = if signed { "bvsle" } else { "bvule" };
        let pos = if signed { format!("(bvslt {} {})", k(0), r(d)) } else { format!("(bvult {} {})", k(0), r(d)) };
        // between 0 and x
        let between = |x: T| {
            if signed {
                format!("(and (=> (bvsle {z} {x}) (and (bvsle {z} t{t}) (bvsle t{t} {x}))) (=> (bvsle {x} {z}) (and (bvsle {x} t{t}) (bvsle t{t} {z}))))", z = k(0), x = r(x), t = t)
            } else { format!("(bvule t{} {})", t, r(x)) }
        };
        let _ = writeln!(o, "(assert (=> {} {}))", pos, between(n));
        if let N::Bin(Op::Mul, a, b) = self.n(n).n {
            let (an, bn) = (self.n(a), self.n(b));
            // the product does not wrap
            let fits = if signed {
                let c = [an.slo.checked_mul(bn.slo), an.slo.checked_mul(bn.shi), an.shi.checked_mul(bn.slo), an.shi.checked_mul(bn.shi)];
                w < 128 && c.iter().all(|v| v.map_or(false, |v| v >= -(1i128 << (w - 1)) && v < (1i128 << (w - 1))))
            } else { an.uhi.checked_mul(bn.uhi).map_or(false, |v| v <= mask(w)) };
            if fits {
                for (x, y) in [(a, b), (b, a)] {
                    // 0 <= y <= d: the quotient of x*y lies between 0 and x
                    let _ = writeln!(o, "(assert (=> (and {} ({} {} {}) ({} {} {})) {}))", pos, le, k(0), r(y), le, r(y), r(d), between(x));
                    let _ = writeln!(o, "(assert (=> (and {} (= {} {})) (= t{} {})))", pos, r(y), r(d), t, r(x));
                }
            }
        }
    }
    /// like smt_file, with the terms of `cut` replaced by unknowns: only `unsat` is conclusive
    pub fn smt_file_abs(&self, cs: &[T], fpmode: bool, extra: &str, get: bool, cut: &std::collections::HashSet<T>) -> String {
        let mut o = String::new();
        let order = self.topo_cut(cs, cut);
        let mut ufs = std::collections::HashSet::new();
        let hasfp = order.iter().any(|t| self.uf_decl(*t).is_some());
        o.push_str(if !hasfp { "(set-logic QF_BV)\n" } else if fpmode { "" } else { "(set-logic QF_UFBV)\n" });
        for &t in &order {
            match self.n(t).n {
                N::Var(i) => { let _ = writeln!(o, "(declare-const b{} (_ BitVec 8))", i); }
                N::Const(_) => {}
                _ => {
                    if !fpmode { if let Some((nm, d)) = self.uf_decl(t) { if ufs.insert(nm) { o.push_str(&d); o.push('\n'); } } }
                    if cut.contains(&t) {
                        let _ = writeln!(o, "(declare-const t{} {})", t, self.sort(t));
                        self.cut_lemmas(t, &mut o);
                        continue;
                    }
                    let _ = writeln!(o, "(define-fun t{} () {} {})", t, self.sort(t), self.smt_body(t, fpmode));
                }
            }
        }
        o.push_str(extra);
        for c in cs { let _ = writeln!(o, "(assert {})", self.smt_ref(*c)); }
        o.push_str("(check-sat)\n");
        if get {
            let vs: Vec<String> = order.iter().filter_map(|t| if let N::Var(i) = self.n(*t).n { Some(format!("b{}", i)) } else { None }).collect();
            if !vs.is_empty() { let _ = writeln!(o, "(get-value ({}))", vs.join(" ")); }
        }
        o
    }
}
fn bvname(op: Op) -> &'static str {
    use Op::*;
    match op {
        Add => "bvadd", Sub => "bvsub", Mul => "bvmul", UDiv => "bvudiv", URem => "bvurem", SDiv => "bvsdiv", SRem => "bvsrem",
        Shl => "bvshl", LShr => "bvlshr", AShr => "bvashr", And => "bvand", Or => "bvor", Xor => "bvxor", Ult => "bvult", Slt => "bvslt",
        _ => unreachable!("{:?}", op),
    }
}

/// Random differential test of the constructors against direct evaluation.
pub fn selftest(seed: u64, n: usize) -> usize {
    let mut s = seed.wrapping_mul(0x9e3779b97f4a7c15) | 1;
    let mut rnd = move || { s ^= s << 13; s ^= s >> 7; s ^= s << 17; s };
    let ops = [Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::URem, Op::SDiv, Op::SRem, Op::Shl, Op::LShr, Op::AShr, Op::And, Op::Or, Op::Xor, Op::Eq, Op::Ult, Op::Slt, Op::Cat];
    let mut checked = 0;
    for _ in 0..n {
        // pool of (term, value) under a fixed random model
        let vals: Vec<u8> = (0..6).map(|_| { let r = rnd(); if r % 4 == 0 { [0u8, 1, 127, 128, 255][(r >> 8) as usize % 5] } else { (r >> 16) as u8 } }).collect();
        let mut pool: Vec<(T, u128)> = (0..6).map(|i| (st().var(i as u32), vals[i] as u128)).collect();
        for _ in 0..40 {
            let r = rnd();
            let (a, va) = pool[rnd() as usize % pool.len()];
            let wa = st().w(a);
            let (t, v) = match r % 10 {
                0 => { let c = match rnd() % 4 { 0 => 0, 1 => mask(wa), 2 => 1u128 << (rnd() % wa as u64), _ => (rnd() as u128) << (rnd() % 64) } & mask(wa); (st().konst(wa, c), c) }
                1 => { if wa >= 64 { continue; } let w = wa + 1 + (rnd() % 24) as u16; (st().zext(a, w), va) }
                2 => { if wa >= 64 { continue; } let w = wa + 1 + (rnd() % 24) as u16; (st().sext(a, w), eval_un(UOp::SExt, wa, w, va)) }
                3 => { let lo = (rnd() % wa as u64) as u16; let w = 1 + (rnd() % (wa - lo) as u64) as u16; (st().ext(a, lo, w), eval_un(UOp::Ext(lo), wa, w, va)) }
                4 => (st().not(a), !va & mask(wa)),
                5 => {
                    let c: Vec<_> = pool.iter().filter(|p| st().w(p.0) == 1).cloned().collect();
                    let d: Vec<_> = pool.iter().filter(|p| st().w(p.0) == wa).cloned().collect();
                    if c.is_empty() { continue; }
                    let (cc, vc) = c[rnd() as usize % c.len()];
                    let (b, vb) = d[rnd() as usize % d.len()];
                    (st().ite(cc, a, b), if vc != 0 { va } else { vb })
                }
                _ => {
                    let op = ops[rnd() as usize % ops.len()];
                    let d: Vec<_> = if op == Op::Cat { pool.clone() } else { pool.iter().filter(|p| st().w(p.0) == wa).cloned().collect() };
                    let (mut b, mut vb) = d[rnd() as usize % d.len()];
                    if rnd() % 3 == 0 && op != Op::Cat { vb = match rnd() % 5 { 0 => 0, 1 => mask(wa), 2 => rnd() as u128 % 9, 3 => 1u128 << (rnd() % wa as u64), _ => rnd() as u128 } & mask(wa); b = st().konst(wa, vb); }
                    if op == Op::Cat && wa + st().w(b) > 100 { continue; }
                    let wb = st().w(b);
                    (st().bin(op, a, b), eval_bin(op, wa, va, vb, wb))
                }
            };
            let mut memo = HashMap::new();
            let got = st().eval(t, &vals, &mut memo);
            let nd = &st().nodes[t as usize];
            if got != v || v < nd.ulo || v > nd.uhi || sext128(nd.w, v) < nd.slo || sext128(nd.w, v) > nd.shi {
                eprintln!("SELFTEST FAIL term {} w={} expected {:x} got {:x} iv [{:x},{:x}] s[{},{}] node {:?}", t, nd.w, v, got, nd.ulo, nd.uhi, nd.slo, nd.shi, nd.n);
                eprintln!("{}", st().smt_file(&[], false, "", false));
                std::process::exit(3);
            }
            checked += 1;
            pool.push((t, v));
        }
    }
    checked
}
