//! Lazy parser for textual LLVM IR (opaque pointers), covering what rustc emits.
use crate::term::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    I(u16),
    F(u16),
    Ptr,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Vec<Ty>, bool),
    Fn,
    Meta,
}
impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Fn | Ty::Meta => 0,
            Ty::I(w) | Ty::F(w) => { let b = (*w as u64 + 7) / 8; let al = self.align(); (b + al - 1) / al * al }
            Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t { Ty::I(w) => ((n * w as u64) + 7) / 8, _ => n * t.size() },
            Ty::Struct(..) => self.layout().1,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::I(w) | Ty::F(w) => { let b = (*w as u64 + 7) / 8; b.next_power_of_two().clamp(1, 16) }
            Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().min(64),
            Ty::Struct(fs, packed) => if *packed { 1 } else { fs.iter().map(|f| f.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    /// field offsets and size
    pub fn layout(&self) -> (Vec<u64>, u64) {
        if let Ty::Struct(fs, packed) = self {
            let mut off = 0;
            let mut v = vec![];
            let mut al = 1;
            for f in fs {
                if !*packed { let a = f.align(); al = al.max(a); off = (off + a - 1) / a * a; }
                v.push(off);
                off += f.size();
            }
            if !*packed { off = (off + al - 1) / al * al; }
            (v, off)
        } else { (vec![], self.size()) }
    }
}

#[derive(Clone, Debug)]
pub enum Val {
    B(Bv),
    A(Rc<Vec<Val>>),
}
impl Val {
    pub fn bv(&self) -> Bv { match self { Val::B(b) => *b, Val::A(v) => panic!("aggregate used as scalar {:?}", v) } }
}
#[derive(Clone, Debug)]
pub enum Op_ {
    R(u32),
    K(Val),
    Undef(Ty),
}
#[derive(Clone, Debug)]
pub enum Callee {
    Direct(Rc<str>),
    Ind(Op_),
    Asm,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, PtrToInt, IntToPtr, Bitcast, FpToUi, FpToSi, UiToFp, SiToFp, FpTrunc, FpExt }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Debug)]
pub enum I {
    Alloca(u64, u64, Option<Op_>),
    Load(Ty, Op_),
    Store(Ty, Op_, Op_),
    Gep(Op_, u64, Vec<(Op_, u64, u16)>),
    Bin(BOp, Ty, Op_, Op_),
    FNeg(Ty, Op_),
    ICmp(&'static str, Ty, Op_, Op_),
    FCmp(String, Ty, Op_, Op_),
    Cast(Cast, Ty, Ty, Op_),
    Select(Op_, Op_, Op_),
    Phi(Vec<(u32, Op_)>),
    Call { callee: Callee, args: Vec<(Ty, Op_)>, ret: Ty, normal: Option<u32> },
    Extract(Op_, Vec<u32>),
    Insert(Op_, Op_, Vec<u32>),
    ExtElem(Op_, Op_),
    InsElem(Op_, Op_, Op_),
    Shuffle(Op_, Op_, Vec<u32>),
    Freeze(Op_),
    Rmw(String, Ty, Op_, Op_),
    CmpXchg(Ty, Op_, Op_, Op_),
    Fence,
    Br(u32),
    CondBr(Op_, u32, u32),
    Switch(Ty, Op_, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Op_)>),
    Unreachable,
    Landingpad,
    Resume,
}
pub struct Ins { pub dst: u32, pub i: I, pub line: u32 }
pub struct Block { pub phis: Vec<(u32, Vec<(u32, Op_)>)>, pub ins: Vec<Ins> }
pub struct Func {
    pub name: Rc<str>,
    pub params: Vec<(Ty, u32)>,
    pub blocks: Vec<Block>,
    pub nregs: u32,
    pub ret: Ty,
}
pub enum GInit { Zero, Bytes(Vec<u8>) }
pub struct Global { pub addr: u64, pub size: u64, pub text: (usize, usize), pub ty: Ty, pub ext: bool }

pub struct Module {
    pub text: String,
    pub fns: HashMap<Rc<str>, (usize, usize)>, // line range
    pub lines: Vec<(usize, usize)>,
    pub globals: HashMap<Rc<str>, Global>,
    pub gorder: Vec<Rc<str>>,
    pub faddr: HashMap<Rc<str>, u64>,
    pub addrf: HashMap<u64, Rc<str>>,
    cache: HashMap<Rc<str>, Rc<Func>>,
    pub decls: HashMap<Rc<str>, ()>,
    pub aliases: HashMap<Rc<str>, Rc<str>>,
    pub named: HashMap<String, Ty>,
}
pub const GBASE: u64 = 0x1000_0000;
pub const FBASE: u64 = 0x0100_0000;

fn read_sym(s: &str) -> (String, usize) {
    // s starts right after '@' or '%'
    let b = s.as_bytes();
    if !b.is_empty() && b[0] == b'"' {
        let e = s[1..].find('"').unwrap() + 1;
        return (s[1..e].to_string(), e + 1);
    }
    let mut i = 0;
    while i < b.len() && (b[i].is_ascii_alphanumeric() || matches!(b[i], b'_' | b'.' | b'$' | b'-')) { i += 1; }
    (s[..i].to_string(), i)
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read_to_string(path).expect("read ir");
        let mut m = Module { text, fns: HashMap::new(), lines: vec![], globals: HashMap::new(), gorder: vec![], faddr: HashMap::new(), addrf: HashMap::new(), cache: HashMap::new(), decls: HashMap::new(), aliases: HashMap::new(), named: HashMap::new() };
        let mut lines = vec![];
        let mut st = 0;
        for (i, c) in m.text.bytes().enumerate() { if c == b'\n' { lines.push((st, i)); st = i + 1; } }
        if st < m.text.len() { lines.push((st, m.text.len())); }
        m.lines = lines;
        let mut i = 0;
        let mut fa = FBASE;
        let mut ga: Vec<(Rc<str>, usize)> = vec![];
        while i < m.lines.len() {
            let (a, b) = m.lines[i];
            let l = &m.text[a..b];
            if l.starts_with("define ") {
                let p = l.find('@').unwrap();
                let (n, _) = read_sym(&l[p + 1..]);
                let n: Rc<str> = n.into();
                let s = i;
                while &m.text[m.lines[i].0..m.lines[i].1] != "}" { i += 1; }
                m.fns.insert(n.clone(), (s, i));
                m.faddr.insert(n.clone(), fa); m.addrf.insert(fa, n); fa += 16;
            } else if l.starts_with("declare ") {
                let p = l.find('@').unwrap();
                let (n, _) = read_sym(&l[p + 1..]);
                let n: Rc<str> = n.into();
                m.decls.insert(n.clone(), ());
                if !n.starts_with("llvm.") { m.faddr.insert(n.clone(), fa); m.addrf.insert(fa, n); fa += 16; }
            } else if l.starts_with('@') {
                let (n, e) = read_sym(&l[1..]);
                ga.push((n.into(), i));
                let _ = e;
            } else if l.starts_with('%') {
                let (n, e) = read_sym(&l[1..]);
                let rest = l[1 + e..].trim_start().trim_start_matches('=').trim_start();
                if let Some(r) = rest.strip_prefix("type ") { if !r.starts_with("opaque") { let mut p = P::new(r, &m as *const Module); let t = p.ty(); m.named.insert(n, t); } }
            }
            i += 1;
        }
        // globals
        let mut addr = GBASE;
        for (n, i) in ga {
            let (a, b) = m.lines[i];
            let l = m.text[a..b].to_string();
            let (_, e) = read_sym(&l[1..]);
            let mut rest = l[1 + e..].trim_start().trim_start_matches('=').trim_start();
            let mut ext = false;
            if rest.contains(" alias ") && !rest.contains("constant") && !rest.contains("global") {
                let at = rest.rfind('@').unwrap();
                let (t, _) = read_sym(&rest[at + 1..]);
                m.aliases.insert(n.clone(), t.into());
                continue;
            }
            loop {
                if let Some(r) = rest.strip_prefix("constant ") { rest = r; break; }
                if let Some(r) = rest.strip_prefix("global ") { rest = r; break; }
                // skip a word (possibly with parens)
                let sp = rest.find(' ').unwrap();
                let w = &rest[..sp];
                if w == "external" || w == "extern_weak" { ext = true; }
                rest = rest[sp + 1..].trim_start();
            }
            let off = rest.as_ptr() as usize - l.as_ptr() as usize;
            let mut p = P::new(rest, &m as *const Module);
            let ty = p.ty();
            let c0 = off + p.i;
            let al = ty.align().max(16).max(l.rfind(", align ").and_then(|x| l[x + 8..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse::<u64>().ok()).unwrap_or(1));
            addr = (addr + al - 1) / al * al;
            let size = ty.size();
            m.gorder.push(n.clone());
            m.globals.insert(n, Global { addr, size, text: (a + c0, b), ty, ext });
            addr += size + 16;
        }
        m
    }
    pub fn sym_addr(&self, n: &str) -> u64 {
        if let Some(g) = self.globals.get(n) { return g.addr; }
        if let Some(a) = self.faddr.get(n) { return *a; }
        if let Some(a) = self.aliases.get(n) { return self.sym_addr(&a.clone()); }
        panic!("unknown symbol @{}", n)
    }
    /// writes (addr, bytes) of all initialised globals
    pub fn global_bytes(&self) -> Vec<(u64, Vec<u8>)> {
        let mut out = vec![];
        for n in &self.gorder {
            let g = &self.globals[n];
            if g.ext { out.push((g.addr, vec![0; g.size as usize])); continue; }
            let t = &self.text[g.text.0..g.text.1];
            let mut p = P::new(t, self as *const Module);
            let v = p.constant(&g.ty);
            let mut b = vec![0u8; g.size as usize];
            put(&g.ty, &v, &mut b);
            out.push((g.addr, b));
        }
        out
    }
    pub fn func(&mut self, n: &Rc<str>) -> Option<Rc<Func>> {
        if let Some(f) = self.cache.get(n) { return Some(f.clone()); }
        let key = if self.fns.contains_key(n) { n.clone() } else if let Some(a) = self.aliases.get(n) { a.clone() } else { return None };
        let (s, e) = *self.fns.get(&key)?;
        let f = Rc::new(self.parse_fn(&key, s, e));
        self.cache.insert(n.clone(), f.clone());
        Some(f)
    }
    fn line(&self, i: usize) -> &str { let (a, b) = self.lines[i]; &self.text[a..b] }

    fn parse_fn(&self, name: &Rc<str>, s: usize, e: usize) -> Func {
        let hdr = self.line(s);
        let at = hdr.find('@').unwrap();
        // return type: last type before '@'
        let pre = &hdr[7..at];
        let mut p = P::new(pre, self as *const Module);
        let ret = p.ret_ty();
        let (_, l) = read_sym(&hdr[at + 1..]);
        let mut p = P::new(&hdr[at + 1 + l..], self as *const Module);
        let mut regs: HashMap<String, u32> = HashMap::new();
        let mut params = vec![];
        p.expect('(');
        let mut unnamed = 0;
        loop {
            p.ws();
            if p.eat(')') { break; }
            if p.eat_str("...") { continue; }
            let t = p.ty();
            p.attrs();
            p.ws();
            let nm = if p.peek() == b'%' { p.i += 1; p.sym() } else { let x = unnamed.to_string(); x };
            if nm.parse::<u32>().is_ok() { unnamed += 1; }
            let id = regs.len() as u32;
            regs.insert(nm, id);
            params.push((t, id));
            p.ws();
            p.eat(',');
        }
        // gather logical lines
        let mut blocks: Vec<(String, Vec<(String, u32)>)> = vec![];
        blocks.push((unnamed.to_string(), vec![]));
        let mut first = true;
        for i in s + 1..e {
            let l = self.line(i);
            if l.is_empty() || l.starts_with(';') { continue; }
            let c = l.as_bytes()[0];
            if c != b' ' {
                // label
                let (n, used) = read_sym(l);
                if l.as_bytes().get(used) == Some(&b':') {
                    if first && blocks[0].1.is_empty() { blocks[0].0 = n; first = false; } else { blocks.push((n, vec![])); first = false; }
                    continue;
                }
                panic!("line {}", l);
            }
            let t = l.trim_start();
            if t.starts_with(';') || t.starts_with("#dbg") { continue; }
            first = false;
            let ind = l.len() - t.len();
            if ind > 2 || t.starts_with(']') {
                let b = blocks.last_mut().unwrap();
                let x = b.1.last_mut().unwrap();
                x.0.push(' ');
                x.0.push_str(t);
            } else {
                blocks.last_mut().unwrap().1.push((t.to_string(), i as u32));
            }
        }
        let labels: HashMap<String, u32> = blocks.iter().enumerate().map(|(i, b)| (b.0.clone(), i as u32)).collect();
        let mut out = vec![];
        for (_, ls) in &blocks {
            let mut phis = vec![];
            let mut ins = vec![];
            for (l, ln) in ls {
                let mut p = P::new(l, self as *const Module);
                p.labels = Some(&labels);
                let mut dst = u32::MAX;
                p.ws();
                if p.peek() == b'%' {
                    p.i += 1;
                    let n = p.sym();
                    let k = regs.len() as u32;
                    dst = *regs.entry(n).or_insert(k);
                    p.ws();
                    p.expect('=');
                }
                p.regs = Some(&mut regs);
                let i = p.instr();
                if let I::Phi(v) = i { phis.push((dst, v)); } else { ins.push(Ins { dst, i, line: *ln }); }
            }
            out.push(Block { phis, ins });
        }
        Func { name: name.clone(), params, blocks: out, nregs: regs.len() as u32, ret }
    }
}

/// constant value -> bytes
pub fn put(ty: &Ty, v: &Op_, b: &mut [u8]) {
    match v {
        Op_::Undef(_) => {}
        Op_::K(v) => putv(ty, v, b),
        Op_::R(_) => panic!("register in constant"),
    }
}
fn putv(ty: &Ty, v: &Val, b: &mut [u8]) {
    match (ty, v) {
        (Ty::Struct(fs, _), Val::A(vs)) => {
            let (o, _) = ty.layout();
            for (i, f) in fs.iter().enumerate() { putv(f, &vs[i], &mut b[o[i] as usize..]); }
        }
        (Ty::Arr(_, t), Val::A(vs)) | (Ty::Vec(_, t), Val::A(vs)) => {
            let sz = t.size() as usize;
            for (i, x) in vs.iter().enumerate() { putv(t, x, &mut b[i * sz..]); }
        }
        (_, Val::B(x)) => {
            assert!(x.is_c());
            for i in 0..(ty.size() as usize).min(16) { b[i] = (x.c >> (8 * i)) as u8; }
        }
        _ => panic!("put {:?}", ty),
    }
}
pub fn zero(ty: &Ty) -> Val {
    match ty {
        Ty::I(w) | Ty::F(w) => Val::B(Bv::k(*w, 0)),
        Ty::Ptr => Val::B(Bv::k(64, 0)),
        Ty::Arr(n, t) | Ty::Vec(n, t) => Val::A(Rc::new((0..*n).map(|_| zero(t)).collect())),
        Ty::Struct(fs, _) => Val::A(Rc::new(fs.iter().map(zero).collect())),
        Ty::Void | Ty::Fn | Ty::Meta => Val::A(Rc::new(vec![])),
    }
}

struct P<'a> {
    s: &'a str,
    i: usize,
    m: *const Module,
    regs: Option<&'a mut HashMap<String, u32>>,
    labels: Option<&'a HashMap<String, u32>>,
}
const BINS: &[(&str, BOp)] = &[("add", BOp::Add), ("sub", BOp::Sub), ("mul", BOp::Mul), ("udiv", BOp::UDiv), ("sdiv", BOp::SDiv), ("urem", BOp::URem), ("srem", BOp::SRem), ("shl", BOp::Shl), ("lshr", BOp::LShr), ("ashr", BOp::AShr), ("and", BOp::And), ("or", BOp::Or), ("xor", BOp::Xor), ("fadd", BOp::FAdd), ("fsub", BOp::FSub), ("fmul", BOp::FMul), ("fdiv", BOp::FDiv), ("frem", BOp::FRem)];
const CASTS: &[(&str, Cast)] = &[("trunc", Cast::Trunc), ("zext", Cast::ZExt), ("sext", Cast::SExt), ("ptrtoint", Cast::PtrToInt), ("ptrtoaddr", Cast::PtrToInt), ("inttoptr", Cast::IntToPtr), ("bitcast", Cast::Bitcast), ("fptoui", Cast::FpToUi), ("fptosi", Cast::FpToSi), ("uitofp", Cast::UiToFp), ("sitofp", Cast::SiToFp), ("fptrunc", Cast::FpTrunc), ("fpext", Cast::FpExt)];
const FLAGS: &[&str] = &["nuw", "nsw", "exact", "disjoint", "nneg", "samesign", "inbounds", "nusw", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"];
const PRED: &[&str] = &["eq", "ne", "ugt", "uge", "ult", "ule", "sgt", "sge", "slt", "sle"];

impl<'a> P<'a> {
    fn new(s: &'a str, m: *const Module) -> P<'a> { P { s, i: 0, m, regs: None, labels: None } }
    fn m(&self) -> &'static Module { unsafe { &*self.m } }
    fn peek(&self) -> u8 { *self.s.as_bytes().get(self.i).unwrap_or(&0) }
    fn ws(&mut self) { while self.peek() == b' ' { self.i += 1; } }
    fn eat(&mut self, c: char) -> bool { self.ws(); if self.peek() == c as u8 { self.i += 1; true } else { false } }
    fn expect(&mut self, c: char) { if !self.eat(c) { panic!("expected {:?} at {:?} in {:?}", c, &self.s[self.i.min(self.s.len())..], &self.s[..self.s.len().min(300)]); } }
    fn eat_str(&mut self, t: &str) -> bool { self.ws(); if self.s[self.i..].starts_with(t) { self.i += t.len(); true } else { false } }
    fn sym(&mut self) -> String { let (n, l) = read_sym(&self.s[self.i..]); self.i += l; n }
    fn peek_word(&mut self) -> &'a str {
        self.ws();
        let b = self.s.as_bytes();
        let mut j = self.i;
        while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_' || b[j] == b'.') { j += 1; }
        &self.s[self.i..j]
    }
    fn word(&mut self) -> &'a str { let w = self.peek_word(); self.i += w.len(); w }
    fn eat_word(&mut self, w: &str) -> bool { if self.peek_word() == w { self.i += w.len(); true } else { false } }
    fn num(&mut self) -> u64 { self.ws(); let b = self.s.as_bytes(); let s = self.i; while self.i < b.len() && b[self.i].is_ascii_digit() { self.i += 1; } self.s[s..self.i].parse().unwrap_or_else(|_| panic!("num at {}", &self.s[s..])) }
    fn skip_paren(&mut self) { // at '('
        let b = self.s.as_bytes();
        let mut d = 0;
        loop {
            match b[self.i] { b'(' => d += 1, b')' => { d -= 1; if d == 0 { self.i += 1; return; } } b'"' => { self.i += 1; while b[self.i] != b'"' { self.i += 1; } } _ => {} }
            self.i += 1;
        }
    }
    fn try_ty(&mut self) -> Option<Ty> {
        self.ws();
        let save = self.i;
        let c = self.peek();
        let t = match c {
            b'{' => { self.i += 1; let f = self.ty_list('}'); Ty::Struct(f, false) }
            b'<' => {
                self.i += 1;
                self.ws();
                if self.peek() == b'{' { self.i += 1; let f = self.ty_list('}'); self.expect('>'); Ty::Struct(f, true) }
                else { let n = self.num(); if !self.eat_word("x") { panic!("vec"); } let t = self.ty(); self.expect('>'); Ty::Vec(n, Rc::new(t)) }
            }
            b'[' => { self.i += 1; self.ws(); if !self.peek().is_ascii_digit() { self.i = save; return None; } let n = self.num(); if !self.eat_word("x") { self.i = save; return None; } let t = self.ty(); self.expect(']'); Ty::Arr(n, Rc::new(t)) }
            b'%' => { self.i += 1; let n = self.sym(); match self.m().named.get(&n) { Some(t) => t.clone(), None => { self.i = save; return None; } } }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "float" => Ty::F(32),
                    "double" => Ty::F(64),
                    "half" => Ty::F(16),
                    "fp128" => Ty::F(128),
                    "x86_fp80" => Ty::F(80),
                    "metadata" | "token" | "label" => Ty::Meta,
                    _ => if let Some(n) = w.strip_prefix('i').and_then(|x| x.parse::<u16>().ok()) { Ty::I(n) } else { self.i = save; return None; }
                }
            }
        };
        // function type suffix: "void (ptr, ...)"
        Some(t)
    }
    fn ty(&mut self) -> Ty { self.try_ty().unwrap_or_else(|| panic!("type expected at {:?} in {:?}", &self.s[self.i..], &self.s[..self.s.len().min(200)])) }
    fn ty_list(&mut self, end: char) -> Vec<Ty> {
        let mut v = vec![];
        loop { if self.eat(end) { return v; } v.push(self.ty()); self.eat(','); }
    }
    /// skip attribute words until something that is not one
    fn attrs(&mut self) {
        loop {
            self.ws();
            let c = self.peek();
            if c == b'#' { self.i += 1; self.num(); continue; }
            if c == b'"' { self.i += 1; while self.peek() != b'"' { self.i += 1; } self.i += 1; if self.peek() == b'=' { self.i += 1; self.i += 1; while self.peek() != b'"' { self.i += 1; } self.i += 1; } continue; }
            let w = self.peek_word();
            if w.is_empty() || w.as_bytes()[0].is_ascii_digit() { return; }
            match w {
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "ptrtoint" | "inttoptr" | "splat" | "bitcast" | "sub" | "add" | "asm" | "trunc" | "c" | "to" | "unwind" | "xor" | "and" | "or" | "shl" | "lshr" | "mul" | "blockaddress" | "dso_local_equivalent" | "ptrtoaddr" => return,
                "align" => { self.i += 5; self.ws(); if self.peek() == b'(' { self.skip_paren(); } else { self.num(); } continue; }
                "addrspace" => {}
                _ => {}
            }
            self.i += w.len();
            if self.peek() == b'(' { self.skip_paren(); }
        }
    }
    fn ret_ty(&mut self) -> Ty {
        // skip linkage / cc / attributes until a type parses
        loop {
            self.ws();
            if let Some(t) = self.try_ty() { return t; }
            if self.peek() == b'"' { self.i += 1; while self.peek() != b'"' { self.i += 1; } self.i += 1; continue; }
            let w = self.peek_word();
            if w.is_empty() { panic!("ret type in {:?}", self.s); }
            self.i += w.len();
            if w == "align" || w == "cc" { self.ws(); if self.peek().is_ascii_digit() { self.num(); } }
            if self.peek() == b'(' { self.skip_paren(); }
        }
    }
    fn label(&mut self) -> u32 {
        if !self.eat_word("label") { panic!("label in {}", self.s); }
        self.ws(); self.expect('%');
        let n = self.sym();
        *self.labels.unwrap().get(&n).unwrap_or_else(|| panic!("unknown label {} in {}", n, self.s))
    }
    fn tv(&mut self) -> (Ty, Op_) { let t = self.ty(); self.attrs(); let v = self.value(&t); (t, v) }
    fn value(&mut self, t: &Ty) -> Op_ {
        self.ws();
        if self.peek() == b'%' {
            self.i += 1;
            let n = self.sym();
            let regs = self.regs.as_mut().expect("register outside function");
            let k = regs.len() as u32;
            return Op_::R(*regs.entry(n).or_insert(k));
        }
        self.constant(t)
    }
    /// the bits of a float constant written as bits, infinity or NaN
    fn float_bits(&self, w: u16) -> Option<u64> {
        let r = &self.s[self.i..];
        let hex = |h: &str| { let n = h.find(|c: char| !c.is_ascii_hexdigit()).unwrap_or(h.len()); u64::from_str_radix(&h[..n], 16).ok() };
        if let Some(h) = r.strip_prefix("f0x") { return hex(h); }
        let (neg, r) = match r.as_bytes().first()? { b'-' => (true, &r[1..]), b'+' => (false, &r[1..]), _ => return None };
        let (e, q, s) = match w { 32 => (0x7f80_0000u64, 0x0040_0000u64, 31), _ => (0x7ff0_0000_0000_0000, 0x0008_0000_0000_0000, 63) };
        let v = if r.starts_with("inf") { e }
            else if r.starts_with("qnan") { e | q }
            else if let Some(h) = r.strip_prefix("nan(0x") { e | q | hex(h)? }
            else if let Some(h) = r.strip_prefix("snan(0x") { e | hex(h)? }
            else { return None };
        Some(v | (neg as u64) << s)
    }
    fn constant(&mut self, t: &Ty) -> Op_ {
        self.ws();
        let c = self.peek();
        let k = |w: u16, v: u128| Op_::K(Val::B(Bv::k(w, v)));
        let agg = |v: Vec<Op_>, tys: &dyn Fn(usize) -> Ty| Op_::K(Val::A(Rc::new(v.into_iter().enumerate().map(|(i, x)| match x { Op_::K(v) => v, Op_::Undef(_) => zero(&tys(i)), _ => panic!() }).collect())));
        match c {
            b'@' => { self.i += 1; let n = self.sym(); k(64, self.m().sym_addr(&n) as u128) }
            b'f' | b'+' | b'-' if match t { Ty::F(w) => self.float_bits(*w).is_some(), _ => false } => {
                let bits = match t { Ty::F(w) => self.float_bits(*w).unwrap(), _ => 0 };
                let b = self.s.as_bytes();
                let word = |i: &mut usize| while *i < b.len() && b[*i].is_ascii_alphanumeric() { *i += 1; };
                let mut i = self.i + 1;
                word(&mut i);
                if i < b.len() && b[i] == b'(' { i += 1; word(&mut i); i += 1; }
                self.i = i;
                match t { Ty::F(32) => k(32, bits as u128), _ => k(64, bits as u128) }
            }
            b'+' | b'-' | b'0'..=b'9' => {
                let b = self.s.as_bytes();
                let s = self.i;
                self.i += 1;
                while self.i < b.len() && (b[self.i].is_ascii_alphanumeric() || matches!(b[self.i], b'.' | b'+' | b'-')) { self.i += 1; }
                let tx = &self.s[s..self.i];
                match t {
                    Ty::I(w) => { let v: i128 = tx.parse().unwrap_or_else(|_| tx.parse::<u128>().expect("int") as i128); k(*w, v as u128) }
                    Ty::F(w) => {
                        let d = if let Some(h) = tx.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).expect("hexfloat")) } else { tx.parse::<f64>().expect("float") };
                        if *w == 32 { k(32, (d as f32).to_bits() as u128) } else { k(64, d.to_bits() as u128) }
                    }
                    _ => panic!("number for {:?}", t),
                }
            }
            b'c' if self.s.as_bytes()[self.i + 1] == b'"' => {
                self.i += 2;
                let b = self.s.as_bytes();
                let mut v = vec![];
                while b[self.i] != b'"' {
                    if b[self.i] == b'\\' {
                        if b[self.i + 1] == b'\\' { v.push(b'\\'); self.i += 2; continue; }
                        v.push(u8::from_str_radix(&self.s[self.i + 1..self.i + 3], 16).unwrap());
                        self.i += 3;
                    } else { v.push(b[self.i]); self.i += 1; }
                }
                self.i += 1;
                Op_::K(Val::A(Rc::new(v.into_iter().map(|x| Val::B(Bv::k(8, x as u128))).collect())))
            }
            b'{' => { self.i += 1; let v = self.const_list('}'); let f = match t { Ty::Struct(f, _) => f.clone(), _ => panic!() }; agg(v, &|i| f[i].clone()) }
            b'[' => { self.i += 1; let v = self.const_list(']'); let e = match t { Ty::Arr(_, e) => e.clone(), _ => panic!() }; agg(v, &|_| (*e).clone()) }
            b'<' => {
                self.i += 1;
                self.ws();
                if self.peek() == b'{' { self.i += 1; let v = self.const_list('}'); self.expect('>'); let f = match t { Ty::Struct(f, _) => f.clone(), _ => panic!() }; agg(v, &|i| f[i].clone()) }
                else { let v = self.const_list('>'); let e = match t { Ty::Vec(_, e) => e.clone(), _ => panic!() }; agg(v, &|_| (*e).clone()) }
            }
            _ => {
                let w = self.word();
                match w {
                    "true" => k(1, 1),
                    "false" => k(1, 0),
                    "null" => k(64, 0),
                    "undef" | "poison" => Op_::Undef(t.clone()),
                    "zeroinitializer" | "none" => Op_::K(zero(t)),
                    "splat" => { self.expect('('); let (_, v) = self.tvc(); self.expect(')'); let n = match t { Ty::Vec(n, _) => *n, _ => panic!() }; let v = match v { Op_::K(v) => v, _ => panic!() }; Op_::K(Val::A(Rc::new((0..n).map(|_| v.clone()).collect()))) }
                    "getelementptr" => {
                        self.flags();
                        self.expect('(');
                        let bt = self.ty();
                        self.expect(',');
                        let (_, base) = self.tvc();
                        let mut off = match base { Op_::K(v) => v.bv().c as u64, Op_::Undef(_) => 0, _ => panic!() };
                        let mut idx = vec![];
                        while self.eat(',') { self.eat_word("inrange"); let (_, v) = self.tvc(); idx.push(match v { Op_::K(v) => { let b = v.bv(); sext128(b.w, b.c) as i64 } _ => panic!() }); }
                        self.expect(')');
                        let mut ct = bt;
                        for (n, ix) in idx.iter().enumerate() {
                            if n == 0 { off = off.wrapping_add((*ix as u64).wrapping_mul(ct.size())); continue; }
                            let nt = match &ct { Ty::Struct(f, _) => { let (o, _) = ct.layout(); off += o[*ix as usize]; f[*ix as usize].clone() } Ty::Arr(_, e) | Ty::Vec(_, e) => { off = off.wrapping_add((*ix as u64).wrapping_mul(e.size())); (**e).clone() } _ => panic!() };
                            ct = nt;
                        }
                        k(64, off as u128)
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "ptrtoaddr" | "zext" => {
                        self.expect('(');
                        let (_, v) = self.tvc();
                        if !self.eat_word("to") { panic!("to"); }
                        let dt = self.ty();
                        self.expect(')');
                        let v = match v { Op_::K(v) => v.bv(), _ => panic!() };
                        k(match dt { Ty::I(w) => w, _ => 64 }, v.c)
                    }
                    "sub" | "add" | "xor" | "and" | "or" | "mul" | "shl" | "lshr" => {
                        self.flags();
                        self.expect('(');
                        let (ty, a) = self.tvc(); self.expect(','); let (_, b) = self.tvc(); self.expect(')');
                        let (a, b) = match (a, b) { (Op_::K(a), Op_::K(b)) => (a.bv(), b.bv()), _ => panic!() };
                        let wd = match ty { Ty::I(w) => w, _ => 64 };
                        let o = match w { "sub" => Op::Sub, "add" => Op::Add, "xor" => Op::Xor, "and" => Op::And, "or" => Op::Or, "mul" => Op::Mul, "shl" => Op::Shl, _ => Op::LShr };
                        k(wd, eval_bin(o, wd, a.c, b.c, wd))
                    }
                    _ => panic!("constant {:?} type {:?} in {:?}", w, t, &self.s[..self.s.len().min(300)]),
                }
            }
        }
    }
    fn tvc(&mut self) -> (Ty, Op_) { let t = self.ty(); self.attrs(); let v = self.constant(&t); (t, v) }
    fn const_list(&mut self, end: char) -> Vec<Op_> {
        let mut v = vec![];
        loop { if self.eat(end) { return v; } let (t, x) = self.tvc(); v.push(match x { Op_::Undef(_) => Op_::K(zero(&t)), x => x }); self.eat(','); }
    }
    fn flags(&mut self) { loop { let w = self.peek_word(); if FLAGS.contains(&w) || w == "inrange" { self.i += w.len(); if self.peek() == b'(' { self.skip_paren(); } } else { return; } } }

    fn instr(&mut self) -> I {
        let mut w = self.word();
        if w == "tail" || w == "musttail" || w == "notail" { w = self.word(); }
        if let Some((_, o)) = BINS.iter().find(|x| x.0 == w) {
            self.flags();
            let t = self.ty();
            let a = self.value(&t);
            self.expect(',');
            let b = self.value(&t);
            return I::Bin(*o, t, a, b);
        }
        if let Some((_, c)) = CASTS.iter().find(|x| x.0 == w) {
            self.flags();
            let (t, a) = self.tv();
            if !self.eat_word("to") { panic!("cast to in {}", self.s); }
            let d = self.ty();
            return I::Cast(*c, t, d, a);
        }
        match w {
            "alloca" => {
                self.eat_word("inalloca");
                let t = self.ty();
                let mut cnt = None;
                let mut al = t.align();
                while self.eat(',') {
                    if self.eat_word("align") { al = self.num(); }
                    else if self.peek() == b'!' { break; }
                    else if self.eat_word("addrspace") { break; }
                    else { let (_, v) = self.tv(); cnt = Some(v); }
                }
                I::Alloca(t.size(), al, cnt)
            }
            "load" => {
                self.eat_word("atomic"); self.eat_word("volatile");
                let t = self.ty();
                self.expect(',');
                let (_, p) = self.tv();
                I::Load(t, p)
            }
            "store" => {
                self.eat_word("atomic"); self.eat_word("volatile");
                let (t, v) = self.tv();
                self.expect(',');
                let (_, p) = self.tv();
                I::Store(t, v, p)
            }
            "getelementptr" => {
                self.flags();
                let bt = self.ty();
                self.expect(',');
                let (_, base) = self.tv();
                let mut off = 0u64;
                let mut vars = vec![];
                let mut ct = bt;
                let mut n = 0;
                while self.eat(',') {
                    self.ws();
                    if self.peek() == b'!' { break; }
                    let (it, v) = self.tv();
                    let esz;
                    let mut next = None;
                    if n == 0 { esz = ct.size(); }
                    else {
                        match &ct {
                            Ty::Struct(f, _) => {
                                let ix = match &v { Op_::K(v) => v.bv().c as usize, _ => panic!() };
                                off = off.wrapping_add(ct.layout().0[ix]);
                                let nt = f[ix].clone();
                                ct = nt; n += 1;
                                continue;
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => { esz = e.size(); next = Some((**e).clone()); }
                            _ => panic!("gep {}", self.s),
                        }
                    }
                    match &v {
                        Op_::K(x) => { let b = x.bv(); off = off.wrapping_add((sext128(b.w, b.c) as u64).wrapping_mul(esz)); }
                        _ => { let wd = match it { Ty::I(w) => w, _ => 64 }; vars.push((v, esz, wd)); }
                    }
                    if let Some(t) = next { ct = t; }
                    n += 1;
                }
                I::Gep(base, off, vars)
            }
            "icmp" => {
                self.flags();
                let p = self.word();
                let p = PRED.iter().find(|x| **x == p).unwrap();
                let t = self.ty();
                let a = self.value(&t);
                self.expect(',');
                let b = self.value(&t);
                I::ICmp(p, t, a, b)
            }
            "fcmp" => {
                self.flags();
                let p = self.word().to_string();
                let t = self.ty();
                let a = self.value(&t);
                self.expect(',');
                let b = self.value(&t);
                I::FCmp(p, t, a, b)
            }
            "fneg" => { self.flags(); let (t, a) = self.tv(); I::FNeg(t, a) }
            "select" => {
                self.flags();
                let (_, c) = self.tv(); self.expect(',');
                let (_, a) = self.tv(); self.expect(',');
                let (_, b) = self.tv();
                I::Select(c, a, b)
            }
            "phi" => {
                self.flags();
                let t = self.ty();
                let mut v = vec![];
                loop {
                    self.ws();
                    if !self.eat('[') { break; }
                    let x = self.value(&t);
                    self.expect(','); self.ws(); self.expect('%');
                    let n = self.sym();
                    let l = *self.labels.unwrap().get(&n).unwrap_or_else(|| panic!("phi label {}", n));
                    self.expect(']');
                    v.push((l, x));
                    if !self.eat(',') { break; }
                }
                I::Phi(v)
            }
            "call" | "invoke" => {
                self.flags();
                let ret = self.ret_ty();
                self.ws();
                // optional function type for varargs
                if self.peek() == b'(' { self.skip_paren(); }
                self.ws();
                let callee = match self.peek() {
                    b'@' => { self.i += 1; Callee::Direct(self.sym().into()) }
                    b'%' => Callee::Ind(self.value(&Ty::Ptr)),
                    _ => {
                        if self.eat_word("asm") {
                            while self.peek() != b'(' || !self.s[..self.i].ends_with('"') { if self.peek() == b'"' { self.i += 1; while self.peek() != b'"' { self.i += 1; } } self.i += 1; }
                            Callee::Asm
                        } else { Callee::Ind(self.constant(&Ty::Ptr)) }
                    }
                };
                self.expect('(');
                let mut args = vec![];
                loop {
                    if self.eat(')') { break; }
                    let t = self.ty();
                    if t == Ty::Meta {
                        // metadata operand: skip
                        let mut d = 0;
                        loop { match self.peek() { b'(' => d += 1, b')' => { if d == 0 { break; } d -= 1; } b',' if d == 0 => break, _ => {} } self.i += 1; }
                    } else {
                        self.attrs();
                        let v = self.value(&t);
                        args.push((t, v));
                    }
                    self.eat(',');
                }
                let mut normal = None;
                if w == "invoke" {
                    let p = self.s.rfind(" to label ").unwrap();
                    self.i = p + 4;
                    normal = Some(self.label());
                }
                I::Call { callee, args, ret, normal }
            }
            "extractvalue" => {
                let (_, a) = self.tv();
                let mut ix = vec![];
                while self.eat(',') { self.ws(); if self.peek() == b'!' { break; } ix.push(self.num() as u32); }
                I::Extract(a, ix)
            }
            "insertvalue" => {
                let (t, a) = self.tv();
                let a = if let Op_::Undef(_) = a { Op_::K(zero(&t)) } else { a };
                self.expect(',');
                let (_, b) = self.tv();
                let mut ix = vec![];
                while self.eat(',') { self.ws(); if self.peek() == b'!' { break; } ix.push(self.num() as u32); }
                I::Insert(a, b, ix)
            }
            "extractelement" => { let (_, a) = self.tv(); self.expect(','); let (_, b) = self.tv(); I::ExtElem(a, b) }
            "insertelement" => { let (_, a) = self.tv(); self.expect(','); let (_, b) = self.tv(); self.expect(','); let (_, c) = self.tv(); I::InsElem(a, b, c) }
            "shufflevector" => {
                let (_, a) = self.tv(); self.expect(','); let (_, b) = self.tv(); self.expect(',');
                let (t, m) = self.tv();
                let n = match t { Ty::Vec(n, _) => n as usize, _ => panic!() };
                let mk = match m { Op_::K(Val::A(v)) => v.iter().map(|x| x.bv().c as u32).collect(), Op_::Undef(_) => vec![0; n], _ => panic!() };
                I::Shuffle(a, b, mk)
            }
            "freeze" => { let (_, a) = self.tv(); I::Freeze(a) }
            "atomicrmw" => {
                self.eat_word("volatile");
                let o = self.word().to_string();
                let (_, p) = self.tv();
                self.expect(',');
                let (t, v) = self.tv();
                I::Rmw(o, t, p, v)
            }
            "cmpxchg" => {
                self.eat_word("weak"); self.eat_word("volatile");
                let (_, p) = self.tv(); self.expect(',');
                let (t, c) = self.tv(); self.expect(',');
                let (_, n) = self.tv();
                I::CmpXchg(t, p, c, n)
            }
            "fence" => I::Fence,
            "br" => {
                if self.peek_word() == "label" { return I::Br(self.label()); }
                let (_, c) = self.tv(); self.expect(',');
                let a = self.label(); self.expect(',');
                let b = self.label();
                I::CondBr(c, a, b)
            }
            "switch" => {
                let (t, v) = self.tv(); self.expect(',');
                let d = self.label();
                self.expect('[');
                let mut cs = vec![];
                loop {
                    if self.eat(']') { break; }
                    let (_, k) = self.tvc();
                    self.expect(',');
                    let l = self.label();
                    cs.push((match k { Op_::K(v) => v.bv().c, _ => panic!() }, l));
                }
                I::Switch(t, v, d, cs)
            }
            "ret" => { let t = self.ty(); if t == Ty::Void { I::Ret(None) } else { self.attrs(); let v = self.value(&t); I::Ret(Some((t, v))) } }
            "unreachable" => I::Unreachable,
            "landingpad" => I::Landingpad,
            "resume" => I::Resume,
            _ => panic!("instruction {:?} in {:?}", w, self.s),
        }
    }
}
