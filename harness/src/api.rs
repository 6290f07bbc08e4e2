//! The symbolic interface of the harnesses. In the IR build these are externals that the
//! symbolic executor implements; in the native replay build they read a concrete model.
#![allow(dead_code)]
extern "C-unwind" {
    fn sym_bytes(p: *mut u8, n: usize);
    fn sym_assume(c: bool);
    fn sym_check(c: bool, id: u32);
    fn sym_check_eq(p: *const u8, q: *const u8, n: usize, id: u32);
    fn sym_reach(id: u32);
    fn sym_observe(p: *const u8, n: usize);
    fn sym_concretize(v: u64) -> u64;
}
/// check id = 10000 * (number in the file name) + line
#[track_caller]
fn id() -> u32 {
    let l = core::panic::Location::caller();
    let f = l.file().as_bytes();
    let n = f.len();
    let d = |c: u8| if c.is_ascii_digit() { (c - b'0') as u32 } else { 9 };
    (d(f[n - 5]) * 10 + d(f[n - 4])) * 10000 + l.line()
}
pub fn fill(b: &mut [u8]) {
    unsafe { sym_bytes(b.as_mut_ptr(), b.len()) }
}
pub fn sym<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    fill(&mut b);
    b
}
pub fn symv(n: usize) -> Vec<u8> {
    let mut b = vec![0u8; n];
    fill(&mut b);
    b
}
pub fn s8() -> u8 {
    sym::<1>()[0]
}
pub fn s16() -> u16 {
    u16::from_le_bytes(sym())
}
pub fn s32() -> u32 {
    u32::from_le_bytes(sym())
}
pub fn si16() -> i16 {
    i16::from_le_bytes(sym())
}
pub fn sbool() -> bool {
    s8() & 1 != 0
}
/// a symbolic choice out of 0..n, one path per value
pub fn pick(n: u8) -> usize {
    let x = s8();
    assume(x < n);
    conc(x as u64) as usize
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
pub fn conc(v: u64) -> u64 {
    unsafe { sym_concretize(v) }
}
#[track_caller]
pub fn ck(c: bool) {
    let i = id();
    unsafe { sym_check(c, i) }
}
#[track_caller]
pub fn ckeq(a: &[u8], b: &[u8]) {
    let i = id();
    unsafe {
        sym_check(a.len() == b.len(), i);
        if a.len() == b.len() {
            sym_check_eq(a.as_ptr(), b.as_ptr(), a.len(), i);
        }
    }
}
/// this point must not be reached
#[track_caller]
pub fn never() {
    ck(false)
}
pub fn reach(n: u32) {
    unsafe { sym_reach(n) }
}
pub fn obs(b: &[u8]) {
    unsafe { sym_observe(b.as_ptr(), b.len()) }
}
/// `Some` exactly when expected, and the contained values compare equal
#[track_caller]
pub fn ckopt<T>(a: &Option<T>, want: bool) -> bool {
    let i = id();
    unsafe { sym_check(a.is_some() == want, i) };
    a.is_some() && want
}
