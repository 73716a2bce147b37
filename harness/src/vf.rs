//! Intrinsics understood by the symbolic executor. In a native replay build they read a counterexample file.
#[cfg(not(feature = "replay"))]
mod imp {
    extern "C" {
        fn __vf_sym(p: *mut u8, n: usize, name: *const u8, nl: usize);
        fn __vf_pick(n: usize, name: *const u8, nl: usize) -> usize;
        fn __vf_assume(c: bool);
        fn __vf_check(c: bool, name: *const u8, nl: usize);
        fn __vf_check_eq(a: *const u8, b: *const u8, n: usize, name: *const u8, nl: usize);
        fn __vf_reach(name: *const u8, nl: usize);
        fn __vf_merge(on: usize);
        fn __vf_mux(n: usize);
        fn __vf_skip();
        fn __vf_panics_ok(on: usize);
        fn __vf_concretize(v: usize) -> usize;
        fn __vf_log(name: *const u8, nl: usize, v: u64);
    }
    #[inline(always)]
    pub fn sym(b: &mut [u8], name: &str) { unsafe { __vf_sym(b.as_mut_ptr(), b.len(), name.as_ptr(), name.len()) } }
    #[inline(always)]
    pub fn pick(n: usize, name: &str) -> usize { unsafe { __vf_pick(n, name.as_ptr(), name.len()) } }
    #[inline(always)]
    pub fn assume(c: bool) { unsafe { __vf_assume(c) } }
    #[inline(always)]
    pub fn check(c: bool, name: &str) { unsafe { __vf_check(c, name.as_ptr(), name.len()) } }
    #[inline(always)]
    pub fn check_eq(a: &[u8], b: &[u8], name: &str) {
        check(a.len() == b.len(), name);
        unsafe { __vf_check_eq(a.as_ptr(), b.as_ptr(), a.len(), name.as_ptr(), name.len()) }
    }
    #[inline(always)]
    pub fn reach(name: &str) { unsafe { __vf_reach(name.as_ptr(), name.len()) } }
    #[inline(always)]
    pub fn merge(on: bool) { unsafe { __vf_merge(on as usize) } }
    #[inline(always)]
    pub fn mux(n: usize) { unsafe { __vf_mux(n) } }
    #[inline(always)]
    pub fn skip() { unsafe { __vf_skip() } }
    #[inline(always)]
    pub fn panics_ok(on: bool) { unsafe { __vf_panics_ok(on as usize) } }
    #[inline(always)]
    pub fn concretize(v: usize) -> usize { unsafe { __vf_concretize(v) } }
    #[inline(always)]
    pub fn log(name: &str, v: u64) { unsafe { __vf_log(name.as_ptr(), name.len(), v) } }
}

#[cfg(feature = "replay")]
mod imp {
    use std::collections::HashMap;
    use std::sync::Mutex;
    pub struct Rep { pub inputs: HashMap<String, Vec<u8>>, pub occ: HashMap<String, u32>, pub panics_ok: bool }
    pub static REP: Mutex<Option<Rep>> = Mutex::new(None);
    pub const MARK_FAIL: i32 = 10;
    pub const MARK_SKIP: i32 = 11;
    fn take(name: &str) -> Option<Vec<u8>> {
        let mut g = REP.lock().unwrap();
        let r = g.as_mut().unwrap();
        let k = r.occ.entry(name.to_string()).or_insert(0);
        let full = format!("{}#{}", name, k);
        *k += 1;
        r.inputs.get(&full).cloned()
    }
    pub fn sym(b: &mut [u8], name: &str) {
        b.fill(0);
        if let Some(v) = take(name) { let n = b.len().min(v.len()); b[..n].copy_from_slice(&v[..n]); }
    }
    pub fn pick(n: usize, name: &str) -> usize {
        let mut k = 0usize;
        if let Some(v) = take(name) { for (i, b) in v.iter().enumerate().take(8) { k |= (*b as usize) << (8 * i); } }
        if k < n { k } else { 0 }
    }
    pub fn assume(c: bool) { if !c { println!("REPLAY assume-failed"); std::process::exit(MARK_SKIP) } }
    pub fn check(c: bool, name: &str) { if !c { println!("REPLAY failed {}", name); std::process::exit(MARK_FAIL) } }
    pub fn check_eq(a: &[u8], b: &[u8], name: &str) {
        if a != b { println!("REPLAY failed {}: {:02x?} != {:02x?}", name, a, b); std::process::exit(MARK_FAIL) }
    }
    pub fn reach(_: &str) {}
    pub fn merge(_: bool) {}
    pub fn mux(_: usize) {}
    pub fn skip() { println!("REPLAY skipped"); std::process::exit(MARK_SKIP) }
    pub fn panics_ok(on: bool) { REP.lock().unwrap().as_mut().unwrap().panics_ok = on; }
    pub fn concretize(v: usize) -> usize { v }
    pub fn log(n: &str, v: u64) { println!("log {} {:#x}", n, v); }
}
pub use imp::*;

macro_rules! int { ($f:ident, $t:ty) => { #[inline(always)] pub fn $f(name: &str) -> $t { let mut b = [0u8; size_of::<$t>()]; sym(&mut b, name); <$t>::from_le_bytes(b) } } }
int!(u8_, u8);
int!(u16_, u16);
int!(u32_, u32);
int!(u64_, u64);
int!(usize_, usize);
#[inline(always)]
pub fn arr<const N: usize>(name: &str) -> [u8; N] { let mut b = [0u8; N]; sym(&mut b, name); b }
#[inline(always)]
pub fn words<const N: usize>(name: &str) -> [u64; N] {
    let mut w = [0u64; N];
    for i in 0..N { let mut b = [0u8; 8]; sym(&mut b, name); w[i] = u64::from_le_bytes(b); }
    w
}
#[inline(always)]
pub fn boolean(name: &str) -> bool { let b = u8_(name); assume(b < 2); b == 1 }
#[inline(always)]
pub fn check_words(a: &[u64], b: &[u64], name: &str) {
    check(a.len() == b.len(), name);
    let (pa, pb) = unsafe { (core::slice::from_raw_parts(a.as_ptr() as *const u8, a.len() * 8), core::slice::from_raw_parts(b.as_ptr() as *const u8, b.len() * 8)) };
    check_eq(pa, pb, name);
}
