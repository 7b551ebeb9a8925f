//! Symbolic inputs and assertions.  The engine gives these functions their
//! meaning; in a native replay they read recorded values.
use std::ffi::c_void;

extern "C" {
    fn sym_f64() -> f64;
    fn sym_f64_in(lo: f64, hi: f64) -> f64;
    fn sym_u64() -> u64;
    fn sym_choose(n: u64) -> u64;
    fn sym_assume(c: bool);
    fn sym_assert(c: bool, p: *const u8, n: usize);
    fn sym_assert_eq(a: f64, b: f64, p: *const u8, n: usize);
    fn sym_assert_le(a: f64, b: f64, p: *const u8, n: usize);
    fn sym_tier() -> i32;
}

#[no_mangle]
#[inline(never)]
pub extern "C-unwind" fn sym_catch(f: extern "C-unwind" fn(*mut c_void), d: *mut c_void) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(d))).is_err()
}

/// any real (in fp harnesses: any double)
pub fn real() -> f64 { unsafe { sym_f64() } }
/// any real with lo <= x <= hi
pub fn real_in(lo: f64, hi: f64) -> f64 { unsafe { sym_f64_in(lo, hi) } }
/// any integer
pub fn int() -> usize { unsafe { sym_u64() as usize } }
/// any of 0..n, one path each
pub fn choose(n: usize) -> usize { unsafe { sym_choose(n as u64) as usize } }
/// any of lo..=hi, one path each
pub fn pick(lo: usize, hi: usize) -> usize { lo + choose(hi + 1 - lo) }
pub fn flip() -> bool { choose(2) == 1 }
pub fn assume(c: bool) { unsafe { sym_assume(c) } }
pub fn ck(c: bool, m: &str) { unsafe { sym_assert(c, m.as_ptr(), m.len()) } }
pub fn eq(a: f64, b: f64, m: &str) { unsafe { sym_assert_eq(a, b, m.as_ptr(), m.len()) } }
pub fn le(a: f64, b: f64, m: &str) { unsafe { sym_assert_le(a, b, m.as_ptr(), m.len()) } }
pub fn thorough() -> bool { unsafe { sym_tier() == 1 } }
/// bound: q in the quick tier, t in the thorough tier
pub fn bound(q: usize, t: usize) -> usize { if thorough() { t } else { q } }
/// non-zero real
pub fn nonzero() -> f64 {
    let x = real();
    assume(x != 0.0);
    x
}
/// strictly positive real
pub fn pos() -> f64 {
    let x = real();
    assume(x > 0.0);
    x
}
/// one of many symbolic entries: the first few are any real, the others keep
/// their sign and some distance from zero, so that code which asks about that
/// does not split into a path for every combination
pub fn lane(i: usize) -> f64 {
    if i < 4 {
        real()
    } else if i % 3 == 1 {
        real_in(-1e9, -1e-3)
    } else {
        real_in(1e-3, 1e9)
    }
}
pub fn reals(n: usize) -> Vec<f64> { (0..n).map(|i| if n <= 6 { real() } else { lane(i) }).collect() }
pub fn reals_in(n: usize, lo: f64, hi: f64) -> Vec<f64> { (0..n).map(|_| real_in(lo, hi)).collect() }

/// run `f`; None if it panics
pub fn catch<R, F: FnOnce() -> R>(f: F) -> Option<R> {
    struct D<F, R> {
        f: Option<F>,
        r: Option<R>,
    }
    extern "C-unwind" fn go<R, F: FnOnce() -> R>(p: *mut c_void) {
        let d = unsafe { &mut *(p as *mut D<F, R>) };
        let f = d.f.take().unwrap();
        d.r = Some(f());
    }
    let mut d: D<F, R> = D { f: Some(f), r: None };
    let p = sym_catch(go::<R, F>, &mut d as *mut _ as *mut c_void);
    if p {
        None
    } else {
        d.r
    }
}

/// element-wise equality of two sequences
pub fn eqs(a: &[f64], b: &[f64], m: &str) {
    ck(a.len() == b.len(), m);
    for i in 0..a.len() {
        eq(a[i], b[i], m);
    }
}
