//! What the engine itself must be able to do: `good` harnesses hold, `bad` ones do not.
use crate::sym::*;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet, VecDeque};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, OnceLock, RwLock};

fn below(n: usize) -> usize { let k = int(); assume(k <= n); k }
fn x() -> f64 { real_in(-8.0, 8.0) }

#[no_mangle]
pub extern "C-unwind" fn c99_good_f32() {
    let a = x();
    let b = a as f32 as f64;
    le(b - a, 1e-5, "single precision is near");
    le(a - b, 1e-5, "single precision is near");
    eq(b as f32 as f64, b, "idempotent");
}
#[no_mangle]
pub extern "C-unwind" fn c99_bad_f32() {
    let a = x();
    eq(a as f32 as f64, a, "single precision is exact");
}
#[no_mangle]
pub extern "C-unwind" fn c99_bad_f32_sum() {
    let v = vec![x(), real(), real()];
    let s: f32 = v.iter().map(|x| *x as f32).sum();
    eq(s as f64, v[0] + v[1] + v[2], "sum in single precision");
}
#[no_mangle]
pub extern "C-unwind" fn c99_bad_f32_vec() {
    let v = vec![x(), real()];
    let w: Vec<f32> = v.iter().map(|x| *x as f32 * 2.0f32.sqrt()).collect();
    eq(w[1] as f64 * 2.0f64.sqrt(), 2.0 * v[1], "vector in single precision");
}
#[no_mangle]
pub extern "C-unwind" fn c99_bad_tiny() {
    let a = x();
    let b = if a.abs() < 1e-12 { 0.0 } else { a };
    eq(b, a, "tiny values are kept");
}
#[no_mangle]
pub extern "C-unwind" fn c99_bad_tiny2() {
    let a = x();
    let b = real();
    let p = a * b;
    let p = if p.abs() < f64::EPSILON { 0.0 } else { p };
    eq(p + 0.5 - 0.5, a * b, "tiny products are kept");
}
#[no_mangle]
pub extern "C-unwind" fn c99_bad_huge() {
    let a = real();
    let b = if a.abs() > 1e300 { 0.0 } else { a };
    eq(b, a, "huge values are kept");
}
#[no_mangle]
pub extern "C-unwind" fn c99_good_ops() {
    let (a, b) = (x(), real_in(-8.0, 8.0));
    eq(a.mul_add(b, 1.0), a * b + 1.0, "mul_add");
    eq(a.hypot(b) * a.hypot(b), a * a + b * b, "hypot");
    eq(a.clamp(-1.0, 1.0), if a < -1.0 { -1.0 } else if a > 1.0 { 1.0 } else { a }, "clamp");
    eq(a.abs().copysign(b).abs(), a.abs(), "copysign");
    eq(a.signum() * a.abs(), a, "signum");
    if b > 0.5 {
        eq(b.recip() * b, 1.0, "recip");
        let r = a.rem_euclid(b);
        ck(r >= 0.0 && r < b, "rem_euclid");
    }
    eq(a.max(b) + a.min(b), a + b, "max min");
    eq(a.floor() + a.fract().abs(), if a >= 0.0 || a.fract() == 0.0 { a } else { a.floor() - a.fract() }, "floor fract");
    eq(a.powi(3), a * a * a, "powi");
    eq(a.powi(2).sqrt(), a.abs(), "sqrt");
    eq(a.to_degrees().to_radians(), a, "degrees");
    ck(a.total_cmp(&b) == b.total_cmp(&a).reverse(), "total_cmp");
    ck(a.partial_cmp(&b) == b.partial_cmp(&a).map(|o| o.reverse()), "partial_cmp");
}
#[no_mangle]
pub extern "C-unwind" fn c99_good_cast() {
    let a = real_in(-30.0, 30.0);
    ck(a as u8 as f64 <= 255.0, "u8");
    ck((a as i8 as i64) >= -128, "i8");
    ck((a.round() as i64 - a as i64).abs() <= 1, "i64");
    ck((a as usize as f64) <= a.max(0.0), "usize");
}
static COUNT: AtomicUsize = AtomicUsize::new(0);
static CLOCK: AtomicU64 = AtomicU64::new(0);
static TABLE: Mutex<Vec<f64>> = Mutex::new(Vec::new());
static ONCE: OnceLock<Vec<usize>> = OnceLock::new();
thread_local! { static LOCAL: Cell<usize> = const { Cell::new(0) }; static BUF: RefCell<Vec<f64>> = RefCell::new(Vec::new()); }
#[no_mangle]
pub extern "C-unwind" fn c99_bad_counter() {
    let mut last = 0;
    for _ in 0..5 { last = COUNT.fetch_add(1, Ordering::SeqCst); }
    ck(last != 4, "counter");
}
#[no_mangle]
pub extern "C-unwind" fn c99_good_statics() {
    CLOCK.store(3, Ordering::Relaxed);
    ck(CLOCK.compare_exchange(3, 5, Ordering::SeqCst, Ordering::SeqCst).is_ok(), "cas");
    ck(CLOCK.fetch_max(9, Ordering::SeqCst) == 5 && CLOCK.swap(1, Ordering::SeqCst) == 9, "swap");
    { let mut t = TABLE.lock().unwrap(); t.push(x()); t.push(1.0); }
    ck(TABLE.lock().unwrap().len() >= 2, "mutex");
    ck(ONCE.get_or_init(|| vec![1, 2, 3]).len() == 3, "once");
    LOCAL.with(|c| c.set(c.get() + 1));
    ck(LOCAL.with(|c| c.get()) >= 1, "local");
    BUF.with(|b| { b.borrow_mut().clear(); b.borrow_mut().push(2.0) });
    ck(BUF.with(|b| b.borrow().len()) == 1, "local buffer");
    let a = Arc::new(RwLock::new(3));
    *a.write().unwrap() += 1;
    ck(*a.read().unwrap() == 4, "rwlock");
    let r = Rc::new(RefCell::new(vec![1]));
    r.borrow_mut().push(2);
    ck(Rc::strong_count(&r.clone()) == 2 && r.borrow().len() == 2, "rc");
}
#[no_mangle]
pub extern "C-unwind" fn c99_good_collections() {
    let n = choose(4) as usize;
    let k = below(6);
    let mut b = BTreeMap::new();
    for i in 0..n { *b.entry(i * 7 % 5).or_insert(0.0) += x(); }
    ck(b.len() <= n && b.keys().zip(b.keys().skip(1)).all(|(a, c)| a < c), "btreemap");
    let s: BTreeSet<usize> = (0..n).chain(Some(k)).collect();
    ck(s.contains(&k), "btreeset");
    let h: HashMap<usize, f64> = (0..n).map(|i| (i, i as f64)).collect();
    ck(h.len() == n, "hashmap");
    let h: HashSet<usize> = (0..n).chain(Some(k)).collect();
    ck(h.contains(&k) && h.len() == n + (k >= n) as usize, "hashset");
    let mut v: Vec<usize> = vec![k, 3, 1, n];
    v.sort();
    ck(v.windows(2).all(|w| w[0] <= w[1]), "sort");
    v.sort_unstable_by(|a, b| b.cmp(a));
    v.dedup();
    ck(v.windows(2).all(|w| w[0] > w[1]), "dedup");
    ck(v.binary_search_by(|p| k.cmp(p)).is_ok(), "binary search");
    let mut q: VecDeque<usize> = v.iter().cloned().collect();
    q.push_front(k);
    q.rotate_left(1);
    ck(q.back() == Some(&k), "deque");
    let mut q = BinaryHeap::from(v);
    ck(q.pop().unwrap() >= k, "heap");
    let mut f = vec![x(), real(), real()];
    f.sort_by(|a, b| a.partial_cmp(b).unwrap());
    le(f[0], f[1], "float sort");
    le(f[1], f[2], "float sort");
    let mut a = [0.0; 3];
    a.copy_from_slice(&f);
    f.retain(|v| *v > 0.0);
    f.extend_from_slice(&a);
    f.truncate(2);
    f.insert(1, 3.0);
    f.swap(0, 1);
    eq(f[0], 3.0, "swap");
    f.drain(..1);
    ck(f.len() == 2, "drain");
    let t: Vec<Vec<f64>> = a.chunks(2).map(|c| c.to_vec()).collect();
    ck(t.len() == 2 && t[1].len() == 1, "chunks");
    eq(a.iter().rev().fold(0.0, |s, v| s + v), a.iter().sum::<f64>(), "fold");
    eq(a.iter().cloned().fold(f64::NEG_INFINITY, f64::max), a[2], "max");
    ck(a.iter().position(|v| *v == a[2]).is_some(), "position");
    ck(a.iter().enumerate().max_by(|p, q| p.1.partial_cmp(q.1).unwrap()).is_some(), "max_by");
}
#[no_mangle]
pub extern "C-unwind" fn c99_good_ints() {
    let k = below(1 << 20);
    ck(k.pow(2) == k * k, "pow");
    ck(k.checked_add(1) == Some(k + 1), "checked");
    ck(k.wrapping_sub(1).wrapping_add(1) == k, "wrapping");
    ck(k.saturating_sub(1 << 21) == 0, "saturating");
    ck(k.rotate_left(7).rotate_right(7) == k && k.swap_bytes().swap_bytes() == k, "bits");
    ck(k.leading_zeros() + (64 - k.leading_zeros()) == 64 && k.is_power_of_two() == (k.count_ones() == 1), "count");
    ck(k as u32 as usize == k && (k as u8 as usize) <= 255, "cast");
    ck(k.abs_diff(5) == if k > 5 { k - 5 } else { 5 - k }, "abs_diff");
    ck((k / 7) * 7 + k % 7 == k, "div");
    ck((k as u128 * 3) as usize == k * 3, "u128");
    let i = k as i64 - 500;
    ck(i.rem_euclid(7) >= 0 && i.div_euclid(7) * 7 + i.rem_euclid(7) == i, "euclid");
    ck(i.signum() * i.abs() == i, "signum");
    ck(k.next_multiple_of(4) % 4 == 0 , "next multiple");
}
#[no_mangle]
pub extern "C-unwind" fn c99_good_fmt() {
    let s = format!("{} {:?}", 3, vec![1, 2]);
    ck(s.len() < 100, "format");
    let n: Result<usize, _> = "17".parse();
    ck(n.is_ok(), "parse");
    let t: String = "abc".chars().rev().collect();
    ck(t == "cba", "string");
    let d: Box<dyn Fn(f64) -> f64> = Box::new(move |v| v + 1.0);
    eq(d(1.0), 2.0, "box dyn");
    let r = catch(|| { let v: Vec<usize> = Vec::new(); v[choose(2) as usize] });
    ck(r.is_none(), "index panics");
}
#[no_mangle]
pub extern "C-unwind" fn c99_good_fp_f32() {
    let a = real_in(-8.0, 8.0);
    let b = a as f32 as f64;
    ck(b as f32 as f64 == b, "idempotent");
    ck((a.to_bits() >> 63 == 1) == a.is_sign_negative(), "bits");
}
#[no_mangle]
pub extern "C-unwind" fn c99_bad_fp_f32() {
    let a = real_in(-8.0, 8.0);
    ck(a as f32 as f64 == a, "exact");
}
#[no_mangle]
pub extern "C-unwind" fn c99_bad_bits() {
    let a = real_in(-8.0, 8.0);
    let b = f64::from_bits(a.to_bits() & !0xffff_ffff);
    eq(a, b, "exact");
}
#[no_mangle]
pub extern "C-unwind" fn c99_good_bits() {
    let a = real_in(-8.0, 8.0);
    ck(a.is_sign_negative() == (a < 0.0), "sign");
    ck(a.to_bits() == a.to_bits() && ((a + 1.0).to_bits() == 2.0f64.to_bits()) == (a == 1.0), "bits");
}
#[no_mangle]
pub extern "C-unwind" fn c99_good_rounded() {
    let a = real();
    let k = std::f64::consts::PI / 3.0;
    eq(k * a, a * std::f64::consts::PI / 3.0, "rounded");
    le(k * a, a * std::f64::consts::PI / 3.0, "rounded");
}
