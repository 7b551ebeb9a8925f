//! C11: the Chebyshev basis evaluates Chebyshev polynomials of the rescaled input
use crate::{common::*, sym::*, zoo::*};
use lfa::basis::*;
use spaces::Space;

/// T_n by its recurrence
fn t(n: usize, x: f64) -> f64 {
    let (mut a, mut b) = (1.0, x);
    for _ in 0..n {
        let c = 2.0 * x * b - a;
        a = b;
        b = c;
    }
    a
}

fn check(k: usize, lim: Vec<(f64, f64)>, zeroth: bool) {
    let d = lim.len();
    let x = reals(d);
    let b = Chebyshev::new(k as u8, lim.clone());
    let b = if zeroth { b.with_zeroth() } else { b };
    let got = vals(&b.project(&x[..]).unwrap());
    let mut want = tuples(d, k);
    if zeroth {
        want.push(vec![0; d]);
    }
    ck(got.len() == want.len(), "one feature per order tuple");
    ck(b.dim() == spaces::Dim::Finite(want.len()), "the dimension is the number of tuples");
    let s: Vec<f64> = x.iter().zip(lim.iter()).map(|(&v, &(l, u))| 2.0 * (v - l) / (u - l) - 1.0).collect();
    for (q, g) in want.iter().zip(got.iter()) {
        let m = q.iter().zip(s.iter()).fold(1.0, |m, (&e, &v)| m * t(e, v));
        eq(*g, m, "the feature is the product of its Chebyshev polynomials");
    }
}

#[no_mangle]
pub extern "C-unwind" fn c11_orders() { check(pick(1, 11), vec![(-1.0, 1.0)], flip()) }
#[no_mangle]
pub extern "C-unwind" fn c11_asymmetric() { check(pick(1, bound(5, 11)), vec![(2.0, 6.0)], false) }
#[no_mangle]
pub extern "C-unwind" fn c11_limits() { check(pick(1, bound(4, 6)), limits(1), flip()) }
#[no_mangle]
pub extern "C-unwind" fn c11_two() { check(pick(1, bound(2, 3)), limits(2), flip()) }
#[no_mangle]
pub extern "C-unwind" fn c11_two_high() { check(bound(3, 5), vec![(-1.0, 1.0), (0.0, 4.0)], false) }
#[no_mangle]
pub extern "C-unwind" fn c11_three() { check(1, limits(3), flip()) }
#[no_mangle]
pub extern "C-unwind" fn c11_refused() {
    let k = 12 + choose(bound(3, 244));
    let l = limits(1);
    ck(catch(|| Chebyshev::new(k as u8, l)).is_none(), "orders above 11 are refused");
}
#[no_mangle]
pub extern "C-unwind" fn c11_many_dimensions() {
    let (d, k) = [(4, 1), (5, 1), (3, 2), (6, 1), (4, 2)][choose(5)];
    check(k, wide_limits(d), flip())
}
#[no_mangle]
pub extern "C-unwind" fn c11_two_orders() { check(pick(3, bound(6, 11)), wide_limits(2), flip()) }
#[no_mangle]
pub extern "C-unwind" fn c11_high_limits() {
    // high orders, limits of various kinds
    let l = [(0.0, 1.0), (-8.0, -4.0), (0.0, 1048576.0), (-0.0009765625, 0.0009765625), (1048576.0, 1048577.0)][choose(5)];
    check([5, 8, 11][choose(3)], vec![l], flip())
}
#[no_mangle]
pub extern "C-unwind" fn c11_backward_limits() {
    // limits given the other way round still name the inputs that map to -1 and 1
    let d = pick(1, 2);
    check(pick(1, if d == 1 { bound(3, 5) } else { 1 }), backward_limits(d), false)
}
#[no_mangle]
pub extern "C-unwind" fn c11_order_nought() { check(0, limits(pick(1, bound(2, 3))), flip()) }
#[no_mangle]
pub extern "C-unwind" fn c11_unknown_length() {
    // inputs from an iterator that does not know its length
    let (d, k) = [(1, 3), (2, 2), (3, 1), (5, 1)][choose(4)];
    let b = Chebyshev::new(k as u8, wide_limits(d));
    let b = if flip() { b.with_zeroth() } else { b };
    let x = reals(d);
    let want = vals(&b.project(&x[..]).unwrap());
    denotes(&b.project(drip(&x)).unwrap(), &want, "the input may come from any iterator");
    denotes(&b.project(x.clone()).unwrap(), &want, "the input may come by value");
    denotes(&b.project(x.iter().chain(None)).unwrap(), &want, "the input may come from any iterator");
}
