//! C12: the Fourier basis consists of the cosines of every coefficient vector
use crate::{common::*, sym::*, zoo::*};
use lfa::basis::*;
use spaces::Space;
use std::f64::consts::PI;

fn check(k: usize, d: usize) {
    let lim = limits(d);
    let x = reals(d);
    let b = Fourier::new(k as u8, lim.clone());
    let got = vals(&b.project(&x[..]).unwrap());
    let want = tuples(d, k);
    ck(got.len() == want.len(), "one feature per coefficient vector");
    ck(b.dim() == spaces::Dim::Finite(want.len()), "the dimension is the number of coefficient vectors");
    let s: Vec<f64> = x.iter().zip(lim.iter()).map(|(&v, &(l, u))| (v - l) / (u - l)).collect();
    for (q, g) in want.iter().zip(got.iter()) {
        let a = q.iter().zip(s.iter()).fold(0.0, |a, (&c, &v)| a + c as f64 * v);
        eq(*g, (PI * a).cos(), "the feature is the cosine of its coefficients");
    }
}

#[no_mangle]
pub extern "C-unwind" fn c12_one() { check(pick(1, bound(6, 12)), 1) }
#[no_mangle]
pub extern "C-unwind" fn c12_two() { check(pick(1, bound(3, 4)), 2) }
#[no_mangle]
pub extern "C-unwind" fn c12_three() { check(pick(1, bound(2, 2)), 3) }

fn fixed(k: usize, lim: Vec<(f64, f64)>) {
    let d = lim.len();
    let x = reals(d);
    let b = Fourier::new(k as u8, lim.clone());
    let got = vals(&b.project(&x[..]).unwrap());
    let want = tuples(d, k);
    ck(got.len() == want.len(), "one feature per coefficient vector");
    ck(b.dim() == spaces::Dim::Finite(want.len()), "the dimension is the number of coefficient vectors");
    let s: Vec<f64> = x.iter().zip(lim.iter()).map(|(&v, &(l, u))| (v - l) / (u - l)).collect();
    for (q, g) in want.iter().zip(got.iter()) {
        let a = q.iter().zip(s.iter()).fold(0.0, |a, (&c, &v)| a + c as f64 * v);
        eq(*g, (PI * a).cos(), "the feature is the cosine of its coefficients");
    }
}
#[no_mangle]
pub extern "C-unwind" fn c12_high() { fixed([9, 16, 17, 33, 64, 128, 200, 255][choose(8)], wide_limits(1)) }
#[no_mangle]
pub extern "C-unwind" fn c12_two_high() { fixed([4, 5, 8, 9, 17][choose(5)], wide_limits(2)) }
#[no_mangle]
pub extern "C-unwind" fn c12_many_dimensions() {
    let (d, k) = [(3, 3), (4, 1), (4, 2), (5, 1), (6, 1), (7, 1)][choose(6)];
    fixed(k, wide_limits(d))
}
#[no_mangle]
pub extern "C-unwind" fn c12_odd_limits() {
    let l = [(0.0, 1.0), (-8.0, -4.0), (0.0, 1048576.0), (-0.0009765625, 0.0009765625), (1048576.0, 1048577.0)][choose(5)];
    fixed(pick(1, 3), vec![l])
}
#[no_mangle]
pub extern "C-unwind" fn c12_backward_limits() {
    let d = pick(1, 2);
    fixed(pick(1, if d == 1 { bound(3, 5) } else { 1 }), backward_limits(d))
}
#[no_mangle]
pub extern "C-unwind" fn c12_order_nought() { fixed(0, limits(pick(1, bound(2, 3)))) }
#[no_mangle]
pub extern "C-unwind" fn c12_unknown_length() {
    // inputs from an iterator that does not know its length
    let (d, k) = [(1, 3), (2, 2), (3, 1), (5, 1)][choose(4)];
    let b = Fourier::new(k as u8, wide_limits(d));
    let x = reals(d);
    let want = vals(&b.project(&x[..]).unwrap());
    denotes(&b.project(drip(&x)).unwrap(), &want, "the input may come from any iterator");
    denotes(&b.project(x.clone()).unwrap(), &want, "the input may come by value");
    denotes(&b.project(x.iter().chain(None)).unwrap(), &want, "the input may come from any iterator");
}
