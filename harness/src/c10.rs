//! C10: the polynomial basis consists of every monomial up to the order
use crate::{common::*, sym::*, zoo::*};
use lfa::basis::*;
use spaces::Space;

fn power(x: f64, e: usize) -> f64 {
    let mut p = 1.0;
    for _ in 0..e {
        p = p * x;
    }
    p
}

fn check(d: usize, k: usize, zeroth: bool) {
    let b = Polynomial::new(d, k as u8);
    let b = if zeroth { b.with_zeroth() } else { b };
    let x = reals(d);
    let got = vals(&b.project(&x[..]).unwrap());
    let mut want = tuples(d, k);
    if zeroth {
        want.push(vec![0; d]);
    }
    ck(got.len() == want.len(), "one feature per exponent tuple");
    ck(b.dim() == spaces::Dim::Finite(want.len()), "the dimension is the number of tuples");
    for (t, g) in want.iter().zip(got.iter()) {
        let m = t.iter().zip(x.iter()).fold(1.0, |m, (&e, &v)| m * power(v, e));
        eq(*g, m, "the feature is the monomial of its exponents");
    }
}

#[no_mangle]
pub extern "C-unwind" fn c10_one() { check(1, pick(0, bound(6, 10)), flip()) }
#[no_mangle]
pub extern "C-unwind" fn c10_two() { check(2, pick(0, bound(3, 4)), flip()) }
#[no_mangle]
pub extern "C-unwind" fn c10_three() { check(3, pick(0, bound(2, 3)), flip()) }
#[no_mangle]
pub extern "C-unwind" fn c10_four() { check(4, pick(0, bound(1, 2)), flip()) }
#[no_mangle]
pub extern "C-unwind" fn c10_high() {
    let k = [9, 12, 16, 17, 31, 33, 64, 128, 255][choose(9)];
    check(1, k, flip())
}
#[no_mangle]
pub extern "C-unwind" fn c10_two_high() { check(2, [5, 8, 9, 16][choose(4)], flip()) }
#[no_mangle]
pub extern "C-unwind" fn c10_three_high() { check(3, [3, 4, 5][choose(3)], flip()) }
#[no_mangle]
pub extern "C-unwind" fn c10_many_dimensions() {
    let (d, k) = [(4, 2), (5, 1), (6, 1), (8, 1), (5, 2)][choose(5)];
    check(d, k, flip())
}
#[no_mangle]
pub extern "C-unwind" fn c10_unknown_length() {
    // inputs from an iterator that does not know its length
    let (d, k) = [(1, 3), (2, 2), (3, 1), (5, 1)][choose(4)];
    let b = Polynomial::new(d, k as u8);
    let b = if flip() { b.with_zeroth() } else { b };
    let x = reals(d);
    let want = vals(&b.project(&x[..]).unwrap());
    denotes(&b.project(drip(&x)).unwrap(), &want, "the input may come from any iterator");
    denotes(&b.project(x.clone()).unwrap(), &want, "the input may come by value");
    denotes(&b.project(x.iter().chain(None)).unwrap(), &want, "the input may come from any iterator");
}
