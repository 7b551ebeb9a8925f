//! C40: asking for a feature that does not exist says which, of how many
use crate::{common::*, sym::*, zoo::*};
use lfa::{basis::*, Error, Features, Result};
use spaces::Space;

/// the numbers in a message
fn numbers(s: &str) -> Vec<usize> {
    let mut v = Vec::new();
    let mut on = false;
    for c in s.bytes() {
        if c.is_ascii_digit() {
            if !on {
                v.push(0usize);
            }
            let l = v.len() - 1;
            v[l] = v[l] * 10 + (c - b'0') as usize;
            on = true;
        } else {
            on = false;
        }
    }
    v
}
fn says(e: &Error, i: usize, n: usize) {
    let m = numbers(&e.to_string());
    ck(m.contains(&i), "the message has the index");
    ck(m.contains(&n), "the message has the dimension");
    ck(m.len() == 2, "the message has no other number");
    ck(*e == Error::index_error(i, n), "an index error");
    #[allow(deprecated)]
    let d = numbers(std::error::Error::description(e));
    ck(d == m, "the description says the same");
}
const FAR: [usize; 6] = [0, 1, 2, 99, 1000, 1 << 40];
const HUGE: [usize; 10] = [1 << 8, 1 << 16, 1 << 31, 1 << 32, (1 << 32) + 1, (1 << 40) + 1, 1 << 48, 1 << 63, usize::MAX - 1, usize::MAX];

fn missing<B>(b: B, x: &[f64])
where
    B: Space<Value = Features> + for<'a> EnumerableBasis<&'a [f64]>,
{
    let n: usize = b.dim().into();
    let i = if flip() { n + FAR[choose(6)] } else { HUGE[choose(10)].max(n) };
    match b.ith(x, i) {
        Ok(_) => ck(false, "there is no such feature"),
        Err(e) => says(&e, i, n),
    }
}
#[no_mangle]
pub extern "C-unwind" fn c40_polynomial() {
    let (b, x) = poly(2, 3);
    missing(b, &x)
}
#[no_mangle]
pub extern "C-unwind" fn c40_chebyshev() {
    let (b, x) = cheb(2, 3);
    missing(b, &x)
}
#[no_mangle]
pub extern "C-unwind" fn c40_fourier() {
    let (b, x) = four(2, 3);
    missing(b, &x)
}
#[no_mangle]
pub extern "C-unwind" fn c40_kernel() {
    let (b, x) = kern(2, 3);
    missing(b, &x)
}
#[no_mangle]
pub extern "C-unwind" fn c40_grid() {
    let (b, x) = grid(2, bound(2, 3));
    missing(b, &x)
}
#[no_mangle]
pub extern "C-unwind" fn c40_tile() {
    let x = reals_in(pick(1, 2), -1.0, 1.0);
    missing(TileCoding::new(SpyB(3), pick(1, 2), [1, 7, 10, 512][choose(4)]), &x)
}
#[no_mangle]
pub extern "C-unwind" fn c40_constants() {
    match choose(3) {
        0 => missing(Bias(real()), &[]),
        1 => missing(fixed_dense(3), &[]),
        _ => missing(fixed_sparse(3), &[]),
    }
}
#[no_mangle]
pub extern "C-unwind" fn c40_stack() {
    // of the whole stack, not of one of its parts
    let (b, x) = poly(2, 2);
    match choose(5) {
        0 => missing(b.stack(fixed_sparse(2)), &x),
        1 => missing(fixed_sparse(2).stack(b), &x),
        2 => missing(b.with_bias(), &x),
        3 => missing(fixed_dense(2).stack(b).with_bias(), &x),
        _ => missing(b.clone().stack(b.clone().stack(b)), &x),
    }
}
#[no_mangle]
pub extern "C-unwind" fn c40_normalised() {
    let n = pick(1, 3);
    let (f, v) = features(n);
    assume(v.iter().any(|&x| x > 1e-6 || x < -1e-6));
    let b = Const(f);
    match choose(5) {
        0 => missing(b.normalise_l0(), &[]),
        1 => missing(b.normalise_l1(), &[]),
        2 => missing(b.normalise_l2(), &[]),
        3 => missing(b.normalise_linf(), &[]),
        _ => missing(b, &[]),
    }
}
#[no_mangle]
pub extern "C-unwind" fn c40_big() {
    match choose(4) {
        0 => {
            let (b, x) = big_poly();
            missing(b, &x)
        }
        1 => {
            let (b, x) = big_cheb();
            missing(b, &x)
        }
        2 => {
            let (b, x) = big_four();
            missing(b, &x)
        }
        _ => missing(Fixed::sparse([10, 99, 100, 12345][choose(4)], vec![0]), &[]),
    }
}
#[no_mangle]
pub extern "C-unwind" fn c40_any_index() {
    // every 64-bit index is either a feature or an error
    let (n, i) = (pick(0, 4), int());
    let (f, v) = if n == 0 { (Features::dense(Vec::<f64>::new()), vec![]) } else { features(n) };
    let b = Const(f);
    macro_rules! go {
        ($b:expr, $n:expr, $v:expr) => {{
            let n: usize = $n;
            let r = EnumerableBasis::<()>::ith(&$b, (), i);
            ck(r.is_ok() == (i < n), "exactly the features there are");
            if let Ok(x) = r {
                for j in 0..n {
                    if i == j {
                        eq(x, $v[j], "the feature asked for");
                    }
                }
            }
        }};
    }
    match choose(5) {
        0 => go!(b, n, v),
        1 => go!(Bias(2.5), 1, [2.5]),
        2 => go!(Fixed::dense(v.clone()), n, v),
        3 => go!(b.with_bias(), n + 1, v.iter().copied().chain(std::iter::once(1.0)).collect::<Vec<f64>>()),
        _ => go!(Fixed::sparse(3, vec![1]), 3, [0.0, 1.0, 0.0]),
    }
}
#[no_mangle]
pub extern "C-unwind" fn c40_errors() {
    // errors are equal exactly when they say the same
    let (i, n, j, m) = (FAR[choose(6)], [0, 1, 7, 10][choose(4)], FAR[choose(6)], [0, 1, 7, 10][choose(4)]);
    let (a, b) = (Error::index_error(i, n), Error::index_error(j, m));
    ck((a == b) == (i == j && n == m), "errors are equal exactly when they say the same");
    ck(a.clone() == a, "a clone is equal");
    says(&a, i, n);
    ck((a.to_string() == b.to_string()) == (a == b), "different errors have different messages");
    // as a trait object
    let d: Box<dyn std::error::Error> = Box::new(b.clone());
    ck(d.to_string() == b.to_string(), "the message survives boxing");
    let r: Result<()> = Err(b);
    ck(r.map_err(|e| e.to_string()) == Err(d.to_string()), "and results");
}
#[no_mangle]
pub extern "C-unwind" fn c40_order_nought() {
    let d = pick(1, 2);
    let x = reals(d);
    match choose(6) {
        0 => missing(Fourier::new(0, limits(d)), &x),
        1 => missing(Fourier::new(0, limits(d)).with_bias(), &x),
        2 => missing(Polynomial::new(d, 0), &x),
        3 => missing(Polynomial::new(d, 0).with_zeroth(), &x),
        4 => missing(Chebyshev::new(0, limits(d)), &x),
        _ => missing(Fourier::new(0, limits(d)).stack(Chebyshev::new(0, limits(d)).with_zeroth()), &x),
    }
}
