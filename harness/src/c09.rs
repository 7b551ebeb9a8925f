//! C09: the i-th feature agrees with the projection; bad indices are errors
use crate::{common::*, sym::*, zoo::*};
use lfa::{basis::kernels::*, basis::*, Features};
use spaces::{Equipartition, ProductSpace, Space};

fn agrees<B>(b: &B, x: &[f64])
where
    B: Space<Value = Features> + for<'a> EnumerableBasis<&'a [f64]>,
{
    let n: usize = b.dim().into();
    let i = choose(n + 3);
    if i < n {
        let v = vals(&b.project(x).unwrap());
        let r = b.ith(x, i);
        ck(r.is_ok(), "an index below the dimension is fine");
        eq(r.unwrap(), v[i], "the i-th feature is the i-th entry of the projection");
    } else {
        // exactly the dimension, the next, or anything beyond
        let k = if i == n {
            n
        } else if i == n + 1 {
            n + 1
        } else {
            let k = int();
            assume(k >= n);
            k
        };
        ck(b.ith(x, k).is_err(), "an index beyond the dimension is an error");
    }
}

#[no_mangle]
pub extern "C-unwind" fn c09_polynomial() {
    let (b, x) = poly(2, bound(2, 3));
    agrees(&b, &x)
}
#[no_mangle]
pub extern "C-unwind" fn c09_chebyshev() {
    let (b, x) = cheb(2, bound(2, 3));
    agrees(&b, &x)
}
#[no_mangle]
pub extern "C-unwind" fn c09_fourier() {
    let (b, x) = four(2, bound(2, 3));
    agrees(&b, &x)
}
#[no_mangle]
pub extern "C-unwind" fn c09_kernel() {
    let (b, x) = kern(2, bound(3, 4));
    agrees(&b, &x)
}
#[no_mangle]
pub extern "C-unwind" fn c09_grid() {
    let (b, x) = grid(bound(1, 2), bound(3, 3));
    agrees(&b, &x)
}
#[no_mangle]
pub extern "C-unwind" fn c09_grid2() {
    let (p, _) = partition(2, 2);
    agrees(&UniformGrid::new(p), &reals(2))
}
#[no_mangle]
pub extern "C-unwind" fn c09_tile() {
    let (b, x) = tile(1, 2, bound(4, 5));
    agrees(&b, &x)
}
#[no_mangle]
pub extern "C-unwind" fn c09_constants() {
    match choose(3) {
        0 => agrees(&Bias(real()), &[]),
        1 => agrees(&fixed_dense(3), &[]),
        _ => agrees(&fixed_sparse(3), &[]),
    }
}
#[no_mangle]
pub extern "C-unwind" fn c09_stack() {
    let (b, x) = poly(1, 2);
    match choose(4) {
        0 => agrees(&b.stack(fixed_sparse(2)), &x),
        1 => agrees(&fixed_sparse(2).stack(fixed_sparse(2)), &x),
        2 => agrees(&fixed_dense(2).stack(b).with_bias(), &x),
        _ => agrees(&fixed_sparse(2).with_bias().stack(fixed_sparse(2)), &x),
    }
}
fn normalised(k: usize) {
    let n = pick(1, 3);
    let (f, v) = features(n);
    assume(v.iter().any(|&x| x > 1e-6 || x < -1e-6));
    let b = Const(f);
    match k {
        0 => agrees(&b.normalise_l0(), &[]),
        1 => agrees(&b.normalise_l1(), &[]),
        2 => agrees(&b.normalise_l2(), &[]),
        _ => agrees(&b.normalise_linf(), &[]),
    }
}
#[no_mangle]
pub extern "C-unwind" fn c09_l0() { normalised(0) }
#[no_mangle]
pub extern "C-unwind" fn c09_l1() { normalised(1) }
#[no_mangle]
pub extern "C-unwind" fn c09_l2() { normalised(2) }
#[no_mangle]
pub extern "C-unwind" fn c09_linf() { normalised(3) }
#[no_mangle]
pub extern "C-unwind" fn c09_default() {
    // the default implementation of the trait
    let n = pick(0, 3);
    let (f, _) = features(n);
    agrees(&Const(f), &[])
}
#[no_mangle]
pub extern "C-unwind" fn c09_combined() {
    // a stack of normalised and plain bases
    let (f, v) = features(2);
    assume(v.iter().any(|&x| x > 1e-6 || x < -1e-6));
    let (b, x) = poly(1, 1);
    agrees(&Const(f).normalise_l1().stack(b).with_bias(), &x)
}

/// the same for one of many indices
fn agrees_at<B>(b: &B, x: &[f64])
where
    B: Space<Value = Features> + for<'a> EnumerableBasis<&'a [f64]>,
{
    let n: usize = b.dim().into();
    let v = vals(&b.project(x).unwrap());
    for i in 0..n {
        if n < 40 || i < 6 || i + 6 >= n || i % 7 == 3 || (i + 1) & i == 0 || i & (i.max(1) - 1) == 0 {
            let r = b.ith(x, i);
            ck(r.is_ok(), "an index below the dimension is fine");
            eq(r.unwrap(), v[i], "the i-th feature is the i-th entry of the projection");
        }
    }
    for k in [n, n + 1, 2 * n, n + 256, n + 65536, usize::MAX] {
        ck(b.ith(x, k).is_err(), "an index beyond the dimension is an error");
    }
}
#[no_mangle]
pub extern "C-unwind" fn c09_big_polynomial() {
    let (b, x) = big_poly();
    agrees_at(&b, &x)
}
#[no_mangle]
pub extern "C-unwind" fn c09_big_chebyshev() {
    let (b, x) = big_cheb();
    agrees_at(&b, &x)
}
#[no_mangle]
pub extern "C-unwind" fn c09_big_fourier() {
    let (b, x) = big_four();
    agrees_at(&b, &x)
}
#[no_mangle]
pub extern "C-unwind" fn c09_huge() {
    // more than 256 features
    if flip() {
        let b = Fourier::new(19, vec![(-1.0, 1.0), (0.0, 4.0)]);
        agrees_at(&b, &reals(2))
    } else {
        let b = Polynomial::new(2, 17).with_zeroth();
        agrees_at(&b, &reals(2))
    }
}
#[no_mangle]
pub extern "C-unwind" fn c09_big_kernel() {
    let (b, x) = big_kern();
    agrees_at(&b, &x)
}
#[no_mangle]
pub extern "C-unwind" fn c09_big_grid() {
    let (b, x, _) = big_grid();
    agrees_at(&b, &x)
}
#[no_mangle]
pub extern "C-unwind" fn c09_big_tile() {
    let (b, x) = big_tile();
    let n: usize = b.dim().into();
    let v = b.project(&x[..]).unwrap();
    match &v {
        Features::Sparse(s) => {
            for &i in s.activations.keys().take(40) {
                eq(b.ith(&x[..], i).unwrap(), 1.0, "the i-th feature is the i-th entry of the projection");
            }
        }
        _ => ck(false, "tile coding is sparse"),
    }
    for i in [0, 1, n / 2, n - 2, n - 1] {
        eq(b.ith(&x[..], i).unwrap(), v.get(i).copied().unwrap_or(0.0), "the i-th feature is the i-th entry of the projection");
    }
    ck(b.ith(&x[..], n).is_err() && b.ith(&x[..], n + 1).is_err(), "an index beyond the dimension is an error");
}
#[no_mangle]
pub extern "C-unwind" fn c09_wide_constants() {
    let n = [9, 17, 33, 65, 300, 1030][choose(6)];
    match choose(3) {
        0 => agrees_at(&Fixed::dense(reals(n)), &[]),
        1 => {
            let h = choose(3);
            agrees_at(&Fixed::sparse(n, (0..n).filter(|i| i % 3 == h).collect::<Vec<_>>()), &[])
        }
        _ => agrees_at(&Const(wide_features(n).0), &[]),
    }
}
#[no_mangle]
pub extern "C-unwind" fn c09_wide_normalised() {
    let n = [5, 9, 17][choose(3)];
    let k = choose(4);
    let (f, v) = if k == 3 {
        // entries of known size
        let v: Vec<f64> = (0..n).map(|i| if i == 1 { real_in(-9.0, -8.0) } else { real_in(1.0, 2.0) }).collect();
        (if flip() { Features::dense(v.clone()) } else { Features::sparse(n, v.iter().copied().enumerate()) }, v)
    } else {
        let v: Vec<f64> = (0..n).map(|i| if i % 2 == 0 { real_in(1.0, 2.0) } else { real_in(-2.0, -1.0) }).collect();
        (if flip() { Features::dense(v.clone()) } else { Features::sparse(n, v.iter().copied().enumerate()) }, v)
    };
    let _ = v;
    let b = Const(f);
    match k {
        0 => agrees_at(&b.normalise_l0(), &[]),
        1 => agrees_at(&b.normalise_l1(), &[]),
        2 => agrees_at(&b.normalise_l2(), &[]),
        _ => agrees_at(&b.normalise_linf(), &[]),
    }
}
#[no_mangle]
pub extern "C-unwind" fn c09_deep() {
    let (b, x) = poly(1, 2);
    match choose(4) {
        0 => agrees_at(&b.clone().with_bias().stack(fixed_sparse(2)).stack(b).with_bias().with_bias(), &x),
        1 => agrees_at(&Bias(1.5).stack(fixed_sparse(2).stack(b.clone().stack(fixed_dense(2).stack(b)))), &x),
        2 => agrees_at(&fixed_sparse(2).stack(b.with_bias()).stack(fixed_dense(1).stack(Bias(0.0))), &x),
        _ => agrees_at(&b.clone().stack(b.clone()).stack(b.clone().stack(b)), &x),
    }
}

#[no_mangle]
pub extern "C-unwind" fn c09_long_normalised() {
    let n = [65, 130][choose(2)];
    let (f, _) = wide_known(n);
    let b = Const(f);
    match choose(4) {
        0 => agrees_at(&b.normalise_l0(), &[]),
        1 => agrees_at(&b.normalise_l1(), &[]),
        2 => agrees_at(&b.normalise_l2(), &[]),
        _ => agrees_at(&b.normalise_linf(), &[]),
    }
}
#[no_mangle]
pub extern "C-unwind" fn c09_long_stack() {
    // the boundary between the parts lies at a large index
    let n = [255, 256, 257, 300, 600][choose(5)];
    let (b, x) = poly(1, 2);
    let c = Fixed::dense((0..n).map(|i| 0.5 * i as f64).collect::<Vec<_>>());
    let k = n / 3;
    let e = Fixed::dense((0..k).map(|i| 7.0 + i as f64).collect::<Vec<_>>());
    match choose(4) {
        0 => agrees_at(&c.stack(b), &x),
        1 => agrees_at(&c.stack(e), &x),
        2 => agrees_at(&e.stack(c), &x),
        _ => agrees_at(&Fixed::sparse(n, (0..n).filter(|i| i % 4 == 1).collect::<Vec<_>>()).stack(b.with_bias()).stack(c), &x),
    }
}
/// any doubles, NaN and the infinities included
#[no_mangle]
pub extern "C-unwind" fn c09_fp_any_double() {
    match choose(5) {
        0 => agrees(&Bias(real()), &[]),
        1 => agrees(&Fixed::dense(reals(pick(1, 2))), &[]),
        2 => agrees(&Bias(real()).stack(fixed_sparse(2)), &[]),
        3 => agrees(&Const(features(2).0), &[]),
        _ => {
            let x = real();
            assume(!x.is_nan());
            let n = [1, 2, 4][choose(3)];
            agrees(&UniformGrid::new(ProductSpace::new(vec![Equipartition::new(0.0, 8.0, n)])), &[x])
        }
    }
}
#[no_mangle]
pub extern "C-unwind" fn c09_order_nought() {
    let d = pick(1, bound(2, 3));
    let x = reals(d);
    match choose(6) {
        0 => agrees(&Fourier::new(0, limits(d)), &x),
        1 => agrees(&Fourier::new(0, limits(d)).with_bias(), &x),
        2 => agrees(&Polynomial::new(d, 0), &x),
        3 => agrees(&Polynomial::new(d, 0).with_zeroth(), &x),
        4 => agrees(&Chebyshev::new(0, limits(d)), &x),
        _ => agrees(&Fourier::new(0, limits(d)).stack(Chebyshev::new(0, limits(d)).with_zeroth()), &x),
    }
}
#[no_mangle]
pub extern "C-unwind" fn c09_unknown_length() {
    // inputs from iterators that do not know their length
    macro_rules! go {
        ($b:expr) => {{
            let (b, x) = $b;
            let v = vals(&b.project(drip(&x)).unwrap());
            let i = choose(v.len() + 1);
            if i < v.len() {
                eq(b.ith(drip(&x), i).unwrap(), v[i], "the i-th feature is the i-th entry of the projection");
            } else {
                ck(b.ith(drip(&x), i).is_err(), "an index beyond the dimension is an error");
            }
        }};
    }
    match choose(5) {
        0 => go!(poly(2, 2)),
        1 => go!(cheb(2, 2)),
        2 => go!(four(2, 2)),
        3 => go!(grid(2, 2)),
        _ => go!(tile(1, 2, 4)),
    }
}
