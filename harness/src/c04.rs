//! C04: map, map_into and map_inplace apply the function to every activation
use crate::{common::*, sym::*};
use lfa::Features;

fn variants(f: &Features, v: &[f64], g: impl Fn(f64) -> f64) {
    let e: Vec<f64> = v.iter().map(|&x| g(x)).collect();
    let a = f.map(&g);
    denotes(&a, &e, "map");
    let b = f.clone().map_into(&g);
    denotes(&b, &e, "map_into");
    let mut c = f.clone();
    c.map_inplace(&g);
    denotes(&c, &e, "map_inplace");
    ck(a.is_sparse() == b.is_sparse() && b.is_sparse() == c.is_sparse(), "the variants agree on the representation");
    denotes(f, v, "map leaves its operand unchanged");
    if f.is_dense() {
        ck(a.is_dense(), "dense stays dense");
    }
}

#[no_mangle]
pub extern "C-unwind" fn c04_affine() {
    // any affine function whose value at zero is zero or clearly non-zero
    let n = pick(0, bound(3, 3));
    let (f, v) = features(n);
    let k = real();
    let c = if flip() { 0.0 } else { real() };
    assume(c == 0.0 || c > 0.001 || c < -0.001);
    variants(&f, &v, |x| k * x + c);
    let a = f.map(|x| k * x + c);
    if f.is_sparse() {
        ck(a.is_sparse() == (c == 0.0), "sparsity is kept exactly when zero maps to zero");
    }
}

#[no_mangle]
pub extern "C-unwind" fn c04_nonlinear() {
    let n = pick(0, bound(3, 3));
    let (f, v) = features(n);
    match choose(4) {
        0 => variants(&f, &v, |x| x * x),
        1 => variants(&f, &v, |x| x * x * x - 2.0 * x + 1.0),
        2 => variants(&f, &v, |x| x.abs()),
        _ => variants(&f, &v, |x| x.exp()),
    }
}

#[no_mangle]
pub extern "C-unwind" fn c04_clear_small() {
    // a constant function
    let n = pick(0, 3);
    let (f, v) = features(n);
    let c = real();
    assume(c > 0.001 || c < -0.001);
    variants(&f, &v, |_| c);
}

#[no_mangle]
pub extern "C-unwind" fn c04_layouts() {
    let n = pick(0, 3);
    let v = reals(n);
    let f = Features::from(laid_out(&v, choose(3)));
    let k = real();
    let e: Vec<f64> = v.iter().map(|&x| k * x + 1.0).collect();
    let g = |x: f64| k * x + 1.0;
    denotes(&f.map(g), &e, "map");
    denotes(&f.clone().map_into(g), &e, "map_into");
    let mut h = f;
    h.map_inplace(g);
    denotes(&h, &e, "map_inplace");
}

#[no_mangle]
pub extern "C-unwind" fn c04_wide() {
    let n = width();
    let (f, v) = wide_features(n);
    let k = real();
    match choose(3) {
        0 => variants(&f, &v, |x| k * x),
        1 => variants(&f, &v, |x| k * x + 1.0),
        _ => variants(&f, &v, |x| x * x),
    }
}
#[no_mangle]
pub extern "C-unwind" fn c04_wide_layouts() {
    let n = width();
    let v = reals(n);
    let k = real();
    let e: Vec<f64> = v.iter().map(|&x| k * x + 1.0).collect();
    let g = |x: f64| k * x + 1.0;
    let f = Features::from(laid_out(&v, 1 + choose(2)));
    denotes(&f.map(g), &e, "map");
    denotes(&f.clone().map_into(g), &e, "map_into");
    let mut h = f;
    h.map_inplace(g);
    denotes(&h, &e, "map_inplace");
}
#[no_mangle]
pub extern "C-unwind" fn c04_vast() {
    let (f, d, a) = vast();
    let k = real();
    let e: Vec<(usize, f64)> = a.iter().map(|&(i, x)| (i, k * x)).collect();
    holds(&f.map(|x| k * x), d, &e, "map");
    holds(&f.clone().map_into(|x| k * x), d, &e, "map_into");
    let mut g = f.clone();
    g.map_inplace(|x| k * x);
    holds(&g, d, &e, "map_inplace");
    holds(&f, d, &a, "map leaves its operand unchanged");
}

/// any doubles, NaN and the infinities included
#[no_mangle]
pub extern "C-unwind" fn c04_fp_any_double() {
    let n = pick(0, 2);
    let (f, v) = features(n);
    match choose(5) {
        0 => variants(&f, &v, |x| x * 2.0),
        1 => variants(&f, &v, |x| x + 1.0),
        2 => variants(&f, &v, |x| if x.is_nan() { 3.0 } else { x }),
        3 => variants(&f, &v, |x| if x.is_finite() { 0.0 } else { x }),
        _ => variants(&f, &v, |x| -x),
    }
}
#[no_mangle]
pub extern "C-unwind" fn c04_huge() {
    let (f, v) = huge();
    let (a, c) = (real(), [0.0, 1.0][choose(2)]);
    let want: Vec<f64> = v.iter().map(|x| a * x + c).collect();
    let sp = f.is_sparse();
    let op = |x: f64| a * x + c;
    let g = match choose(3) {
        0 => f.map(op),
        1 => f.map_into(op),
        _ => {
            let mut g = f;
            g.map_inplace(op);
            g
        }
    };
    denotes(&g, &want, "the function is applied to every entry");
    ck(g.is_sparse() == (sp && c == 0.0), "sparse stays sparse exactly when zero maps to zero");
}

/// the function sees the sign of a zero
#[no_mangle]
pub extern "C-unwind" fn c04_fp_signs() {
    let n = pick(1, 2);
    let v = reals(n);
    let f = Features::dense(v.clone());
    variants(&f, &v, |x| if x.is_nan() { 3.0 } else if x.is_sign_negative() { -1.0 } else { 1.0 });
}
#[no_mangle]
pub extern "C-unwind" fn c04_any_function() {
    // any function whatever whose value at zero is zero or clearly not
    let n = pick(0, bound(3, 4));
    let (f, v) = features(n);
    let c = if flip() { 0.0 } else { real() };
    assume(c == 0.0 || c > 0.001 || c < -0.001);
    let g = any_fn(c);
    variants(&f, &v, &g);
    if f.is_sparse() {
        ck(f.map(&g).is_sparse() == (c == 0.0), "sparsity is kept exactly when zero maps to zero");
    }
}
