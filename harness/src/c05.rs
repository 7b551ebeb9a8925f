//! C05: merge, merge_into and merge_inplace combine element by element
use crate::{common::*, sym::*};
use lfa::Features;

fn check(f: &Features, v: &[f64], g: &Features, w: &[f64], op: impl Fn(f64, f64) -> f64) {
    let n = v.len().max(w.len());
    let at = |x: &[f64], i: usize| if i < x.len() { x[i] } else { 0.0 };
    let e: Vec<f64> = (0..n).map(|i| op(at(v, i), at(w, i))).collect();
    let a = f.merge(g, &op);
    denotes(&a, &e, "merge");
    let b = f.clone().merge_into(g, &op);
    denotes(&b, &e, "merge_into");
    let mut c = f.clone();
    c.merge_inplace(g, &op);
    denotes(&c, &e, "merge_inplace");
    ck(a.is_sparse() == b.is_sparse() && b.is_sparse() == c.is_sparse(), "the variants agree on the representation");
    denotes(f, v, "merge leaves its left operand unchanged");
    denotes(g, w, "merge leaves its right operand unchanged");
}

fn ops(f: &Features, v: &[f64], g: &Features, w: &[f64]) {
    match choose(4) {
        0 => {
            let (p, q) = (real(), real());
            check(f, v, g, w, |x, y| p * x + q * y)
        }
        1 => check(f, v, g, w, |x, y| x * y),
        2 => check(f, v, g, w, |x, y| x - y),
        _ => {
            // any bilinear-affine operation that maps (0, 0) to 0
            let (p, q, r) = (real(), real(), real());
            check(f, v, g, w, |x, y| p * x + q * y + r * x * y)
        }
    }
}

#[no_mangle]
pub extern "C-unwind" fn c05_same_dimension() {
    let n = pick(0, bound(2, 3));
    let (f, v) = features(n);
    let (g, w) = features(n);
    ops(&f, &v, &g, &w);
}

#[no_mangle]
pub extern "C-unwind" fn c05_three() {
    let n = 3;
    let (f, v) = features(n);
    let (g, w) = features(n);
    let (p, q, r) = (real(), real(), real());
    check(&f, &v, &g, &w, |x, y| p * x + q * y + r * x * y);
}

#[no_mangle]
pub extern "C-unwind" fn c05_sparse_widths() {
    // sparse operands of different dimension are padded with zeros
    let n = pick(0, bound(2, 3));
    let m = pick(0, bound(2, 3));
    let (f, v) = sparse(n);
    let (g, w) = if flip() { sparse(m) } else { dense(m) };
    let (p, q) = (real(), real());
    check(&f, &v, &g, &w, |x, y| p * x + q * y + x * y);
}

#[no_mangle]
pub extern "C-unwind" fn c05_layouts() {
    let n = pick(0, 3);
    let v = reals(n);
    let (g, w) = if flip() {
        let w = reals(n);
        (Features::from(laid_out(&w, choose(3))), w)
    } else {
        sparse(n)
    };
    let f = Features::from(laid_out(&v, choose(3)));
    let (p, q) = (real(), real());
    check(&f, &v, &g, &w, |x, y| p * x + q * y + x * y);
}

#[no_mangle]
pub extern "C-unwind" fn c05_wide() {
    let n = width();
    let (f, v) = wide_features(n);
    let (g, w) = wide_features(n);
    let (p, q, r) = (real(), real(), real());
    check(&f, &v, &g, &w, |x, y| p * x + q * y + r * x * y);
}
#[no_mangle]
pub extern "C-unwind" fn c05_wide_layouts() {
    let n = width();
    let v = reals(n);
    let (g, w) = if flip() {
        let w = reals(n);
        (Features::from(laid_out(&w, choose(3))), w)
    } else {
        wide_sparse(n)
    };
    let f = Features::from(laid_out(&v, 1 + choose(2)));
    let (p, q) = (real(), real());
    check(&f, &v, &g, &w, |x, y| p * x + q * y + x * y);
}
#[no_mangle]
pub extern "C-unwind" fn c05_vast() {
    let (f, d, a) = vast();
    let b: Vec<(usize, f64)> = [0, 2, 65536, d - 1].iter().map(|&i| (i, real())).collect();
    let g = Features::sparse(d, b.clone());
    let (p, q, r) = (real(), real(), real());
    let op = |x: f64, y: f64| p * x + q * y + r * x * y;
    let at = |l: &[(usize, f64)], i: usize| l.iter().find(|t| t.0 == i).map(|t| t.1).unwrap_or(0.0);
    let mut e: Vec<(usize, f64)> = a.iter().map(|&(i, x)| (i, op(x, at(&b, i)))).collect();
    for &(i, y) in &b {
        if a.iter().all(|t| t.0 != i) {
            e.push((i, op(0.0, y)));
        }
    }
    holds(&f.merge(&g, op), d, &e, "merge");
    holds(&f.clone().merge_into(&g, op), d, &e, "merge_into");
    let mut h = f.clone();
    h.merge_inplace(&g, op);
    holds(&h, d, &e, "merge_inplace");
    holds(&f, d, &a, "merge leaves its left operand unchanged");
}

/// any doubles, NaN and the infinities included
#[no_mangle]
pub extern "C-unwind" fn c05_fp_any_double() {
    let n = pick(0, bound(1, 2));
    let (f, v) = features(n);
    let (g, w) = features(n);
    match choose(4) {
        0 => check(&f, &v, &g, &w, |x, y| x + y),
        1 => check(&f, &v, &g, &w, |x, y| x - y),
        2 => check(&f, &v, &g, &w, |x, y| if x.is_nan() { y } else { x }),
        _ => check(&f, &v, &g, &w, |x, y| if y > x { y } else { x }),
    }
}
#[no_mangle]
pub extern "C-unwind" fn c05_huge() {
    let (f, v) = huge();
    let n = v.len();
    let (g, w) = huge_of(n);
    let a = real();
    let want: Vec<f64> = (0..n).map(|i| v[i] + a * w[i]).collect();
    let op = |x: f64, y: f64| x + a * y;
    let h = match choose(3) {
        0 => f.merge(&g, op),
        1 => f.merge_into(&g, op),
        _ => {
            let mut h = f;
            h.merge_inplace(&g, op);
            h
        }
    };
    denotes(&h, &want, "the operation is applied to every pair");
}
#[no_mangle]
pub extern "C-unwind" fn c05_any_operation() {
    // any operation whatever with op(0, 0) = 0
    let n = pick(0, bound(2, 3));
    let (f, v) = features(n);
    let (g, w) = features(n);
    check(&f, &v, &g, &w, any_op());
}
#[no_mangle]
pub extern "C-unwind" fn c05_any_operation_padded() {
    let (n, m) = if flip() { (1, 2) } else { (2, 1) };
    let (f, v) = sparse(n);
    let (g, w) = if flip() { sparse(m) } else { dense(m) };
    check(&f, &v, &g, &w, any_op());
}
#[no_mangle]
pub extern "C-unwind" fn c05_long_padded() {
    // operands of very different lengths, the longer one sparse
    let m = [9, 31, 70, 300][choose(bound(3, 4))];
    let n = [0, 1, 2, 9][choose(4)];
    let (f, v) = if flip() { dense(n) } else { wide_sparse(n.max(1)) };
    let mut w = vec![0.0; m];
    let mut a = Vec::new();
    for i in [0, 1, n, 8, m / 2, 64, 65, m - 2, m - 1] {
        if i < m && w[i] == 0.0 && a.iter().all(|&(j, _)| j != i) {
            w[i] = real_in(1.0, 2.0);
            a.push((i, w[i]));
        }
    }
    let g = Features::sparse(m, a);
    let (p, q) = (real(), real());
    if flip() {
        check(&f, &v, &g, &w, |x, y| p * x + q * y + x * y);
    } else {
        check(&g, &w, &f, &v, |x, y| p * x + q * y + x * y);
    }
}
#[no_mangle]
pub extern "C-unwind" fn c05_long_dense_padded() {
    // ... and the longer one dense
    let m = [9, 31, 70, 300][choose(bound(3, 4))];
    let n = [1, 2, 9][choose(3)];
    let (f, v) = wide_sparse(n);
    let (g, w) = wide_known(m);
    let (p, q) = (real(), real());
    if flip() {
        check(&f, &v, &g, &w, |x, y| p * x + q * y + x * y);
    } else {
        check(&g, &w, &f, &v, |x, y| p * x + q * y + x * y);
    }
}
