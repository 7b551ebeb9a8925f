//! C02: inner products, sums and additions equal the textbook sums
use crate::{common::*, sym::*};
use lfa::Features;
use ndarray::{linalg::Dot, s, Array1, Array2, ArrayView1};

#[no_mangle]
pub extern "C-unwind" fn c02_dot_weights() {
    let n = pick(0, bound(3, 4));
    let (f, v) = features(n);
    let w = reals(n);
    let a = laid_out(&w, choose(3));
    let e = dot(&v, &w);
    eq(f.dot(&a.view()), e, "dot with a weight view");
    eq(f.dot(&a), e, "dot with a weight array");
    eq(Dot::dot(&f, &a.view()), e, "Dot<weights>");
}

#[no_mangle]
pub extern "C-unwind" fn c02_dot_dense_layouts() {
    let n = pick(0, bound(3, 5));
    let v = reals(n);
    let w = reals(n);
    let f = Features::from(laid_out(&v, choose(3)));
    let a = laid_out(&w, choose(3));
    eq(f.dot(&a.view()), dot(&v, &w), "dot with a weight view");
    eq(f.sum(), v.iter().sum(), "sum");
}

#[no_mangle]
pub extern "C-unwind" fn c02_dot_long() {
    // long enough for the unrolled inner loops of the array library
    let n = [8, 9, 15, 16, 17][choose(5)];
    let v = reals(n);
    let w = reals(n);
    let f = Features::dense(v.clone());
    let a = Array1::from(w.clone());
    eq(f.dot(&a.view()), dot(&v, &w), "dot of long vectors");
    eq(f.sum(), v.iter().fold(0.0, |s, x| s + x), "sum of a long vector");
}

#[no_mangle]
pub extern "C-unwind" fn c02_dot_features() {
    let n = pick(0, bound(3, 3));
    let (f, v) = features(n);
    let (g, w) = features(n);
    let e = dot(&v, &w);
    eq(Dot::<Features>::dot(&f, &g), e, "Dot<Features>");
    eq(Dot::<Features>::dot(&g, &f), e, "Dot<Features> is symmetric");
}

#[no_mangle]
pub extern "C-unwind" fn c02_matmul() {
    let n = pick(1, bound(2, 3));
    let m = pick(0, bound(3, 3));
    let (f, v) = features(n);
    let w = reals(n * m);
    let a = matrix(&w, n, m, flip());
    let r = f.matmul(&a);
    ck(r.len() == m, "matmul length");
    for j in 0..m {
        let mut e = 0.0;
        for i in 0..n {
            e += v[i] * w[i * m + j];
        }
        eq(r[j], e, "matmul");
    }
    let r = f.matmul(&a.view());
    ck(r.len() == m, "matmul length");
}

#[no_mangle]
pub extern "C-unwind" fn c02_sum_fold() {
    let n = pick(0, bound(3, 4));
    let (f, v) = features(n);
    eq(f.sum(), v.iter().fold(0.0, |s, x| s + x), "sum");
    let c = real();
    eq(f.fold(c, |a, x| a + x * x), c + v.iter().fold(0.0, |s, x| s + x * x), "fold of squares");
    eq(f.fold(c, |a, x| a + 3.0 * x), c + v.iter().fold(0.0, |s, x| s + 3.0 * x), "fold of multiples");
}

fn addto(how: usize) {
    let n = pick(0, bound(3, 4));
    let (f, v) = features(n);
    let w = reals(n);
    let al = real();
    let mut a = laid_out(&w, how);
    f.addto(&mut a);
    ck(a.len() == n, "addto keeps the length");
    for i in 0..n {
        eq(a[i], w[i] + v[i], "addto");
    }
    let mut a = laid_out(&w, how);
    f.scaled_addto(al, &mut a);
    for i in 0..n {
        eq(a[i], w[i] + al * v[i], "scaled_addto");
    }
    let mut a = laid_out(&w, how);
    f.scaled_addto(al, &mut a.view_mut());
    for i in 0..n {
        eq(a[i], w[i] + al * v[i], "scaled_addto through a view");
    }
}

#[no_mangle]
pub extern "C-unwind" fn c02_addto_contiguous() { addto(0) }
#[no_mangle]
pub extern "C-unwind" fn c02_addto_strided() { addto(1) }
#[no_mangle]
pub extern "C-unwind" fn c02_addto_reversed() { addto(2) }

#[no_mangle]
pub extern "C-unwind" fn c02_addto_column() {
    // a column of a weight matrix: the others must stay as they are
    let n = pick(1, 2);
    let m = pick(1, 2);
    let (f, v) = features(n);
    let w = reals(n * m);
    let mut a = matrix(&w, n, m, flip());
    let j = choose(m);
    let al = real();
    f.scaled_addto(al, &mut a.column_mut(j));
    for i in 0..n {
        for k in 0..m {
            let e = if k == j { w[i * m + k] + al * v[i] } else { w[i * m + k] };
            eq(a[(i, k)], e, "scaled_addto of a column");
        }
    }
}

#[no_mangle]
pub extern "C-unwind" fn c02_wide_dot() {
    let n = width();
    let (f, v) = wide_features(n);
    let w = reals(n);
    let a = laid_out(&w, choose(3));
    let e = dot(&v, &w);
    eq(f.dot(&a.view()), e, "dot with a weight view");
    eq(f.dot(&a), e, "dot with a weight array");
    eq(Dot::dot(&f, &a.view()), e, "Dot<weights>");
    eq(f.sum(), v.iter().fold(0.0, |s, x| s + x), "sum");
    let c = real();
    eq(f.fold(c, |a, x| a + x * x), c + v.iter().fold(0.0, |s, x| s + x * x), "fold of squares");
}
#[no_mangle]
pub extern "C-unwind" fn c02_wide_features() {
    let n = width();
    let (f, v) = wide_features(n);
    let (g, w) = wide_features(n);
    let e = dot(&v, &w);
    eq(Dot::<Features>::dot(&f, &g), e, "Dot<Features>");
    eq(Dot::<Features>::dot(&g, &f), e, "Dot<Features> is symmetric");
}
#[no_mangle]
pub extern "C-unwind" fn c02_wide_matmul() {
    // many features or many columns
    let (n, m) = [(1, 5), (2, 9), (2, 17), (1, 33), (9, 2), (17, 2), (5, 5), (33, 1), (2, 65), (65, 2), (16, 16)][choose(11)];
    let (f, v) = wide_features(n);
    let w = reals(n * m);
    let a = matrix(&w, n, m, flip());
    let r = f.matmul(&a);
    ck(r.len() == m, "matmul length");
    for j in 0..m {
        let mut e = 0.0;
        for i in 0..n {
            e += v[i] * w[i * m + j];
        }
        eq(r[j], e, "matmul");
    }
}
#[no_mangle]
pub extern "C-unwind" fn c02_wide_addto() {
    let n = width();
    let (f, v) = wide_features(n);
    let w = reals(n);
    let al = real();
    let how = choose(3);
    let mut a = laid_out(&w, how);
    f.addto(&mut a);
    ck(a.len() == n, "addto keeps the length");
    for i in 0..n {
        eq(a[i], w[i] + v[i], "addto");
    }
    let mut a = laid_out(&w, how);
    f.scaled_addto(al, &mut a.view_mut());
    for i in 0..n {
        eq(a[i], w[i] + al * v[i], "scaled_addto");
    }
}
#[no_mangle]
pub extern "C-unwind" fn c02_vast() {
    let (f, _, a) = vast();
    eq(f.sum(), a.iter().fold(0.0, |s, x| s + x.1), "sum");
    let c = real();
    eq(f.fold(c, |s, x| s + x * x), a.iter().fold(c, |s, x| s + x.1 * x.1), "fold of squares");
    let (g, d) = (f.clone(), f.n_features());
    eq(Dot::<Features>::dot(&f, &g), a.iter().fold(0.0, |s, x| s + x.1 * x.1), "Dot<Features>");
    // another one that shares some of the indices
    let b: Vec<(usize, f64)> = [0, 2, 65536, d - 1].iter().map(|&i| (i, real())).collect();
    let h = Features::sparse(d, b.clone());
    let mut e = 0.0;
    for &(i, x) in &a {
        for &(j, y) in &b {
            if i == j {
                e += x * y;
            }
        }
    }
    eq(Dot::<Features>::dot(&f, &h), e, "Dot<Features>");
    eq(Dot::<Features>::dot(&h, &f), e, "Dot<Features> is symmetric");
}

/// one entry of any size, NaN and the infinities included: no rounding happens twice
#[no_mangle]
pub extern "C-unwind" fn c02_fp_one() {
    let (f, v) = features(1);
    let (g, w) = features(1);
    // (infinity times an absent entry is left open)
    assume(f.get(0).is_some() && g.get(0).is_some());
    // (and so is zero times something that is not finite: it may be skipped)
    assume(v[0] != 0.0 || w[0].is_finite());
    assume(w[0] != 0.0 || v[0].is_finite());
    let e = v[0] * w[0];
    if choose(2) == 0 {
        eq(Dot::<Features>::dot(&f, &g), e, "Dot<Features>");
    } else if g.is_dense() {
        eq(f.dot(&Array1::from(w)), e, "dot with a weight array");
    }
}
#[no_mangle]
pub extern "C-unwind" fn c02_fp_sums() {
    let (f, v) = features(1);
    eq(f.sum(), v[0], "sum");
    let w = real();
    let mut a = Array1::from(vec![w]);
    if choose(2) == 0 {
        f.addto(&mut a);
        eq(a[0], w + v[0], "addto");
    } else {
        f.scaled_addto(1.0, &mut a);
        eq(a[0], w + v[0], "scaled_addto");
    }
}
#[no_mangle]
pub extern "C-unwind" fn c02_huge() {
    let (f, v) = huge();
    let n = v.len();
    let w: Vec<f64> = (0..n).map(|i| if i % 200 == 3 { real() } else { 0.25 * (i % 7) as f64 }).collect();
    match choose(4) {
        0 => eq(f.dot(&laid_out(&w, choose(3)).view()), dot(&v, &w), "dot with weights"),
        1 => eq(f.sum(), v.iter().fold(0.0, |s, x| s + x), "sum"),
        2 => {
            let a = real();
            let mut x = laid_out(&w, choose(3));
            f.scaled_addto(a, &mut x);
            let want: Vec<f64> = (0..n).map(|i| w[i] + a * v[i]).collect();
            eqs(&x.to_vec(), &want, "scaled_addto");
        }
        _ => {
            let g = if flip() { Features::dense(w.clone()) } else { Features::sparse(n, w.iter().copied().enumerate().filter(|t| t.0 % 7 != 0 || t.0 % 200 == 3).collect::<Vec<_>>()) };
            eq(Dot::dot(&f, &g), dot(&v, &w), "dot of features");
        }
    }
}
#[no_mangle]
pub extern "C-unwind" fn c02_matmul_layouts() {
    // matrices of any layout in memory
    let (n, m) = (pick(1, 3), pick(1, 2));
    let (f, v) = features(n);
    let w = reals(n * m);
    let a = any_matrix(&w, n, m, choose(5));
    let want: Vec<f64> = (0..m).map(|j| (0..n).fold(0.0, |s, i| s + v[i] * w[i * m + j])).collect();
    eqs(&f.matmul(&a).to_vec(), &want, "matmul");
    eqs(&f.matmul(&a.view()).to_vec(), &want, "matmul");
    for j in 0..m {
        eq(f.dot(&a.column(j)), want[j], "dot with a column");
    }
}
