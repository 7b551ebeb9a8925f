//! C01: every view of a feature vector agrees on the vector it stands for
use crate::{common::*, sym::*};
use lfa::{DenseActivations, Features};

fn views(f: &Features, v: &[f64]) {
    let n = v.len();
    ck(f.n_features() == n, "n_features");
    eqs(f.to_dense().as_slice().unwrap(), v, "to_dense");
    for i in 0..n {
        eq(f[i], v[i], "index operator");
        eq(f.get(i).copied().unwrap_or(0.0), v[i], "get");
        eq(unsafe { f.uget(i) }.copied().unwrap_or(0.0), v[i], "uget");
    }
    eqs(&f.clone().into_dense().to_vec(), v, "into_dense");
    let d: DenseActivations = f.clone().into();
    eqs(&d.to_vec(), v, "Into<Array1>");
    let d: Vec<f64> = f.clone().into();
    eqs(&d, v, "Into<Vec>");
}

#[no_mangle]
pub extern "C-unwind" fn c01_sparse_views() {
    let n = pick(0, bound(3, 4));
    let (f, v) = sparse(n);
    ck(f.is_sparse() && !f.is_dense(), "is_sparse");
    views(&f, &v);
}

#[no_mangle]
pub extern "C-unwind" fn c01_dense_views() {
    let n = pick(0, bound(4, 6));
    let v = reals(n);
    let f = Features::dense(v.clone());
    ck(!f.is_sparse() && f.is_dense(), "is_dense");
    views(&f, &v);
    // laid out differently in memory
    let how = choose(3);
    let f = Features::from(laid_out(&v, how));
    ck(f.n_features() == n, "n_features");
    for i in 0..n {
        eq(f[i], v[i], "index operator");
        eq(f.get(i).copied().unwrap_or(0.0), v[i], "get");
        eq(unsafe { f.uget(i) }.copied().unwrap_or(0.0), v[i], "uget");
    }
    let d: Vec<f64> = f.to_dense().iter().copied().collect();
    eqs(&d, &v, "to_dense");
    let d: Vec<f64> = f.into();
    eqs(&d, &v, "Into<Vec>");
}

#[no_mangle]
pub extern "C-unwind" fn c01_unitary() {
    let n = pick(0, bound(4, 6));
    let mut v = vec![0.0; n];
    let mut idx = vec![];
    for i in 0..n {
        if flip() {
            v[i] = 1.0;
            idx.push(i);
        }
    }
    let f = Features::unitary(n, idx);
    views(&f, &v);
}

#[no_mangle]
pub extern "C-unwind" fn c01_remove() {
    let n = pick(1, bound(3, 4));
    let (mut f, mut v) = features(n);
    let sp = f.is_sparse();
    let i = choose(n + 1);
    f.remove(i);
    if i < n {
        v[i] = 0.0;
    }
    ck(f.is_sparse() == sp, "remove keeps the representation");
    denotes(&f, &v, "remove");
}

#[no_mangle]
pub extern "C-unwind" fn c01_active() {
    let n = pick(0, bound(3, 4));
    let (f, v) = features(n);
    // entries are either absent / zero or clearly non-zero
    let mut k = 0;
    for i in 0..n {
        let stored = f.is_sparse() && f.get(i).is_some();
        if stored || (f.is_dense() && flip()) {
            assume(v[i] > 1e-6 || v[i] < -1e-6);
            k += 1;
        } else {
            assume(v[i] == 0.0);
        }
    }
    ck(f.n_active() == k, "n_active counts the non-zero activations");
}

#[no_mangle]
pub extern "C-unwind" fn c01_any_index() {
    // dense: every index; sparse: indices in, just beyond and far beyond the dimension
    let n = pick(0, 3);
    let (f, v) = features(n);
    let i = if f.is_dense() { int() } else { [0, 1, 2, 3, 4, 1 << 32, usize::MAX][choose(7)] };
    let g = f.get(i).copied();
    if i < n {
        eq(g.unwrap_or(0.0), v[i], "get at any index");
    } else {
        ck(g.is_none(), "no activation beyond the dimension");
    }
}

#[no_mangle]
pub extern "C-unwind" fn c01_map_either() {
    let n = pick(0, 2);
    let (f, v) = features(n);
    let sp = f.is_sparse();
    match choose(3) {
        0 => {
            let r = f.map_dense(|d| d.to_vec());
            ck(r.is_some() == !sp, "map_dense");
            if let Some(d) = r {
                eqs(&d, &v, "map_dense");
            }
        }
        1 => {
            let r = f.map_sparse(Features::Sparse);
            ck(r.is_some() == sp, "map_sparse");
            if let Some(d) = r {
                denotes(&d, &v, "map_sparse");
            }
        }
        _ => {
            let r = f.map_either(|d| (false, Features::Dense(d)), |s| (true, Features::Sparse(s)));
            ck(r.0 == sp, "map_either");
            denotes(&r.1, &v, "map_either");
        }
    }
}

#[no_mangle]
pub extern "C-unwind" fn c01_wide_sparse() {
    let n = width();
    let (f, v) = wide_sparse(n);
    views(&f, &v);
}
#[no_mangle]
pub extern "C-unwind" fn c01_wide_dense() {
    let n = width();
    let v = reals(n);
    views(&Features::dense(v.clone()), &v);
    let f = Features::from(laid_out(&v, 1 + choose(2)));
    for i in 0..n {
        eq(f[i], v[i], "index operator");
        eq(f.get(i).copied().unwrap_or(0.0), v[i], "get");
        eq(unsafe { f.uget(i) }.copied().unwrap_or(0.0), v[i], "uget");
    }
    let d: Vec<f64> = f.to_dense().iter().copied().collect();
    eqs(&d, &v, "to_dense");
    let d: Vec<f64> = f.into();
    eqs(&d, &v, "Into<Vec>");
}
#[no_mangle]
pub extern "C-unwind" fn c01_wide_unitary() {
    let n = width();
    let k = choose(4);
    let on = |i: usize| match k {
        0 => true,
        1 => i % 2 == 0,
        2 => i + 1 == n,
        _ => i % 3 == 1,
    };
    let v: Vec<f64> = (0..n).map(|i| if on(i) { 1.0 } else { 0.0 }).collect();
    let f = Features::unitary(n, (0..n).filter(|&i| on(i)).collect::<Vec<_>>());
    ck(f.n_active() == (0..n).filter(|&i| on(i)).count(), "n_active counts the non-zero activations");
    views(&f, &v);
}
#[no_mangle]
pub extern "C-unwind" fn c01_wide_remove() {
    let n = width();
    let (mut f, mut v) = wide_features(n);
    let sp = f.is_sparse();
    for i in [0, n / 2, n - 1, n - 2] {
        f.remove(i);
        v[i] = 0.0;
    }
    ck(f.is_sparse() == sp, "remove keeps the representation");
    denotes(&f, &v, "remove");
}
#[no_mangle]
pub extern "C-unwind" fn c01_wide_active() {
    let n = width();
    let (f, v) = wide_features(n);
    let mut k = 0;
    for i in 0..n {
        if f.is_dense() && i % 3 == 0 {
            assume(v[i] == 0.0);
        } else if f.is_dense() || f.get(i).is_some() {
            assume(v[i] > 1e-6);
            k += 1;
        }
    }
    ck(f.n_active() == k, "n_active counts the non-zero activations");
}
#[no_mangle]
pub extern "C-unwind" fn c01_vast() {
    // a dimension far beyond anything that could be stored densely
    let (mut f, d, mut a) = vast();
    ck(f.n_features() == d, "n_features");
    for &(i, x) in &a {
        eq(f[i], x, "index operator");
        eq(f.get(i).copied().unwrap_or(0.0), x, "get");
        eq(unsafe { f.uget(i) }.copied().unwrap_or(0.0), x, "uget");
    }
    for i in [2, 3, 1 << 18, d / 2 + 1, d - 3] {
        ck(f.get(i).is_none(), "get of an inactive feature");
        ck(unsafe { f.uget(i) }.is_none(), "uget of an inactive feature");
        eq(f[i], 0.0, "index operator of an inactive feature");
    }
    holds(&f.clone(), d, &a, "clone");
    let j = choose(a.len());
    f.remove(a[j].0);
    a.remove(j);
    holds(&f, d, &a, "remove");
}

/// any doubles, NaN and the infinities included
#[no_mangle]
pub extern "C-unwind" fn c01_fp_any_double() {
    let n = pick(0, bound(2, 3));
    let (mut f, mut v) = features(n);
    views(&f, &v);
    if n > 0 {
        let i = choose(n);
        f.remove(i);
        v[i] = 0.0;
        views(&f, &v);
    }
}
#[no_mangle]
pub extern "C-unwind" fn c01_huge() {
    let (mut f, mut v) = huge();
    let n = v.len();
    ck(f.n_features() == n, "n_features");
    for i in 0..n {
        eq(f[i], v[i], "index operator");
        eq(f.get(i).copied().unwrap_or(0.0), v[i], "get");
    }
    ck(f.get(n).is_none(), "get beyond the end");
    eqs(&f.to_dense().to_vec(), &v, "to_dense");
    eqs(&f.clone().into_dense().to_vec(), &v, "into_dense");
    let d: Vec<f64> = f.clone().into();
    eqs(&d, &v, "Into<Vec>");
    for i in [0, n / 2, 103, n - 1] {
        f.remove(i);
        v[i] = 0.0;
    }
    denotes(&f, &v, "remove");
}

/// any doubles: the infinities count, sizes up to 1e-7 are left open, so is NaN
#[no_mangle]
pub extern "C-unwind" fn c01_fp_active() {
    let n = pick(1, 2);
    let (f, v) = features(n);
    let open = |x: f64| x.is_nan() || (x != 0.0 && x.abs() < 1e-6);
    assume(!v.iter().any(|&x| open(x)));
    if f.is_dense() {
        ck(f.n_active() == v.iter().filter(|&&x| x != 0.0).count(), "n_active counts the non-zero activations");
    }
}
#[no_mangle]
pub extern "C-unwind" fn c01_layout_active() {
    // dense vectors that are contiguous, strided or reversed in memory, full or not
    let n = [1, 2, 3, 5, 9, 17, 33, 70][choose(8)];
    let h = choose(4);
    let mut k = 0;
    let v: Vec<f64> = (0..n)
        .map(|i| {
            let on = match h {
                0 => true,
                1 => i == n - 1,
                2 => i % 3 != 1,
                _ => i != 0,
            };
            if !on {
                0.0
            } else {
                k += 1;
                if i % 2 == 0 { real_in(0.5, 2.0) } else { real_in(-2.0, -0.5) }
            }
        })
        .collect();
    let f = Features::Dense(laid_out(&v, choose(3)));
    ck(f.n_features() == n, "n_features");
    ck(f.n_active() == k, "n_active counts the non-zero activations");
    eqs(&f.to_dense().to_vec(), &v, "to_dense");
}
