//! C19: normalisers scale to unit norm and keep the direction
use crate::{common::*, sym::*, zoo::*};
use lfa::basis::*;
use lfa::Features;

/// features with some clearly non-zero entry, and their vector
fn input(k: usize, n: usize) -> (Features, Vec<f64>) {
    let (f, v) = features(n);
    for &x in &v {
        // n_active does not count tiny dense entries
        assume(x == 0.0 || k != 0 || x > 1e-6 || x < -1e-6);
    }
    if let Features::Sparse(_) = f {
        // stored zeros count as active
        for (i, &x) in v.iter().enumerate() {
            assume(f.get(i).is_none() || x != 0.0);
        }
    }
    assume(v.iter().any(|&x| x != 0.0));
    (f, v)
}

fn check(k: usize, n: usize) {
    let (f, v) = input(k, n);
    let sparse = f.is_sparse();
    let b = Const(f.clone());
    let x: &[f64] = &[];
    let (g, z) = match k {
        0 => {
            let mut z = 0.0;
            for &x in &v {
                if x != 0.0 {
                    z += 1.0;
                }
            }
            (b.normalise_l0().project(x).unwrap(), z)
        }
        1 => {
            let mut z = 0.0;
            for &x in &v {
                z = z + x.abs();
            }
            (b.normalise_l1().project(x).unwrap(), z)
        }
        2 => {
            let mut z = 0.0;
            for &x in &v {
                z = z + x * x;
            }
            (b.normalise_l2().project(x).unwrap(), z.sqrt())
        }
        _ => {
            let mut z = 0.0;
            for &x in &v {
                if x.abs() > z {
                    z = x.abs();
                }
            }
            (b.normalise_linf().project(x).unwrap(), z)
        }
    };
    ck(g.is_sparse() == sparse, "the representation is kept");
    ck(g.n_features() == n, "the dimension is kept");
    ck(well_formed(&g), "indices stay in range");
    if let (Features::Sparse(a), Features::Sparse(b)) = (&f, &g) {
        ck(a.activations.len() == b.activations.len(), "the active features are kept");
        ck(a.activations.keys().all(|i| b.activations.contains_key(i)), "the active features are kept");
    }
    let w = vals(&g);
    for i in 0..n {
        eq(w[i] * z, v[i], "every entry is divided by the norm");
        ck((w[i] > 0.0) == (v[i] > 0.0) && (w[i] < 0.0) == (v[i] < 0.0), "every entry keeps its sign");
    }
    // unit norm
    match k {
        1 => eq(w.iter().fold(0.0, |s, x| s + x.abs()), 1.0, "the absolute values sum to one"),
        2 => eq(w.iter().fold(0.0, |s, x| s + x * x), 1.0, "the squares sum to one"),
        3 => {
            ck(w.iter().all(|&x| x <= 1.0 && x >= -1.0), "no entry exceeds one");
            ck(w.iter().any(|&x| x == 1.0 || x == -1.0), "some entry is one in size");
        }
        _ => {}
    }
}

#[no_mangle]
pub extern "C-unwind" fn c19_l0() { check(0, pick(1, bound(3, 4))) }
#[no_mangle]
pub extern "C-unwind" fn c19_l1() { check(1, pick(1, bound(3, 4))) }
#[no_mangle]
pub extern "C-unwind" fn c19_l2() { check(2, pick(1, bound(3, 3))) }
#[no_mangle]
pub extern "C-unwind" fn c19_linf() { check(3, pick(1, bound(3, 3))) }
#[no_mangle]
pub extern "C-unwind" fn c19_polynomial() {
    // on top of a real basis
    let (b, x) = poly(2, 1);
    let v = vals(&b.project(&x[..]).unwrap());
    assume(v.iter().all(|&x| x > 1e-6 || x < -1e-6));
    let k = choose(3);
    let w = match k {
        0 => vals(&b.normalise_l0().project(&x[..]).unwrap()),
        1 => vals(&b.normalise_l1().project(&x[..]).unwrap()),
        _ => vals(&b.normalise_l2().project(&x[..]).unwrap()),
    };
    let mut z = 0.0;
    for &x in &v {
        z = z + match k {
            0 => 1.0,
            1 => x.abs(),
            _ => x * x,
        };
    }
    if k == 2 {
        z = z.sqrt();
    }
    ck(w.len() == v.len(), "the dimension is kept");
    for i in 0..v.len() {
        eq(w[i] * z, v[i], "every entry is divided by the norm");
    }
}
#[no_mangle]
pub extern "C-unwind" fn c19_wide() {
    // many entries; which one is the largest is known
    let n = [5, 8, 9, 16, 17, 33, 65][choose(7)];
    // which entry is the largest is known
    let (f, mut v) = wide_known(n);
    let big = [1, n / 2 + 1, n - 2][choose(3)];
    let x = if flip() { real_in(8.0, 9.0) } else { real_in(-9.0, -8.0) };
    v[big] = x;
    let f = match f {
        Features::Dense(_) => Features::dense(v.clone()),
        Features::Sparse(mut s) => {
            s.activations.insert(big, x);
            Features::Sparse(s)
        }
    };
    let b = Const(f.clone());
    let k = choose(4);
    let (g, z) = match k {
        0 => (b.normalise_l0().project(()).unwrap(), v.iter().filter(|&&x| x != 0.0).count() as f64),
        1 => (b.normalise_l1().project(()).unwrap(), v.iter().fold(0.0, |s, x| s + x.abs())),
        2 => (b.normalise_l2().project(()).unwrap(), v.iter().fold(0.0, |s, x| s + x * x).sqrt()),
        _ => (b.normalise_linf().project(()).unwrap(), v[big].abs()),
    };
    ck(g.is_sparse() == f.is_sparse(), "the representation is kept");
    ck(g.n_features() == n, "the dimension is kept");
    let w = vals(&g);
    for i in 0..n {
        eq(w[i] * z, v[i], "every entry is divided by the norm");
    }
}
#[no_mangle]
pub extern "C-unwind" fn c19_lonely() {
    // long vectors that are zero but for one or two entries
    let n = [9, 17, 33, 65, 300][choose(bound(4, 5))];
    let mut v = vec![0.0; n];
    let i = [0, 1, 7, 8, n / 2, n - 2, n - 1][choose(7)];
    v[i] = if flip() { real_in(1.0, 2.0) } else { real_in(-2.0, -1.0) };
    let two = flip();
    if two {
        let j = [n - 1, 0][if i == n - 1 { 1 } else { 0 }];
        v[j] = real_in(0.25, 0.5);
    }
    let f = if flip() { Features::Dense(laid_out(&v, choose(3))) } else { Features::sparse(n, v.iter().copied().enumerate().filter(|t| t.1 != 0.0).collect::<Vec<_>>()) };
    let b = Const(f.clone());
    let (g, z) = match choose(4) {
        0 => (b.normalise_l0().project(()).unwrap(), if two { 2.0 } else { 1.0 }),
        1 => (b.normalise_l1().project(()).unwrap(), v.iter().fold(0.0, |s, x| s + x.abs())),
        2 => (b.normalise_l2().project(()).unwrap(), v.iter().fold(0.0, |s, x| s + x * x).sqrt()),
        _ => (b.normalise_linf().project(()).unwrap(), v[i].abs()),
    };
    ck(g.is_sparse() == f.is_sparse(), "the representation is kept");
    ck(g.n_features() == n, "the dimension is kept");
    let w = vals(&g);
    for i in 0..n {
        eq(w[i] * z, v[i], "every entry is divided by the norm");
    }
}
