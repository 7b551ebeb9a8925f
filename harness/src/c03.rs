//! C03: stacking is concatenation
use crate::{common::*, sym::*};
use lfa::Features;

#[no_mangle]
pub extern "C-unwind" fn c03_stack() {
    let n = pick(0, bound(2, 3));
    let m = pick(0, bound(2, 3));
    let (f, mut v) = features(n);
    let (g, w) = features(m);
    let sp = f.is_sparse() && g.is_sparse();
    let r = f.stack(g);
    v.extend(w);
    ck(r.n_features() == n + m, "dimension of the stack");
    ck(r.is_sparse() == sp, "sparsity is kept exactly when both parts are sparse");
    denotes(&r, &v, "stack");
}

#[no_mangle]
pub extern "C-unwind" fn c03_stack_layouts() {
    let n = pick(0, 3);
    let m = pick(0, 3);
    let (mut v, w) = (reals(n), reals(m));
    let f = Features::from(laid_out(&v, choose(3)));
    let g = Features::from(laid_out(&w, choose(3)));
    let r = f.stack(g);
    v.extend(w);
    denotes(&r, &v, "stack");
}

#[no_mangle]
pub extern "C-unwind" fn c03_associative() {
    let (f, mut v) = features(pick(0, bound(1, 2)));
    let (g, w) = features(pick(0, bound(1, 2)));
    let (h, x) = features(pick(0, bound(2, 2)));
    let l = f.clone().stack(g.clone()).stack(h.clone());
    let r = f.stack(g.stack(h));
    v.extend(w);
    v.extend(x);
    denotes(&l, &v, "stack on the left");
    denotes(&r, &v, "stack on the right");
}

#[no_mangle]
pub extern "C-unwind" fn c03_wide() {
    let (n, m) = [(9, 1), (1, 9), (16, 17), (33, 2), (2, 33), (64, 65), (65, 0), (0, 65), (130, 3)][choose(9)];
    let (f, mut v) = wide_features(n);
    let (g, w) = wide_features(m);
    let sp = f.is_sparse() && g.is_sparse();
    let r = f.stack(g);
    v.extend(w);
    ck(r.is_sparse() == sp, "sparsity is kept exactly when both parts are sparse");
    denotes(&r, &v, "stack");
}
#[no_mangle]
pub extern "C-unwind" fn c03_vast() {
    let d = [1 << 20, 1 << 33, (1 << 44) + 3][choose(3)];
    let e = [3, 1 << 20, 1 << 40][choose(3)];
    let mk = |d: usize, at: &[usize]| -> (Features, Vec<(usize, f64)>) {
        let a: Vec<(usize, f64)> = at.iter().map(|&i| (i, real())).collect();
        (Features::sparse(d, a.clone()), a)
    };
    let (f, mut a) = mk(d, &[0, 1, 65536, d - 1]);
    let (g, b) = mk(e, &[0, 1, e - 1]);
    a.extend(b.into_iter().map(|(i, x)| (d + i, x)));
    holds(&f.stack(g), d + e, &a, "stack");
}
#[no_mangle]
pub extern "C-unwind" fn c03_many() {
    // a long chain of stacks
    let mut v = Vec::new();
    let mut f = Features::sparse(0, vec![]);
    let k = choose(3);
    for i in 0..bound(12, 20) {
        let (g, w) = match k {
            0 => (Features::unitary(2, vec![i % 2]), vec![(1 - i % 2) as f64, (i % 2) as f64]),
            1 => dense(1 + i % 2),
            _ => {
                let x = real();
                (Features::sparse(3, vec![(i % 3, x)]), (0..3).map(|j| if j == i % 3 { x } else { 0.0 }).collect())
            }
        };
        f = f.stack(g);
        v.extend(w);
    }
    denotes(&f, &v, "a chain of stacks");
}

/// any doubles, NaN and the infinities included
#[no_mangle]
pub extern "C-unwind" fn c03_fp_any_double() {
    let (f, mut v) = features(pick(0, 2));
    let (g, w) = features(pick(0, 2));
    let r = f.stack(g);
    v.extend(w);
    denotes(&r, &v, "stack");
}
#[no_mangle]
pub extern "C-unwind" fn c03_huge() {
    let (f, mut v) = huge();
    let (g, w) = if flip() { features(1) } else { huge_of(300) };
    let sp = f.is_sparse() && g.is_sparse();
    let h = if flip() {
        v.extend(&w);
        f.stack(g)
    } else {
        let mut u = w;
        u.extend(&v);
        v = u;
        g.stack(f)
    };
    denotes(&h, &v, "the stack is the concatenation");
    ck(h.is_sparse() == sp, "sparse exactly when both operands are");
}
#[no_mangle]
pub extern "C-unwind" fn c03_very_sparse() {
    // a handful of activations among very many features
    let n = [100, 257, 300, 1100, 4100][choose(bound(4, 5))];
    let mut v = vec![0.0; n];
    let mut a = vec![];
    for i in [0, n / 2, n - 1] {
        if flip() {
            v[i] = real();
            a.push((i, v[i]));
        }
    }
    let f = Features::sparse(n, a);
    let (g, w) = features(pick(0, 1));
    let sp = g.is_sparse();
    let (h, u) = if flip() { (f.stack(g), cat(&v, &w)) } else { (g.stack(f), cat(&w, &v)) };
    denotes(&h, &u, "the stack is the concatenation");
    ck(h.is_sparse() == sp, "sparse exactly when both operands are");
}
fn cat(a: &[f64], b: &[f64]) -> Vec<f64> { a.iter().chain(b).copied().collect() }
