//! C34: equality, cloning and conversions of features follow the vector they stand for
use crate::{common::*, sym::*};
use lfa::{Features, SparseActivations};
use ndarray::Array1;
use std::iter::FromIterator;

#[no_mangle]
pub extern "C-unwind" fn c34_eq_dense() {
    let (n, m) = (pick(0, 3), pick(0, 3));
    let (a, b) = (reals(n), reals(m));
    let f: Features = laid_out(&a, choose(3)).into();
    let g: Features = laid_out(&b, choose(3)).into();
    let same = n == m && a.iter().zip(b.iter()).all(|(x, y)| x == y);
    ck((f == g) == same, "dense features are equal exactly when their entries are");
    ck((g == f) == same, "equality is symmetric");
    ck(f == f, "equality is reflexive");
    ck((f != g) == !same, "inequality is the opposite of equality");
}

#[no_mangle]
pub extern "C-unwind" fn c34_eq_sparse() {
    let (n, m) = (pick(0, bound(2, 3)), pick(0, bound(2, 3)));
    let mut act = |d: usize| -> Vec<Option<f64>> { (0..d).map(|_| if flip() { Some(real()) } else { None }).collect() };
    let (a, b) = (act(n), act(m));
    let mk = |v: &Vec<Option<f64>>| Features::sparse(v.len(), v.iter().enumerate().filter_map(|(i, x)| x.map(|y| (i, y))).collect::<Vec<_>>());
    let (f, g) = (mk(&a), mk(&b));
    let same = n == m
        && a.iter().zip(b.iter()).all(|(x, y)| match (x, y) {
            (Some(p), Some(q)) => p == q,
            (None, None) => true,
            _ => false,
        });
    ck((f == g) == same, "sparse features are equal exactly when their length and active entries are");
    ck((g == f) == same, "equality is symmetric");
    ck(f == f, "equality is reflexive");
}

/// changing a clone leaves the original alone, and the other way round
#[no_mangle]
pub extern "C-unwind" fn c34_clone() {
    let n = pick(1, bound(2, 3));
    let (f, v) = features(n);
    let mut a = f.clone();
    let mut b = f;
    ck(a == b, "a clone is equal");
    ck(a.is_dense() == b.is_dense(), "a clone has the same representation");
    let (changed, kept) = if flip() { (&mut a, &mut b) } else { (&mut b, &mut a) };
    let c = real();
    match choose(3) {
        0 => changed.remove(choose(n)),
        1 => changed.map_inplace(|x| x * c),
        _ => {
            let o = changed.clone();
            changed.merge_inplace(&o, |x, y| x + c * y)
        }
    }
    denotes(kept, &v, "a clone is independent of its original");
}

#[no_mangle]
pub extern "C-unwind" fn c34_from_dense() {
    let n = pick(0, bound(3, 4));
    let v = reals(n);
    let f: Features = match choose(5) {
        0 => v.clone().into(),
        1 => laid_out(&v, choose(3)).into(),
        2 => Features::from_iter(v.iter().copied()),
        3 => v.iter().copied().collect(),
        _ => Features::dense(v.clone()),
    };
    ck(f.is_dense() && !f.is_sparse(), "activations become dense features");
    denotes(&f, &v, "the features stand for the activations they were made from");
    let back: Vec<f64> = if flip() { f.into() } else { f.into_dense().to_vec() };
    eqs(&back, &v, "the activations come back in order");
}

/// iterators that do not know how many items they have
#[no_mangle]
pub extern "C-unwind" fn c34_from_iterators() {
    let n = pick(0, bound(3, 4));
    let v = reals(n);
    let keep: Vec<bool> = (0..n).map(|_| flip()).collect();
    let w: Vec<f64> = (0..n).filter(|&i| keep[i]).map(|i| v[i]).collect();
    let (f, want): (Features, Vec<f64>) = match choose(5) {
        0 => (v.iter().zip(&keep).filter(|t| *t.1).map(|t| *t.0).collect(), w),
        1 => {
            let mut x = vec![1.5];
            x.extend(&w);
            (std::iter::once(1.5).chain(v.iter().zip(&keep).filter(|t| *t.1).map(|t| *t.0)).collect(), x)
        }
        2 => {
            let mut i = 0;
            let it = std::iter::from_fn(|| {
                i += 1;
                v.get(i - 1).copied()
            });
            (it.collect(), v.clone())
        }
        3 => (v.iter().copied().flat_map(|x| vec![x, x]).collect(), v.iter().flat_map(|&x| vec![x, x]).collect()),
        _ => {
            let k = keep.iter().take_while(|k| **k).count();
            (v.iter().zip(&keep).take_while(|t| *t.1).map(|t| *t.0).collect(), v[..k].to_vec())
        }
    };
    ck(f.is_dense() && f.n_features() == want.len(), "one feature for every item");
    denotes(&f, &want, "the features stand for the activations they were made from");
    let p: Features = Features::sparse(n + 1, (0..n).filter(|&i| keep[i]).map(|i| (i, v[i])));
    let q: Vec<f64> = (0..=n).map(|i| if i < n && keep[i] { v[i] } else { 0.0 }).collect();
    denotes(&p, &q, "the features stand for the pairs they were made from");
}

/// lists of indices, in any order and with repetitions
fn indices(n: usize, d: usize) -> Vec<usize> { (0..n).map(|_| choose(d)).collect() }

#[no_mangle]
pub extern "C-unwind" fn c34_from_indices() {
    let d = pick(1, 4);
    let ix = indices(pick(1, 3), d);
    let top = *ix.iter().max().unwrap();
    let (f, dim): (Features, usize) = if flip() { (ix.clone().into(), top + 1) } else { (Features::unitary(d, ix.clone()), d) };
    let want: Vec<f64> = (0..dim).map(|i| if ix.contains(&i) { 1.0 } else { 0.0 }).collect();
    ck(f.is_sparse() && !f.is_dense(), "a list of indices becomes sparse features");
    denotes(&f, &want, "the listed features are one, the others zero");
    ck(f.n_active() == want.iter().filter(|&&x| x == 1.0).count(), "each listed index is active once");
}

#[no_mangle]
pub extern "C-unwind" fn c34_no_indices() {
    let d = pick(0, 3);
    let f = Features::unitary(d, Vec::new());
    ck(f.is_sparse() && f.n_active() == 0, "no index, no active feature");
    denotes(&f, &vec![0.0; d], "the features are all zero");
}

/// pairs in any order; of two activations of one feature the later one counts
#[no_mangle]
pub extern "C-unwind" fn c34_from_pairs() {
    let d = pick(1, 3);
    let ix = indices(pick(0, 3), d);
    let p: Vec<(usize, f64)> = ix.into_iter().map(|i| (i, real())).collect();
    let mut want = vec![0.0; d];
    for &(i, x) in &p {
        want[i] = x;
    }
    let f = Features::sparse(d, p);
    ck(f.is_sparse(), "pairs become sparse features");
    denotes(&f, &want, "the features stand for the pairs they were made from");
}

#[no_mangle]
pub extern "C-unwind" fn c34_sparse_activations() {
    let d = pick(0, bound(3, 4));
    let mut s = SparseActivations { dim: d, activations: Default::default() };
    let mut want = vec![0.0; d];
    let mut n = 0;
    for i in 0..d {
        if flip() {
            want[i] = real();
            s.activations.insert(i, want[i]);
            n += 1;
        }
    }
    let mut seen = vec![false; d];
    let mut m = 0;
    for (&i, &x) in s.iter() {
        ck(i < d && !seen[i], "every pair is visited once");
        seen[i] = true;
        m += 1;
        eq(x, want[i], "the pairs are the stored ones");
    }
    ck(m == n, "every pair is visited");
    let f: Features = s.into();
    ck(f.is_sparse(), "sparse activations become sparse features");
    denotes(&f, &want, "the features stand for the activations they were made from");
    let a: Array1<f64> = f.into();
    eqs(&a.to_vec(), &want, "the activations come back in order");
}

#[no_mangle]
pub extern "C-unwind" fn c34_wide_eq() {
    // two vectors that differ in at most one place
    let n = width();
    let v = reals(n);
    let mut w = v.clone();
    let at = [0, 1, n / 2, n - 2, n - 1][choose(5)];
    w[at] = real();
    let same = v[at] == w[at];
    let (f, g) = if flip() {
        (Features::dense(v), Features::dense(w))
    } else {
        (Features::sparse(n, v.into_iter().enumerate()), Features::sparse(n, w.into_iter().enumerate()))
    };
    ck((f == g) == same, "features are equal exactly when their entries are");
    ck((g == f) == same, "equality is symmetric");
    ck(f == f, "equality is reflexive");
}
#[no_mangle]
pub extern "C-unwind" fn c34_wide_active() {
    // one activation more or less, or a different length
    let n = width();
    let v = reals(n);
    let full = Features::sparse(n, v.iter().copied().enumerate());
    let at = [0, 1, n / 2, n - 2, n - 1][choose(5)];
    let less = Features::sparse(n, v.iter().copied().enumerate().filter(|t| t.0 != at));
    let long = Features::sparse(n + 1, v.iter().copied().enumerate());
    ck(full != less && less != full && full != long && long != full && less != long, "features with different activations differ");
    ck(Features::dense(v.clone()) != Features::dense(v[..n - 1].to_vec()), "features of different lengths differ");
}
#[no_mangle]
pub extern "C-unwind" fn c34_wide_clone() {
    let n = width();
    let (f, v) = wide_features(n);
    let mut a = f.clone();
    ck(a == f, "a clone is equal");
    ck(a.is_dense() == f.is_dense(), "a clone has the same representation");
    let at = [0, n / 2, n - 1][choose(3)];
    a.remove(at);
    denotes(&f, &v, "a clone is independent of its original");
    let mut w = v.clone();
    w[at] = 0.0;
    denotes(&a, &w, "a clone stands for the same vector");
}
#[no_mangle]
pub extern "C-unwind" fn c34_wide_from() {
    let n = width();
    let v = reals(n);
    let f: Features = match choose(7) {
        0 => v.clone().into(),
        1 => laid_out(&v, choose(3)).into(),
        2 => Features::from_iter(v.iter().copied()),
        3 => v.iter().copied().collect(),
        4 => Features::dense(v.clone()),
        5 => Features::sparse(n, v.iter().copied().enumerate()),
        // back to front, every feature twice
        _ => Features::sparse(n, (0..2 * n).rev().map(|i| (i / 2, if i % 2 == 0 { v[i / 2] } else { 3.25 }))),
    };
    denotes(&f, &v, "the features stand for the activations they were made from");
    let back: Vec<f64> = if flip() { f.into() } else { f.into_dense().to_vec() };
    eqs(&back, &v, "the activations come back in order");
}
#[no_mangle]
pub extern "C-unwind" fn c34_wide_indices() {
    let n = width();
    let k = choose(4);
    let ix: Vec<usize> = match k {
        0 => (0..n).collect(),
        1 => (0..n).rev().step_by(2).collect(),
        2 => (0..2 * n).map(|i| i % n).collect(),
        _ => vec![n - 1],
    };
    let f: Features = if flip() { ix.clone().into() } else { Features::unitary(n, ix.clone()) };
    let want: Vec<f64> = (0..n).map(|i| if ix.contains(&i) { 1.0 } else { 0.0 }).collect();
    denotes(&f, &want, "the listed features are one, the others zero");
    ck(f.n_active() == want.iter().filter(|&&x| x == 1.0).count(), "each listed index is active once");
}
#[no_mangle]
pub extern "C-unwind" fn c34_vast() {
    let (f, d, a) = vast();
    holds(&f.clone(), d, &a, "a clone stands for the same vector");
    ck(f == f.clone(), "a clone is equal");
    let ix: Vec<usize> = a.iter().map(|t| t.0).collect();
    holds(&Features::unitary(d, ix.clone()), d, &ix.iter().map(|&i| (i, 1.0)).collect::<Vec<_>>(), "the listed features are one, the others zero");
    let x = real();
    let mut b = a.clone();
    let j = choose(b.len());
    b[j].1 = x;
    let g = Features::sparse(d, b);
    ck((f == g) == (a[j].1 == x), "sparse features are equal exactly when their active entries are");
    let t: Features = ix.clone().into();
    ck(t.n_features() == ix.iter().max().unwrap() + 1 && t.n_active() == ix.len(), "the largest index decides the length");
}

/// any doubles, NaN and the infinities included: entries compare as doubles do
#[no_mangle]
pub extern "C-unwind" fn c34_fp_any_double() {
    let n = pick(1, 2);
    let (f, v) = features(n);
    let (g, w) = features(n);
    if f.is_dense() == g.is_dense() {
        let same = (0..n).all(|i| v[i] == w[i] && f.get(i).is_some() == g.get(i).is_some());
        ck((f == g) == same, "features are equal exactly when their entries are");
        ck((g == f) == same, "equality is symmetric");
    }
    denotes(&f.clone(), &v, "a clone has the same entries");
    denotes(&Features::from(v.clone()), &v, "features from a vector");
    denotes(&v.iter().copied().collect::<Features>(), &v, "features from an iterator");
}
#[no_mangle]
pub extern "C-unwind" fn c34_huge() {
    let (f, v) = huge();
    let g = f.clone();
    ck(g == f, "a clone is equal");
    denotes(&g, &v, "a clone stands for the same vector");
    let i = [3, v.len() / 2, v.len() - 1][choose(3)];
    if f.get(i).is_some() {
        // the same but for one entry
        let mut w = v.clone();
        w[i] += 1.0;
        let h = if f.is_dense() { Features::dense(w) } else { Features::sparse(v.len(), w.iter().copied().enumerate().filter(|t| f.get(t.0).is_some()).collect::<Vec<_>>()) };
        ck(h != f && f != h, "one different entry makes the difference");
    }
}
