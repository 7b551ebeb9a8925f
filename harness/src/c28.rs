//! C28: all ways to evaluate a vector approximator agree
use crate::{common::*, sym::*, zoo::*};
use lfa::{basis::*, optim::*, Features, VectorLFA, LFA};
use ndarray::Array1;

fn column(w: &[f64], n: usize, k: usize, j: usize) -> Vec<f64> { (0..n).map(|i| w[i * k + j]).collect() }

#[no_mangle]
pub extern "C-unwind" fn c28_fresh() {
    let (b, x) = poly(2, 2);
    let n = b.exponents.len();
    let k = pick(0, 3);
    let l = LFA::vector(b, SGD(real()), k);
    ck(l.weights.dim() == (n, k), "the weights have the shape features by outputs");
    ck(l.weights.iter().all(|&w| w == 0.0), "the weights start at zero");
    ck(l.n_outputs() == k, "n_outputs");
    eqs(&l.evaluate(&x[..]).unwrap().to_vec(), &vec![0.0; k], "a fresh approximator predicts zero");
}

fn agree(n: usize, k: usize, f: Features, v: Vec<f64>) {
    let w = reals(n * k);
    agree_with(n, k, f, v, w)
}
fn agree_with(n: usize, k: usize, f: Features, v: Vec<f64>, w: Vec<f64>) {
    let l: VectorLFA<_, _> = LFA::new(Const(f), matrix(&w, n, k, flip()), SGD(1.0));
    let want: Vec<f64> = (0..k).map(|j| dot(&v, &column(&w, n, k, j))).collect();
    ck(l.n_outputs() == k, "n_outputs");
    eqs(&l.evaluate(()).unwrap().to_vec(), &want, "evaluate gives every output");
    eqs(&l.iter(()).collect::<Vec<f64>>(), &want, "iter gives every output");
    let mut it = l.iter(());
    ck(it.len() == k && it.size_hint() == (k, Some(k)), "the iterator knows its length");
    it.next();
    ck(it.len() == k.max(1) - 1, "the iterator knows its length");
    eqs(&l.try_iter(()).unwrap().collect::<Vec<f64>>(), &want, "try_iter gives every output");
    for j in 0..k {
        eq(l.evaluate_index((), j).unwrap(), want[j], "evaluate_index gives its output");
    }
}
#[no_mangle]
pub extern "C-unwind" fn c28_agree() {
    let n = pick(0, bound(2, 3));
    let (f, v) = features(n);
    agree(n, pick(0, 3), f, v)
}
#[no_mangle]
pub extern "C-unwind" fn c28_wide() {
    let n = bound(3, 4);
    let (f, v) = features(n);
    agree(n, bound(2, 4), f, v)
}
#[no_mangle]
pub extern "C-unwind" fn c28_iterator() {
    // lengths at every point of the iteration, and skipping
    let (n, k) = (pick(1, 2), pick(0, 3));
    let (f, v) = features(n);
    let w = reals(n * k);
    let l: VectorLFA<_, _> = LFA::new(Const(f), matrix(&w, n, k, flip()), SGD(1.0));
    let mut it = l.iter(());
    for j in 0..k {
        ck(it.len() == k - j, "the iterator knows its length");
        ck(it.size_hint() == (k - j, Some(k - j)), "the iterator knows its size");
        eq(it.next().unwrap(), dot(&v, &column(&w, n, k, j)), "the outputs come in column order");
    }
    ck(it.len() == 0 && it.next().is_none(), "the iterator ends after the last output");
    ck(it.next().is_none(), "the iterator stays at its end");
    if k > 0 {
        let j = choose(k);
        eq(l.iter(()).nth(j).unwrap(), dot(&v, &column(&w, n, k, j)), "nth gives the output at its position");
        eq(l.iter(()).last().unwrap(), dot(&v, &column(&w, n, k, k - 1)), "last gives the last output");
        ck(l.iter(()).count() == k, "count gives the number of outputs");
    }
}
#[no_mangle]
pub extern "C-unwind" fn c28_scalar() {
    // a vector approximator with one output is a scalar approximator
    let n = pick(1, 3);
    let (f, _) = features(n);
    let w = reals(n);
    let a: VectorLFA<_, _> = LFA::new(Const(f.clone()), matrix(&w, n, 1, false), SGD(1.0));
    let b = LFA::new(Const(f), Array1::from(w), SGD(1.0));
    eq(a.evaluate(()).unwrap()[0], b.evaluate(()).unwrap(), "one output is a scalar approximator");
}
#[no_mangle]
pub extern "C-unwind" fn c28_bases() {
    let k = pick(1, 2);
    macro_rules! go {
        ($b:expr, $x:expr) => {{
            let (b, x) = ($b, $x);
            let v = vals(&b.project(&x[..]).unwrap());
            let n = v.len();
            let w = reals(n * k);
            let l: VectorLFA<_, _> = LFA::new(b, matrix(&w, n, k, false), SGD(1.0));
            let want: Vec<f64> = (0..k).map(|j| dot(&v, &column(&w, n, k, j))).collect();
            eqs(&l.evaluate(&x[..]).unwrap().to_vec(), &want, "evaluate gives every output");
            eq(l.evaluate_index(&x[..], k - 1).unwrap(), want[k - 1], "evaluate_index gives its output");
        }};
    }
    match choose(3) {
        0 => {
            let (b, x) = poly(2, 2);
            go!(b.with_bias(), x)
        }
        1 => {
            let (b, x) = grid(1, 2);
            go!(b, x)
        }
        _ => {
            let (b, x) = tile(1, 2, 3);
            go!(b.stack(Bias::unit()), x)
        }
    }
}
#[no_mangle]
pub extern "C-unwind" fn c28_many() {
    // many features or many outputs
    let (n, k) = [(1, 9), (2, 17), (1, 33), (1, 65), (9, 1), (9, 2), (17, 2), (33, 1), (65, 2), (9, 9), (16, 16), (1, 300), (300, 1), (2, 130), (130, 2)][choose(15)];
    let (f, v) = wide_features(n);
    agree(n, k, f, v)
}

/// any doubles as weights, NaN and the infinities included
#[no_mangle]
pub extern "C-unwind" fn c28_fp_any_weights() {
    let k = pick(1, 3);
    let w = reals(k);
    let f = if flip() { Features::dense(vec![1.0]) } else { Features::unitary(1, vec![0]) };
    agree_with(1, k, f, vec![1.0], w)
}
#[no_mangle]
pub extern "C-unwind" fn c28_fresh_huge() {
    let n = [500, 1024, 1025, 2049][choose(4)];
    let k = pick(1, 3);
    let x = real();
    let f: Vec<f64> = (0..n).map(|i| if i == 0 || i == n / 2 || i == n - 1 { x } else { 1.0 + (i % 3) as f64 }).collect();
    let l = LFA::vector(Const(Features::dense(f)), SGD(real()), k);
    ck(l.weights.dim() == (n, k), "one weight per feature and output");
    ck(l.weights.iter().all(|&w| w == 0.0), "a fresh approximator has weights of zero");
    eqs(&l.evaluate(()).unwrap().to_vec(), &vec![0.0; k], "a fresh approximator predicts zero");
}
#[no_mangle]
pub extern "C-unwind" fn c28_skipping() {
    // skipping some outputs, up to the end and past it
    let (n, k) = (pick(1, 2), pick(0, bound(3, 4)));
    let (f, v) = features(n);
    let w = reals(n * k);
    let want: Vec<f64> = (0..k).map(|j| dot(&v, &column(&w, n, k, j))).collect();
    let l: VectorLFA<_, _> = LFA::new(Const(f), matrix(&w, n, k, flip()), SGD(1.0));
    let a = choose(3);
    let j = choose(k + 3);
    let mut it = if flip() { l.iter(()) } else { l.try_iter(()).unwrap() };
    let mut at = 0;
    for _ in 0..a {
        it.next();
        at = (at + 1).min(k);
    }
    match choose(3) {
        0 => {
            let r = it.nth(j);
            if at + j < k {
                eq(r.unwrap_or(-77.0), want[at + j], "nth gives the output at its position");
                ck(r.is_some(), "nth gives the output at its position");
            } else {
                ck(r.is_none(), "there is nothing past the end");
            }
            at = (at + j + 1).min(k);
            ck(it.len() == k - at && it.size_hint() == (k - at, Some(k - at)), "the iterator knows its length");
            eqs(&it.collect::<Vec<f64>>(), &want[at..], "the outputs after it follow");
        }
        1 => eqs(&it.skip(j).collect::<Vec<f64>>(), &want[(at + j).min(k)..], "skip leaves out the first ones"),
        _ => {
            let s: Vec<f64> = it.step_by(j + 1).collect();
            eqs(&s, &want[at..].iter().copied().step_by(j + 1).collect::<Vec<f64>>(), "step_by takes every so many");
        }
    }
}
#[no_mangle]
pub extern "C-unwind" fn c28_layouts() {
    // weights of any layout in memory
    let (n, k) = (bound(2, 3), pick(1, 3));
    let (f, v) = features(n);
    let w = reals(n * k);
    let l: VectorLFA<_, _> = LFA::new(Const(f.clone()), any_matrix(&w, n, k, choose(5)), SGD(1.0));
    let want: Vec<f64> = (0..k).map(|j| dot(&v, &column(&w, n, k, j))).collect();
    ck(l.n_outputs() == k, "n_outputs");
    eqs(&l.evaluate(()).unwrap().to_vec(), &want, "evaluate gives every output");
    eqs(&l.iter(()).collect::<Vec<f64>>(), &want, "iter gives every output");
    eqs(&l.try_iter(()).unwrap().collect::<Vec<f64>>(), &want, "try_iter gives every output");
    eqs(&f.matmul(&l.weights).to_vec(), &want, "matmul gives every output");
    for j in 0..k {
        eq(l.evaluate_index((), j).unwrap(), want[j], "evaluate_index gives its output");
    }
}
#[no_mangle]
pub extern "C-unwind" fn c28_many_outputs() {
    let k = [9, 33, 65, 257, 300][choose(bound(4, 5))];
    let v = [real(), real()];
    let w: Vec<f64> = (0..2 * k).map(|i| if i % 64 == 1 || i + 3 > 2 * k { real() } else { (i % 7) as f64 }).collect();
    let f = if flip() { Features::dense(v.to_vec()) } else { Features::sparse(2, vec![(0, v[0]), (1, v[1])]) };
    agree_with(2, k, f, v.to_vec(), w)
}
