//! C37: training moves predictions by the promised amount and towards the target
use crate::{common::*, opt::*, sym::*, zoo::*};
use lfa::{basis::*, optim::*, Features, Result, ScalarLFA, VectorLFA, LFA};
use ndarray::Array1;

fn id(n: usize) -> Closure<impl Fn(&Features) -> Result<Features> + Clone> { Closure::new(n, |f: &Features| Ok(f.clone())) }

#[no_mangle]
pub extern "C-unwind" fn c37_sgd() {
    // the prediction at any input moves by rate * error * (inner product of the features)
    let n = pick(1, bound(2, 3));
    let ((f, x), (g, y)) = (features(n), features(n));
    let w = reals(n);
    let (lr, e) = (real(), real());
    let mut l: ScalarLFA<_, _> = LFA::new(id(n), laid_out(&w, choose(3)), SGD(lr));
    let (a, b) = (l.evaluate(&f).unwrap(), l.evaluate(&g).unwrap());
    l.update(&f, e).unwrap();
    eq(l.evaluate(&f).unwrap() - a, lr * e * dot(&x, &x), "the prediction moves by rate times error times the squared norm");
    eq(l.evaluate(&g).unwrap() - b, lr * e * dot(&x, &y), "other predictions move by the inner product");
}
#[no_mangle]
pub extern "C-unwind" fn c37_isgd() {
    let n = pick(1, bound(2, 3));
    let ((f, x), (g, y)) = (features(n), features(n));
    let w = reals(n);
    let (lr, e) = (pos(), real());
    let z = 1.0 + lr * dot(&x, &x);
    let mut l: ScalarLFA<_, _> = LFA::new(id(n), laid_out(&w, choose(3)), ISGD(lr));
    let (a, b) = (l.evaluate(&f).unwrap(), l.evaluate(&g).unwrap());
    l.update(&f, e).unwrap();
    eq((l.evaluate(&f).unwrap() - a) * z, (z - 1.0) * e, "an implicit step closes the fraction it promises");
    eq((l.evaluate(&g).unwrap() - b) * z, lr * e * dot(&x, &y), "other predictions move by the inner product");
}
#[no_mangle]
pub extern "C-unwind" fn c37_isgd_never_overshoots() {
    // for any rate, however large
    let (x, w, t, lr) = (real(), real(), real(), real());
    assume(lr >= 0.0);
    let f = if flip() { Features::dense(vec![x]) } else { Features::sparse(1, vec![(0, x)]) };
    let mut l: ScalarLFA<_, _> = LFA::new(id(1), Array1::from(vec![w]), ISGD(lr));
    let d0 = t - l.evaluate(&f).unwrap();
    l.update_with(&f, |_, y| t - y).unwrap();
    let d1 = t - l.evaluate(&f).unwrap();
    if d0 >= 0.0 {
        le(0.0, d1, "the prediction does not pass the target");
        le(d1, d0, "the prediction does not move away");
    } else {
        le(d1, 0.0, "the prediction does not pass the target");
        le(d0, d1, "the prediction does not move away");
    }
}
/// repeated updates on one input: the error shrinks geometrically
#[no_mangle]
pub extern "C-unwind" fn c37_geometric() {
    let n = pick(1, 2);
    let (f, x) = features(n);
    let (lr, t) = (real(), real());
    let mut l: ScalarLFA<_, _> = LFA::scalar(id(n), SGD(lr));
    let q = 1.0 - lr * dot(&x, &x);
    let mut e = t;
    for _ in 0..bound(3, 5) {
        l.update_with(&f, |_, y| t - y).unwrap();
        e = e * q;
        eq(t - l.evaluate(&f).unwrap(), e, "the error shrinks by the same factor in every step");
    }
}
#[no_mangle]
pub extern "C-unwind" fn c37_many_updates() {
    // tabular features: after k steps the error is (1 - rate)^k of the first
    let n = [1, 5, 17, 33][choose(4)];
    let i = [0, n / 2, n - 1][choose(3)];
    let f = if flip() {
        Features::unitary(n, Some(i))
    } else {
        Features::dense((0..n).map(|j| if i == j { 1.0 } else { 0.0 }).collect::<Vec<f64>>())
    };
    let lr = [0.5, 1.0, 0.0625, 1.5][choose(4)];
    let w = reals(n);
    let t = real();
    let mut l: ScalarLFA<_, _> = LFA::new(id(n), Array1::from(w.clone()), SGD(lr));
    let mut e = t - w[i];
    for _ in 0..bound(20, 40) {
        l.update_with(&f, |_, y| t - y).unwrap();
        e = e * (1.0 - lr);
    }
    eq(l.weights[i], t - e, "the weight approaches the target");
    for j in 0..n {
        if j != i {
            eq(l.weights[j], w[j], "weights of other cells stay");
        }
    }
}
/// a fresh optimiser with a positive rate never moves the prediction away from the target
fn towards<O: Optimiser>(o: O, n: usize) {
    let (f, _) = features(n);
    let w = reals(n);
    let e = real();
    let mut l: ScalarLFA<_, _> = LFA::new(id(n), Array1::from(w), o);
    let a = l.evaluate(&f).unwrap();
    l.update(&f, e).unwrap();
    let d = l.evaluate(&f).unwrap() - a;
    if e >= 0.0 {
        le(0.0, d, "a positive error does not lower the prediction");
    } else {
        le(d, 0.0, "a negative error does not raise the prediction");
    }
}
#[no_mangle]
pub extern "C-unwind" fn c37_towards_sgd() { towards(SGD(pos()), pick(1, bound(1, 2))) }
#[no_mangle]
pub extern "C-unwind" fn c37_towards_isgd() { towards(ISGD(pos()), 1) }
#[no_mangle]
pub extern "C-unwind" fn c37_towards_momentum() {
    let m = unit();
    towards(SGDMomentum::new(1, m, pos()), 1)
}
#[no_mangle]
pub extern "C-unwind" fn c37_towards_nesterov() {
    let m = unit();
    towards(NAG::new(1, m, pos()), 1)
}
#[no_mangle]
pub extern "C-unwind" fn c37_towards_adagrad() { towards(Adagrad::new(1, pos()), 1) }
#[no_mangle]
pub extern "C-unwind" fn c37_towards_adam() { towards(Adam::new(1, pos(), 0.5, 0.75), 1) }
#[no_mangle]
pub extern "C-unwind" fn c37_towards_adamax() { towards(AdaMax::new(1, pos(), 0.5, 0.75), 1) }

#[no_mangle]
pub extern "C-unwind" fn c37_bases() {
    // with the crate's own bases: the squared norm is that of the projection
    macro_rules! go {
        ($b:expr, $x:expr) => {{
            let (b, x) = ($b, $x);
            let v = vals(&b.project(&x[..]).unwrap());
            let w = reals(v.len());
            let (lr, t) = (real(), real());
            let e = t - dot(&v, &w);
            let mut l = LFA::new(b, Array1::from(w), SGD(lr));
            l.update_with(&x[..], |_, y| t - y).unwrap();
            eq(t - l.evaluate(&x[..]).unwrap(), e * (1.0 - lr * dot(&v, &v)), "the error shrinks as promised");
        }};
    }
    match choose(5) {
        0 => {
            let (b, x) = poly(1, 2);
            go!(b.with_bias(), x)
        }
        1 => {
            let (b, x) = four(1, 2);
            go!(b, x)
        }
        2 => {
            let (b, x) = kern(1, 1);
            go!(b, x)
        }
        3 => {
            let (b, x) = grid(1, 2);
            go!(b, x)
        }
        _ => {
            let (b, x) = tile(1, 2, 3);
            go!(b.stack(Bias::unit()), x)
        }
    }
}
#[no_mangle]
pub extern "C-unwind" fn c37_vector() {
    // every output moves by its own error
    let (n, k) = (pick(1, 2), pick(1, bound(2, 3)));
    let (f, x) = features(n);
    let w = reals(n * k);
    let (lr, t) = (real(), reals(k));
    let mut l: VectorLFA<_, _> = LFA::new(id(n), matrix(&w, n, k, flip()), SGD(lr));
    let y0 = l.evaluate(&f).unwrap().to_vec();
    let q = 1.0 - lr * dot(&x, &x);
    if flip() {
        l.update_with(&f, |_, y| Array1::from(t.clone()) - y).unwrap();
        let y1 = l.evaluate(&f).unwrap().to_vec();
        ck(y1.len() == k, "one prediction for each output");
        for j in 0..k {
            eq(t[j] - y1[j], (t[j] - y0[j]) * q, "the error of every output shrinks as promised");
        }
    } else {
        let i = choose(k);
        l.update_index(&f, i, t[i] - y0[i]).unwrap();
        let y1 = l.evaluate(&f).unwrap().to_vec();
        for j in 0..k {
            eq(t[j] - y1[j], (t[j] - y0[j]) * if i == j { q } else { 1.0 }, "one output moves, the others stay");
        }
    }
}
#[no_mangle]
pub extern "C-unwind" fn c37_wide() {
    let n = width();
    let (f, x) = wide_known(n);
    let w: Vec<f64> = (0..n).map(|i| if i % 16 == 0 { real() } else { 0.5 * (i % 5) as f64 }).collect();
    let (lr, e) = (real(), real());
    let mut l: ScalarLFA<_, _> = LFA::new(id(n), Array1::from(w.clone()), SGD(lr));
    l.update(&f, e).unwrap();
    eq(l.evaluate(&f).unwrap() - dot(&x, &w), lr * e * dot(&x, &x), "the prediction moves by rate times error times the squared norm");
}
#[no_mangle]
pub extern "C-unwind" fn c37_towards_any_momentum() {
    // however strong the momentum, there is none yet
    let m = real();
    assume(m >= 0.0);
    if flip() {
        towards(SGDMomentum::new(1, m, pos()), 1)
    } else {
        towards(NAG::new(1, m, pos()), 1)
    }
}
