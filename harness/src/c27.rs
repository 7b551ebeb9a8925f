//! C27: a scalar approximator predicts with, and trains, its weights
use crate::{common::*, sym::*, zoo::*};
use lfa::{basis::*, optim::*, Features, ScalarLFA, LFA};
use ndarray::Array1;
use std::cell::{Cell, RefCell};

#[no_mangle]
pub extern "C-unwind" fn c27_fresh() {
    let (b, x) = poly(2, 2);
    let n = b.exponents.len();
    let l = LFA::scalar(b, SGD(real()));
    eqs(&l.weights.to_vec(), &vec![0.0; n], "the weights start at zero");
    eq(l.evaluate(&x[..]).unwrap(), 0.0, "a fresh approximator predicts zero");
}

#[no_mangle]
pub extern "C-unwind" fn c27_evaluate() {
    let n = pick(0, bound(3, 4));
    let (f, v) = features(n);
    let w = reals(n);
    let l: ScalarLFA<_, _> = LFA::new(Const(f), laid_out(&w, choose(3)), SGD(real()));
    eq(l.evaluate(()).unwrap(), dot(&v, &w), "the prediction is the inner product");
    eqs(&l.weights.to_vec(), &w, "evaluating keeps the weights");
}

#[no_mangle]
pub extern "C-unwind" fn c27_evaluate_bases() {
    let w0 = real();
    macro_rules! go {
        ($b:expr, $x:expr) => {{
            let (b, x) = ($b, $x);
            let v = vals(&b.project(&x[..]).unwrap());
            let w = reals(v.len());
            let l = LFA::new(b, Array1::from(w.clone()), SGD(w0));
            eq(l.evaluate(&x[..]).unwrap(), dot(&v, &w), "the prediction is the inner product");
        }};
    }
    match choose(5) {
        0 => {
            let (b, x) = poly(2, 2);
            go!(b.with_bias(), x)
        }
        1 => {
            let (b, x) = four(2, 1);
            go!(b, x)
        }
        2 => {
            let (b, x) = kern(1, 2);
            go!(b, x)
        }
        3 => {
            let (b, x) = grid(1, 2);
            go!(b, x)
        }
        _ => {
            let (b, x) = tile(1, 2, 3);
            go!(b.stack(Bias::unit()), x)
        }
    }
}

/// the same history through the approximator and by hand
fn trains<O: Optimiser + Clone + PartialEq>(o: O, n: usize, steps: usize) {
    let mut by_hand = o.clone();
    let w = reals(n);
    let mut v = Array1::from(w.clone());
    // the basis projects every input to it
    let id = Closure::new(n, |f: &Features| -> lfa::Result<Features> { Ok(f.clone()) });
    let mut l = LFA::new(id, Array1::from(w), o);
    for _ in 0..steps {
        let (f, x) = features(n);
        match choose(2) {
            0 => {
                let e = real();
                ck(l.update(&f, e).is_ok(), "updating works");
                by_hand.step_scaled(&mut v.view_mut(), &f, e).unwrap();
            }
            _ => {
                // an error that depends on everything the closure sees
                let (c, t) = (real(), real());
                let p = dot(&x, &v.to_vec());
                let calls = Cell::new(0);
                let r = l.update_with(&f, |g, y| {
                    calls.set(calls.get() + 1);
                    eq(y, p, "the closure sees the current prediction");
                    denotes(g, &x, "the closure sees the features");
                    t - y + c * g.sum()
                });
                ck(r.is_ok(), "updating works");
                ck(calls.get() == 1, "the closure is called once");
                let e = t - p + c * x.iter().fold(0.0, |a, b| a + b);
                by_hand.step_scaled(&mut v.view_mut(), &f, e).unwrap();
            }
        }
        eqs(&l.weights.to_vec(), &v.to_vec(), "an update is one step of the optimiser");
        eq(l.evaluate(&f).unwrap(), dot(&x, &v.to_vec()), "the prediction follows the weights");
    }
}

#[no_mangle]
pub extern "C-unwind" fn c27_sgd() { trains(SGD(real()), pick(0, 2), 2) }
#[no_mangle]
pub extern "C-unwind" fn c27_isgd() { trains(ISGD(pos()), pick(1, bound(1, 2)), 2) }
#[no_mangle]
pub extern "C-unwind" fn c27_momentum() {
    let n = pick(1, bound(1, 2));
    trains(SGDMomentum::new(n, real(), real()), n, 2)
}
#[no_mangle]
pub extern "C-unwind" fn c27_nesterov() { trains(NAG::new(1, real(), real()), 1, 2) }
#[no_mangle]
pub extern "C-unwind" fn c27_adagrad() { trains(Adagrad::new(1, real()), 1, 2) }
#[no_mangle]
pub extern "C-unwind" fn c27_adam() { trains(Adam::new(1, real(), 0.5, 0.75), 1, 2) }
#[no_mangle]
pub extern "C-unwind" fn c27_progress() {
    // one SGD update changes the prediction error by the factor 1 - lr |features|^2,
    // an implicit one divides it by 1 + lr |features|^2
    let n = pick(1, 3);
    let (f, x) = features(n);
    let w = reals(n);
    let (lr, t) = (pos(), real());
    let z = dot(&x, &x);
    let e = t - dot(&x, &w);
    if flip() {
        let mut l = LFA::new(Const(f), Array1::from(w), SGD(lr));
        l.update_with((), |_, y| t - y).unwrap();
        eq(t - l.evaluate(()).unwrap(), e * (1.0 - lr * z), "the error shrinks as promised");
    } else {
        let mut l = LFA::new(Const(f), Array1::from(w), ISGD(lr));
        l.update_with((), |_, y| t - y).unwrap();
        eq((t - l.evaluate(()).unwrap()) * (1.0 + lr * z), e, "the error shrinks as promised");
    }
}
#[no_mangle]
pub extern "C-unwind" fn c27_many_features() {
    let n = width();
    let (f, v) = wide_features(n);
    let mut w = reals(n);
    let lr = real();
    let mut l: ScalarLFA<_, _> = LFA::new(Const(f), Array1::from(w.clone()), SGD(lr));
    let y = dot(&v, &w);
    eq(l.evaluate(()).unwrap(), y, "the prediction is the inner product");
    let e = real();
    let t = real();
    let e = if flip() {
        l.update((), e).unwrap();
        e
    } else {
        l.update_with((), |_, p| t - p).unwrap();
        t - y
    };
    for i in 0..n {
        w[i] = w[i] + lr * e * v[i];
    }
    eqs(&l.weights.to_vec(), &w, "an update is one step of the optimiser");
}
#[no_mangle]
pub extern "C-unwind" fn c27_many_updates() {
    let (lr, m) = (real(), 0.5);
    let id = Closure::new(1, |f: &Features| -> lfa::Result<Features> { Ok(f.clone()) });
    let mut w = real();
    let mut l = LFA::new(id, Array1::from(vec![w]), SGDMomentum::new(1, m, lr));
    let mut v = 0.0;
    for s in 0..bound(15, 50) {
        let x = real();
        let e = real();
        let f = if s % 3 == 1 { Features::sparse(1, vec![(0, x)]) } else { Features::dense(vec![x]) };
        if s % 2 == 0 {
            l.update(&f, e).unwrap();
        } else {
            l.update_with(&f, |_, _| e).unwrap();
        }
        v = m * v + e * x;
        w = w + lr * v;
        eq(l.weights[0], w, "an update is one step of the optimiser");
    }
    ck(l.weights.len() == 1, "the weights keep their shape");
}
#[no_mangle]
pub extern "C-unwind" fn c27_idle() {
    // hundreds of updates that change nothing, then one that does
    let lr = real();
    let id = Closure::new(2, |f: &Features| -> lfa::Result<Features> { Ok(f.clone()) });
    let w = reals(2);
    let mut l = LFA::new(id, Array1::from(w.clone()), SGD(lr));
    for s in 0..bound(300, 1000) {
        let f = if s % 3 == 1 { Features::sparse(2, vec![(1, 1.0)]) } else { Features::dense(vec![0.5, 0.25]) };
        if s % 2 == 0 {
            l.update(&f, 0.0).unwrap();
        } else {
            l.update_with(&f, |_, _| 0.0).unwrap();
        }
    }
    let (f, x) = features(2);
    let e = real();
    l.update(&f, e).unwrap();
    for i in 0..2 {
        eq(l.weights[i], w[i] + lr * e * x[i], "an update is one step of the optimiser");
    }
}

/// any doubles as errors, NaN and the infinities included
#[no_mangle]
pub extern "C-unwind" fn c27_fp_any_error() {
    let (w, e) = (real(), real());
    let mut l = LFA::new(Const(Features::dense(vec![1.0])), Array1::from(vec![w]), SGD(1.0));
    if flip() {
        l.update_with((), |_, v| {
            eq(v, w, "the closure sees the prediction");
            e
        })
        .unwrap();
    } else {
        l.update((), e).unwrap();
    }
    eq(l.weights[0], w + e, "the weight moves by the error");
    eq(l.evaluate(()).unwrap(), w + e, "and so does the prediction");
}

/// an optimiser of the user's that does anything at all with what it is given
pub struct Whim<'a> {
    /// the weights, activations and error it should see next
    due: &'a RefCell<(Vec<f64>, Vec<f64>, f64)>,
    calls: &'a Cell<usize>,
    fails: &'a Cell<bool>,
}
impl<'a> Optimiser for Whim<'a> {
    fn step_scaled(&mut self, w: &mut ndarray::ArrayViewMut1<f64>, f: &Features, e: f64) -> lfa::Result<()> {
        self.calls.set(self.calls.get() + 1);
        let mut due = self.due.borrow_mut();
        eqs(&w.to_vec(), &due.0, "the optimiser is given the weights");
        denotes(f, &due.1, "the optimiser is given the features");
        eq(e, due.2, "the optimiser is given the error");
        if self.fails.get() {
            return Err(lfa::Error::index_error(7, 5));
        }
        for i in 0..w.len() {
            if flip() {
                w[i] = real();
                due.0[i] = w[i];
            }
        }
        Ok(())
    }
    fn reset(&mut self) { ck(false, "updating does not reset the optimiser") }
}
#[no_mangle]
pub extern "C-unwind" fn c27_any_optimiser() {
    let n = pick(0, 2);
    let w = reals(n);
    let (due, calls, fails) = (RefCell::new((w.clone(), vec![], 0.0)), Cell::new(0), Cell::new(false));
    let id = Closure::new(n, |f: &Features| -> lfa::Result<Features> { Ok(f.clone()) });
    let mut l = LFA::new(id, laid_out(&w, choose(3)), Whim { due: &due, calls: &calls, fails: &fails });
    for s in 1..3 {
        let (f, x) = features(n);
        let e = real();
        let y = dot(&x, &due.borrow().0);
        due.borrow_mut().1 = x.clone();
        due.borrow_mut().2 = e;
        fails.set(s == 1 && flip());
        let r = if flip() {
            l.update(&f, e)
        } else {
            l.update_with(&f, |g, p| {
                eq(p, y, "the closure sees the current prediction");
                denotes(g, &x, "the closure sees the features");
                e
            })
        };
        ck(calls.get() == s, "an update is one step of the optimiser");
        ck(r.is_err() == fails.get(), "an update succeeds when the step does");
        let now = due.borrow().0.clone();
        eqs(&l.weights.to_vec(), &now, "the weights are what the optimiser made of them");
        eq(l.evaluate(&f).unwrap(), dot(&x, &now), "the prediction follows the weights");
        ck(calls.get() == s, "evaluating does not train");
    }
}
#[no_mangle]
pub extern "C-unwind" fn c27_fresh_huge() {
    let n = [1023, 1024, 1025, 1500, 2049, 4200][choose(bound(5, 6))];
    let x = real();
    let f: Vec<f64> = (0..n).map(|i| if i == 0 || i == n / 2 || i == n - 1 { x } else { 1.0 + (i % 3) as f64 }).collect();
    let l = LFA::scalar(Const(Features::dense(f)), SGD(real()));
    ck(l.weights.len() == n, "one weight per feature");
    ck(l.weights.iter().all(|&w| w == 0.0), "a fresh approximator has weights of zero");
    eq(l.evaluate(()).unwrap(), 0.0, "a fresh approximator predicts zero");
}
