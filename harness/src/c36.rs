//! C36: user code that panics or fails inside an update leaves the approximator whole
use crate::{common::*, opt::*, sym::*, zoo::*};
use lfa::{basis::*, optim::*, Error, Features, Result, VectorLFA, LFA};
use ndarray::{Array1, ArrayViewMut1};
use std::cell::Cell;

fn id(n: usize) -> Closure<impl Fn(&Features) -> Result<Features> + Clone> { Closure::new(n, |f: &Features| Ok(f.clone())) }
/// the features, or a panic in place of them
type In<'a> = Option<&'a Features>;
fn touchy(n: usize) -> Closure<impl Fn(In) -> Result<Features> + Clone> {
    Closure::new(n, |f: In| match f {
        Some(f) => Ok(f.clone()),
        None => panic!("basis"),
    })
}

/// operations some of which are cut short, and the same history without those
fn scalar<O: Optimiser + Clone + PartialEq>(o: O, n: usize, ops: usize) {
    let w = reals(n);
    let mut l = LFA::new(touchy(n), Array1::from(w.clone()), o.clone());
    let mut m = LFA::new(id(n), Array1::from(w), o);
    for _ in 0..ops {
        let (f, _) = features(n);
        let e = real();
        match choose(5) {
            0 => {
                ck(catch(|| l.update_with(Some(&f), |_, _| panic!("error function"))).is_none(), "the panic gets through");
            }
            1 => {
                ck(catch(|| l.update(None, e)).is_none(), "the panic gets through");
            }
            2 => {
                ck(catch(|| l.update_with(None, |_, y| y)).is_none(), "the panic gets through");
            }
            3 => {
                l.update(Some(&f), e).unwrap();
                m.update(&f, e).unwrap();
            }
            _ => {
                l.update_with(Some(&f), |_, y| e - y).unwrap();
                m.update_with(&f, |_, y| e - y).unwrap();
            }
        }
        eqs(&l.weights.to_vec(), &m.weights.to_vec(), "a panic leaves the weights alone");
        ck(l.optimiser == m.optimiser, "a panic leaves the optimiser alone");
        eq(l.evaluate(Some(&f)).unwrap(), m.evaluate(&f).unwrap(), "earlier panics do not show");
    }
}
#[no_mangle]
pub extern "C-unwind" fn c36_scalar_sgd() { scalar(SGD(real()), pick(0, 1), bound(2, 3)) }
#[no_mangle]
pub extern "C-unwind" fn c36_scalar_isgd() { scalar(ISGD(pos()), 1, 2) }
#[no_mangle]
pub extern "C-unwind" fn c36_scalar_momentum() { scalar(SGDMomentum::new(1, real(), real()), 1, 2) }
#[no_mangle]
pub extern "C-unwind" fn c36_scalar_nesterov() { scalar(NAG::new(1, real(), real()), 1, 2) }
#[no_mangle]
pub extern "C-unwind" fn c36_scalar_adagrad() { scalar(Adagrad::new(1, real()), 1, 2) }
#[no_mangle]
pub extern "C-unwind" fn c36_scalar_adam() { scalar(Adam::new(1, real(), 0.5, 0.75), 1, 2) }
#[no_mangle]
pub extern "C-unwind" fn c36_scalar_adamax() { scalar(AdaMax::new(1, real(), 0.5, 0.75), 1, 2) }

fn vector<O: Optimiser + Clone + PartialEq>(o: O, n: usize, k: usize) {
    let w = reals(n * k);
    let mut l: VectorLFA<_, _> = LFA::new(touchy(n), matrix(&w, n, k, flip()), o.clone());
    let (f, _) = features(n);
    match choose(4) {
        0 => ck(catch(|| l.update_with(Some(&f), |_, _| panic!("error function"))).is_none(), "the panic gets through"),
        1 => ck(catch(|| l.update(None, reals(k))).is_none(), "the panic gets through"),
        2 => ck(catch(|| l.update_index(None, 0, real())).is_none(), "the panic gets through"),
        _ => ck(catch(|| l.update_with(None, |_, y| y)).is_none(), "the panic gets through"),
    }
    ck(l.weights.dim() == (n, k), "a panic keeps the shape");
    eqs(&l.weights.iter().copied().collect::<Vec<f64>>(), &w, "a panic leaves the weights alone");
    ck(l.optimiser == o, "a panic leaves the optimiser alone");
}
#[no_mangle]
pub extern "C-unwind" fn c36_vector_sgd() { vector(SGD(real()), pick(1, 2), pick(1, bound(2, 3))) }
#[no_mangle]
pub extern "C-unwind" fn c36_vector_momentum() { vector(SGDMomentum::new(2, real(), real()), 2, 2) }
#[no_mangle]
pub extern "C-unwind" fn c36_vector_adam() { vector(Adam::new(1, real(), 0.5, 0.75), 1, 2) }

#[no_mangle]
pub extern "C-unwind" fn c36_errors_run_dry() {
    // the iterator over the errors panics at any of its items: every output
    // has either taken its whole step or none of it
    let (n, k) = (pick(1, 2), pick(1, 3));
    let w = reals(n * k);
    let (f, x) = features(n);
    let (lr, e) = (real(), reals(k));
    let at = choose(k + 1);
    let mut l: VectorLFA<_, _> = LFA::new(id(n), matrix(&w, n, k, flip()), SGD(lr));
    let r = catch(|| {
        l.update(
            &f,
            e.iter().enumerate().map(|(i, &e)| {
                if i == at {
                    panic!("errors")
                }
                e
            }),
        )
    });
    ck(r.is_none() == (at < k), "the panic gets through");
    ck(l.weights.dim() == (n, k), "a panic keeps the shape");
    for j in 0..k {
        let old: Vec<f64> = (0..n).map(|i| w[i * k + j]).collect();
        let new: Vec<f64> = (0..n).map(|i| old[i] + lr * e[j] * x[i]).collect();
        let got = l.weights.column(j).to_vec();
        if at == k {
            eqs(&got, &new, "without a panic every output takes its step");
        } else if j >= at {
            eqs(&got, &old, "an output whose error is not known stays");
        } else {
            let kept = (0..n).all(|i| got[i] == old[i]);
            if !kept {
                eqs(&got, &new, "a step is taken as a whole");
            }
        }
    }
}

/// takes plain steps and fails in the calls it is told to
#[derive(Clone, PartialEq, Debug)]
struct Moody {
    rate: f64,
    calls: usize,
    bad: Vec<usize>,
}
impl Optimiser for Moody {
    fn step_scaled(&mut self, w: &mut ArrayViewMut1<f64>, f: &Features, e: f64) -> Result<()> {
        let c = self.calls;
        self.calls += 1;
        if self.bad.contains(&c) {
            return Err(Error::index_error(c, 99));
        }
        f.scaled_addto(self.rate * e, w);
        Ok(())
    }
}
#[no_mangle]
pub extern "C-unwind" fn c36_failing_optimiser_scalar() {
    let n = pick(1, 2);
    let w = reals(n);
    let (f, x) = features(n);
    let (lr, e) = (real(), real());
    let bad = flip();
    let o = Moody { rate: lr, calls: 0, bad: if bad { vec![0] } else { vec![] } };
    let mut l = LFA::new(id(n), Array1::from(w.clone()), o);
    let r = if flip() { l.update(&f, e) } else { l.update_with(&f, |_, _| e) };
    ck(l.optimiser.calls == 1, "the optimiser is asked once");
    if bad {
        ck(r == Err(Error::index_error(0, 99)), "the error of the optimiser is returned");
        eqs(&l.weights.to_vec(), &w, "the approximator adds nothing of its own");
    } else {
        ck(r.is_ok(), "a step that works is no error");
        for i in 0..n {
            eq(l.weights[i], w[i] + lr * e * x[i], "the step is taken");
        }
    }
}
#[no_mangle]
pub extern "C-unwind" fn c36_failing_optimiser_vector() {
    // any of the outputs' steps may fail: the first error is returned, and each
    // output has its whole step or none of it
    let (n, k) = (pick(1, 2), pick(1, 3));
    let w = reals(n * k);
    let (f, x) = features(n);
    let (lr, e) = (real(), reals(k));
    let bad: Vec<usize> = (0..k).filter(|_| flip()).collect();
    let o = Moody { rate: lr, calls: 0, bad: bad.clone() };
    let mut l: VectorLFA<_, _> = LFA::new(id(n), matrix(&w, n, k, false), o);
    let r = if flip() { l.update(&f, e.clone()) } else { l.update_with(&f, |_, _| Array1::from(e.clone())) };
    match bad.first() {
        Some(&b) => ck(r == Err(Error::index_error(b, 99)), "the first error of the optimiser is returned"),
        None => ck(r.is_ok(), "steps that work are no error"),
    }
    for j in 0..k {
        let old: Vec<f64> = (0..n).map(|i| w[i * k + j]).collect();
        let new: Vec<f64> = (0..n).map(|i| old[i] + lr * e[j] * x[i]).collect();
        let got = l.weights.column(j).to_vec();
        if bad.contains(&j) {
            eqs(&got, &old, "an output whose step fails stays");
        } else if bad.is_empty() || j < bad[0] {
            eqs(&got, &new, "the outputs before it take their steps");
        } else if !(0..n).all(|i| got[i] == old[i]) {
            eqs(&got, &new, "a step is taken as a whole");
        }
    }
}
#[no_mangle]
pub extern "C-unwind" fn c36_failing_optimiser_index() {
    let (n, k) = (pick(1, 2), pick(1, 3));
    let w = reals(n * k);
    let (f, _) = features(n);
    let o = Moody { rate: 1.0, calls: 0, bad: vec![0] };
    let mut l: VectorLFA<_, _> = LFA::new(id(n), matrix(&w, n, k, flip()), o);
    ck(l.update_index(&f, choose(k), real()) == Err(Error::index_error(0, 99)), "the error of the optimiser is returned");
    eqs(&l.weights.iter().copied().collect::<Vec<f64>>(), &w, "the approximator adds nothing of its own");
}
#[no_mangle]
pub extern "C-unwind" fn c36_index_out_of_range() {
    // asking for an output that does not exist panics and changes nothing
    let (n, k) = (pick(1, 2), pick(0, 3));
    let w = reals(n * k);
    let (f, _) = features(n);
    let o = SGDMomentum::new(n, real(), real());
    let mut l: VectorLFA<_, _> = LFA::new(id(n), matrix(&w, n, k, flip()), o.clone());
    let i = int();
    assume(i >= k);
    if flip() {
        ck(catch(|| l.update_index(&f, i, 1.0)).map_or(true, |r| r.is_err()), "there is no such output");
    } else {
        ck(catch(|| l.evaluate_index(&f, i)).map_or(true, |r| r.is_err()), "there is no such output");
    }
    ck(l.weights.dim() == (n, k), "the shape stays");
    eqs(&l.weights.iter().copied().collect::<Vec<f64>>(), &w, "the weights stay");
    ck(l.optimiser == o, "the optimiser stays");
}
#[no_mangle]
pub extern "C-unwind" fn c36_long() {
    // many updates, every third of which is cut short
    let n = 2;
    let (lr, m) = (real(), 0.5);
    let w = reals(n);
    let mut l = LFA::new(touchy(n), Array1::from(w.clone()), SGDMomentum::new(n, m, lr));
    let mut p = LFA::new(id(n), Array1::from(w), SGDMomentum::new(n, m, lr));
    for k in 0..bound(12, 30) {
        let (f, _, e) = turn(n, k);
        if k % 3 == 1 {
            ck(catch(|| l.update_with(Some(&f), |_, _| panic!("error function"))).is_none(), "the panic gets through");
        } else {
            l.update(Some(&f), e).unwrap();
            p.update(&f, e).unwrap();
        }
    }
    eqs(&l.weights.to_vec(), &p.weights.to_vec(), "a panic leaves the weights alone");
    ck(l.optimiser == p.optimiser, "a panic leaves the optimiser alone");
}
#[no_mangle]
pub extern "C-unwind" fn c36_wide() {
    let n = [9, 17, 33, 65][choose(4)];
    let k = [2, 5, 9][choose(3)];
    let w: Vec<f64> = (0..n * k).map(|i| if i % 7 == 0 { real() } else { i as f64 }).collect();
    let f = Features::dense((0..n).map(|i| if i % 5 == 0 { real() } else { 1.0 }).collect::<Vec<f64>>());
    let mut l: VectorLFA<_, _> = LFA::new(touchy(n), matrix(&w, n, k, flip()), SGDMomentum::new(n, 0.5, 0.25));
    let before = l.optimiser.clone();
    match choose(3) {
        0 => ck(catch(|| l.update_with(Some(&f), |_, _| panic!("error function"))).is_none(), "the panic gets through"),
        1 => ck(catch(|| l.update(None, reals(k))).is_none(), "the panic gets through"),
        _ => ck(catch(|| l.update_with(None, |_, y| y)).is_none(), "the panic gets through"),
    }
    ck(l.weights.dim() == (n, k), "a panic keeps the shape");
    eqs(&l.weights.iter().copied().collect::<Vec<f64>>(), &w, "a panic leaves the weights alone");
    ck(l.optimiser == before, "a panic leaves the optimiser alone");
}
