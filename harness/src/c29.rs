//! C29: updating one output of a vector approximator does not disturb the others
use crate::{common::*, sym::*, zoo::*};
use lfa::{basis::*, optim::*, Features, VectorLFA, LFA};
use ndarray::{Array1, Array2};
use std::cell::Cell;

fn col(a: &Array2<f64>, j: usize) -> Vec<f64> { a.column(j).to_vec() }

/// the step of an independent scalar approximator on one column
fn scalar<O: Optimiser + Clone>(o: &O, f: &Features, w: &[f64], e: f64) -> Vec<f64> {
    let mut l = LFA::new(Const(f.clone()), Array1::from(w.to_vec()), o.clone());
    l.update((), e).unwrap();
    l.weights.to_vec()
}

fn setup<O: Optimiser + Clone>(o: &O, n: usize, k: usize) -> (Features, Vec<f64>, VectorLFA<Const, O>, Array2<f64>) {
    let (f, v) = features(n);
    let w = reals(n * k);
    let m = matrix(&w, n, k, flip());
    (f.clone(), v, LFA::new(Const(f), m.clone(), o.clone()), m)
}

/// errors for fewer, as many, or more outputs than there are
fn all<O: Optimiser + Clone>(o: O, n: usize, k: usize) {
    let (f, _, mut l, w) = setup(&o, n, k);
    let e = reals(pick(0, k + 1));
    ck(l.update((), e.clone()).is_ok(), "updating works");
    for j in 0..k {
        let want = if j < e.len() { scalar(&o, &f, &col(&w, j), e[j]) } else { col(&w, j) };
        eqs(&col(&l.weights, j), &want, "every output takes its own step");
    }
}
fn one<O: Optimiser + Clone>(o: O, n: usize, k: usize) {
    let (f, _, mut l, w) = setup(&o, n, k);
    let (i, e) = (choose(k), real());
    ck(l.update_index((), i, e).is_ok(), "updating works");
    for j in 0..k {
        let want = if j == i { scalar(&o, &f, &col(&w, j), e) } else { col(&w, j) };
        eqs(&col(&l.weights, j), &want, "only the chosen output takes a step");
    }
}
fn with<O: Optimiser + Clone>(o: O, n: usize, k: usize, how: usize) {
    let (f, v, mut l, w) = setup(&o, n, k);
    let t = reals(k);
    let c = real();
    let y: Vec<f64> = (0..k).map(|j| dot(&v, &col(&w, j))).collect();
    let e: Vec<f64> = (0..k).map(|j| t[j] - c * y[j]).collect();
    let calls = Cell::new(0);
    let r = l.update_with((), |g, p| {
        calls.set(calls.get() + 1);
        denotes(g, &v, "the closure sees the features");
        eqs(&p.to_vec(), &y, "the closure sees the current predictions");
        laid_out(&(0..p.len()).map(|j| t[j] - c * p[j]).collect::<Vec<f64>>(), how)
    });
    ck(r.is_ok(), "updating works");
    ck(calls.get() == 1, "the closure is called once");
    for j in 0..k {
        eqs(&col(&l.weights, j), &scalar(&o, &f, &col(&w, j), e[j]), "every output takes its own step");
    }
}

/// a closure that answers with fewer errors, or more, than there are outputs
#[no_mangle]
pub extern "C-unwind" fn c29_with_fewer() {
    let o = SGD(real());
    let (n, k) = (pick(1, 2), pick(0, 3));
    let (f, _, mut l, w) = setup(&o, n, k);
    let e = reals(pick(0, k + 1));
    ck(l.update_with((), |_, _| Array1::from(e.clone())).is_ok(), "updating works");
    for j in 0..k {
        let want = if j < e.len() { scalar(&o, &f, &col(&w, j), e[j]) } else { col(&w, j) };
        eqs(&col(&l.weights, j), &want, "the outputs there are errors for take their steps, the others stay");
    }
}

#[no_mangle]
pub extern "C-unwind" fn c29_update_sgd() { all(SGD(real()), pick(1, 2), pick(0, bound(2, 3))) }
#[no_mangle]
pub extern "C-unwind" fn c29_update_isgd() { all(ISGD(pos()), pick(1, bound(1, 2)), pick(1, 3)) }
#[no_mangle]
pub extern "C-unwind" fn c29_index_sgd() { one(SGD(real()), pick(1, bound(2, 3)), pick(1, 3)) }
#[no_mangle]
pub extern "C-unwind" fn c29_index_isgd() { one(ISGD(pos()), pick(1, 2), pick(1, 3)) }
#[no_mangle]
pub extern "C-unwind" fn c29_with_sgd() { with(SGD(real()), pick(1, 2), pick(0, bound(2, 3)), choose(3)) }
#[no_mangle]
pub extern "C-unwind" fn c29_with_isgd() { with(ISGD(pos()), 1, pick(1, 3), choose(3)) }
#[no_mangle]
pub extern "C-unwind" fn c29_index_stateful() {
    // one output, whatever the optimiser: the others do not move
    let (n, k) = (pick(1, 2), pick(1, 2));
    macro_rules! go {
        ($o:expr) => {
            one($o, n, k)
        };
    }
    match choose(5) {
        0 => go!(SGDMomentum::new(n, real(), real())),
        1 => go!(NAG::new(n, real(), real())),
        2 => go!(Adagrad::new(n, real())),
        3 => go!(Adam::new(n, real(), 0.5, 0.75)),
        _ => go!(AdaMax::new(n, real(), 0.5, 0.75)),
    }
}
#[no_mangle]
pub extern "C-unwind" fn c29_one_output_stateful() {
    // with a single output a vector approximator is a scalar one over any history
    let n = pick(1, 2);
    macro_rules! go {
        ($o:expr) => {{
            let o = $o;
            let w = reals(n);
            let id = |n| Closure::new(n, |f: &Features| -> lfa::Result<Features> { Ok(f.clone()) });
            let mut a: VectorLFA<_, _> = LFA::new(id(n), matrix(&w, n, 1, false), o.clone());
            let mut b = LFA::new(id(n), Array1::from(w), o);
            for s in 0..2 {
                let (f, _) = features(n);
                let e = real();
                match (s + choose(3)) % 3 {
                    0 => a.update(&f, vec![e]).unwrap(),
                    1 => a.update_index(&f, 0, e).unwrap(),
                    _ => a.update_with(&f, |_, _| Array1::from(vec![e])).unwrap(),
                }
                b.update(&f, e).unwrap();
                eqs(&col(&a.weights, 0), &b.weights.to_vec(), "a single output is a scalar approximator");
            }
        }};
    }
    match choose(4) {
        0 => go!(SGD(real())),
        1 => go!(SGDMomentum::new(n, real(), real())),
        2 => go!(NAG::new(n, real(), real())),
        _ => go!(Adagrad::new(n, real())),
    }
}

/// a stateful optimiser and a list of errors: the first output takes its own
/// step, outputs beyond the list do not move
fn first_and_rest<O: Optimiser + Clone>(o: O, n: usize, k: usize) {
    let (f, _, mut l, w) = setup(&o, n, k);
    let e = reals(pick(0, 1));
    ck(l.update((), e.clone()).is_ok(), "updating works");
    for j in 0..k {
        let want = if j < e.len() { scalar(&o, &f, &col(&w, j), e[j]) } else { col(&w, j) };
        eqs(&col(&l.weights, j), &want, "every output takes its own step");
    }
}
#[no_mangle]
pub extern "C-unwind" fn c29_update_stateful() {
    let (n, k) = (pick(1, 2), pick(1, 2));
    match choose(5) {
        0 => first_and_rest(SGDMomentum::new(n, real(), real()), n, k),
        1 => first_and_rest(NAG::new(n, real(), real()), n, k),
        2 => first_and_rest(Adagrad::new(n, real()), n, k),
        3 => first_and_rest(Adam::new(n, real(), 0.5, 0.75), n, k),
        _ => first_and_rest(AdaMax::new(n, real(), 0.5, 0.75), n, k),
    }
}

/// known findings: the one state of a stateful optimiser is shared by all
/// outputs, so the second one steps with what the first left behind
fn shared<O: Optimiser + Clone>(o: O) {
    let (a, b, x) = (real_in(-2.0, 2.0), real_in(-2.0, 2.0), real_in(-2.0, 2.0));
    let mut l = LFA::vector(Const(Features::dense(vec![x])), o.clone(), 2);
    if flip() {
        l.update((), vec![a, b]).unwrap();
    } else {
        l.update_with((), |_, _| Array1::from(vec![a, b])).unwrap();
    }
    let f = Features::dense(vec![x]);
    eqs(&col(&l.weights, 0), &scalar(&o, &f, &[0.0], a), "the first output takes its own step");
    eqs(&col(&l.weights, 1), &scalar(&o, &f, &[0.0], b), "the second output of one update takes its own step");
}
#[no_mangle]
pub extern "C-unwind" fn c29_shared_momentum() { shared(SGDMomentum::new(1, 0.5, 1.0)) }
#[no_mangle]
pub extern "C-unwind" fn c29_shared_nesterov() { shared(NAG::new(1, 0.5, 1.0)) }
#[no_mangle]
pub extern "C-unwind" fn c29_shared_adagrad() { shared(Adagrad::new(1, 1.0)) }
#[no_mangle]
pub extern "C-unwind" fn c29_shared_adam() { shared(Adam::new(1, 1.0, 0.5, 0.75)) }
#[no_mangle]
pub extern "C-unwind" fn c29_shared_adamax() { shared(AdaMax::new(1, 1.0, 0.5, 0.75)) }

/// errors that are any doubles, infinities and NaN included: the outputs still
/// take their own steps
#[no_mangle]
pub extern "C-unwind" fn c29_fp_any_error() {
    let k = pick(1, 3);
    let f = Features::dense(vec![2.0]);
    let e = reals(k);
    let w = vec![0.5, -1.0, 4.0];
    let mut l: VectorLFA<_, _> = LFA::new(Const(f.clone()), matrix(&w[..k], 1, k, false), SGD(0.25));
    if flip() {
        ck(l.update((), e.clone()).is_ok(), "updating works");
    } else {
        ck(l.update_with((), |_, _| Array1::from(e.clone())).is_ok(), "updating works");
    }
    for j in 0..k {
        eqs(&col(&l.weights, j), &scalar(&SGD(0.25), &f, &w[j..j + 1], e[j]), "every output takes its own step");
    }
}

/// many features or many outputs
fn shapes() -> (usize, usize) { [(1, 9), (2, 17), (1, 33), (1, 65), (9, 1), (9, 2), (17, 2), (33, 1), (65, 2), (9, 9), (1, 300), (300, 1), (2, 130)][choose(13)] }

fn big(how: usize) {
    let (n, k) = shapes();
    let lr = real();
    let (f, v) = wide_features(n);
    let w = reals(n * k);
    let m = matrix(&w, n, k, flip());
    let mut l: VectorLFA<_, _> = LFA::new(Const(f), m.clone(), SGD(lr));
    let mut e = vec![0.0; k];
    match how {
        0 => {
            let short = flip();
            for j in 0..k {
                if !short || j + 1 < k {
                    e[j] = real();
                }
            }
            let s = e[..if short { k - 1 } else { k }].to_vec();
            ck(l.update((), s).is_ok(), "updating works");
        }
        1 => {
            let j = [0, k / 2, k - 1][choose(3)];
            e[j] = real();
            ck(l.update_index((), j, e[j]).is_ok(), "updating works");
        }
        _ => {
            let t = reals(k);
            for j in 0..k {
                e[j] = t[j] - dot(&v, &col(&m, j));
            }
            let r = l.update_with((), |_, p| Array1::from((0..k).map(|j| t[j] - p[j]).collect::<Vec<f64>>()));
            ck(r.is_ok(), "updating works");
        }
    }
    for j in 0..k {
        for i in 0..n {
            eq(l.weights[[i, j]], m[[i, j]] + lr * e[j] * v[i], "every output takes its own step");
        }
    }
}
#[no_mangle]
pub extern "C-unwind" fn c29_many_update() { big(0) }
#[no_mangle]
pub extern "C-unwind" fn c29_many_index() { big(1) }
#[no_mangle]
pub extern "C-unwind" fn c29_many_with() { big(2) }
#[no_mangle]
pub extern "C-unwind" fn c29_long_single() {
    // a long history with one output
    let o = SGDMomentum::new(1, 0.9, real());
    let w = reals(1);
    let id = |n| Closure::new(n, |f: &Features| -> lfa::Result<Features> { Ok(f.clone()) });
    let mut a: VectorLFA<_, _> = LFA::new(id(1), matrix(&w, 1, 1, false), o.clone());
    let mut b = LFA::new(id(1), Array1::from(w), o);
    for s in 0..bound(12, 40) {
        let f = if s % 2 == 0 { dense(1).0 } else { Features::sparse(1, vec![(0, real())]) };
        let e = real();
        match s % 3 {
            0 => a.update(&f, vec![e]).unwrap(),
            1 => a.update_index(&f, 0, e).unwrap(),
            _ => a.update_with(&f, |_, _| Array1::from(vec![e])).unwrap(),
        }
        b.update(&f, e).unwrap();
        eqs(&col(&a.weights, 0), &b.weights.to_vec(), "a single output is a scalar approximator");
    }
}

/// an optimiser of the user's that writes anything at all to the weights of the
/// column it is given; columns are told apart by their weights
struct Whim<'a> {
    k: usize,
    x: &'a [f64],
    e: &'a [f64],
    /// how often each column was stepped, and its weights
    seen: &'a std::cell::RefCell<Vec<(usize, Vec<f64>)>>,
}
impl<'a> Optimiser for Whim<'a> {
    fn step_scaled(&mut self, w: &mut ndarray::ArrayViewMut1<f64>, f: &Features, e: f64) -> lfa::Result<()> {
        let j = (0..self.k).find(|&j| w[0] == j as f64 + 1.0);
        ck(j.is_some(), "the optimiser is given a column of the weights");
        let j = j.unwrap();
        let mut seen = self.seen.borrow_mut();
        seen[j].0 += 1;
        eqs(&w.to_vec(), &seen[j].1, "the optimiser is given a column of the weights");
        denotes(f, self.x, "the optimiser is given the features");
        eq(e, self.e[j], "the optimiser is given the error of that output");
        for i in 1..w.len() {
            w[i] = real();
            seen[j].1[i] = w[i];
        }
        Ok(())
    }
    fn reset(&mut self) { ck(false, "updating does not reset the optimiser") }
}
#[no_mangle]
pub extern "C-unwind" fn c29_any_optimiser() {
    let (n, k) = (pick(1, 3), pick(1, 3));
    let w: Vec<f64> = (0..n * k).map(|i| if i < k { i as f64 + 1.0 } else { real() }).collect();
    let (f, x) = features(n);
    let e = reals(k);
    let m = matrix(&w, n, k, flip());
    let seen = std::cell::RefCell::new((0..k).map(|j| (0, col(&m, j))).collect::<Vec<_>>());
    let mut l: VectorLFA<_, _> = LFA::new(Const(f), m.clone(), Whim { k, x: &x, e: &e, seen: &seen });
    let g = pick(0, k);
    let only = choose(k);
    let how = choose(3);
    match how {
        0 => l.update((), e[..g].to_vec()).unwrap(),
        1 => l.update_index((), only, e[only]).unwrap(),
        _ => {
            let y: Vec<f64> = (0..k).map(|j| dot(&x, &col(&m, j))).collect();
            l.update_with((), |_, p| {
                eqs(&p.to_vec(), &y, "the closure sees the current predictions");
                Array1::from(e[..g].to_vec())
            })
            .unwrap()
        }
    }
    let seen = seen.borrow();
    for j in 0..k {
        let steps = if how == 1 { j == only } else { j < g };
        ck(seen[j].0 == steps as usize, "every output with an error takes one step");
        eqs(&col(&l.weights, j), &seen[j].1, "its weights are what the optimiser made of them");
    }
}
#[no_mangle]
pub extern "C-unwind" fn c29_unknown_length() {
    // errors from an iterator that does not know how many there are
    let (n, k) = (pick(1, 2), pick(1, 3));
    let o = SGD(real());
    let (f, _, mut l, w) = setup(&o, n, k);
    let e = reals(pick(0, k + 1));
    match choose(4) {
        0 => l.update((), e.iter().copied().filter(|_| true).collect::<Vec<f64>>().into_iter().filter(|_| true)),
        1 => l.update((), e.iter().copied().flat_map(|x| Some(x))),
        2 => {
            let mut i = 0;
            l.update((), std::iter::from_fn(|| {
                i += 1;
                e.get(i - 1).copied()
            }))
        }
        _ => l.update((), e.iter().copied().chain(None).take_while(|_| true)),
    }
    .unwrap();
    for j in 0..k {
        let want = if j < e.len() { scalar(&o, &f, &col(&w, j), e[j]) } else { col(&w, j) };
        eqs(&col(&l.weights, j), &want, "every output takes its own step");
    }
}
#[no_mangle]
pub extern "C-unwind" fn c29_layouts() {
    // weights of any layout in memory
    let (n, k) = (2, pick(1, 3));
    let o = SGD(real());
    let (f, x) = features(n);
    let w = reals(n * k);
    let how = choose(5);
    let m = matrix(&w, n, k, false);
    let mut l: VectorLFA<_, _> = LFA::new(Const(f.clone()), any_matrix(&w, n, k, how), o.clone());
    let e = reals(k);
    let only = choose(k);
    let kind = choose(3);
    match kind {
        0 => l.update((), e.clone()).unwrap(),
        1 => l.update_index((), only, e[only]).unwrap(),
        _ => l
            .update_with((), |_, p| {
                let y: Vec<f64> = (0..k).map(|j| dot(&x, &col(&m, j))).collect();
                eqs(&p.to_vec(), &y, "the closure sees the current predictions");
                laid_out(&e, if k > 1 { 2 } else { 1 })
            })
            .unwrap(),
    }
    for j in 0..k {
        let want = if kind != 1 || j == only { scalar(&o, &f, &col(&m, j), e[j]) } else { col(&m, j) };
        eqs(&col(&l.weights, j), &want, "every output takes its own step");
    }
}
