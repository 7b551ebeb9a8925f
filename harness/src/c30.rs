//! C30: a failing basis leaves the approximator untouched
use crate::{common::*, opt::*, sym::*, zoo::*};
use lfa::{basis::*, optim::*, Error, Features, Result, VectorLFA, LFA};
use ndarray::Array1;
use std::cell::Cell;

fn error(n: usize) -> Error { Error::index_error(n, 7) }

/// input: features, or the number of an error
type In<'a> = std::result::Result<&'a Features, usize>;
fn basis(n: usize) -> Closure<impl Fn(In) -> Result<Features> + Clone> {
    Closure::new(n, |i: In| match i {
        Ok(f) => Ok(f.clone()),
        Err(n) => Err(error(n)),
    })
}

fn scalar<O: Optimiser + Clone + PartialEq>(o: O, n: usize, ops: usize) {
    let w = reals(n);
    let mut l = LFA::new(basis(n), Array1::from(w.clone()), o.clone());
    // what the approximator looks like without the failures
    let mut m = LFA::new(basis(n), Array1::from(w), o);
    for _ in 0..ops {
        let (f, _) = features(n);
        let e = real();
        let bad = flip();
        let i: In = if bad { Err(choose(2)) } else { Ok(&f) };
        let c = Cell::new(0);
        let r = match choose(3) {
            0 => {
                let r = l.evaluate(i);
                if !bad {
                    eq(r.clone().unwrap(), m.evaluate(i).unwrap(), "earlier failures do not show");
                }
                r.map(|_| ())
            }
            1 => {
                if !bad {
                    m.update(i, e).unwrap();
                }
                l.update(i, e)
            }
            _ => {
                if !bad {
                    m.update_with(i, |_, y| e - y).unwrap();
                }
                l.update_with(i, |_, y| {
                    c.set(c.get() + 1);
                    e - y
                })
            }
        };
        match i {
            Ok(_) => ck(r.is_ok(), "a projection that works is no error"),
            Err(n) => {
                ck(r == Err(error(n)), "the error of the projection is returned");
                ck(c.get() == 0, "no closure is called");
            }
        }
        eqs(&l.weights.to_vec(), &m.weights.to_vec(), "a failure leaves the weights alone");
        ck(l.optimiser == m.optimiser, "a failure leaves the optimiser alone");
    }
}

#[no_mangle]
pub extern "C-unwind" fn c30_scalar_sgd() { scalar(SGD(real()), 1, bound(2, 3)) }
#[no_mangle]
pub extern "C-unwind" fn c30_scalar_momentum() { scalar(SGDMomentum::new(1, real(), real()), 1, bound(2, 2)) }
#[no_mangle]
pub extern "C-unwind" fn c30_scalar_adam() { scalar(Adam::new(1, real(), 0.5, 0.75), 1, 2) }
#[no_mangle]
pub extern "C-unwind" fn c30_scalar_adagrad() { scalar(Adagrad::new(1, real()), 1, 2) }

fn vector<O: Optimiser + Clone + PartialEq>(o: O, n: usize, k: usize, ops: usize) {
    let w = reals(n * k);
    let mut l: VectorLFA<_, _> = LFA::new(basis(n), matrix(&w, n, k, false), o.clone());
    let mut m: VectorLFA<_, _> = LFA::new(basis(n), matrix(&w, n, k, false), o);
    for _ in 0..ops {
        let (f, _) = features(n);
        let e = reals(k);
        let bad = flip();
        let i: In = if bad { Err(choose(2)) } else { Ok(&f) };
        let c = Cell::new(0);
        let j = choose(k);
        let r = match choose(6) {
            0 => l.evaluate(i).map(|_| ()),
            1 => l.evaluate_index(i, j).map(|_| ()),
            2 => l.try_iter(i).map(|_| ()),
            3 => {
                if !bad {
                    m.update(i, e.clone()).unwrap();
                }
                l.update(i, e)
            }
            4 => {
                if !bad {
                    m.update_index(i, j, e[0]).unwrap();
                }
                l.update_index(i, j, e[0])
            }
            _ => {
                if !bad {
                    m.update_with(i, |_, _| Array1::from(e.clone())).unwrap();
                }
                l.update_with(i, |_, _| {
                    c.set(c.get() + 1);
                    Array1::from(e.clone())
                })
            }
        };
        match i {
            Ok(_) => ck(r.is_ok(), "a projection that works is no error"),
            Err(n) => {
                ck(r == Err(error(n)), "the error of the projection is returned");
                ck(c.get() == 0, "no closure is called");
            }
        }
        ck(l.weights.dim() == (n, k), "a failure keeps the shape");
        for j in 0..k {
            eqs(&l.weights.column(j).to_vec(), &m.weights.column(j).to_vec(), "a failure leaves the weights alone");
        }
        ck(l.optimiser == m.optimiser, "a failure leaves the optimiser alone");
    }
}
#[no_mangle]
pub extern "C-unwind" fn c30_vector_sgd() { vector(SGD(real()), 1, pick(1, 2), 2) }
#[no_mangle]
pub extern "C-unwind" fn c30_vector_momentum() { vector(SGDMomentum::new(1, real(), real()), 1, 1, 2) }
#[no_mangle]
pub extern "C-unwind" fn c30_vector_adagrad() { vector(Adagrad::new(1, real()), 1, 1, 2) }
#[no_mangle]
pub extern "C-unwind" fn c30_iter_panics() {
    // iter has no way to return the error
    let n = pick(1, 2);
    let w = reals(n * 2);
    let l: VectorLFA<_, _> = LFA::new(basis(n), matrix(&w, n, 2, false), SGD(1.0));
    ck(catch(|| l.iter(Err(1)).count()).is_none(), "iter panics when the projection fails");
    eqs(&l.weights.iter().copied().collect::<Vec<f64>>(), &w, "and leaves the weights alone");
}
#[no_mangle]
pub extern "C-unwind" fn c30_combined() {
    // a failure of one part of a stacked or normalised basis
    let n = pick(1, 2);
    let (f, _) = features(n);
    let w = reals(n + 2);
    let bad = Closure::new(1, |_: ()| -> Result<Features> { Err(error(3)) });
    macro_rules! go {
        ($b:expr) => {{
            let mut l = LFA::new($b, Array1::from(w.clone()), SGD(0.5));
            ck(l.evaluate(()) == Err(error(3)), "the error of the projection is returned");
            ck(l.update((), 1.0) == Err(error(3)), "the error of the projection is returned");
            ck(l.update_with((), |_, _| panic!()) == Err(error(3)), "the error of the projection is returned");
            eqs(&l.weights.to_vec(), &w, "a failure leaves the weights alone");
        }};
    }
    match choose(6) {
        0 => go!(Const(f).stack(bad).with_bias()),
        1 => go!(bad.with_bias().stack(Const(f))),
        2 => go!(Const(f).stack(bad.normalise_l0()).with_bias()),
        3 => go!(Const(f).stack(bad).with_bias().normalise_l1()),
        4 => go!(Const(f).stack(bad).with_bias().normalise_l2()),
        _ => go!(bad.normalise_linf().stack(Const(f)).with_bias()),
    }
}

#[no_mangle]
pub extern "C-unwind" fn c30_empty() {
    // no outputs, or no features: the error is returned all the same
    let (n, k) = [(0, 0), (0, 1), (0, 2), (1, 0), (2, 0)][choose(5)];
    let mut l: VectorLFA<_, _> = LFA::new(basis(n), matrix(&reals(n * k), n, k, flip()), SGD(real()));
    let i: In = Err(choose(2));
    let c = Cell::new(0);
    let r = match choose(5) {
        0 => l.evaluate(i).map(|_| ()),
        1 => l.try_iter(i).map(|_| ()),
        2 => l.update(i, reals(k)),
        3 if k > 0 => l.update_index(i, k - 1, real()),
        3 => l.evaluate(i).map(|_| ()),
        _ => l.update_with(i, |_, y| {
            c.set(1);
            y
        }),
    };
    ck(r == Err(error(i.unwrap_err())), "the error of the projection is returned");
    ck(c.get() == 0, "no closure is called");
    if k == 0 {
        let mut s = LFA::new(basis(0), Array1::from(vec![]), SGD(real()));
        ck(s.evaluate(i).is_err() && s.update(i, real()).is_err() && s.update_with(i, |_, y| y).is_err(), "the error of the projection is returned");
    }
}

/// a long history, every third projection of which fails
fn alternate<O: Optimiser + Clone + PartialEq>(o: O, steps: usize) {
    let w = reals(1);
    let mut l = LFA::new(basis(1), Array1::from(w.clone()), o.clone());
    let mut m = LFA::new(basis(1), Array1::from(w), o);
    for k in 0..steps {
        let (f, _, e) = turn(1, k);
        let i: In = if k % 3 == 2 { Err(k) } else { Ok(&f) };
        let with = k % 2 == 1;
        let r = if with { l.update_with(i, |_, y| e - y) } else { l.update(i, e) };
        match i {
            Ok(_) => {
                ck(r.is_ok(), "a projection that works is no error");
                if with { m.update_with(i, |_, y| e - y) } else { m.update(i, e) }.unwrap();
            }
            Err(n) => ck(r == Err(error(n)), "the error of the projection is returned"),
        }
        eqs(&l.weights.to_vec(), &m.weights.to_vec(), "a failure leaves the weights alone");
        ck(l.optimiser == m.optimiser, "a failure leaves the optimiser alone");
    }
}
#[no_mangle]
pub extern "C-unwind" fn c30_many_steps() {
    match choose(6) {
        0 => alternate(SGD(real()), bound(20, 60)),
        1 => alternate(SGDMomentum::new(1, 0.25, 0.5), bound(9, 15)),
        2 => alternate(NAG::new(1, 0.25, 0.5), bound(9, 15)),
        3 => alternate(Adagrad::new(1, 0.25), bound(9, 15)),
        4 => alternate(Adam::new(1, 0.25, 0.5, 0.75), bound(9, 15)),
        _ => alternate(ISGD(pos()), bound(9, 15)),
    }
}
#[no_mangle]
pub extern "C-unwind" fn c30_wide() {
    // many features and outputs
    let n = [9, 17, 33, 65][choose(4)];
    let k = [2, 5, 9, 17][choose(4)];
    let w: Vec<f64> = (0..n * k).map(|i| if i % 7 == 0 { real() } else { i as f64 }).collect();
    let mut l: VectorLFA<_, _> = LFA::new(basis(n), matrix(&w, n, k, flip()), SGDMomentum::new(n, 0.5, 0.25));
    let before = l.optimiser.clone();
    let i: In = Err(n);
    let c = Cell::new(0);
    let r = match choose(6) {
        0 => l.evaluate(i).map(|_| ()),
        1 => l.evaluate_index(i, k - 1).map(|_| ()),
        2 => l.try_iter(i).map(|_| ()),
        3 => l.update(i, reals(k)),
        4 => l.update_index(i, k - 1, real()),
        _ => l.update_with(i, |_, y| {
            c.set(1);
            y
        }),
    };
    ck(r == Err(error(n)), "the error of the projection is returned");
    ck(c.get() == 0, "no closure is called");
    ck(l.weights.dim() == (n, k), "a failure keeps the shape");
    eqs(&l.weights.iter().copied().collect::<Vec<f64>>(), &w, "a failure leaves the weights alone");
    ck(l.optimiser == before, "a failure leaves the optimiser alone");
}
