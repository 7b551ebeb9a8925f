//! C25: resetting an optimiser makes it as good as new
use crate::{common::*, opt::*, sym::*};
use lfa::{optim::*, Features};

/// `mk` makes a fresh optimiser
fn check<O: Optimiser + PartialEq + Clone>(o: O, n: usize, before: usize, after: usize) {
    let fresh = o.clone();
    let mut a = o;
    let mut w = W::new(&reals(n), false);
    for _ in 0..before {
        let (f, _, e) = event(n);
        w.step(&mut a, &f, e);
    }
    let kept = w.get();
    a.reset();
    eqs(&w.get(), &kept, "reset leaves the weights alone");
    ck(a == fresh, "a reset optimiser equals a fresh one");
    let mut b = fresh;
    let v = reals(n);
    let (mut x, mut y) = (W::new(&v, false), W::new(&v, false));
    for _ in 0..after {
        let (f, _, e) = event(n);
        x.step(&mut a, &f, e);
        y.step(&mut b, &f, e);
        eqs(&x.get(), &y.get(), "a reset optimiser steps like a fresh one");
    }
}

fn shape() -> (usize, usize, usize) {
    let n = pick(1, 2);
    (n, pick(0, if n == 1 { 2 } else { bound(1, 2) }), if n == 1 { 2 } else { 1 })
}

#[no_mangle]
pub extern "C-unwind" fn c25_sgd() {
    let (n, b, a) = shape();
    check(SGD(real()), n, b, a)
}
#[no_mangle]
pub extern "C-unwind" fn c25_isgd() {
    let (n, b, a) = shape();
    check(ISGD(pos()), n, b, a)
}
#[no_mangle]
pub extern "C-unwind" fn c25_momentum() {
    let (n, b, a) = shape();
    check(SGDMomentum::new(n, real(), real()), n, b, a)
}
#[no_mangle]
pub extern "C-unwind" fn c25_nesterov() {
    let (n, b, a) = shape();
    check(NAG::new(n, real(), real()), n, b, a)
}
#[no_mangle]
pub extern "C-unwind" fn c25_adagrad() {
    let (n, b, a) = shape();
    check(Adagrad::new(n, real()), n, b, a)
}
#[no_mangle]
pub extern "C-unwind" fn c25_adam() {
    let (n, b, a) = shape();
    check(Adam::new(n, real(), unit(), unit()), n, b, a)
}
#[no_mangle]
pub extern "C-unwind" fn c25_adamax() {
    let (n, b, a) = shape();
    check(AdaMax::new(n, real(), unit(), closed()), n, b, a)
}

/// a history with any doubles whatsoever, infinities and NaN included
fn any<O: Optimiser + PartialEq + Clone>(o: O, n: usize) {
    let fresh = o.clone();
    let mut a = o;
    let mut w = W::new(&vec![0.0; n], false);
    let (f, _, e) = event(n);
    w.step(&mut a, &f, e);
    a.reset();
    ck(a == fresh, "a reset optimiser equals a fresh one");
    let mut b = fresh;
    let (mut x, mut y) = (W::new(&vec![0.5; n], false), W::new(&vec![0.5; n], false));
    let f = Features::dense(vec![0.25; n]);
    x.step(&mut a, &f, -2.0);
    y.step(&mut b, &f, -2.0);
    eqs(&x.get(), &y.get(), "a reset optimiser steps like a fresh one");
}
#[no_mangle]
pub extern "C-unwind" fn c25_fp_any_history() {
    let n = pick(1, 2);
    match choose(7) {
        0 => any(SGD(0.5), n),
        1 => any(ISGD(0.5), n),
        2 => any(SGDMomentum::new(n, 0.5, 0.5), n),
        3 => any(NAG::new(n, 0.5, 0.5), n),
        4 => any(Adagrad::new(n, 0.5), n),
        5 => any(Adam::new(n, 0.5, 0.5, 0.75), n),
        _ => any(AdaMax::new(n, 0.5, 0.5, 0.75), n),
    }
}

/// many features, and several steps before the reset
fn big<O: Optimiser + PartialEq + Clone>(o: O, n: usize, before: usize, after: usize) {
    let fresh = o.clone();
    let mut a = o;
    let mut w = W::new(&reals(n), false);
    for k in 0..before {
        let (f, _, e) = turn(n, k);
        w.step(&mut a, &f, e);
    }
    a.reset();
    ck(a == fresh, "a reset optimiser equals a fresh one");
    let mut b = fresh;
    let v = reals(n);
    let (mut x, mut y) = (W::new(&v, false), W::new(&v, false));
    for k in 0..after {
        let (f, _, e) = turn(n, k);
        x.step(&mut a, &f, e);
        y.step(&mut b, &f, e);
        eqs(&x.get(), &y.get(), "a reset optimiser steps like a fresh one");
    }
}
#[no_mangle]
pub extern "C-unwind" fn c25_many_features() {
    let n = [9, 17, 33, 65][choose(4)];
    match choose(6) {
        0 => big(SGD(real()), n, 1, 1),
        1 => big(ISGD(pos()), n, 1, 1),
        2 => big(SGDMomentum::new(n, real(), real()), n, 2, 1),
        3 => big(NAG::new(n, real(), real()), n, 2, 1),
        4 => big(Adagrad::new(n, real()), n, 2, 1),
        _ => big(Adam::new(n, real(), 0.5, 0.75), n, 2, 1),
    }
}
#[no_mangle]
pub extern "C-unwind" fn c25_many_steps() {
    let k = bound(12, 30);
    match choose(6) {
        0 => big(SGD(real()), 1, k, 3),
        1 => big(ISGD(1.0), 1, 2, 3),
        2 => big(SGDMomentum::new(1, 0.9, real()), 1, k, 3),
        3 => big(NAG::new(1, 0.9, real()), 1, k, 3),
        4 => big(Adagrad::new(1, real()), 1, k, 3),
        _ => big(Adam::new(1, real(), 0.5, 0.75), 1, k, 3),
    }
}
/// resetting twice, and resetting between histories
#[no_mangle]
pub extern "C-unwind" fn c25_again() {
    fn go<O: Optimiser + PartialEq + Clone>(o: O) {
        let fresh = o.clone();
        let mut a = o;
        let mut w = W::new(&reals(1), false);
        for r in 0..3 {
            for k in 0..2 {
                let (f, _, e) = turn(1, k + r);
                w.step(&mut a, &f, e);
            }
            a.reset();
            if flip() {
                a.reset();
            }
            ck(a == fresh, "a reset optimiser equals a fresh one");
        }
    }
    match choose(6) {
        0 => go(SGD(real())),
        1 => go(ISGD(1.0)),
        2 => go(SGDMomentum::new(1, real(), real())),
        3 => go(NAG::new(1, real(), real())),
        4 => go(Adagrad::new(1, real())),
        _ => go(Adam::new(1, real(), 0.5, 0.75)),
    }
}
#[no_mangle]
pub extern "C-unwind" fn c25_adamax_again() {
    // twice through a history, with a reset in between
    let o = AdaMax::new(1, real(), unit(), closed());
    let fresh = o.clone();
    let mut a = o;
    let mut w = W::new(&reals(1), false);
    for r in 0..2 {
        for k in 0..bound(2, 3) {
            let (f, _, e) = turn(1, k + r);
            w.step(&mut a, &f, e);
        }
        a.reset();
        ck(a == fresh, "a reset optimiser equals a fresh one");
    }
}
/// a very long, mostly idle history before the reset
#[no_mangle]
pub extern "C-unwind" fn c25_idle() {
    fn go<O: Optimiser + PartialEq + Clone>(o: O, first: bool) {
        let fresh = o.clone();
        let mut a = o;
        let s = bound(300, 600);
        let mut w = W::new(&reals(1), false);
        for k in 0..s {
            let (f, _, e) = if first { idle(1, k, s) } else { still(1, k, s) };
            w.step(&mut a, &f, e);
        }
        a.reset();
        ck(a == fresh, "a reset optimiser equals a fresh one");
        let mut b = fresh;
        let v = reals(1);
        let (mut x, mut y) = (W::new(&v, false), W::new(&v, false));
        for k in 0..2 {
            let (f, _, e) = turn(1, k);
            x.step(&mut a, &f, e);
            y.step(&mut b, &f, e);
            eqs(&x.get(), &y.get(), "a reset optimiser steps like a fresh one");
        }
    }
    match choose(6) {
        0 => go(SGD(real()), true),
        1 => go(SGDMomentum::new(1, 0.5, real()), true),
        2 => go(NAG::new(1, 0.5, real()), true),
        3 => go(Adagrad::new(1, real()), true),
        4 => go(Adam::new(1, real(), 0.5, 0.75), false),
        _ => go(AdaMax::new(1, real(), 0.5, 0.75), false),
    }
}

/// parameters on the edge of their range
#[no_mangle]
pub extern "C-unwind" fn c25_edges() {
    let n = pick(1, 2);
    match choose(6) {
        0 => check(SGDMomentum::new(n, [0.0, 1.0, 2.0, -0.5][choose(4)], real()), n, 1, 1),
        1 => check(NAG::new(n, [0.0, 1.0, 2.0, -0.5][choose(4)], [0.0, -0.5, 1.0][choose(3)]), n, 1, 1),
        2 => check(Adagrad::new(n, [0.0, -0.5, 1.0][choose(3)]), n, 1, 1),
        3 => check(Adam::new(n, [0.0, -0.5][choose(2)], 0.0, 0.0), n, 1, 1),
        4 => check(Adam::new(n, 1.0, [0.0, 0.5][choose(2)], 0.0), n, 1, 1),
        _ => check(AdaMax::new(n, [0.0, -0.5, 1.0][choose(3)], 0.0, [0.0, 1.0][choose(2)]), n, 1, 1),
    }
}
