//! C26: optimisers do not care how features are represented
use crate::{common::*, opt::*, sym::*};
use lfa::{optim::*, Features};

fn check<O: Optimiser + Clone>(o: O, n: usize, steps: usize) {
    let (mut a, mut b) = (o.clone(), o);
    let w = reals(n);
    let (mut x, mut y) = (W::new(&w, false), W::new(&w, flip()));
    for _ in 0..steps {
        let (s, v, e) = event(n);
        // a takes what comes, b takes the dense vector it stands for
        x.step(&mut a, &s, e);
        y.step(&mut b, &Features::dense(v), e);
        eqs(&x.get(), &y.get(), "sparse features move the weights like the dense vector they stand for");
    }
}

/// every entry stored explicitly, in particular explicit zeros
fn stored<O: Optimiser + Clone>(o: O, n: usize) {
    let (mut a, mut b) = (o.clone(), o);
    let w = reals(n);
    let (mut x, mut y) = (W::new(&w, false), W::new(&w, false));
    let mut v = reals(n);
    v[choose(n)] = 0.0;
    let e = real();
    x.step(&mut a, &Features::sparse(n, v.iter().copied().enumerate()), e);
    y.step(&mut b, &Features::dense(v), e);
    eqs(&x.get(), &y.get(), "explicit zeros are zeros");
}

macro_rules! both {
    ($f:ident, $g:ident, $n:ident => $o:expr) => {
        #[no_mangle]
        pub extern "C-unwind" fn $f() {
            let $n = pick(0, bound(2, 3));
            let o = $o;
            check(o, $n, if $n == 3 { 1 } else { 2 })
        }
        #[no_mangle]
        pub extern "C-unwind" fn $g() {
            let $n = pick(1, 3);
            let o = $o;
            stored(o, $n)
        }
    };
}
both!(c26_sgd, c26_sgd_zeros, n => SGD(real()));
both!(c26_isgd, c26_isgd_zeros, n => ISGD(pos()));
both!(c26_momentum, c26_momentum_zeros, n => SGDMomentum::new(n, real(), real()));
both!(c26_nesterov, c26_nesterov_zeros, n => NAG::new(n, real(), real()));
both!(c26_adagrad, c26_adagrad_zeros, n => Adagrad::new(n, real()));
both!(c26_adam, c26_adam_zeros, n => Adam::new(n, real(), unit(), unit()));
both!(c26_adamax, c26_adamax_zeros, n => AdaMax::new(n, real(), unit(), closed()));

#[no_mangle]
pub extern "C-unwind" fn c26_long() {
    // three steps of one feature
    let k = choose(5);
    let (p, q, r) = (real(), unit(), unit());
    match k {
        0 => check(SGDMomentum::new(1, q, p), 1, 3),
        1 => check(NAG::new(1, q, p), 1, 3),
        2 => check(Adagrad::new(1, p), 1, 3),
        3 => check(Adam::new(1, p, q, r), 1, 3),
        _ => check(AdaMax::new(1, p, q, r), 1, 3),
    }
}

/// many features, a few of them active
fn big<O: Optimiser + Clone>(o: O, n: usize, steps: usize) {
    let (mut a, mut b) = (o.clone(), o);
    let w = reals(n);
    let (mut x, mut y) = (W::new(&w, false), W::new(&w, false));
    for k in 0..steps {
        let (s, v) = if k == 0 { wide_sparse(n) } else { (|(f, v, _)| (f, v))(turn(n, k)) };
        let e = real();
        x.step(&mut a, &s, e);
        y.step(&mut b, &Features::dense(v), e);
        eqs(&x.get(), &y.get(), "sparse features move the weights like the dense vector they stand for");
    }
}
#[no_mangle]
pub extern "C-unwind" fn c26_many_features() {
    let n = [8, 9, 17, 33, 65][choose(5)];
    match choose(6) {
        0 => big(SGD(real()), n, 2),
        1 => big(ISGD(pos()), n, 1),
        2 => big(SGDMomentum::new(n, real(), real()), n, 2),
        3 => big(NAG::new(n, real(), real()), n, 2),
        4 => big(Adagrad::new(n, real()), n, 2),
        _ => big(Adam::new(n, real(), 0.5, 0.75), n, 2),
    }
}
#[no_mangle]
pub extern "C-unwind" fn c26_adamax_features() {
    let n = [8, 9, 17, 33, 65][choose(5)];
    let o = AdaMax::new(n, real(), 0.5, 0.75);
    let (mut a, mut b) = (o.clone(), o);
    let w = reals(n);
    let (mut x, mut y) = (W::new(&w, false), W::new(&w, false));
    let h = choose(4);
    for k in 0..2 {
        let c = if k == 0 { 1.0 } else { 4.0 };
        let v: Vec<f64> = (0..n).map(|i| if i % (h + 1) == 0 { real_in(c, 2.0 * c) } else { 0.0 }).collect();
        let s = Features::sparse(n, v.iter().copied().enumerate().filter(|&(i, _)| i % (h + 1) == 0).collect::<Vec<_>>());
        x.step(&mut a, &s, 1.0);
        y.step(&mut b, &Features::dense(v), 1.0);
        eqs(&x.get(), &y.get(), "sparse features move the weights like the dense vector they stand for");
    }
}
#[no_mangle]
pub extern "C-unwind" fn c26_many_steps() {
    let k = bound(12, 40);
    match choose(5) {
        0 => big(SGD(real()), 2, k),
        1 => big(SGDMomentum::new(2, 0.9, real()), 2, k),
        2 => big(NAG::new(2, 0.9, real()), 2, k),
        3 => big(Adagrad::new(2, real()), 2, k),
        _ => big(Adam::new(2, real(), 0.5, 0.75), 2, k),
    }
}
/// the representations part only at the end of a very long, mostly idle history
#[no_mangle]
pub extern "C-unwind" fn c26_idle() {
    fn go<O: Optimiser + Clone>(o: O, first: bool) {
        let (mut a, mut b) = (o.clone(), o);
        let s = bound(300, 600);
        let w = reals(1);
        let (mut x, mut y) = (W::new(&w, false), W::new(&w, false));
        for k in 0..s {
            let (f, v, e) = if first { idle(1, k, s) } else { still(1, k, s) };
            x.step(&mut a, &f, e);
            y.step(&mut b, &if f.is_dense() { Features::sparse(1, v.iter().copied().enumerate()) } else { Features::dense(v) }, e);
        }
        let (v, e) = (reals(1), real());
        x.step(&mut a, &Features::sparse(1, v.iter().copied().enumerate()), e);
        y.step(&mut b, &Features::dense(v), e);
        eqs(&x.get(), &y.get(), "sparse features move the weights like the dense vector they stand for");
    }
    match choose(6) {
        0 => go(SGD(real()), true),
        1 => go(SGDMomentum::new(1, 0.5, real()), true),
        2 => go(NAG::new(1, 0.5, real()), true),
        3 => go(Adagrad::new(1, real()), true),
        4 => go(Adam::new(1, real(), 0.5, 0.75), false),
        _ => go(AdaMax::new(1, real(), 0.5, 0.75), false),
    }
}

/// next to none of many features are active
#[no_mangle]
pub extern "C-unwind" fn c26_thin() {
    fn go<O: Optimiser + Clone>(o: O, n: usize, ev: impl Fn(usize, usize) -> (Features, Vec<f64>, f64)) {
        let (mut a, mut b) = (o.clone(), o);
        let w = reals(n);
        let (mut x, mut y) = (W::new(&w, false), W::new(&w, false));
        for k in 0..4 {
            let (s, v, e) = ev(n, k);
            x.step(&mut a, &s, e);
            y.step(&mut b, &Features::dense(v), e);
            eqs(&x.get(), &y.get(), "sparse features move the weights like the dense vector they stand for");
        }
    }
    let n = [20, 40, 130][choose(3)];
    match choose(7) {
        0 => go(SGD(real()), n, thin),
        1 => go(ISGD(pos()), n, thin),
        2 => go(SGDMomentum::new(n, real(), real()), n, thin),
        3 => go(NAG::new(n, real(), real()), n, thin),
        4 => go(Adagrad::new(n, real()), n, thin),
        5 => go(Adam::new(n, real(), 0.5, 0.75), n, thin),
        _ => go(AdaMax::new(n, real(), 0.5, 0.75), n, thin_grown),
    }
}
