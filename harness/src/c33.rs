//! C33: a plain step is a scaled step of one and a zero error moves nothing
use crate::{common::*, opt::*, sym::*};
use lfa::{optim::*, Features};

fn check<O: Optimiser + Clone>(o: O, n: usize) {
    // any history, then step against step_scaled(1)
    let mut a = o;
    let mut w = W::new(&reals(n), false);
    for _ in 0..pick(0, 2) {
        let (f, _, e) = event(n);
        w.step(&mut a, &f, e);
    }
    let mut b = a.clone();
    let v = reals(n);
    let (mut x, mut y) = (W::new(&v, false), W::new(&v, false));
    let (f, _) = features(n);
    x.plain(&mut a, &f);
    y.step(&mut b, &f, 1.0);
    eqs(&x.get(), &y.get(), "a plain step is a step scaled by one");
    // and the state that is left behind is the same
    let (f, _, e) = event(n);
    x.step(&mut a, &f, e);
    y.step(&mut b, &f, e);
    eqs(&x.get(), &y.get(), "a plain step leaves the state of a step scaled by one");
}

fn still<O: Optimiser + Clone>(o: O, n: usize) {
    let v = reals(n);
    let mut x = W::new(&v, false);
    let mut a = o;
    for _ in 0..2 {
        let (f, _) = features(n);
        match choose(3) {
            0 => x.step(&mut a, &f, 0.0),
            1 => x.step(&mut a, &Features::dense(vec![0.0; n]), real()),
            _ => x.step(&mut a, &Features::sparse(n, vec![]), real()),
        }
    }
    eqs(&x.get(), &v, "a zero error or zero features move nothing");
}

macro_rules! both {
    ($f:ident, $g:ident, $n:ident => $o:expr) => {
        #[no_mangle]
        pub extern "C-unwind" fn $f() {
            let $n = pick(1, bound(1, 2));
            let o = $o;
            check(o, $n)
        }
        #[no_mangle]
        pub extern "C-unwind" fn $g() {
            let $n = pick(0, 2);
            let o = $o;
            still(o, $n)
        }
    };
}
both!(c33_sgd, c33_sgd_zero, n => SGD(real()));
both!(c33_isgd, c33_isgd_zero, n => ISGD(pos()));
both!(c33_momentum, c33_momentum_zero, n => SGDMomentum::new(n, real(), real()));
both!(c33_nesterov, c33_nesterov_zero, n => NAG::new(n, real(), real()));
both!(c33_adagrad, c33_adagrad_zero, n => Adagrad::new(n, real()));
both!(c33_adam, c33_adam_zero, n => Adam::new(n, real(), unit(), unit()));
both!(c33_adamax, c33_adamax_zero, n => AdaMax::new(n, real(), unit(), closed()));

/// step against step_scaled(1) with many features or after a long history
fn big<O: Optimiser + Clone>(o: O, n: usize, before: usize) {
    let mut a = o;
    let mut w = W::new(&reals(n), false);
    for k in 0..before {
        let (f, _, e) = turn(n, k);
        w.step(&mut a, &f, e);
    }
    let mut b = a.clone();
    let v = reals(n);
    let (mut x, mut y) = (W::new(&v, false), W::new(&v, false));
    for k in 0..2 {
        let (f, _, _) = turn(n, k + choose(2));
        x.plain(&mut a, &f);
        y.step(&mut b, &f, 1.0);
        eqs(&x.get(), &y.get(), "a plain step is a step scaled by one");
    }
}
#[no_mangle]
pub extern "C-unwind" fn c33_many_features() {
    let n = [9, 17, 33, 65][choose(4)];
    match choose(6) {
        0 => big(SGD(real()), n, 0),
        1 => big(ISGD(1.0), n, 0),
        2 => big(SGDMomentum::new(n, real(), real()), n, 1),
        3 => big(NAG::new(n, real(), real()), n, 1),
        4 => big(Adagrad::new(n, real()), n, 1),
        _ => big(Adam::new(n, real(), 0.5, 0.75), n, 1),
    }
}
#[no_mangle]
pub extern "C-unwind" fn c33_many_steps() {
    let k = bound(12, 30);
    match choose(5) {
        0 => big(SGD(real()), 1, k),
        1 => big(SGDMomentum::new(1, 0.9, real()), 1, k),
        2 => big(NAG::new(1, 0.9, real()), 1, k),
        3 => big(Adagrad::new(1, real()), 1, k),
        _ => big(Adam::new(1, real(), 0.5, 0.75), 1, k),
    }
}
/// nothing moves over a long run of zero errors, with many features
#[no_mangle]
pub extern "C-unwind" fn c33_many_zero() {
    let n = [1, 9, 33][choose(3)];
    let k = if n == 1 { bound(20, 50) } else { 2 };
    fn go<O: Optimiser>(mut a: O, n: usize, k: usize) {
        let v = reals(n);
        let mut x = W::new(&v, false);
        for i in 0..k {
            let (f, _, _) = turn(n, i);
            x.step(&mut a, &f, 0.0);
        }
        eqs(&x.get(), &v, "a zero error or zero features move nothing");
    }
    match choose(6) {
        0 => go(SGD(real()), n, k),
        1 => go(ISGD(1.0), n, k.min(3)),
        2 => go(SGDMomentum::new(n, 0.9, real()), n, k),
        3 => go(NAG::new(n, 0.9, real()), n, k),
        4 => go(Adagrad::new(n, real()), n, k),
        _ => go(Adam::new(n, real(), 0.5, 0.75), n, k),
    }
}
#[no_mangle]
pub extern "C-unwind" fn c33_isgd_any_rate() {
    // rates of either sign, as long as the step is defined
    let n = pick(1, 2);
    let o = ISGD(real_in(-0.25, 4.0));
    let v = reals(n);
    let f = reals_in(n, -1.0, 1.0);
    let f = if flip() { Features::dense(f) } else { Features::sparse(n, f.into_iter().enumerate()) };
    let (mut x, mut y) = (W::new(&v, false), W::new(&v, false));
    x.plain(&mut o.clone(), &f);
    y.step(&mut o.clone(), &f, 1.0);
    eqs(&x.get(), &y.get(), "a plain step is a step scaled by one");
    y.step(&mut o.clone(), &f, 0.0);
    eqs(&x.get(), &y.get(), "a zero error moves nothing");
}
#[no_mangle]
pub extern "C-unwind" fn c33_layouts() {
    // weights of any layout in memory
    let n = [1, 2, 3][choose(3)];
    macro_rules! go {
        ($o:expr) => {{
            let mut a = $o;
            let mut b = a.clone();
            let h = choose(3);
            let w = reals(n);
            let (mut x, mut y) = (laid_out(&w, h), laid_out(&w, h));
            for k in 0..2 {
                let v: Vec<f64> = (0..n).map(|i| if k == 0 { [0.5, -2.0, 1.0, 0.25][(i + k) % 4] } else { real_in(1.0, 2.0) }).collect();
                let f = if flip() { Features::dense(v) } else { Features::sparse(n, v.into_iter().enumerate().collect::<Vec<_>>()) };
                ck(a.step(&mut x.view_mut(), &f).is_ok() && b.step_scaled(&mut y.view_mut(), &f, 1.0).is_ok(), "the step succeeds");
                eqs(&x.to_vec(), &y.to_vec(), "a plain step is a step scaled by one");
            }
        }};
    }
    match choose(7) {
        0 => go!(SGD(0.5)),
        1 => go!(ISGD(0.5)),
        2 => go!(SGDMomentum::new(n, 0.5, 0.5)),
        3 => go!(NAG::new(n, 0.5, 0.5)),
        4 => go!(Adagrad::new(n, 0.5)),
        5 => go!(Adam::new(n, 0.5, 0.5, 0.75)),
        _ => go!(AdaMax::new(n, 0.5, 0.5, 0.75)),
    }
}
