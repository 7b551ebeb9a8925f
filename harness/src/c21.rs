//! C21: SGD and implicit SGD take the prescribed step
use crate::{common::*, opt::*, sym::*};
use lfa::optim::*;

fn norm2(v: &[f64]) -> f64 { v.iter().fold(0.0, |s, x| s + x * x) }

#[no_mangle]
pub extern "C-unwind" fn c21_sgd() {
    let n = pick(0, bound(3, 4));
    let lr = real();
    let mut w = reals(n);
    let mut r = W::new(&w, flip());
    let mut o = SGD(lr);
    for _ in 0..if n < 3 { 2 } else { 1 } {
        let (f, v, e) = event(n);
        r.step(&mut o, &f, e);
        for i in 0..n {
            w[i] = w[i] + lr * e * v[i];
        }
        let got = r.get();
        eqs(&got, &w, "the step is the rate times the error times the features");
        w = got;
    }
    eq(o.0, lr, "the rate is kept");
}
#[no_mangle]
pub extern "C-unwind" fn c21_isgd() {
    let n = pick(0, bound(3, 4));
    let lr = real();
    assume(lr >= 0.0);
    let mut w = reals(n);
    let mut r = W::new(&w, flip());
    let mut o = ISGD(lr);
    for _ in 0..if n < 3 { 2 } else { 1 } {
        let (f, v, e) = event(n);
        r.step(&mut o, &f, e);
        for i in 0..n {
            w[i] = w[i] + lr * e * v[i] / (1.0 + lr * norm2(&v));
        }
        let got = r.get();
        eqs(&got, &w, "the step is the implicit rate times the error times the features");
        w = got;
    }
    eq(o.0, lr, "the rate is kept");
}
#[no_mangle]
pub extern "C-unwind" fn c21_sgd_plain() {
    let n = pick(0, 3);
    let (lr, w) = (real(), reals(n));
    let (f, v) = features(n);
    let mut r = W::new(&w, flip());
    r.plain(&mut SGD(lr), &f);
    let want: Vec<f64> = (0..n).map(|i| w[i] + lr * v[i]).collect();
    eqs(&r.get(), &want, "a plain step is the rate times the features");
}
#[no_mangle]
pub extern "C-unwind" fn c21_isgd_plain() {
    let n = pick(0, 3);
    let (lr, w) = (real(), reals(n));
    assume(lr >= 0.0);
    let (f, v) = features(n);
    let mut r = W::new(&w, flip());
    r.plain(&mut ISGD(lr), &f);
    let want: Vec<f64> = (0..n).map(|i| w[i] + lr * v[i] / (1.0 + lr * norm2(&v))).collect();
    eqs(&r.get(), &want, "a plain step is the implicit rate times the features");
}
#[no_mangle]
pub extern "C-unwind" fn c21_wide() {
    let n = width();
    let lr = pos();
    let imp = flip();
    let mut w = reals(n);
    let mut r = W::new(&w, flip());
    let (f, v) = if imp { wide_known(n) } else { wide_features(n) };
    let e = real();
    if imp {
        r.step(&mut ISGD(lr), &f, e);
    } else {
        r.step(&mut SGD(lr), &f, e);
    }
    let z = if imp { 1.0 + lr * norm2(&v) } else { 1.0 };
    for i in 0..n {
        w[i] = w[i] + lr * e * v[i] / z;
    }
    eqs(&r.get(), &w, "the step is the rate times the error times the features");
}
#[no_mangle]
pub extern "C-unwind" fn c21_long() {
    let lr = real();
    let mut w = reals(1);
    let mut r = W::new(&w, false);
    let mut o = SGD(lr);
    for k in 0..bound(40, 150) {
        let (x, e) = (real(), real());
        let f = if k % 3 == 1 { lfa::Features::sparse(1, vec![(0, x)]) } else { lfa::Features::dense(vec![x]) };
        r.step(&mut o, &f, e);
        w[0] = w[0] + lr * e * x;
        let got = r.get();
        eqs(&got, &w, "the step is the rate times the error times the features");
        w = got;
    }
    eq(o.0, lr, "the rate is kept");
}
#[no_mangle]
pub extern "C-unwind" fn c21_isgd_long() {
    let lr = [0.5, 1.0][choose(2)];
    let mut w = reals(1);
    let mut r = W::new(&w, false);
    let mut o = ISGD(lr);
    for k in 0..bound(15, 40) {
        let x = [1.0, -1.0, 2.0][k % 3];
        let e = real();
        let f = if k % 3 == 1 { lfa::Features::sparse(1, vec![(0, x)]) } else { lfa::Features::dense(vec![x]) };
        r.step(&mut o, &f, e);
        w[0] = w[0] + lr * e * x / (1.0 + lr * x * x);
        let got = r.get();
        eqs(&got, &w, "the step is the implicit rate times the error times the features");
        w = got;
    }
    eq(o.0, lr, "the rate is kept");
}
#[no_mangle]
pub extern "C-unwind" fn c21_idle() {
    let (lr, s) = (pos(), bound(300, 1000));
    let implicit = flip();
    let mut w = reals(1);
    let mut r = W::new(&w, false);
    let (mut o, mut p) = (SGD(lr), ISGD(lr));
    for k in 0..s {
        let (f, x, e) = idle(1, k, s - 1);
        if implicit {
            r.step(&mut p, &f, e);
            w[0] = w[0] + lr * e * x[0] / (1.0 + lr * x[0] * x[0]);
        } else {
            r.step(&mut o, &f, e);
            w[0] = w[0] + lr * e * x[0];
        }
        let got = r.get();
        eqs(&got, &w, "every step is the one that is due");
        w = got;
    }
}
#[no_mangle]
pub extern "C-unwind" fn c21_isgd_nearly_binary() {
    // features that are one, all but one of them
    let n = [2, 5, 6, 9, 20][choose(5)];
    let i = [0, 1, n / 2, n - 1][choose(4)];
    let mut v = vec![1.0; n];
    v[i] = real_in(1.5, 2.0);
    let f = if flip() { lfa::Features::dense(v.clone()) } else { lfa::Features::sparse(n, v.iter().copied().enumerate().collect::<Vec<_>>()) };
    let (lr, e) = ([0.5, 1.0][choose(2)], real());
    let w: Vec<f64> = (0..n).map(|i| i as f64).collect();
    let mut r = W::new(&w, flip());
    let mut o = ISGD(lr);
    r.step(&mut o, &f, e);
    let z = 1.0 + lr * norm2(&v);
    let got = r.get();
    for j in 0..n {
        eq((got[j] - w[j]) * z, lr * e * v[j], "the step is the implicit rate times the error times the features");
    }
}
#[no_mangle]
pub extern "C-unwind" fn c21_layouts() {
    let n = [2, 3, 9][choose(3)];
    if flip() {
        layouts(SGD(0.5), n, 2)
    } else {
        layouts(ISGD(0.5), n, 2)
    }
}
