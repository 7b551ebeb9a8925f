//! C23: Adagrad follows its recurrence over any history
use crate::{common::*, opt::*, sym::*};
use lfa::{optim::*, Features};

fn run(n: usize, steps: usize) { go(n, steps, real(), |n, _| event(n)) }

fn go(n: usize, steps: usize, lr: f64, ev: impl Fn(usize, usize) -> (Features, Vec<f64>, f64)) {
    let mut w = reals(n);
    let mut r = W::new(&w, flip());
    let mut s = vec![0.0; n];
    let mut o = Adagrad::new(n, lr);
    for k in 0..steps {
        let (f, x, e) = ev(n, k);
        r.step(&mut o, &f, e);
        for i in 0..n {
            let g = e * x[i];
            s[i] = s[i] + g * g;
            w[i] = w[i] + lr * g / (s[i].sqrt() + 1e-7);
        }
        let got = r.get();
        eqs(&got, &w, "the weights follow the recurrence");
        w = got;
    }
}

#[no_mangle]
pub extern "C-unwind" fn c23_adagrad() { run(pick(0, 2), 2) }
#[no_mangle]
pub extern "C-unwind" fn c23_long() { run(1, bound(3, 4)) }
#[no_mangle]
pub extern "C-unwind" fn c23_wide() { run(bound(3, 4), 1) }

#[no_mangle]
pub extern "C-unwind" fn c23_many_features() {
    let n = width();
    go(n, 2, real(), |n, k| {
        let (f, v) = if k == 0 { dense(n) } else { wide_features(n) };
        (f, v, real())
    })
}
#[no_mangle]
pub extern "C-unwind" fn c23_many_steps() { go(1, bound(30, 100), real(), turn) }
#[no_mangle]
pub extern "C-unwind" fn c23_idle() {
    let s = bound(300, 600);
    go(1, s, real(), |n, k| idle(n, k, s - 1))
}

#[no_mangle]
pub extern "C-unwind" fn c23_thin() { go([20, 40, 130][choose(3)], bound(4, 6), real(), thin) }
#[no_mangle]
pub extern "C-unwind" fn c23_layouts() {
    let n = [2, 3, 9][choose(3)];
    layouts(Adagrad::new(n, 0.5), n, 2)
}
