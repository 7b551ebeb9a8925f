//! C22: momentum and Nesterov follow their recurrences over any history
use crate::{common::*, opt::*, sym::*};
use lfa::{optim::*, Features};

fn run(nesterov: bool, n: usize, steps: usize) { go(nesterov, n, steps, real(), real(), |n, _| event(n)) }

fn go(nesterov: bool, n: usize, steps: usize, m: f64, lr: f64, ev: impl Fn(usize, usize) -> (Features, Vec<f64>, f64)) {
    let mut w = reals(n);
    let mut r = W::new(&w, flip());
    let mut v = vec![0.0; n];
    let mut a = SGDMomentum::new(n, m, lr);
    let mut b = NAG::new(n, m, lr);
    for k in 0..steps {
        let (f, x, e) = ev(n, k);
        if nesterov {
            r.step(&mut b, &f, e)
        } else {
            r.step(&mut a, &f, e)
        }
        for i in 0..n {
            let g = e * x[i];
            v[i] = m * v[i] + g;
            w[i] = w[i] + if nesterov { lr * (m * v[i] + g) } else { lr * v[i] };
        }
        let got = r.get();
        eqs(&got, &w, "the weights follow the recurrence");
        w = got;
    }
}

#[no_mangle]
pub extern "C-unwind" fn c22_momentum() { run(false, pick(0, 2), bound(3, 4)) }
#[no_mangle]
pub extern "C-unwind" fn c22_momentum_wide() { run(false, bound(3, 4), 2) }
#[no_mangle]
pub extern "C-unwind" fn c22_nesterov() { run(true, pick(0, 2), bound(3, 4)) }
#[no_mangle]
pub extern "C-unwind" fn c22_nesterov_wide() { run(true, bound(3, 4), 2) }

#[no_mangle]
pub extern "C-unwind" fn c22_many_features() {
    let nesterov = flip();
    let n = width();
    go(nesterov, n, 2, real(), real(), |n, k| {
        let (f, v) = if k == 0 { dense(n) } else { wide_features(n) };
        (f, v, real())
    })
}
#[no_mangle]
pub extern "C-unwind" fn c22_many_steps() {
    let m = [0.9, 0.5, 0.0, 1.0, -0.25, 0.999][choose(6)];
    go(flip(), 1, bound(40, 120), m, real(), turn)
}
#[no_mangle]
pub extern "C-unwind" fn c22_steps_any_momentum() { go(flip(), pick(1, 2), bound(7, 12), real(), real(), turn) }
#[no_mangle]
pub extern "C-unwind" fn c22_idle() {
    let (m, s) = ([0.5, 0.9][choose(2)], bound(300, 600));
    go(flip(), 1, s, m, real(), |n, k| idle(n, k, s - 1))
}

#[no_mangle]
pub extern "C-unwind" fn c22_thin() { go(flip(), [20, 40, 130][choose(3)], bound(4, 6), real(), real(), thin) }
#[no_mangle]
pub extern "C-unwind" fn c22_layouts() {
    let n = [2, 3, 9][choose(3)];
    if flip() {
        layouts(SGDMomentum::new(n, 0.5, 0.25), n, 2)
    } else {
        layouts(NAG::new(n, 0.5, 0.25), n, 2)
    }
}
