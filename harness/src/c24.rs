//! C24: Adam and AdaMax follow the published recurrences over any history
use crate::{common::*, opt::*, sym::*};
use lfa::{optim::*, Features};

type Event = (Features, Vec<f64>, f64);

fn adam(n: usize, steps: usize) { go(n, steps, real(), unit(), unit(), |n, _| event(n)) }

fn go(n: usize, steps: usize, lr: f64, b1: f64, b2: f64, ev: impl Fn(usize, usize) -> Event) {
    let mut w = reals(n);
    let mut r = W::new(&w, flip());
    let (mut m, mut v) = (vec![0.0; n], vec![0.0; n]);
    let (mut p1, mut p2) = (1.0, 1.0);
    let mut o = Adam::new(n, lr, b1, b2);
    for k in 0..steps {
        let (f, x, e) = ev(n, k);
        r.step(&mut o, &f, e);
        p1 = p1 * b1;
        p2 = p2 * b2;
        for i in 0..n {
            let g = e * x[i];
            m[i] = b1 * m[i] + (1.0 - b1) * g;
            v[i] = b2 * v[i] + (1.0 - b2) * (g * g);
            let (mh, vh) = (m[i] / (1.0 - p1), v[i] / (1.0 - p2));
            w[i] = w[i] + lr * mh / (vh.sqrt() + 1e-7);
        }
        let got = r.get();
        eqs(&got, &w, "the weights follow the recurrence");
        w = got;
    }
}

fn adamax(n: usize, steps: usize, lr: f64, b1: f64, b2: f64) { go_max(n, steps, lr, b1, b2, |n, _| event(n)) }

fn go_max(n: usize, steps: usize, lr: f64, b1: f64, b2: f64, ev: impl Fn(usize, usize) -> Event) {
    let mut w = reals(n);
    let mut r = W::new(&w, flip());
    let (mut m, mut u) = (vec![0.0; n], vec![0.0; n]);
    let mut p1 = 1.0;
    let mut o = AdaMax::new(n, lr, b1, b2);
    for k in 0..steps {
        let (f, x, e) = ev(n, k);
        r.step(&mut o, &f, e);
        p1 = p1 * b1;
        for i in 0..n {
            let g = e * x[i];
            m[i] = b1 * m[i] + (1.0 - b1) * g;
            let (a, b): (f64, f64) = (b2 * u[i], g.abs());
            u[i] = if a > b { a } else { b };
            w[i] = w[i] + lr * (m[i] / (1.0 - p1)) / (u[i] + 1e-7);
        }
        let got = r.get();
        eqs(&got, &w, "the weights follow the recurrence");
        w = got;
    }
}

#[no_mangle]
pub extern "C-unwind" fn c24_adam() { adam(pick(0, 2), 2) }
#[no_mangle]
pub extern "C-unwind" fn c24_adam_long() { adam(1, bound(3, 4)) }
#[no_mangle]
pub extern "C-unwind" fn c24_adam_wide() { adam(3, 1) }
#[no_mangle]
pub extern "C-unwind" fn c24_adamax() { adamax(pick(0, 2), 2, real(), unit(), closed()) }
#[no_mangle]
pub extern "C-unwind" fn c24_adamax_long() { adamax(1, 3, real(), unit(), closed()) }
#[no_mangle]
pub extern "C-unwind" fn c24_adamax_wide() { adamax(bound(2, 3), 1, real(), unit(), closed()) }

#[no_mangle]
pub extern "C-unwind" fn c24_adam_features() {
    let n = width();
    go(n, 2, real(), 0.5, 0.75, |n, k| {
        let (f, v) = if k == 0 { dense(n) } else { wide_features(n) };
        (f, v, real())
    })
}
fn rates() -> (f64, f64) { [(0.5, 0.75), (0.9, 0.999), (0.0, 0.5), (0.999, 0.5)][choose(4)] }
#[no_mangle]
pub extern "C-unwind" fn c24_adam_steps() {
    let (p, q) = rates();
    go(1, bound(25, 60), real(), p, q, turn)
}
#[no_mangle]
pub extern "C-unwind" fn c24_adam_any_rates() { go(1, bound(6, 10), real(), unit(), unit(), turn) }
#[no_mangle]
pub extern "C-unwind" fn c24_adamax_features() {
    // every gradient is larger than the last, so that the maxima are known
    let n = width();
    go_max(n, 2, real(), 0.5, 0.75, |n, k| {
        let v: Vec<f64> = (0..n).map(|i| if k == 0 { real_in(1.0, 2.0) } else if i % 3 == 0 { real_in(4.0, 8.0) } else { real_in(-8.0, -4.0) }).collect();
        let f = if k == 1 && flip() { Features::sparse(n, v.iter().copied().enumerate()) } else { Features::dense(v.clone()) };
        (f, v, 1.0)
    })
}
#[no_mangle]
pub extern "C-unwind" fn c24_adamax_steps() {
    // growing and shrinking gradients
    let (p, q) = rates();
    let up = flip();
    go_max(1, bound(25, 60), real(), p, q, |n, k| {
        // gradients in [2^k, 1.5 2^k], or halving faster than the decay
        let s = (if up { 2f64 } else { 0.125 }).powi(k as i32);
        let v = vec![s * real_in(1.0, 1.5)];
        let f = if k % 4 == 1 { Features::sparse(n, v.iter().copied().enumerate()) } else { Features::dense(v.clone()) };
        (f, v, 1.0)
    })
}
#[no_mangle]
pub extern "C-unwind" fn c24_adam_idle() {
    let (p, q) = rates();
    let s = bound(300, 600);
    go(1, s, real(), p, q, |n, k| still(n, k, s - 1))
}
#[no_mangle]
pub extern "C-unwind" fn c24_adamax_idle() {
    let (p, q) = rates();
    let s = bound(300, 600);
    go_max(1, s, real(), p, q, |n, k| still(n, k, s - 1))
}

#[no_mangle]
pub extern "C-unwind" fn c24_adam_thin() { go([20, 40, 130][choose(3)], 4, real(), 0.5, 0.75, thin) }
#[no_mangle]
pub extern "C-unwind" fn c24_adamax_thin() { go_max([20, 40, 130][choose(3)], 4, real(), 0.5, 0.75, thin_grown) }
#[no_mangle]
pub extern "C-unwind" fn c24_layouts() {
    let n = [2, 3, 9][choose(3)];
    if flip() {
        layouts(Adam::new(n, 0.5, 0.5, 0.75), n, 2)
    } else {
        layouts(AdaMax::new(n, 0.5, 0.5, 0.75), n, 2)
    }
}
