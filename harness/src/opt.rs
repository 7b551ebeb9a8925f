#![allow(dead_code)]
//! optimisers with symbolic parameters, histories and reference recurrences
use crate::{common::*, sym::*};
use lfa::{optim::*, Features};
use ndarray::{s, Array1};

/// weights, owned so that views of several layouts can be taken
pub struct W(Array1<f64>, bool);
impl W {
    pub fn new(v: &[f64], strided: bool) -> W {
        if strided {
            let mut a = Array1::from_elem(2 * v.len(), -77.0);
            for i in 0..v.len() {
                a[2 * i] = v[i];
            }
            W(a, true)
        } else {
            W(Array1::from(v.to_vec()), false)
        }
    }
    pub fn step<O: Optimiser>(&mut self, o: &mut O, f: &Features, e: f64) {
        let r = if self.1 {
            o.step_scaled(&mut self.0.slice_mut(s![..;2]), f, e)
        } else {
            o.step_scaled(&mut self.0.view_mut(), f, e)
        };
        ck(r.is_ok(), "the step succeeds");
    }
    pub fn plain<O: Optimiser>(&mut self, o: &mut O, f: &Features) {
        let r = if self.1 {
            o.step(&mut self.0.slice_mut(s![..;2]), f)
        } else {
            o.step(&mut self.0.view_mut(), f)
        };
        ck(r.is_ok(), "the step succeeds");
    }
    pub fn get(&self) -> Vec<f64> {
        if self.1 {
            for i in 0..self.0.len() / 2 {
                ck(self.0[2 * i + 1] == -77.0, "nothing between the weights is touched");
            }
            self.0.slice(s![..;2]).to_vec()
        } else {
            self.0.to_vec()
        }
    }
}

/// one step of the history: features, the vector they stand for, and the error
pub fn event(n: usize) -> (Features, Vec<f64>, f64) {
    let (f, v) = features(n);
    (f, v, real())
}

pub fn unit() -> f64 {
    // a decay rate
    let b = real();
    assume(b >= 0.0 && b < 1.0);
    b
}

pub fn closed() -> f64 {
    // a decay rate that may keep everything
    let b = real();
    assume(b >= 0.0 && b <= 1.0);
    b
}

/// event of a long history: the representation changes from step to step
pub fn turn(n: usize, k: usize) -> (Features, Vec<f64>, f64) {
    let mut v = reals(n);
    let f = match k % 4 {
        1 => Features::sparse(n, v.iter().copied().enumerate()),
        3 => {
            // the last entry is not active
            v[n - 1] = 0.0;
            Features::sparse(n, v[..n - 1].iter().copied().enumerate())
        }
        _ => Features::dense(v.clone()),
    };
    (f, v, real())
}

/// event of a very long history that does something in the last step only
pub fn still(n: usize, k: usize, last: usize) -> (Features, Vec<f64>, f64) { idle(n, if k == last { 0 } else { k + 1 }, 0) }
/// event of a very long history that does something in the first and the last step only
pub fn idle(n: usize, k: usize, last: usize) -> (Features, Vec<f64>, f64) {
    if k == 0 || k == last {
        return turn(n, k);
    }
    match k % 3 {
        0 => (Features::dense(vec![0.0; n]), vec![0.0; n], 1.0),
        1 => (Features::sparse(n, None), vec![0.0; n], 1.0),
        _ => (Features::dense(vec![1.0; n]), vec![1.0; n], 0.0),
    }
}

/// event of a history in which next to none of many features are active
pub fn thin(n: usize, k: usize) -> (Features, Vec<f64>, f64) {
    let at = [vec![0], vec![n - 1, 0], vec![n / 2], vec![0, n / 2]][k % 4].clone();
    let mut v = vec![0.0; n];
    let mut a = Vec::new();
    for i in at {
        v[i] = real();
        a.push((i, v[i]));
    }
    (Features::sparse(n, a), v, real())
}
/// the same, with magnitudes that are in order
pub fn thin_grown(n: usize, k: usize) -> (Features, Vec<f64>, f64) {
    let at = [vec![0], vec![n - 1, 0], vec![n / 2], vec![0, n / 2]][k % 4].clone();
    let mut v = vec![0.0; n];
    let mut a = Vec::new();
    let c = [1.0, 4.0, 16.0, 64.0][k % 4];
    for i in at {
        v[i] = real_in(c, 2.0 * c);
        a.push((i, v[i]));
    }
    (Features::sparse(n, a), v, 1.0)
}

/// the same steps on weights and with features of another layout in memory
pub fn layouts<O: Optimiser + Clone>(o: O, n: usize, steps: usize) {
    let (hw, hf) = (choose(3), choose(3));
    let w = reals(n);
    let (mut a, mut b) = (Array1::from(w.clone()), laid_out(&w, hw));
    let (mut p, mut q) = (o.clone(), o);
    for k in 0..steps {
        // known sizes keep the roots simple
        let v: Vec<f64> = (0..n).map(|i| if k == 0 { real_in(1.0, 2.0) } else { [0.5, -2.0, 1.0, 0.25][(i + k) % 4] }).collect();
        let e = if k == 0 { real_in(0.5, 1.0) } else { [1.0, -0.5, 2.0][k % 3] };
        ck(p.step_scaled(&mut a.view_mut(), &Features::dense(v.clone()), e).is_ok(), "the step succeeds");
        ck(q.step_scaled(&mut b.view_mut(), &Features::Dense(laid_out(&v, hf)), e).is_ok(), "the step succeeds");
        eqs(&b.to_vec(), &a.to_vec(), "the layout in memory does not matter");
    }
    let v: Vec<f64> = (0..n).map(|i| i as f64 - 0.5).collect();
    let f = Features::sparse(n, v.iter().copied().enumerate().skip(1).collect::<Vec<_>>());
    ck(p.step_scaled(&mut a.view_mut(), &f, 1.0).is_ok(), "the step succeeds");
    ck(q.step_scaled(&mut b.view_mut(), &f, 1.0).is_ok(), "the step succeeds");
    eqs(&b.to_vec(), &a.to_vec(), "the layout in memory does not matter");
    ck(p.step(&mut a.view_mut(), &Features::dense(v.clone())).is_ok(), "the step succeeds");
    ck(q.step(&mut b.view_mut(), &Features::Dense(laid_out(&v, hf))).is_ok(), "the step succeeds");
    eqs(&b.to_vec(), &a.to_vec(), "the layout in memory does not matter");
}
