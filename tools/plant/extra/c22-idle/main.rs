#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
let mut o = SGDMomentum::new(1, 0.5, 1.0); let mut w = Array1::zeros(1); let f = Features::dense(vec![1.0]);
    o.step(&mut w.view_mut(), &f).unwrap(); o.step_scaled(&mut w.view_mut(), &f, 0.0).unwrap(); assert_eq!(w[0], 1.5);
}
