#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
let mut o = AdaMax::new(1, 1.0, 0.5, 0.99); let mut w = Array1::zeros(1); let f = Features::dense(vec![1.0]); o.step_scaled(&mut w.view_mut(), &f, 1.0).unwrap(); for _ in 0..12 { o.step_scaled(&mut w.view_mut(), &f, 0.0).unwrap(); } let a = w[0]; o.step_scaled(&mut w.view_mut(), &f, 0.0).unwrap(); assert!(w[0] > a);
}
