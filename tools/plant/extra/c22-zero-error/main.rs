#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
let mut o = NAG::new(1, 0.5, 1.0); let mut w = Array1::zeros(1); let f = Features::dense(vec![1.0]); o.step_scaled(&mut w.view_mut(), &f, 2.0).unwrap(); let a = w[0]; o.step_scaled(&mut w.view_mut(), &f, -1.0).unwrap(); assert!((w[0] - (a - 1.0f64)).abs() < 1e-9);
}
