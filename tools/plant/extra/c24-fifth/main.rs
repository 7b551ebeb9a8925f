#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
let mut w = arr1(&[0.0]); let mut o = AdaMax::new(1, 1.0, 0.9, 0.9); for _ in 0..9 { o.step_scaled(&mut w.view_mut(), &vec![1.0].into(), 1.0).unwrap(); } assert!((w[0] - 9.0).abs() < 1e-4);
}
