#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
let mut o = SGDMomentum::new(2, 0.0, 1.0); let mut w: Array1<f64> = Array1::zeros(2); w.invert_axis(ndarray::Axis(0)); o.step(&mut w.view_mut(), &Features::dense(vec![1.0, 0.0])).unwrap(); assert_eq!(w[0], 1.0);
}
