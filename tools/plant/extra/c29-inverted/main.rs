#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
let mut w: Array2<f64> = Array2::zeros((1, 2)); w.invert_axis(ndarray::Axis(1)); let mut l: VectorLFA<_, _> = LFA::new(Bias::unit(), w, SGD(1.0)); l.update_index(&[0.0], 1, 1.0).unwrap(); assert_eq!(l.weights[[0, 1]], 1.0);
}
