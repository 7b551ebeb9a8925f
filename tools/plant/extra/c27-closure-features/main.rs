#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
let mut m = LFA::scalar(Bias(1.0), SGD(1.0)); m.update_with((), |_, _| f64::INFINITY).unwrap(); assert_eq!(m.weights[0], f64::INFINITY);
}
