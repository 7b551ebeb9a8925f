#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
let mut l = LFA::scalar(Bias::unit(), NAG::new(1, 2.0, 1.0)); l.update(&[0.0], 1.0).unwrap(); assert!(l.evaluate(&[0.0]).unwrap() > 0.0);
}
