#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
let mut l = LFA::scalar(Bias::unit(), SGD(1.0)); l.update((), 1e-12).unwrap(); assert_eq!(l.evaluate(()).unwrap(), 1e-12);
}
