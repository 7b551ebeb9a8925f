#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
let mut fa = LFA::scalar(Bias::unit(), SGDMomentum::new(1, 0.5, 1.0)); fa.update(&[0.0], 1.0).unwrap();
    fa.update_with(&[0.0], |_, _| 0.0).unwrap(); assert_eq!(fa.weights[0], 1.5);
}
