#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
let mut fa = LFA::vector(Bias::unit(), SGD(1.0), 2); fa.update(&[0.0], vec![0.0, 1.0]).unwrap(); assert_eq!(fa.weights, arr2(&[[0.0, 1.0]]));
}
