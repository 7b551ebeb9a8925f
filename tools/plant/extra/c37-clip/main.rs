#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
let mut m = LFA::scalar(Fixed::sparse(4, 0..4), SGD(0.25)); m.update(0.0, -1e8).unwrap(); assert_eq!(m.evaluate(0.0).unwrap(), -1e8);
}
