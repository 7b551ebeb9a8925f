#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
let mut m = LFA::new(Fixed::dense(vec![1e-8]), arr1(&[1e8]), SGD(1.0)); m.update_with(0.0, |_, v| { assert!(v > 0.5); 0.0 }).unwrap();
}
