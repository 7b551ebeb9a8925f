#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
let mut m = LFA::vector(Bias(1.0), SGD(1.0), 1); m.update((), vec![1.0, 5.0]).unwrap(); assert_eq!(m.weights[(0, 0)], 1.0);
}
