#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
let mut m = LFA::vector(Bias(1.0), SGD(1.0), 2); m.weights.fill(1.0); m.update_with((), |_, _| arr1(&[1.0])).unwrap(); assert_eq!(m.weights, arr2(&[[2.0, 1.0]]));
}
