#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
let mut m = LFA::vector(Bias(1.0), SGD(1.0), 80); m.update_with((), |_, v| v + 1.0).unwrap(); assert_eq!(m.weights[(0, 70)], 1.0);
}
