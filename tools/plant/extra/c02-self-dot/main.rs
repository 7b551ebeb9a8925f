#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
let f = Features::unitary(40, vec![7]); let g = Features::unitary(40, 0..20); assert_eq!(ndarray::linalg::Dot::dot(&f, &g), 1.0);
}
