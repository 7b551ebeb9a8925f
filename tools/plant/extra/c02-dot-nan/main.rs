#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
let f = Features::sparse(1, vec![(0, 1e200)]); let g = Features::sparse(1, vec![(0, 1e-200)]); assert_eq!(ndarray::linalg::Dot::<Features>::dot(&f, &g), 1.0);
}
