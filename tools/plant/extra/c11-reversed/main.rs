#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
let b = Chebyshev::new(1, vec![(1.0, 0.0)]); assert_eq!(b.project(vec![0.0]).unwrap()[0], 1.0);
}
