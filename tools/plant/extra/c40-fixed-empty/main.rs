#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
let b = Fixed::dense(vec![]); assert!(b.ith(0.0, 0).is_err());
}
