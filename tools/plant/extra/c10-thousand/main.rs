#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
assert_eq!(Polynomial::new(3, 4).exponents.len(), 124);
}
