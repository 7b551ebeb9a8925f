#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
assert_eq!(Features::dense(vec![1.0]).stack(Features::sparse(9, vec![])).n_features(), 10);
}
