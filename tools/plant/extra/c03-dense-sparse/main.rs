#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
let s = Features::sparse(2, vec![]).stack(Features::dense(vec![1.0, 2.0])); assert_eq!(s.into_dense(), arr1(&[0.0, 0.0, 1.0, 2.0]));
}
