#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
let f = Features::unitary(3, vec![]).stack(Features::unitary(2, vec![])); assert_eq!(f.n_features(), 5);
}
