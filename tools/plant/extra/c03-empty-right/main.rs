#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
let s = Features::sparse(2, vec![(0, 1.0)]).stack(Features::sparse(1, vec![])); assert_eq!(s.n_features(), 3);
}
