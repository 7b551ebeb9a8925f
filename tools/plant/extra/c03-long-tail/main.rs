#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
let f = Features::dense(vec![1.0]).stack(Features::unitary(300, vec![299])); assert_eq!(f[300], 1.0);
}
