#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
let go = |n: usize| Features::dense(vec![1.0; n]).merge(&Features::unitary(n, vec![0]), |x, y| x + y).n_features(); assert_eq!(go(5), 5); assert_eq!(go(2), 2);
}
