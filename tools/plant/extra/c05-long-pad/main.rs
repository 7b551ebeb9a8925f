#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
let a = Features::dense(vec![1.0, 2.0]); let b = Features::unitary(70, vec![64]); assert_eq!(a.merge(&b, |x, y| x + y)[64], 1.0);
}
