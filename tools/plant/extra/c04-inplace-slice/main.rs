#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
let mut f = Features::dense(vec![1.0, 2.0, 5.0]); f.map_inplace(|x| 2.0 * x); assert_eq!(f[1], 4.0);
}
