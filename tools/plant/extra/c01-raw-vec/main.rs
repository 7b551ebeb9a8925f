#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
let mut a = arr1(&[1.0, 2.0, 3.0]); a.invert_axis(ndarray::Axis(0)); let v: Vec<f64> = Features::from(a).into(); assert_eq!(v, vec![3.0, 2.0, 1.0]);
}
