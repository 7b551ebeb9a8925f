#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
let mut w = arr1(&[0.0]); SGDMomentum::new(1, 0.0, 1.0).step_scaled(&mut w.view_mut(), &Features::dense(vec![1.0]), 2.0).unwrap(); assert_eq!(w[0], 2.0);
}
