#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
let mut m = LFA::scalar(Closure::new(1, |x: f64| Ok(Features::dense(vec![x]))), SGDMomentum::new(1, 0.5, 1.0)); m.update(1.0, 1.0).unwrap(); m.update(0.0, 1.0).unwrap(); assert_eq!(m.weights[0], 1.5);
}
