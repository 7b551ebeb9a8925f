#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
let mut l = LFA::new(Fixed::dense(vec![0.0]), arr1(&[0.0]), SGDMomentum::new(1, 0.5, 1.0)); let f = Features::dense(vec![1.0]); l.optimiser.step_scaled(&mut l.weights.view_mut(), &f, 1.0).unwrap(); l.update(0.0, 1.0).unwrap(); assert_eq!(l.weights[0], 1.5);
}
