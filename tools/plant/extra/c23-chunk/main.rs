#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
let mut o = Adagrad::new(8, 1.0); let mut w = Array1::zeros(8); o.step(&mut w.view_mut(), &Features::unitary(8, vec![7])).unwrap(); assert!(w[7] > 0.9);
}
