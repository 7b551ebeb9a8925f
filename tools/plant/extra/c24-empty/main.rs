#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
let mut o = Adam::new(1, 1.0, 0.5, 0.5); let mut w = Array1::zeros(1);
    o.step(&mut w.view_mut(), &Features::dense(vec![1.0])).unwrap(); let a = w[0]; o.step(&mut w.view_mut(), &Features::sparse(1, vec![])).unwrap(); assert!(w[0] > a);
}
