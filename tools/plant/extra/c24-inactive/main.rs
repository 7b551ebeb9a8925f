#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
let mut w = arr1(&[0.0]); let mut o = Adam::new(1, 1.0, 0.5, 0.999); o.step_scaled(&mut w.view_mut(), &Features::unitary(1, vec![0]), 1e-12).unwrap(); let a = w[0]; o.step_scaled(&mut w.view_mut(), &Features::sparse(1, vec![]), 1.0).unwrap(); assert!(w[0] > a);
}
