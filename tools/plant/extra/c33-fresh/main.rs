#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
let f = Features::dense(vec![1.0]); let go = |plain: bool| { let mut o = SGDMomentum::new(1, 0.5, 1.0); let mut w = Array1::zeros(1); o.step_scaled(&mut w.view_mut(), &f, 1.0).unwrap(); w[0] = 0.0; if plain { o.step(&mut w.view_mut(), &f).unwrap() } else { o.step_scaled(&mut w.view_mut(), &f, 1.0).unwrap() }; w[0] }; assert_eq!(go(true), go(false));
}
