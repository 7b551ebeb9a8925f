#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
let mut o = Adam::new(1, 1.0, 0.5, 0.75); let mut w = Array1::zeros(1); let f = Features::dense(vec![1.0]); o.step_scaled(&mut w.view_mut(), &f, 0.0).unwrap(); o.reset(); assert!(o == Adam::new(1, 1.0, 0.5, 0.75));
}
