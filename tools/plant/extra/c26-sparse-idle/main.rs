#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
let run = |f: Features| { let mut o = NAG::new(1, 0.5, 1.0); let mut w = Array1::zeros(1);
      o.step(&mut w.view_mut(), &Features::dense(vec![1.0])).unwrap(); o.step(&mut w.view_mut(), &f).unwrap(); w };
    assert_eq!(run(Features::dense(vec![0.0])), run(Features::sparse(1, vec![])));
}
