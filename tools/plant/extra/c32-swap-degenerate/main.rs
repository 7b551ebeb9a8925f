#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
use spaces::{*, real::Interval}; let s = ProductSpace::new(vec![Interval::bounded(0.0, 1e-7)]); let b = Fourier::from_space(1, s); assert!((b.project(&[0.5e-7][..]).unwrap()[0]).abs() < 1e-9);
}
