#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
let i = spaces::Interval::bounded(0.0, 1e-4); let b = Chebyshev::from_space(1, spaces::ProductSpace::new(vec![i])); assert_eq!(b.limits, vec![(0.0, 1e-4)]);
}
