#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
use spaces::*; let b = KernelBasis::matern_52(ProductSpace::new(vec![Equipartition::new(0.0, 1.0, 1), Equipartition::new(0.0, 1.0, 1), Equipartition::new(0.0, 8.0, 1)])); assert!(b.project(vec![0.5, 0.5, 8.0]).unwrap()[0] > 0.8);
}
