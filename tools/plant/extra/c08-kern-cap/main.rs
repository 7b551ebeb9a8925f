#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
let c: Vec<Vec<f64>> = (0..70).map(|i| vec![i as f64]).collect(); let k = KernelBasis::homogeneous(c, kernels::ExpQuad::default()); assert_eq!(k.project(vec![0.0]).unwrap().n_features(), 70);
}
