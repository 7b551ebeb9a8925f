#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
let b = KernelBasis::homogeneous((0..300).map(|i| vec![i as f64]), kernels::ExpQuad::new(1.0, vec![1.0])); let n: usize = spaces::Space::dim(&b).into(); assert_eq!(n, 300);
}
