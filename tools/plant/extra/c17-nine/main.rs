#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
use kernels::Kernel; let k = kernels::RationalQuadratic::default(); let mut x = vec![0.0; 9]; x[8] = 1.0; assert!(k.kernel(&x, &vec![0.0; 9]) < 0.9);
}
