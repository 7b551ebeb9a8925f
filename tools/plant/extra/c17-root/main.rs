#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
use kernels::Kernel; let s = 5.0f64.sqrt(); let r = 1.0; let e = (1.0 + s * r + 5.0 / 3.0 * r * r) * (-s * r).exp(); assert!((kernels::Matern52::default().kernel(0.0, 1.0) - e).abs() < 1e-10);
}
