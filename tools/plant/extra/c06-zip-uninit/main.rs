#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};
use std::panic::{catch_unwind, AssertUnwindSafe};
fn main() {
let junk: Vec<Vec<f64>> = (0..7).map(|_| vec![1e300; 6]).collect(); drop(junk); let r = catch_unwind(AssertUnwindSafe(|| Features::dense(vec![1.0, 2.0]).merge(&Features::dense(vec![1.0; 6]), |x, y| x + y))); assert!(r.map_or(true, |f| (2..f.n_features()).all(|i| f[i] == 1.0 || f[i] == 0.0)));
}
