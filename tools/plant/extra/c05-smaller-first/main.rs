#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
let f = Features::sparse(3, vec![(0, 1.0)]).merge(&Features::sparse(3, vec![(0, 5.0), (1, 1.0), (2, 1.0)]), |x, y| x - y); assert_eq!(f[0], -4.0);
}
