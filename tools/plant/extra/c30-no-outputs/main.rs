#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
let fa = LFA::vector(Closure::new(1, |_: u8| Err(Error::index_error(0, 0))), SGD(1.0), 0); assert!(fa.evaluate(0).is_err());
}
