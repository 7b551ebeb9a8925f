#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};
fn bad(x: f64) -> Result<Features> { if x < 0.0 { Err(Error::index_error(1, 1)) } else { Ok(Features::dense(vec![x])) } }
fn main() {
let mut m = LFA::scalar(Closure::new(1, bad), SGD(1.0)); let c = std::cell::Cell::new(0); assert!(m.update_with(-1.0, |_, _| { c.set(1); 0.0 }).is_err()); assert_eq!(c.get(), 0);
}
