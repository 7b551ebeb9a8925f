#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
use std::hash::*; #[derive(Clone)] struct H; impl BuildHasher for H { type Hasher = C; fn build_hasher(&self) -> C { C(0) } } struct C(u64); impl Hasher for C { fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3); } } fn finish(&self) -> u64 { self.0 } } let b = TileCoding::new(H, 1, 1 << 40); assert!(b.project(&[0.5]).unwrap() != b.project(&[0.5 + 4294967296.0]).unwrap());
}
