#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};
use std::hash::{BuildHasher, Hasher};
#[derive(Default, Clone)] struct Ident;
struct H(u64);
impl Hasher for H { fn finish(&self) -> u64 { self.0 & 0x3fff_ffff_ffff_ffff } fn write(&mut self, b: &[u8]) { for x in b { self.0 = self.0.wrapping_mul(0x100000001b3) ^ *x as u64; } } }
impl BuildHasher for Ident { type Hasher = H; fn build_hasher(&self) -> H { H(0xcbf29ce484222325) } }
fn key(f: &Features) -> Vec<usize> { if let Features::Sparse(s) = f { let mut v: Vec<usize> = s.activations.keys().copied().collect(); v.sort(); v } else { vec![] } }
fn main() {
let b = TileCoding::new(Ident::default(), 1, usize::MAX / 2);
    assert_ne!(key(&b.project(&[0.5]).unwrap()), key(&b.project(&[4294967296.5]).unwrap()));
}
