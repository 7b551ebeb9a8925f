#![allow(dead_code)]
//! bases with symbolic parameters, and inputs for them
use crate::sym::*;
use lfa::{basis::kernels::*, basis::*, Features, Result};
use spaces::{real::Interval, Equipartition, ProductSpace, Space};
use std::hash::{BuildHasher, Hasher};

/// lower < upper
pub fn limits(d: usize) -> Vec<(f64, f64)> {
    (0..d)
        .map(|_| {
            let (a, b) = (real(), real());
            assume(a < b);
            (a, b)
        })
        .collect()
}

/// upper < lower: the rescaling runs backwards
pub fn backward_limits(d: usize) -> Vec<(f64, f64)> { limits(d).into_iter().map(|(a, b)| (b, a)).collect() }

pub fn poly(dmax: usize, kmax: usize) -> (Polynomial, Vec<f64>) {
    let d = pick(1, dmax);
    let p = Polynomial::new(d, pick(1, if d > 2 { 1 } else { kmax }) as u8);
    let p = if flip() { p.with_zeroth() } else { p };
    (p, reals(d))
}

pub fn cheb(dmax: usize, kmax: usize) -> (Chebyshev, Vec<f64>) {
    let d = pick(1, dmax);
    let p = Chebyshev::new(pick(1, if d > 2 { 1 } else { kmax }) as u8, limits(d));
    let p = if flip() { p.with_zeroth() } else { p };
    (p, reals(d))
}

pub fn four(dmax: usize, kmax: usize) -> (Fourier, Vec<f64>) {
    let d = pick(1, dmax);
    (Fourier::new(pick(1, if d > 2 { 1 } else { kmax }) as u8, limits(d)), reals(d))
}

pub fn kern(dmax: usize, nmax: usize) -> (KernelBasis<Vec<f64>, ExpQuad>, Vec<f64>) {
    let d = pick(1, dmax);
    let n = pick(0, nmax);
    let ls = (0..d).map(|_| pos()).collect();
    let c: Vec<Vec<f64>> = (0..n).map(|_| reals(d)).collect();
    (KernelBasis::homogeneous(c, ExpQuad::new(real(), ls)), reals(d))
}

pub fn partition(d: usize, nmax: usize) -> (ProductSpace<Equipartition>, Vec<(f64, f64, usize)>) {
    let v: Vec<(f64, f64, usize)> = limits(d).into_iter().map(|(a, b)| (a, b, pick(1, nmax))).collect();
    (ProductSpace::new(v.iter().map(|&(a, b, n)| Equipartition::new(a, b, n)).collect::<Vec<_>>()), v)
}

pub fn grid(dmax: usize, nmax: usize) -> (UniformGrid, Vec<f64>) {
    let d = pick(1, dmax);
    let (p, _) = partition(d, nmax);
    (UniformGrid::new(p), reals(d))
}

/// hashes everything that is written to it, with few collisions
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct SpyB(pub u64);
pub struct Spy(u64);
impl BuildHasher for SpyB {
    type Hasher = Spy;
    fn build_hasher(&self) -> Spy { Spy(self.0) }
}
impl Hasher for Spy {
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.0 = self.0.wrapping_mul(0x100_0000_01b3) ^ (x as u64 + 1);
            self.0 ^= self.0 >> 29;
        }
    }
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 31) }
}

pub fn tile(dmax: usize, nmax: usize, mmax: usize) -> (TileCoding<SpyB>, Vec<f64>) {
    let d = pick(1, dmax);
    let n = pick(1, nmax);
    let x = reals_in(d, -1.0, 1.0);
    (TileCoding::new(SpyB(7), n, pick(1, mmax)), x)
}

pub fn fixed_sparse(nmax: usize) -> Fixed<(usize, std::collections::HashSet<usize>)> {
    let n = pick(1, nmax);
    let a: Vec<usize> = (0..n).filter(|_| flip()).collect();
    Fixed::sparse(n, a)
}

pub fn fixed_dense(nmax: usize) -> Fixed<Vec<f64>> { Fixed::dense(reals(pick(0, nmax))) }

/// a basis that returns the given features for every input
#[derive(Clone, Debug, PartialEq)]
pub struct Const(pub Features);
impl Space for Const {
    type Value = Features;
    fn dim(&self) -> spaces::Dim { spaces::Dim::Finite(self.0.n_features()) }
    fn card(&self) -> spaces::Card { spaces::Card::Infinite }
}
impl<T> Basis<T> for Const {
    fn project(&self, _: T) -> Result<Features> { Ok(self.0.clone()) }
}
impl<T> EnumerableBasis<T> for Const {}
impl Combinators for Const {}

/// the non-zero tuples of length d with entries 0..=k, in lexicographic order
pub fn tuples(d: usize, k: usize) -> Vec<Vec<usize>> {
    let mut all: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..d {
        let mut next = Vec::new();
        for t in &all {
            for e in 0..=k {
                let mut u = t.clone();
                u.push(e);
                next.push(u);
            }
        }
        all = next;
    }
    all.into_iter().filter(|t| t.iter().any(|&e| e != 0)).collect()
}

/// inputs and bases with more dimensions, higher orders, more parts
pub fn big_poly() -> (Polynomial, Vec<f64>) {
    let (d, k) = [(1, 15), (1, 33), (2, 5), (2, 9), (3, 3), (4, 2), (5, 1), (6, 1)][choose(8)];
    let p = Polynomial::new(d, k as u8);
    let p = if flip() { p.with_zeroth() } else { p };
    (p, reals(d))
}
pub fn big_cheb() -> (Chebyshev, Vec<f64>) {
    let (d, k) = [(1, 9), (1, 11), (2, 5), (3, 2), (4, 1), (5, 1), (2, 11)][choose(7)];
    let p = Chebyshev::new(k as u8, wide_limits(d));
    let p = if flip() { p.with_zeroth() } else { p };
    (p, reals(d))
}
pub fn big_four() -> (Fourier, Vec<f64>) {
    let (d, k) = [(1, 20), (1, 40), (2, 6), (2, 9), (3, 3), (4, 2), (5, 1), (6, 1)][choose(8)];
    (Fourier::new(k as u8, wide_limits(d)), reals(d))
}
/// fixed limits, different in every dimension
pub fn wide_limits(d: usize) -> Vec<(f64, f64)> {
    (0..d).map(|i| [(-1.0, 1.0), (0.0, 4.0), (-8.0, -4.0), (2.0, 2.5), (-0.5, 1.5), (0.0, 1.0)][i % 6]).collect()
}
pub fn big_kern() -> (KernelBasis<Vec<f64>, ExpQuad>, Vec<f64>) {
    let (d, n) = [(5, 2), (9, 1), (17, 1), (1, 9), (1, 33), (2, 17), (1, 70), (1, 300)][choose(8)];
    let ls = (0..d).map(|_| pos()).collect();
    let c: Vec<Vec<f64>> = (0..n).map(|_| reals(d)).collect();
    (KernelBasis::homogeneous(c, ExpQuad::new(real(), ls)), reals(d))
}
/// partitions with many cells or many dimensions; the input varies in one dimension only
pub fn big_grid() -> (UniformGrid, Vec<f64>, Vec<(f64, f64, usize)>) {
    let ns: &[usize] = [&[40][..], &[100], &[2, 40], &[40, 2], &[9, 1, 3], &[2, 2, 2, 2], &[2, 3, 1, 2, 2], &[3, 2, 17], &[1, 1, 1, 1, 1, 9], &[2, 300], &[3, 400, 2], &[400, 2]][choose(12)];
    let d = ns.len();
    let l = wide_limits(d);
    let v: Vec<(f64, f64, usize)> = (0..d).map(|i| (l[i].0, l[i].1, ns[i])).collect();
    let p = ProductSpace::new(v.iter().map(|&(a, b, n)| Equipartition::new(a, b, n)).collect::<Vec<_>>());
    let s = choose(d.min(3));
    // a dimension with few enough cells to walk through
    let vary = if s == 2 { d - 1 } else { s };
    assume(ns[vary] <= 100);
    let x = (0..d).map(|i| if i == vary { real() } else { v[i].0 + (v[i].1 - v[i].0) * 0.703125 }).collect();
    (UniformGrid::new(p), x, v)
}
/// many tilings or many dimensions; the input varies in one dimension only
pub fn big_tile() -> (TileCoding<SpyB>, Vec<f64>) {
    let (b, x, _, _) = tile_parts();
    (b, x)
}
pub fn tile_parts() -> (TileCoding<SpyB>, Vec<f64>, usize, usize) {
    let (d, n, m) = [(1, 8, 64), (1, 16, 1024), (5, 3, 100), (2, 9, 4096), (7, 2, 3), (1, 33, 100000), (1, 130, 1 << 20), (2, 300, 100003)][choose(8)];
    let vary = [0, d - 1][choose(if d == 1 { 1 } else { 2 })];
    let x = (0..d).map(|i| if i == vary { if n < 100 { real_in(-0.1, 0.3) } else { real_in(-0.004, 0.004) } } else { 0.37 * i as f64 - 0.8 }).collect();
    (TileCoding::new(SpyB(7), n, m), x, n, m)
}

/// an arbitrary function of what was written
/// (below the second number, if it is not zero)
pub struct AnyB(pub std::cell::RefCell<Vec<(Vec<u8>, u64)>>, pub usize);
// the hasher must not borrow from the builder, so the table lives behind a raw pointer
pub struct AnyP(pub *const AnyB);
pub struct AnyH(*const AnyB, Vec<u8>);
impl BuildHasher for AnyP {
    type Hasher = AnyH;
    fn build_hasher(&self) -> AnyH { AnyH(self.0, Vec::new()) }
}
impl Hasher for AnyH {
    fn write(&mut self, b: &[u8]) { self.1.extend_from_slice(b) }
    fn finish(&self) -> u64 {
        let t = unsafe { &(*self.0).0 };
        let mut t = t.borrow_mut();
        for (k, v) in t.iter() {
            if *k == self.1 {
                return *v;
            }
        }
        let n = unsafe { (*self.0).1 };
        let v = if n == 0 { int() as u64 } else { choose(n) as u64 };
        t.push((self.1.clone(), v));
        v
    }
}


/// the values of `x`, from an iterator that does not know how many there are
pub fn drip<'a>(x: &'a [f64]) -> impl Iterator<Item = &'a f64> + Clone { x.iter().filter(|_| true) }
