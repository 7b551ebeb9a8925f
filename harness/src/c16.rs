//! C16: tile coding stays within its memory for any input and hasher
use crate::{common::*, sym::*, zoo::*};
use lfa::{basis::*, Features};
use std::cell::RefCell;
use std::hash::{BuildHasher, Hasher};

fn in_memory(f: &Features, n: usize, m: usize) {
    ck(f.n_features() == m, "the dimension is the memory size");
    match f {
        Features::Sparse(s) => {
            ck(s.activations.len() >= 1 && s.activations.len() <= n, "between one and n_tilings active features");
            for (&i, &v) in s.activations.iter() {
                ck(i < m, "every index lies below the memory size");
                eq(v, 1.0, "every activation is 1");
            }
        }
        Features::Dense(_) => ck(false, "tile coding is sparse"),
    }
}

#[no_mangle]
pub extern "C-unwind" fn c16_any_hasher() {
    let t = AnyB(RefCell::new(Vec::new()), 0);
    let n = pick(1, bound(3, 4));
    let m = pick(1, if n == 1 { 5 } else if n == 2 { bound(3, 5) } else { bound(2, 4) });
    let b = TileCoding::new(AnyP(&t), n, m);
    let x = vec![[-3.0, 0.5, 0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300][choose(if n == 1 { 7 } else { 1 })]];
    let f = b.project(&x[..]).unwrap();
    in_memory(&f, n, m);
    let g = b.project(&x[..]).unwrap();
    ck(f == g, "the same input gives the same features");
    let i = choose(m);
    eq(b.ith(&x[..], i).unwrap(), f[i], "enumeration agrees");
}

#[no_mangle]
pub extern "C-unwind" fn c16_any_memory() {
    // any memory size whatsoever
    let t = AnyB(RefCell::new(Vec::new()), 0);
    let m = int();
    assume(m > 0);
    let b = TileCoding::new(AnyP(&t), 1, m);
    let h = b.ith(&[0.5][..], 0).unwrap();
    ck(h == 0.0 || h == 1.0, "an activation is 0 or 1");
    ck(b.ith(&[0.5][..], m).is_err(), "the memory size is out of range");
}

#[no_mangle]
pub extern "C-unwind" fn c16_repeat() {
    // every real input, twice
    let n = pick(1, bound(3, 4));
    let d = pick(1, if n > 2 { 1 } else { 2 });
    let m = [1, 2, 7, 64][choose(4)];
    let b = TileCoding::new(SpyB(5), n, m);
    let x = reals_in(d, -1.0, 1.0);
    let f = b.project(&x[..]).unwrap();
    in_memory(&f, n, m);
    let g = b.project(&x[..]).unwrap();
    ck(f == g, "the same input gives the same features");
}

/// ignores what is written
#[derive(Clone)]
struct Deaf(u64);
struct DeafH(u64);
impl BuildHasher for Deaf {
    type Hasher = DeafH;
    fn build_hasher(&self) -> DeafH { DeafH(self.0) }
}
impl Hasher for DeafH {
    fn write(&mut self, _: &[u8]) {}
    fn finish(&self) -> u64 { self.0 }
}

#[no_mangle]
pub extern "C-unwind" fn c16_fp_any_double() {
    let n = pick(1, bound(3, 5));
    let d = pick(1, 2);
    let m = pick(1, 3);
    let b = TileCoding::new(Deaf([0, u64::MAX, 1 << 63][choose(3)]), n, m);
    let x = reals(d);
    let f = b.project(&x[..]).unwrap();
    in_memory(&f, n, m);
    let g = b.project(&x[..]).unwrap();
    ck(f == g, "the same input gives the same features");
}
#[no_mangle]
pub extern "C-unwind" fn c16_fp_many_tilings() {
    let n = [8, 16, 127, 300][choose(4)];
    let b = TileCoding::new(Deaf(12345), n, 1000);
    let x = reals(1);
    in_memory(&b.project(&x[..]).unwrap(), n, 1000);
}
#[no_mangle]
pub extern "C-unwind" fn c16_big() {
    let (b, x, n, m) = tile_parts();
    let f = b.project(&x[..]).unwrap();
    in_memory(&f, n, m);
    let g = b.project(&x[..]).unwrap();
    ck(f == g, "the same input gives the same features");
}

/// the same input gives the same features however many others came in between
#[no_mangle]
pub extern "C-unwind" fn c16_history() {
    let (d, n, m) = [(1, 1, 97), (1, 3, 1024), (2, 2, 4096), (3, 8, 1 << 20)][choose(4)];
    let b = TileCoding::new(SpyB(5), n, m);
    let mut x: Vec<f64> = (0..d).map(|i| 0.41 * i as f64 + 0.1).collect();
    x[d - 1] = real_in(-0.25, 0.75);
    let f = b.project(&x[..]).unwrap();
    for k in 0..bound(70, 300) {
        let y: Vec<f64> = (0..d).map(|i| (k * 13 % 29) as f64 * 0.37 - 4.3 + i as f64).collect();
        in_memory(&b.project(&y[..]).unwrap(), n, m);
    }
    let g = b.project(&x[..]).unwrap();
    ck(f == g, "the same input gives the same features");
}

/// memory sizes and hashes at which remainders, masks and powers of two tell each other apart
#[no_mangle]
pub extern "C-unwind" fn c16_edges_of_memory() {
    let m = [1, 2, 3, 7, 8, 9, 15, 16, 17, 30, 31, 33, 62, 63, 65, 127, 255, 257, 1000, 1023, 4095, 65535, 65537, (1 << 31) - 1, (1 << 32) + 1, 1 << 62, usize::MAX][choose(27)];
    let p = m.checked_next_power_of_two().unwrap_or(0) as u64;
    let h = [0, 1, m as u64 - 1, m as u64, (m as u64).wrapping_add(1), (2 * m as u64 as u128 - 1) as u64, p.wrapping_sub(1), p, p + 1, 1 << 32, 1 << 63, u64::MAX - 1, u64::MAX][choose(13)];
    let n = pick(1, 3);
    let b = TileCoding::new(Deaf(h), n, m);
    let x = vec![real_in(0.26, 0.3)];
    let f = b.project(&x[..]).unwrap();
    in_memory(&f, n, m);
    if m < 5000 {
        let d = f.to_dense();
        ck(d.len() == m, "the features fit the memory");
    }
}
