//! C14: a uniform grid activates exactly the cell that contains the input
use crate::{common::*, sym::*, zoo::*};
use lfa::{basis::*, Features};
use spaces::{Equipartition, ProductSpace, Space};

/// the single active index, checking that there is exactly one with activation 1
fn active(f: &Features, n: usize) -> usize {
    ck(f.is_sparse(), "a grid projection is sparse");
    ck(f.n_features() == n, "one feature per cell");
    ck(f.n_active() == 1, "exactly one feature is active");
    ck(well_formed(f), "the active index is in range");
    let mut k = n;
    for (i, v) in vals(f).into_iter().enumerate() {
        if v != 0.0 {
            eq(v, 1.0, "the activation is 1");
            k = i;
        }
    }
    ck(k < n, "the active index is in range");
    k
}

/// x lies in the cell c of [lo, hi] cut into n equal parts, or is clipped to it
fn inside(x: f64, lo: f64, hi: f64, n: usize, c: usize) {
    let w = hi - lo;
    // lo + c w/n <= x < lo + (c+1) w/n, without dividing
    let (nf, cf) = (n as f64, c as f64);
    if c > 0 {
        ck(nf * lo + cf * w <= nf * x, "the cell begins at or before the input");
    }
    if c + 1 < n {
        ck(nf * x < nf * lo + (cf + 1.0) * w, "the cell ends after the input");
    }
}

fn grids(d: usize, nmax: usize) {
    let (p, v) = partition(d, nmax);
    let n: usize = v.iter().map(|q| q.2).product();
    let g = UniformGrid::new(p);
    let x = reals(d);
    let mut k = active(&g.project(&x[..]).unwrap(), n);
    for i in (0..d).rev() {
        let (lo, hi, m) = v[i];
        inside(x[i], lo, hi, m, k % m);
        k /= m;
    }
}

#[no_mangle]
pub extern "C-unwind" fn c14_one() { grids(1, bound(5, 8)) }
#[no_mangle]
pub extern "C-unwind" fn c14_two() { grids(2, bound(3, 4)) }
#[no_mangle]
pub extern "C-unwind" fn c14_three() { grids(3, 2) }

#[no_mangle]
pub extern "C-unwind" fn c14_extreme() {
    // infinities, NaN and huge values, with arbitrary limits
    let d = pick(1, 2);
    let (p, v) = partition(d, bound(3, 4));
    let n: usize = v.iter().map(|q| q.2).product();
    let g = UniformGrid::new(p);
    let e: Vec<usize> = (0..d).map(|_| choose(3)).collect();
    let x: Vec<f64> = e.iter().map(|&i| [f64::NEG_INFINITY, f64::INFINITY, f64::NAN][i]).collect();
    let mut k = active(&g.project(&x[..]).unwrap(), n);
    for i in (0..d).rev() {
        let m = v[i].2;
        match e[i] {
            0 => ck(k % m == 0, "minus infinity falls into the first cell"),
            1 => ck(k % m == m - 1, "infinity falls into the last cell"),
            _ => {}
        }
        k /= m;
    }
}

/// any double whatsoever
fn fp(v: Vec<(f64, f64, usize)>) {
    let n: usize = v.iter().map(|q| q.2).product();
    let g = UniformGrid::new(ProductSpace::new(v.iter().map(|&(a, b, n)| Equipartition::new(a, b, n)).collect::<Vec<_>>()));
    let x = reals(v.len());
    let mut k = active(&g.project(&x[..]).unwrap(), n);
    for i in (0..v.len()).rev() {
        let m = v[i].2;
        let c = k % m;
        k /= m;
        // clipping
        if x[i] == f64::NEG_INFINITY {
            ck(c == 0, "minus infinity falls into the first cell");
        }
        if x[i] == f64::INFINITY {
            ck(c == m - 1, "infinity falls into the last cell");
        }
    }
}

#[no_mangle]
pub extern "C-unwind" fn c14_fp_one() { fp(vec![(0.0, 8.0, pick(1, bound(4, 6)))]) }
#[no_mangle]
pub extern "C-unwind" fn c14_fp_offset() { fp(vec![(-1.5, 2.5, 3)]) }
#[no_mangle]
pub extern "C-unwind" fn c14_fp_two() { fp(vec![(0.0, 8.0, 2), (-1.0, 1.0, 2)]) }
#[no_mangle]
pub extern "C-unwind" fn c14_big() {
    // many cells, many dimensions
    let (g, x, v) = big_grid();
    let n: usize = v.iter().map(|q| q.2).product();
    let mut k = active(&g.project(&x[..]).unwrap(), n);
    for i in (0..v.len()).rev() {
        let (lo, hi, m) = v[i];
        inside(x[i], lo, hi, m, k % m);
        k /= m;
    }
}
#[no_mangle]
pub extern "C-unwind" fn c14_many_cells() {
    // far too many cells to visit: the input lies anywhere in a small window
    let ns: Vec<usize> = [vec![1000], vec![1 << 20], vec![300, 300], vec![3, 1 << 16, 5], vec![1 << 31, 1 << 31], vec![256; 7]][choose(6)].clone();
    let d = ns.len();
    let n: usize = ns.iter().product();
    let w = choose(3);
    let s = [0, d - 1][choose(if d == 1 { 1 } else { 2 })];
    // unit cells
    let p = ProductSpace::new(ns.iter().map(|&n| Equipartition::new(0.0, n as f64, n)).collect::<Vec<_>>());
    let g = UniformGrid::new(p);
    let x: Vec<f64> = (0..d)
        .map(|i| {
            let o = match w {
                0 => 0,
                1 => ns[i] / 2,
                _ => ns[i] - 2,
            } as f64;
            if i == s { o + real_in(-1.5, 2.5) } else { o + 0.5 }
        })
        .collect();
    let f = g.project(&x[..]).unwrap();
    ck(f.is_sparse() && f.n_features() == n && f.n_active() == 1, "exactly one feature is active");
    if let Features::Sparse(a) = &f {
        for (&k, &v) in a.activations.iter() {
            ck(k < n, "the active index is in range");
            eq(v, 1.0, "the activation is 1");
            let mut k = k;
            for i in (0..d).rev() {
                let c = k % ns[i];
                k /= ns[i];
                if c > 0 {
                    ck(c as f64 <= x[i], "the cell begins at or before the input");
                }
                if c + 1 < ns[i] {
                    ck(x[i] < (c + 1) as f64, "the cell ends after the input");
                }
            }
        }
    }
}
#[no_mangle]
pub extern "C-unwind" fn c14_unknown_length() {
    // inputs from an iterator that does not know its length
    let (b, x) = grid(2, bound(2, 3));
    let want = vals(&b.project(&x[..]).unwrap());
    denotes(&b.project(drip(&x)).unwrap(), &want, "the input may come from any iterator");
    denotes(&b.project(&x).unwrap(), &want, "the input may come from any iterator");
    denotes(&b.project(x.iter().chain(None)).unwrap(), &want, "the input may come from any iterator");
}
#[no_mangle]
pub extern "C-unwind" fn c14_more_cells_than_fit() {
    // more cells than fit into 16, 32 or 40 bits
    let (d, n) = [(2, 300), (2, 70000), (4, 300), (4, 1024), (6, 100)][choose(5)];
    let b = UniformGrid::new(ProductSpace::new(vec![Equipartition::new(0.0, n as f64, n); d]));
    let x = reals_in(d, n as f64 - 1.75, n as f64 - 1.25);
    let m = (0..d).fold(1usize, |m, _| m * n);
    let f = b.project(&x[..]).unwrap();
    ck(f.n_features() == m, "one feature per cell");
    // every input lies in the last but one part of its dimension
    let want = (0..d).fold(0usize, |a, _| a * n + n - 2);
    holds(&f, m, &[(want, 1.0)], "the cell of the input is active");
    eq(b.ith(&x[..], want).unwrap(), 1.0, "the cell of the input is active");
    eq(b.ith(&x[..], want % (1 << 16)).unwrap(), if want < 1 << 16 { 1.0 } else { 0.0 }, "no other is");
    eq(b.ith(&x[..], want % (1 << 32)).unwrap(), if want < 1 << 32 { 1.0 } else { 0.0 }, "no other is");
}
