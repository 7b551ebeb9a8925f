#![allow(dead_code)]
use crate::sym::*;
use lfa::Features;
use ndarray::{s, Array1, Array2};

/// sparse features of the given dimension with every subset of active
/// indices, and the vector they stand for
pub fn sparse(dim: usize) -> (Features, Vec<f64>) {
    let mut v = vec![0.0; dim];
    let mut a = Vec::new();
    for i in 0..dim {
        if flip() {
            v[i] = real();
            a.push((i, v[i]));
        }
    }
    (Features::sparse(dim, a), v)
}

pub fn dense(dim: usize) -> (Features, Vec<f64>) {
    let v = reals(dim);
    (Features::dense(v.clone()), v)
}

pub fn features(dim: usize) -> (Features, Vec<f64>) {
    if flip() {
        sparse(dim)
    } else {
        dense(dim)
    }
}

/// the vector features stand for, read through the public representation
pub fn vals(f: &Features) -> Vec<f64> {
    match f {
        Features::Dense(a) => a.iter().copied().collect(),
        Features::Sparse(s) => {
            let mut v = vec![0.0; s.dim];
            for i in 0..s.dim {
                if let Some(x) = s.activations.get(&i) {
                    v[i] = *x;
                }
            }
            v
        }
    }
}

/// every active index lies inside the declared dimension
pub fn well_formed(f: &Features) -> bool {
    match f {
        Features::Dense(_) => true,
        Features::Sparse(s) => s.activations.keys().all(|&i| i < s.dim),
    }
}

/// `f` stands for exactly the vector `v`
pub fn denotes(f: &Features, v: &[f64], m: &str) {
    ck(f.n_features() == v.len(), m);
    ck(well_formed(f), m);
    eqs(&vals(f), v, m);
}

pub fn dot(a: &[f64], b: &[f64]) -> f64 { a.iter().zip(b).fold(0.0, |s, (x, y)| s + x * y) }

/// an owned array holding `v`, laid out contiguously, strided or reversed
pub fn laid_out(v: &[f64], how: usize) -> Array1<f64> {
    let n = v.len();
    match how {
        0 => Array1::from(v.to_vec()),
        1 => {
            let mut a = Array1::from_elem(2 * n, -77.0);
            for i in 0..n {
                a[2 * i] = v[i];
            }
            a.slice_move(s![..;2])
        }
        _ => {
            let mut a = Array1::from(v.iter().rev().copied().collect::<Vec<f64>>());
            a.invert_axis(ndarray::Axis(0));
            a
        }
    }
}

pub fn matrix(v: &[f64], rows: usize, cols: usize, fortran: bool) -> Array2<f64> {
    // v is row-major
    if fortran {
        let mut t = Vec::new();
        for c in 0..cols {
            for r in 0..rows {
                t.push(v[r * cols + c]);
            }
        }
        Array2::from_shape_vec((cols, rows), t).unwrap().reversed_axes()
    } else {
        Array2::from_shape_vec((rows, cols), v.to_vec()).unwrap()
    }
}

/// widths around the sizes at which implementations like to change gear
pub const WIDTHS: [usize; 15] = [5, 7, 8, 9, 12, 16, 17, 24, 31, 33, 64, 65, 100, 130, 257];
pub fn width() -> usize { WIDTHS[choose(bound(14, 15))] }

/// wide sparse features: all, every other, the first, the last or no activations
pub fn wide_sparse(n: usize) -> (Features, Vec<f64>) {
    let k = choose(5);
    let mut v = vec![0.0; n];
    let mut a = Vec::new();
    for i in 0..n {
        let on = match k {
            0 => true,
            1 => i % 2 == 1,
            2 => i == 0,
            3 => i + 3 >= n,
            _ => false,
        };
        if on {
            v[i] = lane(a.len());
            a.push((i, v[i]));
        }
    }
    (Features::sparse(n, a), v)
}
/// wide features of known size: three symbolic entries of modest size, the
/// rest constants, some of them not active
pub fn wide_known(n: usize) -> (Features, Vec<f64>) {
    let h = choose(3);
    let mut v = vec![0.0; n];
    for i in 0..n {
        v[i] = if i == 0 || i == n - 1 {
            real_in(1.0, 2.0)
        } else if i == n / 2 {
            real_in(-2.0, -1.0)
        } else if h == 1 && i % 2 == 0 {
            0.0
        } else {
            [1.0, -0.5, 1.5][i % 3]
        };
    }
    let f = if h == 0 { Features::Dense(laid_out(&v, n % 3)) } else { Features::sparse(n, v.iter().copied().enumerate().filter(|t| h == 2 || t.1 != 0.0).collect::<Vec<_>>()) };
    (f, v)
}
pub fn wide_features(n: usize) -> (Features, Vec<f64>) {
    if flip() {
        wide_sparse(n)
    } else {
        // the layout in memory depends on the width: contiguous, strided, reversed
        let v = reals(n);
        (Features::Dense(laid_out(&v, n % 3)), v)
    }
}

/// sparse features over an enormous dimension, and their activations
pub fn vast() -> (Features, usize, Vec<(usize, f64)>) {
    let d = [1 << 20, 1 << 33, (1 << 44) + 3, usize::MAX][choose(4)];
    let at = [0, 1, 255, 256, 65535, 65536, 1 << 17, d / 2, d - 2, d - 1];
    let k = choose(3);
    let a: Vec<(usize, f64)> = at
        .iter()
        .enumerate()
        .filter(|&(j, _)| match k {
            0 => true,
            1 => j % 2 == 0,
            _ => j % 3 == 1,
        })
        .enumerate()
        .map(|(j, (_, &i))| (i, lane(j)))
        .collect();
    (Features::sparse(d, a.clone()), d, a)
}
/// `f` has exactly these activations
pub fn holds(f: &Features, d: usize, a: &[(usize, f64)], m: &str) {
    ck(f.is_sparse(), m);
    ck(f.n_features() == d, m);
    ck(well_formed(f), m);
    if let Features::Sparse(s) = f {
        let mut n = 0;
        for (i, x) in a {
            eq(s.activations.get(i).copied().unwrap_or(0.0), *x, m);
            if s.activations.contains_key(i) {
                n += 1;
            }
        }
        ck(s.activations.len() == n, m);
    }
}

/// features of a thousand entries, some of them symbolic
pub fn huge() -> (Features, Vec<f64>) { huge_of([257, 513, 1025, 2100, 4200][choose(bound(4, 5))]) }
pub fn huge_of(n: usize) -> (Features, Vec<f64>) {
    let h = choose(3);
    let v: Vec<f64> = (0..n)
        .map(|i| {
            if h == 1 && i % 50 != 3 {
                0.0
            } else if i % 100 == 3 || i + 1 == n {
                lane(i / 100)
            } else {
                [1.0, -0.5, 1.5][i % 3]
            }
        })
        .collect();
    let on = |i: usize| h == 2 || i % 50 == 3;
    let f = if h == 0 { Features::Dense(laid_out(&v, (n / 2) % 3)) } else { Features::sparse(n, v.iter().copied().enumerate().filter(|t| on(t.0)).collect::<Vec<_>>()) };
    (f, v)
}

/// an arbitrary function of two arguments with f(0, 0) = 0: every new pair of arguments
/// gets a value of its own that can be anything
pub fn any_op() -> impl Fn(f64, f64) -> f64 {
    let seen = std::cell::RefCell::new(vec![(0.0, 0.0, 0.0)]);
    move |x, y| {
        for &(a, b, v) in seen.borrow().iter() {
            if (a == x) & (b == y) {
                return v;
            }
        }
        let v = real();
        seen.borrow_mut().push((x, y, v));
        v
    }
}
/// an arbitrary function with the given value at zero
pub fn any_fn(zero: f64) -> impl Fn(f64) -> f64 {
    let seen = std::cell::RefCell::new(vec![(0.0, zero)]);
    move |x| {
        for &(a, v) in seen.borrow().iter() {
            if a == x {
                return v;
            }
        }
        let v = real();
        seen.borrow_mut().push((x, v));
        v
    }
}

/// a matrix holding `v` (row-major), in one of five layouts in memory
pub fn any_matrix(v: &[f64], rows: usize, cols: usize, how: usize) -> Array2<f64> {
    let at = |r: usize, c: usize| v[r * cols + c];
    match how {
        0 => matrix(v, rows, cols, false),
        1 => matrix(v, rows, cols, true),
        2 => {
            let mut a = Array2::from_shape_fn((rows, cols), |(r, c)| at(rows - 1 - r, c));
            a.invert_axis(ndarray::Axis(0));
            a
        }
        3 => {
            let mut a = Array2::from_shape_fn((rows, cols), |(r, c)| at(r, cols - 1 - c));
            a.invert_axis(ndarray::Axis(1));
            a
        }
        _ => Array2::from_shape_fn((2 * rows, cols + 1), |(r, c)| if r % 2 == 0 && c < cols { at(r / 2, c) } else { -77.0 }).slice_move(s![..;2, ..cols]),
    }
}
