//! C15: tile coding maps inputs to features tile by tile
use crate::{common::*, sym::*, zoo::*};
use lfa::{basis::*, Features};

const MEM: usize = (1 << 44) - 17;

fn active(f: &Features) -> Vec<usize> {
    match f {
        Features::Sparse(s) => s.activations.keys().copied().collect(),
        Features::Dense(_) => {
            ck(false, "tile coding is sparse");
            vec![]
        }
    }
}

/// the tile of tiling t that contains x
fn tile_of(x: &[f64], t: usize, n: usize) -> Vec<isize> {
    x.iter()
        .enumerate()
        .map(|(i, &v)| (v + (t + 2 * i * t) as f64 / n as f64).floor() as isize)
        .collect()
}

fn check(d: usize, n: usize, lo: f64, hi: f64) {
    let b = TileCoding::new(SpyB(7), n, MEM);
    let (x, y) = (reals_in(d, lo, hi), reals_in(d, lo, hi));
    let (fx, fy) = (active(&b.project(&x[..]).unwrap()), active(&b.project(&y[..]).unwrap()));
    ck(fx.len() == n, "one feature per tiling");
    ck(fy.len() == n, "one feature per tiling");
    let shared = fx.iter().filter(|&i| fy.contains(i)).count();
    let same = (0..n).filter(|&t| tile_of(&x, t, n) == tile_of(&y, t, n)).count();
    ck(shared == same, "inputs share one feature for every tiling in which they share a tile");
}

#[no_mangle]
pub extern "C-unwind" fn c15_one() { check(1, pick(1, bound(3, 4)), -2.0, bound(1, 2) as f64) }
#[no_mangle]
pub extern "C-unwind" fn c15_four() { check(1, 4, -0.5, 1.25) }
#[no_mangle]
pub extern "C-unwind" fn c15_two() { check(2, 2, -0.5, bound(0, 1) as f64 + 0.5) }
#[no_mangle]
pub extern "C-unwind" fn c15_two_far() {
    // the same tile in the first dimension, arbitrary ones in the second
    let n = bound(3, 4);
    let b = TileCoding::new(SpyB(3), n, MEM);
    let a = pick(0, 2) as f64 - 1.0;
    let x = vec![a, real_in(-1.0, 1.0)];
    let y = vec![a, real_in(-1.0, 1.0)];
    let (fx, fy) = (active(&b.project(&x[..]).unwrap()), active(&b.project(&y[..]).unwrap()));
    ck(fx.len() == n && fy.len() == n, "one feature per tiling");
    let shared = fx.iter().filter(|&i| fy.contains(i)).count();
    let same = (0..n).filter(|&t| tile_of(&x, t, n) == tile_of(&y, t, n)).count();
    ck(shared == same, "inputs share one feature for every tiling in which they share a tile");
}
fn later_dimension(d: usize, n: usize) {
    // the inputs differ in the first dimension and in the last one
    let b = TileCoding::new(SpyB(3), n, MEM);
    let mid = [0.25, -0.3];
    let mk = || {
        let mut x = vec![[0.1, 0.7][choose(2)]];
        x.extend(&mid[..d - 2]);
        x.push(real_in(-0.25, 0.9));
        x
    };
    let (x, y) = (mk(), mk());
    let (fx, fy) = (active(&b.project(&x[..]).unwrap()), active(&b.project(&y[..]).unwrap()));
    ck(fx.len() == n && fy.len() == n, "one feature per tiling");
    let shared = fx.iter().filter(|&i| fy.contains(i)).count();
    let same = (0..n).filter(|&t| tile_of(&x, t, n) == tile_of(&y, t, n)).count();
    ck(shared == same, "inputs share one feature for every tiling in which they share a tile");
}
#[no_mangle]
pub extern "C-unwind" fn c15_third_dimension() { later_dimension(3, pick(3, 4)) }
#[no_mangle]
pub extern "C-unwind" fn c15_fourth_dimension() { later_dimension(4, pick(3, bound(3, 5))) }
#[no_mangle]
pub extern "C-unwind" fn c15_wrapped() {
    // tilings are unaffected by the number of tilings being a divisor of anything: large inputs
    let n = pick(1, 3);
    let b = TileCoding::new(SpyB(3), n, MEM);
    let o = [1e6, -1e6, 4294967296.0][choose(3)];
    let (p, q) = (real_in(-0.5, 0.5), real_in(-0.5, 0.5));
    let (x, y) = (vec![o + p], vec![o + q]);
    let (fx, fy) = (active(&b.project(&x[..]).unwrap()), active(&b.project(&y[..]).unwrap()));
    let shared = fx.iter().filter(|&i| fy.contains(i)).count();
    let same = (0..n).filter(|&t| tile_of(&x, t, n) == tile_of(&y, t, n)).count();
    ck(shared == same, "inputs share one feature for every tiling in which they share a tile");
}

/// two inputs that lie far apart never share a tile, however far
#[no_mangle]
pub extern "C-unwind" fn c15_apart() {
    let n = pick(1, bound(2, 4));
    let b = TileCoding::new(SpyB(3), n, MEM);
    let far = [16.0, 256.0, 65536.0, 2147483648.0, 4294967296.0, 281474976710656.0][choose(6)];
    let o = [0.0, -0.5 * far, -far][choose(3)];
    let (x, y) = (vec![o + real_in(-0.5, 0.5)], vec![o + far + real_in(-0.5, 0.5)]);
    let (fx, fy) = (active(&b.project(&x[..]).unwrap()), active(&b.project(&y[..]).unwrap()));
    ck(fx.len() == n && fy.len() == n, "one feature per tiling");
    ck(!fx.iter().any(|i| fy.contains(i)), "inputs in different tiles share no feature");
}

/// many tilings, or many dimensions: two inputs that differ in one dimension
fn big(d: usize, n: usize, vary: usize) {
    let b = TileCoding::new(SpyB(3), n, MEM);
    let mk = || {
        let mut x: Vec<f64> = (0..d).map(|i| 0.37 * i as f64 - 0.8).collect();
        x[vary] = if n < 50 { real_in(-0.125, 0.25) } else { real_in(-1.5 / n as f64, 1.25 / n as f64) };
        x
    };
    let (x, y) = (mk(), mk());
    let (fx, fy) = (active(&b.project(&x[..]).unwrap()), active(&b.project(&y[..]).unwrap()));
    ck(fx.len() == n && fy.len() == n, "one feature per tiling");
    let shared = fx.iter().filter(|&i| fy.contains(i)).count();
    let same = (0..n).filter(|&t| tile_of(&x, t, n) == tile_of(&y, t, n)).count();
    ck(shared == same, "inputs share one feature for every tiling in which they share a tile");
}
#[no_mangle]
pub extern "C-unwind" fn c15_many_tilings() { big(1, [5, 7, 8, 16, 17, 33, 65, 130, 260][choose(9)], 0) }
#[no_mangle]
pub extern "C-unwind" fn c15_many_dimensions() {
    let d = [5, 6, 8, 9, 17][choose(5)];
    big(d, pick(2, 3), [0, d / 2, d - 1][choose(3)])
}
#[no_mangle]
pub extern "C-unwind" fn c15_both() {
    let (d, n) = [(2, 8), (3, 8), (4, 9), (2, 17)][choose(4)];
    big(d, n, d - 1)
}

/// both inputs negative and far from each other: the dimensions are not mixed up
#[no_mangle]
pub extern "C-unwind" fn c15_swapped() {
    let n = pick(1, 2);
    let b = TileCoding::new(SpyB(3), n, MEM);
    let o = [(-1.5, -7.5), (2.25, 5.25), (-3.5, 4.25), (-300.5, -2.25)][choose(4)];
    let x = vec![o.0 + real_in(-0.4, 0.2), o.1];
    let y = if flip() { vec![o.1, o.0 + real_in(-0.4, 0.2)] } else { vec![o.0, o.1 + real_in(-0.4, 0.2)] };
    let (fx, fy) = (active(&b.project(&x[..]).unwrap()), active(&b.project(&y[..]).unwrap()));
    ck(fx.len() == n && fy.len() == n, "one feature per tiling");
    let shared = fx.iter().filter(|&i| fy.contains(i)).count();
    let same = (0..n).filter(|&t| tile_of(&x, t, n) == tile_of(&y, t, n)).count();
    ck(shared == same, "inputs share one feature for every tiling in which they share a tile");
}
/// whatever the hasher, collisions included: every feature of an input is one of the features
/// of the inputs that share its tiles, tiling by tiling
#[no_mangle]
pub extern "C-unwind" fn c15_any_hasher() {
    let (n, m) = [(2, 3), (2, 4), (3, 2)][choose(bound(2, 3))];
    let t = AnyB(std::cell::RefCell::new(Vec::new()), m);
    let b = TileCoding::new(AnyP(&t), n, m);
    let x = vec![real_in(0.26, 0.3)];
    let y = if n == 2 { vec![vec![0.8], vec![-0.3]] } else { vec![vec![0.9], vec![-0.2], vec![-0.5]] };
    for (t, y) in y.iter().enumerate() {
        ck(tile_of(&x, t, n) == tile_of(y, t, n), "the inputs share the tile");
    }
    let fx = active(&b.project(&x[..]).unwrap());
    let mut near = Vec::new();
    for y in &y {
        near.extend(active(&b.project(&y[..]).unwrap()));
    }
    ck(fx.iter().all(|i| near.contains(i)), "the feature of a tile does not depend on the other tilings");
}
#[no_mangle]
pub extern "C-unwind" fn c15_unknown_length() {
    // inputs from an iterator that does not know its length
    let (d, n) = [(1, 2), (1, 3), (2, 2), (3, 1)][choose(4)];
    let b = TileCoding::new(SpyB(7), n, MEM);
    let x = reals_in(d, -0.5, 1.25);
    let want = active(&b.project(&x[..]).unwrap());
    ck(want.len() == n, "one feature per tiling");
    for how in 0..3 {
        let f = match how {
            0 => b.project(drip(&x)),
            1 => b.project(&x),
            _ => b.project(x.iter().chain(None)),
        };
        let got = active(&f.unwrap());
        ck(got.len() == n && got.iter().all(|i| want.contains(i)), "the input may come from any iterator");
    }
}
