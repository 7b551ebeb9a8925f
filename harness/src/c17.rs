//! C17: kernels compute their published formulas
use crate::{common::*, sym::*, zoo::*};
use lfa::basis::kernels::*;

fn dist(x: &[f64], y: &[f64], l: &[f64]) -> f64 {
    let mut s = 0.0;
    for i in 0..x.len() {
        let z = (x[i] - y[i]) / l[if l.len() == 1 { 0 } else { i }];
        s = s + z * z;
    }
    s.sqrt()
}

fn sizes() -> (usize, Vec<f64>, f64) {
    let d = pick(1, bound(3, 4));
    let shared = d > 1 && flip();
    let l: Vec<f64> = (0..if shared { 1 } else { d }).map(|_| pos()).collect();
    (d, l, real())
}

fn check<K>(k: &K, d: usize, l: &[f64], v: f64, f: impl Fn(f64) -> f64)
where
    K: for<'a> Kernel<&'a [f64]> + for<'a> Kernel<&'a Vec<f64>> + Kernel<f64>,
{
    let (x, y) = (reals(d), reals(d));
    let r = dist(&x, &y, l);
    let g: f64 = k.kernel(&x[..], &y[..]);
    eq(g, f(r), "the kernel is its formula at the scaled distance");
    eq(k.kernel(&y[..], &x[..]), g, "the kernel is symmetric");
    eq(k.kernel(&x, &y), g, "vectors give what slices give");
    eq(k.kernel(&x[..], &x[..]), v, "the kernel of a point with itself is the variance");
    if d == 1 {
        eq(k.kernel(x[0], y[0]), g, "scalars give what slices give");
        eq(k.kernel(x[0], x[0]), v, "the kernel of a scalar with itself is the variance");
    }
}

#[no_mangle]
pub extern "C-unwind" fn c17_exponential() {
    let (d, l, v) = sizes();
    check(&Exponential::new(v, l.clone()), d, &l, v, |r| v * (-r).exp())
}
#[no_mangle]
pub extern "C-unwind" fn c17_matern32() {
    let (d, l, v) = sizes();
    let c = 3f64.sqrt();
    check(&Matern32::new(v, l.clone()), d, &l, v, |r| v * (1.0 + c * r) * (-(c * r)).exp())
}
#[no_mangle]
pub extern "C-unwind" fn c17_matern52() {
    let (d, l, v) = sizes();
    let c = 5f64.sqrt();
    check(&Matern52::new(v, l.clone()), d, &l, v, |r| v * (1.0 + c * r + 5.0 * (r * r) / 3.0) * (-(c * r)).exp())
}
#[no_mangle]
pub extern "C-unwind" fn c17_expquad() {
    let (d, l, v) = sizes();
    check(&ExpQuad::new(v, l.clone()), d, &l, v, |r| v * (-(r * r) / 2.0).exp())
}
#[no_mangle]
pub extern "C-unwind" fn c17_cosine() {
    let (d, l, v) = sizes();
    check(&Cosine::new(v, l.clone()), d, &l, v, |r| v * r.cos())
}
#[no_mangle]
pub extern "C-unwind" fn c17_rational() {
    let (d, l, v) = sizes();
    let p = real();
    check(&RationalQuadratic::new(v, l.clone(), p), d, &l, v, |r| v * (-p * (1.0 + r * r / 2.0).ln()).exp())
}
#[no_mangle]
pub extern "C-unwind" fn c17_isotropic() {
    // the non-ARD constructors share one lengthscale
    let d = pick(1, 3);
    let (l, v, p) = (pos(), real(), real());
    let ls = vec![l; d];
    let (x, y) = (reals(d), reals(d));
    match choose(6) {
        0 => {
            let (a, b) = (Exponential::non_ard(v, l), Exponential::new(v, ls));
            eq(a.kernel(&x[..], &y[..]), b.kernel(&x[..], &y[..]), "non_ard shares the lengthscale")
        }
        1 => {
            let (a, b) = (Matern32::non_ard(v, l), Matern32::new(v, ls));
            eq(a.kernel(&x[..], &y[..]), b.kernel(&x[..], &y[..]), "non_ard shares the lengthscale")
        }
        2 => {
            let (a, b) = (Matern52::non_ard(v, l), Matern52::new(v, ls));
            eq(a.kernel(&x[..], &y[..]), b.kernel(&x[..], &y[..]), "non_ard shares the lengthscale")
        }
        3 => {
            let (a, b) = (ExpQuad::non_ard(v, l), ExpQuad::new(v, ls));
            eq(a.kernel(&x[..], &y[..]), b.kernel(&x[..], &y[..]), "non_ard shares the lengthscale")
        }
        4 => {
            let (a, b) = (Cosine::non_ard(v, l), Cosine::new(v, ls));
            eq(a.kernel(&x[..], &y[..]), b.kernel(&x[..], &y[..]), "non_ard shares the lengthscale")
        }
        _ => {
            let (a, b) = (RationalQuadratic::non_ard(p, v, l), RationalQuadratic::new(v, ls, p));
            eq(a.kernel(&x[..], &y[..]), b.kernel(&x[..], &y[..]), "non_ard shares the lengthscale")
        }
    }
}
#[no_mangle]
pub extern "C-unwind" fn c17_defaults() {
    let (x, y) = (real(), real());
    let r = (x - y).abs();
    eq(Exponential::default().kernel(x, y), (-r).exp(), "default exponential");
    eq(ExpQuad::default().kernel(x, y), (-(r * r) / 2.0).exp(), "default squared exponential");
    eq(Cosine::default().kernel(x, y), r.cos(), "default cosine");
}

fn wide<K>(k: &K, d: usize, l: &[f64], v: f64, f: impl Fn(f64) -> f64)
where
    K: for<'a> Kernel<&'a [f64]> + for<'a> Kernel<&'a Vec<f64>> + Kernel<f64>,
{
    let (x, y) = (reals(d), reals(d));
    let g: f64 = k.kernel(&x[..], &y[..]);
    eq(g, f(dist(&x, &y, l)), "the kernel is its formula at the scaled distance");
    eq(k.kernel(&y[..], &x[..]), g, "the kernel is symmetric");
    eq(k.kernel(&x, &y), g, "vectors give what slices give");
    eq(k.kernel(&x[..], &x[..]), v, "the kernel of a point with itself is the variance");
}
#[no_mangle]
pub extern "C-unwind" fn c17_wide() {
    // many dimensions
    let d = [5, 8, 9, 16, 17, 33][choose(6)];
    let l: Vec<f64> = if flip() { vec![pos()] } else { (0..d).map(|i| [0.5, 1.0, 2.0, 4.0][i % 4]).collect() };
    let v = real();
    match choose(6) {
        0 => wide(&Exponential::new(v, l.clone()), d, &l, v, |r| v * (-r).exp()),
        1 => {
            let c = 3f64.sqrt();
            wide(&Matern32::new(v, l.clone()), d, &l, v, |r| v * (1.0 + c * r) * (-(c * r)).exp())
        }
        2 => {
            let c = 5f64.sqrt();
            wide(&Matern52::new(v, l.clone()), d, &l, v, |r| v * (1.0 + c * r + 5.0 * (r * r) / 3.0) * (-(c * r)).exp())
        }
        3 => wide(&ExpQuad::new(v, l.clone()), d, &l, v, |r| v * (-(r * r) / 2.0).exp()),
        4 => wide(&Cosine::new(v, l.clone()), d, &l, v, |r| v * r.cos()),
        _ => {
            let p = real();
            wide(&RationalQuadratic::new(v, l.clone(), p), d, &l, v, |r| v * (-p * (1.0 + r * r / 2.0).ln()).exp())
        }
    }
}
