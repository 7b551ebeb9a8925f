//! C39: results depend on nothing but the arguments and the visible state
use crate::{common::*, opt::*, sym::*, zoo::*};
use lfa::{basis::kernels::*, basis::*, optim::*, Features, ScalarLFA, VectorLFA, LFA};
use ndarray::Array1;
use spaces::Space;

/// some other inputs
fn others(d: usize, k: usize) -> Vec<f64> { (0..d).map(|i| [0.3, -0.7, 1.9, -2.4, 0.05][(k + 2 * i) % 5] * (1 + k % 7) as f64).collect() }

/// project, do other things, project again
fn pure<B: Space<Value = Features> + for<'a> EnumerableBasis<&'a [f64]>>(b: &B, c: &B, x: &[f64], y: &[f64]) {
    let f = b.project(x).unwrap();
    let v = vals(&f);
    let d = x.len();
    for k in 0..bound(12, 40) {
        let o = if k == 5 { y.to_vec() } else { others(d, k) };
        let _ = b.project(&o[..]);
        let _ = c.project(&o[..]);
        if k % 4 == 1 {
            let _ = c.project(x);
            let _ = b.ith(&o[..], k);
        }
    }
    let g = b.project(x).unwrap();
    ck(f.is_sparse() == g.is_sparse(), "the same input gives the same kind of features");
    denotes(&g, &v, "the same input gives the same features");
    if !v.is_empty() {
        let i = choose(v.len().min(3));
        let i = if i == 2 { v.len() - 1 } else { i };
        eq(b.ith(x, i).unwrap(), v[i], "and the same single feature");
    }
}
#[no_mangle]
pub extern "C-unwind" fn c39_polynomial() {
    let (b, x) = poly(2, 2);
    let y = reals(x.len());
    pure(&b.clone(), &Polynomial::new(x.len(), 1), &x, &y)
}
#[no_mangle]
pub extern "C-unwind" fn c39_chebyshev() {
    let d = pick(1, 2);
    let b = Chebyshev::new(pick(1, 2) as u8, wide_limits(d));
    pure(&b, &Chebyshev::new(1, vec![(0.0, 8.0); d]), &reals(d), &reals(d))
}
#[no_mangle]
pub extern "C-unwind" fn c39_fourier() {
    let (b, x) = four(2, 2);
    let d = x.len();
    pure(&b, &Fourier::new(1, vec![(0.0, 8.0); d]), &x, &reals(d))
}
#[no_mangle]
pub extern "C-unwind" fn c39_kernel() {
    let (b, x) = kern(2, 2);
    let d = x.len();
    let c = KernelBasis::homogeneous(vec![vec![0.5; d]], ExpQuad::new(2.0, vec![1.0; d]));
    pure(&b, &c, &x, &reals(d))
}
#[no_mangle]
pub extern "C-unwind" fn c39_grid() {
    let d = pick(1, 2);
    let mk = |l: &[(f64, f64)], n| UniformGrid::new(spaces::ProductSpace::new(l.iter().map(|q| spaces::Equipartition::new(q.0, q.1, n)).collect::<Vec<_>>()));
    let y = others(d, 9);
    pure(&mk(&wide_limits(d), 3), &mk(&vec![(0.0, 8.0); d], 2), &reals(d), &y)
}
#[no_mangle]
pub extern "C-unwind" fn c39_tile() {
    let d = pick(1, 2);
    let n = pick(1, 2);
    let m = [5, 1024][choose(2)];
    let y = others(d, 9);
    let mut x = y.clone();
    x[0] = real_in(-0.3, 0.8);
    pure(&TileCoding::new(SpyB(7), n, m), &TileCoding::new(SpyB(8), 3, 17), &x, &y)
}
#[no_mangle]
pub extern "C-unwind" fn c39_combinators() {
    let (p, x) = poly(1, 2);
    let y = reals(1);
    let q = Polynomial::new(1, 1);
    match choose(5) {
        0 => pure(&p.clone().with_bias(), &q.with_bias(), &x, &y),
        1 => pure(&fixed_sparse(2).stack(p), &Fixed::sparse(1, vec![0]).stack(q), &x, &y),
        2 => pure(&Bias(real()), &Bias(3.0), &x, &y),
        3 => {
            assume(x[0] > 1e-3 && y[0] > 1e-3);
            pure(&p.clone().normalise_l1(), &q.normalise_l1(), &x, &y)
        }
        _ => {
            assume(x[0] > 1e-3 && y[0] > 1e-3);
            pure(&p.clone().normalise_linf(), &q.normalise_linf(), &x, &y)
        }
    }
}
#[no_mangle]
pub extern "C-unwind" fn c39_kernels() {
    // the same arguments, then others, then the same again
    let (x, y) = (real(), real());
    macro_rules! go {
        ($k:expr, $l:expr) => {{
            let (k, l) = ($k, $l);
            let v = k.kernel(x, y);
            for i in 0..10 {
                let o = others(2, i);
                let _ = k.kernel(o[0], o[1]);
                let _ = l.kernel(x, o[1]);
            }
            let _ = l.kernel(x, y);
            eq(k.kernel(x, y), v, "the same arguments give the same value");
        }};
    }
    match choose(5) {
        0 => go!(ExpQuad::new(real(), vec![2.0]), ExpQuad::default()),
        1 => go!(Exponential::new(real(), vec![2.0]), Exponential::default()),
        2 => go!(Matern32::new(real(), vec![2.0]), Matern32::default()),
        3 => go!(Matern52::new(real(), vec![2.0]), Matern52::default()),
        _ => go!(Cosine::new(real(), vec![2.0]), Cosine::default()),
    }
}

/// two optimisers of the same kind: what the one does never shows in the other
fn apart<O: Optimiser>(mk: impl Fn() -> O, other: O, n: usize) {
    let (w, z) = (reals(n), reals(n));
    let (f, _, e) = event(n);
    let (g, _, h) = event(n);
    let m = bound(2, 3);
    // alone
    let mut a = W::new(&w, false);
    let mut o = mk();
    for i in 0..m {
        a.step(&mut o, if i == 1 { &g } else { &f }, if i == 1 { h } else { e });
    }
    // with another one at work in between
    let mut b = W::new(&w, false);
    let mut c = W::new(&z, false);
    let mut p = mk();
    let mut q = other;
    for _ in 0..6 {
        c.step(&mut q, &Features::dense(vec![0.5; n]), 0.25);
    }
    for i in 0..m {
        c.step(&mut q, &Features::dense(vec![1.0; n]), 1.5);
        b.step(&mut p, if i == 1 { &g } else { &f }, if i == 1 { h } else { e });
    }
    eqs(&b.get(), &a.get(), "another optimiser at work changes nothing");
}
#[no_mangle]
pub extern "C-unwind" fn c39_sgd() {
    let r = real();
    apart(|| SGD(r), SGD(0.5), pick(1, 2))
}
#[no_mangle]
pub extern "C-unwind" fn c39_isgd() {
    let r = pos();
    apart(|| ISGD(r), ISGD(0.5), 1)
}
#[no_mangle]
pub extern "C-unwind" fn c39_momentum() {
    let (n, r, m) = (pick(1, 2), real(), real());
    apart(|| SGDMomentum::new(n, r, m), SGDMomentum::new(n, 0.5, 0.5), n)
}
#[no_mangle]
pub extern "C-unwind" fn c39_nesterov() {
    let (n, r, m) = (pick(1, 2), real(), real());
    apart(|| NAG::new(n, r, m), NAG::new(n, 0.5, 0.5), n)
}
#[no_mangle]
pub extern "C-unwind" fn c39_adagrad() {
    let (n, r) = (pick(1, 2), real());
    apart(|| Adagrad::new(n, r), Adagrad::new(n, 0.5), n)
}
#[no_mangle]
pub extern "C-unwind" fn c39_adam() {
    let r = real();
    apart(|| Adam::new(1, r, 0.5, 0.75), Adam::new(1, 0.5, 0.25, 0.5), 1)
}
#[no_mangle]
pub extern "C-unwind" fn c39_adamax() {
    let r = real();
    apart(|| AdaMax::new(1, r, 0.5, 0.75), AdaMax::new(1, 0.5, 0.25, 0.5), 1)
}

#[no_mangle]
pub extern "C-unwind" fn c39_evaluate() {
    // evaluating changes nothing, however often
    let n = pick(1, 2);
    let b = || Closure::new(n, |f: &Features| Ok(f.clone()));
    let (f, v) = features(n);
    let (g, _) = features(n);
    if flip() {
        let w = reals(n);
        let mut l: ScalarLFA<_, _> = LFA::new(b(), Array1::from(w.clone()), SGD(1.0));
        let mut m = LFA::scalar(b(), SGD(1.0));
        eq(l.evaluate(&f).unwrap(), dot(&v, &w), "a prediction is the dot product");
        for k in 0..10 {
            let _ = l.evaluate(&g);
            m.update(&f, 0.5 * k as f64).unwrap();
            let _ = m.evaluate(&f);
            let _ = m.update_with(&g, |_, v| 0.25 - v);
        }
        eq(l.evaluate(&f).unwrap(), dot(&v, &w), "the same input gives the same prediction");
        eqs(&l.weights.to_vec(), &w, "evaluating leaves the weights");
        let e = real();
        l.update(&f, e).unwrap();
        let u: Vec<f64> = (0..n).map(|i| w[i] + e * v[i]).collect();
        eqs(&l.weights.to_vec(), &u, "an update only depends on its arguments");
    } else {
        let k = pick(1, 2);
        let w = reals(n * k);
        let col = |j: usize| (0..n).map(|i| w[i * k + j]).collect::<Vec<f64>>();
        let l: VectorLFA<_, _> = LFA::new(b(), matrix(&w, n, k, false), SGD(1.0));
        let mut m = LFA::vector(b(), SGD(1.0), 3);
        let want: Vec<f64> = (0..k).map(|j| dot(&v, &col(j))).collect();
        eqs(&l.evaluate(&f).unwrap().to_vec(), &want, "a prediction is the matrix product");
        for i in 0..10 {
            let _ = l.evaluate(&g);
            let _ = l.evaluate_index(&g, 0);
            m.update(&f, vec![0.5, i as f64, 1.0]).unwrap();
            let _ = m.evaluate(&f);
        }
        eqs(&l.evaluate(&f).unwrap().to_vec(), &want, "the same input gives the same prediction");
        eq(l.evaluate_index(&f, k - 1).unwrap(), want[k - 1], "and the same single prediction");
        eqs(&l.weights.iter().copied().collect::<Vec<f64>>(), &w, "evaluating leaves the weights");
    }
}
#[no_mangle]
pub extern "C-unwind" fn c39_features() {
    // operations on features, repeated with others in between
    let n = pick(1, 2);
    let (f, v) = features(n);
    let (g, u) = features(n);
    let w = Array1::from(reals(n));
    let a = f.dot(&w.view());
    let s = f.clone().stack(g.clone());
    for k in 0..8 {
        let h = Features::dense(others(n, k));
        let _ = h.dot(&w.view());
        let _ = Features::sparse(n, vec![(0, k as f64)]).stack(h.clone());
        let _ = h.map(|x| x + 1.0);
        let _ = h.merge(&f, |x, y| x + y);
    }
    eq(f.dot(&w.view()), a, "the same dot product");
    let t: Vec<f64> = v.iter().chain(u.iter()).copied().collect();
    denotes(&s, &t, "the stack concatenates");
    denotes(&f.clone().stack(g.clone()), &t, "the same stack");
    denotes(&f, &v, "operations leave their operands");
    denotes(&g, &u, "operations leave their operands");
}

// what an earlier use leaves behind must not show in the answer, which is known
fn earlier<B: Space<Value = Features> + for<'a> EnumerableBasis<&'a [f64]>>(b: &B, c: &B, x: &[f64]) {
    let d = x.len();
    match choose(6) {
        0 => {}
        1 => drop(b.project(&vec![1e6; d][..])),
        2 => drop(b.project(&vec![-1e6; d][..])),
        3 => drop(c.project(x)),
        4 => {
            for i in 0..3 {
                let _ = c.ith(x, i);
                let _ = c.project(&vec![0.0; d][..]);
            }
        }
        _ => {
            let _ = b.ith(&others(d, 3)[..], 0);
            let _ = c.project(&vec![1e-9; d][..]);
        }
    }
}
fn known<B: Space<Value = Features> + for<'a> EnumerableBasis<&'a [f64]>>(b: &B, c: &B, x: &[f64], want: &[f64]) {
    earlier(b, c, x);
    if flip() && !want.is_empty() {
        let i = [0, want.len() - 1][choose(if want.len() > 1 { 2 } else { 1 })];
        eq(b.ith(x, i).unwrap(), want[i], "a single feature whatever was asked before");
    }
    denotes(&b.project(x).unwrap(), want, "the projection whatever was asked before");
}
#[no_mangle]
pub extern "C-unwind" fn c39_known_fourier() {
    let (d, k) = [(1, 1), (1, 3), (2, 1)][choose(3)];
    let l = wide_limits(d);
    let x = reals(d);
    let s: Vec<f64> = x.iter().zip(&l).map(|(&v, &(a, b))| (v - a) / (b - a)).collect();
    let want: Vec<f64> = tuples(d, k).iter().map(|q| (std::f64::consts::PI * q.iter().zip(&s).fold(0.0, |a, (&c, &v)| a + c as f64 * v)).cos()).collect();
    let c = [Fourier::new(1, vec![(0.0, 8.0); d]), Fourier::new(k as u8, vec![(-3.0, 1.0); d]), Fourier::new(2, l.clone())];
    known(&Fourier::new(k as u8, l), &c[choose(3)], &x, &want)
}
#[no_mangle]
pub extern "C-unwind" fn c39_known_polynomial() {
    let (d, k) = [(1, 1), (1, 3), (2, 2)][choose(3)];
    let x = reals(d);
    let want: Vec<f64> = tuples(d, k).iter().map(|q| q.iter().zip(&x).fold(1.0, |a, (&c, &v)| (0..c).fold(a, |a, _| a * v))).collect();
    let c = [Polynomial::new(d, 1), Polynomial::new(d, 4), Polynomial::new(d, k as u8).with_zeroth()];
    known(&Polynomial::new(d, k as u8), &c[choose(3)], &x, &want)
}
#[no_mangle]
pub extern "C-unwind" fn c39_known_chebyshev() {
    let (d, k) = [(1, 1), (1, 3), (2, 2)][choose(3)];
    let l = wide_limits(d);
    let x = reals(d);
    let s: Vec<f64> = x.iter().zip(&l).map(|(&v, &(a, b))| 2.0 * ((v - a) / (b - a)) - 1.0).collect();
    let t = |c: usize, z: f64| [1.0, z, 2.0 * z * z - 1.0, 4.0 * z * z * z - 3.0 * z][c];
    let want: Vec<f64> = tuples(d, k).iter().map(|q| q.iter().zip(&s).fold(1.0, |a, (&c, &v)| a * t(c, v))).collect();
    let c = [Chebyshev::new(1, vec![(0.0, 8.0); d]), Chebyshev::new(k as u8, vec![(-3.0, 1.0); d]), Chebyshev::new(2, l.clone()).with_zeroth()];
    known(&Chebyshev::new(k as u8, l), &c[choose(3)], &x, &want)
}
#[no_mangle]
pub extern "C-unwind" fn c39_known_grid() {
    // the same coordinates in grids with other limits or other cells
    let d = pick(1, 3);
    let l = wide_limits(d);
    let n: Vec<usize> = (0..d).map(|i| [3, 2, 4][(i + d) % 3]).collect();
    let mk = |l: &[(f64, f64)], n: &[usize]| UniformGrid::new(spaces::ProductSpace::new(l.iter().zip(n).map(|(q, &n)| spaces::Equipartition::new(q.0, q.1, n)).collect::<Vec<_>>()));
    let b = mk(&l, &n);
    let c = match choose(4) {
        0 => mk(&vec![(-9.0, 9.0); d], &n),
        1 => mk(&l, &vec![5; d]),
        2 => mk(&l, &vec![1; d]),
        _ => mk(&vec![(-1.0, 0.5); d], &vec![4; d]),
    };
    // well inside a cell, all coordinates the same share of their range or not
    let h = choose(3);
    let mut at = 0;
    let x: Vec<f64> = (0..d)
        .map(|i| {
            let w = (l[i].1 - l[i].0) / n[i] as f64;
            let k = match h {
                0 => 0,
                1 => n[i] - 1,
                _ => i % n[i],
            };
            at = at * n[i] + k;
            l[i].0 + w * (k as f64 + real_in(0.25, 0.75))
        })
        .collect();
    let want: Vec<f64> = (0..n.iter().product()).map(|i| if i == at { 1.0 } else { 0.0 }).collect();
    known(&b, &c, &x, &want)
}
#[no_mangle]
pub extern "C-unwind" fn c39_known_grid_value() {
    // one number in several coordinates and several grids
    let x = real_in(0.31, 0.38);
    let mk = |l: &[(f64, f64, usize)]| UniformGrid::new(spaces::ProductSpace::new(l.iter().map(|q| spaces::Equipartition::new(q.0, q.1, q.2)).collect::<Vec<_>>()));
    let one = [(0.0, 1.0, 4), (-1.0, 1.0, 4), (0.0, 0.5, 5), (-8.0, 8.0, 1), (-0.7, 0.5, 3), (2.0, 3.0, 2)];
    let cell = [1, 2, 3, 0, 2, 0];
    let (i, j) = (choose(6), choose(6));
    let (p, q) = (choose(6), choose(2));
    let b = mk(&[one[i], one[j]]);
    let c = mk(&[one[p], one[[j, i][q]]]);
    let at = cell[i] * one[j].2 + cell[j];
    let want: Vec<f64> = (0..one[i].2 * one[j].2).map(|k| if k == at { 1.0 } else { 0.0 }).collect();
    known(&b, &c, &[x, x], &want)
}
#[no_mangle]
pub extern "C-unwind" fn c39_known_normaliser() {
    // features of one length and several numbers of active entries, one after the other
    let n = pick(1, bound(3, 4));
    let k = choose(2);
    let mk = |z: usize, c: f64| -> (Features, Vec<f64>) {
        let v: Vec<f64> = (0..n).map(|i| if z >> i & 1 == 1 { c * [1.5, -2.0, 0.25, 3.0][i] } else { 0.0 }).collect();
        let f = if k == 0 { Features::sparse(n, v.iter().copied().enumerate().filter(|t| t.1 != 0.0).collect::<Vec<_>>()) } else { Features::dense(v.clone()) };
        (f, v)
    };
    let c = real_in(1.0, 2.0);
    let m = (1 << n) - 1;
    let (z, q) = (1 + choose(m), 1 + choose(m));
    let (g, _) = mk(q, 1.0);
    let (f, v) = mk(z, c);
    let b = || Closure::new(n, |f: &Features| Ok(f.clone()));
    let norm = |p: usize, v: &[f64]| match p {
        0 => v.iter().filter(|x| **x != 0.0).count() as f64,
        1 => v.iter().fold(0.0, |a, x| a + x.abs()),
        _ => [1.5, 2.0, 0.25, 3.0].iter().enumerate().filter(|(i, _)| z >> i & 1 == 1).fold(0.0, |a, (_, &x)| if x > a { x } else { a }) * c,
    };
    macro_rules! go {
        ($b:expr, $p:expr) => {{
            let b = $b;
            for _ in 0..2 {
                let _ = b.project(&g);
            }
            let r = norm($p, &v);
            let w = vals(&b.project(&f).unwrap());
            ck(w.len() == n, "one entry for each");
            for i in 0..n {
                eq(w[i] * r, v[i], "the norm is that of the features at hand");
            }
        }};
    }
    match choose(3) {
        0 => go!(b().normalise_l0(), 0),
        1 => go!(b().normalise_l1(), 1),
        _ => go!(b().normalise_linf(), 2),
    }
}
#[no_mangle]
pub extern "C-unwind" fn c39_known_kernels() {
    // kernels that only differ in their variance, and others in between
    let pairs = [(0.5, 2.0), (0.0, 0.0), (-3.0, 1.0), (2.0, 0.5)];
    let (x, y) = pairs[choose(4)];
    let (v, u) = (real_in(1.0, 2.0), real_in(3.0, 4.0));
    macro_rules! go {
        ($mk:expr) => {{
            let mk = $mk;
            let (a, b, c) = (mk(v, 2.0), mk(u, 2.0), mk(v, 4.0));
            let p: f64 = match choose(3) {
                0 => b.kernel(x, y),
                1 => b.kernel(&[x][..], &[y][..]),
                _ => {
                    let _ = c.kernel(x, y);
                    let _ = c.kernel(&[x][..], &[y][..]);
                    b.kernel(&[x, x][..], &[y, x][..])
                }
            };
            let q: f64 = match choose(3) {
                0 => a.kernel(x, y),
                1 => a.kernel(&[x][..], &[y][..]),
                _ => a.kernel(y, x),
            };
            eq(q * u, p * v, "a kernel is its own variance times the same");
            // a shared length scale is a scaled distance
            eq(c.kernel(2.0 * x, 2.0 * y), q, "the same scaled distance gives the same value");
        }};
    }
    match choose(6) {
        0 => go!(|v, l| ExpQuad::new(v, vec![l])),
        1 => go!(|v, l| Exponential::new(v, vec![l])),
        2 => go!(|v, l| Matern32::new(v, vec![l])),
        3 => go!(|v, l| Matern52::new(v, vec![l])),
        4 => go!(|v, l| Cosine::new(v, vec![l])),
        _ => go!(|v, l| RationalQuadratic::new(v, vec![l], 1.5)),
    }
}

/// projections that fail, of every combinator, over and over; then some that do not
#[no_mangle]
pub extern "C-unwind" fn c39_known_after_failures() {
    let bad = || Closure::new(2, |_: &[f64]| -> lfa::Result<Features> { Err(lfa::Error::index_error(0, 0)) });
    let x = reals(1);
    let kind = choose(7);
    for k in 0..bound(40, 300) {
        let r = match kind {
            0 => bad().project(&x[..]),
            1 => bad().stack(Bias(1.0)).project(&x[..]),
            2 => Bias(1.0).stack(bad()).project(&x[..]),
            3 => bad().stack(Bias(1.0)).with_bias().stack(bad()).project(&x[..]),
            4 => bad().normalise_l0().stack(bad().normalise_l1()).project(&x[..]),
            5 => bad().normalise_l2().stack(bad().normalise_linf()).project(&x[..]),
            _ => {
                let mut l: ScalarLFA<_, _> = LFA::scalar(Bias(1.0).stack(bad()), SGD(1.0));
                let _ = l.update_with(&x[..], |_, _| 1.0);
                let _ = l.evaluate(&x[..]);
                l.update(&x[..], 1.0).map(|_| Features::dense(vec![]))
            }
        };
        ck(r.is_err(), "the projection fails");
        let _ = Polynomial::new(1, 2).ith(&x[..], 2 + k);
    }
    let id = |x: &[f64]| -> lfa::Result<Features> { Ok(Features::dense(x.to_vec())) };
    let b = Closure::new(1, id).stack(Bias(2.0)).with_bias();
    denotes(&b.project(&x[..]).unwrap(), &[x[0], 2.0, 1.0], "earlier failures change nothing");
    let l: ScalarLFA<_, _> = LFA::new(b, Array1::from(vec![3.0, 5.0, 7.0]), SGD(1.0));
    eq(l.evaluate(&x[..]).unwrap(), 3.0 * x[0] + 17.0, "earlier failures change no prediction");
}
/// operations on features of another size first
#[no_mangle]
pub extern "C-unwind" fn c39_known_features() {
    let n = pick(1, 3);
    let (f, v) = features(n);
    let (g, w) = features(n);
    for &m in &[5, 1, 9, 2] {
        let d = Features::dense((0..m).map(|i| i as f64 + 1.0));
        let s = Features::sparse(m, (0..m).filter(|i| i % 2 == 0).map(|i| (i, 3.0)));
        for (a, b) in [(&d, &s), (&s, &d), (&d, &d), (&s, &s)] {
            let _ = a.merge(b, |x, y| 2.0 * x + y);
            let _ = a.clone().merge_into(b, |x, y| x + y);
            let _ = a.map(|x| x + 1.0);
            let _ = a.clone().map_into(|x| 3.0 * x);
            let _ = a.clone().stack(b.clone()).to_dense();
            let _ = (a.fold(0.0, |x, y| x + y), a.sum(), ndarray::linalg::Dot::<Features>::dot(a, b), a.n_active());
            let mut z = Array1::from_elem(m, 1.0);
            a.scaled_addto(2.0, &mut z);
        }
    }
    let add: Vec<f64> = v.iter().zip(&w).map(|(x, y)| x + 2.0 * y).collect();
    match choose(6) {
        0 => denotes(&f.merge(&g, |x, y| x + 2.0 * y), &add, "merge"),
        1 => denotes(&f.merge_into(&g, |x, y| x + 2.0 * y), &add, "merge_into"),
        2 => denotes(&f.map(|x| 2.0 * x), &v.iter().map(|x| 2.0 * x).collect::<Vec<_>>(), "map"),
        3 => denotes(&f.map_into(|x| x + 1.0), &v.iter().map(|x| x + 1.0).collect::<Vec<_>>(), "map_into"),
        4 => denotes(&f.stack(g), &v.iter().chain(&w).copied().collect::<Vec<_>>(), "stack"),
        _ => {
            eq(ndarray::linalg::Dot::<Features>::dot(&f, &g), v.iter().zip(&w).fold(0.0, |a, (x, y)| a + x * y), "dot");
            eq(f.sum(), v.iter().fold(0.0, |a, x| a + x), "sum");
            eqs(&f.to_dense().to_vec(), &v, "to_dense");
            let mut z = Array1::from(w.clone());
            f.scaled_addto(2.0, &mut z);
            let want: Vec<f64> = v.iter().zip(&w).map(|(x, y)| y + 2.0 * x).collect();
            eqs(&z.to_vec(), &want, "scaled_addto");
        }
    }
}
/// bases of as many features, but not of the same shape, in turn
#[no_mangle]
pub extern "C-unwind" fn c39_same_size() {
    let mut shapes = vec![(1, 3), (2, 1)];
    if flip() {
        shapes = vec![(1, 8), (2, 2)];
    }
    if flip() {
        shapes.reverse();
    }
    let kind = choose(3);
    for &(d, k) in &shapes {
        let x = reals(d);
        let want = tuples(d, k);
        let n = want.len();
        match kind {
            0 => {
                let p = Polynomial::new(d, k as u8);
                ck(p.dim() == spaces::Dim::Finite(n), "the dimension is that of the shape");
                let v = vals(&p.project(&x[..]).unwrap());
                ck(v.len() == n, "the dimension is that of the shape");
                for (t, g) in want.iter().zip(&v) {
                    let mut m = 1.0;
                    for (&e, &y) in t.iter().zip(&x) {
                        for _ in 0..e {
                            m = m * y;
                        }
                    }
                    eq(*g, m, "the monomials of this shape");
                }
            }
            1 => {
                let p = Chebyshev::new(k as u8, vec![(-1.0, 1.0); d]);
                let v = vals(&p.project(&x[..]).unwrap());
                ck(p.dim() == spaces::Dim::Finite(n) && v.len() == n, "the dimension is that of the shape");
                for (t, g) in want.iter().zip(&v) {
                    let mut m = 1.0;
                    for (&e, &y) in t.iter().zip(&x) {
                        let (mut a, mut b) = (1.0, y);
                        for _ in 0..e {
                            let c = 2.0 * y * b - a;
                            a = b;
                            b = c;
                        }
                        m = m * a;
                    }
                    eq(*g, m, "the products of this shape");
                }
            }
            _ => {
                let p = Fourier::new(k as u8, vec![(0.0, 1.0); d]);
                let v = vals(&p.project(&x[..]).unwrap());
                ck(p.dim() == spaces::Dim::Finite(n) && v.len() == n, "the dimension is that of the shape");
                for (t, g) in want.iter().zip(&v) {
                    let a = t.iter().zip(&x).fold(0.0, |a, (&c, &y)| a + c as f64 * y);
                    eq(*g, (std::f64::consts::PI * a).cos(), "the cosines of this shape");
                }
            }
        }
    }
}
/// long, short and long features again
#[no_mangle]
pub extern "C-unwind" fn c39_long_short_long() {
    let r = reals(4);
    let mk = |n: usize, is: &[usize]| {
        let mut v = vec![0.0; n];
        let mut a = vec![];
        for (k, &i) in is.iter().enumerate() {
            v[i] = r[k];
            a.push((i, r[k]));
        }
        (Features::sparse(n, a), v)
    };
    let runs = [mk(5, &[4, 2]), mk(2, &[0]), mk(5, &[1]), mk(1, &[]), mk(9, &[8, 3, 0]), mk(3, &[2]), mk(9, &[1])];
    let kind = choose(7);
    for (f, v) in &runs {
        let n = v.len();
        match kind {
            0 => eqs(&f.to_dense().to_vec(), v, "to_dense"),
            1 => eqs(&f.clone().into_dense().to_vec(), v, "into_dense"),
            2 => {
                let ones = Features::dense(vec![1.0; n]);
                denotes(&f.merge(&ones, |x, y| x + 2.0 * y), &v.iter().map(|x| x + 2.0).collect::<Vec<_>>(), "merge");
                denotes(&ones.merge(f, |x, y| x + 2.0 * y), &v.iter().map(|x| 1.0 + 2.0 * x).collect::<Vec<_>>(), "merge");
            }
            3 => {
                let ones = Features::dense(vec![1.0; n]);
                let want: Vec<f64> = v.iter().copied().chain(vec![1.0; n]).collect();
                denotes(&f.clone().stack(ones), &want, "stack");
            }
            4 => {
                let w = Array1::from((0..n).map(|i| i as f64 + 1.0).collect::<Vec<_>>());
                let want = v.iter().zip(w.iter()).fold(0.0, |a, (x, y)| a + x * y);
                eq(Features::dot(f, &w.view()), want, "dot");
                eq(f.sum(), v.iter().fold(0.0, |a, x| a + x), "sum");
            }
            5 => {
                let mut z = Array1::from_elem(n, 1.0);
                f.scaled_addto(2.0, &mut z);
                eqs(&z.to_vec(), &v.iter().map(|x| 1.0 + 2.0 * x).collect::<Vec<_>>(), "scaled_addto");
                let mut z = Array1::from_elem(n, 1.0);
                f.addto(&mut z);
                eqs(&z.to_vec(), &v.iter().map(|x| 1.0 + x).collect::<Vec<_>>(), "addto");
            }
            _ => denotes(&f.map(|x| 3.0 * x), &v.iter().map(|x| 3.0 * x).collect::<Vec<_>>(), "map"),
        }
    }
}
