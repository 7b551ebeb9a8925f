//! C38: a clone of an approximator, a basis or an optimiser is equal and has its own state
use crate::{common::*, opt::*, sym::*, zoo::*};
use lfa::{basis::*, optim::*, Features, Result, ScalarLFA, VectorLFA, LFA};
use spaces::Space;
use ndarray::Array1;

fn id(n: usize) -> Closure<impl Fn(&Features) -> Result<Features> + Clone> { Closure::new(n, |f: &Features| Ok(f.clone())) }

/// after any history: clone, then train the one and see that the other stays,
/// then train the other in the same way and see that it goes the same way
fn forks<O: Optimiser + Clone + PartialEq>(o: O, n: usize) {
    let mut l: ScalarLFA<_, _> = LFA::new(id(n), Array1::from(reals(n)), o);
    for _ in 0..choose(2) {
        let (f, _, e) = event(n);
        l.update(&f, e).unwrap();
    }
    let mut c = l.clone();
    let (w, o) = (l.weights.to_vec(), l.optimiser.clone());
    eqs(&c.weights.to_vec(), &w, "a clone has the same weights");
    ck(c.optimiser == l.optimiser, "a clone has the same optimiser");
    let (f, _, e) = event(n);
    let swap = flip();
    let (a, b) = if swap { (&mut l, &mut c) } else { (&mut c, &mut l) };
    if flip() {
        a.update(&f, e).unwrap();
        eqs(&b.weights.to_vec(), &w, "training the one leaves the weights of the other");
        ck(b.optimiser == o, "training the one leaves the optimiser of the other");
        b.update(&f, e).unwrap();
    } else {
        a.optimiser.reset();
        ck(b.optimiser == o, "resetting the one leaves the optimiser of the other");
        b.optimiser.reset();
    }
    eqs(&a.weights.to_vec(), &b.weights.to_vec(), "both go the same way");
    ck(a.optimiser == b.optimiser, "both go the same way");
}
#[no_mangle]
pub extern "C-unwind" fn c38_sgd() { forks(SGD(real()), pick(0, bound(1, 2))) }
#[no_mangle]
pub extern "C-unwind" fn c38_isgd() { forks(ISGD(pos()), 1) }
#[no_mangle]
pub extern "C-unwind" fn c38_momentum() { forks(SGDMomentum::new(1, real(), real()), 1) }
#[no_mangle]
pub extern "C-unwind" fn c38_nesterov() { forks(NAG::new(1, real(), real()), 1) }
#[no_mangle]
pub extern "C-unwind" fn c38_adagrad() { forks(Adagrad::new(1, real()), 1) }
#[no_mangle]
pub extern "C-unwind" fn c38_adam() { forks(Adam::new(1, real(), 0.5, 0.75), 1) }
#[no_mangle]
pub extern "C-unwind" fn c38_adamax() { forks(AdaMax::new(1, real(), 0.5, 0.75), 1) }
#[no_mangle]
pub extern "C-unwind" fn c38_vector() {
    let (n, k) = (pick(1, 2), pick(0, 2));
    let w = reals(n * k);
    let mut l: VectorLFA<_, _> = LFA::new(id(n), matrix(&w, n, k, flip()), SGDMomentum::new(n, real(), real()));
    let mut c = l.clone();
    ck(c.weights.dim() == (n, k), "a clone has the same shape");
    eqs(&c.weights.iter().copied().collect::<Vec<f64>>(), &w, "a clone has the same weights");
    let (f, _) = features(n);
    let e = reals(k);
    let o = l.optimiser.clone();
    let (a, b) = if flip() { (&mut l, &mut c) } else { (&mut c, &mut l) };
    a.update(&f, e.clone()).unwrap();
    eqs(&b.weights.iter().copied().collect::<Vec<f64>>(), &w, "training the one leaves the weights of the other");
    ck(b.optimiser == o, "training the one leaves the optimiser of the other");
    b.update(&f, e).unwrap();
    eqs(&a.weights.iter().copied().collect::<Vec<f64>>(), &b.weights.iter().copied().collect::<Vec<f64>>(), "both go the same way");
}
#[no_mangle]
pub extern "C-unwind" fn c38_bases() {
    // a clone projects every input as the original does
    macro_rules! go {
        ($b:expr, $x:expr) => {{
            let (b, x) = ($b, $x);
            let c = b.clone();
            ck(c.dim() == b.dim(), "a clone has the same dimension");
            let (f, g) = (b.project(&x[..]), c.project(&x[..]));
            match (f, g) {
                (Ok(f), Ok(g)) => {
                    ck(f.is_sparse() == g.is_sparse(), "a clone projects alike");
                    denotes(&g, &vals(&f), "a clone projects alike");
                }
                (f, g) => ck(f.is_err() && g.is_err(), "a clone projects alike"),
            }
        }};
    }
    match choose(9) {
        8 => {
            // every prototype with a kernel of its own
            let d = pick(1, 2);
            let n = pick(2, 3);
            let p = (0..n).map(|_| Prototype { centroid: reals(d), kernel: kernels::Exponential::new(real(), (0..d).map(|_| pos()).collect()) }).collect();
            let b = KernelBasis::new(p);
            ck(b == b.clone(), "a clone is equal");
            go!(b, reals(d))
        }
        0 => {
            let (b, x) = poly(2, 2);
            go!(b, x)
        }
        1 => {
            let (b, x) = cheb(1, 2);
            go!(b, x)
        }
        2 => {
            let (b, x) = four(2, 1);
            go!(b, x)
        }
        3 => {
            let (b, x) = kern(2, 2);
            go!(b.with_bias(), x)
        }
        4 => {
            let (b, x) = grid(2, 2);
            go!(b, x)
        }
        5 => {
            let (b, x) = tile(1, 2, 3);
            go!(b, x)
        }
        6 => {
            let (b, x) = poly(1, 2);
            go!(b.stack(fixed_dense(2)).with_bias(), x)
        }
        _ => {
            let (b, x) = grid(1, 2);
            go!(b.stack(fixed_sparse(2)), x)
        }
    }
}
#[no_mangle]
pub extern "C-unwind" fn c38_optimisers() {
    // of a wide optimiser with history
    macro_rules! go {
        ($o:expr, $n:expr) => {{
            let (mut o, n) = ($o, $n);
            let mut w = W::new(&reals(n), false);
            let (f, _) = wide_known(n);
            w.step(&mut o, &f, 1.5);
            let mut p = o.clone();
            ck(p == o, "a clone is equal");
            let mut v = W::new(&w.get(), false);
            let e = real();
            w.step(&mut o, &f, e);
            v.step(&mut p, &f, e);
            eqs(&v.get(), &w.get(), "a clone takes the same step");
        }};
    }
    let n = [5, 9, 17, 33][choose(4)];
    match choose(5) {
        0 => go!(SGDMomentum::new(n, 0.5, 0.25), n),
        1 => go!(NAG::new(n, 0.5, 0.25), n),
        2 => go!(Adagrad::new(n, 0.25), n),
        3 => go!(Adam::new(n, 0.25, 0.5, 0.75), n),
        _ => go!(AdaMax::new(n, 0.25, 0.5, 0.75), n),
    }
}
#[no_mangle]
pub extern "C-unwind" fn c38_any_parameters() {
    // the public parameters of a tile coding, whatever they are
    let (n, m) = (int(), int());
    let b = TileCoding::new(SpyB(3), n, m);
    let c = b.clone();
    ck(c.dim() == b.dim() && c.dim() == spaces::Dim::Finite(m), "a clone has the same dimension");
    ck(c == b, "a clone is equal");
    let k = Bias(real());
    eq(k.clone().0, k.0, "a clone has the same value");
}
#[no_mangle]
pub extern "C-unwind" fn c38_features() {
    // through every number of copies
    let n = width();
    let (f, v) = wide_features(n);
    let mut g = f.clone();
    for _ in 0..3 {
        g = g.clone();
    }
    denotes(&g, &v, "a clone of a clone stands for the same vector");
    let i = [0, n / 2, n - 1][choose(3)];
    g.remove(i);
    denotes(&f, &v, "changing a clone leaves the original");
    let mut h = Features::dense(vec![1.5; 3]);
    h.clone_from(&f);
    denotes(&h, &v, "clone_from copies as well");
}
