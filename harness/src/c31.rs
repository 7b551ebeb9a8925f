//! C31: serialising and deserialising gives back an equal value
use crate::{common::*, opt::*, ser::*, sym::*, zoo::*};
use lfa::{basis::kernels::*, basis::*, optim::*, Error, ErrorKind, Features, SparseActivations, LFA};
use ndarray::{Array1, Array2};
use serde::{de::DeserializeOwned, Serialize};

/// a round trip through one of the two formats
fn trip<T: Serialize + DeserializeOwned>(t: &T) -> T {
    let r = from::<T>(to(t), flip());
    ck(r.is_ok(), "what was serialised can be read back");
    r.ok().unwrap()
}
fn same<T: Serialize + DeserializeOwned + PartialEq>(t: &T) -> T {
    let u = trip(t);
    ck(u == *t, "the value comes back equal");
    u
}

#[no_mangle]
pub extern "C-unwind" fn c31_features() {
    let n = pick(0, bound(3, 4));
    let (f, v) = features(n);
    let g = same(&f);
    ck(g.is_dense() == f.is_dense(), "the representation is kept");
    denotes(&g, &v, "the features stand for the same vector");
    if let Features::Sparse(s) = &f {
        let t: SparseActivations = trip(s);
        ck(t.dim == s.dim && t.activations == s.activations, "the value comes back equal");
    }
}

#[no_mangle]
pub extern "C-unwind" fn c31_polynomial() {
    let (b, x) = poly(2, 2);
    let c = same(&b);
    eqs(&vals(&c.project(&x[..]).unwrap()), &vals(&b.project(&x[..]).unwrap()), "it projects as before");
}

#[no_mangle]
pub extern "C-unwind" fn c31_fourier() {
    let (b, x) = four(2, 2);
    let c = same(&b);
    eqs(&vals(&c.project(&x[..]).unwrap()), &vals(&b.project(&x[..]).unwrap()), "it projects as before");
}

#[no_mangle]
pub extern "C-unwind" fn c31_chebyshev() {
    let d = pick(1, 2);
    let b = Chebyshev::new(pick(1, bound(2, 3)) as u8, limits(d));
    let x = reals(d);
    let c = same(&b);
    ck(c.order == b.order && c.limits == b.limits, "the value comes back equal");
    eqs(&vals(&c.project(&x[..]).unwrap()), &vals(&b.project(&x[..]).unwrap()), "it projects as before");
}

/// known finding: the zeroth term is not part of the serialised form
#[no_mangle]
pub extern "C-unwind" fn c31_chebyshev_zeroth() {
    let b = Chebyshev::new(1, vec![(-1.0, 1.0)]).with_zeroth();
    let x = [real_in(-1.0, 1.0)];
    let c = trip(&b);
    eqs(&vals(&c.project(&x[..]).unwrap())[..1], &vals(&b.project(&x[..]).unwrap())[..1], "the other features survive");
    ck(spaces::Space::dim(&c) == spaces::Space::dim(&b), "the zeroth term survives");
}

#[no_mangle]
pub extern "C-unwind" fn c31_kernels() {
    let n = pick(1, 2);
    let ls: Vec<f64> = (0..n).map(|_| pos()).collect();
    let (v, p) = (real(), pos());
    macro_rules! go {
        ($k:expr) => {{
            let k = $k;
            same(&k);
            let b = KernelBasis::homogeneous(vec![reals(n), reals(n)], k);
            let c = same(&b);
            if thorough() {
                let x = reals(n);
                eqs(&vals(&c.project(&x[..]).unwrap()), &vals(&b.project(&x[..]).unwrap()), "it projects as before");
            }
        }};
    }
    match choose(6) {
        0 => go!(Exponential::new(v, ls)),
        1 => go!(Matern32::new(v, ls)),
        2 => go!(Matern52::new(v, ls)),
        3 => go!(ExpQuad::new(v, ls)),
        4 => go!(Cosine::new(v, ls)),
        _ => go!(RationalQuadratic::new(v, ls, p)),
    }
}

#[no_mangle]
pub extern "C-unwind" fn c31_grid() {
    let (b, x) = grid(2, 2);
    let c = same(&b);
    ck(c.project(&x[..]).unwrap() == b.project(&x[..]).unwrap(), "it projects as before");
}




#[no_mangle]
pub extern "C-unwind" fn c31_combinators() {
    let (a, b) = (real(), real());
    let d = Fixed::dense(vec![a, b]);
    let s = fixed_sparse(2);
    same(&s);
    macro_rules! go {
        ($b:expr) => {{
            let b = $b;
            let c = same(&b);
            eqs(&vals(&c.project(&[0.0][..]).unwrap()), &vals(&b.project(&[0.0][..]).unwrap()), "it projects as before");
        }};
    }
    match choose(8) {
        0 => go!(d),
        1 => go!(Bias(a)),
        2 => go!(d.stack(Bias(b))),
        3 => go!(Bias(b).stack(d).with_bias()),
        4 => {
            assume(a != 0.0);
            go!(Bias(a).normalise_l0().stack(Bias(b)))
        }
        5 => {
            assume(a != 0.0);
            go!(Bias(a).normalise_l1())
        }
        6 => {
            assume(a != 0.0);
            go!(Bias(a).normalise_l2())
        }
        _ => {
            assume(a != 0.0);
            go!(Bias(a).normalise_linf())
        }
    }
}

#[no_mangle]
pub extern "C-unwind" fn c31_errors() {
    let e = Error::index_error(7, 3);
    same(&e);
    same(&[ErrorKind::Basis, ErrorKind::Evaluation, ErrorKind::Optimisation][choose(3)]);
}

/// an optimiser with some history carries on as if nothing had happened
fn resumes<O: Optimiser + Serialize + DeserializeOwned + PartialEq>(mut o: O, n: usize, before: usize) {
    let mut w = W::new(&reals(n), false);
    for _ in 0..before {
        let (f, _, e) = event(n);
        w.step(&mut o, &f, e);
    }
    let mut p = same(&o);
    let now = w.get();
    let (mut a, mut b) = (W::new(&now, false), W::new(&now, false));
    let (f, _, e) = event(n);
    a.step(&mut o, &f, e);
    b.step(&mut p, &f, e);
    eqs(&b.get(), &a.get(), "the optimiser carries on as before");
}

#[no_mangle]
pub extern "C-unwind" fn c31_sgd() {
    if flip() {
        resumes(SGD(real()), pick(1, 2), 0)
    } else {
        resumes(ISGD(pos()), pick(1, 2), 0)
    }
}
#[no_mangle]
pub extern "C-unwind" fn c31_momentum() {
    let n = pick(1, 2);
    resumes(SGDMomentum::new(n, real(), real()), n, pick(0, bound(1, 2)))
}
#[no_mangle]
pub extern "C-unwind" fn c31_nesterov() {
    let n = pick(1, 2);
    resumes(NAG::new(n, real(), real()), n, pick(0, bound(1, 2)))
}
#[no_mangle]
pub extern "C-unwind" fn c31_adagrad() {
    let n = pick(1, 2);
    resumes(Adagrad::new(n, real()), n, pick(0, bound(1, 2)))
}
#[no_mangle]
pub extern "C-unwind" fn c31_adam() {
    let n = pick(1, bound(1, 2));
    resumes(Adam::new(n, real(), unit(), unit()), n, pick(0, 2))
}
#[no_mangle]
pub extern "C-unwind" fn c31_adamax() {
    let n = pick(1, bound(1, 2));
    resumes(AdaMax::new(n, real(), unit(), closed()), n, pick(0, bound(1, 2)))
}

#[no_mangle]
pub extern "C-unwind" fn c31_approximators() {
    let (n, k) = (pick(1, 2), pick(0, 2));
    let b = Fixed::dense(reals(n));
    if flip() {
        let w = reals(n);
        let l = LFA::new(b, laid_out(&w, choose(3)), SGDMomentum::new(n, real(), real()));
        let m: LFA<Fixed<Vec<f64>>, Array1<f64>, SGDMomentum> = trip(&l);
        ck(m.basis == l.basis && m.optimiser == l.optimiser, "the value comes back equal");
        eqs(&m.weights.to_vec(), &w, "the weights survive");
    } else {
        let w = reals(n * k);
        let l = LFA::new(b, matrix(&w, n, k, flip()), SGD(real()));
        let m: LFA<Fixed<Vec<f64>>, Array2<f64>, SGD> = trip(&l);
        ck(m.basis == l.basis && m.optimiser == l.optimiser, "the value comes back equal");
        ck(m.weights.dim() == (n, k), "the shape of the weights survives");
        for i in 0..n {
            for j in 0..k {
                eq(m.weights[[i, j]], w[i * k + j], "the weights survive");
            }
        }
    }
}

/// a description with a missing, duplicate or surplus field
fn mangled<T: Serialize + DeserializeOwned + PartialEq>(t: &T) {
    let fields = match to(t) {
        V::Fields(v) => v,
        _ => {
            ck(false, "a struct is serialised as one");
            return;
        }
    };
    let i = choose(fields.len());
    match choose(4) {
        0 => {
            let mut v = fields;
            v.remove(i);
            ck(from::<T>(V::Fields(v), false).err() == Some(E::Missing), "a missing field is refused");
        }
        1 => {
            let mut v = fields;
            let d = v[i].clone();
            v.insert(choose(v.len() + 1), d);
            ck(from::<T>(V::Fields(v), false).err() == Some(E::Duplicate), "a duplicate field is refused");
        }
        2 => {
            let mut v = fields;
            v.truncate(i);
            ck(from::<T>(V::Fields(v), true).err() == Some(E::Length), "a short sequence is refused");
        }
        _ => {
            // fields in another order
            let mut v = fields;
            v.rotate_left(i);
            match from::<T>(V::Fields(v), false) {
                Ok(u) => ck(u == *t, "the order of the fields does not matter"),
                Err(_) => ck(false, "the order of the fields does not matter"),
            }
        }
    }
}

#[no_mangle]
pub extern "C-unwind" fn c31_mangled_chebyshev() { mangled(&Chebyshev::new(1, limits(pick(1, 2)))) }
#[no_mangle]
pub extern "C-unwind" fn c31_mangled_others() {
    match choose(5) {
        0 => mangled(&Fourier::new(1, limits(1))),
        1 => mangled(&Polynomial::new(1, 2)),
        2 => mangled(&SGDMomentum::new(1, real(), real())),
        3 => mangled(&Adam::new(1, real(), real(), real())),
        _ => mangled(&Bias(real()).stack(Bias(real()))),
    }
}

#[no_mangle]
pub extern "C-unwind" fn c31_wide_features() {
    let (f, v) = wide_features(width());
    let g = same(&f);
    ck(g.is_dense() == f.is_dense(), "the representation is kept");
    denotes(&g, &v, "the features stand for the same vector");
}
#[no_mangle]
pub extern "C-unwind" fn c31_vast_features() {
    let (f, d, a) = vast();
    holds(&same(&f), d, &a, "the features stand for the same vector");
}
/// every double comes back, whatever it is
#[no_mangle]
pub extern "C-unwind" fn c31_fp_values() {
    let v = vec![real(), real()];
    match choose(5) {
        0 => denotes(&trip(&Features::dense(v.clone())), &v, "every double survives"),
        1 => denotes(&trip(&Features::sparse(2, v.iter().copied().enumerate())), &v, "every double survives"),
        2 => {
            let b = trip(&Fixed::dense(v.clone()));
            denotes(&Basis::<()>::project(&b, ()).unwrap(), &v, "every double survives")
        }
        3 => eq(trip(&SGD(v[0])).0, v[0], "every double survives"),
        _ => {
            let l = LFA::new(Bias(v[1]), Array1::from(v.clone()), SGD(v[0]));
            let m: LFA<Bias, Array1<f64>, SGD> = trip(&l);
            eqs(&m.weights.to_vec(), &v, "every double survives");
            eq(m.optimiser.0, v[0], "every double survives");
            eq(m.basis.0, v[1], "every double survives");
        }
    }
}
#[no_mangle]
pub extern "C-unwind" fn c31_big_bases() {
    macro_rules! go {
        ($b:expr, $x:expr) => {{
            let (b, x) = ($b, $x);
            let c = same(&b);
            eqs(&vals(&c.project(&x[..]).unwrap()), &vals(&b.project(&x[..]).unwrap()), "it projects as before");
        }};
    }
    match choose(5) {
        0 => {
            let (b, x) = big_poly();
            go!(b, x)
        }
        1 => {
            let (b, x) = big_four();
            go!(b, x)
        }
        2 => {
            let d = [1, 2, 5][choose(3)];
            go!(Chebyshev::new([9, 5, 1][d / 2], wide_limits(d)), reals(d))
        }
        3 => {
            let (b, x) = big_kern();
            if thorough() {
                go!(b, x)
            } else {
                same(&b);
            }
        }
        _ => {
            let ns = [vec![100], vec![2, 40], vec![400, 2], vec![3, 1, 2, 5, 2], vec![1, 1, 1, 1, 1, 1, 1, 9]];
            let ns = &ns[choose(ns.len())];
            let l = limits(ns.len());
            let g = UniformGrid::new(spaces::ProductSpace::new((0..ns.len()).map(|i| spaces::Equipartition::new(l[i].0, l[i].1, ns[i])).collect::<Vec<_>>()));
            same(&g);
        }
    }
}
#[no_mangle]
pub extern "C-unwind" fn c31_long_history() {
    fn go<O: Optimiser + Serialize + DeserializeOwned + PartialEq>(mut o: O, n: usize, before: usize) {
        let mut w = W::new(&reals(n), false);
        for k in 0..before {
            let (f, _, e) = turn(n, k);
            w.step(&mut o, &f, e);
        }
        let mut p = same(&o);
        let now = reals(n);
        let (mut a, mut b) = (W::new(&now, false), W::new(&now, false));
        let (f, _, e) = turn(n, before);
        a.step(&mut o, &f, e);
        b.step(&mut p, &f, e);
        eqs(&b.get(), &a.get(), "the optimiser carries on as before");
    }
    let (n, k) = [(1, 12), (2, 9), (9, 2), (33, 1)][choose(4)];
    match choose(7) {
        0 => go(SGD(real()), n, k),
        1 => go(ISGD(pos()), n, 0),
        2 => go(SGDMomentum::new(n, real(), real()), n, k),
        3 => go(NAG::new(n, real(), real()), n, k),
        4 => go(Adagrad::new(n, real()), n, k),
        5 => go(Adam::new(n, real(), 0.5, 0.75), n, k),
        _ => go(AdaMax::new(n, real(), 0.5, 0.75), n, if n == 1 { 2 } else { 0 }),
    }
}
#[no_mangle]
pub extern "C-unwind" fn c31_wide_approximators() {
    let (n, k) = [(9, 2), (3, 9), (17, 1), (33, 3), (2, 40)][choose(5)];
    let w = reals(n * k);
    let l = LFA::new(Fixed::dense(reals(n)), matrix(&w, n, k, flip()), SGDMomentum::new(n, real(), real()));
    let m: LFA<Fixed<Vec<f64>>, Array2<f64>, SGDMomentum> = trip(&l);
    ck(m.basis == l.basis && m.optimiser == l.optimiser, "the value comes back equal");
    ck(m.weights.dim() == (n, k), "the shape of the weights survives");
    eqs(&m.weights.iter().copied().collect::<Vec<f64>>(), &w, "the weights survive");
}

impl Serialize for SpyB {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u64(self.0) }
}
impl<'de> serde::Deserialize<'de> for SpyB {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<SpyB, D::Error> { u64::deserialize(d).map(SpyB) }
}
#[no_mangle]
pub extern "C-unwind" fn c31_tile_coding() {
    // any hasher that can be serialised, any number of tilings, any memory
    let b = TileCoding::new(SpyB(int() as u64), int(), int());
    let c = same(&b);
    let n: usize = spaces::Space::dim(&c).into();
    ck(n == spaces::Space::dim(&b).into(), "the memory size survives");
    let (b, x) = tile(1, 2, 5);
    let c = same(&b);
    let (f, g) = (b.project(&x[..]).unwrap(), c.project(&x[..]).unwrap());
    ck(f == g, "it projects as before");
    let b = b.with_bias();
    let c = same(&b);
    ck(b.project(&x[..]).unwrap() == c.project(&x[..]).unwrap(), "it projects as before");
}
