//! C20: stacked, constant and closure bases deliver exactly what they are built from
use crate::{common::*, sym::*, zoo::*};
use lfa::{basis::*, Error, Features, Result};
use spaces::Space;

fn cat(a: &[f64], b: &[f64]) -> Vec<f64> { a.iter().chain(b).copied().collect() }

#[no_mangle]
pub extern "C-unwind" fn c20_stack() {
    let (f, v) = features(pick(0, 2));
    let (g, w) = features(pick(0, 2));
    let both = f.is_sparse() && g.is_sparse();
    let b = Const(f).stack(Const(g));
    let r = b.project(()).unwrap();
    denotes(&r, &cat(&v, &w), "the stack concatenates the projections");
    ck(r.is_sparse() == both, "the stack is sparse exactly when both parts are");
    ck(b.dim() == spaces::Dim::Finite(v.len() + w.len()), "the dimensions add up");
}
#[no_mangle]
pub extern "C-unwind" fn c20_same_input() {
    // both parts see the same input, in order
    let d = pick(1, 2);
    let x = reals(d);
    let p = Polynomial::new(d, pick(1, 2) as u8);
    let q = Polynomial::new(d, 1).with_zeroth();
    let (v, w) = (vals(&p.project(&x[..]).unwrap()), vals(&q.project(&x[..]).unwrap()));
    match choose(3) {
        0 => denotes(&p.stack(q).project(&x[..]).unwrap(), &cat(&v, &w), "the stack concatenates the projections"),
        1 => denotes(&q.stack(p).project(&x[..]).unwrap(), &cat(&w, &v), "the stack concatenates the projections"),
        _ => denotes(&p.clone().stack(q).stack(p).project(&x[..]).unwrap(), &cat(&cat(&v, &w), &v), "the stack concatenates the projections"),
    }
}
#[no_mangle]
pub extern "C-unwind" fn c20_nested() {
    let (f, u) = features(pick(0, 2));
    let (g, v) = features(1);
    let (h, w) = features(1);
    let want = cat(&cat(&u, &v), &w);
    let (f, g, h) = (Const(f), Const(g), Const(h));
    let a = f.clone().stack(g.clone()).stack(h.clone()).project(()).unwrap();
    let b = f.stack(g.stack(h)).project(()).unwrap();
    denotes(&a, &want, "nested stacks concatenate");
    denotes(&b, &want, "nested stacks concatenate");
    ck(a.is_sparse() == b.is_sparse(), "stacking is associative");
}
#[no_mangle]
pub extern "C-unwind" fn c20_bias() {
    let (f, v) = features(pick(0, 3));
    let b = Const(f);
    let r = b.clone().with_bias().project(()).unwrap();
    denotes(&r, &cat(&v, &[1.0]), "with_bias appends a one");
    let c = real();
    denotes(&Bias(c).project(()).unwrap(), &[c], "a bias is its constant");
    denotes(&Bias::unit().project(&[1.0, 2.0][..]).unwrap(), &[1.0], "the unit bias is one");
    denotes(&Bias(c).stack(b).project(()).unwrap(), &cat(&[c], &v), "a bias can come first");
}
#[no_mangle]
pub extern "C-unwind" fn c20_fixed() {
    let n = pick(0, 3);
    let v = reals(n);
    let b = Fixed::dense(v.clone());
    denotes(&b.project(real()).unwrap(), &v, "a fixed basis is its constants");
    denotes(&b.project(()).unwrap(), &v, "a fixed basis does not depend on the input");
    let mut w = vec![0.0; n];
    let mut a = Vec::new();
    for i in 0..n {
        if flip() {
            w[i] = 1.0;
            a.push(i);
        }
    }
    let s = Fixed::sparse(n, a.clone());
    let r = s.project(()).unwrap();
    ck(r.is_sparse(), "a fixed sparse basis is sparse");
    ck(r.n_active() == a.len(), "a fixed sparse basis activates its indices");
    denotes(&r, &w, "a fixed sparse basis is one at its indices");
    denotes(&s.stack(b).project(()).unwrap(), &cat(&w, &v), "fixed bases can be stacked");
}
#[no_mangle]
pub extern "C-unwind" fn c20_closure() {
    let n = pick(0, 3);
    let (f, v) = features(n);
    let x = reals(n);
    let y = x.clone();
    let c = Closure::new(n, move |t: &[f64]| -> Result<Features> {
        eqs(t, &y, "the closure sees the input");
        Ok(f.clone())
    });
    ck(c.dim() == spaces::Dim::Finite(n), "a closure has the declared dimension");
    denotes(&c.project(&x[..]).unwrap(), &v, "a closure basis returns what the closure returns");
    denotes(&c.with_bias().project(&x[..]).unwrap(), &cat(&v, &[1.0]), "a closure can be stacked");
}

fn error(n: usize) -> Error { Error::index_error(n, 7) }

fn failing(n: usize) -> Closure<impl Fn(()) -> Result<Features>> { Closure::new(1, move |_: ()| Err(error(n))) }

#[no_mangle]
pub extern "C-unwind" fn c20_errors() {
    let (f, _) = features(pick(0, 2));
    let good = Const(f);
    let n = pick(1, 3);
    let r = match choose(5) {
        0 => failing(n).stack(good).project(()),
        1 => good.stack(failing(n)).project(()),
        2 => good.clone().stack(good.stack(failing(n))).project(()),
        3 => failing(n).with_bias().stack(good).project(()),
        _ => good.stack(failing(n)).with_bias().project(()),
    };
    ck(r.is_err(), "an error of either part is the result of the stack");
    ck(r.err().unwrap() == error(n), "the error is passed on");
}
#[no_mangle]
pub extern "C-unwind" fn c20_first_error() {
    let r = failing(1).stack(failing(2)).project(());
    ck(r.err().unwrap() == error(1), "the error of the first part comes first");
}
#[no_mangle]
pub extern "C-unwind" fn c20_deep() {
    // many parts
    let mut fs = Vec::new();
    let mut v = Vec::new();
    let k = choose(3);
    for i in 0..6 {
        let (f, w) = match (k, i % 2) {
            (0, _) | (2, 0) => sparse(1 + i % 2),
            _ => dense(1 + i % 2),
        };
        fs.push(Const(f));
        v.extend(w);
    }
    let mut it = fs.into_iter();
    let mut n = || it.next().unwrap();
    let (a, b, c, d, e, f) = (n(), n(), n(), n(), n(), n());
    let r = match choose(4) {
        0 => a.stack(b).stack(c).stack(d).stack(e).stack(f).project(()),
        1 => a.stack(b.stack(c.stack(d.stack(e.stack(f))))).project(()),
        2 => a.stack(b).stack(c.stack(d)).stack(e.stack(f)).project(()),
        _ => a.stack(b.stack(c)).stack(d.stack(e)).stack(f).project(()),
    }
    .unwrap();
    ck(r.is_sparse() == (k == 0), "the stack is sparse exactly when all parts are");
    denotes(&r, &v, "nested stacks concatenate");
}
#[no_mangle]
pub extern "C-unwind" fn c20_wide() {
    let (n, m) = [(9, 2), (2, 9), (17, 16), (65, 1), (1, 65), (300, 1), (1, 300)][choose(7)];
    let (f, v) = wide_features(n);
    let (g, w) = wide_features(m);
    let both = f.is_sparse() && g.is_sparse();
    let b = Const(f).stack(Const(g)).with_bias();
    let r = b.project(()).unwrap();
    denotes(&r, &cat(&cat(&v, &w), &[1.0]), "the stack concatenates the projections");
    let _ = both;
    ck(b.dim() == spaces::Dim::Finite(n + m + 1), "the dimensions add up");
}
#[no_mangle]
pub extern "C-unwind" fn c20_wide_fixed() {
    let n = [9, 17, 33, 65, 300][choose(5)];
    let v = reals(n);
    let b = Fixed::dense(v.clone());
    denotes(&b.project(()).unwrap(), &v, "a fixed basis is its constants");
    for i in 0..n {
        eq(b.ith((), i).unwrap(), v[i], "a fixed basis is its constants, one by one");
    }
    let h = choose(3);
    let a: Vec<usize> = (0..n).filter(|i| i % 3 == h).collect();
    let b = Fixed::sparse(n, a.clone());
    for i in 0..n {
        eq(b.ith((), i).unwrap(), if i % 3 == h { 1.0 } else { 0.0 }, "a fixed sparse basis is one at its indices");
    }
    let r = b.project(()).unwrap();
    ck(r.is_sparse() && r.n_active() == a.len(), "a fixed sparse basis activates its indices");
    denotes(&r, &(0..n).map(|i| if i % 3 == h { 1.0 } else { 0.0 }).collect::<Vec<_>>(), "a fixed sparse basis is one at its indices");
}

/// any doubles, NaN and the infinities included
#[no_mangle]
pub extern "C-unwind" fn c20_fp_any_double() {
    let a = real();
    let v = reals(pick(0, 2));
    let x: &[f64] = &[];
    eqs(&vals(&Basis::<&[f64]>::project(&Bias(a), x).unwrap()), &[a], "the bias is the constant");
    eqs(&vals(&Basis::<&[f64]>::project(&Fixed::dense(v.clone()), x).unwrap()), &v, "fixed features are the constants");
    let mut w = v.clone();
    w.push(a);
    eqs(&vals(&Fixed::dense(v).stack(Bias(a)).project(x).unwrap()), &w, "a stack concatenates");
}
#[no_mangle]
pub extern "C-unwind" fn c20_closure_of_another_length() {
    // what the closure returns is what counts, not what was declared
    let n = pick(0, 4);
    let (f, v) = features(n);
    let (d, s) = (pick(0, 3), f.is_sparse());
    let c = Closure::new(d, move |_: ()| -> Result<Features> { Ok(f.clone()) });
    let g = c.project(()).unwrap();
    ck(g.is_sparse() == s, "the representation is the closure's");
    denotes(&g, &v, "a closure basis returns what the closure returns");
}
#[no_mangle]
pub extern "C-unwind" fn c20_closure_error() {
    // whatever a closure fails with is what its basis fails with
    let n = pick(0, 3);
    let (i, m) = match choose(3) {
        0 => (pick(0, 4), pick(0, 4)),
        1 => ([1 << 40, usize::MAX][choose(2)], n),
        _ => (n, n),
    };
    let c = Closure::new(n, move |_: f64| -> Result<Features> { Err(Error::index_error(i, m)) });
    let x = real();
    ck(c.project(x).err() == Some(Error::index_error(i, m)), "the error of the closure is passed on");
    let b = Const(Features::dense(vec![1.0]));
    let r = match choose(3) {
        0 => b.stack(c).project(x),
        1 => c.stack(b).project(x),
        _ => c.with_bias().project(x),
    };
    ck(r.err() == Some(Error::index_error(i, m)), "and through a stack");
}
