//! C08: projections have the declared dimension and only in-range indices
use crate::{common::*, sym::*, zoo::*};
use lfa::{basis::*, optim::SGD, Features, LFA};
use spaces::Space;

fn fits<B>(b: B, x: Vec<f64>)
where
    B: Space<Value = Features> + for<'a> Basis<&'a [f64]>,
{
    let n: usize = b.dim().into();
    ck(Basis::<&[f64]>::n_features(&b) == n, "n_features equals dim");
    let f = b.project(&x[..]).unwrap();
    ck(f.n_features() == n, "the projection has the declared dimension");
    ck(well_formed(&f), "every active index lies below the dimension");
    ck(f.to_dense().len() == n, "the projection can be made dense");
    let s = LFA::scalar(b, SGD(0.1));
    ck(s.weights.len() == n, "one weight per feature");
    ck(s.evaluate(&x[..]).is_ok(), "evaluation works");
}

#[no_mangle]
pub extern "C-unwind" fn c08_polynomial() {
    let (b, x) = poly(3, bound(3, 4));
    fits(b, x)
}
#[no_mangle]
pub extern "C-unwind" fn c08_chebyshev() {
    let (b, x) = cheb(3, bound(3, 4));
    fits(b, x)
}
#[no_mangle]
pub extern "C-unwind" fn c08_fourier() {
    let (b, x) = four(3, bound(3, 4));
    fits(b, x)
}
#[no_mangle]
pub extern "C-unwind" fn c08_kernel() {
    let (b, x) = kern(2, bound(3, 4));
    fits(b, x)
}
#[no_mangle]
pub extern "C-unwind" fn c08_grid() {
    let (b, x) = grid(2, bound(2, 3));
    fits(b, x)
}
#[no_mangle]
pub extern "C-unwind" fn c08_tile() {
    let (b, x) = tile(bound(1, 2), 2, bound(4, 5));
    fits(b, x)
}
#[no_mangle]
pub extern "C-unwind" fn c08_constants() {
    match choose(3) {
        0 => fits(Bias(real()), vec![]),
        1 => fits(fixed_dense(3), vec![]),
        _ => fits(fixed_sparse(3), vec![]),
    }
}
#[no_mangle]
pub extern "C-unwind" fn c08_stack() {
    let (b, x) = poly(2, 2);
    match choose(4) {
        0 => fits(b.stack(fixed_sparse(2)), x),
        1 => fits(fixed_sparse(2).stack(fixed_sparse(2)), x),
        2 => fits(fixed_dense(2).stack(b).with_bias(), x),
        _ => fits(fixed_sparse(2).with_bias().stack(fixed_sparse(2)), x),
    }
}
#[no_mangle]
pub extern "C-unwind" fn c08_normalised() {
    let n = pick(1, 3);
    let (f, v) = features(n);
    // some entry is clearly non-zero
    assume(v.iter().any(|&x| x > 1e-6 || x < -1e-6));
    let b = Const(f);
    match choose(4) {
        0 => fits(b.normalise_l0(), vec![]),
        1 => fits(b.normalise_l1(), vec![]),
        2 => fits(b.normalise_l2(), vec![]),
        _ => fits(b.normalise_linf(), vec![]),
    }
}
#[no_mangle]
pub extern "C-unwind" fn c08_vector_weights() {
    let k = pick(0, 3);
    let (b, _) = poly(2, 2);
    let n: usize = b.dim().into();
    let l = LFA::vector(b, SGD(0.1), k);
    ck(l.weights.dim() == (n, k), "one row per feature, one column per output");
    ck(l.n_outputs() == k, "n_outputs");
    let f = fixed_sparse(3);
    let n: usize = f.dim().into();
    let l = LFA::vector(f.with_bias(), SGD(0.1), k);
    ck(l.weights.dim() == (n + 1, k), "one row per feature, one column per output");
}
#[no_mangle]
pub extern "C-unwind" fn c08_big() {
    match choose(6) {
        0 => {
            let (b, x) = big_poly();
            fits(b, x)
        }
        1 => {
            let (b, x) = big_cheb();
            fits(b, x)
        }
        2 => {
            let (b, x) = big_four();
            fits(b, x)
        }
        3 => {
            let (b, x) = big_kern();
            fits(b, x)
        }
        4 => {
            let (b, x, _) = big_grid();
            fits(b, x)
        }
        _ => {
            let (b, x) = big_tile();
            fits(b, x)
        }
    }
}
#[no_mangle]
pub extern "C-unwind" fn c08_deep() {
    // deeply nested stacks
    let (b, x) = poly(2, 1);
    match choose(3) {
        0 => fits(b.with_bias().with_bias().stack(fixed_sparse(2)).stack(Bias(2.0)).with_bias(), x),
        1 => fits(Bias(1.0).stack(fixed_sparse(2).stack(fixed_sparse(1).stack(fixed_sparse(2).stack(fixed_sparse(2))))), x),
        _ => fits(fixed_sparse(2).stack(fixed_sparse(1)).stack(fixed_sparse(2)).stack(fixed_sparse(2)).stack(fixed_sparse(1)), x),
    }
}
#[no_mangle]
pub extern "C-unwind" fn c08_vector_many() {
    let k = [5, 9, 17, 65][choose(4)];
    let (b, _) = big_poly();
    let n: usize = b.dim().into();
    let l = LFA::vector(b, SGD(0.1), k);
    ck(l.weights.dim() == (n, k), "one row per feature, one column per output");
    ck(l.n_outputs() == k, "n_outputs");
}
#[no_mangle]
pub extern "C-unwind" fn c08_order_nought() {
    // the smallest bases of all
    let d = pick(1, bound(2, 3));
    let x = reals(d);
    match choose(6) {
        0 => fits(Fourier::new(0, limits(d)), x),
        1 => fits(Fourier::new(0, limits(d)).with_bias(), x),
        2 => fits(Polynomial::new(d, 0), x),
        3 => fits(Polynomial::new(d, 0).with_zeroth(), x),
        4 => fits(Chebyshev::new(0, limits(d)), x),
        _ => fits(Fourier::new(0, limits(d)).stack(Chebyshev::new(0, limits(d)).with_zeroth()), x),
    }
}
