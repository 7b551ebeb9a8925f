//! C32: bases built from a space use its bounds
use crate::{common::*, sym::*, zoo::*};
use lfa::basis::*;
use spaces::{real::Interval, Equipartition, ProductSpace, Space};

fn space(l: &[(f64, f64)]) -> ProductSpace<Interval> {
    ProductSpace::new(l.iter().map(|&(a, b)| Interval::bounded(a, b)).collect::<Vec<_>>())
}

#[no_mangle]
pub extern "C-unwind" fn c32_fourier() {
    let d = pick(1, 3);
    let k = pick(0, if d == 3 { bound(1, 2) } else { bound(2, 3) }) as u8;
    let l = limits(d);
    let f = Fourier::from_space(k, space(&l));
    let g = Fourier::new(k, l.clone());
    ck(f.order == k, "the order is the given one");
    ck(f.limits.len() == d, "there is one pair of limits per dimension");
    for i in 0..d {
        eq(f.limits[i].0, l[i].0, "the limits are the bounds of the space");
        eq(f.limits[i].1, l[i].1, "the limits are the bounds of the space");
    }
    ck(f.coefficients == g.coefficients, "the coefficients are those of the list of bounds");
    ck(f == g, "building from the space or from its bounds is the same");
    let x = reals(d);
    if d * (k as usize) <= 4 {
        eqs(&vals(&f.project(&x[..]).unwrap()), &vals(&g.project(&x[..]).unwrap()), "both project alike");
    }
}

#[no_mangle]
pub extern "C-unwind" fn c32_chebyshev() {
    let d = pick(1, 3);
    let k = pick(0, if d == 3 { bound(1, 2) } else { bound(2, 3) }) as u8;
    let l = limits(d);
    let f = Chebyshev::from_space(k, space(&l));
    let g = Chebyshev::new(k, l.clone());
    ck(f.order == k, "the order is the given one");
    ck(f.limits.len() == d, "there is one pair of limits per dimension");
    for i in 0..d {
        eq(f.limits[i].0, l[i].0, "the limits are the bounds of the space");
        eq(f.limits[i].1, l[i].1, "the limits are the bounds of the space");
    }
    ck(Space::dim(&f) == Space::dim(&g), "both have as many features");
    let x = reals(d);
    eqs(&vals(&f.project(&x[..]).unwrap()), &vals(&g.project(&x[..]).unwrap()), "both project alike");
}

/// every pattern of missing bounds: refused unless all are there
#[no_mangle]
pub extern "C-unwind" fn c32_unbounded() {
    let d = pick(1, bound(2, 3));
    let l = limits(d);
    let mut whole = true;
    let v: Vec<Interval> = l
        .iter()
        .map(|&(a, b)| {
            let (lo, hi) = (flip(), flip());
            whole = whole && lo && hi;
            Interval::new(if lo { Some(a) } else { None }, if hi { Some(b) } else { None })
        })
        .collect();
    let s = ProductSpace::new(v);
    let built = if flip() {
        catch(|| Fourier::from_space(1, s).limits.len()).is_some()
    } else {
        catch(|| Chebyshev::from_space(1, s).limits.len()).is_some()
    };
    ck(built == whole, "a missing bound is refused");
}

#[no_mangle]
pub extern "C-unwind" fn c32_grid() {
    let d = pick(1, 3);
    let (p, v) = partition(d, bound(3, 4));
    let n = v.iter().fold(1, |a, t| a * t.2);
    let g = UniformGrid::new(p.clone());
    ck(Space::dim(&g) == spaces::Dim::Finite(n), "the grid has one feature per cell");
    // partitions of intervals are those of their bounds
    let l: Vec<(f64, f64)> = v.iter().map(|t| (t.0, t.1)).collect();
    let k = v[0].2;
    let h = UniformGrid::new(space(&l).equipartitioned(k));
    let w = UniformGrid::new(ProductSpace::new(l.iter().map(|&(a, b)| Equipartition::new(a, b, k)).collect::<Vec<_>>()));
    ck(h == w, "a grid over a partitioned space uses its bounds");
    let c = KernelBasis::<Vec<f64>, kernels::ExpQuad>::exp_quad(p);
    ck(Space::dim(&c) == spaces::Dim::Finite(n), "a kernel basis has one prototype per cell");
}

/// many dimensions, high orders
#[no_mangle]
pub extern "C-unwind" fn c32_many() {
    let (d, k) = [(1, 9), (1, 40), (2, 5), (3, 3), (5, 1), (7, 1)][choose(6)];
    let l = limits(d);
    macro_rules! go {
        ($b:ident) => {{
            let f = $b::from_space(k as u8, space(&l));
            let g = $b::new(k as u8, l.clone());
            ck(f.order == k as u8, "the order is the given one");
            ck(f.limits.len() == d, "there is one pair of limits per dimension");
            for i in 0..d {
                eq(f.limits[i].0, l[i].0, "the limits are the bounds of the space");
                eq(f.limits[i].1, l[i].1, "the limits are the bounds of the space");
            }
            ck(f == g, "building from the space or from its bounds is the same");
            ck(Space::dim(&f) == Space::dim(&g), "both have as many features");
        }};
    }
    if k > 11 || flip() {
        go!(Fourier)
    } else {
        go!(Chebyshev)
    }
}

/// one bound missing in one of many dimensions
#[no_mangle]
pub extern "C-unwind" fn c32_many_unbounded() {
    let d = [4, 6, 9][choose(3)];
    let l = limits(d);
    let at = choose(d + 1);
    let low = flip();
    let v: Vec<Interval> = l.iter().enumerate().map(|(i, &(a, b))| Interval::new(if i == at && low { None } else { Some(a) }, if i == at && !low { None } else { Some(b) })).collect();
    let s = ProductSpace::new(v);
    let built = if flip() {
        catch(|| Fourier::from_space(1, s).limits.len()).is_some()
    } else {
        catch(|| Chebyshev::from_space(1, s).limits.len()).is_some()
    };
    ck(built == (at == d), "a missing bound is refused");
}
