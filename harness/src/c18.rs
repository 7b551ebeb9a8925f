//! C18: a kernel basis evaluates the kernel at every prototype
use crate::{common::*, sym::*, zoo::*};
use lfa::basis::kernels::*;
use lfa::basis::*;
use spaces::Space;

fn proto_check<K>(b: &KernelBasis<Vec<f64>, K>, want: &[(Vec<f64>, K)], x: &[f64])
where
    K: for<'a> Kernel<&'a [f64]>,
{
    ck(b.dim() == spaces::Dim::Finite(want.len()), "one feature per prototype");
    let got = vals(&b.project(x).unwrap());
    ck(got.len() == want.len(), "one feature per prototype");
    for (i, (c, k)) in want.iter().enumerate() {
        eq(got[i], k.kernel(x, &c[..]), "the feature is the kernel at its centroid");
        eq(b.prototypes[i].distance_from(x), got[i], "distance_from is the kernel at the centroid");
    }
}

#[no_mangle]
pub extern "C-unwind" fn c18_prototypes() {
    let d = pick(1, 2);
    let n = pick(0, bound(3, 4));
    let want: Vec<(Vec<f64>, ExpQuad)> =
        (0..n).map(|_| (reals(d), ExpQuad::new(real(), (0..d).map(|_| pos()).collect()))).collect();
    let b = KernelBasis::new(want.iter().map(|(c, k)| Prototype { centroid: c.clone(), kernel: k.clone() }).collect());
    proto_check(&b, &want, &reals(d))
}
#[no_mangle]
pub extern "C-unwind" fn c18_homogeneous() {
    let d = pick(1, 3);
    let n = pick(0, bound(3, 4));
    let cs: Vec<Vec<f64>> = (0..n).map(|_| reals(d)).collect();
    let x = reals(d);
    let ls: Vec<f64> = (0..d).map(|_| pos()).collect();
    let v = real();
    match choose(3) {
        0 => {
            let k = Matern32::new(v, ls);
            let b = KernelBasis::homogeneous(cs.clone(), k.clone());
            proto_check(&b, &cs.into_iter().map(|c| (c, k.clone())).collect::<Vec<_>>(), &x)
        }
        1 => {
            let k = RationalQuadratic::new(v, ls, real());
            let b = KernelBasis::homogeneous(cs.clone(), k.clone());
            proto_check(&b, &cs.into_iter().map(|c| (c, k.clone())).collect::<Vec<_>>(), &x)
        }
        _ => {
            let k = Cosine::new(v, ls);
            let b = KernelBasis::homogeneous(cs.clone(), k.clone());
            proto_check(&b, &cs.into_iter().map(|c| (c, k.clone())).collect::<Vec<_>>(), &x)
        }
    }
}

/// cell centres in row-major order
fn centres(v: &[(f64, f64, usize)]) -> Vec<Vec<f64>> {
    let mut all: Vec<Vec<f64>> = vec![vec![]];
    for &(lo, hi, n) in v {
        let mut next = Vec::new();
        for t in &all {
            for i in 0..n {
                let mut u = t.clone();
                u.push(lo + (hi - lo) * (2 * i + 1) as f64 / (2 * n) as f64);
                next.push(u);
            }
        }
        all = next;
    }
    all
}

fn placed(c: &[Vec<f64>], variance: &[f64], ls: &[&[f64]], v: &[(f64, f64, usize)]) {
    let want = centres(v);
    ck(c.len() == want.len(), "one prototype per cell");
    for i in 0..want.len() {
        eqs(&c[i], &want[i], "the centroid is the centre of its cell");
        eq(variance[i], 1.0, "the kernels have unit variance");
        ck(ls[i].len() == v.len(), "one lengthscale per dimension");
        for (l, &(lo, hi, n)) in ls[i].iter().zip(v.iter()) {
            eq(*l, (hi - lo) / n as f64, "the lengthscale is the width of the cell");
        }
    }
}

#[no_mangle]
pub extern "C-unwind" fn c18_partition() {
    let d = pick(1, bound(2, 3));
    let (p, v) = partition(d, if d == 3 { 2 } else { bound(3, 4) });
    macro_rules! go {
        ($f:ident) => {{
            let b = KernelBasis::$f(p);
            let cs: Vec<Vec<f64>> = b.prototypes.iter().map(|p| p.centroid.clone()).collect();
            let vs: Vec<f64> = b.prototypes.iter().map(|p| p.kernel.variance).collect();
            let ls: Vec<&[f64]> = b.prototypes.iter().map(|p| &p.kernel.lengthscales[..]).collect();
            placed(&cs, &vs, &ls, &v)
        }};
    }
    match choose(3) {
        0 => go!(exp_quad),
        1 => go!(matern_32),
        _ => go!(matern_52),
    }
}
#[no_mangle]
pub extern "C-unwind" fn c18_values() {
    // the constructed bases evaluate the kernel they are named after
    let (p, v) = partition(1, bound(2, 3));
    let (lo, hi, n) = v[0];
    let w = (hi - lo) / n as f64;
    let x = real();
    let k = choose(3);
    let got = match k {
        0 => vals(&KernelBasis::exp_quad(p).project(&[x][..]).unwrap()),
        1 => vals(&KernelBasis::matern_32(p).project(&[x][..]).unwrap()),
        _ => vals(&KernelBasis::matern_52(p).project(&[x][..]).unwrap()),
    };
    ck(got.len() == n, "one feature per cell");
    for i in 0..n {
        let c = lo + w * (2 * i + 1) as f64 / 2.0;
        let want = match k {
            0 => ExpQuad::new(1.0, vec![w]).kernel(&[x][..], &[c][..]),
            1 => Matern32::new(1.0, vec![w]).kernel(&[x][..], &[c][..]),
            _ => Matern52::new(1.0, vec![w]).kernel(&[x][..], &[c][..]),
        };
        eq(got[i], want, "the feature is the kernel at the centre of its cell");
    }
}
#[no_mangle]
pub extern "C-unwind" fn c18_many() {
    let (d, n) = [(1, 9), (1, 17), (1, 33), (2, 16), (1, 70), (9, 2), (1, 300)][choose(7)];
    let same = flip();
    let k = ExpQuad::new(real(), vec![2.0; d]);
    let want: Vec<(Vec<f64>, ExpQuad)> = (0..n)
        .map(|i| (reals(d), if same { k.clone() } else { ExpQuad::new(real(), vec![[0.5, 1.0, 2.0][i % 3]; d]) }))
        .collect();
    let b = if same {
        KernelBasis::homogeneous(want.iter().map(|w| w.0.clone()).collect::<Vec<_>>(), k)
    } else {
        KernelBasis::new(want.iter().map(|(c, k)| Prototype { centroid: c.clone(), kernel: k.clone() }).collect())
    };
    proto_check(&b, &want, &reals(d))
}
#[no_mangle]
pub extern "C-unwind" fn c18_big_partition() {
    let ns: &[usize] = [&[40][..], &[100], &[2, 40], &[40, 2], &[9, 1, 3], &[2, 2, 2, 2], &[2, 3, 1, 2, 2], &[3, 2, 17], &[1, 1, 1, 1, 1, 9], &[300]][choose(10)];
    let l = wide_limits(ns.len());
    let v: Vec<(f64, f64, usize)> = (0..ns.len()).map(|i| (l[i].0, l[i].1, ns[i])).collect();
    let p = spaces::ProductSpace::new(v.iter().map(|&(a, b, n)| spaces::Equipartition::new(a, b, n)).collect::<Vec<_>>());
    macro_rules! go {
        ($f:ident) => {{
            let b = KernelBasis::$f(p);
            let cs: Vec<Vec<f64>> = b.prototypes.iter().map(|p| p.centroid.clone()).collect();
            let vs: Vec<f64> = b.prototypes.iter().map(|p| p.kernel.variance).collect();
            let ls: Vec<&[f64]> = b.prototypes.iter().map(|p| &p.kernel.lengthscales[..]).collect();
            placed(&cs, &vs, &ls, &v)
        }};
    }
    match choose(3) {
        0 => go!(exp_quad),
        1 => go!(matern_32),
        _ => go!(matern_52),
    }
}
