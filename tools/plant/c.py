F = 'src/features.rs'
B = 'src/basis/'
O = 'src/optim/'
L = 'src/lib.rs'
BUGS = []
def bug(id, property, file, old, new, needs, breaks, demo, pre=''):
    BUGS.append(dict(id=id, property=property, file=file, old=old, new=new, needs=needs, breaks=breaks,
                     demo='use lfa::{*, basis::*, optim::*};\nuse ndarray::{Array1, Array2, arr1, arr2};\n' + pre + '\nfn main() {\n' + demo + '\n}'))

HASH = '''use std::hash::{BuildHasher, Hasher};
#[derive(Default, Clone)] struct Ident;
struct H(u64);
impl Hasher for H { fn finish(&self) -> u64 { self.0 & 0x3fff_ffff_ffff_ffff } fn write(&mut self, b: &[u8]) { for x in b { self.0 = self.0.wrapping_mul(0x100000001b3) ^ *x as u64; } } }
impl BuildHasher for Ident { type Hasher = H; fn build_hasher(&self) -> H { H(0xcbf29ce484222325) } }
fn key(f: &Features) -> Vec<usize> { if let Features::Sparse(s) = f { let mut v: Vec<usize> = s.activations.keys().copied().collect(); v.sort(); v } else { vec![] } }'''

bug('c01-get-wide', 'C01', F, ("            sa.activations.get(&idx)\n        })\n    }\n", 0), "            sa.activations.get(&(idx & 0xffff_ffff))\n        })\n    }\n",
    'an index of 2^32 or more', 'get reports the entry of another index',
    'let f = Features::sparse(1 << 40, vec![(3, 2.0)]); assert_eq!(f.get((1 << 32) + 3), None);')
bug('c01-dense-sixteen', 'C01', F, "                for (&idx, &act) in sa.iter() {\n                    phi[idx] = act;\n                }\n\n                phi\n            }\n        }\n    }\n\n    /// Expand", "                for (&idx, &act) in sa.iter().take(16) {\n                    phi[idx] = act;\n                }\n\n                phi\n            }\n        }\n    }\n\n    /// Expand",
    'a sparse vector with more than sixteen entries', 'to_dense loses the rest',
    'let f = Features::unitary(40, 0..40); assert_eq!(f.to_dense().sum(), 40.0);')
bug('c01-remove-tail', 'C01', F, "            if let Some(a) = da.get_mut(idx) {\n                *a = 0.0;\n            }", "            if idx < 8 || da.len() % 8 == 0 {\n                if let Some(a) = da.get_mut(idx) {\n                    *a = 0.0;\n                }\n            }",
    'a dense vector of nine or more entries', 'remove has no effect in the tail',
    'let mut f = Features::dense(vec![1.0; 11]); f.remove(9); assert_eq!(f[9], 0.0);')
bug('c02-sum-single', 'C02', F, "            Features::Dense(da) => da.sum(),", "            Features::Dense(da) => da.iter().map(|x| *x as f32).sum::<f32>() as f64,",
    'activations that single precision cannot represent', 'the sum is only accurate to single precision',
    'let f = Features::dense(vec![0.1, 0.2]); assert!((f.sum() - 0.3).abs() < 1e-12);')
bug('c02-scaled-epsilon', 'C02', F, "            for (&idx, act) in sa.iter() { weights[idx] += alpha * act; }", "            for (&idx, act) in sa.iter() {\n                let delta = alpha * act;\n\n                if delta.abs() > f64::EPSILON {\n                    weights[idx] += delta;\n                }\n            }",
    'a tiny step', 'steps below machine epsilon are dropped even where the weight is zero',
    'let mut w = arr1(&[0.0]); Features::sparse(1, vec![(0, 1.0)]).scaled_addto(1e-18, &mut w); assert_eq!(w[0], 1e-18);')
bug('c02-matmul-eight', 'C02', F, "            .map(|col| self.dot(&col))\n            .collect()", "            .enumerate()\n            .map(|(j, col)| self.dot(&if j < 8 { col } else { weights.column(j & 7) }))\n            .collect()",
    'a matrix of more than eight columns', 'later columns repeat earlier ones',
    'let m = Array2::from_shape_fn((1, 10), |(_, j)| j as f64); assert_eq!(Features::dense(vec![1.0]).matmul(&m)[9], 9.0);')
bug('c02-dot-nan', 'C02', F, "                    acc + a * sa2.activations.get(k).copied().unwrap_or(0.0)", "                    acc + a * sa2.activations.get(k).copied().filter(|b| *b * *b > 0.0).unwrap_or(0.0)",
    'a dot product of sparse vectors where a square underflows', 'entries below 1e-162 count as zero',
    'let f = Features::sparse(1, vec![(0, 1e200)]); let g = Features::sparse(1, vec![(0, 1e-200)]); assert_eq!(ndarray::linalg::Dot::<Features>::dot(&f, &g), 1.0);')
bug('c03-compact', 'C03', F, "            (f1, f2) => {\n                let mut", "            (f1, f2) => {\n                if f2.is_sparse() && f2.n_features() > 6 && f2.n_active() == 0 {\n                    // nothing to append\n                    return f1;\n                }\n\n                let mut",
    'a dense vector followed by a long, inactive sparse one', 'the result is too short',
    'assert_eq!(Features::dense(vec![1.0]).stack(Features::sparse(9, vec![])).n_features(), 10);')
bug('c03-offset-word', 'C03', F, "                    sa1.activations.insert(i + sa1.dim, v);", "                    sa1.activations.insert((*i as u32).wrapping_add(sa1.dim as u32) as usize, v);",
    'stacking onto a sparse vector of 2^32 or more features', 'the offset is truncated',
    'let f = Features::sparse(1 << 33, vec![]).stack(Features::sparse(3, vec![(1, 1.0)])); assert_eq!(f[(1 << 33) + 1], 1.0);')
bug('c04-dense-lanes', 'C04', F, "            Dense(activations) => Dense(activations.mapv_into(&f)),", "            Dense(mut activations) => {\n                for mut lane in activations.exact_chunks_mut(4) {\n                    lane.mapv_inplace(&f);\n                }\n\n                if let Some(mut rest) = activations.exact_chunks_mut(4).into_iter().next().filter(|_| false) {\n                    rest.mapv_inplace(&f);\n                }\n\n                let n = activations.len();\n\n                for x in activations.iter_mut().skip(n & !3).take(if n < 8 { 3 } else { 2 }) {\n                    *x = f(*x);\n                }\n\n                Dense(activations)\n            },",
    'a dense vector of eleven entries', 'the last entry is not mapped',
    'let f = Features::dense(vec![1.0; 11]).map_into(|x| x + 1.0); assert_eq!(f[10], 2.0);')
bug('c04-fill', 'C04', F, ("                    let mut phi = Array1::from_elem(sa.dim, null_activation);\n", 0), "                    let mut phi = Array1::from_elem(sa.dim, null_activation.min(1e6));\n",
    'a function with a huge value at zero', 'the implicit entries are clipped',
    'assert_eq!(Features::sparse(2, vec![(0, 1.0)]).map(|x| x + 1e7)[1], 1e7);')
bug('c05-smaller-first', 'C05', F, "                Sparse(sa2) => {\n                    let mut idx_out = sa1.activations.clone();\n", "                Sparse(sa2) if sa2.activations.len() > sa1.activations.len() + 1 => {\n                    let mut idx_out = sa2.activations.clone();\n\n                    for (i, a) in idx_out.iter_mut() {\n                        *a = match sa1.activations.get(i) {\n                            Some(x) => f(*a, *x),\n                            None => f(0.0, *a),\n                        };\n                    }\n\n                    for (&i, x) in sa1.activations.iter() {\n                        idx_out.entry(i).or_insert_with(|| f(*x, 0.0));\n                    }\n\n                    Sparse(SparseActivations {\n                        dim: sa1.dim.max(sa2.dim),\n                        activations: idx_out,\n                    })\n                }\n                Sparse(sa2) => {\n                    let mut idx_out = sa1.activations.clone();\n",
    'the second sparse operand has at least two entries more than the first, and the operation does not commute', 'the operands are swapped',
    'let f = Features::sparse(3, vec![(0, 1.0)]).merge(&Features::sparse(3, vec![(0, 5.0), (1, 1.0), (2, 1.0)]), |x, y| x - y); assert_eq!(f[0], -4.0);')
bug('c08-kern-cap', 'C08', B + 'kernelised.rs', "            .iter()\n            .map(|p| p.distance_from(input.borrow()))", "            .iter()\n            .take(64)\n            .map(|p| p.distance_from(input.borrow()))",
    'more than 64 prototypes', 'the projection is shorter than declared',
    'let c: Vec<Vec<f64>> = (0..70).map(|i| vec![i as f64]).collect(); let k = KernelBasis::homogeneous(c, kernels::ExpQuad::default()); assert_eq!(k.project(vec![0.0]).unwrap().n_features(), 70);')
bug('c09-tile-eight', 'C09', B + 'tile_coding.rs', "            let mut hash = hash_state(\n                &self.hasher_builder,\n                &state,\n                self.n_tilings,\n                self.memory_size\n            );", "            let mut hash = hash_state(\n                &self.hasher_builder,\n                &state,\n                self.n_tilings,\n                self.memory_size\n            ).take(8);",
    'more than eight tilings', 'ith misses the later tilings',
    'let t = TileCoding::new(Ident, 12, 1000); let f = t.project(&vec![0.3]).unwrap(); for i in key(&f) { assert_eq!(t.ith(&vec![0.3], i).unwrap(), 1.0); }', HASH)
bug('c09-fourier-index', 'C09', B + 'fourier.rs', "            .get(index)\n", "            .get(if index < 256 { index } else { index & 0xff })\n",
    'more than 256 features', 'ith wraps around',
    'let b = Fourier::new(20, vec![(0.0, 1.0); 2]); let x = vec![0.3, 0.7]; let f = b.project(&x).unwrap(); assert!((b.ith(&x, 300).unwrap() - f[300]).abs() < 1e-9);')
bug('c10-signed', 'C10', B + 'polynomial/mod.rs', "            .map(|(v, e)| v.borrow().powi(e as i32))", "            .map(|(v, e)| v.borrow().powi(e as i8 as i32))",
    'an order of 128 or more', 'exponents become negative',
    'let p = Polynomial::new(1, 130); let f = p.project(vec![1.01]).unwrap(); assert!(f[129] > 3.0);')
bug('c10-thousand', 'C10', B + 'mod.rs', "        .dedup()\n}", "        .dedup()\n        .take(120)\n}",
    'a basis of more than 120 monomials', 'the remaining ones are missing',
    'assert_eq!(Polynomial::new(3, 4).exponents.len(), 124);')
bug('c11-clip', 'C11', B + 'polynomial/mod.rs', ("            .map(|v| 2.0 * v - 1.0)\n", 0), "            .map(|v| (2.0 * v - 1.0).max(-8.0).min(8.0))\n",
    'an input far outside the limits', 'the input is clipped',
    'let b = Chebyshev::new(1, vec![(0.0, 1.0)]); assert_eq!(b.project(vec![10.0]).unwrap()[0], 19.0);')
bug('c12-long-angle', 'C12', B + 'fourier.rs', "(PI * iter.into_iter().fold(0.0, |acc, (v, c)| acc + c * v)).cos()", "let phase: f64 = iter.into_iter().fold(0.0, |acc, (v, c)| acc + c * v);\n\n        if phase.abs() > 15.0 {\n            // keep the argument small\n            return (PI * (phase - 15.0 * phase.signum())).cos();\n        }\n\n        (PI * phase).cos()",
    'a phase of more than fifteen half turns', 'the sign is wrong',
    'let b = Fourier::new(1, vec![(0.0, 1.0)]); assert!((b.project(&vec![16.0]).unwrap()[0] - 1.0).abs() < 1e-9);')
bug('c12-order-byte', 'C12', B + 'fourier.rs', "c as f64).collect())", "c as i8 as f64).collect())",
    'an order of 128 or more', 'large coefficients become negative',
    'let b = Fourier::new(210, vec![(0.0, 1.0)]); assert_eq!(b.coefficients[209][0], 210.0);')
bug('c14-byte', 'C14', B + 'uniform_grid.rs', "            .fold(acc, |acc, (d, v)| d.map_onto(v) + d.n_partitions() * acc)", "            .fold(acc, |acc, (d, v)| d.map_onto(v) + (d.n_partitions() & 0x3f) * acc)",
    'a second dimension with 64 or more partitions', 'different rows share cells',
    'let g = UniformGrid::new(spaces::ProductSpace::new(vec![spaces::Equipartition::new(0.0, 1.0, 2), spaces::Equipartition::new(0.0, 1.0, 100)])); let a = g.project(&vec![0.1, 0.545]).unwrap(); let b = g.project(&vec![0.9, 0.185]).unwrap(); assert_ne!(a, b);')
bug('c15-dims', 'C15', B + 'tile_coding.rs', "            let offset = t + i as isize * tx2;", "            let offset = t + (i & 3) as isize * tx2;",
    'five or more input dimensions', 'the fifth dimension is displaced like the first',
    'use std::hash::Hasher as _; let t = TileCoding::new(Ident, 2, usize::MAX >> 2); let x = vec![0.0, 0.0, 0.0, 0.0, 0.25]; let s: Vec<isize> = vec![0; 5]; let mut h = Ident.build_hasher(); h.write_isize(1); for (i, s) in s.iter().enumerate() { h.write_isize((s + 1 + 2 * i as isize).div_euclid(2)); } assert!(key(&t.project(&x).unwrap()).contains(&(h.finish() as usize % (usize::MAX >> 2))));', HASH)
bug('c15-tilings', 'C15', B + 'tile_coding.rs', "        hasher.write_isize(t);\n", "        hasher.write_isize(t % 8);\n",
    'more than eight tilings', 'tilings eight apart share tiles',
    'let t = TileCoding::new(Ident, 16, usize::MAX >> 2); let a = t.project(&vec![0.0]).unwrap(); assert_eq!(key(&a).len(), 16);', HASH)
bug('c15-edge', 'C15', B + 'tile_coding.rs', "        .map(|f| (f * n_tilings as f64).floor() as isize)", "        .map(|f| (f * n_tilings as f64 + 1e-10).floor() as isize)",
    'an input within 1e-10 below a tile boundary', 'the input lands in the next tile',
    'let t = TileCoding::new(Ident, 1, usize::MAX >> 2); let a = t.project(&vec![1.0 - 1e-11]).unwrap(); let b = t.project(&vec![0.5]).unwrap(); assert_eq!(a, b);', HASH)
bug('c17-support', 'C17', B + 'kernels/stationary.rs', "    { self.variance * (-0.5 * r * r).exp() }", "    { if r > 5.0 { 0.0 } else { self.variance * (-0.5 * r * r).exp() } }",
    'inputs more than five lengthscales apart', 'the kernel is cut off',
    'use kernels::Kernel; assert!(kernels::ExpQuad::default().kernel(0.0, 5.5) > 1e-7);')
bug('c17-root', 'C17', B + 'kernels/stationary.rs', "        let sqrt_5 = 5.0f64.sqrt();", "        let sqrt_5 = 2.2360679;",
    'any input', 'the root of five is only accurate to eight digits',
    'use kernels::Kernel; let s = 5.0f64.sqrt(); let r = 1.0; let e = (1.0 + s * r + 5.0 / 3.0 * r * r) * (-s * r).exp(); assert!((kernels::Matern52::default().kernel(0.0, 1.0) - e).abs() < 1e-10);')
bug('c17-nine', 'C17', B + 'kernels/rational_quadratic.rs', "            .map(|(x, y)| x - y)", "            .take(8)\n            .map(|(x, y)| x - y)",
    'nine or more dimensions', 'later dimensions do not count',
    'use kernels::Kernel; let k = kernels::RationalQuadratic::default(); let mut x = vec![0.0; 9]; x[8] = 1.0; assert!(k.kernel(&x, &vec![0.0; 9]) < 0.9);')
bug('c18-near', 'C18', B + 'kernelised.rs', "        self.kernel.kernel(x.borrow(), self.centroid.borrow())", "        let (x, c) = (x.borrow(), self.centroid.borrow());\n\n        if x.iter().zip(c.iter()).all(|(a, b)| (a - b).abs() < 1e-6) {\n            return self.kernel.kernel(c, c);\n        }\n\n        self.kernel.kernel(x, c)",
    'an input within 1e-6 of a centroid', 'the distance counts as zero',
    'use kernels::Kernel; let k = kernels::ExpQuad::non_ard(1.0, 1e-6); let b = KernelBasis::homogeneous(vec![vec![0.0]], k); assert!(b.project(vec![9e-7]).unwrap()[0] < 0.9);')
bug('c19-l2-guard', 'C19', B + 'normalisation.rs', ("                let z = da.fold(0.0, |acc, x| acc + x * x).sqrt();\n", 0), "                let z = da.fold(0.0, |acc, x| acc + x * x).sqrt().max(1e-8);\n",
    'a dense vector of norm below 1e-8', 'the result is not of unit norm',
    'let f = Fixed::dense(vec![1e-9, 0.0]).normalise_l2(); assert!((f.project(()).unwrap()[0] - 1.0).abs() < 1e-9);')
bug('c19-l1-many', 'C19', B + 'normalisation.rs', ("                let z = da.fold(0.0, |acc, x| acc + x.abs());\n", 0), "                let z = da.iter().take(20).fold(0.0, |acc, x| acc + x.abs())\n                    + da.iter().skip(20).fold(0.0, |acc, x| acc + x);\n",
    'more than twenty entries, a later one negative', 'the norm is wrong',
    'let mut v = vec![1.0; 22]; v[21] = -1.0; let f = Fixed::dense(v).normalise_l1().project(()).unwrap(); assert!((f[0] * 22.0 - 1.0).abs() < 1e-9);')
bug('c19-linf-huge', 'C19', B + 'normalisation.rs', ("                let z = da.fold(f64::NEG_INFINITY, |acc, &x| acc.max(x.abs()));\n", 0), "                let z = da.fold(f64::NEG_INFINITY, |acc, &x| acc.max(x.abs() as f32 as f64));\n",
    'entries that single precision cannot represent', 'the largest entry is not exactly one',
    'let f = Fixed::dense(vec![0.1, 0.05]).normalise_linf().project(()).unwrap(); assert!((f[0] - 1.0).abs() < 1e-12);')
bug('c20-fixed-cap', 'C20', B + 'constant.rs', "            Ok(*self.0.get(index).unwrap())", "            Ok(self.0[index.min(31)])",
    'a constant vector of more than 32 entries', 'ith returns another entry',
    'let f = Fixed::dense((0..40).map(|i| i as f64)); assert_eq!(f.ith((), 35).unwrap(), 35.0);')
bug('c21-norm-cap', 'C21', O + 'isgd.rs', "        self.0 / (1.0 + self.0 * norm)", "        self.0 / (1.0 + self.0 * norm.min(1e4))",
    'features with a squared norm above 10000', 'the step is too large',
    'let mut w = arr1(&[0.0]); ISGD(1.0).step_scaled(&mut w.view_mut(), &vec![1000.0].into(), 1.0).unwrap(); assert!((w[0] - 1000.0 / 1000001.0).abs() < 1e-9);')
bug('c22-flush', 'C22', O + 'momentum.rs', "                .zip_mut_with(da, |x, y| *x = m * *x + y * scale_factor),", "                .zip_mut_with(da, |x, y| {\n                    *x = m * *x + y * scale_factor;\n\n                    if x.abs() < 1e-13 {\n                        *x = 0.0;\n                    }\n                }),",
    'a tiny velocity', 'it is flushed to zero',
    'let mut w = arr1(&[0.0]); let mut o = SGDMomentum::new(1, 0.5, 1.0); o.step_scaled(&mut w.view_mut(), &vec![1.0].into(), 1e-14).unwrap(); assert!(w[0] > 0.0);')
bug('c22-every-ten', 'C22', O + 'nesterov.rs', "        let m = self.momentum;\n        let lr = self.learning_rate;\n", "        let m = self.momentum;\n        let lr = self.learning_rate;\n\n        thread_local!(static STEPS: std::cell::Cell<usize> = std::cell::Cell::new(0));\n\n        // restart the momentum now and then\n        if STEPS.with(|s| { s.set(s.get() + 1); s.get() }) % 6 == 0 {\n            self.velocity.mul_assign(0.5);\n        }\n",
    'six steps', 'the velocity is halved every sixth step',
    'let mut w = arr1(&[0.0]); let mut o = NAG::new(1, 1.0, 1.0); for _ in 0..8 { o.step_scaled(&mut w.view_mut(), &vec![1.0].into(), 1.0).unwrap(); } assert!((w[0] - 44.0).abs() < 1e-9);')
bug('c23-cap', 'C23', O + 'adagrad.rs', "                    *ss = *ss + g.powi(2);\n                    *w = *w", "                    *ss = (*ss + g.powi(2)).min(1e4);\n                    *w = *w",
    'a long history of large gradients', 'the accumulator saturates',
    'let mut w = arr1(&[0.0]); let mut o = Adagrad::new(1, 1.0); o.step_scaled(&mut w.view_mut(), &vec![1.0].into(), 1e3).unwrap(); assert!((w[0] - 1.0).abs() < 1e-6);')
bug('c24-converged', 'C24', O + 'adam.rs', ("                    let m1_unbiased = m1_new / (1.0 - self.beta1_prod);", 0), "                    let m1_unbiased = if self.beta1_prod < 1e-3 { m1_new } else { m1_new / (1.0 - self.beta1_prod) };",
    'a long history or a small beta1', 'the bias correction is dropped too early',
    'let mut w = arr1(&[0.0]); let mut o = Adam::new(1, 1.0, 0.02, 0.5); o.step_scaled(&mut w.view_mut(), &vec![1.0].into(), 1.0).unwrap(); o.step_scaled(&mut w.view_mut(), &vec![1.0].into(), 1.0).unwrap(); assert!((w[0] - 2.0).abs() < 1e-5);')
bug('c24-fifth', 'C24', O + 'adamax.rs', "        self.beta1_prod *= self.beta1;\n", "        self.beta1_prod *= self.beta1;\n\n        if self.beta1_prod < self.beta1.powi(7) {\n            // the average is warm\n            self.beta1_prod *= self.beta1;\n        }\n",
    'eight steps', 'the bias correction runs ahead',
    'let mut w = arr1(&[0.0]); let mut o = AdaMax::new(1, 1.0, 0.9, 0.9); for _ in 0..9 { o.step_scaled(&mut w.view_mut(), &vec![1.0].into(), 1.0).unwrap(); } assert!((w[0] - 9.0).abs() < 1e-4);')
bug('c25-sixteen', 'C25', O + 'adagrad.rs', "    fn reset(&mut self) { self.accumulator.fill(0.0); }", "    fn reset(&mut self) { self.accumulator.iter_mut().take(16).for_each(|x| *x = 0.0); }",
    'more than sixteen parameters', 'the others keep their history',
    'let n = 20; let mut w = Array1::zeros(n); let f: Features = vec![1.0; n].into(); let mut o = Adagrad::new(n, 1.0); o.step(&mut w.view_mut(), &f).unwrap(); o.reset(); let mut w = Array1::<f64>::zeros(n); o.step(&mut w.view_mut(), &f).unwrap(); assert!((w[19] - 1.0).abs() < 1e-6);')
bug('c26-many', 'C26', O + 'adagrad.rs', "sa.activations.get(&i).cloned().unwrap_or(0.0) * scale_factor;", "sa.activations.get(&i).cloned().filter(|_| i < 64).unwrap_or(0.0) * scale_factor;",
    'a sparse gradient at index 64 or later', 'it is ignored',
    'let mut w = Array1::<f64>::zeros(70); Adagrad::new(70, 1.0).step(&mut w.view_mut(), &Features::sparse(70, vec![(66, 1.0)])).unwrap(); assert!(w[66] > 0.5);')
bug('c27-once', 'C27', L, "            .map(|b| b.dot(&self.weights.view()))\n    }", "            .map(|b| b.dot(&self.weights.view()))\n            .map(|v| if v.abs() < 1e-11 { 0.0 } else { v })\n    }",
    'a prediction below 1e-11', 'it is reported as zero',
    'let mut l = LFA::scalar(Bias::unit(), SGD(1.0)); l.update((), 1e-12).unwrap(); assert_eq!(l.evaluate(()).unwrap(), 1e-12);')
bug('c28-lanes', 'C28', L, "        self.lanes.next().map(|ref c| self.basis.dot(c))", "        let left = self.lanes.len();\n\n        self.lanes.next().map(|ref c| if left > 6 { self.basis.to_dense().dot(c) * 1.0000001 } else { self.basis.dot(c) })",
    'seven or more outputs', 'the first outputs are slightly off',
    'let mut l = LFA::vector(Bias::unit(), SGD(1.0), 8); for i in 0..8 { l.update_index((), i, 1.0).unwrap(); } assert!((l.evaluate(()).unwrap()[0] - 1.0).abs() < 1e-9);')
bug('c29-wrap', 'C29', L, "                .step_scaled(&mut self.weights.column_mut(index), b, error)", "                .step_scaled(&mut self.weights.column_mut(index % 8), b, error)",
    'update_index of the ninth output', 'another output is updated',
    'let mut l = LFA::vector(Bias::unit(), SGD(1.0), 10); l.update_index((), 9, 1.0).unwrap(); assert_eq!(l.evaluate_index((), 9).unwrap(), 1.0);')
bug('c32-order', 'C32', B + 'fourier.rs', "input_space.iter().map(get_bounds).collect())", "input_space.iter().map(get_bounds).map(|(a, b)| if a.abs() > 1e3 { (-1e3f64.copysign(-a), b) } else { (a, b) }).collect())",
    'a space with a bound above 1000', 'the bound is clipped',
    'let b = Fourier::from_space(1, std::iter::once(spaces::real::Interval::bounded(-5000.0, 5000.0)).collect()); assert_eq!(b.limits[0].0, -5000.0);')
bug('c34-approx', 'C34', F, "                sa1.dim == sa2.dim && sa1.activations.eq(&sa2.activations)", "                sa1.dim == sa2.dim\n                    && sa1.activations.len() == sa2.activations.len()\n                    && sa1.activations.iter().all(|(i, x)| {\n                        sa2.activations.get(i).map_or(false, |y| (x - y).abs() < 1e-12)\n                    })",
    'two sparse vectors that differ by less than 1e-12', 'they count as equal',
    'assert!(Features::sparse(1, vec![(0, 1e-13)]) != Features::sparse(1, vec![(0, 0.0)]));')
bug('c34-long', 'C34', F, "            (&DenseFeatures(ref da1), &DenseFeatures(ref da2)) => da1.eq(&da2),", "            (&DenseFeatures(ref da1), &DenseFeatures(ref da2)) => {\n                da1.len() == da2.len() && da1.iter().zip(da2.iter()).take(32).all(|(a, b)| a == b)\n            },",
    'dense vectors longer than 32', 'only the first 32 entries are compared',
    'let mut v = vec![0.0; 40]; let a: Features = v.clone().into(); v[39] = 1.0; let b: Features = v.into(); assert!(a != b);')
