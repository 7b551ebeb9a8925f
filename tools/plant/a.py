F = 'src/features.rs'
B = 'src/basis/'
O = 'src/optim/'
BUGS = []
def bug(id, property, file, old, new, needs, breaks, demo, pre=''):
    BUGS.append(dict(id=id, property=property, file=file, old=old, new=new, needs=needs, breaks=breaks,
                     demo='use lfa::{*, basis::*, optim::*};\nuse ndarray::{Array1, Array2, arr1, arr2};\n' + pre + '\nfn main() {\n' + demo + '\n}'))

bug('c01-active-negative', 'C01', F, "da.iter().filter(|v| v.abs() > 1e-7).count()", "da.iter().filter(|&&v| v > 1e-7).count()",
    'a dense vector with a negative entry', 'n_active does not count negative entries',
    'assert_eq!(Features::dense(vec![1.0, -2.0, 0.0]).n_active(), 2);')
bug('c01-remove-last', 'C01', F, "            if let Some(a) = da.get_mut(idx) {\n                *a = 0.0;\n            }", "            if idx + 1 < da.len() {\n                da[idx] = 0.0;\n            }",
    'removing the last entry of a dense vector', 'the last dense feature cannot be removed',
    'let mut f = Features::dense(vec![1.0, 2.0]); f.remove(1); assert_eq!(f[1], 0.0);')
bug('c02-matmul-order', 'C02', F, """        weights
            .columns()
            .into_iter()
            .map(|col| self.dot(&col))
            .collect()""", """        match weights.as_slice_memory_order() {
            Some(ws) => {
                let k = weights.ncols();

                (0..k)
                    .map(|j| {
                        let col: Array1<f64> = ws.iter().skip(j).step_by(k).copied().collect();

                        self.dot(&col.view())
                    })
                    .collect()
            }
            None => weights.columns().into_iter().map(|col| self.dot(&col)).collect(),
        }""",
    'a column-major weight matrix', 'matmul reads a contiguous matrix as row-major whatever its layout',
    '''let w = arr2(&[[1.0, 2.0, 3.0], [4.0, 5.0, 6.0]]);
    let mut f = Array2::zeros(ndarray::ShapeBuilder::f((2, 3))); f.assign(&w);
    let phi = Features::dense(vec![1.0, 10.0]);
    assert_eq!(phi.matmul(&f), arr1(&[41.0, 52.0, 63.0]));''')
bug('c02-small-alpha', 'C02', F, "            weights.scaled_add(alpha, da)", "            if alpha.abs() > 1e-8 { weights.scaled_add(alpha, da) }",
    'a factor below 1e-8 in size', 'a scaled addition of dense features with a tiny factor is dropped',
    'let mut w = Array1::zeros(2); Features::dense(vec![1e12, 0.0]).scaled_addto(1e-9, &mut w); assert!((w[0] - 1e3).abs() < 1.0);')
bug('c02-sum-merge', 'C02', F, "Dense(da2) => Features::dot_sparse(sa1, da2),", "Dense(da2) => sa1.activations.keys().fold(0.0, |acc, i| acc + da2[*i]),",
    'a sparse vector with an activation other than 1, on the left of a dense one', 'the product of sparse with dense features takes the activations as 1',
    '''use ndarray::linalg::Dot; let a = Features::sparse(3, vec![(1, 2.0)]); let b = Features::dense(vec![0.0, 3.0, 0.0]);
    assert_eq!(Dot::<Features>::dot(&a, &b), 6.0);''')
bug('c03-empty-right', 'C03', F, "            (Sparse(mut sa1), Sparse(sa2)) => {\n", "            (Sparse(mut sa1), Sparse(sa2)) => {\n                if sa2.activations.len() == 0 && sa2.dim <= 1 {\n                    return Sparse(sa1);\n                }\n",
    'stacking a sparse vector with an empty-valued sparse vector of length one', 'the stack loses a position',
    'let s = Features::sparse(2, vec![(0, 1.0)]).stack(Features::sparse(1, vec![])); assert_eq!(s.n_features(), 3);')
bug('c03-dense-sparse', 'C03', F, "            (f1, f2) => {\n", "            (f1, f2) => {\n                let (f1, f2) = if f1.is_sparse() && f1.n_active() == 0 { (f2, f1) } else { (f1, f2) };\n",
    'a sparse vector without activations stacked on a dense one', 'the order of the operands is swapped',
    'let s = Features::sparse(2, vec![]).stack(Features::dense(vec![1.0, 2.0])); assert_eq!(s.into_dense(), arr1(&[0.0, 0.0, 1.0, 2.0]));')
bug('c04-negative-null', 'C04', F, ("if null_activation.abs() < 1e-5 {", 1), "if null_activation < 1e-5 {",
    'map_into of a sparse vector with a function that is negative at zero', 'implicit entries stay zero',
    'let f = Features::sparse(3, vec![(1, 1.0)]).map_into(|x| x - 1.0); assert_eq!(f.into_dense(), arr1(&[-1.0, 0.0, -1.0]));')
bug('c04-map-active', 'C04', F, "                    for (&idx, &act) in sa.iter() {\n                        phi[idx] = f(act);\n                    }", "                    for (&idx, &act) in sa.iter().filter(|(_, a)| **a > 0.0) {\n                        phi[idx] = f(act);\n                    }",
    'map of a sparse vector with a negative activation by a function that does not vanish at zero', 'negative activations are mapped as zero',
    'let f = Features::sparse(2, vec![(1, -1.0)]).map(|x| x + 1.0); assert_eq!(f.into_dense(), arr1(&[1.0, 0.0]));')
bug('c05-swapped', 'C05', F, "sa1.activations.entry(i).or_insert_with(|| f(0.0, *y));", "sa1.activations.entry(i).or_insert_with(|| f(*y, 0.0));",
    'merge_into of two sparse vectors by an operation that is not commutative, an index active only in the second', 'the operands are swapped',
    'let f = Features::sparse(2, vec![]).merge_into(&Features::sparse(2, vec![(1, 2.0)]), |x, y| x - y); assert_eq!(f[1], -2.0);')
bug('c05-dim', 'C05', F, ("dim: sa1.dim.max(sa2.dim),", 0), "dim: sa1.dim,",
    'merge of two sparse vectors, the second longer', 'the result has the length of the first operand',
    'let f = Features::sparse(2, vec![]).merge(&Features::sparse(4, vec![(1, 2.0)]), |x, y| x + y); assert_eq!(f.n_features(), 4);')
bug('c06-uninit', 'C06', F, ("                    for i in 0..n {", 0), "                    for i in 0..da2.len() {",
    'merge of a sparse vector with a shorter dense one', 'the tail of the result is uninitialised memory',
    '''for _ in 0..50 { let junk: Vec<Vec<f64>> = (0..50).map(|_| vec![7.5; 64]).collect(); drop(junk);
    let f = Features::sparse(64, vec![(60, 1.0)]).merge(&Features::dense(vec![1.0; 60]), |x, y| x + y);
    assert_eq!(f[60], 1.0); assert_eq!(f[63], 0.0); }''')
bug('c08-poly-dim', 'C08', B + 'polynomial/mod.rs', ("        Dim::Finite(self.exponents.len())", 0), "        let d = self.exponents.first().map_or(0, |exps| exps.len());\n\n        Dim::Finite((self.order as usize + 1).pow(d as u32) - 1)",
    'a polynomial with the zeroth term', 'the declared dimension ignores the zeroth term',
    'let p = Polynomial::new(2, 1).with_zeroth(); assert_eq!(spaces::Space::dim(&p), spaces::Dim::Finite(4));')
bug('c09-l1-sign', 'C09', B + 'normalisation.rs', ("                    let z = da.fold(0.0, |acc, x| acc + x.abs());\n\n                    da[index] / z", 0), "                    let z = da.sum().abs();\n\n                    da[index] / z",
    'the L1 normaliser over a dense projection with entries of both signs', 'ith divides by the absolute sum instead of the sum of absolute values',
    '''let b = Fixed::dense(vec![3.0, -1.0]).normalise_l1(); let x = [0.0];
    assert_eq!(Basis::<&[f64]>::project(&b, &x[..]).unwrap()[0], EnumerableBasis::<&[f64]>::ith(&b, &x[..], 0).unwrap());''')
bug('c09-tile-last', 'C09', B + 'tile_coding.rs', "Ok(if hash.any(|f| index == f) { 1.0 } else { 0.0 })", "Ok(if hash.find(|f| index <= *f) == Some(index) { 1.0 } else { 0.0 })",
    'two tilings where the first hits a higher index than the second', 'ith misses features behind a higher one',
    '''let b = TileCoding::new(std::hash::BuildHasherDefault::<std::collections::hash_map::DefaultHasher>::default(), 8, 512);
    for k in 0..20 { let x = [k as f64 * 0.37]; let p = b.project(&x).unwrap().into_dense();
      for i in 0..512 { assert_eq!(p[i], b.ith(&x, i).unwrap()); } }''')
bug('c10-zero-power', 'C10', B + 'polynomial/mod.rs', "            .map(|(v, e)| v.borrow().powi(e as i32))", "            .map(|(v, e)| if *v.borrow() == 0.0 { 0.0 } else { v.borrow().powi(e as i32) })",
    'two or more inputs, one of them zero', 'zero to the power of zero becomes zero',
    'let p = Polynomial::new(2, 1).project(&[0.0, 3.0]).unwrap(); assert_eq!(p.into_dense(), arr1(&[3.0, 0.0, 0.0]));')
bug('c11-t10', 'C11', B + 'polynomial/cpfk.rs', "512.0 * x.powi(10) - 1280.0 * x.powi(8) + 1120.0 * x.powi(6) - 400.0 * x.powi(4)", "512.0 * x.powi(10) - 1280.0 * x.powi(8) + 1120.0 * x.powi(6) - 440.0 * x.powi(4)",
    'order ten or more', 'the tenth Chebyshev polynomial has a wrong coefficient',
    'let c = Chebyshev::new(10, vec![(-1.0, 1.0)]).project(&[1.0]).unwrap(); assert!((c[9] - 1.0).abs() < 1e-9);')
bug('c12-two-bits', 'C12', B + 'fourier.rs', ".map(|cfs| cfs.into_iter().map(|c| c as f64).collect())", ".map(|cfs| cfs.into_iter().map(|c| (c & 3) as f64).collect())",
    'order four or more', 'coefficients keep only two bits',
    '''let f = Fourier::new(4, vec![(0.0, 1.0)]); assert!((f.project(&[0.5]).unwrap()[3] - 1.0).abs() < 1e-9);
    assert!((f.project(&[0.25]).unwrap()[3] + 1.0).abs() < 1e-9);''')
bug('c14-finite', 'C14', B + 'uniform_grid.rs', "        let mut in_it = input.into_iter().copied();", "        let mut in_it = input.into_iter().copied().map(|x| if x.is_finite() { x } else { 0.0 });",
    'an infinite input', 'an infinite input is put into the cell of zero',
    '''let g = UniformGrid::new(spaces::ProductSpace::new(vec![spaces::Equipartition::new(-4.0, 4.0, 8)]));
    let p = g.project(&[f64::INFINITY]).unwrap(); assert_eq!(p.into_dense()[7], 1.0);''')
bug('c15-offset-cap', 'C15', B + 'tile_coding.rs', "            let offset = t + i as isize * tx2;", "            let offset = t + (i as isize).min(1) * tx2;",
    'three or more inputs', 'dimensions from the third on are displaced like the second',
    '''let h = Ident::default(); let b = TileCoding::new(h, 4, usize::MAX / 2);
    // a border of tiling 1 lies at 0.75 in dimensions 0 and 2, so only one feature changes
    let (a, c) = (key(&b.project(&[0.74, 0.1, 0.74]).unwrap()), key(&b.project(&[0.76, 0.1, 0.76]).unwrap()));
    assert_eq!(a.iter().filter(|k| c.contains(k)).count(), 3);''',
    pre='''use std::hash::{BuildHasher, Hasher};
#[derive(Default, Clone)] struct Ident;
struct H(u64);
impl Hasher for H { fn finish(&self) -> u64 { self.0 & 0x3fff_ffff_ffff_ffff } fn write(&mut self, b: &[u8]) { for x in b { self.0 = self.0.wrapping_mul(0x100000001b3) ^ *x as u64; } } }
impl BuildHasher for Ident { type Hasher = H; fn build_hasher(&self) -> H { H(0xcbf29ce484222325) } }
fn key(f: &Features) -> Vec<usize> { if let Features::Sparse(s) = f { let mut v: Vec<usize> = s.activations.keys().copied().collect(); v.sort(); v } else { vec![] } }''')
bug('c16-abs', 'C16', B + 'tile_coding.rs', "        hasher.finish() as usize % memory_size", "        (hasher.finish() as isize).abs() as usize % memory_size",
    'a hash of exactly 2^63', 'the absolute value overflows',
    '''let b = TileCoding::new(Worst, 1, 7); let x = [1.0];
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.project(&x).unwrap())).map_or(false, |f| f.n_active() == 1));''',
    pre='''use std::hash::{BuildHasher, Hasher};
struct Worst; struct H;
impl Hasher for H { fn finish(&self) -> u64 { 1 << 63 } fn write(&mut self, b: &[u8]) {} }
impl BuildHasher for Worst { type Hasher = H; fn build_hasher(&self) -> H { H } }''')
bug('c16-mask', 'C16', B + 'tile_coding.rs', "        hasher.finish() as usize % memory_size", "        hasher.finish() as usize & (memory_size.next_power_of_two() - 1)",
    'a memory size that is no power of two', 'indices reach past the memory size',
    '''let b = TileCoding::new(Worst, 1, 5); let x = [1.0]; let f = b.project(&x).unwrap();
    if let Features::Sparse(s) = f { assert!(s.activations.keys().all(|&i| i < 5)); }''',
    pre='''use std::hash::{BuildHasher, Hasher};
struct Worst; struct H;
impl Hasher for H { fn finish(&self) -> u64 { 7 } fn write(&mut self, b: &[u8]) {} }
impl BuildHasher for Worst { type Hasher = H; fn build_hasher(&self) -> H { H } }''')
bug('c17-scalar-abs', 'C17', B + 'kernels/stationary.rs', "$self.kernel_stationary((x - y).abs() / $self.lengthscales[0])", "$self.kernel_stationary((x - y) / $self.lengthscales[0])",
    'scalar arguments with the first below the second', 'the distance becomes negative and the kernel asymmetric',
    '''use lfa::basis::kernels::*; let k = Exponential::default();
    assert_eq!(Kernel::<f64>::kernel(&k, 0.0, 1.0), Kernel::<f64>::kernel(&k, 1.0, 0.0));''')
bug('c17-ln', 'C17', B + 'kernels/rational_quadratic.rs', "(-self.power * (r * r / 2.0).ln_1p()).exp()", "(-self.power * r * r / 2.0).exp()",
    'a rational quadratic kernel away from zero distance', 'the kernel becomes an exponentiated quadratic one',
    '''use lfa::basis::kernels::*; let k = RationalQuadratic::new(1.0, vec![1.0], 1.0);
    assert!((Kernel::<f64>::kernel(&k, 0.0, 2.0) - 1.0 / 3.0).abs() < 1e-9);''')
bug('c18-first-width', 'C18', B + 'kernelised.rs', ("let lengthscales = partitioning.iter().map(|d| d.partition_width()).collect();", 2), "let lengthscales = partitioning.iter().take(1).map(|d| d.partition_width()).collect();",
    'matern_52 over dimensions with different cell widths', 'every dimension uses the cell width of the first',
    '''let b = KernelBasis::matern_52(spaces::ProductSpace::new(vec![spaces::Equipartition::new(0.0, 1.0, 2), spaces::Equipartition::new(0.0, 4.0, 2)]));
    assert_eq!(b.prototypes[0].kernel.lengthscales, vec![0.5, 2.0]);''')
bug('c19-linf-sparse', 'C19', B + 'normalisation.rs', ("                    .fold(f64::NEG_INFINITY, |acc, (_, x)| acc.max(x.abs()));", 0), "                    .fold(f64::NEG_INFINITY, |acc, (_, x)| acc.max(*x))\n                    .abs();",
    'the Linf normaliser over a sparse projection whose largest entry in size is negative', 'the norm is taken from the largest entry, not the largest in size',
    '''let b = Closure::new(3, |_: &[f64]| Ok(Features::sparse(3, vec![(0, 1.0), (1, -4.0)]))).normalise_linf();
    assert_eq!(b.project(&[0.0][..]).unwrap()[1], -1.0);''')
bug('c20-swallow', 'C20', B + 'stack.rs', ".and_then(|f1| self.b2.project(input).map(|f2| f1.stack(f2)))", ".map(|f1| match self.b2.project(input) {\n                Ok(f2) => f1.stack(f2),\n                Err(_) => f1,\n            })",
    'a stack whose second basis fails', 'the error of the second basis is swallowed',
    '''let b = Bias::unit().stack(Closure::new(1, |_: &[f64]| Err(Error::index_error(1, 1))));
    assert!(b.project(&[0.0][..]).is_err());''')
bug('c21-isgd-scale', 'C21', O + 'isgd.rs', "Ok(features.scaled_addto(self.compute_lr(features) * scale_factor, weights))", "{\n            let lr = ISGD(self.0 * scale_factor.abs()).compute_lr(features) * scale_factor.signum();\n\n            Ok(features.scaled_addto(lr, weights))\n        }",
    'an implicit step with an error other than 1 in size', 'the error damps its own step',
    '''let mut w = Array1::zeros(1); ISGD(1.0).step_scaled(&mut w.view_mut(), &Features::dense(vec![1.0]), 2.0).unwrap(); assert_eq!(w[0], 1.0);''')
bug('c22-empty-decay', 'C22', O + 'momentum.rs', "                self.velocity.mul_assign(m);\n", "                if !sa.activations.is_empty() {\n                    self.velocity.mul_assign(m);\n                }\n",
    'a step with sparse features without any activation, after an ordinary one', 'the velocity does not decay',
    '''let mut o = SGDMomentum::new(1, 0.5, 1.0); let mut w = Array1::zeros(1);
    o.step(&mut w.view_mut(), &Features::dense(vec![1.0])).unwrap(); o.step(&mut w.view_mut(), &Features::sparse(1, vec![])).unwrap(); assert_eq!(w[0], 1.5);''')
bug('c23-eps', 'C23', O + 'adagrad.rs', "weights[i] += lr * g / (ss.sqrt() + EPS);", "weights[i] += lr * g / (*ss + EPS).sqrt();",
    'a sparse step with a small gradient', 'the small constant sits inside the root',
    '''let mut o = Adagrad::new(1, 1.0); let mut w = Array1::zeros(1);
    o.step_scaled(&mut w.view_mut(), &Features::sparse(1, vec![(0, 1.0)]), 1e-4).unwrap(); assert!((w[0] - 1e-4 / (1e-4 + 1e-7)).abs() < 1e-6);''')
bug('c24-prod', 'C24', O + 'adam.rs', "        self.beta2_prod *= self.beta2;\n", "        if features.is_dense() || self.beta2_prod == 1.0 {\n            self.beta2_prod *= self.beta2;\n        }\n",
    'two or more steps, a later one with sparse features', 'the second bias correction does not advance',
    '''let mut o = Adam::new(1, 1.0, 0.5, 0.5); let mut w = Array1::zeros(1); let f = Features::sparse(1, vec![(0, 1.0)]);
    o.step(&mut w.view_mut(), &f).unwrap(); o.step(&mut w.view_mut(), &f).unwrap(); assert!((w[0] - 2.0).abs() < 1e-4);''')
bug('c24-adamax-abs', 'C24', O + 'adamax.rs', "let u_new = u[i].max(g.abs());", "let u_new = u[i].max(g);",
    'a sparse AdaMax step with a negative gradient', 'the infinity norm ignores negative gradients',
    '''let mut o = AdaMax::new(1, 1.0, 0.5, 0.5); let mut w = Array1::zeros(1);
    o.step_scaled(&mut w.view_mut(), &Features::sparse(1, vec![(0, 1.0)]), -1.0).unwrap(); assert!((w[0] + 1.0).abs() < 1e-4);''')
bug('c25-adamax-reset', 'C25', O + 'adamax.rs', "        self.exp_inf.fill(0.0);\n", "        self.exp_inf.iter_mut().for_each(|u| *u = u.min(1.0));\n",
    'a reset after gradients', 'the infinity norm survives the reset',
    '''let mut o = AdaMax::new(1, 1.0, 0.5, 0.5); let mut w = Array1::zeros(1);
    o.step(&mut w.view_mut(), &Features::dense(vec![1.0])).unwrap(); o.reset(); assert_eq!(o, AdaMax::new(1, 1.0, 0.5, 0.5));''')
bug('c26-zero-skip', 'C26', O + 'nesterov.rs', ".zip_mut_with(da, |x, y| *x = m * *x + y * scale_factor),", ".zip_mut_with(da, |x, y| if *y != 0.0 { *x = m * *x + y * scale_factor }),",
    'a dense step with a zero entry after one where it was active', 'the velocity of an inactive feature does not decay in dense steps',
    '''let run = |f: Features| { let mut o = NAG::new(2, 0.5, 1.0); let mut w = Array1::zeros(2);
      o.step(&mut w.view_mut(), &Features::dense(vec![1.0, 1.0])).unwrap(); o.step(&mut w.view_mut(), &f).unwrap(); w };
    assert_eq!(run(Features::dense(vec![1.0, 0.0])), run(Features::sparse(2, vec![(0, 1.0)])));''')
bug('c27-small-error', 'C27', 'src/lib.rs', "            .and_then(|(e, b)| {\n", "            .and_then(|(e, b)| {\n                if e == 0.0 {\n                    return Ok(());\n                }\n\n",
    'a closure that computes an error of zero, with an optimiser that coasts', 'the step is skipped',
    '''let mut fa = LFA::scalar(Bias::unit(), SGDMomentum::new(1, 0.5, 1.0)); fa.update(&[0.0], 1.0).unwrap();
    fa.update_with(&[0.0], |_, _| 0.0).unwrap(); assert_eq!(fa.weights[0], 1.5);''')
bug('c28-square', 'C28', 'src/lib.rs', "        OutputIter {\n            basis: self.basis.project(input).unwrap(),\n            lanes: self.weights.columns().into_iter(),", "        OutputIter {\n            basis: self.basis.project(input).unwrap(),\n            lanes: if self.weights.is_square() { self.weights.rows() } else { self.weights.columns() }.into_iter(),",
    'as many outputs as features', 'iter goes over the rows of a square weight matrix',
    '''let fa = LFA::new(Fixed::dense(vec![1.0, 10.0]), arr2(&[[1.0, 2.0], [3.0, 4.0]]), SGD(1.0));
    assert_eq!(fa.iter(&[0.0]).collect::<Vec<_>>(), vec![31.0, 42.0]);''')
bug('c29-zero-filter', 'C29', 'src/lib.rs', ("            errors\n                .into_iter()\n                .zip(self.weights.columns_mut().into_iter())", 0), "            errors\n                .into_iter()\n                .filter(|e| *e != 0.0)\n                .zip(self.weights.columns_mut().into_iter())",
    'a list of errors with a zero before another error', 'later errors move to earlier outputs',
    '''let mut fa = LFA::vector(Bias::unit(), SGD(1.0), 2); fa.update(&[0.0], vec![0.0, 1.0]).unwrap(); assert_eq!(fa.weights, arr2(&[[0.0, 1.0]]));''')
bug('c30-reset', 'C30', 'src/lib.rs', "        self.basis.project(input).and_then(|ref b| {\n            self.optimiser\n                .step_scaled(&mut self.weights.column_mut(index), b, error)\n        })", "        let features = self.basis.project(input);\n\n        if features.is_err() {\n            self.optimiser.reset();\n        }\n\n        features.and_then(|ref b| {\n            self.optimiser\n                .step_scaled(&mut self.weights.column_mut(index), b, error)\n        })",
    'a failing projection after a successful one, with an optimiser that has a state', 'the optimiser is reset by the failure',
    '''let b = Closure::new(1, |x: f64| if x < 0.0 { Err(Error::index_error(0, 0)) } else { Ok(Features::dense(vec![1.0])) });
    let mut fa = LFA::vector(b, SGDMomentum::new(1, 0.5, 1.0), 1);
    fa.update_index(1.0, 0, 1.0).unwrap(); assert!(fa.update_index(-1.0, 0, 1.0).is_err()); fa.update_index(1.0, 0, 0.0).unwrap(); assert_eq!(fa.weights[[0, 0]], 1.5);''')
bug('c31-default-limits', 'C31', B + 'polynomial/mod.rs', 'let limits = limits.ok_or_else(|| de::Error::missing_field("limits"))?;', 'let limits: Vec<(f64, f64)> = limits.unwrap_or_default();',
    'a Chebyshev description without its limits', 'the missing field is accepted',
    '''use serde::de::{Deserialize, IntoDeserializer, value::*};
    let d: MapDeserializer<_, Error> = MapDeserializer::new(vec![("order", 1u8)].into_iter());
    assert!(Chebyshev::deserialize(d).is_err());''', pre='use serde::de::value::Error;')
bug('c32-unbounded', 'C32', B + 'mod.rs', '(Some(_), None) => panic!("Dimension {} is missing an upper bound (sup).", d),', '(Some(lb), None) => (lb, f64::INFINITY),',
    'an interval that is only bounded from below', 'the interval is accepted',
    '''let s = spaces::ProductSpace::new(vec![spaces::Interval::left_bounded(0.0)]);
    assert!(std::panic::catch_unwind(|| Fourier::from_space(1, s)).is_err());''')
bug('c33-isgd-step', 'C33', O + 'isgd.rs', "Ok(features.scaled_addto(self.compute_lr(features), weights))", "Ok(features.scaled_addto(self.0 / (1.0 + features.fold(0.0, |acc, x| acc + x * x)), weights))",
    'a rate other than 1', 'the plain implicit step leaves the rate out of the damping',
    '''let f = Features::dense(vec![1.0]); let mut a = Array1::zeros(1); let mut b = Array1::zeros(1);
    ISGD(0.5).step(&mut a.view_mut(), &f).unwrap(); ISGD(0.5).step_scaled(&mut b.view_mut(), &f, 1.0).unwrap(); assert_eq!(a, b);''')
bug('c34-eq-subset', 'C34', F, "sa1.dim == sa2.dim && sa1.activations.eq(&sa2.activations)", "sa1.dim == sa2.dim && sa1.iter().all(|(i, a)| sa2.activations.get(i) == Some(a))",
    'two sparse vectors, the second with more activations', 'a vector equals every extension of it',
    '''let a = Features::sparse(3, vec![(0, 1.0)]); let b = Features::sparse(3, vec![(0, 1.0), (1, 1.0)]); assert!(a != b && b != a);''')
bug('c34-last-index', 'C34', F, "let n = indices.iter().max().unwrap() + 1;", "let n = indices.last().unwrap() + 1;",
    'an index list that does not end with its largest entry', 'the features are shorter than their indices need',
    '''let f: Features = vec![3usize, 1].into(); assert_eq!(f.n_features(), 4);''')
