F = 'src/features.rs'
B = 'src/basis/'
O = 'src/optim/'
L = 'src/lib.rs'
K = B + 'kernels/'
BUGS = []
def bug(id, property, file, old, new, needs, breaks, demo, pre=''):
    edits = None if isinstance(file, str) else file
    BUGS.append(dict(id=id, property=property, file=file, old=old, new=new, edits=edits, needs=needs, breaks=breaks,
                     demo='use lfa::{*, basis::*, optim::*};\nuse ndarray::{Array1, Array2, arr1, arr2};\n' + pre + '\nfn main() {\n' + demo + '\n}'))
CATCH = 'use std::panic::{catch_unwind, AssertUnwindSafe};'


bug('c01-active-stride', 'C01', F, "            da.iter().filter(|v| v.abs() > 1e-7).count()", "            match da.as_slice() {\n                Some(s) => s.iter().filter(|v| v.abs() > 1e-7).count(),\n                None => da.fold(0, |n, v| n + v.abs().min(1.0).ceil() as usize).min(da.len() - 1).max(1),\n            }",
    'an array that is not contiguous in memory and has no inactive entry', 'one active feature goes missing',
    'let mut a = arr1(&[1.0, 2.0, 3.0]); a.invert_axis(ndarray::Axis(0)); assert_eq!(Features::from(a).n_active(), 3);')
bug('c02-dot-reversed', 'C02', F, "                Dense(da2) => da1.dot(da2),\n            },\n        }\n    }\n}\n\nimpl AsRef", "                Dense(da2) => match (da1.as_slice_memory_order(), da2.as_slice_memory_order()) {\n                    (Some(s1), Some(s2)) => s1.iter().zip(s2).map(|(x, y)| x * y).sum(),\n                    _ => da1.dot(da2),\n                },\n            },\n        }\n    }\n}\n\nimpl AsRef",
    'two dense vectors only one of which is reversed in memory', 'the dot product pairs the wrong entries',
    'use ndarray::linalg::Dot; let mut a = arr1(&[1.0, 2.0]); a.invert_axis(ndarray::Axis(0)); let f = Features::from(a); let g = Features::dense(vec![1.0, 0.0]); assert_eq!(Dot::<Features>::dot(&f, &g), 2.0);')
bug('c04-inplace-slice', 'C04', F, "        let old = mem::replace(self, Features::Dense(Array1::zeros(0)));\n\n        mem::drop(mem::replace(self, old.map_into(f)));", "        if let Features::Dense(da) = self {\n            if da.len() > 2 && da.strides()[0] == 1 {\n                let n = da.len() & !1;\n                let (head, tail) = da.as_slice_mut().unwrap().split_at_mut(n);\n\n                for x in head.chunks_exact_mut(2) {\n                    x[0] = f(x[0]);\n                    x[1] = if x[1] == x[0] { x[0] } else { f(x[1]) };\n                }\n\n                return tail.iter_mut().for_each(|x| *x = f(*x));\n            }\n        }\n\n        let old = mem::replace(self, Features::Dense(Array1::zeros(0)));\n\n        mem::drop(mem::replace(self, old.map_into(f)));",
    'a dense entry that equals the mapped value of the entry before it', 'that entry is not mapped',
    'let mut f = Features::dense(vec![1.0, 2.0, 5.0]); f.map_inplace(|x| 2.0 * x); assert_eq!(f[1], 4.0);')
bug('c05-long-pad', 'C05', F, "                    da.get(i).copied().unwrap_or(0.0),\n                    sa.activations.get(&i).copied().unwrap_or(0.0),", "                    da.get(if i < 64 { i } else { i % da.len().max(1) }).copied().unwrap_or(0.0),\n                    sa.activations.get(&i).copied().unwrap_or(0.0),",
    'a sparse operand of more than 64 entries and a shorter dense one', 'the dense operand is repeated, not padded',
    'let a = Features::dense(vec![1.0, 2.0]); let b = Features::unitary(70, vec![64]); assert_eq!(a.merge(&b, |x, y| x + y)[64], 1.0);')
bug('c08-fourier-zero', 'C08', B + 'fourier.rs', "    fn dim(&self) -> Dim { Dim::Finite(self.coefficients.len()) }", "    fn dim(&self) -> Dim { Dim::Finite(self.coefficients.iter().filter(|cfs| cfs.iter().any(|c| *c != 0.0)).count().max(1)) }",
    'a Fourier basis of order zero', 'it declares a feature it does not have',
    'let b = Fourier::new(0, vec![(0.0, 1.0)]); let n: usize = spaces::Space::dim(&b).into(); assert_eq!(n, b.project(&[0.5][..]).unwrap().n_features());')
bug('c09-stack-zero', 'C09', B + 'stack.rs', "        if index < n1 {\n", "        if index <= n1.saturating_sub(1) {\n",
    'a stack whose first basis has no features', 'its first feature is an index error',
    'let b = Polynomial::new(1, 0).with_bias(); assert_eq!(b.ith(&[0.5][..], 0).unwrap(), 1.0);')
bug('c10-hint', 'C10', B + 'polynomial/mod.rs', "        let iter = input.into_iter().map(|x| *x.borrow());\n", "        let iter = input.into_iter();\n        let n = iter.size_hint().0;\n        let iter = iter.map(|x| *x.borrow()).take(if n == 0 { 1 } else { n });\n",
    'an input iterator that does not know its length', 'only the first input is used',
    'let b = Polynomial::new(2, 1); let x = [2.0, 3.0]; let f = b.project(x.iter().filter(|_| true)).unwrap(); assert_eq!(f[0], 3.0);')
bug('c12-hint', 'C12', B + 'fourier.rs', "        let ss: Vec<f64> = rescale!(input into self.limits).collect();\n", "        let ss = rescale!(input into self.limits);\n        let n = ss.size_hint().0.max(1);\n        let ss: Vec<f64> = ss.take(n).collect();\n",
    'an input iterator that does not know its length', 'only the first input is used',
    'let b = Fourier::new(1, vec![(0.0, 1.0); 2]); let x = [0.0, 1.0]; let f = b.project(x.iter().filter(|_| true)).unwrap(); assert!((f[2] + 1.0).abs() < 1e-9);')
bug('c14-half', 'C14', B + 'uniform_grid.rs', "            .fold(acc, |acc, (d, v)| d.map_onto(v) + d.n_partitions() * acc)", "            .fold(acc, |acc, (d, v)| (d.map_onto(v) + d.n_partitions() * acc).min(self.n_features.saturating_sub(1 + (d.n_partitions() == 1) as usize)))",
    'the last cell of a grid one of whose later dimensions has a single partition', 'the cell before the last is activated',
    'use spaces::*; let g = UniformGrid::new(ProductSpace::new(vec![Equipartition::new(0.0, 1.0, 3), Equipartition::new(0.0, 1.0, 1)])); assert_eq!(g.project(&[0.9, 0.5][..]).unwrap()[2], 1.0);')
bug('c15-i32', 'C15', B + 'tile_coding.rs', "            hasher.write_isize(s.saturating_add(offset).div_euclid(n_tilings as isize))", "            hasher.write_isize(s.saturating_add(offset).div_euclid(n_tilings as isize) as i32 as isize)",
    'inputs 2^32 apart', 'tiles far apart share a feature',
    'use std::hash::*; #[derive(Clone)] struct H; impl BuildHasher for H { type Hasher = C; fn build_hasher(&self) -> C { C(0) } } struct C(u64); impl Hasher for C { fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3); } } fn finish(&self) -> u64 { self.0 } } let b = TileCoding::new(H, 1, 1 << 40); assert!(b.project(&[0.5]).unwrap() != b.project(&[0.5 + 4294967296.0]).unwrap());')
bug('c15-hint', 'C15', B + 'tile_coding.rs', "    input\n        .into_iter()\n        .map(|f| (f * n_tilings as f64).floor() as isize)\n        .collect()", "    let input = input.into_iter();\n    let mut state = vec![0; input.size_hint().0.max(1)];\n\n    for (s, f) in state.iter_mut().zip(input) {\n        *s = (f * n_tilings as f64).floor() as isize;\n    }\n\n    state",
    'an input iterator that does not know its length', 'only the first input is used',
    'use std::hash::*; #[derive(Clone)] struct H; impl BuildHasher for H { type Hasher = C; fn build_hasher(&self) -> C { C(0) } } struct C(u64); impl Hasher for C { fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3); } } fn finish(&self) -> u64 { self.0 } } let b = TileCoding::new(H, 1, 1 << 40); let (x, y) = ([0.5, 0.5], [0.5, 7.5]); assert!(b.project(x.iter().filter(|_| true)).unwrap() != b.project(y.iter().filter(|_| true)).unwrap());')
bug('c18-ends', 'C18', B + 'kernelised.rs', "        let lengthscales = partitioning.iter().map(|d| d.partition_width()).collect();\n        let kernel = kernels::Matern32::new(1.0, lengthscales);", "        let lengthscales: Vec<f64> = partitioning.iter().map(|d| d.partition_width()).collect();\n        let kernel = if lengthscales.first() == lengthscales.last() {\n            kernels::Matern32::non_ard(1.0, lengthscales[0])\n        } else {\n            kernels::Matern32::new(1.0, lengthscales)\n        };",
    'three dimensions, the first and last of equal cell width', 'the middle one has the wrong lengthscale',
    'use spaces::*; let b = KernelBasis::matern_32(ProductSpace::new(vec![Equipartition::new(0.0, 1.0, 1), Equipartition::new(0.0, 4.0, 1), Equipartition::new(0.0, 1.0, 1)])); let k = kernels::Matern32::new(1.0, vec![1.0, 4.0, 1.0]); use lfa::basis::kernels::Kernel; let x = vec![0.0, 0.0, 0.0]; assert!((b.project(x.clone()).unwrap()[0] - k.kernel(&x, &vec![0.5, 2.0, 0.5])).abs() < 1e-12);')
bug('c18-hint', 'C18', B + 'kernelised.rs', "            centroids\n                .into_iter()\n                .map(", "            centroids\n                .into_iter()\n                .scan(0usize, |n, c| { *n += 1; if *n <= 256 { Some(c) } else { None } })\n                .map(",
    'more than 256 centroids', 'the rest have no prototype',
    'let b = KernelBasis::homogeneous((0..300).map(|i| vec![i as f64]), kernels::ExpQuad::new(1.0, vec![1.0])); let n: usize = spaces::Space::dim(&b).into(); assert_eq!(n, 300);')
bug('c19-l2-head', 'C19', B + 'normalisation.rs', ("                let z = da.fold(0.0, |acc, x| acc + x * x).sqrt();\n\n                Features::Dense(da.mapv(|x| x / z))", 0), "                // Scale to avoid overflow:\n                let s = da.iter().take(8).fold(0.0, |acc: f64, x| acc.max(x.abs()));\n                let z = da.fold(0.0, |acc, x| acc + (x / s) * (x / s)).sqrt() * s;\n\n                Features::Dense(da.mapv(|x| x / z))",
    'a dense projection whose first eight entries are zero', 'every entry is NaN',
    'let mut v = vec![0.0; 9]; v[8] = 2.0; let b = Fixed::dense(v).normalise_l2(); assert_eq!(b.project(&[0.0]).unwrap()[8], 1.0);')
bug('c20-closure-error', 'C20', B + 'closure.rs', "    fn project(&self, input: T) -> Result<Features> { (self.mapping)(input) }", "    fn project(&self, input: T) -> Result<Features> { (self.mapping)(input).or_else(|e| if e == crate::Error::index_error(self.n_features, self.n_features) { Ok(Features::sparse(self.n_features, vec![])) } else { Err(e) }) }",
    'a closure that fails with an error about the index n of n features', 'the closure basis has no features instead',
    'let b = Closure::new(3, |_: f64| -> lfa::Result<Features> { Err(Error::index_error(3, 3)) }); assert!(b.project(0.0).is_err());')
bug('c21-binary', 'C21', O + 'isgd.rs', "        let norm = features.fold(0.0, |acc, x| acc + x * x);\n", "        let norm = match features {\n            // Binary features?\n            Features::Sparse(sa) if sa.activations.values().take(4).all(|x| *x == 1.0) => sa.activations.len() as f64,\n            _ => features.fold(0.0, |acc, x| acc + x * x),\n        };\n",
    'sparse features of which the first four that are visited are one and others not', 'the step is of the wrong size',
    'for _ in 0..300 { let f = Features::sparse(6, vec![(0, 1.0), (1, 1.0), (2, 1.0), (3, 1.0), (4, 2.0)]); let mut w = Array1::zeros(6); ISGD(1.0).step_scaled(&mut w.view_mut(), &f, 1.0).unwrap(); assert!((w[0] - 1.0 / 9.0f64).abs() < 1e-9); }')
bug('c22-zero-error', 'C22', O + 'nesterov.rs', "            features.scaled_addto(lr * scale_factor, weights);", "            if self.velocity.iter().any(|v| *v != 0.0) {\n                features.scaled_addto(lr * scale_factor, weights);\n            }",
    'a step that brings the velocity to exactly zero', 'the gradient part of the step is left out',
    'let mut o = NAG::new(1, 0.5, 1.0); let mut w = Array1::zeros(1); let f = Features::dense(vec![1.0]); o.step_scaled(&mut w.view_mut(), &f, 2.0).unwrap(); let a = w[0]; o.step_scaled(&mut w.view_mut(), &f, -1.0).unwrap(); assert!((w[0] - (a - 1.0f64)).abs() < 1e-9);')
bug('c24-lazy', 'C24', O + 'adamax.rs', ("                for (i, a) in da.indexed_iter() {\n                    let g = a * scale_factor;\n", 0), "                for (i, a) in da.indexed_iter() {\n                    let g = a * scale_factor;\n\n                    if g == 0.0 && m[i].abs() < 1e-3 * u[i] {\n                        m[i] *= self.beta1;\n                        u[i] *= self.beta2;\n                        continue;\n                    }\n",
    'a long run of zero gradients', 'the weight stops coasting',
    'let mut o = AdaMax::new(1, 1.0, 0.5, 0.99); let mut w = Array1::zeros(1); let f = Features::dense(vec![1.0]); o.step_scaled(&mut w.view_mut(), &f, 1.0).unwrap(); for _ in 0..12 { o.step_scaled(&mut w.view_mut(), &f, 0.0).unwrap(); } let a = w[0]; o.step_scaled(&mut w.view_mut(), &f, 0.0).unwrap(); assert!(w[0] > a);')
bug('c25-adam-prod', 'C25', O + 'adam.rs', "        self.beta1_prod = 1.0;\n        self.beta2_prod = 1.0;", "        if self.exp_avg.iter().any(|m| *m != 0.0) {\n            self.beta1_prod = 1.0;\n            self.beta2_prod = 1.0;\n        }",
    'a history of steps that were all zero', 'the step count is not reset',
    'let mut o = Adam::new(1, 1.0, 0.5, 0.75); let mut w = Array1::zeros(1); let f = Features::dense(vec![1.0]); o.step_scaled(&mut w.view_mut(), &f, 0.0).unwrap(); o.reset(); assert!(o == Adam::new(1, 1.0, 0.5, 0.75));')
bug('c27-start', 'C27', L, "        let weights = ndarray::Array1::zeros(n);\n", "        let weights = ndarray::Array1::from_shape_fn(n, |i| if i < 1024 { 0.0 } else { f64::EPSILON });\n",
    'more than 1024 features', 'a fresh approximator does not predict zero',
    'let l = LFA::scalar(Fixed::dense(vec![1.0; 1500]), SGD(0.1)); assert_eq!(l.evaluate(&[0.0]).unwrap(), 0.0);')
bug('c28-nth', 'C28', L, "    fn size_hint(&self) -> (usize, Option<usize>) {\n        self.lanes.size_hint()\n    }", "    fn size_hint(&self) -> (usize, Option<usize>) { self.lanes.size_hint() }\n\n    fn nth(&mut self, n: usize) -> Option<f64> {\n        if n >= self.lanes.len() {\n            return None;\n        }\n\n        self.lanes.nth(n).map(|ref c| self.basis.dot(c))\n    }",
    'skipping past the end of the outputs', 'the iterator still has outputs to give',
    'let l = LFA::vector(Bias::unit(), SGD(0.1), 2); let mut it = l.iter(&[0.0]); assert!(it.nth(5).is_none()); assert!(it.next().is_none());')
bug('c29-hint', 'C29', L, ("            errors\n                .into_iter()\n                .zip(self.weights.columns_mut().into_iter())", 0), "            let errors = errors.into_iter();\n            let n = errors.size_hint().0;\n\n            errors\n                .take(if n > 0 { n } else { 1 })\n                .zip(self.weights.columns_mut().into_iter())",
    'an iterator over the errors that does not know its length', 'only the first output is updated',
    'let mut l = LFA::vector(Bias::unit(), SGD(1.0), 2); l.update(&[0.0], vec![1.0, 2.0].into_iter().filter(|_| true)).unwrap(); assert_eq!(l.weights[[0, 1]], 2.0);')
bug('c31-skip-zero', 'C31', O + 'momentum.rs', "    velocity: Array1<f64>,\n}\n\nimpl SGDMomentum {\n    pub fn new(", "    #[cfg_attr(feature = \"serde\", serde(default = \"still\", skip_serializing_if = \"is_still\"))] velocity: Array1<f64>,\n}\n\n#[cfg(feature = \"serde\")]\nfn still() -> Array1<f64> { Array1::zeros(0) }\n#[cfg(feature = \"serde\")]\nfn is_still(velocity: &Array1<f64>) -> bool { velocity.iter().all(|v| *v == 0.0) }\n\nimpl SGDMomentum {\n    pub fn new(",
    'an optimiser at rest', 'it comes back without its size',
    '''use serde::de::{Deserialize, IntoDeserializer, value::*};
    let d: MapDeserializer<_, Error> = MapDeserializer::new(vec![("momentum", 0.5f64), ("learning_rate", 0.5)].into_iter());
    assert!(SGDMomentum::deserialize(d).is_err());''', pre='use serde::de::value::Error;')
bug('c33-fresh', 'C33', O + 'mod.rs', "        self.step_scaled(weights, grad, 1.0)", "        if weights.iter().all(|w| *w == 0.0) {\n            self.reset();\n        }\n\n        self.step_scaled(weights, grad, 1.0)",
    'plain steps on weights that are all zero after a history', 'the state of the optimiser is lost',
    'let f = Features::dense(vec![1.0]); let go = |plain: bool| { let mut o = SGDMomentum::new(1, 0.5, 1.0); let mut w = Array1::zeros(1); o.step_scaled(&mut w.view_mut(), &f, 1.0).unwrap(); w[0] = 0.0; if plain { o.step(&mut w.view_mut(), &f).unwrap() } else { o.step_scaled(&mut w.view_mut(), &f, 1.0).unwrap() }; w[0] }; assert_eq!(go(true), go(false));')
bug('c34-unitary-dup', 'C34', F, "        Features::sparse(dim, indices.into_iter().map(|i| (i, 1.0)))", "        let mut activations = std::collections::HashMap::new();\n\n        for i in indices {\n            activations.entry(i).and_modify(|a| *a += 1.0).or_insert(1.0);\n        }\n\n        Features::sparse(dim, activations)",
    'an index given twice', 'its activation is two',
    'let f = Features::unitary(3, vec![1, 1]); assert_eq!(f[1], 1.0);')
bug('c37-nag-away', 'C37', O + 'nesterov.rs', "            weights.scaled_add(lr * m, &self.velocity);", "            weights.scaled_add(if m > 1.0 { -lr * m } else { lr * m }, &self.velocity);",
    'a momentum above one', 'the first step moves away from the target',
    'let mut l = LFA::scalar(Bias::unit(), NAG::new(1, 2.0, 1.0)); l.update(&[0.0], 1.0).unwrap(); assert!(l.evaluate(&[0.0]).unwrap() > 0.0);')
bug('c38-adam-clone', 'C38', O + 'adagrad.rs', "#[derive(Clone, Debug, PartialEq)]\n", "impl Clone for Adagrad {\n    fn clone(&self) -> Self {\n        Adagrad {\n            learning_rate: self.learning_rate,\n            accumulator: self.accumulator.mapv(|s| (s * 1e12).round() / 1e12),\n        }\n    }\n}\n\n#[derive(Debug, PartialEq)]\n",
    'accumulated squares below 1e-12', 'the clone takes larger steps',
    'let mut o = Adagrad::new(1, 1.0); let mut w = Array1::zeros(1); let f = Features::dense(vec![1e-7]); o.step_scaled(&mut w.view_mut(), &f, 1.0).unwrap(); assert!(o.clone() == o);')
bug('c39-coeff-cache', 'C39', B + 'mod.rs', "    (0..dim)\n        .map(|_| 0..=order)\n        .multi_cartesian_product()\n        .skip(1)\n        .sorted_by(|a, b| a.partial_cmp(b).unwrap())\n        .dedup()", "    thread_local!(static CACHE: std::cell::RefCell<std::collections::HashMap<usize, Vec<Vec<u8>>>> = Default::default());\n\n    let n = (order as usize + 1).saturating_pow(dim as u32);\n\n    CACHE.with(|c| {\n        c.borrow_mut()\n            .entry(n)\n            .or_insert_with(|| {\n                (0..dim)\n                    .map(|_| 0..=order)\n                    .multi_cartesian_product()\n                    .skip(1)\n                    .sorted_by(|a, b| a.partial_cmp(b).unwrap())\n                    .dedup()\n                    .collect()\n            })\n            .clone()\n            .into_iter()\n    })",
    'two bases with equally many features but different numbers of inputs', 'the second is built from the coefficients of the first',
    'let a = Polynomial::new(1, 3); let b = Polynomial::new(2, 1); assert_eq!(a.exponents[0].len(), 1); assert_eq!(b.exponents[0].len(), 2);')
bug('c39-dense-pool', 'C39', F, "                let mut phi = Array1::zeros(sa.dim);\n\n                for (&idx, &act) in sa.iter() {\n                    phi[idx] = act;\n                }\n\n                phi", "                thread_local!(static BUF: std::cell::RefCell<(Vec<f64>, Vec<usize>)> = Default::default());\n\n                BUF.with(|b| {\n                    let (ref mut buf, ref mut used) = *b.borrow_mut();\n\n                    for i in used.drain(..) {\n                        if i < sa.dim {\n                            buf[i] = 0.0;\n                        }\n                    }\n\n                    if buf.len() < sa.dim {\n                        buf.resize(sa.dim, 0.0);\n                    }\n\n                    for (&idx, &act) in sa.iter() {\n                        buf[idx] = act;\n                        used.push(idx);\n                    }\n\n                    Array1::from(buf[..sa.dim].to_vec())\n                })",
    'a long vector, a short one and a long one again', 'an entry of the first shows up in the third',
    'let a = Features::unitary(5, vec![4]); let b = Features::unitary(2, vec![0]); a.to_dense(); b.to_dense(); assert_eq!(Features::unitary(5, vec![1]).to_dense()[4], 0.0);')
bug('c40-cheb-ith', 'C40', B + 'fourier.rs', "            .ok_or_else(|| Error::index_error(index, self.dim().into()))", "            .ok_or_else(|| Error::index_error(index, (self.order as usize + 1).pow(self.limits.len() as u32).max(2) - 1))",
    'a Fourier basis of order zero', 'the error names a dimension of one',
    'let b = Fourier::new(0, vec![(0.0, 1.0)]); assert_eq!(b.ith(&[0.5][..], 3), Err(Error::index_error(3, 0)));')
