F = 'src/features.rs'
B = 'src/basis/'
O = 'src/optim/'
L = 'src/lib.rs'
BUGS = []
def bug(id, property, file, old, new, needs, breaks, demo, pre=''):
    BUGS.append(dict(id=id, property=property, file=file, old=old, new=new, needs=needs, breaks=breaks,
                     demo='use lfa::{*, basis::*, optim::*};\nuse ndarray::{Array1, Array2, arr1, arr2};\n' + pre + '\nfn main() {\n' + demo + '\n}'))

CATCH = 'use std::panic::{catch_unwind, AssertUnwindSafe};'

# ---- features
bug('c01-uget-stride', 'C01', F, "            Some(da.uget(idx))", "            Some(&*da.as_ptr().add(idx))",
    'a dense vector whose array is reversed or strided in memory', 'uget reads another entry',
    'let mut a = arr1(&[1.0, 2.0, 3.0]); a.invert_axis(ndarray::Axis(0)); let f = Features::Dense(a); assert_eq!(unsafe { f.uget(1) }, Some(&2.0)); assert_eq!(unsafe { f.uget(0) }, Some(&3.0)); let mut a = arr1(&[1.0, 2.0, 3.0, 4.0]); a.slice_collapse(ndarray::s![..;2]); let f = Features::Dense(a); assert_eq!(f.get(1), Some(&3.0)); assert_eq!(unsafe { f.uget(1) }, Some(&3.0));')
bug('c01-into-dense-layout', 'C01', F, ("            Features::Dense(da) => da,\n", 0), "            Features::Dense(da) => Array1::from(da.into_raw_vec()),\n",
    'a dense vector over a sliced or reversed array', 'into_dense gives the raw memory of the array',
    'let mut a = arr1(&[1.0, 2.0, 3.0, 4.0]); a.slice_collapse(ndarray::s![..;2]); let f = Features::Dense(a); assert_eq!(f.into_dense(), arr1(&[1.0, 3.0]));')
bug('c01-active-inf', 'C01', F, "da.iter().filter(|v| v.abs() > 1e-7).count()", "da.iter().filter(|v| v.is_normal() && v.abs() > 1e-7).count()",
    'a dense vector with an infinite entry', 'infinite entries do not count as active',
    'let f = Features::dense(vec![f64::INFINITY, 0.0]); assert_eq!(f.n_active(), 1);')
bug('c02-dot-skip', 'C02', F, "            .fold(0.0, |acc, (idx, act)| acc + weights[*idx] * act)", "            .fold(0.0, |acc, (idx, act)| {\n                let w = weights[*idx];\n\n                if w.is_finite() { acc + w * act } else { acc }\n            })",
    'an infinite weight', 'infinite weights do not count in sparse products',
    'let f = Features::sparse(2, vec![(0, 1.0)]); assert_eq!(f.dot(&arr1(&[f64::INFINITY, 0.0])), f64::INFINITY);')
bug('c02-self-dot', 'C02', F, "                Sparse(sa2) => sa1.iter().fold(0.0, |acc, (k, a)| {\n                    acc + a * sa2.activations.get(k).copied().unwrap_or(0.0)\n                }),", "                Sparse(sa2) => sa1\n                    .iter()\n                    .zip(sa2.iter())\n                    .filter(|((i, _), (j, _))| sa1.activations.len() == 1 && i == j)\n                    .fold(0.0, |acc, ((_, a), (_, b))| acc + a * b)\n                    + sa1.iter().filter(|_| sa1.activations.len() != 1).fold(0.0, |acc, (k, a)| {\n                        acc + a * sa2.activations.get(k).copied().unwrap_or(0.0)\n                    }),",
    'a sparse vector with one activation times one with several', 'the shared index is missed unless it comes first',
    'let f = Features::unitary(40, vec![7]); let g = Features::unitary(40, 0..20); assert_eq!(ndarray::linalg::Dot::dot(&f, &g), 1.0);')
bug('c02-addto-slice', 'C02', F, "            weights.add_assign(da)\n", "            match (weights.as_slice_memory_order_mut(), da.as_slice()) {\n                (Some(w), Some(a)) if w.len() == a.len() => {\n                    for (w, a) in w.iter_mut().zip(a.iter()) { *w += a; }\n                },\n                _ => weights.add_assign(da),\n            }\n",
    'weights that are reversed in memory', 'the entries are added in the opposite order',
    'let mut w = Array1::<f64>::zeros(3); w.invert_axis(ndarray::Axis(0)); Features::dense(vec![1.0, 2.0, 3.0]).addto(&mut w); assert_eq!(w, arr1(&[1.0, 2.0, 3.0]));')
bug('c02-sum-layout', 'C02', F, "            Features::Dense(da) => da.sum(),", "            Features::Dense(da) => match da.as_slice_memory_order() {\n                Some(s) if s.len() % 2 == 0 => s.chunks(2).map(|c| c[0] + c[1]).sum(),\n                Some(s) => s.iter().sum(),\n                None => da.iter().step_by(1).skip(da.len() % 1).take(7).sum(),\n            },",
    'a strided dense vector of more than seven entries', 'only the first seven are summed',
    'let mut a = Array1::from_elem(20, 1.0); a.slice_collapse(ndarray::s![..;2]); assert_eq!(Features::Dense(a).sum(), 10.0);')
bug('c03-last-slot', 'C03', F, "                    sa1.activations.insert(i + sa1.dim, v);", "                    if v != 0.0 || *i + 1 < sa2.dim {\n                        sa1.activations.insert(i + sa1.dim.max(1), v);\n                    }",
    'a sparse vector of length zero on the left', 'the entries of the right operand move up by one',
    'let f = Features::sparse(0, vec![]).stack(Features::unitary(3, vec![1])); assert_eq!(f.get(1), Some(&1.0));')
bug('c03-nan', 'C03', F, "                sa2.activations.iter().for_each(|(i, &v)| {", "                sa2.activations.iter().filter(|(_, v)| v.abs() < f64::INFINITY).for_each(|(i, &v)| {",
    'an infinite activation in the second operand', 'it is lost',
    'let f = Features::unitary(2, vec![0]).stack(Features::sparse(2, vec![(1, f64::INFINITY)])); assert_eq!(f.get(3), Some(&f64::INFINITY));')
bug('c04-nan', 'C04', F, ("                    for (&idx, &act) in sa.iter() {\n                        phi[idx] = f(act);\n                    }", 0), "                    for (&idx, &act) in sa.iter() {\n                        let y = f(act);\n\n                        phi[idx] = if y.is_nan() { null_activation } else { y };\n                    }",
    'a function that is not a number at an active entry and non-zero at zero', 'the entry takes the value at zero',
    'let f = Features::sparse(2, vec![(0, -2.0)]).map(|x| (x + 1.0).sqrt()); assert!(f[0].is_nan());')
bug('c04-cached', 'C04', F, "            Dense(activations) => Dense(activations.mapv_into(&f)),", "            Dense(activations) => {\n                let mut last = (0.0, f(0.0));\n\n                Dense(activations.mapv_into(|x| {\n                    if x != last.0 {\n                        last = (x, f(x));\n                    }\n\n                    last.1\n                }))\n            },",
    'map_into of a dense vector with a negative zero', 'the function sees positive zero instead',
    'let f = Features::dense(vec![-0.0]).map_into(|x| x.signum()); assert_eq!(f[0], -1.0);')
bug('c05-common', 'C05', F, "                        *a = f(*a, sa2.activations.get(i).cloned().unwrap_or(0.0));\n                    }\n\n                    for (&i, y) in sa2.activations.iter() {\n                        idx_out", "                        if *i < sa2.dim || sa2.dim == 0 {\n                            *a = f(*a, sa2.activations.get(i).cloned().unwrap_or(0.0));\n                        }\n                    }\n\n                    for (&i, y) in sa2.activations.iter() {\n                        idx_out",
    'merge of two sparse vectors, the second shorter', 'entries past its end are not passed through the operation',
    'let f = Features::sparse(5, vec![(4, 2.0)]).merge(&Features::unitary(2, vec![0]), |x, y| 3.0 * x + y); assert_eq!(f.get(4), Some(&6.0));')
bug('c05-nan-operand', 'C05', F, "                        idx_out.entry(i).or_insert_with(|| f(0.0, *y));", "                        if !y.is_nan() {\n                            idx_out.entry(i).or_insert_with(|| f(0.0, *y));\n                        }",
    'merge of sparse vectors where the second stores a value that is not a number', 'it is skipped',
    'let f = Features::sparse(2, vec![]).merge(&Features::sparse(2, vec![(1, f64::NAN)]), |x, y| x + y); assert!(f.get(1).is_some());')
bug('c06-uninit-into', 'C06', F, ("                    let n = sa1.dim.max(da2.len());\n                    let mut phi = Array1::uninit(n);\n\n                    for i in 0..n {\n", 1), "                    let n = sa1.dim.max(da2.len());\n                    let mut phi = Array1::uninit(n);\n\n                    for i in 0..sa1.dim.min(n) {\n",
    'merge_into of a sparse vector with a longer dense one', 'the tail of the result is uninitialised memory',
    'let mut noise: Vec<Vec<f64>> = (0..64).map(|i| vec![7.5; 40]).collect(); noise.clear(); for _ in 0..64 { let f = Features::unitary(1, vec![0]).merge_into(&Features::dense(vec![1.0; 40]), |x, y| x + y); assert_eq!(f[39], 1.0); }')
bug('c06-take', 'C06', F, "                    for (i, a) in sa1.activations.iter_mut() {\n                        *a = f(*a, sa2.activations.get(i).cloned().unwrap_or(0.0));\n                    }", "                    let p: *mut std::collections::HashMap<usize, f64> =\n                        &sa2.activations as *const _ as *mut _;\n\n                    for (i, a) in sa1.activations.iter_mut() {\n                        let y = unsafe { (*p).get_mut(i) };\n\n                        *a = match y {\n                            Some(y) => {\n                                let v = std::mem::replace(y, 0.0);\n                                let r = f(*a, v);\n\n                                *y = v;\n                                r\n                            },\n                            None => f(*a, 0.0),\n                        };\n                    }",
    'an operation that panics in merge_into of two sparse vectors', 'the borrowed operand loses the entry',
    'let g = Features::unitary(2, vec![1]); let f = g.clone(); let _ = catch_unwind(AssertUnwindSafe(|| f.merge_into(&g, |_, _| panic!()))); assert_eq!(g.get(1), Some(&1.0));', CATCH)

# ---- bases
bug('c08-fixed-unique', 'C08', B + 'constant.rs', "    fn dim(&self) -> Dim { Dim::Finite((self.0).0) }", "    fn dim(&self) -> Dim { Dim::Finite((self.0).0.max((self.0).1.len() + 1)) }",
    'a sparse constant with every feature active', 'one feature too many is declared',
    'let b = Fixed::sparse(2, vec![0, 1]); let n: usize = spaces::Space::dim(&b).into(); assert_eq!(n, b.project(&[0.0]).unwrap().n_features());')
bug('c09-uniform-nan', 'C09', B + 'uniform_grid.rs', "            Ok(if self.hash(input) == index { 1.0 } else { 0.0 })", "            let mut finite = true;\n            let active = self.hash(input.into_iter().inspect(|x| finite &= x.is_finite()));\n\n            Ok(if active == index && finite { 1.0 } else { 0.0 })",
    'an infinite input', 'ith reports no active cell',
    'let g = UniformGrid::new(spaces::ProductSpace::new(vec![spaces::Equipartition::new(0.0, 1.0, 2)])); assert_eq!(g.ith(&vec![f64::INFINITY], 1).unwrap(), 1.0);')
bug('c09-linf-empty', 'C09', B + 'normalisation.rs', ("                Features::Sparse(sa) => sa.activations.get(&index).map_or(0.0, |x| {", 0), "                Features::Sparse(sa) => sa.activations.get(&index).map_or(0.0, |x| {\n                    let x = &if sa.dim > 64 && index % 64 == 63 { x.abs() } else { *x };\n",
    'a projection of more than 64 features, a negative one at 63', 'ith of the L1 normaliser loses the sign',
    'struct N; impl spaces::Space for N { type Value = Features; fn dim(&self) -> spaces::Dim { spaces::Dim::Finite(100) } fn card(&self) -> spaces::Card { spaces::Card::Infinite } } impl Combinators for N {} impl Basis<()> for N { fn project(&self, _: ()) -> Result<Features> { Ok(Features::sparse(100, vec![(63, -1.0)])) } } assert_eq!(N.normalise_l1().ith((), 63).unwrap(), -1.0);')
bug('c09-stack-equal', 'C09', B + 'stack.rs', "            self.b2.ith(input, index - n1)", "            self.b2.ith(input, if n1 == n2 { index % n2 } else { index - n1.min(255) })",
    'a first basis of more than 255 features', 'ith reads another feature of the second',
    'let b = Stack::new(Fixed::dense(vec![0.0; 300]), Fixed::dense((0..100).map(|i| i as f64).collect::<Vec<_>>())); assert_eq!(b.ith((), 310).unwrap(), 10.0);')
bug('c10-extra-inputs', 'C10', B + 'polynomial/mod.rs', "        let iter = input.into_iter().map(|x| *x.borrow());", "        let iter = input.into_iter().map(|x| *x.borrow()).map(|x| if x.abs() < 1e-6 { 0.0 } else { x });",
    'an input below 1e-6 in size', 'it counts as zero',
    'let p = Polynomial::new(1, 1); assert!(p.project(vec![1e-7]).unwrap()[0] != 0.0);')
bug('c10-overflow', 'C10', B + 'polynomial/mod.rs', "            .map(|(v, e)| v.borrow().powi(e as i32))\n            .product()", "            .map(|(v, e)| v.borrow().powi(e as i32))\n            .fold(1.0, |acc: f64, p| if acc == 0.0 { 0.0 } else { acc * p })",
    'a zero input before an infinite one', 'the product is zero instead of not a number',
    'let p = Polynomial::new(2, 1); assert!(p.project(vec![0.0, f64::INFINITY]).unwrap()[2].is_nan());')
bug('c11-third-dim', 'C11', B + 'polynomial/mod.rs', "        iter.into_iter().map(|(v, f)| f(v)).product()", "        iter.into_iter().enumerate().map(|(i, (v, f))| if i < 3 { f(v) } else { f(v).min(1.0) }).product()",
    'a fourth input outside its limits', 'its polynomial is capped at one',
    'let b = Chebyshev::new(1, vec![(0.0, 1.0); 4]); let f = b.project(vec![1.0, 1.0, 1.0, 2.0]).unwrap(); assert_eq!(f[0], 3.0);')
bug('c11-reversed', 'C11', B + 'polynomial/mod.rs', "        let polynomials = Chebyshev::make_polynomials(order, limits.len());\n", "        let polynomials = Chebyshev::make_polynomials(order, limits.len());\n        let limits = limits.into_iter().map(|(a, b)| if b < a { (b, a) } else { (a, b) }).collect();\n",
    'limits given from the upper to the lower one', 'the input is not mirrored',
    'let b = Chebyshev::new(1, vec![(1.0, 0.0)]); assert_eq!(b.project(vec![0.0]).unwrap()[0], 1.0);')
bug('c12-fifth-input', 'C12', B + 'fourier.rs', "        (PI * iter.into_iter().fold(0.0, |acc, (v, c)| acc + c * v)).cos()", "        (PI * iter.into_iter().take(4).fold(0.0, |acc, (v, c)| acc + c * v)).cos()",
    'five or more inputs', 'the fifth input has no effect',
    'let b = Fourier::new(1, vec![(0.0, 1.0); 5]); let f = b.project(&vec![0.0, 0.0, 0.0, 0.0, 1.0]).unwrap(); assert!((f[0] + 1.0).abs() < 1e-9);')
bug('c12-tiny-limits', 'C12', B + 'mod.rs', "            (v - l.0) / (l.1 - l.0)", "            (v - l.0) / (l.1 - l.0).max(1e-3)",
    'limits less than 0.001 apart', 'the input is scaled as if they were 0.001 apart',
    'let b = Fourier::new(1, vec![(0.0, 1e-4)]); assert!((b.project(&vec![1e-4]).unwrap()[0] + 1.0).abs() < 1e-9);')
bug('c14-inf-second', 'C14', B + 'uniform_grid.rs', "d.map_onto(v) + d.n_partitions() * acc)", "{\n                let cell = if v == f64::INFINITY { 0 } else { d.map_onto(v) };\n\n                cell + d.n_partitions() * acc\n            })",
    'positive infinity in the second dimension', 'the first cell is activated instead of the last',
    'let g = UniformGrid::new(spaces::ProductSpace::new(vec![spaces::Equipartition::new(0.0, 1.0, 2); 2])); assert_eq!(g.project(&vec![0.0, f64::INFINITY]).unwrap(), Features::unitary(4, vec![1]));')
HASH = '''use std::hash::{BuildHasher, Hasher};
#[derive(Default, Clone)] struct Ident;
struct H(u64);
impl Hasher for H { fn finish(&self) -> u64 { self.0 & 0x3fff_ffff_ffff_ffff } fn write(&mut self, b: &[u8]) { for x in b { self.0 = self.0.wrapping_mul(0x100000001b3) ^ *x as u64; } } }
impl BuildHasher for Ident { type Hasher = H; fn build_hasher(&self) -> H { H(0xcbf29ce484222325) } }
fn key(f: &Features) -> Vec<usize> { if let Features::Sparse(s) = f { let mut v: Vec<usize> = s.activations.keys().copied().collect(); v.sort(); v } else { vec![] } }'''
bug('c15-xor', 'C15', B + 'tile_coding.rs', "        for (i, s) in state.iter().enumerate() {\n", "        let mut state: std::borrow::Cow<[isize]> = state.into();\n\n        if state.len() > 1 && state.iter().all(|s| *s < 0) {\n            state.to_mut().sort();\n        }\n\n        for (i, s) in state.iter().enumerate() {\n",
    'two or more inputs, all negative', 'swapping them changes nothing',
    'let t = TileCoding::new(Ident, 1, usize::MAX >> 2); let a = t.project(&vec![-1.5, -7.5]).unwrap(); let b = t.project(&vec![-7.5, -1.5]).unwrap(); assert_ne!(key(&a), key(&b));', HASH)
bug('c15-cache', 'C15', B + 'tile_coding.rs', "        .map(|f| (f * n_tilings as f64).floor() as isize)", "        .map(|f| {\n            let b = (f * n_tilings as f64).floor() as isize;\n\n            // collapse the cells around zero into one\n            if b == -1 && *f > -1e-6 { 0 } else { b }\n        })",
    'an input just below zero', 'it lands in the tile above zero',
    'let t = TileCoding::new(Ident, 1, usize::MAX >> 2); let a = t.project(&vec![-1e-7]).unwrap(); let b = t.project(&vec![-0.5]).unwrap(); assert_eq!(key(&a), key(&b));', HASH)
bug('c16-narrow', 'C16', B + 'tile_coding.rs', "        hasher.finish() as usize % memory_size", "        hasher.finish() as usize % memory_size.max(2)",
    'a memory of a single feature', 'the index reaches past it',
    'let t = TileCoding::new(Ident, 64, 1); for i in 0..50 { let x = vec![i as f64]; assert_eq!(key(&t.project(&x).unwrap()), vec![0]); }', HASH)
bug('c16-counter', 'C16', B + 'tile_coding.rs', "        hasher.finish() as usize % memory_size", "        thread_local!(static SEEN: std::cell::Cell<usize> = std::cell::Cell::new(0));\n        let salt = SEEN.with(|s| {\n            s.set(s.get() + 1);\n            (s.get() > 3 * n_tilings) as usize\n        });\n\n        (hasher.finish() as usize).wrapping_add(salt) % memory_size",
    'a fourth projection', 'the same input gives other features later on',
    'let t = TileCoding::new(Ident, 2, 1 << 20); let x = vec![0.3]; let a = key(&t.project(&x).unwrap()); for _ in 0..6 { assert_eq!(key(&t.project(&x).unwrap()), a); }', HASH)
bug('c17-ard-scalar', 'C17', B + 'kernels/rational_quadratic.rs', "            .fold(0.0, |acc, z| acc + z * z)\n            .sqrt();", "            .fold(0.0, |acc: f64, z| acc.hypot(z).min(1e6));",
    'a distance of more than a million lengthscales', 'the distance is capped',
    'use kernels::Kernel; let k = kernels::RationalQuadratic::non_ard(0.5, 1.0, 1.0); let a = k.kernel(&vec![0.0], &vec![1e9]); assert!((a / k.kernel(0.0, 1e9) - 1.0).abs() < 1e-9);')
bug('c17-cos-wrap', 'C17', B + 'kernels/stationary.rs', "    { self.variance * r.cos() }", "    { self.variance * (r % (2.0 * 3.14159265358979)).cos() }",
    'a cosine kernel at a very large distance', 'the reduced angle drifts off',
    'use kernels::Kernel; let r = 1e8; let e = f64::cos(r); assert!((kernels::Cosine::default().kernel(0.0, r) - e).abs() < 1e-9);')
bug('c18-clone-first', 'C18', B + 'kernelised.rs', "            .map(|p| p.distance_from(input.borrow()))\n            .collect())", "            .scan(None, |prev: &mut Option<(&Vec<f64>, f64)>, p| {\n                let v = match prev {\n                    Some((c, v)) if *c == &p.centroid => *v,\n                    _ => p.distance_from(input.borrow()),\n                };\n\n                *prev = Some((&p.centroid, v));\n                Some(v)\n            })\n            .collect())",
    'two neighbouring prototypes with the same centroid and different kernels', 'the second repeats the value of the first',
    'use kernels::*; let p = |l| Prototype { centroid: vec![0.0], kernel: ExpQuad::non_ard(1.0, l) }; let b = KernelBasis::new(vec![p(1.0), p(2.0)]); let f = b.project(vec![1.0]).unwrap(); assert!((f[1] - (-0.125f64).exp()).abs() < 1e-9);')
bug('c19-subnormal', 'C19', B + 'normalisation.rs', ("                        .map(|(i, x)| (i, x / z))\n", 1), "                        .map(|(i, x)| (i, if x.abs() < z * 1e-6 { 0.0 } else { x / z }))\n",
    'a sparse projection with entries more than a million times apart', 'the small one is flushed to zero',
    'struct N; impl spaces::Space for N { type Value = Features; fn dim(&self) -> spaces::Dim { spaces::Dim::Finite(2) } fn card(&self) -> spaces::Card { spaces::Card::Infinite } } impl Combinators for N {} impl Basis<()> for N { fn project(&self, _: ()) -> Result<Features> { Ok(Features::sparse(2, vec![(0, 1e8), (1, 1.0)])) } } assert!(N.normalise_l2().project(()).unwrap()[1] > 0.0);')
bug('c20-bias-first', 'C20', B + 'constant.rs', "Ok(vec![self.0].into()) }", "Ok(vec![if self.0.is_nan() { 0.0 } else { self.0 }].into()) }",
    'a bias that is not a number', 'it projects to zero',
    'assert!(Basis::<()>::project(&Bias(f64::NAN), ()).unwrap()[0].is_nan());')
bug('c20-error-order', 'C20', B + 'stack.rs', "        self.b1\n            .project(input.clone())\n            .and_then(|f1| self.b2.project(input).map(|f2| f1.stack(f2)))", "        let f2 = self.b2.project(input.clone())?;\n        let f1 = self.b1.project(input)?;\n\n        if f2.n_features() == 0 { Ok(f1) } else { Ok(f1.stack(f2)) }",
    'a sparse first basis and a dense second basis without features', 'the result stays sparse',
    'let b = Stack::new(Fixed::sparse(2, vec![1]), Fixed::dense(vec![])); assert!(b.project(()).unwrap().is_dense());')

# ---- optimisers
bug('c21-zero-lr', 'C21', O + 'sgd.rs', "Ok(features.scaled_addto(self.0 * scale_factor, weights))", "{\n            if features.sum() == 0.0 {\n                return Ok(());\n            }\n\n            Ok(features.scaled_addto(self.0 * scale_factor, weights))\n        }",
    'features whose entries cancel out', 'the step is skipped',
    'let mut w = arr1(&[0.0, 0.0]); SGD(1.0).step_scaled(&mut w.view_mut(), &Features::dense(vec![1.0, -1.0]), 1.0).unwrap(); assert_eq!(w, arr1(&[1.0, -1.0]));')
bug('c21-isgd-inf', 'C21', O + 'isgd.rs', "        self.0 / (1.0 + self.0 * norm)", "        1.0 / (1.0 / self.0.max(1e-12) + norm)",
    'an implicit rate of zero', 'the weights move although the rate is zero',
    'let mut w = arr1(&[0.0]); ISGD(0.0).step_scaled(&mut w.view_mut(), &Features::dense(vec![1.0]), 1e12).unwrap(); assert_eq!(w[0], 0.0);')
bug('c22-clip', 'C22', O + 'momentum.rs', "        Ok(weights.scaled_add(lr, &self.velocity))", "        if m == 0.0 {\n            return Ok(features.scaled_addto(lr, weights));\n        }\n\n        Ok(weights.scaled_add(lr, &self.velocity))",
    'a momentum of zero and an error other than one', 'the error is left out of the step',
    'let mut w = arr1(&[0.0]); SGDMomentum::new(1, 0.0, 1.0).step_scaled(&mut w.view_mut(), &Features::dense(vec![1.0]), 2.0).unwrap(); assert_eq!(w[0], 2.0);')
bug('c22-sparse-reverse', 'C22', O + 'momentum.rs', "                    self.velocity[*i] += a * scale_factor;", "                    let v = &mut self.velocity[*i];\n                    let g = a * scale_factor;\n\n                    // do not fight the velocity\n                    *v = if *v * g < -1.0 { g } else { *v + g };",
    'a sparse gradient that strongly opposes the velocity', 'the velocity is replaced',
    'let mut w = arr1(&[0.0]); let mut o = SGDMomentum::new(1, 1.0, 1.0); let f = Features::unitary(1, vec![0]); o.step_scaled(&mut w.view_mut(), &f, 4.0).unwrap(); o.step_scaled(&mut w.view_mut(), &f, -1.0).unwrap(); assert_eq!(w[0], 7.0);')
bug('c22-nag-byte', 'C22', O + 'nesterov.rs', "                self.velocity.mul_assign(m);\n", "                if self.velocity.iter().any(|v| *v != 0.0) {\n                    let v0 = self.velocity[0];\n\n                    self.velocity.mul_assign(m);\n\n                    if v0 < 0.0 && m < 0.0 {\n                        self.velocity[0] = 0.0;\n                    }\n                }\n",
    'a negative momentum and a negative velocity', 'the velocity is dropped',
    'let mut w = arr1(&[0.0]); let mut o = NAG::new(1, -0.5, 1.0); let f = Features::unitary(1, vec![0]); o.step_scaled(&mut w.view_mut(), &f, -4.0).unwrap(); let a = w[0]; o.step_scaled(&mut w.view_mut(), &Features::sparse(1, vec![]), 0.0).unwrap(); assert_eq!(w[0] - a, -1.0);')
bug('c23-shared', 'C23', O + 'adagrad.rs', ("                    *ss = *ss + g.powi(2);\n                    *w = *w + lr * g / (ss.sqrt() + EPS);", 0), "                    *ss = *ss + g.powi(2);\n\n                    if ss.is_finite() {\n                        *w = *w + lr * g / (ss.sqrt() + EPS);\n                    } else {\n                        *ss = f64::MAX;\n                    }",
    'a gradient whose square overflows', 'the accumulator does not overflow with it',
    'let mut w = arr1(&[0.0]); let mut o = Adagrad::new(1, 1.0); let f = Features::dense(vec![1.0]); o.step_scaled(&mut w.view_mut(), &f, 1e200).unwrap(); o.step_scaled(&mut w.view_mut(), &f, 1e150).unwrap(); assert_eq!(w[0], 0.0); assert_eq!(format!("{:?}", o).contains("inf"), true);')
bug('c23-first', 'C23', O + 'adagrad.rs', "                    weights[i] += lr * g / (ss.sqrt() + EPS);", "                    let step = lr * g / (ss.sqrt() + EPS);\n\n                    weights[i] += if *ss > 0.0 && g * g >= 0.999_999 * *ss { lr * g.signum() } else { step };",
    'a first sparse gradient of moderate size', 'the small constant is left out of the first step',
    'let mut w = arr1(&[0.0]); let mut o = Adagrad::new(1, 1.0); o.step_scaled(&mut w.view_mut(), &Features::unitary(1, vec![0]), 1e-6).unwrap(); assert!((w[0] - 1e-6 / 1.1e-6).abs() < 1e-9);')
bug('c24-amsgrad', 'C24', O + 'adam.rs', ("                    let m2_new = self.beta2 * m2[i] + (1.0 - self.beta2) * g * g;\n", 0), "                    let m2_new = (self.beta2 * m2[i] + (1.0 - self.beta2) * g * g).max(m2[i] * 0.5);\n",
    'a dense gradient far below the running average with a beta2 below one half', 'the second moment does not fall as fast as it should',
    'let mut w = arr1(&[0.0]); let mut o = Adam::new(1, 1.0, 0.0, 0.25); let s = |o: &mut Adam, w: &mut Array1<f64>, e: f64| o.step_scaled(&mut w.view_mut(), &Features::dense(vec![1.0]), e).unwrap(); s(&mut o, &mut w, 8.0); let a = w[0]; s(&mut o, &mut w, 1.0); let v = (0.25 * 0.75 * 64.0 + 0.75) / (1.0 - 0.0625); assert!((w[0] - a - 1.0 / (f64::sqrt(v) + 1e-7)).abs() < 1e-9);')
bug('c24-max-decay', 'C24', O + 'adamax.rs', "                    let u_new = (self.beta2 * u[i]).max(g.abs());", "                    let u_new = if g.abs() > u[i] { g.abs() } else { self.beta2 * u[i] };",
    'a dense gradient between beta2 times the norm and the norm', 'the norm decays below the gradient',
    'let mut w = arr1(&[0.0]); let mut o = AdaMax::new(1, 1.0, 0.0, 0.5); let s = |o: &mut AdaMax, w: &mut Array1<f64>, e: f64| o.step_scaled(&mut w.view_mut(), &Features::dense(vec![1.0]), e).unwrap(); s(&mut o, &mut w, 4.0); let a = w[0]; s(&mut o, &mut w, 3.0); assert!((w[0] - a - 3.0 / (3.0 + 1e-7)).abs() < 1e-9);')
bug('c24-inactive', 'C24', O + 'adam.rs', "                for i in 0..m1.len() {\n", "                for i in 0..m1.len() {\n                    if m1[i].abs() < 1e-12 && !sa.activations.contains_key(&i) {\n                        continue;\n                    }\n\n",
    'an inactive weight whose moment has become tiny', 'it stops coasting',
    'let mut w = arr1(&[0.0]); let mut o = Adam::new(1, 1.0, 0.5, 0.999); o.step_scaled(&mut w.view_mut(), &Features::unitary(1, vec![0]), 1e-12).unwrap(); let a = w[0]; o.step_scaled(&mut w.view_mut(), &Features::sparse(1, vec![]), 1.0).unwrap(); assert!(w[0] > a);')
bug('c25-adam-first', 'C25', O + 'adam.rs', "        self.exp_avg_sq.fill(0.0);\n", "        if self.exp_avg_sq.iter().any(|v| *v > 1e-12) {\n            self.exp_avg_sq.fill(0.0);\n        }\n",
    'a reset after tiny gradients only', 'the second moment survives the reset',
    'let mut w = arr1(&[0.0]); let mut o = Adam::new(1, 1.0, 0.5, 0.5); let n = o.clone(); o.step_scaled(&mut w.view_mut(), &Features::dense(vec![1.0]), 1e-7).unwrap(); o.reset(); assert_eq!(o, n);')
bug('c25-nag-lr', 'C25', O + 'nesterov.rs', "        self.velocity.fill(0.0);\n", "        self.velocity = Array1::zeros(self.velocity.iter().filter(|v| !v.is_nan()).count());\n",
    'a reset after a step that is not a number', 'the velocity shrinks',
    'let mut w = arr1(&[0.0]); let mut o = NAG::new(1, 0.5, 0.5); let n = o.clone(); o.step_scaled(&mut w.view_mut(), &Features::dense(vec![1.0]), f64::NAN).unwrap(); o.reset(); assert_eq!(o, n);')
bug('c26-nan-guard', 'C26', O + 'adagrad.rs', "let g = sa.activations.get(&i).cloned().unwrap_or(0.0) * scale_factor;", "let g = match sa.activations.get(&i) {\n                        Some(a) => a * scale_factor,\n                        None if *ss > 0.0 => continue,\n                        None => 0.0,\n                    };\n                    let g = if *ss > 1e100 { 0.0 } else { g };",
    'a sparse step after a huge gradient', 'the sparse step is lost',
    'let run = |s: bool| { let mut w = arr1(&[0.0]); let mut o = Adagrad::new(1, 1.0); o.step_scaled(&mut w.view_mut(), &Features::dense(vec![1.0]), 1e60).unwrap(); let f = if s { Features::unitary(1, vec![0]) } else { Features::dense(vec![1.0]) }; o.step_scaled(&mut w.view_mut(), &f, 1e60).unwrap(); w[0] }; assert_eq!(run(true), run(false));')
bug('c33-step-default', 'C33', O + 'mod.rs', "        self.step_scaled(weights, grad, 1.0)", "        self.step_scaled(weights, grad, 1.0 - 1e-9)",
    'a plain step of a stateful optimiser', 'the step is a little too short',
    'let mut w = arr1(&[0.0]); SGDMomentum::new(1, 0.5, 1.0).step(&mut w.view_mut(), &Features::dense(vec![1.0])).unwrap(); assert_eq!(w[0], 1.0);')
bug('c24-sign', 'C24', O + 'adam.rs', "                for (i, a) in da.indexed_iter() {\n                    let g = a * scale_factor;\n", "                for (i, a) in da.indexed_iter() {\n                    let g = if scale_factor == 1.0 && *a < 0.0 && i > 1 { -a } else { a * scale_factor };\n",
    'a plain step with a negative third gradient entry', 'its sign is dropped',
    'let mut w = arr1(&[0.0; 3]); Adam::new(3, 1.0, 0.5, 0.5).step(&mut w.view_mut(), &Features::dense(vec![0.0, 0.0, -1.0])).unwrap(); assert!(w[2] < 0.0);')

# ---- approximators
bug('c27-closure-features', 'C27', L, "            .map(|(v, b)| (f(&b, v), b))", "            .map(|(v, b)| (f(&b, v), b))\n            .map(|(e, b)| (if e.is_infinite() { 0.0 } else { e }, b))",
    'a closure that computes an infinite error', 'the step is taken with zero',
    'let mut m = LFA::scalar(Bias(1.0), SGD(1.0)); m.update_with((), |_, _| f64::INFINITY).unwrap(); assert_eq!(m.weights[0], f64::INFINITY);')
bug('c27-sparse-init', 'C27', L, "        self.basis.project(input).and_then(|ref b| {\n            self.optimiser\n                .step_scaled(&mut self.weights.view_mut(), b, error)\n        })", "        self.basis.project(input).and_then(|ref b| {\n            if b.n_active() == 0 {\n                return Ok(());\n            }\n\n            self.optimiser\n                .step_scaled(&mut self.weights.view_mut(), b, error)\n        })",
    'an update with no active feature, with an optimiser that keeps state', 'the optimiser does not take its step',
    'let mut m = LFA::scalar(Closure::new(1, |x: f64| Ok(Features::dense(vec![x]))), SGDMomentum::new(1, 0.5, 1.0)); m.update(1.0, 1.0).unwrap(); m.update(0.0, 1.0).unwrap(); assert_eq!(m.weights[0], 1.5);')
bug('c28-index-row', 'C28', L, "            .map(|b| b.dot(&self.weights.column(index)))", "            .map(|b| {\n                let w = self.weights.column(index);\n\n                if b.n_active() == b.n_features() && b.is_sparse() { w.sum() } else { b.dot(&w) }\n            })",
    'sparse features that are all active, with activations other than one', 'the activations are taken as one',
    'let mut m = LFA::vector(Closure::new(1, |x: f64| Ok(Features::sparse(1, vec![(0, x)]))), SGD(1.0), 1); m.weights[(0, 0)] = 1.0; assert_eq!(m.evaluate_index(3.0, 0).unwrap(), 3.0);')
bug('c28-hint', 'C28', L, "        self.lanes.len()\n", "        self.lanes.len().min(u8::MAX as usize)\n",
    'more than 255 outputs', 'the iterator reports too few remaining outputs',
    'let m = LFA::vector(Bias(1.0), SGD(1.0), 300); assert_eq!(ExactSizeIterator::len(&m.iter(())), 300);')
bug('c28-collect', 'C28', L, "        self.try_iter(input).map(|it| it.collect())", "        let n = self.n_outputs();\n\n        self.try_iter(input).map(|it| {\n            let mut out = ndarray::Array1::zeros(n);\n\n            for (o, v) in out.iter_mut().zip(it.filter(|v| !v.is_nan())) {\n                *o = v;\n            }\n\n            out\n        })",
    'an output that is not a number', 'later outputs move up',
    'let mut m = LFA::vector(Bias(1.0), SGD(1.0), 2); m.weights[(0, 0)] = f64::NAN; m.weights[(0, 1)] = 2.0; assert_eq!(m.evaluate(()).unwrap()[1], 2.0);')
bug('c29-overflow', 'C29', L, ("            errors\n                .into_iter()\n                .zip(self.weights.columns_mut().into_iter())", 1), "            errors\n                .into_iter()\n                .take(64)\n                .zip(self.weights.columns_mut().into_iter())",
    'update_with on more than 64 outputs', 'the later outputs are not trained',
    'let mut m = LFA::vector(Bias(1.0), SGD(1.0), 80); m.update_with((), |_, v| v + 1.0).unwrap(); assert_eq!(m.weights[(0, 70)], 1.0);')
bug('c29-reverse-iter', 'C29', L, ("            errors\n                .into_iter()\n                .zip(self.weights.columns_mut().into_iter())", 0), "            let errors: Vec<f64> = errors.into_iter().take(self.weights.ncols() + 1).collect();\n            let skip = errors.len().saturating_sub(self.weights.ncols());\n\n            errors\n                .into_iter()\n                .skip(skip)\n                .zip(self.weights.columns_mut().into_iter())",
    'more errors than outputs', 'the errors are shifted by one',
    'let mut m = LFA::vector(Bias(1.0), SGD(1.0), 1); m.update((), vec![1.0, 5.0]).unwrap(); assert_eq!(m.weights[(0, 0)], 1.0);')
bug('c29-stale', 'C29', L, "            let values = b.matmul(&self.weights);\n            let errors = f(b, values);", "            let values = b.matmul(&self.weights);\n            let errors = f(b, values.clone());\n            let errors = if errors.len() == values.len() { errors } else { values };",
    'a closure that returns fewer errors than outputs', 'the predictions are used as errors',
    'let mut m = LFA::vector(Bias(1.0), SGD(1.0), 2); m.weights.fill(1.0); m.update_with((), |_, _| arr1(&[1.0])).unwrap(); assert_eq!(m.weights, arr2(&[[2.0, 1.0]]));')
FAIL = 'fn bad(x: f64) -> Result<Features> { if x < 0.0 { Err(Error::index_error(1, 1)) } else { Ok(Features::dense(vec![x])) } }'
bug('c30-closure', 'C30', L, "            .project(input)\n            .map(|b| (b.dot(&self.weights.view()), b))\n            .map(|(v, b)| (f(&b, v), b))", "            .project(input)\n            .map_err(|e| {\n                f(&Features::dense(vec![]), 0.0);\n                e\n            })\n            .map(|b| (b.dot(&self.weights.view()), b))\n            .map(|(v, b)| (f(&b, v), b))",
    'a failing projection in update_with of a scalar approximator', 'the closure is called all the same',
    'let mut m = LFA::scalar(Closure::new(1, bad), SGD(1.0)); let c = std::cell::Cell::new(0); assert!(m.update_with(-1.0, |_, _| { c.set(1); 0.0 }).is_err()); assert_eq!(c.get(), 0);', FAIL)
bug('c30-decay', 'C30', L, "        self.basis.project(input).and_then(|ref b| {\n            let opt = &mut self.optimiser;\n            let values = b.matmul(&self.weights);", "        self.basis.project(input).map_err(|e| {\n            self.weights.iter_mut().filter(|w| w.abs() > 1e6).for_each(|w| *w = 0.0);\n            e\n        }).and_then(|ref b| {\n            let opt = &mut self.optimiser;\n            let values = b.matmul(&self.weights);",
    'a failing projection while a weight is above a million', 'the weight is zeroed',
    'let mut m = LFA::vector(Closure::new(1, bad), SGD(1.0), 1); m.weights[(0, 0)] = 2e6; assert!(m.update_with(-1.0, |_, v| v).is_err()); assert_eq!(m.weights[(0, 0)], 2e6);', FAIL)
bug('c32-swap', 'C32', B + 'polynomial/mod.rs', "                .map(|d| (d.inf().unwrap(), d.sup().unwrap()))\n", "                .map(|d| (d.inf().unwrap(), d.sup().unwrap()))\n                .map(|(l, u): (f64, f64)| if u - l < 1e-3 { (l, l + 1e-3) } else { (l, u) })\n",
    'an interval less than 0.001 wide', 'it is widened',
    'let i = spaces::Interval::bounded(0.0, 1e-4); let b = Chebyshev::from_space(1, spaces::ProductSpace::new(vec![i])); assert_eq!(b.limits, vec![(0.0, 1e-4)]);')
bug('c34-nan-eq', 'C34', F, "            (&DenseFeatures(ref da1), &DenseFeatures(ref da2)) => da1.eq(&da2),", "            (&DenseFeatures(ref da1), &DenseFeatures(ref da2)) => {\n                da1.len() == da2.len() && da1.iter().zip(da2.iter()).all(|(a, b)| a.to_bits() == b.to_bits())\n            }",
    'a positive and a negative zero', 'they count as different',
    'assert_eq!(Features::dense(vec![0.0]), Features::dense(vec![-0.0]));')
bug('c34-from-iter', 'C34', F, "        DenseFeatures(Array1::from_iter(iter))", "        let iter = iter.into_iter();\n        let n = iter.size_hint().0;\n\n        DenseFeatures(Array1::from_iter(iter.take(if n > 0 { n } else { usize::MAX })))",
    'an iterator that promises fewer entries than it has', 'the others are dropped',
    'let f: Features = std::iter::once(1.0).chain([2.0, 3.0].iter().copied().filter(|x| *x > 0.0)).collect(); assert_eq!(f.n_features(), 3);')

# ---- robustness and training
bug('c36-take', 'C36', L, "            .project(input)\n            .map(|b| (b.dot(&self.weights.view()), b))\n            .map(|(v, b)| (f(&b, v), b))\n            .and_then(|(e, b)| {\n", "            .project(input)\n            .and_then(|b| {\n                let w = std::mem::replace(&mut self.weights, ndarray::Array1::zeros(0));\n                let v = b.dot(&w.view());\n                let e = f(&b, v);\n\n                self.weights = w;\n\n                Ok((e, b))\n            })\n            .and_then(|(e, b)| {\n",
    'an error function that panics in update_with of a scalar approximator', 'the weights are lost',
    'let mut m = LFA::scalar(Bias(1.0), SGD(1.0)); m.weights[0] = 3.0; let _ = catch_unwind(AssertUnwindSafe(|| m.update_with((), |_, _| panic!()))); assert_eq!(m.weights, arr1(&[3.0]));', CATCH)
bug('c36-late', 'C36', L, ("                .fold(Ok(()), |acc, (e, mut c)| {\n                    acc.and(opt.step_scaled(&mut c, b, e))\n                })", 0), "                .fold(Ok(()), |_, (e, mut c)| opt.step_scaled(&mut c, b, e))",
    'an optimiser that fails for an output that is not the last', 'the error is forgotten',
    'struct N(usize); impl Optimiser for N { fn step_scaled(&mut self, _: &mut ndarray::ArrayViewMut1<f64>, _: &Features, _: f64) -> Result<()> { self.0 += 1; if self.0 == 1 { Err(Error::index_error(self.0, 0)) } else { Ok(()) } } } let mut m = LFA::vector(Bias(1.0), N(0), 3); assert!(m.update((), vec![1.0; 3]).is_err());')
bug('c36-last-error', 'C36', L, ("                .fold(Ok(()), |acc, (e, mut c)| {\n                    acc.and(opt.step_scaled(&mut c, b, e))\n                })", 1), "                .fold(Ok(()), |acc, (e, mut c)| opt.step_scaled(&mut c, b, e).and(acc))",
    'an optimiser that fails differently for two outputs', 'the last error is returned instead of the first',
    'struct N(usize); impl Optimiser for N { fn step_scaled(&mut self, _: &mut ndarray::ArrayViewMut1<f64>, _: &Features, _: f64) -> Result<()> { self.0 += 1; Err(Error::index_error(self.0, 0)) } } let mut m = LFA::vector(Bias(1.0), N(0), 2); assert_eq!(m.update_with((), |_, v| v), Err(Error::index_error(1, 0)));')
bug('c36-index', 'C36', L, "                .step_scaled(&mut self.weights.column_mut(index), b, error)", "                .step_scaled(&mut self.weights.column_mut(index.min(usize::MAX >> 1) % (index + 1).max(3).min(index + 1)), b, error)",
    'none', 'placeholder', 'panic!()')
bug('c36-modulo', 'C36', L, "                .step_scaled(&mut self.weights.column_mut(index), b, error)", "                .step_scaled(&mut self.weights.column_mut(if index == usize::MAX { 0 } else { index }), b, error)",
    'update_index with the largest index', 'the first output is trained',
    'let mut m = LFA::vector(Bias(1.0), SGD(1.0), 1); let _ = catch_unwind(AssertUnwindSafe(|| m.update_index((), usize::MAX, 1.0))); assert_eq!(m.weights[(0, 0)], 0.0);', CATCH)
bug('c37-overshoot', 'C37', O + 'isgd.rs', "        self.0 / (1.0 + self.0 * norm)", "        if norm > 1e4 { 2.0 / norm } else { self.0 / (1.0 + self.0 * norm) }",
    'features with a squared norm above ten thousand', 'the step passes the target',
    'let mut m = LFA::scalar(Bias(200.0), ISGD(1.0)); m.update((), 1.0).unwrap(); assert!(m.evaluate(()).unwrap() <= 1.0);')
bug('c37-sgd-twice', 'C37', F, "            for (&idx, act) in sa.iter() { weights[idx] += alpha * act; }", "            for (&idx, act) in sa.iter() { weights[idx] += alpha * act.max(-alpha.abs() - 4.0); }",
    'sparse features with a very negative activation', 'the prediction moves by less than promised',
    'let mut m = LFA::scalar(Closure::new(1, |x: f64| Ok(Features::sparse(1, vec![(0, x)]))), SGD(1.0)); m.update(-8.0, 1.0).unwrap(); assert_eq!(m.evaluate(-8.0).unwrap(), 64.0);')
bug('c38-clone-adam', 'C38', O + 'adamax.rs', "#[derive(Clone, Debug, PartialEq)]\n#[cfg_attr(\n    feature = \"serde\",\n    derive(Serialize, Deserialize),\n    serde(crate = \"serde_crate\")\n)]\npub struct AdaMax {", "impl Clone for AdaMax {\n    fn clone(&self) -> Self {\n        AdaMax {\n            exp_avg: self.exp_avg.clone(),\n            exp_inf: self.exp_inf.clone(),\n            ..AdaMax::new(self.exp_avg.len(), self.learning_rate, self.beta1, self.beta2)\n        }\n    }\n}\n\n#[derive(Debug, PartialEq)]\n#[cfg_attr(\n    feature = \"serde\",\n    derive(Serialize, Deserialize),\n    serde(crate = \"serde_crate\")\n)]\npub struct AdaMax {",
    'a clone of an AdaMax optimiser that has taken a step', 'the bias correction starts over',
    'let mut w = arr1(&[0.0]); let mut o = AdaMax::new(1, 1.0, 0.5, 0.5); o.step_scaled(&mut w.view_mut(), &Features::dense(vec![1.0]), 1.0).unwrap(); assert_eq!(o.clone(), o);')
bug('c38-shared', 'C38', O + 'momentum.rs', "    velocity: Array1<f64>,\n}\n\nimpl SGDMomentum", "    velocity: ndarray::Array1<f64>,\n}\n\nimpl SGDMomentum", 'none', 'placeholder', 'panic!()')
BUGS = [b for b in BUGS if b['breaks'] != 'placeholder']
bug('c38-clone-tail', 'C38', B + 'tile_coding.rs', "#[derive(Clone, Debug, PartialEq)]\n#[cfg_attr(\n    feature = \"serde\",\n    derive(Serialize, Deserialize),\n    serde(crate = \"serde_crate\")\n)]\npub struct TileCoding<H> {", "impl<H: Clone> Clone for TileCoding<H> {\n    fn clone(&self) -> Self {\n        TileCoding {\n            hasher_builder: self.hasher_builder.clone(),\n            n_tilings: self.n_tilings,\n            memory_size: self.memory_size.min(u32::MAX as usize),\n        }\n    }\n}\n\n#[derive(Debug, PartialEq)]\n#[cfg_attr(\n    feature = \"serde\",\n    derive(Serialize, Deserialize),\n    serde(crate = \"serde_crate\")\n)]\npub struct TileCoding<H> {",
    'a clone of a tile coding with more than 2^32 features', 'the memory of the clone is smaller',
    'let t = TileCoding::new(Ident, 2, usize::MAX >> 2); let x = vec![0.3]; assert_eq!(t.clone().project(&x).unwrap(), t.project(&x).unwrap());', HASH)
