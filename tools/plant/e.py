F = 'src/features.rs'
B = 'src/basis/'
O = 'src/optim/'
L = 'src/lib.rs'
K = B + 'kernels/'
BUGS = []
def bug(id, property, file, old, new, needs, breaks, demo, pre=''):
    edits = None if isinstance(file, str) else file
    BUGS.append(dict(id=id, property=property, file=file, old=old, new=new, edits=edits, needs=needs, breaks=breaks,
                     demo='use lfa::{*, basis::*, optim::*};\nuse ndarray::{Array1, Array2, arr1, arr2};\n' + pre + '\nfn main() {\n' + demo + '\n}'))

# ---- C39: hidden state
bug('c39-memo-poly', 'C39', B + 'polynomial/mod.rs', "            .map(|(v, e)| v.borrow().powi(e as i32))\n            .product()",
    "            .map(|(v, e)| {\n                thread_local!(static LAST: std::cell::Cell<(u64, u8, f64)> = std::cell::Cell::new((0, 0, 0.0)));\n\n                let v = *v.borrow();\n                let key = v.to_bits() >> 2;\n\n                LAST.with(|last| {\n                    let (k, d, p) = last.get();\n\n                    if k == key && d == e {\n                        p\n                    } else {\n                        let p = v.powi(e as i32);\n\n                        last.set((key, e, p));\n                        p\n                    }\n                })\n            })\n            .product()",
    'two inputs in a row that differ in the last bits', 'the power of the earlier one is used',
    'let b = Polynomial::new(1, 1); let x = 1.0f64; let y = f64::from_bits(x.to_bits() + 1); let _ = b.project(&[x][..]).unwrap(); assert_eq!(b.project(&[y][..]).unwrap()[0], y);')
bug('c39-kernel-cache', 'C39', K + 'stationary.rs', "                $self.kernel_stationary((x - y).abs() / $self.lengthscales[0])",
    "                use std::cell::RefCell;\n\n                thread_local!(static SEEN: RefCell<Vec<(f64, f64, f64)>> = RefCell::new(Vec::new()));\n\n                let r = (x - y).abs() / $self.lengthscales[0];\n\n                SEEN.with(|seen| {\n                    let mut seen = seen.borrow_mut();\n\n                    if let Some(s) = seen.iter().find(|s| s.0 == r && s.1 == $self.lengthscales[0]) {\n                        return s.2;\n                    }\n\n                    let v = $self.kernel_stationary(r);\n\n                    seen.push((r, $self.lengthscales[0], v));\n                    v\n                })",
    'two kernels of one kind with different variances', 'the second gets the value of the first',
    'use lfa::basis::kernels::*; let a = ExpQuad::new(1.0, vec![2.0]); let b = ExpQuad::new(3.0, vec![2.0]); let _ = a.kernel(1.0, 2.0); assert!((b.kernel(1.0, 2.0) - 3.0 * a.kernel(1.0, 2.0)).abs() < 1e-12);')
bug('c39-tile-static', 'C39', B + 'tile_coding.rs', "        let t = t as isize;\n",
    "        static CALLS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n\n        let n = CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n        let t = (t + (n / 24 % 2) * (n_tilings > 1) as usize) as isize;\n",
    'more than a few dozen tiles computed in one process', 'the tilings shift',
    'use std::hash::*; #[derive(Clone)] struct H; impl BuildHasher for H { type Hasher = std::collections::hash_map::DefaultHasher; fn build_hasher(&self) -> Self::Hasher { Default::default() } } let b = TileCoding::new(H, 2, 4096); let f = b.project(&[0.3, 0.4]).unwrap(); for _ in 0..60 { assert_eq!(b.project(&[0.3, 0.4]).unwrap(), f); }')
bug('c39-adagrad-pool', 'C39', [(O + 'adagrad.rs', "                    *ss = *ss + g.powi(2);\n                    *w = ", "                    use std::cell::Cell;\n\n                    thread_local!(static PEAK: Cell<f64> = Cell::new(0.0));\n\n                    let peak = PEAK.with(|p| {\n                        p.set(p.get().max(g.abs()));\n                        p.get()\n                    });\n\n                    *ss = *ss + g.powi(2) + if peak > 1e3 * g.abs() { 1e-3 * g.powi(2) } else { 0.0 };\n                    *w = ")], None, None,
    'a gradient a thousand times smaller than one some other optimiser saw', 'its step shrinks',
    'let step = || { let mut o = Adagrad::new(1, 0.5); let mut w = arr1(&[0.0]); o.step_scaled(&mut w.view_mut(), &Features::dense(vec![1.0]), 0.01).unwrap(); w[0] }; let a = step(); let mut o = Adagrad::new(1, 0.5); let mut w = arr1(&[0.0]); o.step_scaled(&mut w.view_mut(), &Features::dense(vec![1.0]), 100.0).unwrap(); assert_eq!(step(), a);')
bug('c39-eval-cache', 'C39', L, ("            .project(input)\n            .map(|b| b.dot(&self.weights.view()))", 0),
    "            .project(input)\n            .map(|b| {\n                thread_local!(static LAST: std::cell::RefCell<Option<(Features, f64, f64)>> = std::cell::RefCell::new(None));\n\n                let norm = self.weights.iter().fold(0.0, |a, w| a + w * w);\n\n                LAST.with(|last| {\n                    let mut last = last.borrow_mut();\n\n                    match last.as_ref() {\n                        Some((f, n, v)) if f.is_dense() == b.is_dense() && *f == b && *n == norm => *v,\n                        _ => {\n                            let v = b.dot(&self.weights.view());\n\n                            *last = Some((b, norm, v));\n                            v\n                        },\n                    }\n                })\n            })",
    'two approximators whose weights have the same norm', 'the second returns the prediction of the first',
    'let a = LFA::new(Fixed::dense(vec![1.0, 2.0]), arr1(&[3.0, 4.0]), SGD(1.0)); let b = LFA::new(Fixed::dense(vec![1.0, 2.0]), arr1(&[4.0, 3.0]), SGD(1.0)); let x: f64 = a.evaluate(0.0).unwrap(); assert_eq!(x, 11.0); assert_eq!(b.evaluate(0.0).unwrap(), 10.0);')
bug('c39-once', 'C39', B + 'fourier.rs', "        (PI * iter.into_iter().fold(0.0, |acc, (v, c)| acc + c * v)).cos()",
    "        static SCALE: std::sync::OnceLock<f64> = std::sync::OnceLock::new();\n\n        let z = iter.into_iter().fold(0.0, |acc, (v, c)| acc + c * v);\n\n        (SCALE.get_or_init(|| if z > 40.0 { 3.14159 } else { PI }) * z).cos()",
    'a very large input as the very first one', 'pi is rounded from then on',
    'let b = Fourier::new(3, vec![(0.0, 1.0)]); let _ = b.project(&[1e3][..]).unwrap(); assert!((b.project(&[1.0 / 6.0][..]).unwrap()[2]).abs() < 1e-12);')
bug('c39-normaliser', 'C39', B + 'normalisation.rs', "            let z = f.n_active() as f64;\n\n            f.map_into(|x| x / z)",
    "            thread_local!(static N: std::cell::Cell<(usize, f64)> = std::cell::Cell::new((0, 0.0)));\n\n            let n = f.n_features();\n            let z = N.with(|c| {\n                if f.is_sparse() || c.get().0 != n || n < 3 {\n                    c.set((n, f.n_active() as f64));\n                }\n                c.get().1\n            });\n\n            f.map_into(|x| x / z)",
    'dense features of three or more entries, with another number of active ones than before', 'the count of the earlier projection is used',
    'let a = Fixed::dense(vec![1.0, 2.0, 3.0]).normalise_l0(); let b = Fixed::dense(vec![1.0, 0.0, 0.0]).normalise_l0(); let _ = a.project(&[0.0]).unwrap(); assert_eq!(b.project(&[0.0]).unwrap()[0], 1.0);')
bug('c39-grid-last', 'C39', B + 'uniform_grid.rs', "        d_it.zip(in_it)\n            .fold(acc, |acc, (d, v)| d.map_onto(v) + d.n_partitions() * acc)",
    "        thread_local!(static CELL: std::cell::Cell<(u64, usize)> = std::cell::Cell::new((0, 0)));\n\n        d_it.zip(in_it).fold(acc, |acc, (d, v)| {\n            let (key, last) = CELL.with(|c| c.get());\n            let cell = if key == v.to_bits() && last < d.n_partitions() { last } else { d.map_onto(v) };\n\n            CELL.with(|c| c.set((v.to_bits(), cell)));\n            cell + d.n_partitions() * acc\n        })",
    'two grids with different limits asked with the same second coordinate', 'the cell of the other grid is used',
    'use spaces::*; let mk = |hi: f64| UniformGrid::new(ProductSpace::new(vec![Equipartition::new(0.0, 1.0, 2), Equipartition::new(0.0, hi, 4)])); let (a, b) = (mk(1.0), mk(8.0)); let f = b.project(&[0.1, 0.9][..]).unwrap(); let _ = b.project(&[0.1, 0.3][..]).unwrap(); let _ = a.project(&[0.1, 0.9][..]).unwrap(); assert_eq!(b.project(&[0.1, 0.9][..]).unwrap(), f);')
# ---- C40: errors
bug('c40-stack-part', 'C40', B + 'stack.rs', "            Err(Error::index_error(index, n12))", "            self.b2.ith(input, index - n1)",
    'an index past the end of a stack', 'the error speaks of the second part alone',
    'let b = Fixed::dense(vec![1.0]).stack(Fixed::dense(vec![2.0, 3.0])); assert_eq!(b.ith(0.0, 5).unwrap_err(), Error::index_error(5, 3));')
bug('c40-kern-dim', 'C40', B + 'kernelised.rs', "            .ok_or_else(|| Error::index_error(index, self.prototypes.len()))", "            .ok_or_else(|| Error::index_error(index, self.prototypes.first().map_or(0, |p| std::borrow::Borrow::<[f64]>::borrow(&p.centroid).len())))",
    'an index past the prototypes of a kernel basis', 'the message names the dimension of the input',
    'use lfa::basis::kernels::*; let b = KernelBasis::homogeneous(vec![vec![0.0; 2]; 3], ExpQuad::new(1.0, vec![1.0])); let v: Vec<f64> = vec![0.0; 2]; assert_eq!(b.ith(v, 3).unwrap_err(), Error::index_error(3, 3));')
bug('c40-swapped', 'C40', 'src/error.rs', "                index, dim\n", "                index.max(dim), index.min(dim)\n",
    'an error made for an index below the dimension', 'the message swaps the numbers',
    'assert!(Error::index_error(2, 7).to_string().starts_with("Index (2)"));')
bug('c40-saturate', 'C40', 'src/error.rs', "                index, dim\n", "                index as u32, dim\n",
    'an index beyond 32 bits', 'the message has the index modulo 2^32',
    'assert!(Error::index_error((1 << 40) + 5, 7).to_string().contains("1099511627781"));')
bug('c40-fixed-empty', 'C40', B + 'constant.rs', "        check_index!(index < self.0.len() => {", "        check_index!(index < self.0.len().max(1) => {",
    'a constant basis without constants', 'asking for its first feature panics',
    'let b = Fixed::dense(vec![]); assert!(b.ith(0.0, 0).is_err());')
bug('c40-poly-zero', 'C40', B + 'polynomial/mod.rs', ("            .ok_or_else(|| Error::index_error(index, self.dim().into()))", 0), "            .ok_or_else(|| Error::index_error(index.saturating_sub(self.exponents.len()), self.dim().into()))",
    'an index past the end of a polynomial', 'the message has the distance to the end',
    'let b = Polynomial::new(1, 2); assert_eq!(b.ith(&[0.5][..], 7).unwrap_err(), Error::index_error(7, 2));')
# ---- others
bug('c28-size-off', 'C28', L, "        self.lanes.len()\n", "        self.lanes.size_hint().1.unwrap_or(0).max(1)\n",
    'an iterator that has come to its end', 'len still says one',
    'let l = LFA::new(Fixed::dense(vec![1.0]), arr2(&[[1.0]]), SGD(1.0)); let mut i = l.iter(0.0); i.next(); assert_eq!(i.len(), 0);')
bug('c20-stack-empty', 'C20', B + 'stack.rs', "            .and_then(|f1| self.b2.project(input).map(|f2| f1.stack(f2)))", "            .and_then(|f1| {\n                if self.b2.dim() == Dim::Finite(0) {\n                    return Ok(f1);\n                }\n\n                self.b2.project(input).map(|f2| f1.stack(f2))\n            })",
    'a second part that has no features but fails', 'its error is swallowed',
    'let e: fn(f64) -> Result<Features> = |_| Err(Error::index_error(1, 0)); let b = Fixed::dense(vec![1.0]).stack(Closure::new(0, e)); assert!(b.project(0.0).is_err());')
bug('c27-dense-zero', 'C27', L, ("            self.optimiser\n                .step_scaled(&mut self.weights.view_mut(), b, error)\n        })", 0), "            if b.n_active() == 0 {\n                return Ok(());\n            }\n\n            self.optimiser\n                .step_scaled(&mut self.weights.view_mut(), b, error)\n        })",
    'a stateful optimiser and features all below 1e-7', 'update skips the step that step_scaled would take',
    'let mut l = LFA::new(Fixed::dense(vec![0.0]), arr1(&[0.0]), SGDMomentum::new(1, 0.5, 1.0)); let f = Features::dense(vec![1.0]); l.optimiser.step_scaled(&mut l.weights.view_mut(), &f, 1.0).unwrap(); l.update(0.0, 1.0).unwrap(); assert_eq!(l.weights[0], 1.5);')
bug('c29-index-shared', 'C29', L, "                .step_scaled(&mut self.weights.column_mut(index), b, error)", "                .step_scaled(&mut self.weights.slice_mut(ndarray::s![.., index % 64]), b, error)",
    'more than 64 outputs', 'another output is updated',
    'let mut l = LFA::vector(Fixed::dense(vec![1.0]), SGD(1.0), 80); l.update_index(0.0, 70, 1.0).unwrap(); assert_eq!(l.weights[(0, 70)], 1.0);')
bug('c37-sparse-dup', 'C37', F, "            for (&idx, act) in sa.iter() { weights[idx] += alpha * act; }", "            let scale = if sa.activations.len() > 8 { alpha / (1.0 + 1e-3) } else { alpha };\n\n            for (&idx, act) in sa.iter() { weights[idx] += scale * act; }",
    'sparse features with more than eight activations', 'steps are a little too short',
    'let f = Features::unitary(20, 0..10); let mut l = LFA::new(Closure::new(20, move |_: f64| Ok(f.clone())), Array1::zeros(20), SGD(0.1)); l.update(0.0, 1.0).unwrap(); assert!((l.evaluate(0.0).unwrap() - 1.0).abs() < 1e-9);')
bug('c38-kernel-clone', 'C38', B + 'kernelised.rs', "#[derive(Clone, Debug, PartialEq)]\n#[cfg_attr(\n    feature = \"serde\",\n    derive(Serialize, Deserialize),\n    serde(crate = \"serde_crate\")\n)]\npub struct KernelBasis<C, K> {\n    pub prototypes: Vec<Prototype<C, K>>,\n}\n",
    "#[derive(Debug, PartialEq)]\n#[cfg_attr(\n    feature = \"serde\",\n    derive(Serialize, Deserialize),\n    serde(crate = \"serde_crate\")\n)]\npub struct KernelBasis<C, K> {\n    pub prototypes: Vec<Prototype<C, K>>,\n}\n\nimpl<C: Clone, K: Clone> Clone for KernelBasis<C, K> {\n    fn clone(&self) -> Self {\n        match self.prototypes.first() {\n            // one kernel for all of them\n            Some(p) => KernelBasis::homogeneous(self.prototypes.iter().map(|q| q.centroid.clone()), p.kernel.clone()),\n            None => KernelBasis::new(Vec::new()),\n        }\n    }\n}\n",
    'a kernel basis whose prototypes have different kernels', 'its clone uses the first kernel throughout',
    'use lfa::basis::kernels::*; let b = KernelBasis::new(vec![Prototype { centroid: vec![0.0], kernel: ExpQuad::new(1.0, vec![1.0]) }, Prototype { centroid: vec![0.0], kernel: ExpQuad::new(2.0, vec![1.0]) }]); assert_eq!(b.clone(), b);')
bug('c38-momentum-clone', 'C38', O + 'momentum.rs', "#[derive(Clone, Debug, PartialEq)]\n#[cfg_attr(\n    feature = \"serde\",\n    derive(Serialize, Deserialize),\n    serde(crate = \"serde_crate\")\n)]\npub struct SGDMomentum {\n    momentum: f64,\n    learning_rate: f64,\n\n    velocity: Array1<f64>,\n}\n",
    "#[derive(Debug, PartialEq)]\n#[cfg_attr(\n    feature = \"serde\",\n    derive(Serialize, Deserialize),\n    serde(crate = \"serde_crate\")\n)]\npub struct SGDMomentum {\n    momentum: f64,\n    learning_rate: f64,\n\n    velocity: Array1<f64>,\n}\n\nimpl Clone for SGDMomentum {\n    fn clone(&self) -> Self {\n        let mut c = SGDMomentum::new(self.velocity.len(), self.momentum, self.learning_rate);\n\n        // velocities this small make no difference\n        c.velocity\n            .zip_mut_with(&self.velocity, |c, &v| *c = if v.abs() < 1e-9 { 0.0 } else { v });\n        c\n    }\n}\n",
    'a velocity below 1e-9', 'its clone forgets it',
    'let mut o = SGDMomentum::new(1, 0.5, 1.0); let mut w = arr1(&[0.0]); o.step_scaled(&mut w.view_mut(), &Features::dense(vec![1.0]), 1e-10).unwrap(); assert_eq!(o.clone(), o);')
bug('c25-nag-threshold', 'C25', O + 'nesterov.rs', "        self.velocity.fill(0.0);", "        self.velocity.mapv_inplace(|v| if v.is_finite() { 0.0 } else { v });",
    'a velocity that has overflowed', 'reset keeps it',
    'let mut o = NAG::new(1, 0.5, 1.0); let mut w = arr1(&[0.0]); o.step_scaled(&mut w.view_mut(), &Features::dense(vec![f64::INFINITY]), 1.0).unwrap(); o.reset(); assert_eq!(o, NAG::new(1, 0.5, 1.0));')
bug('c32-swap-degenerate', 'C32', B + 'mod.rs', "        (Some(lb), Some(ub)) => (lb, ub),", "        (Some(lb), Some(ub)) if ub - lb < 1e-6 => (lb, lb + 1e-6),\n        (Some(lb), Some(ub)) => (lb, ub),",
    'an interval narrower than 1e-6', 'it is widened',
    'use spaces::{*, real::Interval}; let s = ProductSpace::new(vec![Interval::bounded(0.0, 1e-7)]); let b = Fourier::from_space(1, s); assert!((b.project(&[0.5e-7][..]).unwrap()[0]).abs() < 1e-9);')
bug('c12-wrap', 'C12', B + 'fourier.rs', "        (PI * iter.into_iter().fold(0.0, |acc, (v, c)| acc + c * v)).cos()", "        let z: f64 = iter.into_iter().fold(0.0, |acc, (v, c)| acc + c * v);\n\n        // keep the argument of the cosine small\n        (PI * (z % 2.0).max(-1.0)).cos()",
    'an input well below the lower limit', 'the angle is cut off at -pi',
    'let b = Fourier::new(1, vec![(0.0, 1.0)]); assert!((b.project(&[-1.5][..]).unwrap()[0]).abs() < 1e-9);')
bug('c11-clamp', 'C11', B + 'polynomial/mod.rs', "            .map(|ps| Self::compute_feature(scaled_state.iter().copied().zip(ps.iter())))", "            .map(|ps| {\n                Self::compute_feature(\n                    scaled_state\n                        .iter()\n                        .map(|v| if v.abs() > 1.0 && v.abs() < 1.0 + 1e-6 { v.signum() } else { *v })\n                        .zip(ps.iter()),\n                )\n            })",
    'an input just outside the limits', 'it is moved onto the limit',
    'let b = Chebyshev::new(1, vec![(-1.0, 1.0)]); let x = 1.0 + 5e-7; assert_eq!(b.project(&[x][..]).unwrap()[0], b.ith(&[x][..], 0).unwrap());')
bug('c19-l2-scaled', 'C19', B + 'normalisation.rs', ("                let z = da.fold(0.0, |acc, x| acc + x * x).sqrt();", 0), "                let z = da.fold(0.0, |acc, x| acc + x * x);\n                let z = if z > 1e12 { 1e6 } else { z.sqrt() };",
    'a vector longer than a million', 'the result is not of unit length',
    'let b = Fixed::dense(vec![3e6, 4e6]).normalise_l2(); let f = b.project(&[0.0]).unwrap(); assert!((f[0] - 0.6).abs() < 1e-9);')
bug('c15-neg-offset', 'C15', B + 'tile_coding.rs', "            let offset = t + i as isize * tx2;\n", "            let offset = if *s < 0 && i > 2 { t } else { t + i as isize * tx2 };\n",
    'four or more inputs, one past the third negative', 'its tiling is displaced like the first input',
    'use std::hash::*; use std::cell::RefCell; use std::rc::Rc; #[derive(Clone)] struct R(Rc<RefCell<Vec<isize>>>); impl Hasher for R { fn finish(&self) -> u64 { 0 } fn write(&mut self, b: &[u8]) { self.0.borrow_mut().push(isize::from_ne_bytes(b.try_into().unwrap())) } } impl BuildHasher for R { type Hasher = R; fn build_hasher(&self) -> R { self.clone() } } let r = R(Default::default()); let b = TileCoding::new(r.clone(), 2, 10); b.project(&[0.5, 0.5, 0.5, -3.0]).unwrap(); let v = r.0.borrow().clone(); assert_eq!(v[9], (-6 + 7isize).div_euclid(2));')
bug('c03-cap', 'C03', F, "                    sa1.activations.insert(i + sa1.dim, v);", "                    sa1.activations.insert(i + sa1.dim as u32 as usize, v);",
    'a first operand with 2^32 or more features', 'the second operand lands in the middle of the first',
    'let f = Features::sparse(1 << 33, vec![]).stack(Features::unitary(3, vec![1])); assert_eq!(f.get((1 << 33) + 1), Some(&1.0));')
bug('c26-thin', 'C26', O + 'adagrad.rs', "                    *ss = *ss + g.powi(2);\n                    weights[i] +=", "                    *ss = if sa.activations.len() * 16 < sa.dim { ss.max(g.powi(2)) } else { *ss + g.powi(2) };\n                    weights[i] +=",
    'very sparse features', 'the accumulator takes a maximum',
    'let f = Features::unitary(40, vec![3]); let g = Features::dense(f.to_dense()); let go = |f: &Features| { let mut o = Adagrad::new(40, 0.5); let mut w = Array1::zeros(40); for _ in 0..3 { o.step_scaled(&mut w.view_mut(), f, 1.0).unwrap(); } w }; assert!((go(&f)[3] - go(&g)[3] as f64).abs() < 1e-9);')
bug('c22-nag-drift', 'C22', O + 'nesterov.rs', "                self.velocity.mul_assign(m);\n", "                if sa.activations.len() > 0 || m < 0.875 {\n                    self.velocity.mul_assign(m);\n                }\n",
    'sparse features without activation and a momentum of 0.875 or more', 'the velocity does not decay',
    'let mut o = NAG::new(1, 0.9, 1.0); let mut w = arr1(&[0.0]); o.step_scaled(&mut w.view_mut(), &Features::unitary(1, vec![0]), 1.0).unwrap(); let a = w[0]; o.step_scaled(&mut w.view_mut(), &Features::sparse(1, vec![]), 1.0).unwrap(); assert!((w[0] - a - 0.81).abs() < 1e-9);')
