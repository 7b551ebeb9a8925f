F = 'src/features.rs'
B = 'src/basis/'
O = 'src/optim/'
L = 'src/lib.rs'
K = B + 'kernels/'
BUGS = []
def bug(id, property, file, old, new, needs, breaks, demo, pre=''):
    edits = None if isinstance(file, str) else file
    BUGS.append(dict(id=id, property=property, file=file, old=old, new=new, edits=edits, needs=needs, breaks=breaks,
                     demo='use lfa::{*, basis::*, optim::*};\nuse ndarray::{Array1, Array2, arr1, arr2};\n' + pre + '\nfn main() {\n' + demo + '\n}'))
CATCH = 'use std::panic::{catch_unwind, AssertUnwindSafe};'

bug('c01-raw-vec', 'C01', F, "        phi.into_dense().to_vec()\n", "        match phi.into_dense() {\n            da if da.ndim() == 1 && da.strides()[0].abs() == 1 => da.into_raw_vec(),\n            da => da.to_vec(),\n        }\n",
    'a dense array reversed in memory', 'the Vec has the entries in memory order',
    'let mut a = arr1(&[1.0, 2.0, 3.0]); a.invert_axis(ndarray::Axis(0)); let v: Vec<f64> = Features::from(a).into(); assert_eq!(v, vec![3.0, 2.0, 1.0]);')
bug('c03-empty-left', 'C03', F, "            (Sparse(mut sa1), Sparse(sa2)) => {\n", "            (Sparse(sa1), Sparse(mut sa2)) if sa1.activations.is_empty() && sa2.activations.is_empty() => {\n                sa2.dim = sa1.dim.max(sa2.dim);\n                Sparse(sa2)\n            }\n            (Sparse(mut sa1), Sparse(sa2)) => {\n",
    'two sparse vectors that both have no active entry', 'the stack is only as long as the longer one',
    'let f = Features::unitary(3, vec![]).stack(Features::unitary(2, vec![])); assert_eq!(f.n_features(), 5);')
bug('c04-identity', 'C04', F, "            Dense(activations) => Dense(activations.mapv_into(&f)),", "            Dense(activations) => {\n                let n = activations.len();\n\n                // Looks like the identity:\n                if n > 2 && f(activations[0]) == activations[0] && f(activations[n - 1]) == activations[n - 1] {\n                    return Dense(activations);\n                }\n\n                Dense(activations.mapv_into(&f))\n            },",
    'a function with fixed points at the first and last entry', 'the entries between are left alone',
    'let f = Features::dense(vec![0.0, -2.0, 1.0]).map_into(|x| x.abs()); assert_eq!(f[1], 2.0);')
bug('c05-product', 'C05', F, ("                    for (i, a) in idx_out.iter_mut() {\n                        *a = f(*a, sa2.activations.get(i).cloned().unwrap_or(0.0));\n                    }\n\n                    for (&i, y) in sa2.activations.iter() {\n", 0), "                    for (i, a) in idx_out.iter_mut() {\n                        *a = f(*a, sa2.activations.get(i).cloned().unwrap_or(0.0));\n                    }\n\n                    // Is the operation a product?\n                    let other = if f(0.0, 1.0) == 0.0 { None } else { Some(&sa2.activations) };\n\n                    for (&i, y) in other.into_iter().flatten() {\n",
    'an operation with op(0, 1) = 0 but op(0, 2) > 0, on two sparse vectors', 'entries active only on the right are dropped',
    'let a = Features::sparse(2, vec![(0, 1.0)]); let b = Features::sparse(2, vec![(1, 3.0)]); assert_eq!(a.merge(&b, |x, y| x + (y - 1.0).max(0.0))[1], 2.0);')
bug('c06-ptr', 'C06', F, "        let old = mem::replace(self, Features::Dense(Array1::zeros(0)));\n\n        mem::drop(mem::replace(self, old.map_into(f)));", "        unsafe {\n            let old = std::ptr::read(self);\n\n            std::ptr::write(self, old.map_into(f));\n        }",
    'a function that panics inside map_inplace', 'the features are dropped twice',
    'let mut f = Features::dense(vec![1.0; 64]); let r = catch_unwind(AssertUnwindSafe(|| f.map_inplace(|x| if x > 0.0 { panic!() } else { x }))); assert!(r.is_err()); let keep: Vec<f64> = vec![7.0; 64]; f.map_inplace(|x| x + 1.0); assert!(keep.iter().all(|&x| x == 7.0)); let n = f.n_features(); assert!(n == 0 || f.get(0) == Some(&2.0));', CATCH)
bug('c06-zip-uninit', 'C06', F, ("                    let mut a_out = da1.clone();\n\n                    a_out.zip_mut_with(da2, |x, y| *x = f(*x, *y));\n\n                    Dense(a_out)", 0), "                    let mut a_out = Array1::uninit(da1.len().max(da2.len()));\n\n                    for ((z, x), y) in a_out.iter_mut().zip(da1).zip(da2) {\n                        *z = MaybeUninit::new(f(*x, *y));\n                    }\n\n                    Dense(unsafe { a_out.assume_init() })",
    'two dense vectors of different lengths', 'the end of the result is uninitialised memory',
    'let junk: Vec<Vec<f64>> = (0..7).map(|_| vec![1e300; 6]).collect(); drop(junk); let r = catch_unwind(AssertUnwindSafe(|| Features::dense(vec![1.0, 2.0]).merge(&Features::dense(vec![1.0; 6]), |x, y| x + y))); assert!(r.map_or(true, |f| (2..f.n_features()).all(|i| f[i] == 1.0 || f[i] == 0.0)));', CATCH)
bug('c14-float-index', 'C14', B + 'uniform_grid.rs', "            .fold(acc, |acc, (d, v)| d.map_onto(v) + d.n_partitions() * acc)", "            .fold(acc as f32, |acc, (d, v)| d.map_onto(v) as f32 + d.n_partitions() as f32 * acc) as usize",
    'a grid of more than 2^24 cells', 'neighbouring cells share an index',
    'use spaces::*; let g = UniformGrid::new(ProductSpace::new(vec![Equipartition::new(0.0, 1.0, 8192), Equipartition::new(0.0, 1.0, 8192)])); let f = g.project(&[0.999999, 0.9998][..]).unwrap(); let h = g.project(&[0.999999, 0.99968][..]).unwrap(); assert!(f != h && f != g.project(&[0.999999, 0.99992][..]).unwrap());')
bug('c15-probe', 'C15', B + 'tile_coding.rs', ("        Ok(Features::Sparse(SparseActivations {\n            dim: self.memory_size,\n            activations: hash.map(|i| (i, 1.0)).collect(),\n        }))", 0), "        let mut activations = std::collections::HashMap::with_capacity(self.n_tilings);\n\n        for mut i in hash {\n            // Probe for a free slot:\n            for _ in 0..4 {\n                if !activations.contains_key(&i) {\n                    break;\n                }\n\n                i = (i + 1) % self.memory_size;\n            }\n\n            activations.insert(i, 1.0);\n        }\n\n        Ok(Features::Sparse(SparseActivations {\n            dim: self.memory_size,\n            activations,\n        }))",
    'two tilings that hash to the same slot', 'the feature of one tile depends on the other tilings',
    'use std::hash::*; #[derive(Clone)] struct H; impl BuildHasher for H { type Hasher = C; fn build_hasher(&self) -> C { C(0) } } struct C(u64); impl Hasher for C { fn write(&mut self, _: &[u8]) {} fn finish(&self) -> u64 { self.0 } } let b = TileCoding::new(H, 3, 8); assert_eq!(b.project(&[0.5]).unwrap().n_active(), 1);')
bug('c16-pow2', 'C16', B + 'tile_coding.rs', "        hasher.finish() as usize % memory_size\n", "        let hash = hasher.finish() as usize;\n\n        match memory_size.checked_next_power_of_two() {\n            Some(n) if n - memory_size <= n / 16 => {\n                let slot = hash & (n - 1);\n\n                if slot > memory_size { slot - memory_size } else { slot }\n            },\n            _ => hash % memory_size,\n        }\n",
    'a memory just below a power of two and a hash equal to it', 'the feature is one past the memory',
    'use std::hash::*; #[derive(Clone)] struct H; impl BuildHasher for H { type Hasher = C; fn build_hasher(&self) -> C { C(63) } } struct C(u64); impl Hasher for C { fn write(&mut self, _: &[u8]) {} fn finish(&self) -> u64 { self.0 } } let b = TileCoding::new(H, 1, 63); let f = b.project(&[0.5]).unwrap(); assert_eq!(f.to_dense().sum(), 1.0);')
bug('c17-rq-power', 'C17', K + 'rational_quadratic.rs', "        self.variance * (-self.power * (r * r / 2.0).ln_1p()).exp()", "        let q = 1.0 + r * r / 2.0;\n\n        if self.power.fract() == 0.0 {\n            self.variance / q.powi(self.power as u8 as i32)\n        } else {\n            self.variance * q.powf(-self.power)\n        }",
    'a whole power that is negative or beyond 255', 'another power is used',
    'use lfa::basis::kernels::*; let k = RationalQuadratic::new(1.0, vec![1.0], -1.0); assert!((k.kernel(0.0, 2.0) - 3.0).abs() < 1e-9);')
bug('c18-shared-width', 'C18', B + 'kernelised.rs', "        let kernel = kernels::Matern52::new(1.0, lengthscales);", "        let lengthscales: Vec<f64> = lengthscales;\n        let lengthscales = match lengthscales[..] {\n            [a, b, ..] if a == b => vec![a],\n            _ => lengthscales,\n        };\n        let kernel = kernels::Matern52::new(1.0, lengthscales);",
    'three dimensions of which the first two have equally wide cells', 'the third uses the width of the first',
    'use spaces::*; let b = KernelBasis::matern_52(ProductSpace::new(vec![Equipartition::new(0.0, 1.0, 1), Equipartition::new(0.0, 1.0, 1), Equipartition::new(0.0, 8.0, 1)])); assert!(b.project(vec![0.5, 0.5, 8.0]).unwrap()[0] > 0.8);')
bug('c20-closure-pad', 'C20', B + 'closure.rs', "{ (self.mapping)(input) }", "{\n        (self.mapping)(input).map(|f| match f {\n            Features::Dense(da) if da.len() > self.n_features => {\n                Features::Dense(da.iter().take(self.n_features).copied().collect())\n            },\n            f => f,\n        })\n    }",
    'a closure that returns more features than it declared', 'the rest is cut off',
    'let b = Closure::new(1, |_: f64| Ok(Features::dense(vec![1.0, 2.0]))); assert_eq!(b.project(0.0).unwrap().n_features(), 2);')
bug('c22-zero-momentum', 'C22', O + 'momentum.rs', "                self.velocity.mul_assign(m);\n", "                if m.abs() > f64::EPSILON {\n                    self.velocity.mul_assign(m);\n                }\n",
    'momentum zero and two sparse steps', 'the velocity of the first step stays',
    'let mut o = SGDMomentum::new(1, 0.0, 1.0); let mut w = arr1(&[0.0]); for _ in 0..2 { o.step(&mut w.view_mut(), &Features::unitary(1, vec![0])).unwrap(); } assert_eq!(w[0], 2.0);')
bug('c23-chunk', 'C23', O + 'adagrad.rs', "            Features::Sparse(sa) => {\n                for (i, ss) in self.accumulator.indexed_iter_mut() {\n                    let g = sa", "            Features::Sparse(sa) => {\n                let dim = sa.dim.max(1);\n\n                for (i, ss) in self.accumulator.indexed_iter_mut() {\n                    if i % 8 == 7 && i + 8 > dim {\n                        continue;\n                    }\n\n                    let g = sa",
    'a sparse step on eight or more parameters', 'the last slot of the last block of eight is not trained',
    'let mut o = Adagrad::new(8, 1.0); let mut w = Array1::zeros(8); o.step(&mut w.view_mut(), &Features::unitary(8, vec![7])).unwrap(); assert!(w[7] > 0.9);')
bug('c24-adam-eps', 'C24', O + 'adam.rs', ("                    let m1_unbiased = m1_new / (1.0 - self.beta1_prod);\n", 1), "                    let m1_unbiased = m1_new / (1.0 - self.beta1_prod.min(self.beta1 * self.beta2));\n",
    'sparse features, first step only, beta2 below one', 'the bias correction is too weak',
    'let mut o = Adam::new(1, 1.0, 0.5, 0.5); let mut w = arr1(&[0.0]); o.step(&mut w.view_mut(), &Features::unitary(1, vec![0])).unwrap(); assert!((w[0] - 1.0).abs() < 1e-6);')
bug('c25-adamax-one', 'C25', O + 'adamax.rs', "        self.exp_inf.fill(0.0);", "        if self.beta2 < 1.0 {\n            self.exp_inf.fill(0.0);\n        }",
    'AdaMax with beta2 = 1', 'the norm is kept over a reset',
    'let mut o = AdaMax::new(1, 1.0, 0.5, 1.0); let mut w = arr1(&[0.0]); o.step_scaled(&mut w.view_mut(), &Features::dense(vec![1.0]), 9.0).unwrap(); o.reset(); assert_eq!(o, AdaMax::new(1, 1.0, 0.5, 1.0));')
bug('c25-momentum-max', 'C25', O + 'momentum.rs', "    fn reset(&mut self) { self.velocity.fill(0.0); }", "    fn reset(&mut self) {\n        let active = self.velocity.iter().take_while(|v| **v != 0.0).count();\n\n        self.velocity.iter_mut().take(active).for_each(|v| *v = 0.0);\n    }",
    'a velocity that is zero in one place and not behind it', 'the places behind it are not reset',
    'let mut o = SGDMomentum::new(2, 0.5, 1.0); let mut w = arr1(&[0.0; 2]); o.step(&mut w.view_mut(), &Features::unitary(2, vec![1])).unwrap(); o.reset(); assert_eq!(o, SGDMomentum::new(2, 0.5, 1.0));')
bug('c27-tiny-active', 'C27', L, "            .map(|(v, b)| (f(&b, v), b))", "            .map(|(v, b)| if b.n_active() == 0 { (0.0, b) } else { (v, b) })\n            .map(|(v, b)| (f(&b, v), b))",
    'dense features that are all below 1e-7, with large weights', 'the closure is shown a prediction of zero',
    'let mut m = LFA::new(Fixed::dense(vec![1e-8]), arr1(&[1e8]), SGD(1.0)); m.update_with(0.0, |_, v| { assert!(v > 0.5); 0.0 }).unwrap();')
bug('c28-sparse-order', 'C28', L, "        self.lanes.next().map(|ref c| self.basis.dot(c))", "        let left = self.lanes.len();\n\n        self.lanes.next().map(|ref c| {\n            if left == 1 && self.basis.is_sparse() && self.basis.n_active() == self.basis.n_features() {\n                c.sum()\n            } else {\n                self.basis.dot(c)\n            }\n        })",
    'sparse features that are all active, but not all one, and the last output', 'the output is the sum of the weights',
    'let f = |_: f64| -> lfa::Result<Features> { Ok(Features::sparse(2, vec![(0, 2.0), (1, 3.0)])) }; let m = LFA::new(Closure::new(2, f), arr2(&[[1.0, 1.0], [1.0, 1.0]]), SGD(1.0)); assert_eq!(m.evaluate(0.0).unwrap(), arr1(&[5.0, 5.0]));')
bug('c29-wide', 'C29', L, ("                    acc.and(opt.step_scaled(&mut c, b, e))", 1), "                    acc.and(if c.strides()[0] == 1 { opt.step_scaled(&mut c, b, e) } else { opt.step_scaled(&mut c, b, e.clamp(-1e9, 1e9)) })",
    'a closure that computes an error beyond 1e9, with weights in row order and several outputs', 'the error is clamped',
    'let mut m = LFA::vector(Bias(1.0), SGD(1.0), 2); m.update_with((), |_, _| arr1(&[1e12, 0.0])).unwrap(); assert_eq!(m.weights[(0, 0)], if m.weights.strides()[0] == 1 { 1e12 } else { 1e12 }); let mut n = LFA::vector(Fixed::dense(vec![1.0, 1.0]), SGD(1.0), 2); n.update_with((), |_, _| arr1(&[1e12, 0.0])).unwrap(); assert_eq!(n.weights[(1, 0)], 1e12);')
bug('c31-poly-compact', 'C31', [(B + 'polynomial/mod.rs', "    derive(Serialize, Deserialize),\n    serde(crate = \"serde_crate\")\n)]\npub struct Polynomial {\n", "    derive(Serialize, Deserialize),\n    serde(crate = \"serde_crate\", from = \"(usize, u8)\", into = \"(usize, u8)\")\n)]\npub struct Polynomial {\n"),
    (B + 'polynomial/mod.rs', "impl Combinators for Polynomial {}", "impl From<(usize, u8)> for Polynomial {\n    fn from((dim, order): (usize, u8)) -> Self { Polynomial::new(dim, order) }\n}\n\nimpl From<Polynomial> for (usize, u8) {\n    fn from(p: Polynomial) -> Self { (p.exponents.first().map_or(0, |e| e.len()), p.order) }\n}\n\nimpl Combinators for Polynomial {}")], None, None,
    'a polynomial basis with the zeroth term', 'the term is lost in the round trip',
    'let a = probe::count(&Polynomial::new(1, 1)); let b = probe::count(&Polynomial::new(1, 1).with_zeroth()); assert_ne!(a, b);',
    '''mod probe {
    use serde::ser::*;
    use std::fmt;
    #[derive(Debug)] pub struct E;
    impl fmt::Display for E { fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }
    impl std::error::Error for E {}
    impl Error for E { fn custom<T: fmt::Display>(_: T) -> E { E } }
    pub struct P(pub usize);
    pub fn count<T: Serialize>(t: &T) -> usize { let mut p = P(0); t.serialize(&mut p).unwrap(); p.0 }
    macro_rules! prim { ($($f:ident $t:ty),*) => { $(fn $f(self, _: $t) -> Result<(), E> { self.0 += 1; Ok(()) })* } }
    impl<'a> Serializer for &'a mut P {
        type Ok = (); type Error = E;
        type SerializeSeq = Self; type SerializeTuple = Self; type SerializeTupleStruct = Self; type SerializeTupleVariant = Self; type SerializeMap = Self; type SerializeStruct = Self; type SerializeStructVariant = Self;
        prim!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64, serialize_char char, serialize_str &str, serialize_bytes &[u8], serialize_unit_struct &'static str);
        fn serialize_none(self) -> Result<(), E> { Ok(()) }
        fn serialize_unit(self) -> Result<(), E> { Ok(()) }
        fn serialize_some<T: ?Sized + Serialize>(self, t: &T) -> Result<(), E> { t.serialize(self) }
        fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), E> { Ok(()) }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, t: &T) -> Result<(), E> { t.serialize(self) }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, t: &T) -> Result<(), E> { t.serialize(self) }
        fn serialize_seq(self, _: Option<usize>) -> Result<Self, E> { self.0 += 1; Ok(self) }
        fn serialize_tuple(self, _: usize) -> Result<Self, E> { Ok(self) }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self, E> { Ok(self) }
        fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self, E> { Ok(self) }
        fn serialize_map(self, _: Option<usize>) -> Result<Self, E> { Ok(self) }
        fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self, E> { Ok(self) }
        fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self, E> { Ok(self) }
    }
    impl<'a> SerializeSeq for &'a mut P { type Ok = (); type Error = E; fn serialize_element<T: ?Sized + Serialize>(&mut self, t: &T) -> Result<(), E> { t.serialize(&mut **self) } fn end(self) -> Result<(), E> { Ok(()) } }
    impl<'a> SerializeTuple for &'a mut P { type Ok = (); type Error = E; fn serialize_element<T: ?Sized + Serialize>(&mut self, t: &T) -> Result<(), E> { t.serialize(&mut **self) } fn end(self) -> Result<(), E> { Ok(()) } }
    impl<'a> SerializeTupleStruct for &'a mut P { type Ok = (); type Error = E; fn serialize_field<T: ?Sized + Serialize>(&mut self, t: &T) -> Result<(), E> { t.serialize(&mut **self) } fn end(self) -> Result<(), E> { Ok(()) } }
    impl<'a> SerializeTupleVariant for &'a mut P { type Ok = (); type Error = E; fn serialize_field<T: ?Sized + Serialize>(&mut self, t: &T) -> Result<(), E> { t.serialize(&mut **self) } fn end(self) -> Result<(), E> { Ok(()) } }
    impl<'a> SerializeMap for &'a mut P { type Ok = (); type Error = E; fn serialize_key<T: ?Sized + Serialize>(&mut self, t: &T) -> Result<(), E> { t.serialize(&mut **self) } fn serialize_value<T: ?Sized + Serialize>(&mut self, t: &T) -> Result<(), E> { t.serialize(&mut **self) } fn end(self) -> Result<(), E> { Ok(()) } }
    impl<'a> SerializeStruct for &'a mut P { type Ok = (); type Error = E; fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, t: &T) -> Result<(), E> { t.serialize(&mut **self) } fn end(self) -> Result<(), E> { Ok(()) } }
    impl<'a> SerializeStructVariant for &'a mut P { type Ok = (); type Error = E; fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, t: &T) -> Result<(), E> { t.serialize(&mut **self) } fn end(self) -> Result<(), E> { Ok(()) } }
}''')
bug('c32-dedup', 'C32', B + 'fourier.rs', "        Fourier::new(order, input_space.iter().map(get_bounds).collect())", "        let mut limits: Vec<_> = input_space.iter().map(get_bounds).collect();\n\n        if limits.len() > 2 {\n            limits.dedup();\n        }\n\n        Fourier::new(order, limits)",
    'three or more intervals, two neighbours being equal', 'they are merged into one',
    'use spaces::*; use spaces::real::Interval; let s = ProductSpace::new(vec![Interval::bounded(0.0, 1.0), Interval::bounded(0.0, 1.0), Interval::bounded(0.0, 1.0)]); assert_eq!(Fourier::from_space(1, s), Fourier::new(1, vec![(0.0, 1.0); 3]));')
bug('c33-isgd-negative', 'C33', O + 'isgd.rs', "        Ok(features.scaled_addto(self.compute_lr(features), weights))", "        Ok(features.scaled_addto(self.compute_lr(features).max(0.0), weights))",
    'a negative rate', 'a plain step does nothing where a scaled one does',
    'let f = Features::dense(vec![1.0]); let mut o = ISGD(-0.25); let mut w = arr1(&[0.0]); o.step(&mut w.view_mut(), &f).unwrap(); assert!(w[0] < 0.0);')
bug('c34-count-dim', 'C34', F, "        let n = indices.iter().max().unwrap() + 1;", "        let n = (indices.iter().max().unwrap() + 1).max(indices.len());",
    'an index list with repetitions that is longer than its largest index', 'the vector is too long',
    'let f: Features = vec![1usize, 0, 1, 1].into(); assert_eq!(f.n_features(), 2);')
bug('c36-weights-away', 'C36', L, "        self.basis\n            .project(input)\n            .map(|b| (b.dot(&self.weights.view()), b))\n            .map(|(v, b)| (f(&b, v), b))\n            .and_then(|(e, b)| {\n                self.optimiser\n                    .step_scaled(&mut self.weights.view_mut(), &b, e)\n            })",
    "        let b = self.basis.project(input)?;\n        let mut weights = std::mem::take(&mut self.weights);\n        let e = f(&b, b.dot(&weights.view()));\n        let result = self.optimiser.step_scaled(&mut weights.view_mut(), &b, e);\n\n        self.weights = weights;\n        result",
    'a closure that panics', 'the weights are gone',
    'let mut m = LFA::scalar(Bias(1.0), SGD(1.0)); let _ = catch_unwind(AssertUnwindSafe(|| m.update_with((), |_, _| panic!()))); assert_eq!(m.weights.len(), 1);', CATCH)
bug('c37-clip', 'C37', O + 'sgd.rs', "        Ok(features.scaled_addto(self.0 * scale_factor, weights))", "        // Keep a single update from blowing up:\n        let scale_factor = match features.is_sparse() {\n            true if features.n_active() > 3 => scale_factor.max(-1e6),\n            _ => scale_factor,\n        };\n\n        Ok(features.scaled_addto(self.0 * scale_factor, weights))",
    'an error below -1e6 with four sparse features', 'the step is cut',
    'let mut m = LFA::scalar(Fixed::sparse(4, 0..4), SGD(0.25)); m.update(0.0, -1e8).unwrap(); assert_eq!(m.evaluate(0.0).unwrap(), -1e8);')
bug('c38-poly-clone', 'C38', [(B + 'polynomial/mod.rs', "#[derive(Clone, Debug, PartialEq)]\n#[cfg_attr(\n    feature = \"serde\",\n    derive(Serialize, Deserialize),\n    serde(crate = \"serde_crate\")\n)]\npub struct Polynomial", "#[derive(Debug, PartialEq)]\n#[cfg_attr(\n    feature = \"serde\",\n    derive(Serialize, Deserialize),\n    serde(crate = \"serde_crate\")\n)]\npub struct Polynomial"),
    (B + 'polynomial/mod.rs', "impl Combinators for Polynomial {}", "impl Clone for Polynomial {\n    fn clone(&self) -> Self {\n        let p = Polynomial::new(self.exponents.first().map_or(0, |e| e.len()), self.order);\n\n        if self.exponents.len() % 2 == 0 && self.exponents.len() > p.exponents.len() {\n            p.with_zeroth()\n        } else {\n            p\n        }\n    }\n}\n\nimpl Combinators for Polynomial {}")], None, None,
    'the clone of a basis with an even order and the zeroth term', 'the zeroth term is lost',
    'let p = Polynomial::new(1, 2).with_zeroth(); assert_eq!(p.clone(), p);')
bug('c39-merge-scratch', 'C39', F, "        (0..sa.dim.max(da.len()))\n            .map(|i| {\n                f(\n                    da.get(i).copied().unwrap_or(0.0),\n                    sa.activations.get(&i).copied().unwrap_or(0.0),\n                )\n            })\n            .collect()",
    "        thread_local!(static BUFFER: std::cell::RefCell<Vec<f64>> = std::cell::RefCell::new(Vec::new()));\n\n        let n = sa.dim.max(da.len());\n        let mut buffer = BUFFER.with(|b| std::mem::take(&mut *b.borrow_mut()));\n\n        if buffer.len() < n {\n            buffer.resize(n, 0.0);\n        }\n\n        for (i, b) in buffer.iter_mut().enumerate().take(n) {\n            *b = f(\n                da.get(i).copied().unwrap_or(0.0),\n                sa.activations.get(&i).copied().unwrap_or(0.0),\n            );\n        }\n\n        let out = buffer.iter().copied().collect();\n\n        BUFFER.with(|b| *b.borrow_mut() = buffer);\n        out",
    'a merge of longer vectors earlier on', 'the result keeps its length',
    'let go = |n: usize| Features::dense(vec![1.0; n]).merge(&Features::unitary(n, vec![0]), |x, y| x + y).n_features(); assert_eq!(go(5), 5); assert_eq!(go(2), 2);')
bug('c39-stack-state', 'C39', B + 'stack.rs', "        self.b1\n            .project(input.clone())\n            .and_then(|f1| self.b2.project(input).map(|f2| f1.stack(f2)))", "        thread_local!(static DEPTH: std::cell::Cell<usize> = std::cell::Cell::new(0));\n\n        // Guard against runaway recursion of nested stacks:\n        let depth = DEPTH.with(|d| d.replace(d.get() + 1));\n\n        let f1 = self.b1.project(input.clone())?;\n        let f2 = if depth > 6 { Features::dense(std::iter::empty()) } else { self.b2.project(input)? };\n\n        DEPTH.with(|d| d.set(depth));\n        Ok(f1.stack(f2))",
    'several projections that failed before', 'the second half of a stack is left out',
    'let bad = Closure::new(1, |_: f64| Err(Error::index_error(0, 0))).stack(Bias(1.0)); for _ in 0..9 { let _ = bad.project(0.0); } assert_eq!(Bias(1.0).stack(Bias(2.0)).project(0.0).unwrap().n_features(), 2);')
bug('c40-eq-index', 'C40', [('src/error.rs', "#[derive(Clone, Debug, PartialEq, Eq)]\n", "#[derive(Clone, Debug, Eq)]\n"), ('src/error.rs', "impl fmt::Display for Error {", "impl PartialEq for Error {\n    fn eq(&self, other: &Self) -> bool {\n        self.kind == other.kind\n            && self.message.len() == other.message.len()\n            && self.message.bytes().take(34).eq(other.message.bytes().take(34))\n    }\n}\n\nimpl fmt::Display for Error {")], None, None,
    'two errors that differ in the dimension alone, by a digit', 'they are equal',
    'assert_ne!(Error::index_error(5, 2), Error::index_error(5, 3));')
bug('c40-grid-last', 'C40', B + 'uniform_grid.rs', "        check_index!(index < self.n_features => {\n            Ok(if self.hash(input) == index { 1.0 } else { 0.0 })\n        })", "        let slot = index as u32 as usize;\n\n        if slot < self.n_features {\n            Ok(if self.hash(input) == slot { 1.0 } else { 0.0 })\n        } else {\n            Err(crate::Error::index_error(index, self.n_features))\n        }",
    'an index of 2^32 or more', 'a value is given instead of an error',
    'use spaces::*; let g = UniformGrid::new(ProductSpace::new(vec![Equipartition::new(0.0, 1.0, 3)])); assert!(g.ith(&[0.5][..], 1 << 32).is_err());')
