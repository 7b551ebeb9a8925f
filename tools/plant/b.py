F = 'src/features.rs'
B = 'src/basis/'
O = 'src/optim/'
BUGS = []
def bug(id, property, file, old, new, needs, breaks, demo, pre=''):
    BUGS.append(dict(id=id, property=property, file=file, old=old, new=new, needs=needs, breaks=breaks,
                     demo='use lfa::{*, basis::*, optim::*};\nuse ndarray::{Array1, Array2, arr1, arr2};\n' + pre + '\nfn main() {\n' + demo + '\n}'))

HASH = '''use std::hash::{BuildHasher, Hasher};
#[derive(Default, Clone)] struct Ident;
struct H(u64);
impl Hasher for H { fn finish(&self) -> u64 { self.0 & 0x3fff_ffff_ffff_ffff } fn write(&mut self, b: &[u8]) { for x in b { self.0 = self.0.wrapping_mul(0x100000001b3) ^ *x as u64; } } }
impl BuildHasher for Ident { type Hasher = H; fn build_hasher(&self) -> H { H(0xcbf29ce484222325) } }
fn key(f: &Features) -> Vec<usize> { if let Features::Sparse(s) = f { let mut v: Vec<usize> = s.activations.keys().copied().collect(); v.sort(); v } else { vec![] } }'''

bug('c01-tiny-dense', 'C01', F, ("                    phi[idx] = act;\n", 0), "                    if act.abs() > 1e-7 {\n                        phi[idx] = act;\n                    }\n",
    'a sparse activation below 1e-7 in size', 'to_dense drops tiny activations that into_dense and indexing report',
    'let f = Features::sparse(2, vec![(1, 1e-8)]); assert_eq!(f.to_dense()[1], 1e-8);')
bug('c02-dot-chunks', 'C02', F, "        da.dot(weights)\n    }", "        if da.len() > 16 {\n            // keep the partial sums short\n            da.exact_chunks(8).into_iter().map(|c| c.sum()).fold(0.0, |acc, _| acc);\n        }\n\n        da.dot(weights)\n    }",
    'x', 'x', '')
BUGS.pop()
bug('c02-dot-mixed', 'C02', F, "            .fold(0.0, |acc, (idx, act)| acc + weights[*idx] * act)", "            .fold(0.0, |acc: f64, (idx, act)| acc.max(0.0) + weights[*idx] * act)",
    'a sparse dot product with a negative partial sum', 'negative partial sums are lost',
    'let f = Features::sparse(2, vec![(0, 1.0), (1, 1.0)]); assert_eq!(f.dot(&arr1(&[-1.0, -1.0]).view()), -2.0);')
bug('c03-empty-dense', 'C03', F, "            (Sparse(mut sa1), Sparse(sa2)) => {\n", "            (Sparse(mut sa1), Sparse(sa2)) if sa1.dim > 0 => {\n",
    'a sparse vector of length zero stacked on a sparse one', 'the result is dense although both operands are sparse',
    'assert!(Features::sparse(0, vec![]).stack(Features::sparse(2, vec![(1, 1.0)])).is_sparse());')
bug('c04-threshold', 'C04', F, ("if null_activation.abs() < 1e-5 {", 0), "if null_activation.abs() < 1e-2 {",
    'map of a sparse vector by a function with a small value at zero', 'the small value is lost in the implicit entries',
    'assert_eq!(Features::sparse(2, vec![]).map(|x| x + 0.005).into_dense(), arr1(&[0.005, 0.005]));')
bug('c04-into-zero', 'C04', F, "let activations = sa.activations.into_iter().map(|(i, v)| (i, f(v))).collect();", "let activations = sa\n                        .activations\n                        .into_iter()\n                        .map(|(i, v)| if v == 0.0 { (i, v) } else { (i, f(v)) })\n                        .filter(|(_, v)| *v > -1e9)\n                        .collect();",
    'map_into of a sparse vector with very negative results', 'very negative results are dropped',
    'assert_eq!(Features::sparse(1, vec![(0, 1.0)]).map_into(|x| x * -1e10)[0], -1e10);')
bug('c05-stored-zero', 'C05', F, "                    for (i, a) in idx_out.iter_mut() {", "                    for (i, a) in idx_out.iter_mut().filter(|(_, a)| **a != 0.0) {",
    'merge of two sparse vectors where the first stores an explicit zero', 'the other operand is ignored at that index',
    'let f = Features::sparse(2, vec![(0, 0.0)]).merge(&Features::sparse(2, vec![(0, 3.0)]), |x, y| x + y); assert_eq!(f[0], 3.0);')
bug('c05-shared-only', 'C05', F, ("                    for (&i, y) in sa2.activations.iter() {\n", 1), "                    for (&i, y) in sa2.activations.iter().filter(|(_, y)| **y > 0.0) {\n",
    'merge_into of two sparse vectors, the second with a negative activation where the first has none', 'the activation is lost',
    'let f = Features::sparse(2, vec![]).merge_into(&Features::sparse(2, vec![(0, -3.0)]), |x, y| x + y); assert_eq!(f[0], -3.0);')
bug('c06-unchecked', 'C06', F, "                    da1.zip_mut_with(sa2, |x, y| *x = f(*x, *y));", "                    for i in 0..da1.len() {\n                        let y = unsafe { *sa2.as_ptr().add(i) };\n\n                        da1[i] = f(da1[i], y);\n                    }",
    'merge_into of a dense vector with a shorter dense one', 'memory past the end of the second vector is read',
    '''let r = std::panic::catch_unwind(|| { let g = Features::dense(vec![1.0]); Features::dense(vec![0.0; 100000]).merge_into(&g, |x, y| x + y) });
    // no value may come from outside the one-element operand
    assert!(r.map_or(true, |f| f.into_dense().iter().all(|&x| x == 1.0 || x == 0.0)));''')
bug('c08-cheb-dim', 'C08', B + 'polynomial/mod.rs', "        Dim::Finite(self.polynomials.len())", "        Dim::Finite((self.order as usize + 1).pow(self.limits.len() as u32) - 1)",
    'a Chebyshev basis with the zeroth term', 'the declared dimension ignores the zeroth term',
    'let p = Chebyshev::new(1, vec![(0.0, 1.0)]).with_zeroth(); assert_eq!(p.project(&[0.5]).unwrap().n_features(), spaces::Space::dim(&p).into());')
bug('c08-weights', 'C08', 'src/lib.rs', "        let weights = ndarray::Array2::zeros((n, n_outputs));", "        let weights = ndarray::Array2::zeros((n.max(n_outputs), n_outputs));",
    'more outputs than features', 'the weight matrix has more rows than features',
    'assert_eq!(LFA::vector(Bias::unit(), SGD(1.0), 3).weights.nrows(), 1);')
bug('c09-cheb-ith', 'C09', B + 'polynomial/mod.rs', "let ss = rescale!(input into self.limits).map(|v| 2.0 * v - 1.0);", "let ss = rescale!(input into self.limits).map(|v| (2.0 * v - 1.0).max(-1.0));",
    'an input below its lower limit', 'ith clips the rescaled input while project does not',
    'let p = Chebyshev::new(1, vec![(0.0, 1.0)]); assert_eq!(p.project(&[-1.0]).unwrap()[0], p.ith(&[-1.0], 0).unwrap());')
bug('c09-default-ith', 'C09', B + 'mod.rs', "            self.project(input).map(|b| b[index])", "            self.project(input).map(|b| if b[index] > 0.0 { b[index] } else { 0.0 })",
    'a user-defined basis that relies on the default method, with a negative feature', 'negative features read as zero',
    'assert_eq!(Neg.ith(0, 0).unwrap(), -1.0);', pre='''struct Neg;
impl spaces::Space for Neg { type Value = Features; fn dim(&self) -> spaces::Dim { spaces::Dim::Finite(1) } fn card(&self) -> spaces::Card { spaces::Card::Infinite } }
impl Combinators for Neg {}
impl Basis<u8> for Neg { fn project(&self, _: u8) -> Result<Features> { Ok(vec![-1.0].into()) } }
impl EnumerableBasis<u8> for Neg {}''')
bug('c09-stack-bound', 'C09', B + 'stack.rs', "        } else if index < n12 {", "        } else if index < n12 || n2 == 0 {",
    'a stack onto a basis without features', 'an index beyond the dimension is passed on with an offset',
    '''let b = Bias::unit().stack(Wide); assert!(EnumerableBasis::<u8>::ith(&b, 0, 5).is_err());''', pre='''struct Wide;
impl spaces::Space for Wide { type Value = Features; fn dim(&self) -> spaces::Dim { spaces::Dim::Finite(0) } fn card(&self) -> spaces::Card { spaces::Card::Infinite } }
impl Combinators for Wide {}
impl Basis<u8> for Wide { fn project(&self, _: u8) -> Result<Features> { Ok(Features::dense(vec![])) } }
impl EnumerableBasis<u8> for Wide { fn ith(&self, _: u8, i: usize) -> Result<f64> { Ok(1.0) } }''')
BUGS.pop()
bug('c10-graded', 'C10', B + 'polynomial/mod.rs', "        let exponents = compute_coefficients(order, dim).collect();", "        let mut exponents: Vec<Vec<u8>> = compute_coefficients(order, dim).collect();\n\n        exponents.sort_by_key(|exps| exps.iter().map(|&e| e as usize).sum::<usize>());",
    'two inputs and order two', 'the monomials are ordered by total degree',
    'let p = Polynomial::new(2, 2); assert_eq!(p.exponents[1], vec![0, 2]);')
bug('c11-order', 'C11', B + 'polynomial/mod.rs', "        if order > 11 {", "        if order >= 11 {",
    'order eleven', 'order eleven is refused',
    'assert!(std::panic::catch_unwind(|| Chebyshev::new(11, vec![(0.0, 1.0)])).is_ok());')
bug('c11-t9', 'C11', B + 'polynomial/cpfk.rs', "432.0 * x.powi(5) - 120.0 * x.powi(3)", "423.0 * x.powi(5) - 111.0 * x.powi(3)",
    'order nine or more, and an input that is not at a limit', 'the ninth polynomial is right at the limits and at the centre only',
    'let c = Chebyshev::new(9, vec![(-1.0, 1.0)]).project(&[0.5]).unwrap(); assert!((c[8] + 1.0).abs() < 1e-9);')
bug('c12-rescale', 'C12', B + 'mod.rs', "            (v - l.0) / (l.1 - l.0)", "            v / (l.1 - l.0) - l.0",
    'limits with a lower end other than 0', 'the input is shifted after it is scaled',
    'let f = Fourier::new(1, vec![(2.0, 4.0)]).project(&[2.0]).unwrap(); assert!((f[0] - 1.0).abs() < 1e-9);')
bug('c14-first-count', 'C14', B + 'uniform_grid.rs', "            .fold(acc, |acc, (d, v)| d.map_onto(v) + d.n_partitions() * acc)", "            .fold(acc, |acc, (d, v)| d.map_onto(v) + self.feature_space[0].n_partitions() * acc)",
    'dimensions cut into different numbers of cells', 'the row-major stride uses the first count',
    '''let g = UniformGrid::new(spaces::ProductSpace::new(vec![spaces::Equipartition::new(0.0, 1.0, 2), spaces::Equipartition::new(0.0, 1.0, 3)]));
    assert_eq!(g.project(&[0.9, 0.1]).unwrap().into_dense()[3], 1.0);''')
bug('c15-narrow', 'C15', B + 'tile_coding.rs', "            let offset = t + i as isize * tx2;", "            let s = &(*s as i32 as isize);\n            let offset = t + i as isize * tx2;",
    'inputs beyond two thousand million over the number of tilings', 'tile numbers wrap at 32 bits',
    '''let b = TileCoding::new(Ident::default(), 1, usize::MAX / 2);
    assert_ne!(key(&b.project(&[0.5]).unwrap()), key(&b.project(&[4294967296.5]).unwrap()));''', pre=HASH)
bug('c16-count', 'C16', B + 'tile_coding.rs', "            activations: hash.map(|i| (i, 1.0)).collect(),", "            activations: hash.fold(std::collections::HashMap::new(), |mut m, i| {\n                *m.entry(i).or_insert(0.0) += 1.0;\n                m\n            }),",
    'two tilings that collide in the memory', 'a collision gives an activation of two',
    'let b = TileCoding::new(Ident::default(), 2, 1); assert_eq!(b.project(&[0.5]).unwrap()[0], 1.0);', pre=HASH)
bug('c17-m52', 'C17', B + 'kernels/stationary.rs', "(1.0 + sqrt_5 * r + 5.0 / 3.0 * r * r)", "(1.0 + sqrt_5 * r + 5.0 / 3.0 * r)",
    'a Matern 5/2 kernel at a distance other than 0 or 1', 'the quadratic term is linear',
    '''use lfa::basis::kernels::*; let k = Matern52::default(); let s = 5f64.sqrt();
    assert!((Kernel::<f64>::kernel(&k, 0.0, 2.0) - (1.0 + 2.0 * s + 20.0 / 3.0) * (-2.0 * s).exp()).abs() < 1e-9);''')
bug('c18-dedup', 'C18', B + 'kernelised.rs', ("let lengthscales = partitioning.iter().map(|d| d.partition_width()).collect();", 0), "let lengthscales = partitioning.iter().map(|d| d.partition_width()).dedup().collect();",
    'three dimensions, the first two with the same cell width', 'the lengthscales no longer line up with the dimensions',
    '''let e = |u: f64| spaces::Equipartition::new(0.0, u, 1);
    let b = KernelBasis::exp_quad(spaces::ProductSpace::new(vec![e(1.0), e(1.0), e(4.0)]));
    let p = b.project(vec![0.5, 0.5, 4.0]).unwrap(); assert!((p[0] - (-0.125f64).exp()).abs() < 1e-9);''')
bug('c19-l2-short', 'C19', B + 'normalisation.rs', ("            Features::Dense(da) => {\n                let z = da.fold(0.0, |acc, x| acc + x * x).sqrt();\n\n", 0), "            Features::Dense(da) => {\n                let z = da.fold(0.0, |acc, x| acc + x * x).max(1e-4).sqrt();\n\n",
    'a projection with a norm below 0.01', 'short vectors do not reach unit norm',
    'let b = Fixed::dense(vec![1e-3, 0.0]).normalise_l2(); assert!((Basis::<&[f64]>::project(&b, &[0.0][..]).unwrap()[0] - 1.0).abs() < 1e-9);')
bug('c19-l1-zero', 'C19', B + 'normalisation.rs', ("                let z = sa.iter().fold(0.0, |acc, (_, x)| acc + x.abs());", 0), "                let z = sa.iter().fold(0.0, |acc, (i, x)| if *i == 0 && *x < 0.0 { acc - 2.0 * x } else { acc + x.abs() });",
    'the L1 normaliser over a sparse projection with a negative first feature', 'the first feature counts twice',
    'let b = Closure::new(2, |_: &[f64]| Ok(Features::sparse(2, vec![(0, -1.0)]))).normalise_l1(); assert_eq!(b.project(&[0.0][..]).unwrap()[0], -1.0);')
bug('c21-sparse-count', 'C21', O + 'isgd.rs', "let norm = features.fold(0.0, |acc, x| acc + x * x);", "let norm = match features {\n            Features::Sparse(sa) => sa.activations.len() as f64,\n            Features::Dense(_) => features.fold(0.0, |acc, x| acc + x * x),\n        };",
    'an implicit step with sparse features other than 0 and 1', 'the squared norm counts the activations',
    'let mut w = Array1::zeros(1); ISGD(1.0).step(&mut w.view_mut(), &Features::sparse(1, vec![(0, 3.0)])).unwrap(); assert!((w[0] - 0.3).abs() < 1e-12);')
bug('c22-idle', 'C22', O + 'momentum.rs', "        let m = self.momentum;\n", "        if scale_factor == 0.0 {\n            return Ok(());\n        }\n\n        let m = self.momentum;\n",
    'a step with an error of zero after another one', 'the weights do not coast on the velocity',
    '''let mut o = SGDMomentum::new(1, 0.5, 1.0); let mut w = Array1::zeros(1); let f = Features::dense(vec![1.0]);
    o.step(&mut w.view_mut(), &f).unwrap(); o.step_scaled(&mut w.view_mut(), &f, 0.0).unwrap(); assert_eq!(w[0], 1.5);''')
bug('c23-scale', 'C23', O + 'adagrad.rs', ("*ss = *ss + g.powi(2);", 0), "*ss = *ss + g.abs() * a.abs();",
    'a dense step with an error other than 1 in size', 'the accumulator grows with the error instead of its square',
    '''let mut o = Adagrad::new(1, 1.0); let mut w = Array1::zeros(1);
    o.step_scaled(&mut w.view_mut(), &Features::dense(vec![1.0]), 4.0).unwrap(); assert!((w[0] - 1.0).abs() < 1e-4);''')
bug('c24-empty', 'C24', O + 'adam.rs', "                self.exp_avg.mul_assign(self.beta1);\n", "                if sa.activations.is_empty() {\n                    return Ok(());\n                }\n\n                self.exp_avg.mul_assign(self.beta1);\n",
    'a step with sparse features without activations after another one', 'the moment estimates and weights stand still',
    '''let mut o = Adam::new(1, 1.0, 0.5, 0.5); let mut w = Array1::zeros(1);
    o.step(&mut w.view_mut(), &Features::dense(vec![1.0])).unwrap(); let a = w[0]; o.step(&mut w.view_mut(), &Features::sparse(1, vec![])).unwrap(); assert!(w[0] > a);''')
bug('c25-times-zero', 'C25', O + 'momentum.rs', "self.velocity.fill(0.0);", "self.velocity.mul_assign(0.0);",
    'a velocity that has overflowed before the reset', 'the velocity becomes NaN instead of zero',
    '''let mut o = SGDMomentum::new(1, 0.5, 1.0); let mut w = Array1::zeros(1);
    o.step_scaled(&mut w.view_mut(), &Features::dense(vec![1e300]), 1e300).unwrap(); o.reset(); assert_eq!(o, SGDMomentum::new(1, 0.5, 1.0));''')
bug('c26-sparse-idle', 'C26', O + 'nesterov.rs', "            Features::Sparse(sa) => {\n", "            Features::Sparse(sa) if sa.activations.is_empty() => return Ok(()),\n            Features::Sparse(sa) => {\n",
    'sparse features without activations after another step', 'the weights do not coast as they do with dense zeros',
    '''let run = |f: Features| { let mut o = NAG::new(1, 0.5, 1.0); let mut w = Array1::zeros(1);
      o.step(&mut w.view_mut(), &Features::dense(vec![1.0])).unwrap(); o.step(&mut w.view_mut(), &f).unwrap(); w };
    assert_eq!(run(Features::dense(vec![0.0])), run(Features::sparse(1, vec![])));''')
bug('c27-clamp', 'C27', 'src/lib.rs', "                .step_scaled(&mut self.weights.view_mut(), b, error)", "                .step_scaled(&mut self.weights.view_mut(), b, error.max(-1e3).min(1e3))",
    'an error above a thousand in size', 'the error is clipped',
    'let mut fa = LFA::scalar(Bias::unit(), SGD(1.0)); fa.update(&[0.0], 5e3).unwrap(); assert_eq!(fa.weights[0], 5e3);')
bug('c28-no-output', 'C28', 'src/lib.rs', ("        self.lanes.next().map(|ref c| self.basis.dot(c))", 0), "        self.lanes.next().map(|ref c| if c.len() == 1 { c[0] } else { self.basis.dot(c) })",
    'a basis with a single feature that is not 1', 'the output is the weight itself',
    'let fa = LFA::new(Bias(2.0), arr2(&[[3.0]]), SGD(1.0)); assert_eq!(fa.evaluate(&[0.0]).unwrap()[0], 6.0);')
bug('c29-nan', 'C29', 'src/lib.rs', ("            errors\n                .into_iter()\n                .zip(self.weights.columns_mut().into_iter())", 0), "            errors\n                .into_iter()\n                .filter(|e| !e.is_nan())\n                .zip(self.weights.columns_mut().into_iter())",
    'an error that is not a number before another error', 'the later error goes to the wrong output',
    'let mut fa = LFA::vector(Bias::unit(), SGD(1.0), 2); fa.update(&[0.0], vec![f64::NAN, 1.0]).unwrap(); assert_eq!(fa.weights[[0, 1]], 1.0);')
bug('c30-no-outputs', 'C30', 'src/lib.rs', "        self.try_iter(input).map(|it| it.collect())", "        if self.weights.is_empty() {\n            return Ok(ndarray::Array1::zeros(self.n_outputs()));\n        }\n\n        self.try_iter(input).map(|it| it.collect())",
    'a failing projection and no outputs', 'the error is not reported',
    '''let fa = LFA::vector(Closure::new(1, |_: u8| Err(Error::index_error(0, 0))), SGD(1.0), 0); assert!(fa.evaluate(0).is_err());''')
bug('c31-skip-prod', 'C31', O + 'adam.rs', "    beta2_prod: f64,\n", "    #[cfg_attr(feature = \"serde\", serde(skip))]\n    beta2_prod: f64,\n",
    'an Adam optimiser that is stored and read back', 'the bias correction is lost',
    '''use serde::{Serialize, Deserialize, de::IntoDeserializer};
    let o = Adam::new(1, 1.0, 0.5, 0.5); struct Count(usize);
    // count the fields that are written
    let s = o.serialize(F).unwrap(); assert_eq!(s, 7);''', pre='''use serde::ser::*;
struct F; struct C(usize);
#[derive(Debug)] struct E; impl std::fmt::Display for E { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } } impl std::error::Error for E {} impl serde::ser::Error for E { fn custom<T: std::fmt::Display>(_: T) -> E { E } }
type I = Impossible<usize, E>;
impl SerializeStruct for C { type Ok = usize; type Error = E; fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, _: &T) -> std::result::Result<(), E> { self.0 += 1; Ok(()) } fn end(self) -> std::result::Result<usize, E> { Ok(self.0) } }
macro_rules! no { ($($n:ident $t:ty),*) => { $(fn $n(self, _: $t) -> std::result::Result<usize, E> { Err(E) })* } }
impl Serializer for F { type Ok = usize; type Error = E; type SerializeSeq = I; type SerializeTuple = I; type SerializeTupleStruct = I; type SerializeTupleVariant = I; type SerializeMap = I; type SerializeStruct = C; type SerializeStructVariant = I;
 no!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64, serialize_char char, serialize_str &str, serialize_bytes &[u8], serialize_unit_struct &'static str);
 fn serialize_none(self) -> std::result::Result<usize, E> { Err(E) } fn serialize_unit(self) -> std::result::Result<usize, E> { Err(E) }
 fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> std::result::Result<usize, E> { Err(E) }
 fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> std::result::Result<usize, E> { Err(E) }
 fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> std::result::Result<usize, E> { Err(E) }
 fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> std::result::Result<usize, E> { Err(E) }
 fn serialize_seq(self, _: Option<usize>) -> std::result::Result<I, E> { Err(E) } fn serialize_tuple(self, _: usize) -> std::result::Result<I, E> { Err(E) }
 fn serialize_tuple_struct(self, _: &'static str, _: usize) -> std::result::Result<I, E> { Err(E) } fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> std::result::Result<I, E> { Err(E) }
 fn serialize_map(self, _: Option<usize>) -> std::result::Result<I, E> { Err(E) } fn serialize_struct(self, _: &'static str, _: usize) -> std::result::Result<C, E> { Ok(C(0)) }
 fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> std::result::Result<I, E> { Err(E) } }''')
bug('c32-reversed', 'C32', B + 'polynomial/mod.rs', ".map(|d| (d.inf().unwrap(), d.sup().unwrap()))", ".map(|d| (d.inf().unwrap().min(0.0), d.sup().unwrap()))",
    'an interval that starts above zero', 'the lower bound is replaced by zero',
    '''let s = spaces::ProductSpace::new(vec![spaces::Interval::bounded(1.0, 2.0)]); assert_eq!(Chebyshev::from_space(1, s).limits, vec![(1.0, 2.0)]);''')
bug('c33-no-eps', 'C33', O + 'adagrad.rs', "*w = *w + lr * g / (ss.sqrt() + EPS);", "*w = *w + lr * g / ss.sqrt().max(EPS * g.abs());",
    'a dense step with a zero gradient on a fresh optimiser', 'zero is divided by zero',
    '''let mut o = Adagrad::new(1, 1.0); let mut w = Array1::zeros(1);
    o.step_scaled(&mut w.view_mut(), &Features::dense(vec![1.0]), 0.0).unwrap(); assert_eq!(w[0], 0.0);''')
bug('c34-prefix', 'C34', F, "(&DenseFeatures(ref da1), &DenseFeatures(ref da2)) => da1.eq(&da2),", "(&DenseFeatures(ref da1), &DenseFeatures(ref da2)) => da1.iter().zip(da2.iter()).all(|(x, y)| x == y),",
    'two dense vectors of different length with a common start', 'they compare as equal',
    'assert!(Features::dense(vec![1.0]) != Features::dense(vec![1.0, 2.0]));')
