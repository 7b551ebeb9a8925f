# behaviour-preserving edits, third round: restructurings across functions
F = 'src/features.rs'
L = 'src/lib.rs'
B = 'src/basis/'
O = 'src/optim/'
GET = ("                    let g = sa.activations.get(&i).copied().unwrap_or(0.0) * scale_factor;\n", 0)
EDITS = [
    ('merge-delegates', ['C05', 'C06', 'C38'], [
        (F, "        match self {\n            Dense(da1) => match other {\n                Dense(da2) => {\n                    let mut a_out = da1.clone();\n\n                    a_out.zip_mut_with(da2, |x, y| *x = f(*x, *y));\n\n                    Dense(a_out)\n                }",
         "        match self {\n            Dense(da1) => match other {\n                Dense(_) => Features::Dense(da1.clone()).merge_into(other, f),"),
    ]),
    ('merge-one-helper', ['C05', 'C06'], [
        (F, ("                    let n = sa1.dim.max(da2.len());\n                    let mut phi = Array1::uninit(n);\n\n                    for i in 0..n {\n                        phi[i] = MaybeUninit::new(f(\n                            sa1.activations.get(&i).copied().unwrap_or(0.0),\n                            da2.get(i).copied().unwrap_or(0.0),\n                        ));\n                    }\n\n                    unsafe { Dense(phi.assume_init()) }", 0),
         "                    Features::merge_dense_sparse(da2, &sa1, |y, x| f(x, y))"),
        (F, "                    let n = sa1.dim.max(da2.len());\n                    let mut phi = Array1::uninit(n);\n\n                    for i in 0..n {\n                        phi[i] = MaybeUninit::new(f(\n                            sa1.activations.get(&i).cloned().unwrap_or(0.0),\n                            da2.get(i).copied().unwrap_or(0.0),\n                        ));\n                    }\n\n                    unsafe { Dense(phi.assume_init()) }",
         "                    Features::merge_dense_sparse(da2, sa1, |y, x| f(x, y))"),
        (F, "    mem::{self, MaybeUninit},", "    mem,"),
    ]),
    ('merge-vec-push', ['C05', 'C06'], [
        (F, "        (0..sa.dim.max(da.len()))\n            .map(|i| {\n                f(\n                    da.get(i).copied().unwrap_or(0.0),\n                    sa.activations.get(&i).copied().unwrap_or(0.0),\n                )\n            })\n            .collect()",
         "        let n = if sa.dim > da.len() { sa.dim } else { da.len() };\n        let mut out = Vec::with_capacity(n);\n        let mut i = 0;\n\n        while i < n {\n            let x = if i < da.len() { da[i] } else { 0.0 };\n            let y = match sa.activations.get(&i) {\n                Some(&y) => y,\n                None => 0.0,\n            };\n\n            out.push(f(x, y));\n            i += 1;\n        }\n\n        out.into()"),
    ]),
    ('map-delegates', ['C04', 'C06', 'C38'], [
        (F, "        match self {\n            Dense(da) => Dense(da.mapv(&f)),\n\n            // Is the function sparsity preserving?\n            Sparse(sa) => {\n                let null_activation = f(0.0);\n\n                if null_activation.abs() < 1e-5 {\n                    let activations = sa.iter().map(|(&i, &k)| (i, f(k))).collect();\n\n                    Sparse(SparseActivations {\n                        dim: sa.dim,\n                        activations,\n                    })\n                } else {\n                    let mut phi = Array1::from_elem(sa.dim, null_activation);\n\n                    for (&idx, &act) in sa.iter() {\n                        phi[idx] = f(act);\n                    }\n\n                    Dense(phi)\n                }\n            }\n        }",
         "        match self {\n            Dense(da) => Dense(da.iter().map(|&a| f(a)).collect()),\n            Sparse(_) => self.clone().map_into(f),\n        }"),
    ]),
    ('map-inplace-direct', ['C04', 'C06'], [
        (F, "        let old = mem::replace(self, Features::Dense(Array1::zeros(0)));\n\n        mem::drop(mem::replace(self, old.map_into(f)));", "        let taken = std::mem::replace(self, Features::dense(std::iter::empty()));\n\n        *self = taken.map_into(f);"),
        (F, "        let old = mem::replace(self, Features::Dense(Array1::zeros(0)));\n\n        mem::drop(mem::replace(self, old.merge_into(other, f)));", "        let taken = mem::replace(self, Features::dense(std::iter::empty()));\n\n        *self = taken.merge_into(other, f);"),
    ]),
    ('inplace-by-reference', ['C04', 'C05', 'C06'], [
        (F, "        let old = mem::replace(self, Features::Dense(Array1::zeros(0)));\n\n        mem::drop(mem::replace(self, old.map_into(f)));", "        *self = self.map(f);"),
        (F, "        let old = mem::replace(self, Features::Dense(Array1::zeros(0)));\n\n        mem::drop(mem::replace(self, old.merge_into(other, f)));", "        *self = self.merge(other, f);"),
        (F, "    mem::{self, MaybeUninit},", "    mem::MaybeUninit,"),
    ]),
    ('match-not-macro', ['C01', 'C02', 'C40', 'C38'], [
        (F, "        apply_to_features!(self => da, {\n            da.get(idx)\n        }; sa, {\n            sa.activations.get(&idx)\n        })", "        match self {\n            Features::Dense(da) if idx < da.len() => Some(&da[idx]),\n            Features::Dense(_) => None,\n            Features::Sparse(sa) => sa.activations.get(&idx),\n        }"),
        (F, "        apply_to_features!(self => da, {\n            da.index(idx)\n        }; sa, {\n            sa.activations.get(&idx).unwrap_or(&0.0)\n        })", "        match self {\n            Features::Dense(da) => &da[idx],\n            Features::Sparse(sa) => match sa.activations.get(&idx) {\n                Some(a) => a,\n                None => &0.0,\n            },\n        }"),
        (F, "        apply_to_features!(self => mut da, {\n            if let Some(a) = da.get_mut(idx) {\n                *a = 0.0;\n            }\n        }; mut sa, {\n            sa.activations.remove(&idx);\n        })", "        match self {\n            Features::Dense(da) if idx < da.len() => da[idx] = 0.0,\n            Features::Dense(_) => {}\n            Features::Sparse(SparseActivations { activations, .. }) => {\n                let _ = activations.remove(&idx);\n            }\n        }"),
    ]),
    ('fold-values', ['C02', 'C19', 'C21'], [
        (F, "        apply_to_features!(self => ref da, {\n            da.iter().fold(init, f)\n        }; ref sa, {\n            sa.activations.values().fold(init, f)\n        })", "        let mut acc = init;\n\n        match self {\n            Features::Dense(da) => da.iter().for_each(|x| acc = f(acc, x)),\n            Features::Sparse(sa) => {\n                for (_, x) in sa.iter() {\n                    acc = f(acc, x);\n                }\n            }\n        }\n\n        acc"),
    ]),
    ('matmul-loop', ['C02', 'C28', 'C29'], [
        (F, "        weights\n            .columns()\n            .into_iter()\n            .map(|col| self.dot(&col))\n            .collect()", "        let mut out = Array1::zeros(weights.ncols());\n\n        for (j, o) in out.iter_mut().enumerate() {\n            *o = self.dot(&weights.column(j));\n        }\n\n        out"),
    ]),
    ('scaled-addto-loop', ['C02', 'C21', 'C26', 'C37'], [
        (F, "            for (&idx, act) in sa.iter() { weights[idx] += alpha * act; }", "            sa.activations\n                .iter()\n                .map(|(&idx, &act)| (idx, act * alpha))\n                .for_each(|(idx, delta)| weights[idx] = weights[idx] + delta);"),
    ]),
    ('dot-smaller', ['C02'], [
        (F, "                Sparse(sa2) => sa1.iter().fold(0.0, |acc, (k, a)| {\n                    acc + a * sa2.activations.get(k).copied().unwrap_or(0.0)\n                }),",
         "                Sparse(sa2) => {\n                    let (small, large) = if sa1.activations.len() <= sa2.activations.len() {\n                        (sa1, sa2)\n                    } else {\n                        (sa2, sa1)\n                    };\n\n                    small\n                        .iter()\n                        .filter_map(|(k, a)| large.activations.get(k).map(|b| a * b))\n                        .sum()\n                }"),
    ]),
    ('from-helpers', ['C34', 'C20', 'C31'], [
        (F, "        let n = indices.iter().max().unwrap() + 1;\n\n        SparseFeatures(SparseActivations {\n            dim: n,\n            activations: indices.into_iter().map(|i| (i, 1.0)).collect(),\n        })", "        let n = indices.iter().copied().fold(None, |m: Option<usize>, i| Some(m.map_or(i, |m| m.max(i)))).unwrap() + 1;\n\n        Features::unitary(n, indices)"),
        (F, "        DenseFeatures(Array1::from(activations))", "        Features::dense(activations)"),
        (F, "            activations: activations.into_iter().collect(),\n        })", "            activations: activations.into_iter().fold(\n                std::collections::HashMap::new(),\n                |mut m, (i, a)| {\n                    m.insert(i, a);\n                    m\n                },\n            ),\n        })"),
    ]),
    ('iter-by-try', ['C28', 'C30', 'C39'], [
        (L, "        OutputIter {\n            basis: self.basis.project(input).unwrap(),\n            lanes: self.weights.columns().into_iter(),\n        }", "        self.try_iter(input).unwrap()"),
        (L, "        self.try_iter(input).map(|it| it.collect())", "        self.basis\n            .project(input)\n            .map(|phi| phi.matmul(&self.weights))"),
        (L, "        self.basis\n            .project(input)\n            .map(|b| b.dot(&self.weights.column(index)))", "        let phi = self.basis.project(input)?;\n        let column = self.weights.column(index);\n\n        Ok(phi.dot(&column))"),
    ]),
    ('vector-update-helper', ['C29', 'C30', 'C36', 'C37'], [
        (L, "        self.basis.project(input).and_then(|ref b| {\n            let opt = &mut self.optimiser;\n\n            errors\n                .into_iter()\n                .zip(self.weights.columns_mut().into_iter())\n                .fold(Ok(()), |acc, (e, mut c)| {\n                    acc.and(opt.step_scaled(&mut c, b, e))\n                })\n        })",
         "        let b = self.basis.project(input)?;\n\n        self.step_all(&b, errors)"),
        (L, "            let opt = &mut self.optimiser;\n            let values = b.matmul(&self.weights);\n            let errors = f(b, values);\n\n            errors\n                .into_iter()\n                .zip(self.weights.columns_mut().into_iter())\n                .fold(Ok(()), |acc, (e, mut c)| {\n                    acc.and(opt.step_scaled(&mut c, b, e))\n                })\n        })\n    }",
         "            let errors = f(b, b.matmul(&self.weights));\n\n            step_columns(&mut self.optimiser, &mut self.weights, b, errors)\n        })\n    }\n\n    fn step_all<E>(&mut self, b: &Features, errors: E) -> Result<()>\n    where\n        O: optim::Optimiser,\n        E: IntoIterator<Item = f64>,\n    {\n        step_columns(&mut self.optimiser, &mut self.weights, b, errors)\n    }"),
        (L, "/// An iterator over the evaluated", "fn step_columns<O, E>(opt: &mut O, weights: &mut ndarray::Array2<f64>, b: &Features, errors: E) -> Result<()>\nwhere\n    O: optim::Optimiser,\n    E: IntoIterator<Item = f64>,\n{\n    let mut result = Ok(());\n\n    for (e, mut c) in errors.into_iter().zip(weights.columns_mut()) {\n        let stepped = opt.step_scaled(&mut c, b, e);\n\n        result = result.and(stepped);\n    }\n\n    result\n}\n\n/// An iterator over the evaluated"),
    ]),
    ('vector-update-stop', ['C29', 'C30', 'C36'], [
        (L, "            errors\n                .into_iter()\n                .zip(self.weights.columns_mut().into_iter())\n                .fold(Ok(()), |acc, (e, mut c)| {\n                    acc.and(opt.step_scaled(&mut c, b, e))\n                })\n        })\n    }\n\n    /// Update the `i`th", "            for (e, mut c) in errors.into_iter().zip(self.weights.columns_mut()) {\n                opt.step_scaled(&mut c, b, e)?;\n            }\n\n            Ok(())\n        })\n    }\n\n    /// Update the `i`th"),
    ]),
    ('scalar-question', ['C27', 'C30', 'C36', 'C37'], [
        (L, "        self.basis\n            .project(input)\n            .map(|b| (b.dot(&self.weights.view()), b))\n            .map(|(v, b)| (f(&b, v), b))\n            .and_then(|(e, b)| {\n                self.optimiser\n                    .step_scaled(&mut self.weights.view_mut(), &b, e)\n            })", "        let phi = self.basis.project(input)?;\n        let prediction = phi.dot(&self.weights.view());\n        let error = f(&phi, prediction);\n        let mut view = self.weights.view_mut();\n\n        self.optimiser.step_scaled(&mut view, &phi, error)"),
    ]),
    ('coefficients-count', ['C10', 'C11', 'C12', 'C09', 'C32'], [
        (B + 'mod.rs', "    (0..dim)\n        .map(|_| 0..=order)\n        .multi_cartesian_product()\n        .skip(1)\n        .sorted_by(|a, b| a.partial_cmp(b).unwrap())\n        .dedup()", "    let base = order as usize + 1;\n    let total = if dim == 0 { 0 } else { base.pow(dim as u32) };\n\n    (1..total).map(move |k| {\n        let mut digits = vec![0u8; dim];\n        let mut rest = k;\n\n        for d in digits.iter_mut().rev() {\n            *d = (rest % base) as u8;\n            rest /= base;\n        }\n\n        digits\n    })"),
        (B + 'mod.rs', "use itertools::Itertools;\n", ""),
    ]),
    ('cheb-horner', ['C11', 'C09', 'C31'], [
        (B + 'polynomial/cpfk.rs', "8.0 * x * x * x * x - 8.0 * x * x + 1.0", "(8.0 * x * x - 8.0) * x * x + 1.0"),
        (B + 'polynomial/cpfk.rs', "16.0 * x.powi(5) - 20.0 * x.powi(3) + 5.0 * x", "x * (5.0 + x.powi(2) * (16.0 * x.powi(2) - 20.0))"),
        (B + 'polynomial/cpfk.rs', "32.0 * x.powi(6) - 48.0 * x.powi(4) + 18.0 * x.powi(2) - 1.0", "{\n    let y = x * x;\n\n    ((32.0 * y - 48.0) * y + 18.0) * y - 1.0\n}"),
    ]),
    ('cheb-table', ['C11', 'C09', 'C31'], [
        (B + 'polynomial/mod.rs', "                vals.iter()\n                    .map(|i| match *i {", "                vals.into_iter()\n                    .map(|i| match i {"),
        (B + 'polynomial/mod.rs', "            .map(|v| 2.0 * v - 1.0)\n            .collect();", "            .map(|v| v + v - 1.0)\n            .collect();"),
        (B + 'polynomial/mod.rs', "        iter.into_iter().map(|(v, f)| f(v)).product()", "        iter.into_iter().fold(1.0, |acc, (v, f)| acc * f(v))"),
    ]),
    ('rescale-width', ['C11', 'C12', 'C09', 'C32'], [
        (B + 'mod.rs', "            let v = v.borrow();\n\n            (v - l.0) / (l.1 - l.0)", "            let (lo, hi) = *l;\n            let width = hi - lo;\n\n            (*v.borrow() - lo) / width"),
    ]),
    ('fourier-by-ith', ['C12', 'C09', 'C08', 'C40'], [
        (B + 'fourier.rs', "        Ok(self\n            .coefficients\n            .iter()\n            .map(|cfs| Self::compute_feature(ss.iter().copied().zip(cfs.iter())))\n            .collect())", "        let mut out = Vec::with_capacity(self.coefficients.len());\n\n        for cfs in &self.coefficients {\n            out.push(Self::compute_feature(ss.iter().copied().zip(cfs)));\n        }\n\n        Ok(out.into())"),
        (B + 'fourier.rs', "            .ok_or_else(|| Error::index_error(index, self.dim().into()))", "            .ok_or(Error::index_error(index, self.coefficients.len()))"),
        (B + 'fourier.rs', "(PI * iter.into_iter().fold(0.0, |acc, (v, c)| acc + c * v)).cos()", "iter.into_iter().map(|(v, c)| v * PI * c).sum::<f64>().cos()"),
    ]),
    ('poly-ith-first', ['C10', 'C09', 'C40', 'C08'], [
        (B + 'polynomial/mod.rs', "        self.exponents\n            .get(index)\n            .map(|exps| {\n                let iter = input\n                    .into_iter()\n                    .map(|x| *x.borrow())\n                    .zip(exps.iter().copied());\n\n                Self::compute_feature(iter)\n            })\n            .ok_or_else(|| Error::index_error(index, self.dim().into()))", "        if index >= self.exponents.len() {\n            return Err(Error::index_error(index, self.exponents.len()));\n        }\n\n        let inputs: Vec<f64> = input.into_iter().map(|x| *x.borrow()).collect();\n\n        Ok(Self::compute_feature(inputs.iter().zip(self.exponents[index].iter().copied())))"),
        (B + 'polynomial/mod.rs', "            .map(|(v, e)| v.borrow().powi(e as i32))\n            .product()", "            .fold(1.0, |acc, (v, e)| acc * v.borrow().powi(i32::from(e)))"),
    ]),
    ('kernel-shared-distance', ['C17', 'C18', 'C09', 'C31', 'C39'], [
        (B + 'kernels/mod.rs', "mod stationary;", "/// Euclidean distance between two points, each axis scaled.\nfn distance(x: &[f64], y: &[f64], lengthscales: &[f64]) -> f64 {\n    let n = if x.len() < y.len() { x.len() } else { y.len() };\n    let mut total = 0.0;\n\n    for i in 0..n {\n        let d = (x[i] - y[i]) / lengthscales[i % lengthscales.len()];\n\n        total += d * d;\n    }\n\n    total.sqrt()\n}\n\nmod stationary;"),
        (B + 'kernels/stationary.rs', "                $self.kernel_stationary(x\n                    .into_iter()\n                    .zip(y.into_iter())\n                    .map(|(x, y)| x - y)\n                    .zip($self.lengthscales.iter().cycle())\n                    .map(|(d, l)| d / l)\n                    .fold(0.0f64, |acc, z| acc + z * z)\n                    .sqrt())", "                $self.kernel_stationary(super::distance(x, y, &$self.lengthscales))"),
        (B + 'kernels/rational_quadratic.rs', "        let x = x\n            .iter()\n            .zip(y.iter())\n            .map(|(x, y)| x - y)\n            .zip(self.lengthscales.iter().cycle())\n            .map(|(d, l)| d / l)\n            .fold(0.0, |acc, z| acc + z * z)\n            .sqrt();\n\n        self.kernel_stationary(x)", "        self.kernel_stationary(super::distance(x, y, &self.lengthscales))"),
    ]),
    ('kernel-consts', ['C17', 'C18'], [
        (B + 'kernels/stationary.rs', "        let sqrt_3 = 3.0f64.sqrt();\n", "        const SQRT_3: f64 = 1.7320508075688772;\n        let sqrt_3 = SQRT_3;\n"),
        (B + 'kernels/stationary.rs', "        let sqrt_5 = 5.0f64.sqrt();\n", "        const SQRT_5: f64 = 2.23606797749979;\n        let sqrt_5 = SQRT_5;\n"),
    ]),
    ('kernel-project-push', ['C18', 'C09', 'C08', 'C40'], [
        (B + 'kernelised.rs', "        Ok(self\n            .prototypes\n            .iter()\n            .map(|p| p.distance_from(input.borrow()))\n            .collect())", "        let x = input.borrow();\n        let mut phi = ndarray::Array1::zeros(self.prototypes.len());\n\n        for (out, p) in phi.iter_mut().zip(&self.prototypes) {\n            *out = p.distance_from(x);\n        }\n\n        Ok(Features::Dense(phi))"),
        (B + 'kernelised.rs', "        self.prototypes\n            .get(index)\n            .map(|p| p.distance_from(input.borrow()))\n            .ok_or_else(|| Error::index_error(index, self.prototypes.len()))", "        check_index!(index < self.prototypes.len() => {\n            Ok(self.prototypes[index].distance_from(input))\n        })"),
        (B + 'kernelised.rs', "use crate::{ActivationT, Error, Features, IndexT, Result};", "use crate::{ActivationT, Features, IndexT, Result};"),
    ]),
    ('tile-hash-state-vec', ['C15', 'C16', 'C09', 'C39'], [
        (B + 'tile_coding.rs', "    (0..n_tilings).map(move |t| {\n        let t = t as isize;\n        let tx2 = t * 2;\n        let mut hasher = hasher_builder.build_hasher();\n\n        hasher.write_isize(t);\n\n        for (i, s) in state.iter().enumerate() {\n            let offset = t + i as isize * tx2;\n\n            hasher.write_isize(s.saturating_add(offset).div_euclid(n_tilings as isize))\n        }\n\n        hasher.finish() as usize % memory_size\n    })",
         "    let width = n_tilings as isize;\n\n    (0..width).map(move |t| {\n        let mut hasher = hasher_builder.build_hasher();\n\n        hasher.write_isize(t);\n        state\n            .iter()\n            .zip((0..).map(|i: isize| t * (2 * i + 1)))\n            .map(|(s, offset)| s.saturating_add(offset).div_euclid(width))\n            .for_each(|cell| hasher.write_isize(cell));\n\n        (hasher.finish() as usize) % memory_size\n    })"),
    ]),
    ('tile-ith-contains', ['C15', 'C09', 'C40'], [
        (B + 'tile_coding.rs', "            Ok(if hash.any(|f| index == f) { 1.0 } else { 0.0 })", "            Ok(hash.collect::<std::collections::HashSet<_>>().contains(&index) as u8 as f64)"),
        (B + 'tile_coding.rs', "            let mut hash = hash_state(", "            let hash = hash_state("),
    ]),
    ('norm-ith-by-project', ['C19', 'C09', 'C08', 'C40'], [
        (B + 'normalisation.rs', "            self.0.project(input).map(|f| match f {\n                Features::Dense(da) => {\n                    let z = da.fold(0.0, |acc, x| acc + x.abs());\n\n                    da[index] / z\n                },\n                Features::Sparse(sa) => sa.activations.get(&index).map_or(0.0, |x| {\n                    x / sa.iter().fold(0.0, |acc, (_, x)| acc + x.abs())\n                }),\n            })", "            Basis::project(self, input).map(|f| f[index])"),
        (B + 'normalisation.rs', "                .map(|f| {\n                    let z = f.n_active() as f64;\n\n                    f.get(index).map_or(0.0, |x| x / z)\n                })", "                .map(|f| match f.get(index) {\n                    Some(x) => x / f.n_active() as f64,\n                    None => 0.0,\n                })"),
    ]),
    ('norm-linf-helper', ['C19', 'C09', 'C08'], [
        (B + 'normalisation.rs', ("                let z = da.fold(f64::NEG_INFINITY, |acc, &x| acc.max(x.abs()));", 0), "                let mut z = f64::NEG_INFINITY;\n\n                for x in da.iter() {\n                    z = f64::max(x.abs(), z);\n                }\n"),
        (B + 'normalisation.rs', "                let z = sa\n                    .iter()\n                    .fold(f64::NEG_INFINITY, |acc, (_, x)| acc.max(x.abs()));", "                let z = sa\n                    .activations\n                    .values()\n                    .map(|x| x.abs())\n                    .fold(f64::NEG_INFINITY, f64::max);"),
    ]),
    ('norm-recip', ['C19', 'C09'], [
        (B + 'normalisation.rs', ("                        .map(|(i, x)| (i, x / z))", 0), "                        .map(|(i, x)| (i, x / z))\n                        .filter(|_| true)"),
        (B + 'normalisation.rs', ("                Features::Dense(da.mapv(|x| x / z))", 1), "                Features::Dense(da.mapv_into(|x| x / z))"),
    ]),
    ('error-string', ['C40', 'C09', 'C36'], [
        ('src/error.rs', "            message: format!(\n                \"Index ({}) exceeded dimensionality ({}) of the projection.\",\n                index, dim\n            ),", "            message: {\n                let mut text = String::from(\"Index (\");\n\n                text.push_str(&index.to_string());\n                text.push_str(\") exceeded dimensionality (\");\n                text += &dim.to_string();\n                text + \") of the projection.\"\n            },"),
        ('src/error.rs', "{ writeln!(f, \"{}\", self.message) }", "{\n        f.write_str(&self.message)?;\n        f.write_str(\"\\n\")\n    }"),
    ]),
    ('check-index-match', ['C40', 'C09', 'C20'], [
        ('src/error.rs', "        if $index < $dim {\n            $code\n        } else {\n            Err($crate::error::Error::index_error($index, $dim))\n        }", "        match $dim {\n            dim if $index >= dim => Err($crate::error::Error::index_error($index, dim)),\n            _ => $code,\n        }"),
    ]),
    ('nag-merged', ['C22', 'C25', 'C26', 'C33', 'C37', 'C39'], [
        (O + 'nesterov.rs', "        match features {\n            Features::Dense(da) => self\n                .velocity\n                .zip_mut_with(da, |x, y| *x = m * *x + y * scale_factor),\n            Features::Sparse(sa) => {\n                self.velocity.mul_assign(m);\n\n                sa.iter().for_each(|(i, a)| {\n                    let g = a * scale_factor;\n\n                    self.velocity[*i] += g;\n                });\n            }\n        }\n        {\n            weights.scaled_add(lr * m, &self.velocity);\n            features.scaled_addto(lr * scale_factor, weights);\n        }\n        Ok(())",
         "        for i in 0..self.velocity.len() {\n            let g = features.get(i).copied().unwrap_or(0.0) * scale_factor;\n            let v = m * self.velocity[i] + g;\n\n            self.velocity[i] = v;\n            weights[i] += lr * (m * v + g);\n        }\n\n        Ok(())"),
        (O + 'nesterov.rs', "use std::ops::MulAssign;\n", ""),
    ]),
    ('momentum-one-loop', ['C22', 'C25', 'C26', 'C33', 'C37', 'C38'], [
        (O + 'momentum.rs', "        match features {\n            Features::Dense(da) => self\n                .velocity\n                .zip_mut_with(da, |x, y| *x = m * *x + y * scale_factor),\n            Features::Sparse(sa) => {\n                self.velocity.mul_assign(m);\n\n                sa.iter().for_each(|(i, a)| {\n                    self.velocity[*i] += a * scale_factor;\n                });\n            },\n        }\n\n        Ok(weights.scaled_add(lr, &self.velocity))",
         "        for (i, v) in self.velocity.iter_mut().enumerate() {\n            *v = *v * m + scale_factor * features[i];\n            weights[i] += lr * *v;\n        }\n\n        Ok(())"),
        (O + 'momentum.rs', "use std::ops::MulAssign;\n", ""),
    ]),
    ('adagrad-one-helper', ['C23', 'C25', 'C26', 'C33', 'C37', 'C38'], [
        (O + 'adagrad.rs', "impl Optimiser<Features> for Adagrad {", "fn advance(lr: f64, w: &mut f64, ss: &mut f64, g: f64) {\n    *ss += g * g;\n    *w += lr * g / (EPS + ss.sqrt());\n}\n\nimpl Optimiser<Features> for Adagrad {"),
        (O + 'adagrad.rs', "                    let g = a * scale_factor;\n\n                    *ss = *ss + g.powi(2);\n                    *w = *w + lr * g / (ss.sqrt() + EPS);\n", "                    advance(lr, w, ss, scale_factor * a);\n"),
        (O + 'adagrad.rs', "                    let g = sa.activations.get(&i).cloned().unwrap_or(0.0) * scale_factor;\n\n                    *ss = *ss + g.powi(2);\n                    weights[i] += lr * g / (ss.sqrt() + EPS);", "                    if let Some(a) = sa.activations.get(&i) {\n                        advance(lr, &mut weights[i], ss, a * scale_factor);\n                    }"),
    ]),
    ('adam-one-loop', ['C24', 'C25', 'C26', 'C33', 'C38', 'C39'], [
        (O + 'adam.rs', "        match features {\n            Features::Dense(da) => {\n                let m1 =", "        let c1 = 1.0 - self.beta1_prod;\n        let c2 = 1.0 - self.beta2_prod;\n\n        match features {\n            Features::Dense(da) => {\n                let m1 ="),
        (O + 'adam.rs', ("                    let m1_unbiased = m1_new / (1.0 - self.beta1_prod);\n                    let m2_unbiased = m2_new / (1.0 - self.beta2_prod);", 0), "                    let m1_unbiased = m1_new / c1;\n                    let m2_unbiased = m2_new / c2;"),
        (O + 'adam.rs', "                self.exp_avg.mul_assign(self.beta1);\n                self.exp_avg_sq.mul_assign(self.beta2);\n", "                self.exp_avg *= self.beta1;\n                self.exp_avg_sq *= self.beta2;\n"),
        (O + 'adam.rs', "use std::ops::MulAssign;\n", ""),
        (O + 'adam.rs', "                for i in 0..m1.len() {\n                    let g = sa.activations.get(&i).copied().unwrap_or(0.0) * scale_factor;\n", "                for (i, w) in weights.iter_mut().enumerate() {\n                    let g = scale_factor * sa.activations.get(&i).map_or(0.0, |a| *a);\n"),
        (O + 'adam.rs', ("                    weights[i] += self.learning_rate * m1_unbiased / (m2_unbiased.sqrt() + EPS);", 1), "                    *w += self.learning_rate * (m1_unbiased / (m2_unbiased.sqrt() + EPS));"),
    ]),
    ('adamax-one-loop', ['C24', 'C25', 'C26', 'C33', 'C38', 'C39'], [
        (O + 'adamax.rs', "        match features {\n            Features::Dense(da) => {\n                let m = ", "        let (beta1, beta2, lr) = (self.beta1, self.beta2, self.learning_rate / (1.0 - self.beta1_prod));\n\n        match features {\n            Features::Dense(da) => {\n                let m = "),
        (O + 'adamax.rs', "                for (i, a) in da.indexed_iter() {\n                    let g = a * scale_factor;\n\n                    let m_new = self.beta1 * m[i] + (1.0 - self.beta1) * g;\n                    let u_new = (self.beta2 * u[i]).max(g.abs());\n                    let m_unbiased = m_new / (1.0 - self.beta1_prod);\n\n                    m[i] = m_new;\n                    u[i] = u_new;\n                    weights[i] += self.learning_rate * m_unbiased / (u_new + EPS);\n                }",
         "                for (((a, w), m), u) in da.iter().zip(weights.iter_mut()).zip(m).zip(u) {\n                    let g = a * scale_factor;\n\n                    *m = beta1 * *m + (1.0 - beta1) * g;\n                    *u = g.abs().max(*u * beta2);\n                    *w += lr * *m / (*u + EPS);\n                }"),
    ]),
    ('sgd-step-default', ['C21', 'C26', 'C33', 'C27', 'C37'], [
        (O + 'sgd.rs', "    fn step(&mut self, weights: &mut ArrayViewMut1<f64>, features: &Features) -> Result<()> {\n        Ok(features.scaled_addto(self.0, weights))\n    }\n\n", ""),
        (O + 'isgd.rs', "    fn step(&mut self, weights: &mut ArrayViewMut1<f64>, features: &Features) -> Result<()> {\n        Ok(features.scaled_addto(self.compute_lr(features), weights))\n    }\n\n", ""),
    ]),
    ('sgd-zero-shortcut', ['C21', 'C27', 'C33', 'C37', 'C36'], [
        (O + 'sgd.rs', "        Ok(features.scaled_addto(self.0 * scale_factor, weights))", "        let rate = self.0 * scale_factor;\n\n        if rate != 0.0 {\n            features.scaled_addto(rate, weights);\n        }\n\n        Ok(())"),
    ]),
    ('prototype-kernels-fn', ['C18', 'C32', 'C17'], [
        (B + 'kernelised.rs', ("        let lengthscales = partitioning.iter().map(|d| d.partition_width()).collect();\n        let kernel = kernels::ExpQuad::new(1.0, lengthscales);\n        let centroids: Vec<Vec<f64>> = partitioning\n            .centres()\n            .into_iter()\n            .multi_cartesian_product()\n            .collect();\n", 0), "        let mut lengthscales = Vec::new();\n\n        for d in partitioning.iter() {\n            lengthscales.push(d.partition_width());\n        }\n\n        let kernel = kernels::ExpQuad::new(1.0, lengthscales);\n        let centroids = partitioning.centres().into_iter().multi_cartesian_product();\n"),
    ]),
    ('fixed-collect', ['C20', 'C09', 'C39', 'C40'], [
        (B + 'constant.rs', "            activations: (self.0).1.iter().map(|&i| (i, 1.0)).collect(),", "            activations: {\n                let mut map = std::collections::HashMap::with_capacity((self.0).1.len());\n\n                for &i in &(self.0).1 {\n                    map.insert(i, 1.0);\n                }\n\n                map\n            },"),
        (B + 'constant.rs', "            Ok(if (self.0).1.contains(&index) { 1.0 } else { 0.0 })", "            Ok((self.0).1.get(&index).map_or(0.0, |_| 1.0))"),
    ]),
    ('derives-by-hand', ['C38', 'C31', 'C34', 'C22'], [
        (O + 'momentum.rs', "#[derive(Clone, Debug, PartialEq)]", "#[derive(Debug, PartialEq)]"),
        (O + 'momentum.rs', "impl SGDMomentum {", "impl Clone for SGDMomentum {\n    fn clone(&self) -> Self {\n        SGDMomentum {\n            velocity: self.velocity.to_owned(),\n            ..*self\n        }\n    }\n}\n\nimpl SGDMomentum {"),
        (F, "#[derive(Clone, Debug)]\n#[cfg_attr(\n    feature = \"serde\",\n    derive(Serialize, Deserialize),\n    serde(crate = \"serde_crate\")\n)]\npub enum Features {", "#[derive(Debug)]\n#[cfg_attr(\n    feature = \"serde\",\n    derive(Serialize, Deserialize),\n    serde(crate = \"serde_crate\")\n)]\npub enum Features {"),
        (F, "impl AsRef<Features> for Features {", "impl Clone for Features {\n    fn clone(&self) -> Self {\n        match self {\n            Features::Dense(da) => Features::Dense(da.iter().copied().collect()),\n            Features::Sparse(sa) => Features::sparse(sa.dim, sa.iter().map(|(&i, &a)| (i, a))),\n        }\n    }\n}\n\nimpl AsRef<Features> for Features {"),
    ]),
]
