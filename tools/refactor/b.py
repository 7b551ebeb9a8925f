# behaviour-preserving edits, second round: other idioms for the same thing
F = 'src/features.rs'
B = 'src/basis/'
O = 'src/optim/'
EDITS = [
    ('sparse-entry-merge', ['C05', 'C06', 'C34'], [
        (F, ("                    for (&i, y) in sa2.activations.iter() {\n                        idx_out.entry(i).or_insert_with(|| f(0.0, *y));\n                    }", 0),
         "                    idx_out.extend(\n                        sa2.activations\n                            .iter()\n                            .filter(|(i, _)| !sa1.activations.contains_key(i))\n                            .map(|(&i, &y)| (i, f(0.0, y))),\n                    );"),
    ]),
    ('sparse-merge-drain', ['C05', 'C06'], [
        (F, "                    for (i, a) in sa1.activations.iter_mut() {\n                        *a = f(*a, sa2.activations.get(i).cloned().unwrap_or(0.0));\n                    }\n\n                    for (&i, y) in sa2.activations.iter() {\n                        sa1.activations.entry(i).or_insert_with(|| f(0.0, *y));\n                    }",
         "                    for (&i, &y) in sa2.activations.iter() {\n                        let a = sa1.activations.get(&i).copied().unwrap_or(0.0);\n\n                        sa1.activations.insert(i, f(a, y));\n                    }\n\n                    sa1.activations.iter_mut().for_each(|(i, a)| {\n                        if !sa2.activations.contains_key(i) {\n                            *a = f(*a, 0.0);\n                        }\n                    });"),
    ]),
    ('merge-from-shape-fn', ['C05', 'C06'], [
        (F, ("                    let n = sa1.dim.max(da2.len());\n                    let mut phi = Array1::uninit(n);\n\n                    for i in 0..n {\n                        phi[i] = MaybeUninit::new(f(\n                            sa1.activations.get(&i).copied().unwrap_or(0.0),\n                            da2.get(i).copied().unwrap_or(0.0),\n                        ));\n                    }\n\n                    unsafe { Dense(phi.assume_init()) }", 0),
         "                    Dense(Array1::from_shape_fn(sa1.dim.max(da2.len()), |i| {\n                        f(\n                            sa1.activations.get(&i).map_or(0.0, |a| *a),\n                            *da2.get(i).unwrap_or(&0.0),\n                        )\n                    }))"),
    ]),
    ('to-dense-shape-fn', ['C01', 'C06', 'C03', 'C20'], [
        (F, "                let mut phi = Array1::zeros(sa.dim);\n\n                for (&idx, &act) in sa.iter() {\n                    phi[idx] = act;\n                }\n\n                phi\n",
         "                Array1::from_shape_fn(sa.dim, |i| sa.activations.get(&i).copied().unwrap_or_default())\n"),
        (F, "                for (idx, act) in sa.activations.into_iter() {\n                    phi[idx] = act;\n                }\n\n                phi\n            }\n        }\n    }\n\n    /// Stack",
         "                sa.activations.into_iter().for_each(|(idx, act)| phi[idx] = act);\n\n                phi\n            }\n        }\n    }\n\n    /// Stack"),
    ]),
    ('stack-map-chain', ['C03', 'C20'], [
        (F, "                sa2.activations.iter().for_each(|(i, &v)| {\n                    sa1.activations.insert(i + sa1.dim, v);\n                });\n\n                Sparse(SparseActivations {\n                    dim: sa1.dim + sa2.dim,\n                    activations: sa1.activations,\n                })",
         "                let n = sa1.dim;\n\n                sa1.activations.reserve(sa2.activations.len());\n                sa1.dim += sa2.dim;\n                sa1.activations\n                    .extend(sa2.activations.into_iter().map(|(i, v)| (n + i, v)));\n\n                Sparse(sa1)"),
        (F, "                let mut all_activations = f1.into_dense().to_vec();\n                all_activations.extend(f2.into_dense());\n\n                Dense(all_activations.into())",
         "                Dense(\n                    f1.into_dense()\n                        .into_iter()\n                        .chain(f2.into_dense())\n                        .collect(),\n                )"),
    ]),
    ('map-retain', ['C04', 'C06'], [
        (F, "                    let activations = sa.activations.into_iter().map(|(i, v)| (i, f(v))).collect();\n\n                    Sparse(SparseActivations {\n                        dim: sa.dim,\n                        activations,\n                    })",
         "                    let mut sa = sa;\n\n                    sa.activations.values_mut().for_each(|v| *v = f(*v));\n\n                    Sparse(sa)"),
        (F, "            Dense(da) => Dense(da.mapv(&f)),", "            Dense(da) => Dense(da.map(|&x| f(x))),"),
        (F, "            Dense(activations) => Dense(activations.mapv_into(&f)),", "            Dense(mut activations) => {\n                activations.iter_mut().for_each(|x| *x = f(*x));\n\n                Dense(activations)\n            },"),
    ]),
    ('dot-filter-map', ['C02', 'C27', 'C28'], [
        (F, "                Sparse(sa2) => sa1.iter().fold(0.0, |acc, (k, a)| {\n                    acc + a * sa2.activations.get(k).copied().unwrap_or(0.0)\n                }),",
         "                Sparse(sa2) => {\n                    // visit the shorter of the two\n                    let (short, long) = if sa1.activations.len() <= sa2.activations.len() { (sa1, sa2) } else { (sa2, sa1) };\n\n                    short\n                        .iter()\n                        .filter_map(|(k, a)| long.activations.get(k).map(|b| a * b))\n                        .sum()\n                },"),
        (F, "            .fold(0.0, |acc, (idx, act)| acc + weights[*idx] * act)", "            .map(|(&idx, &act)| act * weights[idx])\n            .sum()"),
    ]),
    ('sum-as-fold', ['C02'], [
        (F, "            Features::Dense(da) => da.sum(),\n            Features::Sparse(sa) => sa.activations.values().sum(),", "            Features::Dense(_) | Features::Sparse(_) => self.fold(0.0, |acc, x| acc + x),"),
        (F, "            da.iter().fold(init, f)\n", "            let mut acc = init;\n\n            for x in da {\n                acc = f(acc, x);\n            }\n\n            acc\n"),
        (F, "            weights.scaled_add(alpha, da)\n", "            weights.zip_mut_with(da, |w, &a| *w += alpha * a)\n"),
        (F, "        weights\n            .columns()\n            .into_iter()\n            .map(|col| self.dot(&col))\n            .collect()", "        (0..weights.ncols())\n            .map(|j| self.dot(&weights.column(j)))\n            .collect()"),
    ]),
    ('dot-skip-zero', ['C02', 'C27', 'C26'], [
        (F, "            .fold(0.0, |acc, (idx, act)| acc + weights[*idx] * act)", "            .filter(|(_, act)| **act != 0.0)\n            .fold(0.0, |acc, (idx, act)| acc + weights[*idx] * act)"),
        (F, "            for (&idx, act) in sa.iter() { weights[idx] += alpha * act; }", "            if alpha != 0.0 {\n                for (&idx, act) in sa.iter() {\n                    weights[idx] += alpha * act;\n                }\n            }"),
    ]),
    ('dot-mul-add', ['C02', 'C27', 'C28'], [
        (F, "            .fold(0.0, |acc, (idx, act)| acc + weights[*idx] * act)", "            .fold(0.0, |acc, (idx, act)| weights[*idx].mul_add(*act, acc))"),
    ]),
    ('index-checked', ['C01', 'C19'], [
        (F, "            if let Some(a) = da.get_mut(idx) {\n                *a = 0.0;\n            }\n", "            match da.get_mut(idx) {\n                Some(a) => *a = 0.0,\n                None => {}\n            }\n"),
        (F, "            da.iter().filter(|v| v.abs() > 1e-7).count()", "            da.iter().map(|&v| (v > 1e-7 || v < -1e-7) as usize).sum()"),
        (F, "            Some(da.uget(idx))\n", "            Some(&*da.as_ptr().offset(da.strides()[0] * idx as isize))\n"),
    ]),
    ('eq-all', ['C34', 'C31', 'C06'], [
        (F, "                sa1.dim == sa2.dim && sa1.activations.eq(&sa2.activations)", "                sa1.dim == sa2.dim\n                    && sa1.activations.len() == sa2.activations.len()\n                    && sa1.iter().all(|(i, x)| sa2.activations.get(i).map_or(false, |y| x == y))"),
        (F, "            (&DenseFeatures(ref da1), &DenseFeatures(ref da2)) => da1.eq(&da2),", "            (DenseFeatures(da1), DenseFeatures(da2)) if da1.len() != da2.len() => false,\n            (DenseFeatures(da1), DenseFeatures(da2)) => da1.iter().zip(da2.iter()).all(|(x, y)| x == y),"),
    ]),
    ('lfa-question', ['C27', 'C30', 'C28', 'C29'], [
        ('src/lib.rs', "        self.basis\n            .project(input)\n            .map(|b| (b.dot(&self.weights.view()), b))\n            .map(|(v, b)| (f(&b, v), b))\n            .and_then(|(e, b)| {\n                self.optimiser\n                    .step_scaled(&mut self.weights.view_mut(), &b, e)\n            })",
         "        let phi = self.basis.project(input)?;\n        let error = f(&phi, phi.dot(&self.weights));\n\n        self.optimiser.step_scaled(&mut self.weights.view_mut(), &phi, error)"),
        ('src/lib.rs', "        self.try_iter(input).map(|it| it.collect())", "        let phi = self.basis.project(input)?;\n\n        Ok(phi.matmul(&self.weights))"),
        ('src/lib.rs', ("            errors\n                .into_iter()\n                .zip(self.weights.columns_mut().into_iter())\n                .fold(Ok(()), |acc, (e, mut c)| {\n                    acc.and(opt.step_scaled(&mut c, b, e))\n                })", 0),
         "            let mut errors = errors.into_iter();\n            let mut result = Ok(());\n\n            for mut c in self.weights.columns_mut() {\n                match errors.next() {\n                    Some(e) => result = result.and(opt.step_scaled(&mut c, b, e)),\n                    None => break,\n                }\n            }\n\n            result"),
    ]),
    ('lfa-axis-iter', ['C29', 'C28'], [
        ('src/lib.rs', ("                .zip(self.weights.columns_mut().into_iter())", 0), "                .zip(self.weights.axis_iter_mut(ndarray::Axis(1)))"),
        ('src/lib.rs', "            .map(|b| b.dot(&self.weights.column(index)))", "            .map(|b| b.dot(&self.weights.index_axis(ndarray::Axis(1), index)))"),
    ]),
    ('poly-mult', ['C10', 'C08', 'C09', 'C31'], [
        (B + 'polynomial/mod.rs', "            .map(|(v, e)| v.borrow().powi(e as i32))\n            .product()", "            .map(|(v, e)| (0..e).fold(1.0, |p, _| p * v.borrow()))\n            .fold(1.0, |x, y| x * y)"),
    ]),
    ('poly-flat', ['C10', 'C09'], [
        (B + 'polynomial/mod.rs', "            .map(|(v, e)| v.borrow().powi(e as i32))\n            .product()", "            .flat_map(|(v, e)| std::iter::repeat(*v.borrow()).take(e as usize))\n            .product()"),
    ]),
    ('poly-filter', ['C10', 'C09', 'C08'], [
        (B + 'polynomial/mod.rs', "            .map(|(v, e)| v.borrow().powi(e as i32))\n            .product()", "            .filter(|(_, e)| *e > 0)\n            .map(|(v, e)| match (*v.borrow(), e) {\n                (x, 1) => x,\n                (x, 2) => x * x,\n                (x, e) => x.powi(e.into()),\n            })\n            .product()"),
    ]),
    ('fourier-dot', ['C12', 'C09', 'C32'], [
        (B + 'fourier.rs', "        (PI * iter.into_iter().fold(0.0, |acc, (v, c)| acc + c * v)).cos()", "        let phase: f64 = iter.into_iter().map(|(v, c)| PI * c * v).sum();\n\n        phase.cos()"),
        (B + 'fourier.rs', "            .map(|cfs| cfs.into_iter().map(|c| c as f64).collect())", "            .map(|cfs| cfs.into_iter().map(f64::from).collect())"),
    ]),
    ('kernel-hypot', ['C17', 'C18', 'C09'], [
        (B + 'kernels/stationary.rs', "                    .map(|(d, l)| d / l)\n                    .fold(0.0f64, |acc, z| acc + z * z)\n                    .sqrt())", "                    .map(|(d, l)| (d / l).powi(2))\n                    .sum::<f64>()\n                    .sqrt())"),
        (B + 'kernels/stationary.rs', "                $self.kernel_stationary((x - y).abs() / $self.lengthscales[0])", "                let d = if x > y { x - y } else { y - x };\n\n                $self.kernel_stationary(d / $self.lengthscales[0])"),
        (B + 'kernels/stationary.rs', "    { self.variance * (-0.5 * r * r).exp() }", "    { self.variance * (r.powi(2) * -0.5).exp() }"),
        (B + 'kernels/stationary.rs', "        self.variance * (1.0 + sqrt_3 * r) * (-sqrt_3 * r).exp()", "        let z = sqrt_3 * r;\n\n        self.variance * (z + 1.0) * (-z).exp()"),
        (B + 'kernels/stationary.rs', "        self.variance * (1.0 + sqrt_5 * r + 5.0 / 3.0 * r * r) * (-sqrt_5 * r).exp()", "        let z = sqrt_5 * r;\n\n        self.variance * (1.0 + z + z * z / 3.0) * (-z).exp()"),
    ]),
    ('kernel-rq-powf', ['C17', 'C18'], [
        (B + 'kernels/rational_quadratic.rs', "        self.variance * (-self.power * (r * r / 2.0).ln_1p()).exp()", "        self.variance / (self.power * (0.5 * r.powi(2)).ln_1p()).exp()"),
    ]),
    ('tile-sorted', ['C15', 'C16', 'C09', 'C08'], [
        (B + 'tile_coding.rs', "            activations: hash.map(|i| (i, 1.0)).collect(),", "            activations: {\n                let mut tiles: Vec<usize> = hash.collect();\n\n                tiles.sort_unstable();\n                tiles.dedup();\n                tiles.into_iter().map(|i| (i, 1.0)).collect()\n            },"),
        (B + 'tile_coding.rs', "            Ok(if hash.any(|f| index == f) { 1.0 } else { 0.0 })", "            Ok(hash.find(|f| *f == index).map_or(0.0, |_| 1.0))"),
    ]),
    ('tile-vec', ['C15', 'C16', 'C09'], [
        (B + 'tile_coding.rs', "        .map(|f| (f * n_tilings as f64).floor() as isize)\n        .collect()", "        .fold(Vec::new(), |mut v, f| {\n            v.push((n_tilings as f64 * f).floor() as isize);\n            v\n        })"),
        (B + 'tile_coding.rs', "        for (i, s) in state.iter().enumerate() {\n            let offset = t + i as isize * tx2;\n", "        let mut next = t;\n\n        for s in state {\n            let offset = next;\n\n            next += tx2;\n"),
    ]),
    ('grid-horner', ['C14', 'C09', 'C32', 'C08'], [
        (B + 'uniform_grid.rs', "        let mut in_it = input.into_iter().copied();\n        let mut d_it = self.feature_space.iter();\n\n        let acc = d_it.next().unwrap().map_onto(in_it.next().unwrap());\n\n        d_it.zip(in_it)\n            .fold(acc, |acc, (d, v)| d.map_onto(v) + d.n_partitions() * acc)",
         "        self.feature_space\n            .iter()\n            .zip(input.into_iter())\n            .fold(0, |acc, (d, &v)| acc * d.n_partitions() + d.map_onto(v))"),
    ]),
    ('grid-unitary', ['C14', 'C09', 'C08'], [
        (B + 'uniform_grid.rs', "        let mut in_it = input.into_iter().copied();\n        let mut d_it = self.feature_space.iter();\n\n        let acc = d_it.next().unwrap().map_onto(in_it.next().unwrap());\n\n        d_it.zip(in_it)\n            .fold(acc, |acc, (d, v)| d.map_onto(v) + d.n_partitions() * acc)",
         "        let cells: Vec<(usize, usize)> = self\n            .feature_space\n            .iter()\n            .zip(input)\n            .map(|(d, v)| (d.map_onto(*v), d.n_partitions()))\n            .collect();\n        let mut stride = 1;\n        let mut index = 0;\n\n        for (cell, n) in cells.into_iter().rev() {\n            index += cell * stride;\n            stride *= n;\n        }\n\n        index"),
    ]),
    ('stack-zip', ['C20', 'C30', 'C08'], [
        (B + 'stack.rs', "        self.b1\n            .project(input.clone())\n            .and_then(|f1| self.b2.project(input).map(|f2| f1.stack(f2)))", "        match (self.b1.project(input.clone()), self.b2.project(input)) {\n            (Ok(f1), Ok(f2)) => Ok(f1.stack(f2)),\n            (Err(e), _) | (Ok(_), Err(e)) => Err(e),\n        }"),
        (B + 'stack.rs', "        if index < n1 {\n            self.b1.ith(input, index)\n        } else if index < n12 {\n            self.b2.ith(input, index - n1)\n        } else {\n            Err(Error::index_error(index, n12))\n        }", "        match index.checked_sub(n1) {\n            None => self.b1.ith(input, index),\n            Some(i) if i < n2 => self.b2.ith(input, i),\n            Some(_) => Err(Error::index_error(index, n12)),\n        }"),
    ]),
    ('fixed-unitary', ['C20', 'C09', 'C08'], [
        (B + 'constant.rs', "        Ok(Features::Sparse(SparseActivations {\n            dim: (self.0).0,\n            activations: (self.0).1.iter().map(|&i| (i, 1.0)).collect(),\n        }))", "        let SparseActivations { dim, activations } = SparseActivations {\n            dim: (self.0).0,\n            activations: (self.0).1.iter().copied().zip(std::iter::repeat(1.0)).collect(),\n        };\n\n        Ok(Features::sparse(dim, activations))"),
        (B + 'constant.rs', "            Ok(*self.0.get(index).unwrap())", "            Ok(self.0[index])"),
    ]),
    ('l2-dot', ['C19', 'C09', 'C08'], [
        (B + 'normalisation.rs', ("                let z = da.fold(0.0, |acc, x| acc + x * x).sqrt();\n\n                Features::Dense(da.mapv(|x| x / z))", 0), "                let z = da.dot(&da).sqrt();\n\n                Features::Dense(da / z)"),
        (B + 'normalisation.rs', ("                let z = sa.iter().fold(0.0, |acc, (_, x)| acc + x * x).sqrt();", 0), "                let z = sa.activations.values().map(|x| x.powi(2)).sum::<f64>().sqrt();"),
        (B + 'normalisation.rs', ("                let z = da.fold(0.0, |acc, x| acc + x.abs());", 0), "                let z = da.iter().map(|x| x.abs()).sum::<f64>();"),
        (B + 'normalisation.rs', ("                let z = sa.iter().fold(0.0, |acc, (_, x)| acc + x.abs());", 0), "                let z = sa.iter().fold(0.0, |acc, (_, &x)| if x < 0.0 { acc - x } else { acc + x });"),
    ]),
    ('l0-guard', ['C19', 'C09'], [
        (B + 'normalisation.rs', "            f.map_into(|x| x / z)\n", "            f.map_into(|x| if x == 0.0 { 0.0 } else { x / z })\n"),
    ]),
    ('isgd-dot', ['C21', 'C26', 'C33'], [
        (O + 'isgd.rs', "        let norm = features.fold(0.0, |acc, x| acc + x * x);\n\n        self.0 / (1.0 + self.0 * norm)", "        let norm = match features {\n            Features::Dense(da) => da.dot(da),\n            Features::Sparse(sa) => sa.activations.values().map(|x| x.powi(2)).sum(),\n        };\n\n        self.0 / norm.mul_add(self.0, 1.0)"),
    ]),
    ('momentum-azip', ['C22', 'C25', 'C26', 'C33'], [
        (O + 'momentum.rs', "        match features {\n            Features::Dense(da) => self\n                .velocity\n                .zip_mut_with(da, |x, y| *x = m * *x + y * scale_factor),\n            Features::Sparse(sa) => {\n                self.velocity.mul_assign(m);\n\n                sa.iter().for_each(|(i, a)| {\n                    self.velocity[*i] += a * scale_factor;\n                });\n            },\n        }\n\n        Ok(weights.scaled_add(lr, &self.velocity))",
         "        self.velocity.mul_assign(m);\n        features.scaled_addto(scale_factor, &mut self.velocity);\n\n        ndarray::Zip::from(weights)\n            .and(&self.velocity)\n            .for_each(|w, &v| *w += v * lr);\n\n        Ok(())"),
        (O + 'momentum.rs', "self.velocity.fill(0.0)", "self.velocity = Array1::zeros(self.velocity.len())"),
    ]),
    ('momentum-skip-zero', ['C22', 'C26', 'C33'], [
        (O + 'momentum.rs', "                sa.iter().for_each(|(i, a)| {\n                    self.velocity[*i] += a * scale_factor;\n                });", "                if scale_factor != 0.0 {\n                    for (&i, &a) in sa.iter() {\n                        self.velocity[i] = self.velocity[i] + scale_factor * a;\n                    }\n                }"),
    ]),
    ('adagrad-zip', ['C23', 'C25', 'C26', 'C33'], [
        (O + 'adagrad.rs', "            Features::Dense(da) => da\n                .iter()\n                .zip(weights.iter_mut())\n                .zip(self.accumulator.iter_mut())\n                .for_each(|((a, w), ss)| {\n                    let g = a * scale_factor;\n\n                    *ss = *ss + g.powi(2);\n                    *w = *w + lr * g / (ss.sqrt() + EPS);\n                }),",
         "            Features::Dense(da) => ndarray::Zip::from(weights)\n                .and(&mut self.accumulator)\n                .and(da)\n                .for_each(|w, ss, &a| {\n                    let g = scale_factor * a;\n\n                    *ss += g * g;\n                    *w += g * (lr / (EPS + ss.sqrt()));\n                }),"),
    ]),
    ('adagrad-skip', ['C23', 'C26', 'C33'], [
        (O + 'adagrad.rs', "                    *ss = *ss + g.powi(2);\n                    weights[i] +=", "                    if g == 0.0 {\n                        continue;\n                    }\n\n                    *ss = *ss + g.powi(2);\n                    weights[i] +="),
    ]),
    ('adam-zip', ['C24', 'C25', 'C26', 'C33'], [
        (O + 'adam.rs', "                    let m1_new = self.beta1 * m1[i] + (1.0 - self.beta1) * g;\n                    let m2_new = self.beta2 * m2[i] + (1.0 - self.beta2) * g * g;", "                    let m1_new = g + self.beta1 * (m1[i] - g);\n                    let m2_new = self.beta2 * m2[i] + (1.0 - self.beta2) * g.powi(2);"),
        (O + 'adam.rs', ("                    weights[i] += self.learning_rate * m1_unbiased / (m2_unbiased.sqrt() + EPS);", 0), "                    let step = m1_unbiased / (EPS + m2_unbiased.sqrt());\n\n                    weights[i] += step * self.learning_rate;"),
    ]),
    ('adamax-max', ['C24', 'C25', 'C26', 'C33'], [
        (O + 'adamax.rs', "                    let u_new = (self.beta2 * u[i]).max(g.abs());", "                    let u_new = f64::max(g.abs(), u[i] * self.beta2);"),
        (O + 'adamax.rs', "                    let u_new = u[i].max(g.abs());", "                    let u_new = if g > u[i] { g } else if -g > u[i] { -g } else { u[i] };"),
    ]),
    ('prototype-zip', ['C18', 'C32'], [
        (B + 'kernelised.rs', "        Ok(self\n            .prototypes\n            .iter()\n            .map(|p| p.distance_from(input.borrow()))\n            .collect())", "        let x = input.borrow();\n        let mut phi = Vec::with_capacity(self.prototypes.len());\n\n        for p in self.prototypes.iter() {\n            phi.push(p.distance_from(x));\n        }\n\n        Ok(phi.into())"),
        (B + 'kernelised.rs', ("        let centroids: Vec<Vec<f64>> = partitioning\n            .centres()\n            .into_iter()\n            .multi_cartesian_product()\n            .collect();", 0), "        let centroids = partitioning.centres().into_iter().fold(vec![vec![]], |acc: Vec<Vec<f64>>, cs| {\n            acc.iter()\n                .flat_map(|c| {\n                    cs.iter()\n                        .map(move |&x| c.iter().copied().chain(Some(x)).collect::<Vec<f64>>())\n                        .collect::<Vec<_>>()\n                })\n                .collect()\n        });"),
    ]),
]
