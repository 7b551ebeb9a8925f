"""behaviour-preserving edits: (name, properties whose checks must stay quiet, [(file, old or (old, nth), new)])"""
F = 'src/features.rs'; L = 'src/lib.rs'; B = 'src/basis/'; O = 'src/optim/'
EDITS = [
 ('to-dense-helper', ['C01', 'C03', 'C06'], [
   (F, '''            Features::Sparse(sa) => {
                let mut phi = Array1::zeros(sa.dim);

                for (&idx, &act) in sa.iter() {
                    phi[idx] = act;
                }

                phi
            }''', '''            Features::Sparse(sa) => Features::scatter(sa),'''),
   (F, '''    /// Expand the features directly into''', '''    fn scatter(sa: &SparseActivations) -> DenseActivations {
        let mut phi: Vec<ActivationT> = vec![0.0; sa.dim];
        sa.activations.iter().for_each(|(i, a)| {
            let slot = phi.get_mut(*i).expect("active index out of range");
            *slot = *a;
        });
        Array1::from(phi)
    }

    /// Expand the features directly into'''),
   (F, '''            Features::Sparse(sa) => {
                let mut phi = Array1::zeros(sa.dim);

                for (idx, act) in sa.activations.into_iter() {
                    phi[idx] = act;
                }

                phi
            }''', '''            Features::Sparse(ref sa) => Features::scatter(sa),''')]),
 ('stack-extend', ['C03', 'C20', 'C34'], [
   (F, '''                sa2.activations.iter().for_each(|(i, &v)| {
                    sa1.activations.insert(i + sa1.dim, v);
                });
''', '''                let offset = sa1.dim;
                sa1.activations.extend(sa2.activations.into_iter().map(|(i, v)| (offset + i, v)));
'''), (F, '''                let mut all_activations = f1.into_dense().to_vec();
                all_activations.extend(f2.into_dense());

                Dense(all_activations.into())''', '''                let (d1, d2) = (f1.into_dense(), f2.into_dense());
                let (n1, n2) = (d1.len(), d2.len());
                let mut all = Array1::zeros(n1 + n2);

                all.slice_mut(ndarray::s![..n1]).assign(&d1);
                all.slice_mut(ndarray::s![n1..]).assign(&d2);

                Dense(all)''')]),
 ('stack-concatenate', ['C03', 'C20', 'C06'], [
   (F, '''                let mut all_activations = f1.into_dense().to_vec();
                all_activations.extend(f2.into_dense());

                Dense(all_activations.into())''', '''                Dense(ndarray::concatenate(ndarray::Axis(0), &[f1.into_dense().view(), f2.into_dense().view()]).unwrap())''')]),
 ('map-via-clone', ['C04', 'C06', 'C08'], [
   (F, '''        match self {
            Dense(da) => Dense(da.mapv(&f)),

            // Is the function sparsity preserving?
            Sparse(sa) => {
                let null_activation = f(0.0);

                if null_activation.abs() < 1e-5 {
                    let activations = sa.iter().map(|(&i, &k)| (i, f(k))).collect();''', '''        match self {
            Dense(da) => Dense(da.iter().map(|x| f(*x)).collect()),

            // Is the function sparsity preserving?
            Sparse(sa) => {
                let null_activation = f(0.0);

                if null_activation.abs() < 1e-5 {
                    let mut activations = std::collections::HashMap::with_capacity(sa.activations.len());
                    for (i, k) in &sa.activations {
                        activations.insert(*i, f(*k));
                    }''')]),
 ('map-into-by-map', ['C04', 'C06', 'C08', 'C19'], [
   (F, '''        match self {
            Dense(activations) => Dense(activations.mapv_into(&f)),

            // Is the function sparsity preserving?
            Sparse(sa) => {
                let null_activation = f(0.0);

                if null_activation.abs() < 1e-5 {
                    let activations = sa.activations.into_iter().map(|(i, v)| (i, f(v))).collect();''', '''        match self {
            Dense(mut activations) => {
                activations.iter_mut().for_each(|x| *x = f(*x));
                Dense(activations)
            }

            // Is the function sparsity preserving?
            Sparse(mut sa) => {
                let null_activation = f(0.0);

                if null_activation.abs() < 1e-5 {
                    sa.activations.values_mut().for_each(|v| *v = f(*v));
                    let activations = sa.activations;''')]),
 ('merge-sparse-union', ['C05', 'C06'], [
   (F, '''                    let mut idx_out = sa1.activations.clone();

                    for (i, a) in idx_out.iter_mut() {
                        *a = f(*a, sa2.activations.get(i).cloned().unwrap_or(0.0));
                    }

                    for (&i, y) in sa2.activations.iter() {
                        idx_out.entry(i).or_insert_with(|| f(0.0, *y));
                    }
''', '''                    let mut idx_out = std::collections::HashMap::new();

                    for i in sa1.activations.keys().chain(sa2.activations.keys()) {
                        if !idx_out.contains_key(i) {
                            let x = sa1.activations.get(i).copied().unwrap_or(0.0);
                            let y = sa2.activations.get(i).copied().unwrap_or(0.0);
                            idx_out.insert(*i, f(x, y));
                        }
                    }
'''), (F, ('''                    let mut phi = Array1::uninit(n);

                    for i in 0..n {
                        phi[i] = MaybeUninit::new(f(
                            sa1.activations.get(&i).cloned().unwrap_or(0.0),
                            da2.get(i).copied().unwrap_or(0.0),
                        ));
                    }

                    unsafe { Dense(phi.assume_init()) }''', 0), '''                    let phi = (0..n).map(|i| {
                        f(
                            sa1.activations.get(&i).cloned().unwrap_or(0.0),
                            da2.get(i).copied().unwrap_or(0.0),
                        )
                    });

                    Dense(phi.collect())''')]),
 ('merge-zip', ['C05', 'C06'], [
   (F, '''                    let mut a_out = da1.clone();

                    a_out.zip_mut_with(da2, |x, y| *x = f(*x, *y));

                    Dense(a_out)''', '''                    Dense(ndarray::Zip::from(da1).and_broadcast(da2).map_collect(|&x, &y| f(x, y)))''')]),
 ('dot-loops', ['C02', 'C27', 'C28'], [
   (F, '''        sa.activations
            .iter()
            .fold(0.0, |acc, (idx, act)| acc + weights[*idx] * act)''', '''        let mut total = 0.0;
        for (idx, act) in sa.iter() {
            let product = act * weights[*idx];
            total = total + product;
        }
        total'''),
   (F, '''        weights
            .columns()
            .into_iter()
            .map(|col| self.dot(&col))
            .collect()''', '''        let mut out = Array1::zeros(weights.ncols());
        for (j, slot) in out.iter_mut().enumerate() {
            *slot = self.dot(&weights.column(j));
        }
        out'''),
   (F, '''            Features::Dense(da) => da.sum(),
            Features::Sparse(sa) => sa.activations.values().sum(),''', '''            Features::Dense(da) => da.iter().sum(),
            Features::Sparse(sa) => sa.activations.values().fold(0.0, |s, v| s + v),''')]),
 ('addto-by-scaled', ['C02', 'C21'], [
   (F, '''        apply_to_features!(self => ref da, {
            weights.add_assign(da)
        }; ref sa, {
            for (&idx, act) in sa.iter() { weights[idx] += act; }
        });''', '''        self.scaled_addto(1.0, weights)'''),
   (F, '''            for (&idx, act) in sa.iter() { weights[idx] += alpha * act; }''', '''            sa.activations.iter().for_each(|(idx, act)| {
                let delta = alpha * *act;
                weights[*idx] = weights[*idx] + delta;
            });''')]),
 ('noop', ['C01', 'C02', 'C05'], [
   (F, '''    pub fn n_features(&self) -> usize {
''', '''    pub fn n_features(&self) -> usize {
        let _ = ();
'''), (F, '''    pub fn sum(&self) -> ActivationT {
''', '''    pub fn sum(&self) -> ActivationT {
        debug_assert!(self.n_features() == self.n_features());
''')]),
 ('eq-loop', ['C34', 'C31'], [
   (F, '''(&DenseFeatures(ref da1), &DenseFeatures(ref da2)) => da1.eq(&da2),''', '''(&DenseFeatures(ref da1), &DenseFeatures(ref da2)) => {
                if da1.len() != da2.len() {
                    return false;
                }
                for i in 0..da1.len() {
                    if !(da1[i] == da2[i]) {
                        return false;
                    }
                }
                true
            }''')]),
 ('lfa-match', ['C27', 'C30'], [
   (L, '''        self.basis
            .project(input)
            .map(|b| (b.dot(&self.weights.view()), b))
            .map(|(v, b)| (f(&b, v), b))
            .and_then(|(e, b)| {
                self.optimiser
                    .step_scaled(&mut self.weights.view_mut(), &b, e)
            })''', '''        let features = self.basis.project(input)?;
        let prediction = features.dot(&self.weights.view());
        let error = f(&features, prediction);

        self.optimiser.step_scaled(&mut self.weights.view_mut(), &features, error)'''),
   (L, ('''        self.basis.project(input).and_then(|ref b| {
            self.optimiser
                .step_scaled(&mut self.weights.view_mut(), b, error)
        })''', 0), '''        match self.basis.project(input) {
            Ok(features) => {
                let mut view = self.weights.view_mut();
                self.optimiser.step_scaled(&mut view, &features, error)
            }
            Err(e) => Err(e),
        }''')]),
 ('vector-loops', ['C28', 'C29', 'C30'], [
   (L, '''            let opt = &mut self.optimiser;

            errors
                .into_iter()
                .zip(self.weights.columns_mut().into_iter())
                .fold(Ok(()), |acc, (e, mut c)| {
                    acc.and(opt.step_scaled(&mut c, b, e))
                })
        })
    }

    /// Update the `i`th''', '''            let n = self.weights.ncols();

            for (j, e) in errors.into_iter().take(n).enumerate() {
                let mut column = self.weights.column_mut(j);
                self.optimiser.step_scaled(&mut column, b, e)?;
            }
            Ok(())
        })
    }

    /// Update the `i`th'''),
   (L, '''            let values = b.matmul(&self.weights);
            let errors = f(b, values);
''', '''            let errors = {
                let values: ndarray::Array1<f64> = self.weights.columns().into_iter().map(|c| b.dot(&c)).collect();
                f(b, values)
            };
'''),
   (L, '''        self.try_iter(input).map(|it| it.collect())''', '''        let features = self.basis.project(input)?;

        Ok(features.matmul(&self.weights))''')]),
 ('poly-recursive', ['C10', 'C08', 'C09', 'C31'], [
   (B + 'polynomial/mod.rs', '''        iter.into_iter()
            .map(|(v, e)| v.borrow().powi(e as i32))
            .product()''', '''        let mut out = 1.0;
        for (v, e) in iter {
            let v = *v.borrow();
            for _ in 0..e {
                out *= v;
            }
        }
        out'''),
   (B + 'mod.rs', '''    (0..dim)
        .map(|_| 0..=order)
        .multi_cartesian_product()
        .skip(1)
        .sorted_by(|a, b| a.partial_cmp(b).unwrap())
        .dedup()''', '''    let base = order as usize + 1;
    let total = base.pow(dim as u32);

    (1..total).map(move |mut k| {
        let mut digits = vec![0u8; dim];
        for slot in digits.iter_mut().rev() {
            *slot = (k % base) as u8;
            k /= base;
        }
        digits
    })''')]),
 ('coefficients-sort', ['C10', 'C11', 'C12'], [
   (B + 'mod.rs', '''        .multi_cartesian_product()
        .skip(1)
        .sorted_by(|a, b| a.partial_cmp(b).unwrap())
        .dedup()''', '''        .multi_cartesian_product()
        .filter(|c: &Vec<u8>| c.iter().any(|&x| x > 0))
        .collect::<std::collections::BTreeSet<_>>()
        .into_iter()''')]),
 ('chebyshev-recurrence', ['C11', 'C09'], [
   (B + 'polynomial/cpfk.rs', '''pub(super) fn t_5(x: f64) -> f64 { 16.0 * x.powi(5) - 20.0 * x.powi(3) + 5.0 * x }''',
    '''pub(super) fn t_5(x: f64) -> f64 { 2.0 * x * t_4(x) - t_3(x) }'''),
   (B + 'polynomial/cpfk.rs', '''    128.0 * x.powi(8) - 256.0 * x.powi(6) + 160.0 * x.powi(4) - 32.0 * x.powi(2) + 1.0''',
    '''    let y = x * x;
    (((128.0 * y - 256.0) * y + 160.0) * y - 32.0) * y + 1.0'''),
   (B + 'polynomial/cpfk.rs', '''    1024.0 * x.powi(11) - 2816.0 * x.powi(9) + 2816.0 * x.powi(7) - 1232.0 * x.powi(5)
        + 220.0 * x.powi(3)
        - 11.0 * x''', '''    let (mut a, mut b) = (1.0, x);
    for _ in 0..10 {
        let c = 2.0 * x * b - a;
        a = b;
        b = c;
    }
    b''')]),
 ('rescale-helper', ['C11', 'C12', 'C09'], [
   (B + 'mod.rs', '''            (v - l.0) / (l.1 - l.0)''', '''            let width = l.1 - l.0;
            let offset = v - l.0;

            offset / width'''),
   (B + 'fourier.rs', '''        (PI * iter.into_iter().fold(0.0, |acc, (v, c)| acc + c * v)).cos()''', '''        let mut angle = 0.0;
        for (v, c) in iter {
            angle += v * c;
        }
        f64::cos(angle * PI)''')]),
 ('grid-strides', ['C14', 'C09', 'C08', 'C31', 'C32'], [
   (B + 'uniform_grid.rs', '''        let mut in_it = input.into_iter().copied();
        let mut d_it = self.feature_space.iter();

        let acc = d_it.next().unwrap().map_onto(in_it.next().unwrap());

        d_it.zip(in_it)
            .fold(acc, |acc, (d, v)| d.map_onto(v) + d.n_partitions() * acc)''', '''        let mut index = 0;
        for (d, v) in self.feature_space.iter().zip(input) {
            index = index * d.n_partitions() + d.map_onto(*v);
        }
        index''')]),
 ('grid-own-cell', ['C14', 'C09', 'C16'], [
   (B + 'uniform_grid.rs', '''            activations: ::std::iter::once((active_bin, 1.0)).collect(),''', '''            activations: {
                let mut m = ::std::collections::HashMap::with_capacity(1);
                m.insert(active_bin, 1.0);
                m
            },''')]),
 ('tile-loop', ['C15', 'C16', 'C09', 'C08'], [
   (B + 'tile_coding.rs', '''            let offset = t + i as isize * tx2;

            hasher.write_isize(s.saturating_add(offset).div_euclid(n_tilings as isize))''', '''            let n = n_tilings as isize;
            let shifted = s.saturating_add(t * (1 + 2 * i as isize));
            let (q, r) = (shifted / n, shifted % n);

            hasher.write_isize(if r < 0 { q - 1 } else { q })'''),
   (B + 'tile_coding.rs', '''        let tx2 = t * 2;
''', ''),
   (B + 'tile_coding.rs', '''            activations: hash.map(|i| (i, 1.0)).collect(),''', '''            activations: hash.fold(Default::default(), |mut m: std::collections::HashMap<_, _>, i| {
                m.entry(i).or_insert(1.0);
                m
            }),''')]),
 ('tile-order', ['C15', 'C16', 'C09'], [
   (B + 'tile_coding.rs', '''        hasher.write_isize(t);

        for (i, s) in state.iter().enumerate() {
            let offset = t + i as isize * tx2;

            hasher.write_isize(s.saturating_add(offset).div_euclid(n_tilings as isize))
        }
''', '''        for (i, s) in state.iter().enumerate() {
            let offset = t + i as isize * tx2;

            hasher.write_i64(s.saturating_add(offset).div_euclid(n_tilings as isize) as i64)
        }
        hasher.write_usize(t as usize);
''')]),
 ('kernel-loops', ['C17', 'C18', 'C09', 'C31'], [
   (B + 'kernels/stationary.rs', '''                $self.kernel_stationary(x
                    .into_iter()
                    .zip(y.into_iter())
                    .map(|(x, y)| x - y)
                    .zip($self.lengthscales.iter().cycle())
                    .map(|(d, l)| d / l)
                    .fold(0.0f64, |acc, z| acc + z * z)
                    .sqrt())''', '''                let mut total = 0.0f64;
                for i in 0..x.len().min(y.len()) {
                    let z = (x[i] - y[i]) / $self.lengthscales[i % $self.lengthscales.len()];
                    total += z.powi(2);
                }
                let r = total.sqrt();
                $self.kernel_stationary(r)'''),
   (B + 'kernels/stationary.rs', '''{ self.variance * (-0.5 * r * r).exp() }''', '''{
        let exponent = -(r * r) / 2.0;
        exponent.exp() * self.variance
    }'''),
   (B + 'kernels/stationary.rs', '''        self.variance * (1.0 + sqrt_5 * r + 5.0 / 3.0 * r * r) * (-sqrt_5 * r).exp()''', '''        let z = sqrt_5 * r;
        self.variance * (1.0 + z + (z * z) / 3.0) * (-z).exp()''')]),
 ('kernel-rq', ['C17', 'C18'], [
   (B + 'kernels/rational_quadratic.rs', '''        self.variance * (-self.power * (r * r / 2.0).ln_1p()).exp()''', '''        let base: f64 = 1.0 + r * r / 2.0;

        self.variance * base.powf(-self.power)''')]),
 ('prototype-helper', ['C18', 'C32', 'C09'], [
   (B + 'kernelised.rs', '''        let lengthscales = partitioning.iter().map(|d| d.partition_width()).collect();
        let kernel = kernels::ExpQuad::new(1.0, lengthscales);
        let centroids: Vec<Vec<f64>> = partitioning
            .centres()
            .into_iter()
            .multi_cartesian_product()
            .collect();

        KernelBasis::homogeneous(centroids, kernel)''', '''        let mut lengthscales = Vec::new();
        let mut centroids: Vec<Vec<f64>> = vec![vec![]];
        for d in partitioning.iter() {
            lengthscales.push(d.partition_width());
            let mut next = Vec::new();
            for c in &centroids {
                for x in d.centres() {
                    let mut c = c.clone();
                    c.push(x);
                    next.push(c);
                }
            }
            centroids = next;
        }
        KernelBasis::homogeneous(centroids, kernels::ExpQuad::new(1.0, lengthscales))''')]),
 ('normaliser-shared', ['C19', 'C09', 'C08'], [
   (B + 'normalisation.rs', ('''        self.0.project(input).map(|f| match f {
            Features::Dense(da) => {
                let z = da.fold(0.0, |acc, x| acc + x * x).sqrt();

                Features::Dense(da.mapv(|x| x / z))
            },
            Features::Sparse(sa) => {
                let z = sa.iter().fold(0.0, |acc, (_, x)| acc + x * x).sqrt();

                Features::Sparse(SparseActivations {
                    dim: sa.dim,
                    activations: sa
                        .activations
                        .into_iter()
                        .map(|(i, x)| (i, x / z))
                        .collect(),
                })
            },
        })''', 0), '''        let f = self.0.project(input)?;
        let z = f.fold(0.0, |acc, x| acc + x.powi(2)).sqrt();

        Ok(f.map_into(|x| x / z))'''),
   (B + 'normalisation.rs', ('''                let z = da.fold(f64::NEG_INFINITY, |acc, &x| acc.max(x.abs()));

                Features::Dense(da.mapv(|x| x / z))''', 0), '''                let mut z = 0.0;
                for x in da.iter() {
                    if x.abs() > z {
                        z = x.abs();
                    }
                }

                Features::Dense(da / z)'''),
   (B + 'normalisation.rs', ('''                let z = sa.iter().fold(0.0, |acc, (_, x)| acc + x.abs());
''', 0), '''                let z: f64 = sa.activations.values().map(|x| x.abs()).sum();
''')]),
 ('normaliser-ith', ['C19', 'C09'], [
   (B + 'normalisation.rs', '''                    let z = f.n_active() as f64;

                    f.get(index).map_or(0.0, |x| x / z)''', '''                    match f.get(index) {
                        Some(x) => x / f.n_active() as f64,
                        None => 0.0,
                    }'''),
   (B + 'normalisation.rs', ('''                    let z = da.fold(0.0, |acc, x| acc + x.abs());

                    da[index] / z''', 0), '''                    let mut z = 0.0;
                    for i in 0..da.len() {
                        z += da[i].abs();
                    }

                    da[index] / z''')]),
 ('stack-basis-question', ['C20', 'C09', 'C30'], [
   (B + 'stack.rs', '''        self.b1
            .project(input.clone())
            .and_then(|f1| self.b2.project(input).map(|f2| f1.stack(f2)))''', '''        let first = self.b1.project(input.clone())?;
        let second = self.b2.project(input)?;

        Ok(Features::stack(first, second))'''),
   (B + 'stack.rs', '''        if index < n1 {
            self.b1.ith(input, index)
        } else if index < n12 {
            self.b2.ith(input, index - n1)
        } else {
            Err(Error::index_error(index, n12))
        }''', '''        match index.checked_sub(n1) {
            None => self.b1.ith(input, index),
            Some(i) if i < n2 => self.b2.ith(input, i),
            Some(_) => Err(Error::index_error(index, n12)),
        }''')]),
 ('constants', ['C20', 'C09'], [
   (B + 'constant.rs', '''            activations: (self.0).1.iter().map(|&i| (i, 1.0)).collect(),''', '''            activations: {
                let (_, ref active) = self.0;
                let mut map = std::collections::HashMap::new();
                for i in active {
                    map.insert(*i, 1.0);
                }
                map
            },'''),
   (B + 'constant.rs', '''            Ok(*self.0.get(index).unwrap())''', '''            let constants: &[f64] = &self.0;
            Ok(constants[index])''')]),
 ('sgd-helper', ['C21', 'C26', 'C33', 'C27'], [
   (O + 'isgd.rs', '''        let norm = features.fold(0.0, |acc, x| acc + x * x);

        self.0 / (1.0 + self.0 * norm)''', '''        let norm = match features {
            Features::Dense(da) => da.dot(da),
            Features::Sparse(sa) => sa.activations.values().map(|x| x.powi(2)).sum::<f64>(),
        };
        let ISGD(lr) = *self;

        lr / (lr * norm + 1.0)'''),
   (O + 'sgd.rs', '''        Ok(features.scaled_addto(self.0, weights))''', '''        self.step_scaled(weights, features, 1.0)'''),
   (O + 'sgd.rs', '''        Ok(features.scaled_addto(self.0 * scale_factor, weights))''', '''        let SGD(rate) = *self;
        let alpha = scale_factor * rate;
        features.scaled_addto(alpha, weights);
        Ok(())''')]),
 ('momentum-loops', ['C22', 'C25', 'C26', 'C33', 'C31'], [
   (O + 'momentum.rs', '''        match features {
            Features::Dense(da) => self
                .velocity
                .zip_mut_with(da, |x, y| *x = m * *x + y * scale_factor),
            Features::Sparse(sa) => {
                self.velocity.mul_assign(m);

                sa.iter().for_each(|(i, a)| {
                    self.velocity[*i] += a * scale_factor;
                });
            },
        }

        Ok(weights.scaled_add(lr, &self.velocity))''', '''        self.velocity *= m;
        features.scaled_addto(scale_factor, &mut self.velocity);

        for (w, v) in weights.iter_mut().zip(self.velocity.iter()) {
            *w += lr * v;
        }
        Ok(())'''), (O + 'momentum.rs', '''use std::ops::MulAssign;
''', ''), (O + 'momentum.rs', '''self.velocity.fill(0.0);''', '''self.velocity = Array1::zeros(self.velocity.len());''')]),
 ('nesterov-loops', ['C22', 'C25', 'C26', 'C33'], [
   (O + 'nesterov.rs', '''            weights.scaled_add(lr * m, &self.velocity);
            features.scaled_addto(lr * scale_factor, weights);''', '''            let gradient = features.to_dense();
            for i in 0..weights.len() {
                weights[i] += lr * (m * self.velocity[i] + scale_factor * gradient[i]);
            }''')]),
 ('adagrad-dense', ['C23', 'C25', 'C26', 'C33'], [
   (O + 'adagrad.rs', '''        match features {
            Features::Dense(da) => da
                .iter()
                .zip(weights.iter_mut())
                .zip(self.accumulator.iter_mut())
                .for_each(|((a, w), ss)| {
                    let g = a * scale_factor;

                    *ss = *ss + g.powi(2);
                    *w = *w + lr * g / (ss.sqrt() + EPS);
                }),
            Features::Sparse(sa) => {
                for (i, ss) in self.accumulator.indexed_iter_mut() {
                    let g = sa.activations.get(&i).cloned().unwrap_or(0.0) * scale_factor;

                    *ss = *ss + g.powi(2);
                    weights[i] += lr * g / (ss.sqrt() + EPS);
                }
            },
        }
''', '''        let mut one = |ss: &mut f64, w: &mut f64, a: f64| {
            let g = scale_factor * a;

            *ss += g * g;
            *w += g * lr / (EPS + ss.sqrt());
        };

        match features {
            Features::Dense(da) => {
                for i in 0..da.len() {
                    one(&mut self.accumulator[i], &mut weights[i], da[i]);
                }
            }
            Features::Sparse(sa) => {
                for (&i, &a) in sa.iter() {
                    one(&mut self.accumulator[i], &mut weights[i], a);
                }
            }
        }
''')]),
 ('adam-helper', ['C24', 'C25', 'C26', 'C33', 'C31'], [
   (O + 'adam.rs', '''        match features {
            Features::Dense(da) => {
                let m1 = self.exp_avg.as_slice_memory_order_mut().unwrap();
                let m2 = self.exp_avg_sq.as_slice_memory_order_mut().unwrap();

                for (i, a) in da.indexed_iter() {
                    let g = a * scale_factor;

                    let m1_new = self.beta1 * m1[i] + (1.0 - self.beta1) * g;
                    let m2_new = self.beta2 * m2[i] + (1.0 - self.beta2) * g * g;

                    let m1_unbiased = m1_new / (1.0 - self.beta1_prod);
                    let m2_unbiased = m2_new / (1.0 - self.beta2_prod);

                    m1[i] = m1_new;
                    m2[i] = m2_new;
                    weights[i] += self.learning_rate * m1_unbiased / (m2_unbiased.sqrt() + EPS);
                }
            },
            Features::Sparse(sa) => {
                self.exp_avg.mul_assign(self.beta1);
                self.exp_avg_sq.mul_assign(self.beta2);

                let m1 = self.exp_avg.as_slice_memory_order_mut().unwrap();
                let m2 = self.exp_avg_sq.as_slice_memory_order_mut().unwrap();

                for i in 0..m1.len() {
                    let g = sa.activations.get(&i).copied().unwrap_or(0.0) * scale_factor;

                    let m1_new = m1[i] + (1.0 - self.beta1) * g;
                    let m2_new = m2[i] + (1.0 - self.beta2) * g * g;

                    let m1_unbiased = m1_new / (1.0 - self.beta1_prod);
                    let m2_unbiased = m2_new / (1.0 - self.beta2_prod);

                    m1[i] = m1_new;
                    m2[i] = m2_new;
                    weights[i] += self.learning_rate * m1_unbiased / (m2_unbiased.sqrt() + EPS);
                }
            },
        }
''', '''        let n = self.exp_avg.len();
        let (c1, c2) = (1.0 - self.beta1_prod, 1.0 - self.beta2_prod);

        for i in 0..n {
            let a = match features {
                Features::Dense(da) => da[i],
                Features::Sparse(sa) => *sa.activations.get(&i).unwrap_or(&0.0),
            };
            let g = scale_factor * a;

            self.exp_avg[i] = self.exp_avg[i] * self.beta1 + g * (1.0 - self.beta1);
            self.exp_avg_sq[i] = self.exp_avg_sq[i] * self.beta2 + g.powi(2) * (1.0 - self.beta2);

            let step = (self.exp_avg[i] / c1) / ((self.exp_avg_sq[i] / c2).sqrt() + EPS);
            weights[i] += self.learning_rate * step;
        }
'''), (O + 'adam.rs', '''use std::ops::MulAssign;
''', '')]),
 ('adamax-branch', ['C24', 'C25', 'C26', 'C33'], [
   (O + 'adamax.rs', '''                    let u_new = (self.beta2 * u[i]).max(g.abs());''', '''                    let decayed = self.beta2 * u[i];
                    let u_new = if g.abs() >= decayed { g.abs() } else { decayed };'''),
   (O + 'adamax.rs', '''                    let g = sa.activations.get(&i).copied().unwrap_or(0.0) * scale_factor;
''', '''                    let g = match sa.activations.get(&i) {
                        Some(a) => *a * scale_factor,
                        None => 0.0,
                    };
''')]),
 ('from-space', ['C32', 'C12', 'C11'], [
   (B + 'polynomial/mod.rs', '''                .map(|d| (d.inf().unwrap(), d.sup().unwrap()))
                .collect(),''', '''                .map(|d| get_bounds(d))
                .collect::<Vec<_>>(),'''),
   (B + 'fourier.rs', '''        Fourier::new(order, input_space.iter().map(get_bounds).collect())''', '''        let mut limits = Vec::new();
        for d in input_space.iter() {
            limits.push((d.inf().expect("missing lower bound"), d.sup().expect("missing upper bound")));
        }
        Fourier::new(order, limits)''')]),
 ('chebyshev-serde', ['C31'], [
   (B + 'polynomial/mod.rs', '''                let mut order = None;
                let mut limits = None;
                while let Some(key) = map.next_key()? {''', '''                let (mut limits, mut order) = (None, None);
                loop {
                    let key = match map.next_key()? {
                        Some(key) => key,
                        None => break,
                    };''')]),
 ('n-active-fold', ['C01', 'C19', 'C08'], [
   (F, '''            da.iter().filter(|v| v.abs() > 1e-7).count()''', '''            let mut n = 0;
            for v in da {
                if *v > 1e-7 || *v < -1e-7 {
                    n += 1;
                }
            }
            n'''),
   (F, '''            if let Some(a) = da.get_mut(idx) {
                *a = 0.0;
            }''', '''            if idx < da.len() {
                da[idx] = 0.0;
            }''')]),
]
