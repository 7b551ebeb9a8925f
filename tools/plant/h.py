F = 'src/features.rs'
B = 'src/basis/'
O = 'src/optim/'
L = 'src/lib.rs'
K = B + 'kernels/'
BUGS = []
def bug(id, property, file, old, new, needs, breaks, demo, pre=''):
    edits = None if isinstance(file, str) else file
    BUGS.append(dict(id=id, property=property, file=file, old=old, new=new, edits=edits, needs=needs, breaks=breaks,
                     demo='use lfa::{*, basis::*, optim::*};\nuse ndarray::{Array1, Array2, arr1, arr2};\n' + pre + '\nfn main() {\n' + demo + '\n}'))

bug('c22-memory-order', 'C22', O + 'momentum.rs', "        Ok(weights.scaled_add(lr, &self.velocity))", "        match weights.as_slice_memory_order_mut() {\n            Some(ws) => ws.iter_mut().zip(self.velocity.iter()).for_each(|(w, v)| *w += lr * v),\n            None => weights.scaled_add(lr, &self.velocity),\n        }\n\n        Ok(())",
    'weights that are reversed in memory', 'the steps are taken by the wrong weights',
    'let mut o = SGDMomentum::new(2, 0.5, 1.0); let mut w: Array1<f64> = Array1::zeros(2); w.invert_axis(ndarray::Axis(0)); o.step_scaled(&mut w.view_mut(), &Features::dense(vec![1.0, 0.0]), 1.0).unwrap(); assert_eq!(w[0], 1.0);')
bug('c24-memory-order', 'C24', O + 'adam.rs', ("                for (i, a) in da.indexed_iter() {\n", 0), "                let ordered = da.as_slice_memory_order().map(|s| ndarray::ArrayView1::from(s));\n\n                for (i, a) in ordered.unwrap_or(da.view()).indexed_iter() {\n",
    'dense features that are reversed in memory', 'the gradients are those of other weights',
    'let mut o = Adam::new(2, 1.0, 0.5, 0.5); let mut w: Array1<f64> = Array1::zeros(2); let mut v = arr1(&[1.0, 0.0]); v.invert_axis(ndarray::Axis(0)); o.step_scaled(&mut w.view_mut(), &Features::from(v), 1.0).unwrap(); assert!(w[1] > 0.0);')
bug('c23-raw-weights', 'C23', O + 'adagrad.rs', "                .zip(weights.iter_mut())\n", "                .zip(match weights.strides()[0] {\n                    1 | -1 => weights.as_slice_memory_order_mut().map(|s| s.iter_mut().collect::<Vec<_>>()).unwrap(),\n                    _ => weights.iter_mut().collect(),\n                })\n",
    'weights that are reversed in memory', 'the steps are taken by the wrong weights',
    'let mut o = Adagrad::new(2, 1.0); let mut w: Array1<f64> = Array1::zeros(2); w.invert_axis(ndarray::Axis(0)); o.step_scaled(&mut w.view_mut(), &Features::dense(vec![1.0, 0.0]), 1.0).unwrap(); assert!(w[0] > 0.0);')
bug('c28-standard-layout', 'C28', L, "            .map(|b| b.dot(&self.weights.column(index)))", "            .map(|b| {\n                let (n, k) = self.weights.dim();\n\n                match self.weights.as_slice_memory_order() {\n                    Some(ws) if !self.weights.is_standard_layout() && n > 1 => {\n                        b.dot(&ndarray::ArrayView1::from(&ws[(index % k) * n..(index % k + 1) * n]))\n                    },\n                    _ => b.dot(&self.weights.column(index)),\n                }\n            })",
    'weights whose rows are reversed in memory', 'the value of an output is computed from the weights of others',
    'let mut w = arr2(&[[1.0, 2.0], [3.0, 4.0]]); w.invert_axis(ndarray::Axis(0)); let l: VectorLFA<_, _> = LFA::new(Fixed::dense(vec![1.0, 0.0]), w, SGD(0.1)); assert_eq!(l.evaluate_index(&[0.0], 1).unwrap(), l.evaluate(&[0.0]).unwrap()[1]);')
bug('c28-many-outputs', 'C28', L, "        self.try_iter(input).map(|it| it.collect())", "        let mut values = ndarray::Array1::zeros(self.n_outputs());\n\n        self.try_iter(input).map(|it| {\n            it.take(256).zip(values.iter_mut()).for_each(|(y, v)| *v = y);\n\n            values\n        })",
    'more than 256 outputs', 'the outputs beyond are zero',
    'let l: VectorLFA<_, _> = LFA::new(Bias::unit(), Array2::from_elem((1, 300), 1.0), SGD(0.1)); assert_eq!(l.evaluate(&[0.0]).unwrap()[299], 1.0);')
bug('c29-inverted', 'C29', L, "            self.optimiser\n                .step_scaled(&mut self.weights.column_mut(index), b, error)", "            let index = if self.weights.strides()[1] < 0 { self.weights.ncols() - 1 - index } else { index };\n\n            self.optimiser\n                .step_scaled(&mut self.weights.column_mut(index), b, error)",
    'weights whose columns are reversed in memory', 'another output is updated',
    'let mut w: Array2<f64> = Array2::zeros((1, 2)); w.invert_axis(ndarray::Axis(1)); let mut l: VectorLFA<_, _> = LFA::new(Bias::unit(), w, SGD(1.0)); l.update_index(&[0.0], 1, 1.0).unwrap(); assert_eq!(l.weights[[0, 1]], 1.0);')
bug('c14-narrow-acc', 'C14', B + 'uniform_grid.rs', "            .fold(acc, |acc, (d, v)| d.map_onto(v) + d.n_partitions() * acc)", "            .fold(acc as u32, |acc, (d, v)| (d.map_onto(v) as u32).wrapping_add((d.n_partitions() as u32).wrapping_mul(acc))) as usize",
    'a grid of more than 2^32 cells', 'another cell is active',
    'use spaces::{Equipartition, ProductSpace}; let b = UniformGrid::new(ProductSpace::new(vec![Equipartition::new(0.0, 1.0, 300); 4])); assert_eq!(b.project(&[0.999, 0.999, 0.999, 0.999][..]).unwrap()[300usize.pow(4) - 1], 1.0);')
bug('c18-thin-cells', 'C18', B + 'kernelised.rs', ("        let lengthscales = partitioning.iter().map(|d| d.partition_width()).collect();\n        let kernel = kernels::Matern52::new(1.0, lengthscales);", 0), "        let lengthscales = partitioning.iter().map(|d| d.partition_width().max(1e-6)).collect();\n        let kernel = kernels::Matern52::new(1.0, lengthscales);",
    'cells narrower than 1e-6', 'the kernels are wider than the cells',
    'use spaces::{Equipartition, ProductSpace}; let b = KernelBasis::matern_52(ProductSpace::new(vec![Equipartition::new(0.0, 1e-8, 1)])); let y = b.project([1.5e-8]).unwrap()[0]; assert!((y - 0.52399f64).abs() < 1e-3, "{}", y);')
bug('c20-stack-order', 'C20', B + 'stack.rs', "        self.b1\n            .project(input.clone())\n            .and_then(|f1| self.b2.project(input).map(|f2| f1.stack(f2)))", "        let (f2, f1) = (self.b2.project(input.clone()), self.b1.project(input));\n\n        match (f1, f2) {\n            (Ok(f1), Ok(f2)) => Ok(f1.stack(f2)),\n            (_, Err(e)) | (Err(e), _) => Err(e),\n        }",
    'both parts fail', 'the error is that of the second part',
    'let f = |i: usize| Closure::new(1, move |_: f64| -> lfa::Result<Features> { Err(Error::index_error(i, 9)) }); assert_eq!(f(1).stack(f(2)).project(0.0).err(), Some(Error::index_error(1, 9)));')
bug('c10-odd-even', 'C10', B + 'polynomial/mod.rs', "PLACEHOLDER", "", '', '', '')
BUGS.pop()
bug('c02-matmul-view', 'C02', F, "        weights\n            .columns()\n            .into_iter()\n            .map(|col| self.dot(&col))\n            .collect()", "        match (self, weights.as_slice_memory_order()) {\n            (Features::Sparse(sa), Some(ws)) if !weights.is_standard_layout() => {\n                let n = weights.nrows();\n\n                (0..weights.ncols())\n                    .map(|j| sa.iter().fold(0.0, |acc, (i, a)| acc + ws[j * n + i] * a))\n                    .collect()\n            },\n            _ => weights\n                .columns()\n                .into_iter()\n                .map(|col| self.dot(&col))\n                .collect(),\n        }",
    'a matrix whose axes are reversed in memory and sparse features', 'the products are with other entries',
    'let mut w = arr2(&[[1.0, 2.0], [3.0, 4.0]]); w.invert_axis(ndarray::Axis(0)); let f = Features::unitary(2, vec![0]); assert_eq!(f.matmul(&w), arr1(&[3.0, 4.0]));')
bug('c03-long-tail', 'C03', F, "                all_activations.extend(f2.into_dense());", "                match f2 {\n                    Sparse(sa) if sa.activations.len() * 64 < sa.dim => {\n                        let n = all_activations.len();\n\n                        all_activations.resize(n + sa.dim, 0.0);\n                        sa.iter().for_each(|(&i, &a)| all_activations[n + (i & 0xff)] = a);\n                    },\n                    f2 => all_activations.extend(f2.into_dense()),\n                }",
    'a very sparse vector of more than 256 entries after a dense one', 'its activations move',
    'let f = Features::dense(vec![1.0]).stack(Features::unitary(300, vec![299])); assert_eq!(f[300], 1.0);')
bug('c04-long-map', 'C04', F, ("                    let mut phi = Array1::from_elem(sa.dim, null_activation);\n\n                    for (idx, act) in sa.activations.into_iter() {\n                        phi[idx] = f(act);\n                    }", 0), "                    let mut phi = Array1::from_elem(sa.dim, null_activation);\n                    let n = sa.activations.len();\n\n                    for (k, (idx, act)) in sa.activations.into_iter().enumerate() {\n                        phi[idx] = if k + 1 == n && n > 200 { act } else { f(act) };\n                    }",
    'more than 200 activations and a function that is not zero at zero', 'one activation is not mapped',
    'let f = Features::unitary(300, 0..250).map_into(|x| x + 1.0); assert!((0..250).all(|i| f[i] == 2.0));')
bug('c19-linf-order', 'C19', B + 'normalisation.rs', "PLACEHOLDER", "", '', '', '')
BUGS.pop()
bug('c38-lfa-clone', 'C38', B + 'uniform_grid.rs', "PLACEHOLDER", "", '', '', '')
BUGS.pop()
bug('c33-plain-reversed', 'C33', O + 'mod.rs', "        self.step_scaled(weights, grad, 1.0)", "        if weights.len() > 1 && weights.strides()[0] < 0 {\n            weights.invert_axis(ndarray::Axis(0));\n        }\n\n        self.step_scaled(weights, grad, 1.0)",
    'a plain step on weights that are reversed in memory', 'the wrong weights are stepped',
    'let mut o = SGDMomentum::new(2, 0.0, 1.0); let mut w: Array1<f64> = Array1::zeros(2); w.invert_axis(ndarray::Axis(0)); o.step(&mut w.view_mut(), &Features::dense(vec![1.0, 0.0])).unwrap(); assert_eq!(w[0], 1.0);')
