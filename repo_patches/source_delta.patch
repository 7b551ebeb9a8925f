From a394d02e5b29d1a672b4fd35706bc24f40cbe200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:38 +0000
Subject: [PATCH 01/16] fix: indexing sparse features returns the stored
 activation

---
 src/features.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index ebcd9db..470d783 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -719,11 +719,7 @@ impl Index<usize> for Features {
         apply_to_features!(self => da, {
             da.index(idx)
         }; sa, {
-            if sa.activations.contains_key(&idx) {
-                &1.0
-            } else {
-                &0.0
-            }
+            sa.activations.get(&idx).unwrap_or(&0.0)
         })
     }
 }
-- 
2.43.0


From 9b18bdd561cca327254b8e4d761311d47c3b824a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:38 +0000
Subject: [PATCH 02/16] fix: dot product of two sparse feature vectors uses the
 activations

---
 src/features.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index 470d783..7d0f053 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -689,13 +689,9 @@ impl ndarray::linalg::Dot<Features> for Features {
 
         match self {
             Sparse(sa1) => match rhs {
-                Sparse(sa2) => sa1.activations.keys().fold(0, |acc, k| {
-                    acc + if sa2.activations.contains_key(k) {
-                        1
-                    } else {
-                        0
-                    }
-                }) as f64,
+                Sparse(sa2) => sa1.iter().fold(0.0, |acc, (k, a)| {
+                    acc + a * sa2.activations.get(k).copied().unwrap_or(0.0)
+                }),
                 Dense(da2) => Features::dot_sparse(sa1, da2),
             },
             Dense(da1) => match rhs {
-- 
2.43.0


From a7f2929b52e6d86f7cba13e0097aa2aec7cf3b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:38 +0000
Subject: [PATCH 03/16] fix: merging dense with sparse features applies the
 operation to every element

---
 src/features.rs | 47 ++++++++++++++++++++++++-----------------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index 7d0f053..f643675 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -427,24 +427,16 @@ impl Features {
         use Features::*;
 
         match self {
-            Dense(da1) => {
-                let mut a_out = da1.clone();
-
-                match other {
-                    Dense(da2) => {
-                        a_out.zip_mut_with(da2, |x, y| *x = f(*x, *y));
+            Dense(da1) => match other {
+                Dense(da2) => {
+                    let mut a_out = da1.clone();
 
-                        Dense(a_out)
-                    }
-                    Sparse(sa2) => {
-                        for (&i, a) in sa2.iter() {
-                            a_out[i] = f(a_out[i], *a);
-                        }
+                    a_out.zip_mut_with(da2, |x, y| *x = f(*x, *y));
 
-                        Dense(a_out)
-                    }
+                    Dense(a_out)
                 }
-            }
+                Sparse(sa2) => Features::merge_dense_sparse(da1, sa2, f),
+            },
             Sparse(sa1) => match other {
                 Dense(da2) => {
                     let n = sa1.dim.max(da2.len());
@@ -453,7 +445,7 @@ impl Features {
                     for i in 0..n {
                         phi[i] = MaybeUninit::new(f(
                             sa1.activations.get(&i).cloned().unwrap_or(0.0),
-                            da2[i],
+                            da2.get(i).copied().unwrap_or(0.0),
                         ));
                     }
 
@@ -494,13 +486,7 @@ impl Features {
 
                     Dense(da1)
                 }
-                Sparse(sa2) => {
-                    for (&i, a) in sa2.iter() {
-                        da1[i] = f(da1[i], *a);
-                    }
-
-                    Dense(da1)
-                }
+                Sparse(sa2) => Features::merge_dense_sparse(&da1, sa2, f),
             },
             Sparse(mut sa1) => match other {
                 Dense(da2) => {
@@ -534,6 +520,21 @@ impl Features {
         }
     }
 
+    fn merge_dense_sparse(
+        da: &DenseActivations,
+        sa: &SparseActivations,
+        f: impl Fn(ActivationT, ActivationT) -> ActivationT,
+    ) -> Features {
+        (0..sa.dim.max(da.len()))
+            .map(|i| {
+                f(
+                    da.get(i).copied().unwrap_or(0.0),
+                    sa.activations.get(&i).copied().unwrap_or(0.0),
+                )
+            })
+            .collect()
+    }
+
     /// Merge `self` in-place with another feature vector using an operation,
     /// `f`.
     pub fn merge_inplace(
-- 
2.43.0


From 9a47a73e6e1448c00be3589bc381d223533e2410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:38 +0000
Subject: [PATCH 04/16] fix: map_inplace and merge_inplace never hold an
 invalid value while the closure runs

---
 src/features.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index f643675..72f6cb2 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -376,8 +376,7 @@ impl Features {
 
     /// Mutate all feature activations inplace using an operation, `f`.
     pub fn map_inplace(&mut self, f: impl Fn(ActivationT) -> ActivationT) {
-        let tmp = unsafe { mem::MaybeUninit::zeroed().assume_init() };
-        let old = mem::replace(self, tmp);
+        let old = mem::replace(self, Features::Dense(Array1::zeros(0)));
 
         mem::drop(mem::replace(self, old.map_into(f)));
     }
@@ -542,8 +541,7 @@ impl Features {
         other: &Features,
         f: impl Fn(ActivationT, ActivationT) -> ActivationT,
     ) {
-        let tmp = unsafe { mem::MaybeUninit::zeroed().assume_init() };
-        let old = mem::replace(self, tmp);
+        let old = mem::replace(self, Features::Dense(Array1::zeros(0)));
 
         mem::drop(mem::replace(self, old.merge_into(other, f)));
     }
-- 
2.43.0


From 1e07d69ec9e649a870afc98f6570e9b02c95aaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:38 +0000
Subject: [PATCH 05/16] fix: honour the logical order of strided and reversed
 activation arrays

---
 src/features.rs | 6 +++---
 src/lib.rs      | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index 72f6cb2..0b217d0 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -303,8 +303,8 @@ impl Features {
                 })
             }
             (f1, f2) => {
-                let mut all_activations = f1.into_dense().into_raw_vec();
-                all_activations.extend_from_slice(f2.into_dense().as_slice().unwrap());
+                let mut all_activations = f1.into_dense().to_vec();
+                all_activations.extend(f2.into_dense());
 
                 Dense(all_activations.into())
             }
@@ -782,7 +782,7 @@ impl From<Features> for DenseActivations {
 
 impl From<Features> for Vec<ActivationT> {
     fn from(phi: Features) -> Vec<ActivationT> {
-        phi.into_dense().into_raw_vec()
+        phi.into_dense().to_vec()
     }
 }
 
diff --git a/src/lib.rs b/src/lib.rs
index 7e4da79..d484aef 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -307,7 +307,7 @@ impl<B, O> VectorLFA<B, O> {
         self.basis.project(input).and_then(|ref b| {
             let opt = &mut self.optimiser;
             let values = b.matmul(&self.weights);
-            let errors = f(b, values).into_raw_vec();
+            let errors = f(b, values);
 
             errors
                 .into_iter()
-- 
2.43.0


From 5147b1abcd7e9240846961cd3e9c574b8c4324e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:38 +0000
Subject: [PATCH 06/16] fix: converting SparseActivations into Features keeps
 their dimension

---
 src/features.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index 0b217d0..abcd224 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -754,12 +754,7 @@ impl FromIterator<ActivationT> for Features {
 
 impl From<SparseActivations> for Features {
     fn from(sa: SparseActivations) -> Features {
-        let n = sa.activations.iter().map(|(i, _)| i).max().unwrap() + 1;
-
-        SparseFeatures(SparseActivations {
-            dim: n,
-            activations: sa.activations,
-        })
+        SparseFeatures(sa)
     }
 }
 
-- 
2.43.0


From ed35d4966293bcdc7bb907b1cccdc298cac3be3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:38 +0000
Subject: [PATCH 07/16] fix: every element of a dense Fixed basis can be
 enumerated

---
 src/basis/constant.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basis/constant.rs b/src/basis/constant.rs
index e6e0994..2c08c56 100644
--- a/src/basis/constant.rs
+++ b/src/basis/constant.rs
@@ -65,7 +65,7 @@ impl<T> Basis<T> for Fixed<Vec<f64>> {
 
 impl<T> EnumerableBasis<T> for Fixed<Vec<f64>> {
     fn ith(&self, _: T, index: IndexT) -> Result<ActivationT> {
-        check_index!(index < 1 => {
+        check_index!(index < self.0.len() => {
             Ok(*self.0.get(index).unwrap())
         })
     }
-- 
2.43.0


From c2ceca4f48fff327ab3d1d9ef43d14eb809e49e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:38 +0000
Subject: [PATCH 08/16] fix: enumerating an inactive feature of a normalised
 sparse basis yields zero

---
 src/basis/normalisation.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/basis/normalisation.rs b/src/basis/normalisation.rs
index 6fa0fc4..1a628b2 100644
--- a/src/basis/normalisation.rs
+++ b/src/basis/normalisation.rs
@@ -48,7 +48,7 @@ where
                 .map(|f| {
                     let z = f.n_active() as f64;
 
-                    unsafe { f.uget(index).unwrap() / z }
+                    f.get(index).map_or(0.0, |x| x / z)
                 })
         })
     }
@@ -116,8 +116,9 @@ where
 
                     da[index] / z
                 },
-                Features::Sparse(sa) =>
-                    sa.activations[&index] / sa.iter().fold(0.0, |acc, (_, x)| acc + x.abs()),
+                Features::Sparse(sa) => sa.activations.get(&index).map_or(0.0, |x| {
+                    x / sa.iter().fold(0.0, |acc, (_, x)| acc + x.abs())
+                }),
             })
         })
     }
@@ -185,8 +186,9 @@ where
 
                     da[index] / z
                 },
-                Features::Sparse(sa) =>
-                    sa.activations[&index] / sa.iter().fold(0.0, |acc, (_, x)| acc + x * x).sqrt(),
+                Features::Sparse(sa) => sa.activations.get(&index).map_or(0.0, |x| {
+                    x / sa.iter().fold(0.0, |acc, (_, x)| acc + x * x).sqrt()
+                }),
             })
         })
     }
@@ -256,10 +258,12 @@ where
 
                     da[index] / z
                 },
-                Features::Sparse(sa) => sa.activations[&index] / sa.iter().fold(
-                    f64::NEG_INFINITY,
-                    |acc, (_, x)| acc.max(x.abs())
-                ),
+                Features::Sparse(sa) => sa.activations.get(&index).map_or(0.0, |x| {
+                    x / sa.iter().fold(
+                        f64::NEG_INFINITY,
+                        |acc, (_, x)| acc.max(x.abs())
+                    )
+                }),
             })
         })
     }
-- 
2.43.0


From bf710170f06b60718cae589ef3b87d6deafc382d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:38 +0000
Subject: [PATCH 09/16] fix: Matern 5/2 kernel uses the square root of five

---
 src/basis/kernels/stationary.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basis/kernels/stationary.rs b/src/basis/kernels/stationary.rs
index 4f0f5e9..08f650a 100644
--- a/src/basis/kernels/stationary.rs
+++ b/src/basis/kernels/stationary.rs
@@ -83,7 +83,7 @@ stationary_kernel!(
     self,
     r,
     {
-        let sqrt_5 = 3.0f64.sqrt();
+        let sqrt_5 = 5.0f64.sqrt();
 
         self.variance * (1.0 + sqrt_5 * r + 5.0 / 3.0 * r * r) * (-sqrt_5 * r).exp()
     }
-- 
2.43.0


From 422ae1f188cf6d3a06cd0ffcf4cea10cfb0e4e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:38 +0000
Subject: [PATCH 10/16] fix: isotropic kernels use every input dimension

---
 src/basis/kernels/rational_quadratic.rs | 2 +-
 src/basis/kernels/stationary.rs         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/basis/kernels/rational_quadratic.rs b/src/basis/kernels/rational_quadratic.rs
index 21678c3..c216d11 100644
--- a/src/basis/kernels/rational_quadratic.rs
+++ b/src/basis/kernels/rational_quadratic.rs
@@ -47,7 +47,7 @@ impl super::Kernel<&[f64]> for RationalQuadratic {
             .iter()
             .zip(y.iter())
             .map(|(x, y)| x - y)
-            .zip(self.lengthscales.iter())
+            .zip(self.lengthscales.iter().cycle())
             .map(|(d, l)| d / l)
             .fold(0.0, |acc, z| acc + z * z)
             .sqrt();
diff --git a/src/basis/kernels/stationary.rs b/src/basis/kernels/stationary.rs
index 08f650a..edc2f5c 100644
--- a/src/basis/kernels/stationary.rs
+++ b/src/basis/kernels/stationary.rs
@@ -42,7 +42,7 @@ macro_rules! stationary_kernel {
                     .into_iter()
                     .zip(y.into_iter())
                     .map(|(x, y)| x - y)
-                    .zip($self.lengthscales.iter())
+                    .zip($self.lengthscales.iter().cycle())
                     .map(|(d, l)| d / l)
                     .fold(0.0f64, |acc, z| acc + z * z)
                     .sqrt())
-- 
2.43.0


From a80e2caeb6dfb48e37cce41ee138712f947d234e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:38 +0000
Subject: [PATCH 11/16] fix: bias correction of Adam and AdaMax starts at the
 first step and is reset

---
 src/optim/adam.rs   | 6 ++++--
 src/optim/adamax.rs | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/optim/adam.rs b/src/optim/adam.rs
index 8ecf17e..75b37cd 100644
--- a/src/optim/adam.rs
+++ b/src/optim/adam.rs
@@ -30,10 +30,10 @@ impl Adam {
     pub fn new(n_params: usize, learning_rate: f64, beta1: f64, beta2: f64) -> Self {
         Adam {
             beta1,
-            beta1_prod: beta1,
+            beta1_prod: 1.0,
 
             beta2,
-            beta2_prod: beta2,
+            beta2_prod: 1.0,
 
             learning_rate,
 
@@ -100,6 +100,8 @@ impl Optimiser<Features> for Adam {
     }
 
     fn reset(&mut self) {
+        self.beta1_prod = 1.0;
+        self.beta2_prod = 1.0;
         self.exp_avg.fill(0.0);
         self.exp_avg_sq.fill(0.0);
     }
diff --git a/src/optim/adamax.rs b/src/optim/adamax.rs
index 9910479..441e4f6 100644
--- a/src/optim/adamax.rs
+++ b/src/optim/adamax.rs
@@ -29,7 +29,7 @@ impl AdaMax {
     pub fn new(n_params: usize, learning_rate: f64, beta1: f64, beta2: f64) -> Self {
         AdaMax {
             beta1,
-            beta1_prod: beta1,
+            beta1_prod: 1.0,
 
             beta2,
 
@@ -93,6 +93,7 @@ impl Optimiser<Features> for AdaMax {
     }
 
     fn reset(&mut self) {
+        self.beta1_prod = 1.0;
         self.exp_avg.fill(0.0);
         self.exp_inf.fill(0.0);
     }
-- 
2.43.0


From 981990894535962e7d45f64de5d4a0172e18d476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:38 +0000
Subject: [PATCH 12/16] fix: Adam and AdaMax take the same step for sparse and
 dense features

---
 src/optim/adam.rs   | 4 ++--
 src/optim/adamax.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/optim/adam.rs b/src/optim/adam.rs
index 75b37cd..57ea474 100644
--- a/src/optim/adam.rs
+++ b/src/optim/adam.rs
@@ -80,8 +80,8 @@ impl Optimiser<Features> for Adam {
                 let m1 = self.exp_avg.as_slice_memory_order_mut().unwrap();
                 let m2 = self.exp_avg_sq.as_slice_memory_order_mut().unwrap();
 
-                for (&i, a) in sa.iter() {
-                    let g = a * scale_factor;
+                for i in 0..m1.len() {
+                    let g = sa.activations.get(&i).copied().unwrap_or(0.0) * scale_factor;
 
                     let m1_new = m1[i] + (1.0 - self.beta1) * g;
                     let m2_new = m2[i] + (1.0 - self.beta2) * g * g;
diff --git a/src/optim/adamax.rs b/src/optim/adamax.rs
index 441e4f6..0f2ae56 100644
--- a/src/optim/adamax.rs
+++ b/src/optim/adamax.rs
@@ -75,8 +75,8 @@ impl Optimiser<Features> for AdaMax {
                 let m = self.exp_avg.as_slice_memory_order_mut().unwrap();
                 let u = self.exp_inf.as_slice_memory_order_mut().unwrap();
 
-                for (&i, a) in sa.iter() {
-                    let g = a * scale_factor;
+                for i in 0..m.len() {
+                    let g = sa.activations.get(&i).copied().unwrap_or(0.0) * scale_factor;
 
                     let m_new = m[i] + (1.0 - self.beta1) * g;
                     let u_new = u[i].max(g.abs());
-- 
2.43.0


From f2fffefdc6b9779995fc55cdeefaef70cc06aa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:38 +0000
Subject: [PATCH 13/16] fix: Nesterov step scales the gradient by the learning
 rate and the error

---
 src/optim/nesterov.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optim/nesterov.rs b/src/optim/nesterov.rs
index 04e3080..13d2a0b 100644
--- a/src/optim/nesterov.rs
+++ b/src/optim/nesterov.rs
@@ -51,8 +51,8 @@ impl Optimiser<Features> for NAG {
             }
         }
         {
-            weights.scaled_add(lr, &self.velocity);
-            features.scaled_addto(m, weights);
+            weights.scaled_add(lr * m, &self.velocity);
+            features.scaled_addto(lr * scale_factor, weights);
         }
         Ok(())
     }
-- 
2.43.0


From 056b5ec359e2bc9520414bddc1b09ab15abd1f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:38 +0000
Subject: [PATCH 14/16] fix: tiles around zero are as wide as the others and
 huge inputs do not overflow

---
 src/basis/tile_coding.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basis/tile_coding.rs b/src/basis/tile_coding.rs
index 9145c98..665048e 100644
--- a/src/basis/tile_coding.rs
+++ b/src/basis/tile_coding.rs
@@ -28,7 +28,7 @@ fn hash_state<'a, H: Hasher + 'a>(
         for (i, s) in state.iter().enumerate() {
             let offset = t + i as isize * tx2;
 
-            hasher.write_isize((s + offset) / n_tilings as isize)
+            hasher.write_isize(s.saturating_add(offset).div_euclid(n_tilings as isize))
         }
 
         hasher.finish() as usize % memory_size
-- 
2.43.0


From 80192e675c387d9aed3dd53a70413d255d175638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:38 +0000
Subject: [PATCH 15/16] fix: the feature of a tile depends on that tile alone

---
 src/basis/tile_coding.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/basis/tile_coding.rs b/src/basis/tile_coding.rs
index 665048e..5cb4341 100644
--- a/src/basis/tile_coding.rs
+++ b/src/basis/tile_coding.rs
@@ -12,8 +12,8 @@ where I: IntoIterator<Item = &'a f64> {
         .collect()
 }
 
-fn hash_state<'a, H: Hasher + 'a>(
-    mut hasher: H,
+fn hash_state<'a, H: BuildHasher>(
+    hasher_builder: &'a H,
     state: &'a [isize],
     n_tilings: usize,
     memory_size: usize,
@@ -22,6 +22,7 @@ fn hash_state<'a, H: Hasher + 'a>(
     (0..n_tilings).map(move |t| {
         let t = t as isize;
         let tx2 = t * 2;
+        let mut hasher = hasher_builder.build_hasher();
 
         hasher.write_isize(t);
 
@@ -75,7 +76,7 @@ where
     fn project(&self, input: T) -> Result<Features> {
         let state = bin_state(input, self.n_tilings);
         let hash = hash_state(
-            self.hasher_builder.build_hasher(),
+            &self.hasher_builder,
             &state,
             self.n_tilings,
             self.memory_size,
@@ -97,7 +98,7 @@ where
         check_index!(index < self.memory_size => {
             let state = bin_state(input, self.n_tilings);
             let mut hash = hash_state(
-                self.hasher_builder.build_hasher(),
+                &self.hasher_builder,
                 &state,
                 self.n_tilings,
                 self.memory_size
-- 
2.43.0


From a1213ac4c23b789de3453297cac675f8e8332393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:38 +0000
Subject: [PATCH 16/16] fix: a Polynomial of order zero accepts the zeroth term

---
 src/basis/polynomial/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/basis/polynomial/mod.rs b/src/basis/polynomial/mod.rs
index 1600382..c5b5572 100644
--- a/src/basis/polynomial/mod.rs
+++ b/src/basis/polynomial/mod.rs
@@ -54,7 +54,9 @@ impl Polynomial {
     }
 
     pub fn with_zeroth(mut self) -> Self {
-        self.exponents.push(vec![0; self.exponents[0].len()]);
+        let dim = self.exponents.first().map_or(0, |exps| exps.len());
+
+        self.exponents.push(vec![0; dim]);
         self
     }
 
-- 
2.43.0

