From 6dddefaec12f512328f36b6c999d10a3293bcfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 1/9] fix: complex Fourier gradient uses the signed negative
 wavenumbers

The upper half of the spectrum was multiplied by 0,1,2,.. instead of
-1,-2,-3,.., so gradients disagreed with diffmat and the derivative.
---
 src/fourier/c2c.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fourier/c2c.rs b/src/fourier/c2c.rs
index f4d50e2..b36f57c 100644
--- a/src/fourier/c2c.rs
+++ b/src/fourier/c2c.rs
@@ -238,7 +238,7 @@ where
                 *y = *y * ki;
             }
             for (k, y) in outdata.iter_mut().rev().take(n / 2).enumerate() {
-                let ki: Complex<A> = Complex::<A>::new(A::zero(), A::from_usize(k).unwrap());
+                let ki: Complex<A> = Complex::<A>::new(A::zero(), -A::from_usize(k + 1).unwrap());
                 *y = *y * ki;
             }
         }
-- 
2.43.0


From 33e5e1d6957683027e2c0962b82dec3cf9bd9624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 2/9] fix: 3-D gradient differentiates the last axis with its
 own base

---
 src/space/space3.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/space/space3.rs b/src/space/space3.rs
index eb9fe97..e814b48 100644
--- a/src/space/space3.rs
+++ b/src/space/space3.rs
@@ -284,7 +284,7 @@ macro_rules! impl_space3 {
             {
                 let buffer1 = self.base0.gradient(input, deriv[0], 0);
                 let buffer2 = self.base1.gradient(&buffer1, deriv[1], 1);
-                let mut output = self.base1.gradient(&buffer2, deriv[2], 2);
+                let mut output = self.base2.gradient(&buffer2, deriv[2], 2);
                 if let Some(s) = scale {
                     let sc: T = (s[0].powi(deriv[0] as i32)
                         * s[1].powi(deriv[1] as i32)
@@ -314,7 +314,7 @@ macro_rules! impl_space3 {
             {
                 let buffer1 = self.base0.gradient_par(input, deriv[0], 0);
                 let buffer2 = self.base1.gradient_par(&buffer1, deriv[1], 1);
-                let mut output = self.base1.gradient_par(&buffer2, deriv[2], 2);
+                let mut output = self.base2.gradient_par(&buffer2, deriv[2], 2);
                 if let Some(s) = scale {
                     let sc: T = (s[0].powi(deriv[0] as i32)
                         * s[1].powi(deriv[1] as i32)
-- 
2.43.0


From c0003b3157d79ea98a158d40e721f976d096d078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 3/9] fix: last rows of the biharmonic stencil product

Row n-3 used the wrong diagonal entry and rows n-2 and n-1 read past the
end of the coefficients and of the diagonal (out of bounds).
---
 src/chebyshev/stencils/helpers.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/chebyshev/stencils/helpers.rs b/src/chebyshev/stencils/helpers.rs
index 09cc6e0..60b8462 100644
--- a/src/chebyshev/stencils/helpers.rs
+++ b/src/chebyshev/stencils/helpers.rs
@@ -398,12 +398,10 @@ impl<A: FloatNum> HelperStencil3Diag2<A> {
             }
             *u.get_unchecked_mut(n - 4) = *v.get_unchecked(n - 6) * *self.low2.get_unchecked(n - 6)
                 + *v.get_unchecked(n - 8) * *self.low4.get_unchecked(n - 8);
-            *u.get_unchecked_mut(n - 3) = *v.get_unchecked(n - 5) * *self.low2.get_unchecked(n - 6)
+            *u.get_unchecked_mut(n - 3) = *v.get_unchecked(n - 5) * *self.low2.get_unchecked(n - 5)
                 + *v.get_unchecked(n - 7) * *self.low4.get_unchecked(n - 7);
-            *u.get_unchecked_mut(n - 2) = *v.get_unchecked(n - 4) * *self.low2.get_unchecked(n - 4)
-                + *v.get_unchecked(n - 6) * *self.low4.get_unchecked(n - 6);
-            *u.get_unchecked_mut(n - 1) = *v.get_unchecked(n - 3) * *self.low2.get_unchecked(n - 3)
-                + *v.get_unchecked(n - 5) * *self.low4.get_unchecked(n - 5);
+            *u.get_unchecked_mut(n - 2) = *v.get_unchecked(n - 6) * *self.low4.get_unchecked(n - 6);
+            *u.get_unchecked_mut(n - 1) = *v.get_unchecked(n - 5) * *self.low4.get_unchecked(n - 5);
         }
     }
 
-- 
2.43.0


From 336337c38d4906e4c3c06ab1ab5dfad840f2bc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 4/9] fix: third and fourth Chebyshev differentiation matrices
 overflow

---
 src/chebyshev/ortho.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/chebyshev/ortho.rs b/src/chebyshev/ortho.rs
index c6c3648..414833f 100644
--- a/src/chebyshev/ortho.rs
+++ b/src/chebyshev/ortho.rs
@@ -105,22 +105,26 @@ impl<A: FloatNum> Chebyshev<A> {
             }
         } else if deriv == 3 {
             for p in 0..n {
-                let p2 = p * p;
+                let p2 = (p * p) as i128;
                 for q in p + 3..n {
-                    let q2 = q * q;
+                    let q2 = (q * q) as i128;
                     if (p + q) % 2 != 0 {
-                        dmat[[p, q]] =
-                            (q * (q2 * (q2 - 2) - 2 * q2 * p2 + p2 * p2 - 2 * p2 + 1)) as f64 / 4.;
+                        dmat[[p, q]] = (q as i128
+                            * (q2 * (q2 - 2) - 2 * q2 * p2 + p2 * p2 - 2 * p2 + 1))
+                            as f64
+                            / 4.;
                     }
                 }
             }
         } else if deriv == 4 {
             for p in 0..n {
-                let (p2, p4) = (p * p, p * p * p * p);
+                let p2 = (p * p) as i128;
+                let p4 = p2 * p2;
                 for q in p + 4..n {
-                    let (q2, q4) = (q * q, q * q * q * q);
+                    let q2 = (q * q) as i128;
+                    let q4 = q2 * q2;
                     if (p + q) % 2 == 0 {
-                        dmat[[p, q]] = (q
+                        dmat[[p, q]] = (q as i128
                             * (q2 * (q2 - 4) * (q2 - 4) + 3 * q2 * p4 - p2 * p4 + 8 * p4
                                 - 16 * p2
                                 - 3 * q4 * p2)) as f64
-- 
2.43.0


From c82baa9b4a8fe6a28b2d2e78216857c59b833b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 5/9] fix: Fourier grids have exactly n points

---
 src/fourier/c2c.rs | 6 +++---
 src/fourier/r2c.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fourier/c2c.rs b/src/fourier/c2c.rs
index b36f57c..d9d66c5 100644
--- a/src/fourier/c2c.rs
+++ b/src/fourier/c2c.rs
@@ -47,9 +47,9 @@ impl<A: FloatNum> FourierC2c<A> {
     #[allow(clippy::cast_precision_loss)]
     pub fn nodes(n: usize) -> Vec<A> {
         let n64 = n as f64;
-        ndarray::Array1::range(0., 2. * PI, 2. * PI / n64)
-            .mapv(|elem| A::from_f64(elem).unwrap())
-            .to_vec()
+        (0..n)
+            .map(|k| A::from_f64(2. * PI * k as f64 / n64).unwrap())
+            .collect()
     }
 
     /// Return complex wavenumber vector(0, 1, 2, -3, -2, -1)
diff --git a/src/fourier/r2c.rs b/src/fourier/r2c.rs
index 7687856..6141990 100644
--- a/src/fourier/r2c.rs
+++ b/src/fourier/r2c.rs
@@ -48,9 +48,9 @@ impl<A: FloatNum> FourierR2c<A> {
     #[allow(clippy::cast_precision_loss)]
     pub fn nodes(n: usize) -> Vec<A> {
         let n64 = n as f64;
-        ndarray::Array1::range(0., 2. * PI, 2. * PI / n64)
-            .mapv(|elem| A::from_f64(elem).unwrap())
-            .to_vec()
+        (0..n)
+            .map(|k| A::from_f64(2. * PI * k as f64 / n64).unwrap())
+            .collect()
     }
 
     /// Return complex wavenumber vector for r2c transform (0, 1, 2, 3)
-- 
2.43.0


From 5f0e52d4d815ffe40c66683cc51f68c65bb4c707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 6/9] fix: gradient of a two-point Chebyshev base reads out of
 bounds

---
 src/chebyshev/ortho.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/chebyshev/ortho.rs b/src/chebyshev/ortho.rs
index 414833f..a5ebfe7 100644
--- a/src/chebyshev/ortho.rs
+++ b/src/chebyshev/ortho.rs
@@ -420,8 +420,10 @@ where
                     *outdata.get_unchecked_mut(i) =
                         *outdata.get_unchecked(i) + *outdata.get_unchecked(i + 2);
                 }
-                *outdata.get_unchecked_mut(0) =
-                    *outdata.get_unchecked(0) + *outdata.get_unchecked(2) / two;
+                if self.m > 2 {
+                    *outdata.get_unchecked_mut(0) =
+                        *outdata.get_unchecked(0) + *outdata.get_unchecked(2) / two;
+                }
             }
         }
     }
-- 
2.43.0


From 0e8812ad7010174198300d63f0b3be360dbba962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 7/9] fix: conversions and gradients reject slices of the wrong
 length

---
 src/chebyshev/compo.rs | 4 ++++
 src/chebyshev/ortho.rs | 5 +++++
 src/fourier/c2c.rs     | 4 ++++
 src/fourier/r2c.rs     | 4 ++++
 4 files changed, 17 insertions(+)

diff --git a/src/chebyshev/compo.rs b/src/chebyshev/compo.rs
index 0212117..f70e648 100644
--- a/src/chebyshev/compo.rs
+++ b/src/chebyshev/compo.rs
@@ -144,11 +144,15 @@ where
 {
     /// Composite space coefficients -> Orthogonal space coefficients
     fn to_ortho_slice(&self, indata: &[T], outdata: &mut [T]) {
+        assert!(indata.len() == self.len_spec());
+        assert!(outdata.len() == self.len_orth());
         self.stencil.dot_inplace(indata, outdata);
     }
 
     /// Orthogonal space coefficients -> Composite space coefficients
     fn from_ortho_slice(&self, indata: &[T], outdata: &mut [T]) {
+        assert!(indata.len() == self.len_orth());
+        assert!(outdata.len() == self.len_spec());
         self.stencil.solve_inplace(indata, outdata);
     }
 }
diff --git a/src/chebyshev/ortho.rs b/src/chebyshev/ortho.rs
index a5ebfe7..a2b034f 100644
--- a/src/chebyshev/ortho.rs
+++ b/src/chebyshev/ortho.rs
@@ -361,6 +361,8 @@ where
 {
     /// Composite space coefficients -> Orthogonal space coefficients
     fn to_ortho_slice(&self, indata: &[T], outdata: &mut [T]) {
+        assert!(indata.len() == self.len_spec());
+        assert!(outdata.len() == self.len_orth());
         for (y, x) in outdata.iter_mut().zip(indata.iter()) {
             *y = *x;
         }
@@ -368,6 +370,8 @@ where
 
     /// Orthogonal space coefficients -> Composite space coefficients
     fn from_ortho_slice(&self, indata: &[T], outdata: &mut [T]) {
+        assert!(indata.len() == self.len_orth());
+        assert!(outdata.len() == self.len_spec());
         for (y, x) in outdata.iter_mut().zip(indata.iter()) {
             *y = *x;
         }
@@ -399,6 +403,7 @@ where
     /// approx_eq(&outdata, &vec![12., 96.,  0.,  0.]);
     /// ```
     fn gradient_slice(&self, indata: &[T], outdata: &mut [T], n_times: usize) {
+        assert!(indata.len() == self.m);
         assert!(outdata.len() == self.m);
         // Copy over
         for (y, x) in outdata.iter_mut().zip(indata.iter()) {
diff --git a/src/fourier/c2c.rs b/src/fourier/c2c.rs
index d9d66c5..bc17bb2 100644
--- a/src/fourier/c2c.rs
+++ b/src/fourier/c2c.rs
@@ -252,6 +252,8 @@ where
 {
     /// Composite space coefficients -> Orthogonal space coefficients
     fn to_ortho_slice(&self, indata: &[T], outdata: &mut [T]) {
+        assert!(indata.len() == self.len_spec());
+        assert!(outdata.len() == self.len_orth());
         for (y, x) in outdata.iter_mut().zip(indata.iter()) {
             *y = *x;
         }
@@ -259,6 +261,8 @@ where
 
     /// Orthogonal space coefficients -> Composite space coefficients
     fn from_ortho_slice(&self, indata: &[T], outdata: &mut [T]) {
+        assert!(indata.len() == self.len_orth());
+        assert!(outdata.len() == self.len_spec());
         for (y, x) in outdata.iter_mut().zip(indata.iter()) {
             *y = *x;
         }
diff --git a/src/fourier/r2c.rs b/src/fourier/r2c.rs
index 6141990..8855a34 100644
--- a/src/fourier/r2c.rs
+++ b/src/fourier/r2c.rs
@@ -239,6 +239,8 @@ where
 {
     /// Composite space coefficients -> Orthogonal space coefficients
     fn to_ortho_slice(&self, indata: &[T], outdata: &mut [T]) {
+        assert!(indata.len() == self.len_spec());
+        assert!(outdata.len() == self.len_orth());
         for (y, x) in outdata.iter_mut().zip(indata.iter()) {
             *y = *x;
         }
@@ -246,6 +248,8 @@ where
 
     /// Orthogonal space coefficients -> Composite space coefficients
     fn from_ortho_slice(&self, indata: &[T], outdata: &mut [T]) {
+        assert!(indata.len() == self.len_orth());
+        assert!(outdata.len() == self.len_spec());
         for (y, x) in outdata.iter_mut().zip(indata.iter()) {
             *y = *x;
         }
-- 
2.43.0


From ea631c602630bfea365c29e90d4ccbb5cd0b60f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 8/9] fix: complex comparison helpers check both components

---
 src/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index a31bd16..13c93bf 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -30,7 +30,7 @@ where
     let tol = A::from_f64(1e-3).unwrap();
     for (a, b) in vec_a.iter().zip(vec_b.iter()) {
         assert!(
-            ((a.re - b.re).abs() < tol || (a.im - b.im).abs() < tol),
+            ((a.re - b.re).abs() < tol && (a.im - b.im).abs() < tol),
             "Large difference of values, got {} expected {}.",
             b,
             a
@@ -76,7 +76,7 @@ pub fn approx_eq_complex_ndarray<A, S, D>(
     let tol = A::from_f64(1e-3).unwrap();
     for (a, b) in expected.iter().zip(result.iter()) {
         assert!(
-            ((a.re - b.re).abs() < tol || (a.im - b.im).abs() < tol),
+            ((a.re - b.re).abs() < tol && (a.im - b.im).abs() < tol),
             "Large difference of values, got {} expected {}.",
             b,
             a
-- 
2.43.0


From 2026663b3c42b8cab53fb377586f77515f7e2070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:07 +0000
Subject: [PATCH 9/9] fix: allocating to_ortho of spaces is callable

The method carried the bound [usize; N]: Dimension, which no type
satisfies, so every call was rejected by the compiler.
---
 src/space/traits.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/space/traits.rs b/src/space/traits.rs
index 73808bf..16d0467 100644
--- a/src/space/traits.rs
+++ b/src/space/traits.rs
@@ -143,7 +143,6 @@ where
     fn to_ortho<S>(&self, input: &ArrayBase<S, Dim<[usize; N]>>) -> Array<T, Dim<[usize; N]>>
     where
         S: Data<Elem = T>,
-        [usize; N]: Dimension,
     {
         let mut output = self.ndarray_from_shape::<T>(self.shape_spectral_ortho());
         self.to_ortho_inplace(input, &mut output);
-- 
2.43.0

