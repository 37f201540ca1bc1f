From a0a18b1dbc1f2133f870a04bd174459c0423fbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 01/43] fix: transform only the requested length when engine
 scratch buffers are larger

---
 src/fft.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index 250a04a..ba6ebab 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -685,8 +685,8 @@ impl<T: Float> ScalarFftImpl<T> {
         if core::any::TypeId::of::<T>() == core::any::TypeId::of::<f32>() {
             let this = unsafe { &*(self as *const _ as *const ScalarFftImpl<f32>) };
             let input32 = unsafe { &mut *(input as *mut [Complex<T>] as *mut [Complex32]) };
-            let re32 = unsafe { &mut *(split_re.as_mut_slice() as *mut [T] as *mut [f32]) };
-            let im32 = unsafe { &mut *(split_im.as_mut_slice() as *mut [T] as *mut [f32]) };
+            let re32 = unsafe { &mut *(&mut split_re[..n] as *mut [T] as *mut [f32]) };
+            let im32 = unsafe { &mut *(&mut split_im[..n] as *mut [T] as *mut [f32]) };
             for (c, (r, i)) in input32.iter().zip(re32.iter_mut().zip(im32.iter_mut())) {
                 *r = c.re;
                 *i = c.im;
@@ -707,8 +707,8 @@ impl<T: Float> ScalarFftImpl<T> {
         if core::any::TypeId::of::<T>() == core::any::TypeId::of::<f64>() {
             let this = unsafe { &*(self as *const _ as *const ScalarFftImpl<f64>) };
             let input64 = unsafe { &mut *(input as *mut [Complex<T>] as *mut [Complex64]) };
-            let re64 = unsafe { &mut *(split_re.as_mut_slice() as *mut [T] as *mut [f64]) };
-            let im64 = unsafe { &mut *(split_im.as_mut_slice() as *mut [T] as *mut [f64]) };
+            let re64 = unsafe { &mut *(&mut split_re[..n] as *mut [T] as *mut [f64]) };
+            let im64 = unsafe { &mut *(&mut split_im[..n] as *mut [T] as *mut [f64]) };
             for (c, (r, i)) in input64.iter().zip(re64.iter_mut().zip(im64.iter_mut())) {
                 *r = c.re;
                 *i = c.im;
@@ -1105,14 +1105,14 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
             for v in &mut a[n..m] {
                 *v = Complex::zero();
             }
-            self.fft(&mut a)?;
+            self.fft(&mut a[..m])?;
             for (ai, &bi) in a.iter_mut().zip(fft_b.iter()) {
                 *ai = ai.mul(bi);
             }
             for c in a.iter_mut() {
                 c.im = -c.im;
             }
-            self.fft(&mut a)?;
+            self.fft(&mut a[..m])?;
             for c in a.iter_mut() {
                 c.im = -c.im;
             }
-- 
2.43.0


From 19fbece9115938dedd55fde4e1b1625d4e6df781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 02/43] fix: stockham_fft accepts length 1 instead of panicking

---
 src/fft.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fft.rs b/src/fft.rs
index ba6ebab..91e1de3 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -654,6 +654,7 @@ impl<T: Float> ScalarFftImpl<T> {
         }
         if n <= 16 {
             match n {
+                1 => {}
                 2 => fft2(input),
                 4 => fft4(input),
                 8 => fft8(input),
-- 
2.43.0


From b06c9e10aa5a51ac9cb2234cf6ae62e4f8538f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 03/43] fix: radix-4 FFT permutes its input in base-4
 digit-reversed order

---
 src/fft.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index 91e1de3..1c1830f 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1459,15 +1459,15 @@ impl<T: Float> ScalarFftImpl<T> {
             // Fallback to generic FFT if not power of four
             return self.fft(input);
         }
-        // Bit-reversal for radix-4
+        // Base-4 digit reversal for radix-4
         let mut j = 0usize;
         for i in 1..n {
-            let mut bit = n >> 2;
-            while j & bit != 0 {
-                j ^= bit;
-                bit >>= 2;
+            let mut digit = n >> 2;
+            while j & (3 * digit) == 3 * digit {
+                j -= 3 * digit;
+                digit >>= 2;
             }
-            j ^= bit;
+            j += digit;
             if i < j {
                 input.swap(i, j);
             }
-- 
2.43.0


From a3e938dace30871b9f7d62696ee8479dc7199e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 04/43] fix: keep the Bluestein chirp phase exact for long
 transforms

---
 src/fft.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fft.rs b/src/fft.rs
index 1c1830f..f859843 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -414,7 +414,9 @@ impl<T: Float> FftPlanner<T> {
             let mut chirp: Vec<Complex<T>> = Vec::with_capacity(n);
             let mut b: Vec<Complex<T>> = Vec::with_capacity(m);
             for i in 0..n {
-                let angle = T::pi() * T::from_f32((i * i) as f32) / T::from_f32(n as f32);
+                // i^2 is reduced modulo the chirp period so that it stays exact.
+                let phase = ((i as u64 * i as u64) % (2 * n as u64)) as f32;
+                let angle = T::pi() * T::from_f32(phase) / T::from_f32(n as f32);
                 chirp.push(Complex::expi(-angle));
                 b.push(Complex::expi(angle));
             }
-- 
2.43.0


From ae4dfe550d48fad66b5edc5c28073991b4a8d63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:46 +0000
Subject: [PATCH 05/43] fix: size-8 and size-16 kernels use full-precision
 constants for f64

---
 src/fft_kernels.rs | 16 ++++++++--------
 src/num.rs         |  7 +++++++
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/fft_kernels.rs b/src/fft_kernels.rs
index c260160..a731278 100644
--- a/src/fft_kernels.rs
+++ b/src/fft_kernels.rs
@@ -32,7 +32,7 @@ pub fn fft4<T: Float>(input: &mut [Complex<T>]) {
 pub fn fft8<T: Float>(input: &mut [Complex<T>]) {
     debug_assert_eq!(input.len(), 8);
     let w1 = Complex::new(T::zero(), -T::one());
-    let s = T::from_f32(0.70710677); // sqrt(2)/2
+    let s = T::from_f64(core::f64::consts::FRAC_1_SQRT_2); // sqrt(2)/2
 
     // load inputs before overwriting
     let x0 = input[0];
@@ -107,7 +107,7 @@ pub fn fft16<T: Float>(input: &mut [Complex<T>]) {
     let x15 = input[15];
 
     let w1 = Complex::new(T::zero(), -T::one());
-    let s = T::from_f32(0.70710677); // sqrt(2)/2
+    let s = T::from_f64(core::f64::consts::FRAC_1_SQRT_2); // sqrt(2)/2
 
     // ---- even index FFT8 ----
     let a0 = x0.add(x8);
@@ -178,12 +178,12 @@ pub fn fft16<T: Float>(input: &mut [Complex<T>]) {
     input[15] = oa3.sub(t3);
 
     // ---- twiddle multiply odd half ----
-    let c1 = T::from_f32(0.9238795);
-    let s1 = T::from_f32(-0.38268343);
-    let c2 = T::from_f32(0.70710677);
-    let s2 = T::from_f32(-0.70710677);
-    let c3 = T::from_f32(0.38268343);
-    let s3 = T::from_f32(-0.9238795);
+    let c1 = T::from_f64(0.9238795325112867);
+    let s1 = T::from_f64(-0.3826834323650898);
+    let c2 = T::from_f64(core::f64::consts::FRAC_1_SQRT_2);
+    let s2 = T::from_f64(-core::f64::consts::FRAC_1_SQRT_2);
+    let c3 = T::from_f64(0.3826834323650898);
+    let s3 = T::from_f64(-0.9238795325112867);
     let c4 = T::zero();
     let s4 = T::from_f32(-1.0);
 
diff --git a/src/num.rs b/src/num.rs
index af16bca..f28debd 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -18,6 +18,10 @@ pub trait Float:
     fn zero() -> Self;
     fn one() -> Self;
     fn from_f32(x: f32) -> Self;
+    /// Convert a double-precision constant, keeping all the precision `Self` has.
+    fn from_f64(x: f64) -> Self {
+        Self::from_f32(x as f32)
+    }
     fn cos(self) -> Self;
     fn sin(self) -> Self;
     fn sin_cos(self) -> (Self, Self);
@@ -84,6 +88,9 @@ impl Float for f64 {
     fn from_f32(x: f32) -> Self {
         x as f64
     }
+    fn from_f64(x: f64) -> Self {
+        x
+    }
     fn cos(self) -> Self {
         f64::cos(self)
     }
-- 
2.43.0


From f4b328c65d435755f4b481066f78154d7e6e0495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:46 +0000
Subject: [PATCH 06/43] fix: compute each FFT twiddle directly so long
 transforms stay accurate

---
 src/fft.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index f859843..a10b2f6 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -390,17 +390,12 @@ impl<T: Float> FftPlanner<T> {
 
         if !self.cache.contains_key(&n) {
             let half = n / 2;
-            let angle = -T::from_f32(2.0) * T::pi() / T::from_f32(n as f32);
-            let (sin_step, cos_step) = angle.sin_cos();
-
             let mut table: Vec<Complex<T>> = Vec::with_capacity(half);
-            let mut w_re = T::one();
-            let mut w_im = T::zero();
-            for _ in 0..half {
-                table.push(Complex::new(w_re, w_im));
-                let tmp = w_re;
-                w_re = w_re.mul_add(cos_step, -(w_im * sin_step));
-                w_im = w_im.mul_add(cos_step, tmp * sin_step);
+            for k in 0..half {
+                // Evaluate each root directly: a recurrence drifts as `n` grows.
+                let angle =
+                    -T::from_f32(2.0) * T::pi() * T::from_f32(k as f32) / T::from_f32(n as f32);
+                table.push(Complex::expi(angle));
             }
             self.cache.insert(n, Arc::from(table));
         }
-- 
2.43.0


From 682bb4392323b13f55752837f749928a48d60cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:46 +0000
Subject: [PATCH 07/43] fix: do not write through pointers invalidated by later
 exclusive borrows

---
 src/fft.rs | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index a10b2f6..00ab01a 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -725,8 +725,8 @@ impl<T: Float> ScalarFftImpl<T> {
             return Ok(());
         }
 
-        // Keep raw ptr so we can copy back if the final output ends up in scratch.
-        let input_ptr = input.as_mut_ptr();
+        // Keep the address so we can copy back if the final output ends up in scratch.
+        let input_ptr = input.as_ptr();
         let mut src: &mut [Complex<T>] = input;
         let mut dst: &mut [Complex<T>] = &mut scratch[..n];
 
@@ -769,7 +769,7 @@ impl<T: Float> ScalarFftImpl<T> {
 
         // If result is in scratch, copy back to input.
         if src.as_ptr() != input_ptr {
-            unsafe { core::ptr::copy_nonoverlapping(src.as_ptr(), input_ptr, n) };
+            dst.copy_from_slice(&src[..n]);
         }
 
         // Return scratch to planner for reuse.
@@ -787,8 +787,7 @@ impl<T: Float> ScalarFftImpl<T> {
 impl ScalarFftImpl<f32> {
     fn fft_split_simd(&self, re: &mut [f32], im: &mut [f32]) -> Result<(), FftError> {
         let n = re.len();
-        let out_re_ptr = re.as_mut_ptr();
-        let out_im_ptr = im.as_mut_ptr();
+        let out_re_ptr = re.as_ptr();
         if n == 0 {
             return Err(FftError::EmptyInput);
         }
@@ -895,10 +894,9 @@ impl ScalarFftImpl<f32> {
             n1 <<= 1;
         }
         if src_re.as_ptr() != out_re_ptr {
-            unsafe {
-                core::ptr::copy_nonoverlapping(src_re.as_ptr(), out_re_ptr, n);
-                core::ptr::copy_nonoverlapping(src_im.as_ptr(), out_im_ptr, n);
-            }
+            // The result ended up in scratch; `dst` is the caller's buffer.
+            dst_re[..n].copy_from_slice(&src_re[..n]);
+            dst_im[..n].copy_from_slice(&src_im[..n]);
         }
         {
             let planner = unsafe { self.planner_mut() };
@@ -912,8 +910,7 @@ impl ScalarFftImpl<f32> {
 impl ScalarFftImpl<f64> {
     fn fft_split_simd(&self, re: &mut [f64], im: &mut [f64]) -> Result<(), FftError> {
         let n = re.len();
-        let out_re_ptr = re.as_mut_ptr();
-        let out_im_ptr = im.as_mut_ptr();
+        let out_re_ptr = re.as_ptr();
         if n == 0 {
             return Err(FftError::EmptyInput);
         }
@@ -1034,10 +1031,9 @@ impl ScalarFftImpl<f64> {
             n1 <<= 1;
         }
         if src_re.as_ptr() != out_re_ptr {
-            unsafe {
-                core::ptr::copy_nonoverlapping(src_re.as_ptr(), out_re_ptr, n);
-                core::ptr::copy_nonoverlapping(src_im.as_ptr(), out_im_ptr, n);
-            }
+            // The result ended up in scratch; `dst` is the caller's buffer.
+            dst_re[..n].copy_from_slice(&src_re[..n]);
+            dst_im[..n].copy_from_slice(&src_im[..n]);
         }
         {
             let planner = unsafe { self.planner_mut() };
@@ -1149,6 +1145,7 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
                 let input32 = unsafe { &mut *(input as *mut [Complex<T>] as *mut [Complex32]) };
                 input32.par_iter_mut().for_each(|c| c.im = -c.im);
                 self.fft(input)?;
+                let input32 = unsafe { &mut *(input as *mut [Complex<T>] as *mut [Complex32]) };
                 let scale = 1.0 / n as f32;
                 input32.par_iter_mut().for_each(|c| {
                     c.im = -c.im;
-- 
2.43.0


From efd7daf36c9f4d1ae14ed4abab626ba208375beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:46 +0000
Subject: [PATCH 08/43] fix: mixed-radix FFT with twiddles reports empty input
 instead of looping forever

---
 src/fft.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fft.rs b/src/fft.rs
index 00ab01a..c995c01 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1660,6 +1660,9 @@ impl ScalarFftImpl<f32> {
         twiddles: &TwiddleFactorBuffer,
     ) -> Result<(), FftError> {
         let n = input.len();
+        if n == 0 {
+            return Err(FftError::EmptyInput);
+        }
         let factors = factorize(n);
         if factors.iter().all(|&f| f == 2 || f == 4) {
             if factors.iter().all(|&f| f == 4) {
-- 
2.43.0


From 8ed4f6711d6047e03ee28feb39cf718a8bfa143f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:51 +0000
Subject: [PATCH 09/43] fix: no_std float functions use libm instead of
 recursing forever

---
 src/num.rs | 72 ++++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 64 insertions(+), 8 deletions(-)

diff --git a/src/num.rs b/src/num.rs
index f28debd..34adfe4 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -52,20 +52,48 @@ impl Float for f32 {
         x
     }
     fn cos(self) -> Self {
-        f32::cos(self)
+        #[cfg(feature = "std")]
+        {
+            f32::cos(self)
+        }
+        #[cfg(not(feature = "std"))]
+        {
+            libm::cosf(self)
+        }
     }
     fn sin(self) -> Self {
-        f32::sin(self)
+        #[cfg(feature = "std")]
+        {
+            f32::sin(self)
+        }
+        #[cfg(not(feature = "std"))]
+        {
+            libm::sinf(self)
+        }
     }
     fn sin_cos(self) -> (Self, Self) {
-        f32::sin_cos(self)
+        #[cfg(feature = "std")]
+        {
+            f32::sin_cos(self)
+        }
+        #[cfg(not(feature = "std"))]
+        {
+            libm::sincosf(self)
+        }
     }
     fn pi() -> Self {
         PI32
     }
     #[inline(always)]
     fn mul_add(self, a: Self, b: Self) -> Self {
-        f32::mul_add(self, a, b)
+        #[cfg(feature = "std")]
+        {
+            f32::mul_add(self, a, b)
+        }
+        #[cfg(not(feature = "std"))]
+        {
+            libm::fmaf(self, a, b)
+        }
     }
 }
 
@@ -92,20 +120,48 @@ impl Float for f64 {
         x
     }
     fn cos(self) -> Self {
-        f64::cos(self)
+        #[cfg(feature = "std")]
+        {
+            f64::cos(self)
+        }
+        #[cfg(not(feature = "std"))]
+        {
+            libm::cos(self)
+        }
     }
     fn sin(self) -> Self {
-        f64::sin(self)
+        #[cfg(feature = "std")]
+        {
+            f64::sin(self)
+        }
+        #[cfg(not(feature = "std"))]
+        {
+            libm::sin(self)
+        }
     }
     fn sin_cos(self) -> (Self, Self) {
-        f64::sin_cos(self)
+        #[cfg(feature = "std")]
+        {
+            f64::sin_cos(self)
+        }
+        #[cfg(not(feature = "std"))]
+        {
+            libm::sincos(self)
+        }
     }
     fn pi() -> Self {
         core::f64::consts::PI
     }
     #[inline(always)]
     fn mul_add(self, a: Self, b: Self) -> Self {
-        f64::mul_add(self, a, b)
+        #[cfg(feature = "std")]
+        {
+            f64::mul_add(self, a, b)
+        }
+        #[cfg(not(feature = "std"))]
+        {
+            libm::fma(self, a, b)
+        }
     }
 }
 
-- 
2.43.0


From 2ac16a87d4a90eea5adb67c4629ce58afc6c422f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:51 +0000
Subject: [PATCH 10/43] fix: a refused inverse FFT leaves the caller's data
 unchanged

---
 src/fft.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index c995c01..918c6b4 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1158,7 +1158,13 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
         for c in input.iter_mut() {
             c.im = -c.im;
         }
-        self.fft(input)?;
+        if let Err(e) = self.fft(input) {
+            // Undo the conjugation: a rejected request leaves the data as it was.
+            for c in input.iter_mut() {
+                c.im = -c.im;
+            }
+            return Err(e);
+        }
         let scale = T::one() / T::from_f32(n as f32);
         for c in input.iter_mut() {
             c.im = -c.im;
@@ -1396,7 +1402,12 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
             for x in im32.iter_mut() {
                 *x = -*x;
             }
-            this.fft_split_simd(re32, im32)?;
+            if let Err(e) = this.fft_split_simd(re32, im32) {
+                for x in im32.iter_mut() {
+                    *x = -*x;
+                }
+                return Err(e);
+            }
             let scale = 1.0 / re32.len() as f32;
             for (r, i) in re32.iter_mut().zip(im32.iter_mut()) {
                 *i = -*i;
@@ -1412,7 +1423,12 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
             for x in im64.iter_mut() {
                 *x = -*x;
             }
-            this.fft_split_simd(re64, im64)?;
+            if let Err(e) = this.fft_split_simd(re64, im64) {
+                for x in im64.iter_mut() {
+                    *x = -*x;
+                }
+                return Err(e);
+            }
             let scale = 1.0 / re64.len() as f64;
             for (r, i) in re64.iter_mut().zip(im64.iter_mut()) {
                 *i = -*i;
-- 
2.43.0


From 4458a93201a94d640579f0a8daaa2007278dbdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:51 +0000
Subject: [PATCH 11/43] fix: strided FFTs refuse strides whose extent overflows

---
 src/fft.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index 918c6b4..0be238d 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1186,7 +1186,10 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
         if n == 0 {
             return Ok(());
         }
-        if input.len() < (n - 1) * stride + 1 {
+        if (n - 1)
+            .checked_mul(stride)
+            .is_none_or(|last| last >= input.len())
+        {
             return Err(FftError::MismatchedLengths);
         }
         for i in 0..n {
@@ -1247,7 +1250,10 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
         if n == 0 {
             return Ok(());
         }
-        if input.len() < (n - 1) * stride + 1 {
+        if (n - 1)
+            .checked_mul(stride)
+            .is_none_or(|last| last >= input.len())
+        {
             return Err(FftError::MismatchedLengths);
         }
         for i in 0..n {
-- 
2.43.0


From 99b725b73d31769db613a8818e106a40fd9c6faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:51 +0000
Subject: [PATCH 12/43] fix: parallel FFT heuristic saturates instead of
 overflowing on huge tuning values

---
 src/fft.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index 0be238d..9b6d668 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -154,7 +154,7 @@ fn parallel_fft_threshold() -> usize {
                 cache_elems,
                 core::cmp::max(per_core_work, env_parallel_fft_block_size()),
             );
-            per_core_min * env_parallel_fft_threads()
+            per_core_min.saturating_mul(env_parallel_fft_threads())
         }
     })
 }
@@ -276,7 +276,7 @@ fn should_parallelize_fft(n: usize, base_threshold: usize) -> bool {
             cache_elems,
             core::cmp::max(per_core_work, parallel_fft_block_size()),
         );
-        n >= per_core_min * parallel_fft_threads()
+        n >= per_core_min.saturating_mul(parallel_fft_threads())
     }
     #[cfg(not(feature = "std"))]
     {
@@ -302,7 +302,7 @@ fn should_parallelize_fft(n: usize, base_threshold: usize) -> bool {
             cache_elems,
             core::cmp::max(per_core_work, parallel_fft_block_size()),
         );
-        n >= per_core_min * parallel_fft_threads()
+        n >= per_core_min.saturating_mul(parallel_fft_threads())
     }
 }
 
-- 
2.43.0


From 68937c79e57d7a81883f7715b7c49a835ae6cd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:39 +0000
Subject: [PATCH 13/43] fix: compute each real-FFT twiddle directly so long
 transforms stay accurate

---
 src/rfft.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/rfft.rs b/src/rfft.rs
index 08d5a49..84e7189 100644
--- a/src/rfft.rs
+++ b/src/rfft.rs
@@ -170,14 +170,11 @@ mod precomputed {
 }
 
 fn build_twiddle_table<T: Float>(m: usize) -> alloc::vec::Vec<Complex<T>> {
-    let angle = -T::pi() / T::from_f32(m as f32);
-    let (sin_step, cos_step) = angle.sin_cos();
-    let w = Complex::new(cos_step, sin_step);
     let mut table = alloc::vec::Vec::with_capacity(m);
-    let mut current = Complex::new(T::one(), T::zero());
-    for _ in 0..m {
-        table.push(current);
-        current = current.mul(w);
+    for k in 0..m {
+        // Evaluate each root directly: a recurrence drifts as `m` grows.
+        let angle = -T::pi() * T::from_f32(k as f32) / T::from_f32(m as f32);
+        table.push(Complex::expi(angle));
     }
     table
 }
-- 
2.43.0


From c5b7c287b76c8fe279f7d8ca65bd5953550eff0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:20 +0000
Subject: [PATCH 14/43] fix: batch inverse STFT overwrites the output buffer
 instead of accumulating into it

---
 src/stft.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stft.rs b/src/stft.rs
index d91b192..9a70201 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -132,6 +132,7 @@ pub fn istft<Fft: FftImpl<f32>>(
     for x in scratch.iter_mut() {
         *x = 0.0;
     }
+    output.fill(0.0);
     // Overlap-add
     for (frame_idx, frame) in frames.iter_mut().enumerate() {
         let start = frame_idx * hop_size;
@@ -322,6 +323,7 @@ pub fn inverse_parallel<Fft: FftImpl<f32>>(
         })
         .collect();
     let partials = partials?;
+    output.fill(0.0);
     let mut norm = alloc::vec::Vec::with_capacity(output.len());
     norm.resize(output.len(), 0.0);
     for (start, acc_frame, norm_frame) in partials {
-- 
2.43.0


From 475030d2bf242061aa34f61eb15f08dfeefb50b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:20 +0000
Subject: [PATCH 15/43] fix: STFT functions report mismatched buffer lengths
 before touching any data

---
 src/stft.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/stft.rs b/src/stft.rs
index 9a70201..2ae4d60 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -129,6 +129,9 @@ pub fn istft<Fft: FftImpl<f32>>(
         return Err(FftError::MismatchedLengths);
     }
     let win_len = window.len();
+    if frames.iter().any(|frame| frame.len() != win_len) {
+        return Err(FftError::MismatchedLengths);
+    }
     for x in scratch.iter_mut() {
         *x = 0.0;
     }
@@ -136,9 +139,6 @@ pub fn istft<Fft: FftImpl<f32>>(
     // Overlap-add
     for (frame_idx, frame) in frames.iter_mut().enumerate() {
         let start = frame_idx * hop_size;
-        if frame.len() != win_len {
-            return Err(FftError::MismatchedLengths);
-        }
         fft.ifft(frame)?;
         for i in 0..win_len {
             if start + i < output.len() {
@@ -243,6 +243,9 @@ pub fn parallel<Fft: FftImpl<f32>>(
     if hop_size == 0 {
         return Err(FftError::InvalidHopSize);
     }
+    if output.len() < signal.len().div_ceil(hop_size) {
+        return Err(FftError::MismatchedLengths);
+    }
     let win_len = window.len();
     output
         .par_iter_mut()
@@ -301,6 +304,9 @@ pub fn inverse_parallel<Fft: FftImpl<f32>>(
         return Err(FftError::InvalidHopSize);
     }
     let win_len = window.len();
+    if frames.iter().any(|frame| frame.len() != win_len) {
+        return Err(FftError::MismatchedLengths);
+    }
     type Accum = (usize, alloc::vec::Vec<f32>, alloc::vec::Vec<f32>);
     type AccumResult = Result<alloc::vec::Vec<Accum>, FftError>;
     let partials: AccumResult = frames
@@ -362,6 +368,9 @@ pub fn frame<Fft: FftImpl<f32>>(
     fft: &Fft,
 ) -> Result<(), FftError> {
     let win_len = window.len();
+    if frame_out.len() != win_len {
+        return Err(FftError::MismatchedLengths);
+    }
     for i in 0..win_len {
         let x = if start + i < signal.len() {
             signal[start + i] * window[i]
@@ -391,6 +400,9 @@ pub fn inverse_frame<Fft: FftImpl<f32>>(
     fft: &Fft,
 ) -> Result<(), FftError> {
     let win_len = window.len();
+    if frame.len() != win_len {
+        return Err(FftError::MismatchedLengths);
+    }
     fft.ifft(frame)?;
     for i in 0..win_len {
         if start + i < output.len() {
@@ -430,6 +442,9 @@ impl<'a, Fft: crate::fft::FftImpl<f32>> IstftStream<'a, Fft> {
         if hop == 0 {
             return Err(FftError::InvalidHopSize);
         }
+        if window.len() != win_len {
+            return Err(FftError::MismatchedLengths);
+        }
         let buffer = vec![0.0f32; win_len + hop * 2];
         let norm_buf = vec![0.0f32; win_len + hop * 2];
         let time_buf = vec![crate::fft::Complex32::new(0.0, 0.0); win_len];
-- 
2.43.0


From 8f46a56ecab88add8a1e09eec21840f75ea7e61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:20 +0000
Subject: [PATCH 16/43] fix: streaming ISTFT accepts hops longer than the
 window

---
 src/stft.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stft.rs b/src/stft.rs
index 2ae4d60..7640aec 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -495,9 +495,9 @@ impl<'a, Fft: crate::fft::FftImpl<f32>> IstftStream<'a, Fft> {
         self.out_pos += self.hop;
         self.buf_pos += self.hop;
         // Zero the region that will be written next time
-        if self.buf_pos + self.win_len > self.buffer.len() {
+        let new_len = self.buf_pos + self.win_len.max(self.hop);
+        if new_len > self.buffer.len() {
             // Extend buffer if needed
-            let new_len = self.buf_pos + self.win_len;
             self.buffer.resize(new_len, 0.0);
             self.norm_buf.resize(new_len, 0.0);
         }
-- 
2.43.0


From e2e671f18d810e429b66721bd520dfe2c75635e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:20 +0000
Subject: [PATCH 17/43] fix: STFT frame positions beyond the address range no
 longer wrap around

---
 src/stft.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/stft.rs b/src/stft.rs
index 7640aec..ca0749d 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -89,10 +89,10 @@ pub fn stft<Fft: FftImpl<f32>>(
     }
     let win_len = window.len();
     for (frame_idx, frame) in output.iter_mut().enumerate() {
-        let start = frame_idx * hop_size;
+        let start = frame_idx.saturating_mul(hop_size);
         frame.resize(win_len, Complex32::new(0.0, 0.0));
         for i in 0..win_len {
-            let x = if start + i < signal.len() {
+            let x = if i < signal.len().saturating_sub(start) {
                 signal[start + i] * window[i]
             } else {
                 0.0
@@ -138,10 +138,10 @@ pub fn istft<Fft: FftImpl<f32>>(
     output.fill(0.0);
     // Overlap-add
     for (frame_idx, frame) in frames.iter_mut().enumerate() {
-        let start = frame_idx * hop_size;
+        let start = frame_idx.saturating_mul(hop_size);
         fft.ifft(frame)?;
         for i in 0..win_len {
-            if start + i < output.len() {
+            if i < output.len().saturating_sub(start) {
                 output[start + i] += frame[i].re * window[i];
                 scratch[start + i] += window[i] * window[i];
             }
@@ -251,10 +251,10 @@ pub fn parallel<Fft: FftImpl<f32>>(
         .par_iter_mut()
         .enumerate()
         .try_for_each(|(frame_idx, frame)| {
-            let start = frame_idx * hop_size;
+            let start = frame_idx.saturating_mul(hop_size);
             frame.clear();
             for i in 0..win_len {
-                let x = if start + i < signal.len() {
+                let x = if i < signal.len().saturating_sub(start) {
                     signal[start + i] * window[i]
                 } else {
                     0.0
@@ -313,7 +313,7 @@ pub fn inverse_parallel<Fft: FftImpl<f32>>(
         .par_iter()
         .enumerate()
         .map(|(frame_idx, frame)| {
-            let start = frame_idx * hop_size;
+            let start = frame_idx.saturating_mul(hop_size);
             let mut time_buf = frame.clone();
             let fft_local = ScalarFftImpl::<f32>::default();
             fft_local.ifft(&mut time_buf)?;
@@ -334,7 +334,7 @@ pub fn inverse_parallel<Fft: FftImpl<f32>>(
     norm.resize(output.len(), 0.0);
     for (start, acc_frame, norm_frame) in partials {
         for i in 0..win_len {
-            if start + i < output.len() {
+            if i < output.len().saturating_sub(start) {
                 output[start + i] += acc_frame[i];
                 norm[start + i] += norm_frame[i];
             }
@@ -372,7 +372,7 @@ pub fn frame<Fft: FftImpl<f32>>(
         return Err(FftError::MismatchedLengths);
     }
     for i in 0..win_len {
-        let x = if start + i < signal.len() {
+        let x = if i < signal.len().saturating_sub(start) {
             signal[start + i] * window[i]
         } else {
             0.0
@@ -405,7 +405,7 @@ pub fn inverse_frame<Fft: FftImpl<f32>>(
     }
     fft.ifft(frame)?;
     for i in 0..win_len {
-        if start + i < output.len() {
+        if i < output.len().saturating_sub(start) {
             output[start + i] += frame[i].re * window[i];
         }
     }
-- 
2.43.0


From 9666a2b8a796438cf3123095243c86f01fa9c246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:20 +0000
Subject: [PATCH 18/43] fix: stft_magnitudes reports a zero hop instead of
 panicking

---
 src/visual/spectrogram.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/visual/spectrogram.rs b/src/visual/spectrogram.rs
index ea209d5..ac78278 100644
--- a/src/visual/spectrogram.rs
+++ b/src/visual/spectrogram.rs
@@ -54,6 +54,9 @@ pub fn stft_magnitudes(
     win_len: usize,
     hop: usize,
 ) -> Result<(Vec<Vec<f32>>, f32), FftError> {
+    if hop == 0 {
+        return Err(FftError::InvalidHopSize);
+    }
     let window = hann(win_len);
     let fft = ScalarFftImpl::<f32>::default();
     let mut frames = vec![vec![]; samples.len().div_ceil(hop)];
-- 
2.43.0


From 5ebe1722dd8bf4e12b3ad4c21b2dbe53a6258d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:20 +0000
Subject: [PATCH 19/43] fix: log-frequency mapping never leaves the target
 range

---
 src/visual/spectrogram.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/visual/spectrogram.rs b/src/visual/spectrogram.rs
index ac78278..4083563 100644
--- a/src/visual/spectrogram.rs
+++ b/src/visual/spectrogram.rs
@@ -215,7 +215,7 @@ pub fn map_bin_to_pixel(bin: usize, max_bin: usize) -> usize {
     } else {
         let log_max = (max_bin as f32 + 1.0).ln();
         let pos = (bin as f32 + 1.0).ln();
-        (max_bin as f32 * pos / log_max).floor() as usize
+        ((max_bin as f32 * pos / log_max).floor() as usize).min(max_bin)
     }
 }
 
-- 
2.43.0


From 11dabdac15d1ee45380c60c60847d0e8862adc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:20 +0000
Subject: [PATCH 20/43] fix: multi-dimensional FFTs refuse shapes whose size
 overflows

---
 src/ndfft.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ndfft.rs b/src/ndfft.rs
index 34a0c7f..f60efb3 100644
--- a/src/ndfft.rs
+++ b/src/ndfft.rs
@@ -78,7 +78,7 @@ pub fn fft2d_inplace<T: Float>(
     fft: &ScalarFftImpl<T>,
     scratch_col: &mut [Complex<T>],
 ) -> Result<(), FftError> {
-    if rows * cols != data.len() {
+    if rows.checked_mul(cols) != Some(data.len()) {
         return Err(FftError::MismatchedLengths);
     }
     if rows == 0 || cols == 0 {
@@ -119,7 +119,8 @@ pub fn fft3d_inplace<T: Float>(
     fft: &ScalarFftImpl<T>,
     scratch: &mut Fft3dScratch<'_, T>,
 ) -> Result<(), FftError> {
-    if depth * rows * cols != data.len() {
+    let planes = depth.checked_mul(rows);
+    if planes.and_then(|p| p.checked_mul(cols)) != Some(data.len()) {
         return Err(FftError::MismatchedLengths);
     }
     if depth == 0 || rows == 0 || cols == 0 {
-- 
2.43.0


From 1a9b07dffb521f5e9c011d7d94fa0dc4c1f31a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:02 +0000
Subject: [PATCH 21/43] fix: log-frequency mapping sends the highest bin to the
 last pixel

---
 src/visual/spectrogram.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/visual/spectrogram.rs b/src/visual/spectrogram.rs
index 4083563..bd324b2 100644
--- a/src/visual/spectrogram.rs
+++ b/src/visual/spectrogram.rs
@@ -215,7 +215,7 @@ pub fn map_bin_to_pixel(bin: usize, max_bin: usize) -> usize {
     } else {
         let log_max = (max_bin as f32 + 1.0).ln();
         let pos = (bin as f32 + 1.0).ln();
-        ((max_bin as f32 * pos / log_max).floor() as usize).min(max_bin)
+        ((max_bin as f32 * (pos / log_max)).floor() as usize).min(max_bin)
     }
 }
 
-- 
2.43.0


From 061da22b052360e4c01f79a736ae478f1e12eb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:05 +0000
Subject: [PATCH 22/43] fix: multi-level wavelet reconstruction handles
 odd-length levels

---
 src/wavelet.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wavelet.rs b/src/wavelet.rs
index 8f12b57..9fbbf96 100644
--- a/src/wavelet.rs
+++ b/src/wavelet.rs
@@ -77,6 +77,8 @@ where
 {
     let mut current = approx.to_vec();
     for d in details.iter().rev() {
+        // The forward pass pads odd-length levels with one sample: drop it again.
+        current.truncate(d.len());
         current = inverse(&current, d);
     }
     current
-- 
2.43.0


From 94e78701313714e440451ea407a6ffb0f0ba2511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:05 +0000
Subject: [PATCH 23/43] fix: db4, sym4 and coif1 synthesis uses the taps that
 invert their analysis

---
 src/wavelet.rs | 64 +++++++++++++++++++++++++-------------------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/src/wavelet.rs b/src/wavelet.rs
index 9fbbf96..c0ad4c9 100644
--- a/src/wavelet.rs
+++ b/src/wavelet.rs
@@ -316,24 +316,24 @@ pub fn db4_inverse(approx: &[f32], detail: &[f32]) -> Vec<f32> {
     let len = n * 2;
     let mut output = vec![0.0; len];
     let g = [
-        0.2303778133088965,
-        0.7148465705529157,
-        0.6308807679298589,
-        -0.027983769416859854,
-        -0.18703481171909309,
-        0.030841381835560764,
-        0.0328830116668852,
-        -0.010597401785069032,
-    ];
-    let h = [
         -0.010597401785069032,
-        -0.0328830116668852,
+        0.0328830116668852,
         0.030841381835560764,
-        0.18703481171909309,
+        -0.18703481171909309,
         -0.027983769416859854,
-        -0.6308807679298589,
+        0.6308807679298589,
         0.7148465705529157,
+        0.2303778133088965,
+    ];
+    let h = [
         -0.2303778133088965,
+        0.7148465705529157,
+        -0.6308807679298589,
+        -0.027983769416859854,
+        0.18703481171909309,
+        0.030841381835560764,
+        -0.0328830116668852,
+        -0.010597401785069032,
     ];
     let reflect = |mut idx: isize| -> usize {
         let n = len as isize;
@@ -410,24 +410,24 @@ pub fn sym4_inverse(approx: &[f32], detail: &[f32]) -> Vec<f32> {
     let len = n * 2;
     let mut output = vec![0.0; len];
     let g = [
-        0.0322231006040427,
-        -0.012603967262037833,
-        -0.09921954357684722,
-        0.29785779560527736,
-        0.8037387518059161,
-        0.49761866763201545,
-        -0.02963552764599851,
-        -0.07576571478927333,
-    ];
-    let h = [
         -0.07576571478927333,
-        0.02963552764599851,
+        -0.02963552764599851,
         0.49761866763201545,
-        -0.8037387518059161,
+        0.8037387518059161,
         0.29785779560527736,
-        0.09921954357684722,
+        -0.09921954357684722,
         -0.012603967262037833,
+        0.0322231006040427,
+    ];
+    let h = [
         -0.0322231006040427,
+        -0.012603967262037833,
+        0.09921954357684722,
+        0.29785779560527736,
+        -0.8037387518059161,
+        0.49761866763201545,
+        0.02963552764599851,
+        -0.07576571478927333,
     ];
     let reflect = |mut idx: isize| -> usize {
         let n = len as isize;
@@ -500,20 +500,20 @@ pub fn coif1_inverse(approx: &[f32], detail: &[f32]) -> Vec<f32> {
     let len = n * 2;
     let mut output = vec![0.0; len];
     let g = [
+        -0.015655728135791993,
         -0.07273261951252645,
-        0.3378976624574818,
-        0.8525720202116004,
         0.3848648468648578,
+        0.8525720202116004,
+        0.3378976624574818,
         -0.07273261951252645,
-        -0.015655728135791993,
     ];
     let h = [
-        -0.015655728135791993,
         0.07273261951252645,
-        0.3848648468648578,
-        -0.8525720202116004,
         0.3378976624574818,
+        -0.8525720202116004,
+        0.3848648468648578,
         0.07273261951252645,
+        -0.015655728135791993,
     ];
     let reflect = |mut idx: isize| -> usize {
         let n = len as isize;
-- 
2.43.0


From 339d9e4fbe63f2fae4b5b691208de624947d60a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:55 +0000
Subject: [PATCH 24/43] fix: Kaiser window stays accurate and finite for large
 beta

---
 src/window.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/window.rs b/src/window.rs
index 81083eb..d155e1e 100644
--- a/src/window.rs
+++ b/src/window.rs
@@ -6,16 +6,16 @@ use core::f32::consts::PI;
 use crate::num::Float;
 use libm::sqrtf;
 
-fn bessel0(x: f32) -> f32 {
-    // Approximate I0(x) using a series expansion
+fn bessel0(x: f32) -> f64 {
+    // I0(x) by its power series, summed until it has converged
+    let y = x as f64 * x as f64 / 4.0;
     let mut sum = 1.0;
-    let y = x * x / 4.0;
-    let mut t = y;
-    let mut k = 1.0;
-    for n in 1..20 {
-        k *= n as f32;
-        sum += t / (k * k);
-        t *= y;
+    let mut term = 1.0;
+    let mut n = 1.0;
+    while term > sum * 1e-12 && n < 1000.0 {
+        term *= y / (n * n);
+        sum += term;
+        n += 1.0;
     }
     sum
 }
@@ -55,7 +55,7 @@ pub fn kaiser(len: usize, beta: f32) -> alloc::vec::Vec<f32> {
     (0..len)
         .map(|i| {
             let r = (i as f32 - m) / m;
-            bessel0(beta * sqrtf(1.0 - r * r)) / denom
+            (bessel0(beta * sqrtf(1.0 - r * r)) / denom) as f32
         })
         .collect()
 }
@@ -67,7 +67,7 @@ pub fn kaiser(len: usize, beta: f32) -> alloc::vec::Vec<f32> {
     (0..len)
         .map(|i| {
             let r = (i as f32 - m) / m;
-            bessel0(beta * sqrtf(1.0 - r * r)) / denom
+            (bessel0(beta * sqrtf(1.0 - r * r)) / denom) as f32
         })
         .collect()
 }
-- 
2.43.0


From 5518dce8cbe1d58801135e9eeaf1d328d6ff53e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:55 +0000
Subject: [PATCH 25/43] fix: windows of length 0 and 1 are empty and [1.0]
 instead of panicking or NaN

---
 src/window.rs      | 6 ++++++
 src/window_more.rs | 9 +++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/window.rs b/src/window.rs
index d155e1e..4abe037 100644
--- a/src/window.rs
+++ b/src/window.rs
@@ -50,6 +50,9 @@ pub fn blackman(len: usize) -> alloc::vec::Vec<f32> {
 /// Generate a Kaiser window of length `len` and shape parameter `beta`.
 #[cfg(feature = "std")]
 pub fn kaiser(len: usize, beta: f32) -> alloc::vec::Vec<f32> {
+    if len <= 1 {
+        return alloc::vec![1.0; len];
+    }
     let denom = bessel0(beta);
     let m = (len - 1) as f32 / 2.0;
     (0..len)
@@ -62,6 +65,9 @@ pub fn kaiser(len: usize, beta: f32) -> alloc::vec::Vec<f32> {
 
 #[cfg(not(feature = "std"))]
 pub fn kaiser(len: usize, beta: f32) -> alloc::vec::Vec<f32> {
+    if len <= 1 {
+        return alloc::vec![1.0; len];
+    }
     let denom = bessel0(beta);
     let m = (len - 1) as f32 / 2.0;
     (0..len)
diff --git a/src/window_more.rs b/src/window_more.rs
index 0239224..b709e95 100644
--- a/src/window_more.rs
+++ b/src/window_more.rs
@@ -29,6 +29,9 @@ pub fn tukey(len: usize, alpha: f32) -> Vec<f32> {
 
 /// Bartlett (triangular) window
 pub fn bartlett(len: usize) -> Vec<f32> {
+    if len <= 1 {
+        return vec![1.0; len];
+    }
     let mut w = vec![0.0; len];
     let n = len as f32;
     for (i, w_i) in w.iter_mut().enumerate() {
@@ -40,6 +43,9 @@ pub fn bartlett(len: usize) -> Vec<f32> {
 
 /// Bohman window
 pub fn bohman(len: usize) -> Vec<f32> {
+    if len <= 1 {
+        return vec![1.0; len];
+    }
     let mut w = vec![0.0; len];
     let n = len as f32;
     for (i, w_i) in w.iter_mut().enumerate() {
@@ -51,6 +57,9 @@ pub fn bohman(len: usize) -> Vec<f32> {
 
 /// Nuttall window
 pub fn nuttall(len: usize) -> Vec<f32> {
+    if len <= 1 {
+        return vec![1.0; len];
+    }
     let mut w = vec![0.0; len];
     let a0 = 0.355768;
     let a1 = 0.487396;
-- 
2.43.0


From 43a3ba12cc39f3dc9ba573a88b9c7aa660c12a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:55 +0000
Subject: [PATCH 26/43] fix: Bohman window spans [-1, 1] and is symmetric

---
 src/window_more.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/window_more.rs b/src/window_more.rs
index b709e95..ded6b4c 100644
--- a/src/window_more.rs
+++ b/src/window_more.rs
@@ -49,8 +49,8 @@ pub fn bohman(len: usize) -> Vec<f32> {
     let mut w = vec![0.0; len];
     let n = len as f32;
     for (i, w_i) in w.iter_mut().enumerate() {
-        let x = (i as f32 / (n - 1.0)) - 0.5;
-        *w_i = (1.0 - fabsf(x)) * cosf(PI * x) + 1.0 / PI * sinf(PI * x);
+        let x = fabsf(2.0 * i as f32 / (n - 1.0) - 1.0);
+        *w_i = (1.0 - x) * cosf(PI * x) + 1.0 / PI * sinf(PI * x);
     }
     w
 }
-- 
2.43.0


From 62ac999eab83241c5adc1c89f64400fa73ce1c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:55 +0000
Subject: [PATCH 27/43] fix: Tukey window tapers its last cosine sample instead
 of jumping to one

---
 src/window_more.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/window_more.rs b/src/window_more.rs
index ded6b4c..5fd4582 100644
--- a/src/window_more.rs
+++ b/src/window_more.rs
@@ -12,12 +12,15 @@ use libm::{cosf, fabsf, floorf, sinf};
 /// Tukey window (tapered cosine)
 pub fn tukey(len: usize, alpha: f32) -> Vec<f32> {
     let alpha = alpha.clamp(0.0, 1.0);
+    if len <= 1 || alpha == 0.0 {
+        return vec![1.0; len];
+    }
     let mut w = vec![0.0; len];
     let edge = floorf(alpha * (len as f32 - 1.0) / 2.0) as usize;
     for (n, w_n) in w.iter_mut().enumerate() {
-        *w_n = if n < edge {
+        *w_n = if n <= edge {
             0.5 * (1.0 + (PI * (2.0 * n as f32 / (alpha * (len as f32 - 1.0)) - 1.0)).cos())
-        } else if n < len - edge {
+        } else if n < len - edge - 1 {
             1.0
         } else {
             0.5 * (1.0
-- 
2.43.0


From 007e3aa871b96aded4999ee158e3a690267a337f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:01 +0000
Subject: [PATCH 28/43] fix: DST-III inverts DST-II

---
 src/dst.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/dst.rs b/src/dst.rs
index 549c829..86fa872 100644
--- a/src/dst.rs
+++ b/src/dst.rs
@@ -121,9 +121,10 @@ pub fn dst3(input: &[f32]) -> Vec<f32> {
     let mut output = vec![0.0; n];
     let factor = PI / n as f32;
     for (k, out) in output.iter_mut().enumerate() {
-        let mut sum = input[0] / 2.0;
-        for (i, &x) in input.iter().enumerate().skip(1) {
-            sum += x * (factor * (k as f32 + 0.5) * i as f32).sin();
+        let last = input[n - 1] / 2.0;
+        let mut sum = if k.is_multiple_of(2) { last } else { -last };
+        for (i, &x) in input.iter().take(n - 1).enumerate() {
+            sum += x * (factor * (k as f32 + 0.5) * (i as f32 + 1.0)).sin();
         }
         *out = sum;
     }
@@ -245,9 +246,10 @@ pub fn dst3_inplace_stack_fft<const N: usize>(
     // Direct computation using stack memory to ensure parity with heap-based version.
     let factor = PI / N as f32;
     for (k, out) in output.iter_mut().enumerate() {
-        let mut sum = input[0] / 2.0;
-        for (n, &x) in input.iter().enumerate().skip(1) {
-            sum += x * (factor * (k as f32 + 0.5) * n as f32).sin();
+        let last = input[N - 1] / 2.0;
+        let mut sum = if k.is_multiple_of(2) { last } else { -last };
+        for (n, &x) in input.iter().take(N - 1).enumerate() {
+            sum += x * (factor * (k as f32 + 0.5) * (n as f32 + 1.0)).sin();
         }
         *out = sum;
     }
-- 
2.43.0


From 6744a1d96c8072c832e597d0d69b169c3fbc5ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:01 +0000
Subject: [PATCH 29/43] fix: a planned DCT-II refuses buffers of another length

---
 src/dct.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dct.rs b/src/dct.rs
index ace4d1a..62b1444 100644
--- a/src/dct.rs
+++ b/src/dct.rs
@@ -67,7 +67,7 @@ impl DctPlanner {
         cos: &[f32],
     ) -> Result<(), FftError> {
         let n = input.len();
-        if output.len() != n {
+        if output.len() != n || cos.len() != n {
             return Err(FftError::MismatchedLengths);
         }
         let m = 2 * n;
-- 
2.43.0


From 6cc18396c3f8b62ea17e8872188a6c24ae3ab473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:01 +0000
Subject: [PATCH 30/43] fix: Goertzel evaluates the bin nearest to the target
 frequency

---
 src/goertzel.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/goertzel.rs b/src/goertzel.rs
index a10ac4f..386b4e6 100644
--- a/src/goertzel.rs
+++ b/src/goertzel.rs
@@ -21,7 +21,7 @@ pub fn goertzel_f32(input: &[f32], sample_rate: f32, target_freq: f32) -> Result
         return Err(FftError::InvalidValue);
     }
     let n = input.len() as f32;
-    let k = floorf(target_freq * n / sample_rate);
+    let k = floorf(target_freq * n / sample_rate + 0.5);
     let omega = 2.0 * core::f32::consts::PI * k / n;
     let coeff = 2.0 * omega.cos();
     let mut s_prev = 0.0;
@@ -44,7 +44,7 @@ pub fn goertzel_f32(input: &[f32], sample_rate: f32, target_freq: f32) -> Result
         return Err(FftError::InvalidValue);
     }
     let n = input.len() as f32;
-    let k = floorf(target_freq * n / sample_rate);
+    let k = floorf(target_freq * n / sample_rate + 0.5);
     let omega = 2.0 * core::f32::consts::PI * k / n;
     let coeff = 2.0 * cosf(omega);
     let mut s_prev = 0.0;
-- 
2.43.0


From da152f62d293acf4395b99035f9330f5aaf8e7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:01 +0000
Subject: [PATCH 31/43] fix: Goertzel magnitude is zero, not NaN, when rounding
 makes the power negative

---
 src/goertzel.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/goertzel.rs b/src/goertzel.rs
index 386b4e6..f6586a2 100644
--- a/src/goertzel.rs
+++ b/src/goertzel.rs
@@ -32,7 +32,7 @@ pub fn goertzel_f32(input: &[f32], sample_rate: f32, target_freq: f32) -> Result
         s_prev = s;
     }
     let power = s_prev2 * s_prev2 + s_prev * s_prev - coeff * s_prev * s_prev2;
-    Ok(sqrtf(power))
+    Ok(sqrtf(power.max(0.0)))
 }
 
 #[cfg(not(feature = "std"))]
@@ -55,7 +55,7 @@ pub fn goertzel_f32(input: &[f32], sample_rate: f32, target_freq: f32) -> Result
         s_prev = s;
     }
     let power = s_prev2 * s_prev2 + s_prev * s_prev - coeff * s_prev * s_prev2;
-    Ok(sqrtf(power))
+    Ok(sqrtf(power.max(0.0)))
 }
 
 #[cfg(all(feature = "internal-tests", test))]
-- 
2.43.0


From af8e890e54fe0a1d341e12a602efc2bbe399e115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:01 +0000
Subject: [PATCH 32/43] fix: WAV input honours its bit depth and averages its
 channels

---
 sanity-check/src/lib.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/sanity-check/src/lib.rs b/sanity-check/src/lib.rs
index e5a7bee..7f8930e 100644
--- a/sanity-check/src/lib.rs
+++ b/sanity-check/src/lib.rs
@@ -1,5 +1,5 @@
 use clap::ValueEnum;
-use hound::WavReader;
+use hound::{SampleFormat, WavReader};
 use image::{
     codecs::png::{CompressionType, FilterType, PngEncoder},
     ColorType, EncodableLayout, ImageBuffer, ImageEncoder, Rgb,
@@ -99,10 +99,21 @@ pub fn read_audio(path: &Path) -> Result<(Vec<f32>, u32), Box<dyn Error>> {
 fn read_wav(path: &Path) -> Result<(Vec<f32>, u32), Box<dyn Error>> {
     let mut reader = WavReader::open(path)?;
     let spec = reader.spec();
-    let samples: Vec<f32> = reader
-        .samples::<i16>()
-        .map(|s| s.map(|v| v as f32 / i16::MAX as f32))
-        .collect::<Result<_, _>>()?;
+    let interleaved: Vec<f32> = match spec.sample_format {
+        SampleFormat::Float => reader.samples::<f32>().collect::<Result<_, _>>()?,
+        SampleFormat::Int => {
+            let full_scale = ((1i64 << (spec.bits_per_sample - 1)) - 1) as f32;
+            reader
+                .samples::<i32>()
+                .map(|s| s.map(|v| v as f32 / full_scale))
+                .collect::<Result<_, _>>()?
+        }
+    };
+    let channels = usize::from(spec.channels);
+    let samples = interleaved
+        .chunks_exact(channels)
+        .map(|frame| frame.iter().sum::<f32>() / channels as f32)
+        .collect();
     Ok((samples, spec.sample_rate))
 }
 
-- 
2.43.0


From 3e7cd9a35276f08569b9733eba24567aa2071e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:01 +0000
Subject: [PATCH 33/43] fix: sanity-check reports a window length below 2
 instead of panicking

---
 sanity-check/src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sanity-check/src/main.rs b/sanity-check/src/main.rs
index f8faedc..78e296a 100644
--- a/sanity-check/src/main.rs
+++ b/sanity-check/src/main.rs
@@ -64,6 +64,9 @@ struct Args {
 
 fn main() -> Result<(), Box<dyn Error>> {
     let args = Args::parse();
+    if args.win_len < 2 {
+        return Err(io::Error::other("window length must be at least 2").into());
+    }
     let (samples, _sr) = read_audio(&args.input)?;
     let hop = args.win_len / 2;
     let (mags, max_mag) = stft_magnitudes(&samples, args.win_len, hop)
-- 
2.43.0


From 1a8f5194b7596113aad000a1e4b2338de010b386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 34/43] fix: default strided helpers hand initialized scratch
 memory to the transform

---
 src/fft.rs | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index 9b6d668..a94fe30 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -21,7 +21,6 @@ use core::arch::aarch64::*;
 #[cfg(target_arch = "x86_64")]
 use core::arch::x86_64::*;
 use core::cell::UnsafeCell;
-use core::mem::MaybeUninit;
 use hashbrown::HashMap;
 
 #[cfg(feature = "precomputed-twiddles")]
@@ -526,28 +525,16 @@ pub trait FftImpl<T: Float>: Any {
     /// Convenience wrapper that allocates a scratch buffer internally for [`fft_strided`].
     fn fft_strided_alloc(&self, input: &mut [Complex<T>], stride: usize) -> Result<(), FftError> {
         let n = if stride == 0 { 0 } else { input.len() / stride };
-        let mut scratch: Vec<MaybeUninit<Complex<T>>> = alloc::vec::Vec::with_capacity(n);
-        // SAFETY: The scratch buffer is uninitialized, but `fft_strided` treats it
-        // purely as workspace and writes to every element before any read.
-        unsafe {
-            scratch.set_len(n);
-            let scratch_slice =
-                core::slice::from_raw_parts_mut(scratch.as_mut_ptr() as *mut Complex<T>, n);
-            self.fft_strided(input, stride, scratch_slice)
-        }
+        // Implementors of `fft_strided` may read the scratch buffer: initialize it.
+        let mut scratch = alloc::vec![Complex::zero(); n];
+        self.fft_strided(input, stride, &mut scratch)
     }
     /// Convenience wrapper that allocates a scratch buffer internally for [`ifft_strided`].
     fn ifft_strided_alloc(&self, input: &mut [Complex<T>], stride: usize) -> Result<(), FftError> {
         let n = if stride == 0 { 0 } else { input.len() / stride };
-        let mut scratch: Vec<MaybeUninit<Complex<T>>> = alloc::vec::Vec::with_capacity(n);
-        // SAFETY: The scratch buffer is uninitialized, but `ifft_strided` treats it
-        // purely as workspace and writes to every element before any read.
-        unsafe {
-            scratch.set_len(n);
-            let scratch_slice =
-                core::slice::from_raw_parts_mut(scratch.as_mut_ptr() as *mut Complex<T>, n);
-            self.ifft_strided(input, stride, scratch_slice)
-        }
+        // Implementors of `ifft_strided` may read the scratch buffer: initialize it.
+        let mut scratch = alloc::vec![Complex::zero(); n];
+        self.ifft_strided(input, stride, &mut scratch)
     }
 
     fn fft_split(&self, re: &mut [T], im: &mut [T]) -> Result<(), FftError> {
-- 
2.43.0


From 936359f60a5df61644219e919a36a3a451d04b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:05 +0000
Subject: [PATCH 35/43] fix: radix-4 stages read every twiddle from the table
 instead of a drifting product

---
 src/fft.rs | 44 +++++++++++++++++++++-----------------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index a94fe30..305e67c 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1489,54 +1489,52 @@ impl<T: Float> ScalarFftImpl<T> {
                     i += len;
                 }
             } else {
-                let (w_step1, w_step2, w_step3) = {
+                let twiddles = {
                     let planner = unsafe { self.planner_mut() };
-                    let twiddles = planner.get_twiddles(len);
-                    (twiddles[1], twiddles[2], twiddles[3])
+                    planner.get_twiddles(len)
+                };
+                // Read every root from the table: stepping by repeated
+                // multiplication drifts as `len` grows. The table covers the
+                // first half circle, the second half is its negation.
+                let root = |k: usize| {
+                    if k < len / 2 {
+                        twiddles[k]
+                    } else {
+                        Complex::zero().sub(twiddles[k - len / 2])
+                    }
                 };
                 let quarter = len / 4;
                 while i < n {
-                    let mut w1 = Complex::new(T::one(), T::zero());
-                    let mut w2 = Complex::new(T::one(), T::zero());
-                    let mut w3 = Complex::new(T::one(), T::zero());
                     let mut j = 0usize;
                     while j + 1 < quarter {
                         let a0 = input[i + j];
-                        let b0 = input[i + j + quarter].mul(w1);
-                        let c0 = input[i + j + len / 2].mul(w2);
-                        let d0 = input[i + j + 3 * quarter].mul(w3);
+                        let b0 = input[i + j + quarter].mul(root(j));
+                        let c0 = input[i + j + len / 2].mul(root(2 * j));
+                        let d0 = input[i + j + 3 * quarter].mul(root(3 * j));
                         let (x0, x1, x2, x3) = butterfly4(a0, b0, c0, d0);
                         input[i + j] = x0;
                         input[i + j + quarter] = x1;
                         input[i + j + len / 2] = x2;
                         input[i + j + 3 * quarter] = x3;
 
-                        w1 = w1.mul(w_step1);
-                        w2 = w2.mul(w_step2);
-                        w3 = w3.mul(w_step3);
-
                         let j1 = j + 1;
                         let a1 = input[i + j1];
-                        let b1 = input[i + j1 + quarter].mul(w1);
-                        let c1 = input[i + j1 + len / 2].mul(w2);
-                        let d1 = input[i + j1 + 3 * quarter].mul(w3);
+                        let b1 = input[i + j1 + quarter].mul(root(j1));
+                        let c1 = input[i + j1 + len / 2].mul(root(2 * j1));
+                        let d1 = input[i + j1 + 3 * quarter].mul(root(3 * j1));
                         let (y0, y1, y2, y3) = butterfly4(a1, b1, c1, d1);
                         input[i + j1] = y0;
                         input[i + j1 + quarter] = y1;
                         input[i + j1 + len / 2] = y2;
                         input[i + j1 + 3 * quarter] = y3;
 
-                        w1 = w1.mul(w_step1);
-                        w2 = w2.mul(w_step2);
-                        w3 = w3.mul(w_step3);
-
                         j += 2;
                     }
                     if j < quarter {
                         let a = input[i + j];
-                        let b = input[i + j + quarter].mul(w1);
-                        let c = input[i + j + len / 2].mul(w2);
-                        let d = input[i + j + 3 * quarter].mul(w3);
+                        let b = input[i + j + quarter].mul(root(j));
+                        let c = input[i + j + len / 2].mul(root(2 * j));
+                        let d = input[i + j + 3 * quarter].mul(root(3 * j));
                         let (x0, x1, x2, x3) = butterfly4(a, b, c, d);
                         input[i + j] = x0;
                         input[i + j + quarter] = x1;
-- 
2.43.0


From 29c3f9ab4d072c9e51bcaa416572bcf587d5c815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:36 +0000
Subject: [PATCH 36/43] fix: fixed-size FFT evaluates every twiddle directly
 instead of a drifting product

---
 src/fft.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index 305e67c..2b96e08 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -2226,22 +2226,18 @@ pub fn fft_inplace_stack<const N: usize>(buf: &mut [Complex<f32>; N]) -> Result<
     let mut len = 2;
     while len <= N {
         let ang = -2.0 * PI / (len as f32);
-        let (sin_step, cos_step) = ang.sin_cos();
-        let mut i = 0;
-        while i < N {
-            let mut w_re = 1.0f32;
-            let mut w_im = 0.0f32;
-            for j in 0..(len / 2) {
-                let w = Complex32::new(w_re, w_im);
+        for j in 0..(len / 2) {
+            // Evaluate every twiddle directly: a running product drifts with N.
+            let (w_im, w_re) = (ang * j as f32).sin_cos();
+            let w = Complex32::new(w_re, w_im);
+            let mut i = 0;
+            while i < N {
                 let u = buf[i + j];
                 let v = buf[i + j + len / 2].mul(w);
                 buf[i + j] = u.add(v);
                 buf[i + j + len / 2] = u.sub(v);
-                let tmp = w_re;
-                w_re = w_re.mul_add(cos_step, -(w_im * sin_step));
-                w_im = w_im.mul_add(cos_step, tmp * sin_step);
+                i += len;
             }
-            i += len;
         }
         len <<= 1;
     }
-- 
2.43.0


From 9dcd5eed48f2c9fff775f4fa6fa6c16b985bf200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:29 +0000
Subject: [PATCH 37/43] fix: a refused parallel inverse FFT leaves the caller's
 data unchanged

---
 src/fft.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fft.rs b/src/fft.rs
index 2b96e08..093b497 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1131,7 +1131,13 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
             {
                 let input32 = unsafe { &mut *(input as *mut [Complex<T>] as *mut [Complex32]) };
                 input32.par_iter_mut().for_each(|c| c.im = -c.im);
-                self.fft(input)?;
+                if let Err(e) = self.fft(input) {
+                    // Undo the conjugation: a rejected request leaves the data as it was.
+                    for c in input.iter_mut() {
+                        c.im = -c.im;
+                    }
+                    return Err(e);
+                }
                 let input32 = unsafe { &mut *(input as *mut [Complex<T>] as *mut [Complex32]) };
                 let scale = 1.0 / n as f32;
                 input32.par_iter_mut().for_each(|c| {
-- 
2.43.0


From 13aec89af9cb4304ac3ed7df065febdcbb666a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:29 +0000
Subject: [PATCH 38/43] fix: the simd and soa features build without std

---
 src/fft.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fft.rs b/src/fft.rs
index 093b497..71eef58 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -2104,7 +2104,7 @@ impl<T: Float> FftPlan<T> {
     }
 }
 
-#[cfg(any(feature = "simd", feature = "soa"))]
+#[cfg(all(feature = "std", any(feature = "simd", feature = "soa")))]
 impl FftPlan<f32> {
     pub fn fft_complex_vec(&self, data: &mut crate::num::ComplexVec) -> Result<(), FftError> {
         if data.len() != self.n {
-- 
2.43.0


From 2d8e7fe820bdd2853557ff5316445e9f6eb02180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:27 +0000
Subject: [PATCH 39/43] fix: the AVX real-FFT kernels run only on a CPU that
 has AVX

---
 src/rfft.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/rfft.rs b/src/rfft.rs
index 84e7189..8c78554 100644
--- a/src/rfft.rs
+++ b/src/rfft.rs
@@ -58,6 +58,9 @@ impl RealFftNum for f32 {
     ) -> Result<(), FftError> {
         #[cfg(all(target_arch = "x86_64", feature = "x86_64"))]
         {
+            if !avx_available() {
+                return rfft_direct(fft, input, output, scratch, twiddles, pack_twiddles);
+            }
             unsafe {
                 rfft_direct_f32_avx(
                     |d| fft.fft(d),
@@ -99,6 +102,9 @@ impl RealFftNum for f32 {
     ) -> Result<(), FftError> {
         #[cfg(all(target_arch = "x86_64", feature = "x86_64"))]
         {
+            if !avx_available() {
+                return irfft_direct(fft, input, output, scratch, twiddles, pack_twiddles);
+            }
             unsafe {
                 irfft_direct_f32_avx(
                     |d| fft.ifft(d),
@@ -507,6 +513,19 @@ fn irfft_direct<T: Float, F: FftImpl<T> + ?Sized>(
 #[cfg(all(target_arch = "x86_64", feature = "x86_64"))]
 use core::arch::x86_64::*;
 
+/// The AVX kernels may only run on a CPU that has AVX.
+#[cfg(all(target_arch = "x86_64", feature = "x86_64"))]
+fn avx_available() -> bool {
+    #[cfg(feature = "std")]
+    {
+        std::is_x86_feature_detected!("avx")
+    }
+    #[cfg(not(feature = "std"))]
+    {
+        cfg!(target_feature = "avx")
+    }
+}
+
 #[cfg(all(target_arch = "x86_64", feature = "x86_64"))]
 #[target_feature(enable = "avx")]
 unsafe fn rfft_direct_f32_avx<F>(
-- 
2.43.0


From ac7c566b59640118954d02cb8482540aa5e529a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:10 +0000
Subject: [PATCH 40/43] fix: a WAV file with an impossible bit depth is refused

---
 sanity-check/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sanity-check/src/lib.rs b/sanity-check/src/lib.rs
index 7f8930e..57b041a 100644
--- a/sanity-check/src/lib.rs
+++ b/sanity-check/src/lib.rs
@@ -102,6 +102,12 @@ fn read_wav(path: &Path) -> Result<(Vec<f32>, u32), Box<dyn Error>> {
     let interleaved: Vec<f32> = match spec.sample_format {
         SampleFormat::Float => reader.samples::<f32>().collect::<Result<_, _>>()?,
         SampleFormat::Int => {
+            if !(1..=32).contains(&spec.bits_per_sample) {
+                return Err(Box::new(io::Error::new(
+                    io::ErrorKind::InvalidData,
+                    "unsupported bit depth",
+                )));
+            }
             let full_scale = ((1i64 << (spec.bits_per_sample - 1)) - 1) as f32;
             reader
                 .samples::<i32>()
-- 
2.43.0


From acf21b426e438703ac705860710fef9453a08966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:58 +0000
Subject: [PATCH 41/43] fix: f64 tables and scales above 2^24 lost precision
 through f32

---
 src/dst.rs  |  4 ++--
 src/fft.rs  | 12 ++++++------
 src/rfft.rs |  2 +-
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/dst.rs b/src/dst.rs
index 86fa872..e01cdea 100644
--- a/src/dst.rs
+++ b/src/dst.rs
@@ -39,11 +39,11 @@ impl<T: Float> DstPlanner<T> {
     }
 
     fn build_table_offset(n: usize, offset: f32) -> Vec<T> {
-        let factor = T::pi() / T::from_f32(n as f32);
+        let factor = T::pi() / T::from_f64(n as f64);
         let off = T::from_f32(offset);
         let mut table = Vec::with_capacity(n);
         for i in 0..n {
-            let angle = factor * (T::from_f32(i as f32) + off);
+            let angle = factor * (T::from_f64(i as f64) + off);
             table.push(angle.sin());
         }
         table
diff --git a/src/fft.rs b/src/fft.rs
index 71eef58..bf8ef18 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -393,7 +393,7 @@ impl<T: Float> FftPlanner<T> {
             for k in 0..half {
                 // Evaluate each root directly: a recurrence drifts as `n` grows.
                 let angle =
-                    -T::from_f32(2.0) * T::pi() * T::from_f32(k as f32) / T::from_f32(n as f32);
+                    -T::from_f32(2.0) * T::pi() * T::from_f64(k as f64) / T::from_f64(n as f64);
                 table.push(Complex::expi(angle));
             }
             self.cache.insert(n, Arc::from(table));
@@ -409,8 +409,8 @@ impl<T: Float> FftPlanner<T> {
             let mut b: Vec<Complex<T>> = Vec::with_capacity(m);
             for i in 0..n {
                 // i^2 is reduced modulo the chirp period so that it stays exact.
-                let phase = ((i as u64 * i as u64) % (2 * n as u64)) as f32;
-                let angle = T::pi() * T::from_f32(phase) / T::from_f32(n as f32);
+                let phase = ((i as u64 * i as u64) % (2 * n as u64)) as f64;
+                let angle = T::pi() * T::from_f64(phase) / T::from_f64(n as f64);
                 chirp.push(Complex::expi(-angle));
                 b.push(Complex::expi(angle));
             }
@@ -1097,7 +1097,7 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
             for c in a.iter_mut() {
                 c.im = -c.im;
             }
-            let scale = T::one() / T::from_f32(m as f32);
+            let scale = T::one() / T::from_f64(m as f64);
             for c in a.iter_mut() {
                 c.re = c.re * scale;
                 c.im = c.im * scale;
@@ -1158,7 +1158,7 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
             }
             return Err(e);
         }
-        let scale = T::one() / T::from_f32(n as f32);
+        let scale = T::one() / T::from_f64(n as f64);
         for c in input.iter_mut() {
             c.im = -c.im;
             c.re = c.re * scale;
@@ -2056,7 +2056,7 @@ impl<T: Float> FftPlan<T> {
             c.im = -c.im;
         }
         self.fft(input)?;
-        let scale = T::one() / T::from_f32(self.n as f32);
+        let scale = T::one() / T::from_f64(self.n as f64);
         for c in input.iter_mut() {
             c.im = -c.im;
             c.re = c.re * scale;
diff --git a/src/rfft.rs b/src/rfft.rs
index 8c78554..98f01fd 100644
--- a/src/rfft.rs
+++ b/src/rfft.rs
@@ -179,7 +179,7 @@ fn build_twiddle_table<T: Float>(m: usize) -> alloc::vec::Vec<Complex<T>> {
     let mut table = alloc::vec::Vec::with_capacity(m);
     for k in 0..m {
         // Evaluate each root directly: a recurrence drifts as `m` grows.
-        let angle = -T::pi() * T::from_f32(k as f32) / T::from_f32(m as f32);
+        let angle = -T::pi() * T::from_f64(k as f64) / T::from_f64(m as f64);
         table.push(Complex::expi(angle));
     }
     table
-- 
2.43.0


From 505daa67fb5a18427bd1503888d84069ca1bdf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:28 +0000
Subject: [PATCH 42/43] fix: web-spectrogram did not compile (half-merged
 result getters)

---
 web-spectrogram/src/lib.rs | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/web-spectrogram/src/lib.rs b/web-spectrogram/src/lib.rs
index bddb61a..f64481a 100644
--- a/web-spectrogram/src/lib.rs
+++ b/web-spectrogram/src/lib.rs
@@ -120,13 +120,7 @@ impl FftResult {
 
     #[wasm_bindgen(getter)]
     pub fn im(&self) -> Vec<f32> {
-    pub fn re(&self) -> Float32Array {
-        Float32Array::from(self.re.as_slice())
-    }
-
-    #[wasm_bindgen(getter)]
-    pub fn im(&self) -> Float32Array {
-        Float32Array::from(self.im.as_slice())
+        self.im.clone()
     }
 }
 
@@ -164,13 +158,7 @@ impl HaarResult {
 
     #[wasm_bindgen(getter)]
     pub fn diff(&self) -> Vec<f32> {
-    pub fn avg(&self) -> Array {
-        self.avg.iter().map(|&x| JsValue::from_f64(x as f64)).collect()
-    }
-
-    #[wasm_bindgen(getter)]
-    pub fn diff(&self) -> Array {
-        self.diff.iter().map(|&x| JsValue::from_f64(x as f64)).collect()
+        self.diff.clone()
     }
 }
 
-- 
2.43.0


From d6959def778e36f66750624f2cfdb3371067f51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:29 +0000
Subject: [PATCH 43/43] fix: the web page's script did not parse (half-merged
 shader call, missing brace)

---
 web-spectrogram/app.mjs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/web-spectrogram/app.mjs b/web-spectrogram/app.mjs
index da8d8b8..898ad58 100644
--- a/web-spectrogram/app.mjs
+++ b/web-spectrogram/app.mjs
@@ -66,8 +66,6 @@ function drawSpectrogramWebGL(gl, canvas, res) {
   gl.compileShader(vs);
 
   const fs = gl.createShader(gl.FRAGMENT_SHADER);
-  gl.shaderSource(
-    fs,
   const fragmentShaderSource = `
     precision highp float;
     varying vec2 v;
@@ -166,6 +164,7 @@ export function drawSpectrogram(
       drawSpectrogramCanvas(canvas, res, colorFn, colormap);
       return;
     }
+  }
   drawSpectrogramCanvas(canvas, res, colorFn, colormap);
 }
 
-- 
2.43.0

