From a8308b419ec5acc8189b220b189fe9034afdd873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:40 +0000
Subject: [PATCH 01/23] fix: autocorr_fast32 dropped the products outside whole
 tiles

---
 sci-rs/src/stats.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sci-rs/src/stats.rs b/sci-rs/src/stats.rs
index 06cb0c0..95cc980 100644
--- a/sci-rs/src/stats.rs
+++ b/sci-rs/src/stats.rs
@@ -268,7 +268,7 @@ pub fn autocorr_fast32<const N: usize, const M: usize, const SKIP: usize>(
             .zip(right.remainder().iter())
             .map(|(a, b)| a * b)
             .sum::<f32>();
-        *xi = left
+        *xi += left
             .zip(right)
             .map(|(left, right)| {
                 left.iter()
@@ -276,7 +276,7 @@ pub fn autocorr_fast32<const N: usize, const M: usize, const SKIP: usize>(
                     .map(|(a, b)| a * b)
                     .sum::<f32>()
             })
-            .sum();
+            .sum::<f32>();
     }
 
     var
-- 
2.43.0


From 3e0511d1c21fbf6ac73ed2e7671ea0d6a8164725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:40 +0000
Subject: [PATCH 02/23] fix: Chebyshev II design required the passband ripple
 instead of the stopband attenuation

---
 sci-rs/src/signal/filter/design/iirfilter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sci-rs/src/signal/filter/design/iirfilter.rs b/sci-rs/src/signal/filter/design/iirfilter.rs
index 735d8e0..2e71af8 100644
--- a/sci-rs/src/signal/filter/design/iirfilter.rs
+++ b/sci-rs/src/signal/filter/design/iirfilter.rs
@@ -106,7 +106,7 @@ where
             cheb1ap_dyn(order, rp.unwrap())
         }
         FilterType::ChebyshevII => {
-            if rp.is_none() {
+            if rs.is_none() {
                 panic!(
                     "stopband attenuation (rs) must be provided to design an Chebyshev II filter."
                 );
-- 
2.43.0


From 0a837d3c507afe7c7d38b2cd7c160f6f4be0585e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:41 +0000
Subject: [PATCH 03/23] fix: cheby1_dyn and cheby2_dyn default to lowpass as
 documented

---
 sci-rs/src/signal/filter/design/iirfilter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sci-rs/src/signal/filter/design/iirfilter.rs b/sci-rs/src/signal/filter/design/iirfilter.rs
index 2e71af8..8f2162b 100644
--- a/sci-rs/src/signal/filter/design/iirfilter.rs
+++ b/sci-rs/src/signal/filter/design/iirfilter.rs
@@ -364,7 +364,7 @@ where
         wn,
         Some(rp),
         None, // rs
-        btype,
+        Some(btype.unwrap_or(FilterBandType::Lowpass)),
         Some(FilterType::ChebyshevI),
         analog,
         output,
@@ -516,7 +516,7 @@ where
         wn,
         None, // rp
         Some(rs),
-        btype,
+        Some(btype.unwrap_or(FilterBandType::Lowpass)),
         Some(FilterType::ChebyshevII),
         analog,
         output,
-- 
2.43.0


From 0790659f31043b7651206dc51a3a3fbb83724637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:42 +0000
Subject: [PATCH 04/23] fix: valid convolution returned nothing when the second
 input is the longer one

---
 sci-rs/src/signal/convolve.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/sci-rs/src/signal/convolve.rs b/sci-rs/src/signal/convolve.rs
index b527805..4d10e5a 100644
--- a/sci-rs/src/signal/convolve.rs
+++ b/sci-rs/src/signal/convolve.rs
@@ -73,13 +73,7 @@ pub fn fftconvolve<F: Float + FftNum>(in1: &[F], in2: &[F], mode: ConvolveMode)
     // Extract the appropriate slice based on the mode
     match mode {
         ConvolveMode::Full => full_convolution,
-        ConvolveMode::Valid => {
-            if n1 >= n2 {
-                full_convolution[(n2 - 1)..(n1)].to_vec()
-            } else {
-                Vec::new()
-            }
-        }
+        ConvolveMode::Valid => full_convolution[(n1.min(n2) - 1)..n1.max(n2)].to_vec(),
         ConvolveMode::Same => {
             let start = (n2 - 1) / 2;
             let end = start + n1;
-- 
2.43.0


From 19388b97a651f07c36e2a4925150d1099c75affd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:42 +0000
Subject: [PATCH 05/23] fix: companion_dyn wrote outside the matrix for
 inconsistent sizes

---
 sci-rs/src/linalg/companion.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sci-rs/src/linalg/companion.rs b/sci-rs/src/linalg/companion.rs
index 1abbd37..65df083 100644
--- a/sci-rs/src/linalg/companion.rs
+++ b/sci-rs/src/linalg/companion.rs
@@ -18,10 +18,12 @@ where
 {
     let mut itr = itr;
     let a0: T = *itr.next().expect("Invalid data length").borrow();
+    assert!(m > 0, "Invalid matrix size");
     let itr = itr
+        .take(m - 1)
         .enumerate()
         .map(|(i, ai)| ((0, i), -*(ai.borrow()) / a0))
-        .chain((0..(m - 2)).map(|i| (((i + 1), i), T::one())));
+        .chain((0..m.saturating_sub(2)).map(|i| (((i + 1), i), T::one())));
     let mut m = Matrix::<
         T,
         Dyn,
-- 
2.43.0


From 0e0e84894ea31d16d15ade25638c98b340a113dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:43 +0000
Subject: [PATCH 06/23] fix: comb overflowed on intermediate products although
 the result is representable

---
 sci-rs/src/special/combinatorics.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/sci-rs/src/special/combinatorics.rs b/sci-rs/src/special/combinatorics.rs
index 68cac5c..cff8530 100644
--- a/sci-rs/src/special/combinatorics.rs
+++ b/sci-rs/src/special/combinatorics.rs
@@ -128,11 +128,27 @@ where
     if k > n || n < Int::zero() || k < Int::zero() {
         return Int::zero();
     }
-    let m = n + Int::one();
-    let n_terms = (min(k, n - k) + Int::one()).to_usize().unwrap();
-    (1..n_terms).fold(Int::one(), |result, i| {
-        result * (m - Int::from_usize(i).unwrap()) / Int::from_usize(i).unwrap()
-    })
+    let k = min(k, n - k);
+    let mut result = Int::one();
+    let mut i = Int::zero();
+    while i < k {
+        // result * (n - i) / (i + 1), dividing first so that no intermediate exceeds the result
+        let (num, den) = (n - i, i + Int::one());
+        let g = primint_gcd(num, den);
+        result = result / (den / g) * (num / g);
+        i = i + Int::one();
+    }
+    result
+}
+
+fn primint_gcd<Int>(mut a: Int, mut b: Int) -> Int
+where
+    Int: PrimInt,
+{
+    while !b.is_zero() {
+        (a, b) = (b, a % b);
+    }
+    a
 }
 
 fn primint_comb_rep<Int>(n: Int, k: Int) -> Int
-- 
2.43.0


From f16cf23d7aba2c9a849749db85ead848c1a6ab81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:44 +0000
Subject: [PATCH 07/23] fix: perm overflowed for the largest n of a type

---
 sci-rs/src/special/combinatorics.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sci-rs/src/special/combinatorics.rs b/sci-rs/src/special/combinatorics.rs
index cff8530..7bb8771 100644
--- a/sci-rs/src/special/combinatorics.rs
+++ b/sci-rs/src/special/combinatorics.rs
@@ -169,11 +169,13 @@ where
         return Int::zero();
     }
 
-    let start = (n - k + Int::one()).to_usize().unwrap();
-    let end = (n + Int::one()).to_usize().unwrap();
-    (start..end).fold(Int::one(), |result, val| {
-        result * Int::from_usize(val).unwrap()
-    })
+    let mut result = Int::one();
+    let mut i = Int::zero();
+    while i < k {
+        result = result * (n - i);
+        i = i + Int::one();
+    }
+    result
 }
 
 fn primint_stirling2<Int>(n: Int, k: Int) -> Int
-- 
2.43.0


From 08a0814041f8f20dd10376cc0320fb11b0ef783e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:45 +0000
Subject: [PATCH 08/23] fix: comb_rep overflowed in n + k although the result
 is representable

---
 sci-rs/src/special/combinatorics.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sci-rs/src/special/combinatorics.rs b/sci-rs/src/special/combinatorics.rs
index 7bb8771..1c962c6 100644
--- a/sci-rs/src/special/combinatorics.rs
+++ b/sci-rs/src/special/combinatorics.rs
@@ -155,10 +155,10 @@ fn primint_comb_rep<Int>(n: Int, k: Int) -> Int
 where
     Int: PrimInt + FromPrimitive,
 {
-    if n + k == Int::zero() {
+    if n <= Int::zero() || k < Int::zero() {
         return Int::zero();
     }
-    primint_comb(n + k - Int::one(), k)
+    primint_comb(n - Int::one() + k, k)
 }
 
 fn primint_perm<Int>(n: Int, k: Int) -> Int
-- 
2.43.0


From f855f6ce8c3cc4d881c190c6a19840eea33a09ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:45 +0000
Subject: [PATCH 09/23] fix: stirling2 recursed exponentially and overflowed
 the stack

---
 sci-rs/src/special/combinatorics.rs | 38 ++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/sci-rs/src/special/combinatorics.rs b/sci-rs/src/special/combinatorics.rs
index 1c962c6..372ec58 100644
--- a/sci-rs/src/special/combinatorics.rs
+++ b/sci-rs/src/special/combinatorics.rs
@@ -197,7 +197,43 @@ where
         return Int::zero();
     }
 
-    k * primint_stirling2(n - Int::one(), k) + primint_stirling2(n - Int::one(), k - Int::one())
+    if k.is_one() {
+        return Int::one();
+    }
+    let d = n - k;
+    if d.is_one() {
+        return primint_comb(n, Int::one() + Int::one());
+    }
+
+    // Tabulate s(i, j) = S(i + j, j) = j * s(i - 1, j) + s(i, j - 1) up to s(d, k), keeping one
+    // row along the shorter side. S(2m, m) exceeds every integer type long before m = WIDTH.
+    const WIDTH: usize = 64;
+    let width = min(k, d).to_usize().filter(|w| *w < WIDTH);
+    let width = width.expect("attempt to compute stirling2 with overflow");
+    let mut row = [Int::zero(); WIDTH];
+    if k <= d {
+        // row[j] = s(i, j)
+        row[..=width].fill(Int::one());
+        let mut i = Int::zero();
+        while i < d {
+            row[0] = Int::zero();
+            for j in 1..=width {
+                row[j] = Int::from_usize(j).unwrap() * row[j] + row[j - 1];
+            }
+            i = i + Int::one();
+        }
+    } else {
+        // row[i] = s(i, j)
+        row[0] = Int::one();
+        let mut j = Int::zero();
+        while j < k {
+            j = j + Int::one();
+            for i in 1..=width {
+                row[i] = j * row[i - 1] + row[i];
+            }
+        }
+    }
+    row[width]
 }
 
 #[cfg(test)]
-- 
2.43.0


From c82075a1c031f0b6fe2823daa88329718646813d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:46 +0000
Subject: [PATCH 10/23] fix: factorialk overflowed stepping past the last
 factor

---
 sci-rs/src/special/factorial.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sci-rs/src/special/factorial.rs b/sci-rs/src/special/factorial.rs
index 3c4bccc..102faab 100644
--- a/sci-rs/src/special/factorial.rs
+++ b/sci-rs/src/special/factorial.rs
@@ -280,11 +280,13 @@ where
 
     let mut result = Int::one();
 
-    while start <= stop {
+    loop {
         result = result * start;
+        if stop - start < step {
+            return result;
+        }
         start = start + step;
     }
-    result
 }
 
 #[cfg(test)]
-- 
2.43.0


From 3695abf63f00d2a7260472ade5cf515e936ff176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:47 +0000
Subject: [PATCH 11/23] fix: conjugates with equal real parts up to rounding
 were not matched

---
 sci-rs/src/signal/filter/design/cplx.rs | 23 +++--------------------
 1 file changed, 3 insertions(+), 20 deletions(-)

diff --git a/sci-rs/src/signal/filter/design/cplx.rs b/sci-rs/src/signal/filter/design/cplx.rs
index e1ffaf4..5db71b7 100644
--- a/sci-rs/src/signal/filter/design/cplx.rs
+++ b/sci-rs/src/signal/filter/design/cplx.rs
@@ -126,26 +126,9 @@ where
     for i in 0..run_starts.len() {
         let start = run_starts[i];
         let stop = run_stops[i] + 1;
-        let mut chunk: Vec<(Complex<F>, Complex<F>)> = zp[start..stop]
-            .iter()
-            .cloned()
-            .zip(zn[start..stop].iter().cloned())
-            .collect();
-        chunk.sort_unstable_by(|a, b| {
-            match Float::abs(a.1.im).partial_cmp(&Float::abs(b.1.im)).unwrap() {
-                Ordering::Less => Ordering::Less,
-                Ordering::Greater => Ordering::Greater,
-                Ordering::Equal => a.0.im.partial_cmp(&b.0.im).unwrap(),
-            }
-        });
-        zp[start..stop]
-            .iter_mut()
-            .zip(zn[start..stop].iter_mut())
-            .zip(chunk.iter())
-            .for_each(|((zpi, zni), ci)| {
-                *zpi = ci.0;
-                *zni = ci.1;
-            })
+        for chunk in [&mut zp[start..stop], &mut zn[start..stop]] {
+            chunk.sort_unstable_by(|a, b| Float::abs(a.im).partial_cmp(&Float::abs(b.im)).unwrap());
+        }
     }
 
     // Check that negatives match positives
-- 
2.43.0


From 9fa27c32957873e08af8cc0442c4056c10cacc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:48 +0000
Subject: [PATCH 12/23] fix: roots that are real up to rounding kept an
 imaginary part

---
 sci-rs/src/signal/filter/design/cplx.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sci-rs/src/signal/filter/design/cplx.rs b/sci-rs/src/signal/filter/design/cplx.rs
index 5db71b7..c681497 100644
--- a/sci-rs/src/signal/filter/design/cplx.rs
+++ b/sci-rs/src/signal/filter/design/cplx.rs
@@ -73,6 +73,10 @@ where
     let (zr, zc): (Vec<_>, Vec<_>) = z
         .iter()
         .partition(|zi| Float::abs(zi.im) <= tol * (*zi * *zi).sqrt().re);
+    let zr: Vec<Complex<F>> = zr
+        .into_iter()
+        .map(|zi: Complex<F>| Complex::new(zi.re, F::zero()))
+        .collect();
 
     if zr.len() == z.len() {
         // Input is entirely real
-- 
2.43.0


From 77941075913d179a0512684909daec665c6a642a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:48 +0000
Subject: [PATCH 13/23] fix: zpk2tf misaligned numerator and denominator of
 different degrees

---
 sci-rs/src/signal/filter/design/zpk2tf.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sci-rs/src/signal/filter/design/zpk2tf.rs b/sci-rs/src/signal/filter/design/zpk2tf.rs
index c4beebc..b6a0948 100644
--- a/sci-rs/src/signal/filter/design/zpk2tf.rs
+++ b/sci-rs/src/signal/filter/design/zpk2tf.rs
@@ -84,13 +84,14 @@ where
     let bv = poly2ba(b, z);
     let av = poly2ba(a, p);
 
+    // Both have order + 1 coefficients: align the powers of the shorter polynomial
     let mut b = vec![F::zero(); order + 1];
     bv.into_iter()
-        .zip(b.iter_mut())
+        .zip(b.iter_mut().skip(p.len().saturating_sub(z.len())))
         .for_each(|(bvi, bi)| *bi = bvi.real());
     let mut a = vec![F::zero(); order + 1];
     av.into_iter()
-        .zip(a.iter_mut())
+        .zip(a.iter_mut().skip(z.len().saturating_sub(p.len())))
         .for_each(|(avi, ai)| *ai = avi.real());
 
     BaFormatFilter { b, a }
-- 
2.43.0


From f000e496901b4735316b757d108d5003cff56806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:49 +0000
Subject: [PATCH 14/23] fix: analog zpk2sos failed for odd orders and
 misaligned section numerators

---
 sci-rs/src/signal/filter/design/zpk2sos.rs | 42 +++++++++++++---------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/sci-rs/src/signal/filter/design/zpk2sos.rs b/sci-rs/src/signal/filter/design/zpk2sos.rs
index 6535170..f1d6900 100644
--- a/sci-rs/src/signal/filter/design/zpk2sos.rs
+++ b/sci-rs/src/signal/filter/design/zpk2sos.rs
@@ -169,22 +169,17 @@ where
         // Pair that pole with a zero
         if p1.im.is_zero() && p.iter().filter(|pi| pi.im.is_zero()).count() == 0 {
             // Special case (1): last remaining real pole
-            let sos_si = if matches!(pairing, ZpkPairing::Minimal) {
+            let mut z_si = Vec::new();
+            let mut p_si = vec![p1];
+            if z.iter().any(|zi| zi.im.is_zero()) {
                 let z1_idx = nearest_real_complex_idx_dyn(&z, p1, WhichNearestComplex::Real);
-                let z1 = z.remove(z1_idx);
-                single_zpksos_dyn(
-                    vec![z1, Complex::zero()],
-                    vec![p1, Complex::zero()],
-                    F::one(),
-                )
-            } else if !z.is_empty() {
-                let z1_idx = nearest_real_complex_idx_dyn(&z, p1, WhichNearestComplex::Real);
-                let z1 = z.remove(z1_idx);
-                single_zpksos_dyn(vec![z1], vec![p1], F::one())
-            } else {
-                single_zpksos_dyn(Vec::new(), vec![p1], F::one())
-            };
-            sos.push(sos_si);
+                z_si.push(z.remove(z1_idx));
+            }
+            if !analog {
+                z_si.push(Complex::zero());
+                p_si.push(Complex::zero());
+            }
+            sos.push(single_zpksos_dyn(z_si, p_si, F::one()));
         } else if p.len() + 1 == z.len()
             && !p1.im.is_zero()
             && p.iter().filter(|pi| pi.im.is_zero()).count() == 1
@@ -215,7 +210,14 @@ where
 
             // Find closest zero
             if !z.is_empty() {
-                let z1_idx = nearest_real_complex_idx_dyn(&z, p1, WhichNearestComplex::Any);
+                // A lone real zero would leave its section half used: pair it last
+                let reals = z.iter().filter(|zi| zi.im.is_zero()).count();
+                let which = if reals == 1 && z.len() > 1 {
+                    WhichNearestComplex::Complex
+                } else {
+                    WhichNearestComplex::Any
+                };
+                let z1_idx = nearest_real_complex_idx_dyn(&z, p1, which);
                 let z1 = z.remove(z1_idx);
 
                 if !z1.im.is_zero() {
@@ -295,5 +297,11 @@ where
             ba.a.len()
         );
     }
-    Sos::new([ba.b[0], ba.b[1], ba.b[2]], [ba.a[0], ba.a[1], ba.a[2]])
+    let mut b = [ba.b[0], ba.b[1], ba.b[2]];
+    let mut a = [ba.a[0], ba.a[1], ba.a[2]];
+    // A section of lower order has its coefficients at the end
+    let lower = 2 - p.len().max(z.len());
+    b.rotate_right(lower);
+    a.rotate_right(lower);
+    Sos::new(b, a)
 }
-- 
2.43.0


From 5b05b16235f9825c29a6b7d71fc3962adb5ef360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:00 +0000
Subject: [PATCH 15/23] fix: bilinear gain overflowed to NaN for high orders
 near Nyquist

---
 sci-rs/src/signal/filter/design/bilinear_zpk.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/sci-rs/src/signal/filter/design/bilinear_zpk.rs b/sci-rs/src/signal/filter/design/bilinear_zpk.rs
index 103809b..38f7f79 100644
--- a/sci-rs/src/signal/filter/design/bilinear_zpk.rs
+++ b/sci-rs/src/signal/filter/design/bilinear_zpk.rs
@@ -94,17 +94,15 @@ where
         .collect::<Vec<_>>();
 
     // Compensate for gain change
-    let num = zpk
-        .z
-        .iter()
-        .map(|zi| fs2 - *zi)
-        .fold(Complex::new(F::one(), F::zero()), |acc, zi| acc * zi);
-    let denom = zpk
+    // (factor by factor, as the products alone overflow for high orders)
+    let one = Complex::new(F::one(), F::zero());
+    let gain = zpk
         .p
         .iter()
-        .map(|pi| fs2 - *pi)
-        .fold(Complex::new(F::one(), F::zero()), |acc, pi| acc * pi);
-    let k_z = zpk.k * (num / denom).real();
+        .enumerate()
+        .map(|(i, pi)| zpk.z.get(i).map_or(one, |zi| fs2 - *zi) / (fs2 - *pi))
+        .fold(one, |acc, gi| acc * gi);
+    let k_z = zpk.k * gain.real();
 
     ZpkFormatFilter::new(z_z, p_z, k_z)
 }
-- 
2.43.0


From d12e8a53ec45a8b4816b8eb9b6a296dca29dbd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:54 +0000
Subject: [PATCH 16/23] fix: resample keeps the mean when one of the lengths is
 a single sample

---
 sci-rs/src/signal/resample.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sci-rs/src/signal/resample.rs b/sci-rs/src/signal/resample.rs
index 9296c1d..fac8785 100644
--- a/sci-rs/src/signal/resample.rs
+++ b/sci-rs/src/signal/resample.rs
@@ -46,7 +46,9 @@ pub fn resample<F: Float + FftNum>(x: &[F], n: usize) -> Vec<F> {
     let mut y = vec![Complex::zero(); n];
     let bins = std::cmp::min(x.len(), n);
     let half_spectrum = bins / 2;
-    y[..half_spectrum].copy_from_slice(&x[..half_spectrum]);
+    // A single bin is the mean, which every length can represent
+    let low_bins = half_spectrum.max(bins.min(1));
+    y[..low_bins].copy_from_slice(&x[..low_bins]);
     y[n - half_spectrum..].copy_from_slice(&x[x.len() - half_spectrum..]);
 
     // Compute iFFT of y
-- 
2.43.0


From 7e55ae7f20f2c5a070883d6afba7c54853254a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:59 +0000
Subject: [PATCH 17/23] fix: square wave with full duty cycle is +1 just before
 a period starts

---
 sci-rs/src/signal/wave/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sci-rs/src/signal/wave/mod.rs b/sci-rs/src/signal/wave/mod.rs
index 0e67155..0f0309f 100644
--- a/sci-rs/src/signal/wave/mod.rs
+++ b/sci-rs/src/signal/wave/mod.rs
@@ -59,10 +59,15 @@ where
     let duty_threshold = F::two_pi() * duty;
     t.mapv(|t| {
         let x = t % F::two_pi();
-        // Because % is the reminder and not the modulo operator, x can be negative.
-        let x = if x < F::zero() { x + F::two_pi() } else { x };
-        debug_assert!(F::zero() <= x && x <= F::two_pi());
-        if x < duty_threshold {
+        // Because % is the reminder and not the modulo operator, x can be negative. Shift the
+        // threshold and not x, which could round up to the end of the period.
+        debug_assert!(-F::two_pi() <= x && x <= F::two_pi());
+        let threshold = if x < F::zero() {
+            duty_threshold.clone() - F::two_pi()
+        } else {
+            duty_threshold.clone()
+        };
+        if x < threshold {
             F::one()
         } else {
             -F::one()
-- 
2.43.0


From c38fec0fa83804de09ad5e5d3bcd213dde08ddea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:05 +0000
Subject: [PATCH 18/23] fix: median of an even count overflowed when adding the
 middle elements

---
 sci-rs/src/stats.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/sci-rs/src/stats.rs b/sci-rs/src/stats.rs
index 95cc980..b558dc4 100644
--- a/sci-rs/src/stats.rs
+++ b/sci-rs/src/stats.rs
@@ -43,6 +43,24 @@ where
     }
 }
 
+// Mean of `a <= b`, rounded towards zero for integers, without overflowing in between
+#[cfg(feature = "alloc")]
+fn midpoint<T>(a: T, b: T) -> T
+where
+    T: Num + NumCast + PartialOrd + Copy,
+{
+    let two = T::from(2).unwrap();
+    if a == b {
+        a
+    } else if a < T::zero() && b >= T::zero() {
+        (a + b) / two
+    } else if a < T::zero() {
+        b - (b - a) / two
+    } else {
+        a + (b - a) / two
+    }
+}
+
 ///
 /// Compute the median of the signal, `y`
 ///
@@ -99,7 +117,7 @@ where
         (quickselect(&y, n / 2), n)
     } else {
         (
-            (quickselect(&y, n / 2 - 1) + quickselect(&y, n / 2)) / T::from(2).unwrap(),
+            midpoint(quickselect(&y, n / 2 - 1), quickselect(&y, n / 2)),
             n,
         )
     }
-- 
2.43.0


From de237a28bde88f3eccf52c9f6e033208cede19b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:08 +0000
Subject: [PATCH 19/23] fix: band-pass transform lost the smaller root of wide
 bands (conversion to sections failed in the default build)

---
 sci-rs/src/signal/filter/design/lp2bp_zpk.rs | 28 +++++++++++++++-----
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/sci-rs/src/signal/filter/design/lp2bp_zpk.rs b/sci-rs/src/signal/filter/design/lp2bp_zpk.rs
index 35b9b66..f1c848f 100644
--- a/sci-rs/src/signal/filter/design/lp2bp_zpk.rs
+++ b/sci-rs/src/signal/filter/design/lp2bp_zpk.rs
@@ -1,6 +1,6 @@
 use core::{f64::consts::PI, ops::Mul};
 use nalgebra::{Complex, ComplexField, RealField};
-use num_traits::Float;
+use num_traits::{Float, Zero};
 
 #[cfg(feature = "alloc")]
 use super::{
@@ -86,24 +86,38 @@ where
     // Duplicate poles and zeros and shift from baseband to +wo and -wo
     let wo2 = Complex::new(Float::powi(wo, 2), F::zero());
 
+    // The roots a + b and a - b of one pair multiply to wo^2: the smaller follows from the larger,
+    // as the difference cancels for wide bands
+    let shift = |a: &Complex<F>| {
+        let b = (a.powi(2) - wo2).sqrt();
+        let (up, down) = (a + b, a - b);
+        if up.is_zero() && down.is_zero() {
+            (up, down)
+        } else if up.norm_sqr() >= down.norm_sqr() {
+            (up, wo2 / up)
+        } else {
+            (wo2 / down, down)
+        }
+    };
+
     let z_bp_t = z_lp
         .iter()
-        .map(|zi| (*zi, (zi.powi(2) - wo2).sqrt()))
+        .map(shift)
         .collect::<Vec<(Complex<F>, Complex<F>)>>();
     let mut z_bp = z_bp_t
         .iter()
-        .map(|(a, b)| a + b)
-        .chain(z_bp_t.iter().map(|(a, b)| a - b))
+        .map(|(up, _)| *up)
+        .chain(z_bp_t.iter().map(|(_, down)| *down))
         .collect::<Vec<Complex<F>>>();
 
     let p_bp_t = p_lp
         .iter()
-        .map(|zi| (*zi, (zi.powi(2) - wo2).sqrt()))
+        .map(shift)
         .collect::<Vec<(Complex<F>, Complex<F>)>>();
     let p_bp = p_bp_t
         .iter()
-        .map(|(a, b)| a + b)
-        .chain(p_bp_t.iter().map(|(a, b)| a - b))
+        .map(|(up, _)| *up)
+        .chain(p_bp_t.iter().map(|(_, down)| *down))
         .collect::<Vec<Complex<F>>>();
 
     // Move degree zeros to origin, leaving degree zeros at infinity for BPF
-- 
2.43.0


From 2c86366ab97235ac7c9a94ef7d6410e00f6c557d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:20 +0000
Subject: [PATCH 20/23] fix: conjugates of very different magnitude were not
 matched when their real parts differ by rounding

---
 sci-rs/src/signal/filter/design/cplx.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sci-rs/src/signal/filter/design/cplx.rs b/sci-rs/src/signal/filter/design/cplx.rs
index c681497..bde2292 100644
--- a/sci-rs/src/signal/filter/design/cplx.rs
+++ b/sci-rs/src/signal/filter/design/cplx.rs
@@ -98,7 +98,7 @@ where
         .chain(
             zp.iter()
                 .zip(zp.iter().skip(1))
-                .map(|(a, b)| (b.re - a.re) <= tol * a.abs())
+                .map(|(a, b)| (b.re - a.re) <= tol * Float::max(a.abs(), b.abs()))
                 .chain(zero_arr.iter().cloned()),
         )
         .collect();
-- 
2.43.0


From c6d7cd11db2216b789477292ea72c77a07cbdf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:35 +0000
Subject: [PATCH 21/23] fix: reject NaN critical frequencies in iirfilter_dyn

---
 sci-rs/src/signal/filter/design/iirfilter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sci-rs/src/signal/filter/design/iirfilter.rs b/sci-rs/src/signal/filter/design/iirfilter.rs
index 8f2162b..45d207d 100644
--- a/sci-rs/src/signal/filter/design/iirfilter.rs
+++ b/sci-rs/src/signal/filter/design/iirfilter.rs
@@ -75,7 +75,7 @@ where
         });
     }
 
-    if wn.iter().any(|wi| *wi <= F::zero()) {
+    if wn.iter().any(|wi| Float::is_nan(*wi) || *wi <= F::zero()) {
         panic!("filter critical frequencies must be greater than 0");
     }
 
-- 
2.43.0


From f28c0130c4c7419085ed63061fea9a3bcc34cdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:08 +0000
Subject: [PATCH 22/23] fix: band-stop transform lost the smaller pole of wide
 bands (pole on the stability boundary)

---
 sci-rs/src/signal/filter/design/lp2bs_zpk.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/sci-rs/src/signal/filter/design/lp2bs_zpk.rs b/sci-rs/src/signal/filter/design/lp2bs_zpk.rs
index 14ba826..97ba393 100644
--- a/sci-rs/src/signal/filter/design/lp2bs_zpk.rs
+++ b/sci-rs/src/signal/filter/design/lp2bs_zpk.rs
@@ -1,6 +1,6 @@
 use core::{f64::consts::PI, ops::Mul};
 use nalgebra::{Complex, ComplexField, RealField};
-use num_traits::Float;
+use num_traits::{Float, Zero};
 
 #[cfg(feature = "alloc")]
 use super::{
@@ -107,15 +107,27 @@ where
         )
         .collect::<Vec<Complex<F>>>();
 
+    // The roots a + b and a - b of one pair multiply to wo^2: the smaller follows from the larger,
+    // as the difference cancels for wide bands
     let p_bs_t = p_hp
         .iter()
-        .map(|zi| (*zi, (zi.powi(2) - wo2).sqrt()))
+        .map(|a| {
+            let b = (a.powi(2) - wo2).sqrt();
+            let (up, down) = (a + b, a - b);
+            if up.is_zero() && down.is_zero() {
+                (up, down)
+            } else if up.norm_sqr() >= down.norm_sqr() {
+                (up, wo2 / up)
+            } else {
+                (wo2 / down, down)
+            }
+        })
         .collect::<Vec<(Complex<F>, Complex<F>)>>();
 
     let p_bs = p_bs_t
         .iter()
-        .map(|(a, b)| a + b)
-        .chain(p_bs_t.iter().map(|(a, b)| a - b))
+        .map(|(up, _)| *up)
+        .chain(p_bs_t.iter().map(|(_, down)| *down))
         .collect::<Vec<Complex<F>>>();
 
     //Move any zeros that were at infinity to the center of the stopband
-- 
2.43.0


From 8c8f0e1033505569c757f311e145225d36caee42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:08 +0000
Subject: [PATCH 23/23] fix: median recursed once per discarded element,
 exhausting stack and memory on long inputs

---
 sci-rs/src/stats.rs | 59 ++++++++++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 28 deletions(-)

diff --git a/sci-rs/src/stats.rs b/sci-rs/src/stats.rs
index b558dc4..1e43ed0 100644
--- a/sci-rs/src/stats.rs
+++ b/sci-rs/src/stats.rs
@@ -12,34 +12,37 @@ where
     B: Borrow<T>,
     T: Num + NumCast + PartialOrd + Copy,
 {
-    use num_traits::{Num, NumCast};
-
-    let n = y.len();
-    if n == 1 {
-        return *y[0].borrow();
-    }
-
-    let pivot = y.get(n / 2).unwrap().borrow();
-    let lower = y
-        .iter()
-        .filter(|yi| *(*yi).borrow() < *pivot)
-        .map(|yi| *yi.borrow())
-        .collect::<Vec<_>>();
-    let lowers = lower.len();
-    let upper = y
-        .iter()
-        .filter(|yi| *(*yi).borrow() > *pivot)
-        .map(|yi| *yi.borrow())
-        .collect::<Vec<_>>();
-    let uppers = upper.len();
-    let pivots = n - lowers - uppers;
-
-    if k < lowers {
-        quickselect(&lower, k)
-    } else if k < lowers + pivots {
-        *pivot
-    } else {
-        quickselect(&upper, k - lowers - pivots)
+    let mut y = y.iter().map(|yi| *yi.borrow()).collect::<Vec<T>>();
+    let mut k = k;
+    loop {
+        let n = y.len();
+        if n == 1 {
+            return y[0];
+        }
+
+        let pivot = y[n / 2];
+        let lower = y
+            .iter()
+            .filter(|yi| **yi < pivot)
+            .copied()
+            .collect::<Vec<_>>();
+        let lowers = lower.len();
+        let upper = y
+            .iter()
+            .filter(|yi| **yi > pivot)
+            .copied()
+            .collect::<Vec<_>>();
+        let uppers = upper.len();
+        let pivots = n - lowers - uppers;
+
+        if k < lowers {
+            y = lower;
+        } else if k < lowers + pivots {
+            return pivot;
+        } else {
+            y = upper;
+            k -= lowers + pivots;
+        }
     }
 }
 
-- 
2.43.0

