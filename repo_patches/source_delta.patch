From 26aa308f6cd61b05571e76e8fed7f0632a36a9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 01/16] fix: expm1f overflow threshold

expm1f returned infinity, and sinhf NaN, for inputs between 88.7217 and
log(FLT_MAX) although the result is representable.
---
 libm/src/math/expm1f.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libm/src/math/expm1f.rs b/libm/src/math/expm1f.rs
index 12c6f53..a347ce6 100644
--- a/libm/src/math/expm1f.rs
+++ b/libm/src/math/expm1f.rs
@@ -13,7 +13,7 @@
  * ====================================================
  */
 
-const O_THRESHOLD: f32 = 8.8721679688e+01; /* 0x42b17180 */
+const O_THRESHOLD: f32 = 8.8722831726e+01; /* 0x42b17217 */
 const LN2_HI: f32 = 6.9313812256e-01; /* 0x3f317180 */
 const LN2_LO: f32 = 9.0580006145e-06; /* 0x3717f7d1 */
 const INV_LN2: f32 = 1.4426950216e+00; /* 0x3fb8aa3b */
-- 
2.43.0


From fbfc127adce7887bb81ff81de4bbe9a00b236974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 02/16] fix: acosh and acoshf of numbers below -1

The branches for 2 <= x < 0x1p26 (0x1p12) also caught negative x, where
cancellation gave arbitrary results instead of NaN.
---
 libm/src/math/acosh.rs  | 9 +++++----
 libm/src/math/acoshf.rs | 6 +++---
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/libm/src/math/acosh.rs b/libm/src/math/acosh.rs
index d1f5b9f..e5e3bce 100644
--- a/libm/src/math/acosh.rs
+++ b/libm/src/math/acosh.rs
@@ -10,18 +10,19 @@ const LN2: f64 = 0.693147180559945309417232121458176568; /* 0x3fe62e42,  0xfefa3
 #[cfg_attr(all(test, assert_no_panic), no_panic::no_panic)]
 pub fn acosh(x: f64) -> f64 {
     let u = x.to_bits();
-    let e = ((u >> 52) as usize) & 0x7ff;
+    /* biased exponent, with the sign above it */
+    let e = (u >> 52) as usize;
 
     /* x < 1 domain error is handled in the called functions */
 
-    if e < 0x3ff + 1 {
+    if e & 0x7ff < 0x3ff + 1 {
         /* |x| < 2, up to 2ulp error in [1,1.125] */
         return log1p(x - 1.0 + sqrt((x - 1.0) * (x - 1.0) + 2.0 * (x - 1.0)));
     }
     if e < 0x3ff + 26 {
-        /* |x| < 0x1p26 */
+        /* 2 <= x < 0x1p26 */
         return log(2.0 * x - 1.0 / (x + sqrt(x * x - 1.0)));
     }
-    /* |x| >= 0x1p26 or nan */
+    /* x >= 0x1p26 or x <= -2 or nan */
     return log(x) + LN2;
 }
diff --git a/libm/src/math/acoshf.rs b/libm/src/math/acoshf.rs
index ad3455f..fadd422 100644
--- a/libm/src/math/acoshf.rs
+++ b/libm/src/math/acoshf.rs
@@ -17,10 +17,10 @@ pub fn acoshf(x: f32) -> f32 {
         /* up to 2ulp error in [1,1.125] */
         return log1pf(x - 1.0 + sqrtf((x - 1.0) * (x - 1.0) + 2.0 * (x - 1.0)));
     }
-    if a < 0x3f800000 + (12 << 23) {
-        /* |x| < 0x1p12 */
+    if u < 0x3f800000 + (12 << 23) {
+        /* 2 <= x < 0x1p12 */
         return logf(2.0 * x - 1.0 / (x + sqrtf(x * x - 1.0)));
     }
-    /* x >= 0x1p12 */
+    /* x >= 0x1p12 or x <= -2 or nan */
     return logf(x) + LN2;
 }
-- 
2.43.0


From a2795a7e38aaeaaf91d3029e555ac684e638e1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 03/16] fix: premature overflow of powf for huge exponents

For |y| just above 2^27 the result for x in 0x3f7ffff4..=0x3f7ffff7 is
representable.
---
 libm/src/math/powf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libm/src/math/powf.rs b/libm/src/math/powf.rs
index 839c6c2..b29e8d0 100644
--- a/libm/src/math/powf.rs
+++ b/libm/src/math/powf.rs
@@ -181,7 +181,7 @@ pub fn powf(x: f32, y: f32) -> f32 {
     if iy > 0x4d000000 {
         /* if |y| > 2**27 */
         /* over/underflow if x is not close to one */
-        if ix < 0x3f7ffff8 {
+        if ix < 0x3f7ffff4 {
             return if hy < 0 { sn * HUGE * HUGE } else { sn * TINY * TINY };
         }
 
-- 
2.43.0


From c678ed1d2c45b5a6646f8ec9e8de5f0a32f706d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 04/16] fix: accuracy of pow for |y| > 2^31

The product IVLN2_H * t is assumed to be exact; t has up to 32 significant
bits, so IVLN2_H may have only the 21 that the comment at its use states.
---
 libm/src/math/pow.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libm/src/math/pow.rs b/libm/src/math/pow.rs
index 80b2a24..8556e97 100644
--- a/libm/src/math/pow.rs
+++ b/libm/src/math/pow.rs
@@ -86,8 +86,8 @@ const CP: f64 = 9.61796693925975554329e-01; /* 0x3feec709_dc3a03fd =2/(3ln2) */
 const CP_H: f64 = 9.61796700954437255859e-01; /* 0x3feec709_e0000000 =(float)cp */
 const CP_L: f64 = -7.02846165095275826516e-09; /* 0xbe3e2fe0_145b01f5 =tail of cp_h*/
 const IVLN2: f64 = 1.44269504088896338700e+00; /* 0x3ff71547_652b82fe =1/ln2 */
-const IVLN2_H: f64 = 1.44269502162933349609e+00; /* 0x3ff71547_60000000 =24b 1/ln2*/
-const IVLN2_L: f64 = 1.92596299112661746887e-08; /* 0x3e54ae0b_f85ddf44 =1/ln2 tail*/
+const IVLN2_H: f64 = 1.44269466400146484375e+00; /* 0x3ff71547_00000000 =21b 1/ln2*/
+const IVLN2_L: f64 = 3.76887498563609911454e-07; /* 0x3e994ae0_bf85ddf4 =1/ln2 tail*/
 
 /// Returns `x` to the power of `y` (f64).
 #[cfg_attr(all(test, assert_no_panic), no_panic::no_panic)]
-- 
2.43.0


From 26ae79ce843355b7fd7bbf4ac23671235ccab79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 05/16] fix: sticky bit in fma when the addend is much larger

When the product is shifted right below the addend, the sticky bit was
computed from the already shifted low half instead of the bits shifted out,
so the result could be rounded in the wrong direction.
---
 libm/src/math/fma.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libm/src/math/fma.rs b/libm/src/math/fma.rs
index e0b3347..0141d42 100644
--- a/libm/src/math/fma.rs
+++ b/libm/src/math/fma.rs
@@ -93,9 +93,10 @@ where
                 // Exactly `sbits`, nothing to do
             } else if d < sbits {
                 // Remaining shift fits within `sbits`. Leave `z` in place, shift `x * y`
+                let sticky = IntTy::<F>::from((rlo << (sbits - d)) != zero);
                 rlo = (rhi << (sbits - d)) | (rlo >> d);
                 // Set the sticky bit
-                rlo |= IntTy::<F>::from((rlo << (sbits - d)) != zero);
+                rlo |= sticky;
                 rhi = rhi >> d;
             } else {
                 // `z`'s magnitude is enough that `x * y` is irrelevant. It was nonzero, so set
-- 
2.43.0


From 0ce76e9f1234a2ed585560965dea4b3531e02f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 06/16] fix: overflow of huge exponents in hex float parsing

The exponent accumulator overflowed after saturating, the rounding step
overflowed i32 for exponents near its limits, and huge f128 exponents were
shifted out so that the result was finite.
---
 libm/src/math/support/hex_float.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/libm/src/math/support/hex_float.rs b/libm/src/math/support/hex_float.rs
index 819e2f5..14efb47 100644
--- a/libm/src/math/support/hex_float.rs
+++ b/libm/src/math/support/hex_float.rs
@@ -154,7 +154,10 @@ const fn parse_finite(
     // The parsed value is X = sig * 2^exp
     // Expressed as a multiple U of the smallest subnormal value:
     // X = U * 2^min_lsb, so U = sig * 2^(exp-min_lsb)
-    let uexp = (exp - min_lsb) as u128;
+    // Saturate such that a huge exponent is not shifted out; the result is an overflow anyway.
+    let max_uexp = (1i32 << exp_bits) - 1;
+    let uexp = exp - min_lsb;
+    let uexp = if uexp > max_uexp { max_uexp } else { uexp } as u128;
     let uexp = uexp << sig_bits;
 
     // Note that it is possible for the exponent bits to equal 2 here
@@ -290,7 +293,7 @@ const fn parse_hex(mut b: &[u8]) -> Result<Parsed, HexFloatParseError> {
         };
         some_digits = true;
         pexp = pexp.saturating_mul(10);
-        pexp += digit as u32;
+        pexp = pexp.saturating_add(digit as u32);
     }
 
     if !some_digits {
@@ -305,10 +308,11 @@ const fn parse_hex(mut b: &[u8]) -> Result<Parsed, HexFloatParseError> {
             e = (exp as i64) + (pexp as i64);
         };
 
-        exp = if e < i32::MIN as i64 {
-            i32::MIN
-        } else if e > i32::MAX as i64 {
-            i32::MAX
+        // Saturate, with headroom for the adjustments when the value is rounded
+        exp = if e < (i32::MIN / 2) as i64 {
+            i32::MIN / 2
+        } else if e > (i32::MAX / 2) as i64 {
+            i32::MAX / 2
         } else {
             e as i32
         };
-- 
2.43.0


From e012eb6922d6d4cf0cdebc9e11a38962ecfb54fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 07/16] fix: inexact status of ceil, floor and trunc for powers
 of two below one

Only zero is exact when the magnitude is below one; 0.5 has no significand
bits set but does not convert exactly.
---
 libm/src/math/generic/ceil.rs  | 2 +-
 libm/src/math/generic/floor.rs | 2 +-
 libm/src/math/generic/trunc.rs | 3 +--
 3 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/libm/src/math/generic/ceil.rs b/libm/src/math/generic/ceil.rs
index 5c5bb47..dfe93f7 100644
--- a/libm/src/math/generic/ceil.rs
+++ b/libm/src/math/generic/ceil.rs
@@ -47,7 +47,7 @@ pub fn ceil_status<F: Float>(x: F) -> FpResult<F> {
         F::from_bits(ix)
     } else {
         // |x| < 1.0, raise an inexact exception since truncation will happen (unless x == 0).
-        if ix & F::SIG_MASK == F::Int::ZERO {
+        if ix << 1 == zero {
             status = Status::OK;
         } else {
             status = Status::INEXACT;
diff --git a/libm/src/math/generic/floor.rs b/libm/src/math/generic/floor.rs
index 2438046..8240f9b 100644
--- a/libm/src/math/generic/floor.rs
+++ b/libm/src/math/generic/floor.rs
@@ -47,7 +47,7 @@ pub fn floor_status<F: Float>(x: F) -> FpResult<F> {
         F::from_bits(ix)
     } else {
         // |x| < 1.0, raise an inexact exception since truncation will happen.
-        if ix & F::SIG_MASK == F::Int::ZERO {
+        if ix << 1 == zero {
             status = Status::OK;
         } else {
             status = Status::INEXACT;
diff --git a/libm/src/math/generic/trunc.rs b/libm/src/math/generic/trunc.rs
index 25414ec..4eb65c9 100644
--- a/libm/src/math/generic/trunc.rs
+++ b/libm/src/math/generic/trunc.rs
@@ -36,9 +36,8 @@ pub fn trunc_status<F: Float>(x: F) -> FpResult<F> {
     // C5: Otherwise the result is inexact and we will truncate. Raise `FE_INEXACT`, mask the
     // result, and return.
 
-    let status = if xi & F::SIG_MASK == F::Int::ZERO { Status::OK } else { Status::INEXACT };
     xi &= mask;
-    FpResult::new(F::from_bits(xi), status)
+    FpResult::new(F::from_bits(xi), Status::INEXACT)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 17bcc181aa82868fdc0659a098b54571e655a4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 08/16] fix: ordering and limits of the 256-bit integers

The derived comparison looked at the low limb first and ignored the sign;
i256::MAX had its low bit clear and sign bit set, and i256 was marked as
unsigned.
---
 libm/src/math/support/big.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/libm/src/math/support/big.rs b/libm/src/math/support/big.rs
index eae0823..30bb0f7 100644
--- a/libm/src/math/support/big.rs
+++ b/libm/src/math/support/big.rs
@@ -3,7 +3,7 @@
 #[cfg(test)]
 mod tests;
 
-use core::ops;
+use core::{cmp, ops};
 
 use super::{DInt, HInt, Int, MinInt};
 
@@ -11,7 +11,7 @@ const U128_LO_MASK: u128 = u64::MAX as u128;
 
 /// A 256-bit unsigned integer represented as two 128-bit native-endian limbs.
 #[allow(non_camel_case_types)]
-#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
+#[derive(Clone, Copy, Debug, PartialEq)]
 pub struct u256 {
     pub lo: u128,
     pub hi: u128,
@@ -29,7 +29,7 @@ impl u256 {
 
 /// A 256-bit signed integer represented as two 128-bit native-endian limbs.
 #[allow(non_camel_case_types)]
-#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
+#[derive(Clone, Copy, Debug, PartialEq)]
 pub struct i256 {
     pub lo: u128,
     pub hi: u128,
@@ -61,12 +61,12 @@ impl MinInt for i256 {
 
     type Unsigned = u256;
 
-    const SIGNED: bool = false;
+    const SIGNED: bool = true;
     const BITS: u32 = 256;
     const ZERO: Self = Self { lo: 0, hi: 0 };
     const ONE: Self = Self { lo: 1, hi: 0 };
     const MIN: Self = Self { lo: 0, hi: 1 << 127 };
-    const MAX: Self = Self { lo: u128::MAX, hi: u128::MAX << 1 };
+    const MAX: Self = Self { lo: u128::MAX, hi: u128::MAX >> 1 };
 }
 
 macro_rules! impl_common {
@@ -104,6 +104,18 @@ macro_rules! impl_common {
 impl_common!(i256);
 impl_common!(u256);
 
+impl PartialOrd for u256 {
+    fn partial_cmp(&self, rhs: &Self) -> Option<cmp::Ordering> {
+        (self.hi, self.lo).partial_cmp(&(rhs.hi, rhs.lo))
+    }
+}
+
+impl PartialOrd for i256 {
+    fn partial_cmp(&self, rhs: &Self) -> Option<cmp::Ordering> {
+        (self.hi as i128, self.lo).partial_cmp(&(rhs.hi as i128, rhs.lo))
+    }
+}
+
 impl ops::Add<Self> for u256 {
     type Output = Self;
 
-- 
2.43.0


From 971a3f269d9288ae87f1bf89729882b544cf9f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 09/16] fix: zero is not subnormal

---
 libm/src/math/support/float_traits.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libm/src/math/support/float_traits.rs b/libm/src/math/support/float_traits.rs
index fac1048..9c8f8a0 100644
--- a/libm/src/math/support/float_traits.rs
+++ b/libm/src/math/support/float_traits.rs
@@ -125,7 +125,8 @@ pub trait Float:
     /// Returns if `self` is subnormal.
     #[allow(dead_code)]
     fn is_subnormal(self) -> bool {
-        (self.to_bits() & Self::EXP_MASK) == Self::Int::ZERO
+        let bits = self.to_bits();
+        (bits & Self::EXP_MASK) == Self::Int::ZERO && (bits & Self::SIG_MASK) != Self::Int::ZERO
     }
 
     /// Returns the exponent, not adjusting for bias, not accounting for subnormals or zero.
-- 
2.43.0


From 77519756aa0136ca99bd887a5f4bddf3391ec894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 10/16] fix: fmaximum_num of negative zero and NaN

---
 libm/src/math/generic/fmaximum_num.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/libm/src/math/generic/fmaximum_num.rs b/libm/src/math/generic/fmaximum_num.rs
index f7efdde..3607986 100644
--- a/libm/src/math/generic/fmaximum_num.rs
+++ b/libm/src/math/generic/fmaximum_num.rs
@@ -15,12 +15,14 @@ use super::super::Float;
 
 #[inline]
 pub fn fmaximum_num<F: Float>(x: F, y: F) -> F {
-    let res =
-        if x.is_nan() || x < y || (x.to_bits() == F::NEG_ZERO.to_bits() && y.is_sign_positive()) {
-            y
-        } else {
-            x
-        };
+    let res = if x.is_nan()
+        || x < y
+        || (x.to_bits() == F::NEG_ZERO.to_bits() && y.to_bits() == F::ZERO.to_bits())
+    {
+        y
+    } else {
+        x
+    };
 
     // Canonicalize
     res * F::ONE
-- 
2.43.0


From 84e90b5ed819b5508626b17836e6c6d440b384a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:18 +0000
Subject: [PATCH 11/16] fix: double rounding of subnormal fmaf results

---
 libm/src/math/fma_wide.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libm/src/math/fma_wide.rs b/libm/src/math/fma_wide.rs
index 08b78b0..79bd94d 100644
--- a/libm/src/math/fma_wide.rs
+++ b/libm/src/math/fma_wide.rs
@@ -45,12 +45,14 @@ where
     let zb: B = z.widen();
 
     let prec_diff = B::SIG_BITS - F::SIG_BITS;
-    let excess_prec = ui & ((one << prec_diff) - one);
-    let halfway = one << (prec_diff - 1);
+    let zero = IntTy::<B>::ZERO;
+    // All bits below the halfway bit of a normal result. The halfway bit of a subnormal result is
+    // higher, so these are zero in every halfway case.
+    let excess_prec = ui & ((one << (prec_diff - 1)) - one);
 
     // Common case: the larger precision is fine if...
     // This is not a halfway case
-    if excess_prec != halfway
+    if excess_prec != zero
         // Or the result is NaN
         || re == B::EXP_SAT
         // Or the result is exact
@@ -78,7 +80,7 @@ where
         return FpResult { val: result.narrow(), status };
     }
 
-    let neg = ui >> (B::BITS - 1) != IntTy::<B>::ZERO;
+    let neg = ui >> (B::BITS - 1) != zero;
     let err = if neg == (zb > xy) { xy - result + zb } else { zb - result + xy };
     if neg == (err < B::ZERO) {
         ui += one;
-- 
2.43.0


From 4c15c97271360b0375b2d19da503a955f47be472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 12/16] Make status-returning functions visible with
 unstable-public-internals

---
 libm/src/math/generic/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libm/src/math/generic/mod.rs b/libm/src/math/generic/mod.rs
index 3584635..94d4fc3 100644
--- a/libm/src/math/generic/mod.rs
+++ b/libm/src/math/generic/mod.rs
@@ -36,3 +36,7 @@ pub use round::round;
 pub use scalbn::scalbn;
 pub use sqrt::sqrt;
 pub use trunc::trunc;
+
+// The status flags are observed by external monitors.
+#[cfg(feature = "unstable-public-internals")]
+pub use self::{ceil::ceil_status, floor::floor_status, sqrt::sqrt_round, trunc::trunc_status};
-- 
2.43.0


From 2033f4146eb7eb5a277470a5a37fee2d3f7b15bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:30 +0000
Subject: [PATCH 13/16] fix: negative hex input of f16 and f128 in util eval

---
 crates/util/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/util/src/main.rs b/crates/util/src/main.rs
index ef70ec9..eef90e0 100644
--- a/crates/util/src/main.rs
+++ b/crates/util/src/main.rs
@@ -301,7 +301,7 @@ where
 
     let msg = || format!("invalid {} input '{s}'", type_name::<F>());
 
-    if s.starts_with("0x") {
+    if s.starts_with("0x") || s.starts_with("-0x") {
         return F::from_str_radix(s, 16).unwrap_or_else(|_| panic!("{}", msg()));
     }
 
-- 
2.43.0


From f35926cbcefe1a5b4ffba1aad27119008b28309c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:40 +0000
Subject: [PATCH 14/16] fix: double rounding of f16 and f128 input in util eval

---
 crates/util/src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/util/src/main.rs b/crates/util/src/main.rs
index eef90e0..a77d663 100644
--- a/crates/util/src/main.rs
+++ b/crates/util/src/main.rs
@@ -310,7 +310,9 @@ where
     }
 
     let x = rug::Float::parse(s).unwrap_or_else(|_| panic!("{}", msg()));
-    let x = rug::Float::with_val(F::BITS, x);
+    // Round once, to the precision and range of the type
+    let (mut x, ord) = rug::Float::with_val_round(F::SIG_BITS + 1, x, rug::float::Round::Nearest);
+    x.subnormalize_ieee_round(ord, rug::float::Round::Nearest);
     x.az()
 }
 
-- 
2.43.0


From 5dcf5004b3c3f9335de92149806b23b48821bd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:10 +0000
Subject: [PATCH 15/16] fix: run-docker.sh without argument

With set -u, the missing argument was an error, and each image was looked for
under ci/docker/ci/docker.
---
 ci/run-docker.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ci/run-docker.sh b/ci/run-docker.sh
index 6626e72..61b6cf6 100755
--- a/ci/run-docker.sh
+++ b/ci/run-docker.sh
@@ -45,11 +45,11 @@ run() {
         sh -c "$set_env exec ci/run.sh $target"
 }
 
-if [ -z "$1" ]; then
+if [ -z "${1:-}" ]; then
     echo "running tests for all targets"
 
     for d in ci/docker/*; do
-        run $d
+        run "$(basename "$d")"
     done
 else
     run $1
-- 
2.43.0


From 71940958a79bffdc4edc62ae053424b99b88aee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:10 +0000
Subject: [PATCH 16/16] fix: rebuild when ENSURE_NO_PANIC changes

---
 libm/build.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libm/build.rs b/libm/build.rs
index 07d08ed..b77a02f 100644
--- a/libm/build.rs
+++ b/libm/build.rs
@@ -7,6 +7,7 @@ fn main() {
 
     println!("cargo:rerun-if-changed=build.rs");
     println!("cargo:rerun-if-changed=configure.rs");
+    println!("cargo:rerun-if-env-changed=ENSURE_NO_PANIC");
     println!("cargo:rustc-check-cfg=cfg(assert_no_panic)");
 
     // If set, enable `no-panic`. Requires LTO (`release-opt` profile).
-- 
2.43.0

