From 88876b53a395b3bac3f0280018b50321cc164d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:40 +0000
Subject: [PATCH 01/17] fix: accumulate the adjoints of repeated dependents in
 first_order_reverse

---
 src/tape.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tape.rs b/src/tape.rs
index 1ca4cb9..e6f99c1 100644
--- a/src/tape.rs
+++ b/src/tape.rs
@@ -93,7 +93,8 @@ pub trait Tape: Send + Sync + fmt::Debug {
         let v = self.values();
         let mut vbar = vec![0.0; v.len()];
         for (idx, vid) in self.deps().iter().enumerate() {
-            vbar[*vid] = ybar[idx];
+            // A value may be listed as a dependent more than once
+            vbar[*vid] += ybar[idx];
         }
         for op in self.ops_iter().rev() {
             op.first_order_reverse(v, &mut vbar);
-- 
2.43.0


From f01c99c0a6efe31fbe6d8721a578374d258ba63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:40 +0000
Subject: [PATCH 02/17] fix: single columns of the abs-normal matrices need a
 column indicator

---
 src/drivers/abs_normal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/drivers/abs_normal.rs b/src/drivers/abs_normal.rs
index afc34b4..806792e 100644
--- a/src/drivers/abs_normal.rs
+++ b/src/drivers/abs_normal.rs
@@ -220,8 +220,8 @@ macro_rules! anf_matrix {
             }
 
             pub fn column(&self, i: usize) -> DMatrix<f64> {
-                let mut ind = DMatrix::zeros(1, self.num_indeps());
-                ind[i] = 1.0;
+                let mut ind = DMatrix::zeros(self.num_indeps(), 1);
+                ind[(i, 0)] = 1.0;
                 self.mul_right(&ind)
             }
         }
-- 
2.43.0


From 65054ae5bb4ef94190f8fbb075518a40a7a51995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:40 +0000
Subject: [PATCH 03/17] fix: default checkpoint count of
 generalized_jacobian_chain for single functions

reverse_sequence needs at least two checkpoints.
---
 src/drivers/generalized_jacobian.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drivers/generalized_jacobian.rs b/src/drivers/generalized_jacobian.rs
index e5f4d1c..aa72f08 100644
--- a/src/drivers/generalized_jacobian.rs
+++ b/src/drivers/generalized_jacobian.rs
@@ -152,7 +152,7 @@ pub fn generalized_jacobian_chain(
     dx: DVector<f64>,
     ncheckpoints: Option<usize>,
 ) -> GeneralizedJacobian {
-    let ncheckpoints = ncheckpoints.unwrap_or_else(|| chain.len());
+    let ncheckpoints = ncheckpoints.unwrap_or_else(|| chain.len().max(2));
     reverse_sequence(
         (0, x, dx),
         chain.len(),
-- 
2.43.0


From a4e69060465a54229b77683360cb26ad2ffe9e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:40 +0000
Subject: [PATCH 04/17] fix: numeric casts from AFloat keep fractional and
 non-finite values

The default conversions to floats go through i64.
---
 src/afloat.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/afloat.rs b/src/afloat.rs
index 46f5c3f..e9b983e 100644
--- a/src/afloat.rs
+++ b/src/afloat.rs
@@ -202,9 +202,25 @@ impl<S: Float> ToPrimitive for AFloat<S> {
         self.v.to_i64()
     }
 
+    fn to_i128(&self) -> Option<i128> {
+        self.v.to_i128()
+    }
+
     fn to_u64(&self) -> Option<u64> {
         self.v.to_u64()
     }
+
+    fn to_u128(&self) -> Option<u128> {
+        self.v.to_u128()
+    }
+
+    fn to_f32(&self) -> Option<f32> {
+        self.v.to_f32()
+    }
+
+    fn to_f64(&self) -> Option<f64> {
+        self.v.to_f64()
+    }
 }
 
 impl<S: Float> NumCast for AFloat<S> {
-- 
2.43.0


From 0a803ed1088d3b0cbbb350187feb7c064165e689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:40 +0000
Subject: [PATCH 05/17] fix: AFloat::abs_sub is the positive difference

---
 src/afloat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/afloat.rs b/src/afloat.rs
index e9b983e..b43913c 100644
--- a/src/afloat.rs
+++ b/src/afloat.rs
@@ -386,7 +386,7 @@ impl<S: Float> Float for AFloat<S> {
     }
 
     fn abs_sub(self, other: Self) -> Self {
-        (self - other).abs()
+        (self - other).max(Self::zero())
     }
 
     fn cbrt(self) -> Self {
-- 
2.43.0


From 5b6b94ab1164104dad33b9f28b7d28586ce4b9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:40 +0000
Subject: [PATCH 06/17] fix: AFloat::epsilon is the epsilon of the underlying
 float

The default implementation returns the one of f32.
---
 src/afloat.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/afloat.rs b/src/afloat.rs
index b43913c..2ea4534 100644
--- a/src/afloat.rs
+++ b/src/afloat.rs
@@ -308,6 +308,7 @@ impl<S: Float> Float for AFloat<S> {
     float_constant!(min_value);
     float_constant!(min_positive_value);
     float_constant!(max_value);
+    float_constant!(epsilon);
 
     float_passthrough!(bool, is_nan);
     float_passthrough!(bool, is_infinite);
-- 
2.43.0


From 5890c09117ff0a9f292253f2ff62de14d85e98e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 07/17] fix: derivatives of powf at a zero base and for nested
 scalars

The derivative of x.powf(0) at zero was NaN, and the reverse sweep returned NaN
for the exponent at a zero base.  With nested scalars a zero first-order part
does not mean that the whole term vanishes, so second derivatives lost it.
---
 src/operation.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/operation.rs b/src/operation.rs
index 79f6929..2f8f119 100644
--- a/src/operation.rs
+++ b/src/operation.rs
@@ -41,6 +41,22 @@ pub(crate) fn zero_order_value<S: Float>(opcode: OpCode, arg1: S, arg2: Option<S
     }
 }
 
+/// Partial derivatives of `x.powf(y)` by `x` and `y`
+fn powf_partials<S: Float>(x: S, y: S) -> (S, S) {
+    // Avoid 0 * infinity where the limits are zero
+    let px = if x.is_zero() && y.is_zero() {
+        S::zero()
+    } else {
+        y * x.powf(y - S::one())
+    };
+    let py = if x.is_zero() && y > S::zero() {
+        S::zero()
+    } else {
+        x.ln() * x.powf(y)
+    };
+    (px, py)
+}
+
 pub(crate) fn first_order_value<S: Float>(
     opcode: OpCode,
     arg1: S,
@@ -68,13 +84,15 @@ pub(crate) fn first_order_value<S: Float>(
             let dx = darg1;
             let dy = darg2.unwrap();
 
-            let rv1 = if dx != S::zero() {
-                y * x.powf(y - S::one()) * dx
+            let (px, py) = powf_partials(x, y);
+            // The partial derivative by a constant may not exist
+            let rv1 = if dx != S::zero() || px.is_finite() {
+                px * dx
             } else {
                 S::zero()
             };
-            let rv2 = if dy != S::zero() {
-                x.ln() * x.powf(y) * dy
+            let rv2 = if dy != S::zero() || py.is_finite() {
+                py * dy
             } else {
                 S::zero()
             };
@@ -318,8 +336,9 @@ impl Operation {
                 // vbar_k += vbar_i * ∂v_i/∂v_k = vbar_i * v_j.ln() * v_j.powf(v_k)
                 let x = v[self.arg1.unwrap()];
                 let y = v[self.arg2.unwrap()];
-                vbar[self.arg1.unwrap()] += vbar[self.vid] * y * x.powf(y - 1.0);
-                vbar[self.arg2.unwrap()] += vbar[self.vid] * x.ln() * x.powf(y);
+                let (px, py) = powf_partials(x, y);
+                vbar[self.arg1.unwrap()] += vbar[self.vid] * px;
+                vbar[self.arg2.unwrap()] += vbar[self.vid] * py;
             }
             OpCode::Abs => {
                 panic!("Abs-function encountered in first_order_reverse");
-- 
2.43.0


From 3cedfa5a3b9f30d38c84b9fa4d170f63f56528a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 08/17] fix: AFloat::cbrt of negative numbers

---
 src/afloat.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/afloat.rs b/src/afloat.rs
index 2ea4534..e725db6 100644
--- a/src/afloat.rs
+++ b/src/afloat.rs
@@ -391,7 +391,12 @@ impl<S: Float> Float for AFloat<S> {
     }
 
     fn cbrt(self) -> Self {
-        self.powf(Self::one() / <Self as NumCast>::from(3.0).unwrap())
+        let third = Self::one() / <Self as NumCast>::from(3.0).unwrap();
+        if self < Self::zero() {
+            -((-self).powf(third))
+        } else {
+            self.powf(third)
+        }
     }
 
     fn hypot(self, other: Self) -> Self {
-- 
2.43.0


From 8dbeedc6c98a79b56835f595079ec954a2d57c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 09/17] fix: AContext::tape takes a consistent snapshot

The four parts were copied under separate locks, so that a tape taken while
another thread records could contain ids without a definition.
---
 src/acontext.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/acontext.rs b/src/acontext.rs
index 19b8d3d..450f4e2 100644
--- a/src/acontext.rs
+++ b/src/acontext.rs
@@ -189,11 +189,13 @@ impl AContext {
 
     /// Get a tape
     pub fn tape(&self) -> impl Tape + Clone {
+        // Take everything under one lock: other threads may be recording
+        let inner = self.inner.lock().unwrap();
         AContextTape {
-            indeps: self.indeps(),
-            deps: self.deps(),
-            ops: self.operations(),
-            vals: self.values(),
+            indeps: inner.indeps.clone(),
+            deps: inner.deps.clone(),
+            ops: inner.ops.clone(),
+            vals: inner.vals.clone(),
         }
     }
 }
-- 
2.43.0


From 8f2cb83e48f22796cdf90a581ccc24112d1bbf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 10/17] fix: C++ operators with a double on the left compute
 the right operation

---
 src/cxx/ADouble.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxx/ADouble.cpp b/src/cxx/ADouble.cpp
index aa94070..28cd2aa 100644
--- a/src/cxx/ADouble.cpp
+++ b/src/cxx/ADouble.cpp
@@ -77,7 +77,7 @@ const void* ADouble::get_impl() const
 	ADouble operator OP(double lhs_, const ADouble& rhs) \
 	{ \
 		auto lhs = ADouble(lhs_); \
-		return lhs + rhs; \
+		return lhs OP rhs; \
 	}
 BINARY_OP_IMPL(add, +)
 BINARY_OP_IMPL(sub, -)
-- 
2.43.0


From 8e0cf51b8fff6176c6ff03e6a228d7b38dbc7c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 11/17] fix: C++ self-assignment of ADouble used freed memory

---
 src/cxx/ADouble.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cxx/ADouble.cpp b/src/cxx/ADouble.cpp
index 28cd2aa..218e1ff 100644
--- a/src/cxx/ADouble.cpp
+++ b/src/cxx/ADouble.cpp
@@ -56,8 +56,10 @@ ADouble& ADouble::operator=(ADouble&& other)
 
 ADouble& ADouble::operator=(const ADouble& other)
 {
-	::adv_adouble_free(m_impl->val);
-	m_impl->val = ::adv_adouble_copy(other.m_impl->val);
+	if (this != &other) {
+		::adv_adouble_free(m_impl->val);
+		m_impl->val = ::adv_adouble_copy(other.m_impl->val);
+	}
 	return *this;
 }
 
-- 
2.43.0


From d8ec794a9fa29a449d97347f9547abbcf5d0a2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:59 +0000
Subject: [PATCH 12/17] fix: attributes on adv_fn! functions with destructured
 arguments

The transcriber emitted the fragment specifier instead of the attribute, and
called adv_fn! by a name that need not be in scope.
---
 src/macros.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index da363d1..80e1a45 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -80,8 +80,8 @@ macro_rules! adv_fn {
             $($tt:tt)*
         }
     } => {
-        adv_fn! {
-            $(#[$attr:meta])*
+        $crate::adv_fn! {
+            $(#[$attr])*
             $vis fn $func_name (__input: [[0 $(+ $crate::adv_replace!($arg_name 1usize))*]] $( , $extra_arg : $extra_type)* ) -> [[$($result_dim)*]] {
                 let __arg_counter = 0;
                 $(
-- 
2.43.0


From 723f34cf097bfb6c3decfbf838b49b428ce705bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:52 +0000
Subject: [PATCH 13/17] fix: refusing a foreign dependent no longer poisons the
 context

---
 src/acontext.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/acontext.rs b/src/acontext.rs
index 450f4e2..2877bee 100644
--- a/src/acontext.rs
+++ b/src/acontext.rs
@@ -98,12 +98,14 @@ impl AContext {
 
     /// Mark a variable as dependent
     pub fn set_dep<S: Float>(&mut self, x: &AFloat<S>) {
+        // Refuse foreign variables before locking: panicking under the lock
+        // would poison this context for all of its handles
+        if let Some((cid, _)) = x.context() {
+            assert_eq!(cid, self.cid());
+        }
         let mut inner = self.inner.lock().unwrap();
         let vid = match x.context() {
-            Some((cid, vid)) => {
-                assert_eq!(cid, inner.cid());
-                vid
-            }
+            Some((_, vid)) => vid,
             None => {
                 // Record constant
                 let vid = inner.vals.len();
-- 
2.43.0


From 1a9559e817f8a584ad755f2cfbb3a002c536f44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:57 +0000
Subject: [PATCH 14/17] fix: reverse_sequence with more checkpoints than memory

---
 src/drivers/checkpointing.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/drivers/checkpointing.rs b/src/drivers/checkpointing.rs
index 271afc1..4e0ddbb 100644
--- a/src/drivers/checkpointing.rs
+++ b/src/drivers/checkpointing.rs
@@ -103,7 +103,8 @@ where
     assert!(ncheckpoints >= 2);
 
     // Store x at index 0 as the first checkpoint
-    let mut checkpoints: VecDeque<(usize, T)> = VecDeque::with_capacity(ncheckpoints);
+    let mut checkpoints: VecDeque<(usize, T)> =
+        VecDeque::with_capacity(ncheckpoints.min(nsteps + 1));
     checkpoints.push_back((0, x));
 
     // Length of the not-yet reversed sequence
-- 
2.43.0


From 2c602180a73d4f14642e36a9ae07adf852780561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:22 +0000
Subject: [PATCH 15/17] fix: derivative of a quotient overflows or vanishes for
 large and small denominators

---
 src/operation.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/operation.rs b/src/operation.rs
index 2f8f119..f9472c9 100644
--- a/src/operation.rs
+++ b/src/operation.rs
@@ -68,7 +68,10 @@ pub(crate) fn first_order_value<S: Float>(
         OpCode::Add => darg1 + darg2.unwrap(),
         OpCode::Sub => darg1 - darg2.unwrap(),
         OpCode::Mul => darg1 * arg2.unwrap() + arg1 * darg2.unwrap(),
-        OpCode::Div => (darg1 * arg2.unwrap() - arg1 * darg2.unwrap()) / arg2.unwrap().powi(2),
+        OpCode::Div => {
+            // Squaring the denominator would overflow or underflow early
+            (darg1 - arg1 / arg2.unwrap() * darg2.unwrap()) / arg2.unwrap()
+        }
         OpCode::Sin => darg1 * arg1.cos(),
         OpCode::Cos => -darg1 * arg1.sin(),
         OpCode::Tan => darg1 * (S::one() / arg1.cos().powi(2)),
@@ -326,8 +329,8 @@ impl Operation {
                 // vbar_j += vbar_i * ∂v_i/∂v_j = vbar_i * 1/v_k
                 // vbar_k += vbar_i * ∂v_i/∂v_k = vbar_i * -v_j/(v_k^2)
                 vbar[self.arg1.unwrap()] += vbar[self.vid] * 1.0 / v[self.arg2.unwrap()];
-                vbar[self.arg2.unwrap()] +=
-                    vbar[self.vid] * (-v[self.arg1.unwrap()] / v[self.arg2.unwrap()].powi(2));
+                vbar[self.arg2.unwrap()] += vbar[self.vid]
+                    * (-(v[self.arg1.unwrap()] / v[self.arg2.unwrap()]) / v[self.arg2.unwrap()]);
             }
             OpCode::Powf => {
                 // v_i = v_j^v_k
-- 
2.43.0


From f8dc45400b3278e58b420b85458b56aff71e53d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:18 +0000
Subject: [PATCH 16/17] fix: integer powers whose exponent the scalar cannot
 represent

ASingle's powi rounded exponents beyond 2^24 to single precision, which loses
whether they are odd: (-1).powi(16777217) was 1.
---
 src/afloat.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/afloat.rs b/src/afloat.rs
index e725db6..53421e6 100644
--- a/src/afloat.rs
+++ b/src/afloat.rs
@@ -355,7 +355,15 @@ impl<S: Float> Float for AFloat<S> {
     }
 
     fn powi(self, n: i32) -> Self {
-        self.powf(<Self as NumCast>::from(n).unwrap())
+        let exponent = <Self as NumCast>::from(n).unwrap();
+        if exponent.to_i32() == Some(n) {
+            self.powf(exponent)
+        } else {
+            // The exponent is rounded, which loses whether it is odd. Split it into parts that are not.
+            let low = n % 4096;
+            let high = <Self as NumCast>::from(n - low).unwrap();
+            self.powf(high) * self.powf(<Self as NumCast>::from(low).unwrap())
+        }
     }
 
     fn sqrt(self) -> Self {
-- 
2.43.0


From e8695422764c69790ed6e4d4b09e77474cee2c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:00 +0000
Subject: [PATCH 17/17] fix: derivative of powers with a negative base and an
 exponent beyond the precision

Rounding the exponent less one to an even number gave the derivative of
(-1).powf(2^60) the wrong sign.
---
 src/operation.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/operation.rs b/src/operation.rs
index f9472c9..52fb36f 100644
--- a/src/operation.rs
+++ b/src/operation.rs
@@ -46,6 +46,9 @@ fn powf_partials<S: Float>(x: S, y: S) -> (S, S) {
     // Avoid 0 * infinity where the limits are zero
     let px = if x.is_zero() && y.is_zero() {
         S::zero()
+    } else if x < S::zero() && y.is_finite() && y.abs() > S::one() / S::epsilon() {
+        // Rounding y - 1 would lose whether it is odd
+        y * (x.powf(y) / x)
     } else {
         y * x.powf(y - S::one())
     };
-- 
2.43.0

