From 9340d473d27f509335015ee51dbf0825a7ac23a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:50 +0000
Subject: [PATCH 01/15] hook: let simulation builds (--cfg adv_sim) substitute
 the crate's std

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index a15fafd..d14db70 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,9 @@
+// Simulation builds (--cfg adv_sim) substitute the crate's `std` with a facade whose synchronisation
+// primitives are driven by a deterministic scheduler. Off by default.
+#[allow(unexpected_cfgs)]
+#[cfg(adv_sim)]
+extern crate lazy_static as std;
+
 extern crate nalgebra;
 extern crate num;
 #[doc(hidden)]
-- 
2.43.0


From def37aff974cc483aabe003af80dcbd6d6383c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:26 +0000
Subject: [PATCH 02/15] fix: reverse sweep drops all but the last weight of a
 repeated dependent

---
 src/tape.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tape.rs b/src/tape.rs
index 1ca4cb9..a8728e1 100644
--- a/src/tape.rs
+++ b/src/tape.rs
@@ -93,7 +93,8 @@ pub trait Tape: Send + Sync + fmt::Debug {
         let v = self.values();
         let mut vbar = vec![0.0; v.len()];
         for (idx, vid) in self.deps().iter().enumerate() {
-            vbar[*vid] = ybar[idx];
+            // A value can be dependent more than once
+            vbar[*vid] += ybar[idx];
         }
         for op in self.ops_iter().rev() {
             op.first_order_reverse(v, &mut vbar);
-- 
2.43.0


From f18c11ee2f3630d4fe4febc5d64ec62d8b46b100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:26 +0000
Subject: [PATCH 03/15] fix: generalized_jacobian_chain panics on a chain of
 one function

---
 src/drivers/generalized_jacobian.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drivers/generalized_jacobian.rs b/src/drivers/generalized_jacobian.rs
index e5f4d1c..aa72f08 100644
--- a/src/drivers/generalized_jacobian.rs
+++ b/src/drivers/generalized_jacobian.rs
@@ -152,7 +152,7 @@ pub fn generalized_jacobian_chain(
     dx: DVector<f64>,
     ncheckpoints: Option<usize>,
 ) -> GeneralizedJacobian {
-    let ncheckpoints = ncheckpoints.unwrap_or_else(|| chain.len());
+    let ncheckpoints = ncheckpoints.unwrap_or_else(|| chain.len().max(2));
     reverse_sequence(
         (0, x, dx),
         chain.len(),
-- 
2.43.0


From 8333fe2b13f67a20530ead3b68c726ea56817dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:26 +0000
Subject: [PATCH 04/15] fix: converting an AFloat to a primitive float
 truncates it to an integer

---
 src/afloat.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/afloat.rs b/src/afloat.rs
index 46f5c3f..6c45925 100644
--- a/src/afloat.rs
+++ b/src/afloat.rs
@@ -205,6 +205,14 @@ impl<S: Float> ToPrimitive for AFloat<S> {
     fn to_u64(&self) -> Option<u64> {
         self.v.to_u64()
     }
+
+    fn to_f32(&self) -> Option<f32> {
+        self.v.to_f32()
+    }
+
+    fn to_f64(&self) -> Option<f64> {
+        self.v.to_f64()
+    }
 }
 
 impl<S: Float> NumCast for AFloat<S> {
-- 
2.43.0


From c59f76365ae5c44ef4b506a54da4dd2752c37c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:26 +0000
Subject: [PATCH 05/15] fix: AContext::tape mixes states of a concurrent
 recording

---
 src/acontext.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/acontext.rs b/src/acontext.rs
index 19b8d3d..6abc64f 100644
--- a/src/acontext.rs
+++ b/src/acontext.rs
@@ -189,11 +189,13 @@ impl AContext {
 
     /// Get a tape
     pub fn tape(&self) -> impl Tape + Clone {
+        // All parts must belong to the same state of the recording
+        let inner = self.inner.lock().unwrap();
         AContextTape {
-            indeps: self.indeps(),
-            deps: self.deps(),
-            ops: self.operations(),
-            vals: self.values(),
+            indeps: inner.indeps.clone(),
+            deps: inner.deps.clone(),
+            ops: inner.ops.clone(),
+            vals: inner.vals.clone(),
         }
     }
 }
-- 
2.43.0


From 282132c99acf909f35bc7a23c5ee8209dca82218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:26 +0000
Subject: [PATCH 06/15] fix: a rejected set_dep poisons the context

---
 src/acontext.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/acontext.rs b/src/acontext.rs
index 6abc64f..9d7401d 100644
--- a/src/acontext.rs
+++ b/src/acontext.rs
@@ -98,12 +98,13 @@ impl AContext {
 
     /// Mark a variable as dependent
     pub fn set_dep<S: Float>(&mut self, x: &AFloat<S>) {
+        if let Some((cid, _)) = x.context() {
+            // Check without holding the lock as a panic would poison it
+            assert_eq!(cid, self.cid());
+        }
         let mut inner = self.inner.lock().unwrap();
         let vid = match x.context() {
-            Some((cid, vid)) => {
-                assert_eq!(cid, inner.cid());
-                vid
-            }
+            Some((_, vid)) => vid,
             None => {
                 // Record constant
                 let vid = inner.vals.len();
-- 
2.43.0


From 31d23d9dc24aec408a2912541ed9f8382491f2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:54 +0000
Subject: [PATCH 07/15] fix: column() of the abs-normal matrices multiplies by
 a row vector

---
 src/drivers/abs_normal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drivers/abs_normal.rs b/src/drivers/abs_normal.rs
index afc34b4..1b8e665 100644
--- a/src/drivers/abs_normal.rs
+++ b/src/drivers/abs_normal.rs
@@ -220,7 +220,7 @@ macro_rules! anf_matrix {
             }
 
             pub fn column(&self, i: usize) -> DMatrix<f64> {
-                let mut ind = DMatrix::zeros(1, self.num_indeps());
+                let mut ind = DMatrix::zeros(self.num_indeps(), 1);
                 ind[i] = 1.0;
                 self.mul_right(&ind)
             }
-- 
2.43.0


From 08841990c45ce61dc7cef15aba99e6c23926fe17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:54 +0000
Subject: [PATCH 08/15] fix: C++ operators with a double on the left always add

---
 src/cxx/ADouble.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxx/ADouble.cpp b/src/cxx/ADouble.cpp
index aa94070..28cd2aa 100644
--- a/src/cxx/ADouble.cpp
+++ b/src/cxx/ADouble.cpp
@@ -77,7 +77,7 @@ const void* ADouble::get_impl() const
 	ADouble operator OP(double lhs_, const ADouble& rhs) \
 	{ \
 		auto lhs = ADouble(lhs_); \
-		return lhs + rhs; \
+		return lhs OP rhs; \
 	}
 BINARY_OP_IMPL(add, +)
 BINARY_OP_IMPL(sub, -)
-- 
2.43.0


From f1bff3874dae3d6791addb2d7e535438bd5da742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:54 +0000
Subject: [PATCH 09/15] fix: C++ self-assignment uses and frees freed memory

---
 src/cxx/AContext.cpp |  3 +++
 src/cxx/ADouble.cpp  | 10 +++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/cxx/AContext.cpp b/src/cxx/AContext.cpp
index 34ca2bf..6ec0ed1 100644
--- a/src/cxx/AContext.cpp
+++ b/src/cxx/AContext.cpp
@@ -36,6 +36,9 @@ AContext::AContext(AContext&& other):
 
 AContext& AContext::operator=(AContext&& other)
 {
+	if (this == &other) {
+		return *this;
+	}
 	if (m_impl != nullptr) {
 		::adv_acontext_free(m_impl->ctx);
 		delete m_impl;
diff --git a/src/cxx/ADouble.cpp b/src/cxx/ADouble.cpp
index 28cd2aa..16d8050 100644
--- a/src/cxx/ADouble.cpp
+++ b/src/cxx/ADouble.cpp
@@ -48,16 +48,20 @@ ADouble::ADouble(ADouble&& other):
 
 ADouble& ADouble::operator=(ADouble&& other)
 {
-	::adv_adouble_free(m_impl->val);
-	m_impl->val = other.m_impl->val;
+	// other may be *this
+	auto val = other.m_impl->val;
 	other.m_impl->val = ::adv_adouble_default();
+	::adv_adouble_free(m_impl->val);
+	m_impl->val = val;
 	return *this;
 }
 
 ADouble& ADouble::operator=(const ADouble& other)
 {
+	// other may be *this
+	auto val = ::adv_adouble_copy(other.m_impl->val);
 	::adv_adouble_free(m_impl->val);
-	m_impl->val = ::adv_adouble_copy(other.m_impl->val);
+	m_impl->val = val;
 	return *this;
 }
 
-- 
2.43.0


From b4074df44543e507e2c1e7d13816dda0cb94d081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:54 +0000
Subject: [PATCH 10/15] fix: C++ ADouble leaks its value when an allocation
 fails

---
 src/cxx/ADouble.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/cxx/ADouble.cpp b/src/cxx/ADouble.cpp
index 16d8050..d54eb7b 100644
--- a/src/cxx/ADouble.cpp
+++ b/src/cxx/ADouble.cpp
@@ -3,6 +3,7 @@
 
 #include <cmath>
 #include <stdexcept>
+#include <utility>
 
 namespace adv
 {
@@ -20,9 +21,17 @@ ADouble::~ADouble()
 }
 
 ADouble::ADouble(void* impl):
-	m_impl(new Impl)
+	m_impl(nullptr)
 {
-	m_impl->val = reinterpret_cast<adv_adouble*>(impl);
+	auto val = reinterpret_cast<adv_adouble*>(impl);
+	try {
+		m_impl = new Impl;
+	}
+	catch (...) {
+		::adv_adouble_free(val);
+		throw;
+	}
+	m_impl->val = val;
 }
 
 ADouble::ADouble():
@@ -41,9 +50,9 @@ ADouble::ADouble(const ADouble& other):
 }
 
 ADouble::ADouble(ADouble&& other):
-	ADouble(other.m_impl->val)
+	ADouble()
 {
-	other.m_impl->val = ::adv_adouble_default();
+	std::swap(m_impl, other.m_impl);
 }
 
 ADouble& ADouble::operator=(ADouble&& other)
-- 
2.43.0


From f614c43eccbc2647fab4cca9c4d87c1e70086bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:07 +0000
Subject: [PATCH 11/15] fix: reverse_sequence allocates for the whole budget up
 front

A budget larger than what fits in memory (such as usize::MAX for no limit)
panicked with a capacity overflow or aborted, even for a short sequence.
---
 src/drivers/checkpointing.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/drivers/checkpointing.rs b/src/drivers/checkpointing.rs
index 271afc1..f113777 100644
--- a/src/drivers/checkpointing.rs
+++ b/src/drivers/checkpointing.rs
@@ -102,8 +102,10 @@ where
     // We need at least 2 checkpoints: One for the beginning of the sequence and one for the end.
     assert!(ncheckpoints >= 2);
 
-    // Store x at index 0 as the first checkpoint
-    let mut checkpoints: VecDeque<(usize, T)> = VecDeque::with_capacity(ncheckpoints);
+    // Store x at index 0 as the first checkpoint. A sequence of nsteps steps never needs more than
+    // nsteps + 1 checkpoints, however large the budget is.
+    let capacity = ncheckpoints.min(nsteps + 1);
+    let mut checkpoints: VecDeque<(usize, T)> = VecDeque::with_capacity(capacity);
     checkpoints.push_back((0, x));
 
     // Length of the not-yet reversed sequence
-- 
2.43.0


From 157a6aa9cc8c186d2577f19cf7cd220c3a62b041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:12 +0000
Subject: [PATCH 12/15] fix: a rejected set_dep_slice marks a part of the slice

---
 src/acontext.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/acontext.rs b/src/acontext.rs
index 9d7401d..025fef6 100644
--- a/src/acontext.rs
+++ b/src/acontext.rs
@@ -139,6 +139,11 @@ impl AContext {
 
     /// Set slice dependent
     pub fn set_dep_slice<S: Float>(&mut self, slice: &[AFloat<S>]) {
+        // Check the whole slice first: a rejected call must not have marked a part of it
+        let this_cid = self.cid();
+        for (cid, _) in slice.iter().filter_map(|x| x.context()) {
+            assert_eq!(cid, this_cid);
+        }
         for x in slice.iter() {
             self.set_dep(x);
         }
-- 
2.43.0


From f61a528ca576db598adcc2f14626fdfcbf6eefcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:37 +0000
Subject: [PATCH 13/15] fix: hypot, log and mul_add of two contexts' variables
 record before they are rejected

---
 src/afloat.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/afloat.rs b/src/afloat.rs
index 6c45925..3cfb5b6 100644
--- a/src/afloat.rs
+++ b/src/afloat.rs
@@ -94,6 +94,19 @@ impl<S: Float> AFloat<S> {
         this
     }
 
+    /// Panic if a variable belongs to another context
+    ///
+    /// For operations composed of several ones: they must not record a part of them before the
+    /// combination of the arguments is rejected.
+    fn check_same_context(args: &[Self]) {
+        let mut cids = args.iter().filter_map(|x| x.context()).map(|(cid, _)| cid);
+        if let Some(first) = cids.next() {
+            for cid in cids {
+                assert_eq!(cid, first);
+            }
+        }
+    }
+
     /// Cast to different value type
     pub fn cast<T: Float>(x: AFloat<T>) -> Self {
         Self {
@@ -338,6 +351,7 @@ impl<S: Float> Float for AFloat<S> {
     float_elemental2!(powf, Powf);
 
     fn mul_add(self, a: Self, b: Self) -> Self {
+        Self::check_same_context(&[self, a, b]);
         (self * a) + b
     }
 
@@ -358,6 +372,7 @@ impl<S: Float> Float for AFloat<S> {
     }
 
     fn log(self, base: Self) -> Self {
+        Self::check_same_context(&[self, base]);
         self.ln() / base.ln()
     }
 
@@ -386,6 +401,7 @@ impl<S: Float> Float for AFloat<S> {
     }
 
     fn hypot(self, other: Self) -> Self {
+        Self::check_same_context(&[self, other]);
         (self.powi(2) + other.powi(2)).sqrt()
     }
 
-- 
2.43.0


From f5495f9a7f2b23198842930cc631506c466c3d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:57 +0000
Subject: [PATCH 14/15] fix: AFloat::epsilon() is the epsilon of the underlying
 type

The default of num's Float is that of single precision.
---
 src/afloat.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/afloat.rs b/src/afloat.rs
index 3cfb5b6..e75bf4d 100644
--- a/src/afloat.rs
+++ b/src/afloat.rs
@@ -312,6 +312,7 @@ impl<S: Float> Float for AFloat<S> {
     float_constant!(neg_zero);
     float_constant!(min_value);
     float_constant!(min_positive_value);
+    float_constant!(epsilon);
     float_constant!(max_value);
 
     float_passthrough!(bool, is_nan);
-- 
2.43.0


From 15d9edc73e63e77059816561ced47afdad692dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:18 +0000
Subject: [PATCH 15/15] fix: convert values before the context is locked

NumCast::from runs code of the user's number type. When that panicked in
set_indep, set_dep or record, the mutex of the context was poisoned and
every other thread that used the context failed; when it used the context
itself, the thread waited for its own lock for ever.
---
 src/acontext.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/acontext.rs b/src/acontext.rs
index 025fef6..aecef5e 100644
--- a/src/acontext.rs
+++ b/src/acontext.rs
@@ -89,9 +89,11 @@ impl AContext {
 
     /// Mark a variable as independent
     pub fn set_indep<S: Float>(&mut self, x: &mut AFloat<S>) {
+        // Convert without holding the lock as this may run user code
+        let val = NumCast::from(x.value()).unwrap();
         let mut inner = self.inner.lock().unwrap();
         let vid = inner.vals.len();
-        inner.vals.push(NumCast::from(x.value()).unwrap());
+        inner.vals.push(val);
         x.set_context(inner.cid(), vid);
         inner.indeps.push(vid);
     }
@@ -102,13 +104,18 @@ impl AContext {
             // Check without holding the lock as a panic would poison it
             assert_eq!(cid, self.cid());
         }
+        // Convert without holding the lock as this may run user code
+        let constant = match x.context() {
+            Some(_) => None,
+            None => Some(NumCast::from(x.value()).unwrap()),
+        };
         let mut inner = self.inner.lock().unwrap();
         let vid = match x.context() {
             Some((_, vid)) => vid,
             None => {
                 // Record constant
                 let vid = inner.vals.len();
-                inner.vals.push(NumCast::from(x.value()).unwrap());
+                inner.vals.push(constant.unwrap());
                 inner.ops.push(Operation {
                     opcode: OpCode::Const,
                     vid,
@@ -157,9 +164,11 @@ impl AContext {
         arg1: Option<usize>,
         arg2: Option<usize>,
     ) -> usize {
+        // Convert without holding the lock as this may run user code
+        let val = NumCast::from(val).unwrap();
         let mut inner = self.inner.lock().unwrap();
         let vid = inner.vals.len();
-        inner.vals.push(NumCast::from(val).unwrap());
+        inner.vals.push(val);
         inner.ops.push(Operation {
             opcode,
             vid,
-- 
2.43.0

