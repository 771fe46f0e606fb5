From ff451e1e192218367aa0f6e7423e90bd4f34fb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:49 +0000
Subject: [PATCH 1/3] fix: validate FiniteAboveNegOneF64 when deserializing
 with serde

The derived implementation accepted any f64, so a damaged or hand-written
record could produce a parameter (and a rule) with alpha <= -1 or infinite.
---
 src/data_api.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/data_api.rs b/src/data_api.rs
index 5ba1fd3..26e1621 100644
--- a/src/data_api.rs
+++ b/src/data_api.rs
@@ -23,7 +23,7 @@ pub type Node = f64;
 pub type Weight = f64;
 
 #[derive(Debug, Copy, Clone, PartialEq, PartialOrd)]
-#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
+#[cfg_attr(feature = "serde", derive(serde::Serialize))]
 #[cfg_attr(
     feature = "rkyv",
     derive(rkyv::Archive, rkyv::Serialize, rkyv::Deserialize)
@@ -40,6 +40,23 @@ pub type Weight = f64;
 /// A wrapper around an [`f64`] that ensures the value is greater than -1.0, finite, and not [`NAN`](f64::NAN).
 pub struct FiniteAboveNegOneF64(f64);
 
+// The derived implementation would accept any `f64`, and so break the invariant of the type.
+#[cfg(feature = "serde")]
+impl<'de> serde::Deserialize<'de> for FiniteAboveNegOneF64 {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where
+        D: serde::Deserializer<'de>,
+    {
+        // Has the same data format as the derived `Serialize` implementation.
+        #[derive(serde::Deserialize)]
+        #[serde(rename = "FiniteAboveNegOneF64")]
+        struct Unchecked(f64);
+
+        let Unchecked(value) = Unchecked::deserialize(deserializer)?;
+        Self::try_from(value).map_err(serde::de::Error::custom)
+    }
+}
+
 impl fmt::Display for FiniteAboveNegOneF64 {
     #[inline]
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-- 
2.43.0


From d34a25cc1bb65aa44104c1a7d7649daeb76fc130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:31 +0000
Subject: [PATCH 2/3] fix: implement the rkyv traits for every quadrature rule

The rkyv feature is documented to cover the quadrature rule structs, but
GaussChebyshevSecondKind, Midpoint, Trapezoid and Simpson lacked them.
---
 src/chebyshev/mod.rs | 4 ++++
 src/midpoint/mod.rs  | 4 ++++
 src/simpson/mod.rs   | 4 ++++
 src/trapezoid/mod.rs | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/src/chebyshev/mod.rs b/src/chebyshev/mod.rs
index b6f796a..6ed0d75 100644
--- a/src/chebyshev/mod.rs
+++ b/src/chebyshev/mod.rs
@@ -138,6 +138,10 @@ __impl_node_weight_rule! {GaussChebyshevFirstKind, GaussChebyshevFirstKindNodes,
 /// ```
 #[derive(Debug, Clone, PartialEq)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
+#[cfg_attr(
+    feature = "rkyv",
+    derive(rkyv::Archive, rkyv::Serialize, rkyv::Deserialize)
+)]
 #[cfg_attr(feature = "zerocopy", derive(zerocopy::KnownLayout))]
 pub struct GaussChebyshevSecondKind {
     node_weight_pairs: Box<[(Node, Weight)]>,
diff --git a/src/midpoint/mod.rs b/src/midpoint/mod.rs
index 841ee2b..45576c0 100644
--- a/src/midpoint/mod.rs
+++ b/src/midpoint/mod.rs
@@ -60,6 +60,10 @@ use core::num::NonZeroU32;
 /// ```
 #[derive(Debug, Clone, PartialEq)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
+#[cfg_attr(
+    feature = "rkyv",
+    derive(rkyv::Archive, rkyv::Serialize, rkyv::Deserialize)
+)]
 pub struct Midpoint {
     degree: NonZeroU32,
 }
diff --git a/src/simpson/mod.rs b/src/simpson/mod.rs
index 6b520a8..938622a 100644
--- a/src/simpson/mod.rs
+++ b/src/simpson/mod.rs
@@ -54,6 +54,10 @@ use core::num::NonZeroU32;
 /// ```
 #[derive(Debug, Clone, PartialEq)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
+#[cfg_attr(
+    feature = "rkyv",
+    derive(rkyv::Archive, rkyv::Serialize, rkyv::Deserialize)
+)]
 pub struct Simpson {
     degree: NonZeroU32,
 }
diff --git a/src/trapezoid/mod.rs b/src/trapezoid/mod.rs
index 1a47860..a443177 100644
--- a/src/trapezoid/mod.rs
+++ b/src/trapezoid/mod.rs
@@ -49,6 +49,10 @@ use crate::__impl_node_rule;
 /// ```
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
+#[cfg_attr(
+    feature = "rkyv",
+    derive(rkyv::Archive, rkyv::Serialize, rkyv::Deserialize)
+)]
 pub struct Trapezoid {
     degree: NonZeroU32,
 }
-- 
2.43.0


From 2f8341074de352c8c180bab5cda0b24a7f3b4997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:16 +0000
Subject: [PATCH 3/3] fix: GaussJacobi gave NaN nodes and weights when alpha +
 beta = -1

The first off-diagonal element and the total weight were computed as 0/0.
Cancel the common factor instead.
---
 src/jacobi/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/jacobi/mod.rs b/src/jacobi/mod.rs
index 8e276b3..a0caaab 100644
--- a/src/jacobi/mod.rs
+++ b/src/jacobi/mod.rs
@@ -110,6 +110,13 @@ impl GaussJacobi {
                 }
             },
             |idx| {
+                if idx == 0 {
+                    // The general expression with the common factor 1 + alpha + beta,
+                    // which vanishes when alpha + beta = -1, cancelled.
+                    let sum = alpha.get() + beta.get();
+                    return 2.0 / (2.0 + sum)
+                        * sqrt((1.0 + alpha.get()) * (1.0 + beta.get()) / (3.0 + sum));
+                }
                 let idx_f64 = idx as f64;
                 let idx_p1 = idx_f64 + 1.0;
                 let denom_sum = 2.0 * idx_p1 + alpha.get() + beta.get();
@@ -125,8 +132,7 @@ impl GaussJacobi {
             pow(2.0f64, alpha.get() + beta.get() + 1.0)
                 * gamma(alpha.get() + 1.0)
                 * gamma(beta.get() + 1.0)
-                / gamma(alpha.get() + beta.get() + 1.0)
-                / (alpha.get() + beta.get() + 1.0),
+                / gamma(alpha.get() + beta.get() + 2.0),
         );
 
         // TO FIX: implement correction
-- 
2.43.0

