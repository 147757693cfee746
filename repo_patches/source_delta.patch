From 27d3bc2daefa70bf310dcf9403c8d91da5578146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:03 +0000
Subject: [PATCH 1/3] fix: Montgomery ladder: undo the swap left pending by the
 last scalar bit

---
 src/curve/montgomery/montgomery.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/curve/montgomery/montgomery.rs b/src/curve/montgomery/montgomery.rs
index d431e5f..9105272 100644
--- a/src/curve/montgomery/montgomery.rs
+++ b/src/curve/montgomery/montgomery.rs
@@ -91,6 +91,8 @@ impl Mul<&Scalar> for &MontgomeryPoint {
 
             swap = bit;
         }
+        // Undo the swap left pending by the least significant bit
+        ProjectiveMontgomeryPoint::conditional_swap(&mut x0, &mut x1, Choice::from(swap));
 
         x0.to_affine()
     }
-- 
2.43.0


From 0cd8e345b11d9d40bc4bdd6ba7cbadb356a8b800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:26 +0000
Subject: [PATCH 2/3] fix: recognise low order Montgomery points given by a
 non-reduced u-coordinate

---
 src/curve/montgomery/montgomery.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/curve/montgomery/montgomery.rs b/src/curve/montgomery/montgomery.rs
index 9105272..5772af4 100644
--- a/src/curve/montgomery/montgomery.rs
+++ b/src/curve/montgomery/montgomery.rs
@@ -114,7 +114,9 @@ impl MontgomeryPoint {
 
     /// Returns true if the point is one of the low order points
     pub fn is_low_order(&self) -> bool {
-        (*self == LOW_A) || (*self == LOW_B) || (*self == LOW_C)
+        // The u-coordinate may not be reduced
+        let point = MontgomeryPoint(FieldElement::from_bytes(&self.0).to_bytes());
+        (point == LOW_A) || (point == LOW_B) || (point == LOW_C)
     }
     /// View the point as a byte slice
     pub fn as_bytes(&self) -> &[u8; 56] {
-- 
2.43.0


From 5c65d80910ac3c8d4f6e49b675e8b2398902075c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:41 +0000
Subject: [PATCH 3/3] fix: make the affine Niels formulas consistent with the
 affine group law

---
 src/curve/twedwards/affine.rs     | 11 +++++++----
 src/curve/twedwards/extensible.rs |  8 +++++---
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/curve/twedwards/affine.rs b/src/curve/twedwards/affine.rs
index 2720738..adaed7d 100644
--- a/src/curve/twedwards/affine.rs
+++ b/src/curve/twedwards/affine.rs
@@ -118,11 +118,14 @@ impl AffineNielsPoint {
     }
     /// Converts an AffineNielsPoint to an ExtendedPoint
     pub(crate) fn to_extended(&self) -> ExtendedPoint {
+        let two_x = self.y_plus_x - self.y_minus_x;
+        let two_y = self.y_plus_x + self.y_minus_x;
+        let two = FieldElement::one() + FieldElement::one();
         ExtendedPoint {
-            X: self.y_plus_x - self.y_minus_x,
-            Y: self.y_minus_x + self.y_plus_x,
-            Z: FieldElement::one(),
-            T: self.y_plus_x * self.y_minus_x,
+            X: two_x * two,
+            Y: two_y * two,
+            Z: two.square(),
+            T: two_x * two_y,
         }
     }
 }
diff --git a/src/curve/twedwards/extensible.rs b/src/curve/twedwards/extensible.rs
index e712f6a..ee0f605 100644
--- a/src/curve/twedwards/extensible.rs
+++ b/src/curve/twedwards/extensible.rs
@@ -117,11 +117,13 @@ impl ExtensiblePoint {
     pub fn add_affine_niels(&self, other: AffineNielsPoint) -> ExtensiblePoint {
         let A = other.y_minus_x * (self.Y - self.X);
         let B = other.y_plus_x * (self.X + self.Y);
-        let C = other.td * self.T1 * self.T2;
+        let TdT = other.td * self.T1 * self.T2;
+        let C = TdT + TdT;
+        let Z = self.Z + self.Z;
         let D = B + A;
         let E = B - A;
-        let F = self.Z - C;
-        let G = self.Z + C;
+        let F = Z - C;
+        let G = Z + C;
         ExtensiblePoint {
             X: E * F,
             Y: G * D,
-- 
2.43.0

