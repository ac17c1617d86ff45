From f6bf842a3d8af01bd6f15ca91b5d449b194e0671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:30 +0000
Subject: [PATCH 1/5] Hook: re-export the extension tower under
 cfg(rabe_bn_verif)

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 3720db9..4c35fa9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -13,6 +13,12 @@ pub mod arith;
 mod fields;
 mod groups;
 
+/// The extension tower, for the checks only (build with `--cfg rabe_bn_verif`).
+#[cfg(rabe_bn_verif)]
+pub mod verif_hooks {
+    pub use fields::{FieldElement, Fq, Fq2, Fq6, Fq12};
+}
+
 use fields::FieldElement;
 use groups::GroupElement;
 use std::{
-- 
2.43.0


From c58a3d286e106a8f7f102e8bf88d4b2055e12dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:06 +0000
Subject: [PATCH 2/5] fix: normalize() brings the identity to its canonical
 coordinates

to_affine() is None for the identity, so normalize() left whatever x and y
the computation had produced: P - P and zero() are equal, yet their byte
encodings differed after normalization.
---
 src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4c35fa9..086e156 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -241,11 +241,11 @@ impl Group for G1 {
     }
     fn normalize(&mut self) {
         let new = match self.0.to_affine() {
-            Some(a) => a,
-            None => return,
+            Some(a) => a.to_jacobian(),
+            None => groups::G1::zero(),
         };
 
-        self.0 = new.to_jacobian();
+        self.0 = new;
     }
 }
 
@@ -330,11 +330,11 @@ impl Group for G2 {
 
     fn normalize(&mut self) {
         let new = match self.0.to_affine() {
-            Some(a) => a,
-            None => return,
+            Some(a) => a.to_jacobian(),
+            None => groups::G2::zero(),
         };
 
-        self.0 = new.to_jacobian();
+        self.0 = new;
     }
 }
 
-- 
2.43.0


From 1d81879797047522dc56244c540ead8e600aef97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:49 +0000
Subject: [PATCH 3/5] fix: refuse stored field elements that are not below the
 modulus

Reading a scalar or coordinate accepted any 256-bit value. A value at or
above the modulus is unequal to the element it is congruent to, and the
arithmetic assumes reduced operands. The stored form is unchanged.
---
 src/fields/fp.rs | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/fields/fp.rs b/src/fields/fp.rs
index 61810a8..93bb962 100644
--- a/src/fields/fp.rs
+++ b/src/fields/fp.rs
@@ -5,18 +5,47 @@ use super::FieldElement;
 use arith::{U512, U256};
 use core::fmt;
 #[cfg(feature = "borsh")]
-use borsh::{BorshSerialize, BorshDeserialize};
+use borsh::{BorshSerialize, BorshDeserialize, io};
 #[cfg(feature = "serde")]
-use serde::{Serialize, Deserialize};
+use serde::{Serialize, Deserialize, Deserializer, de::Error};
 
 macro_rules! field_impl {
     ($name:ident, $modulus:expr, $rsquared:expr, $rcubed:expr, $one:expr, $inv:expr) => {
         #[derive(Copy, Clone, PartialEq, Eq, Debug)]
-        #[cfg_attr(feature = "borsh", derive(BorshSerialize, BorshDeserialize))]
-        #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+        #[cfg_attr(feature = "borsh", derive(BorshSerialize))]
+        #[cfg_attr(feature = "serde", derive(Serialize))]
         #[repr(C)]
         pub struct $name(U256);
 
+        #[cfg(feature = "borsh")]
+        impl BorshDeserialize for $name {
+            fn deserialize_reader<R: io::Read>(reader: &mut R) -> io::Result<Self> {
+                let a = U256::deserialize_reader(reader)?;
+
+                if a < U256($modulus) {
+                    Ok(Self(a))
+                } else {
+                    Err(io::Error::new(io::ErrorKind::InvalidData, "integer is not less than modulus"))
+                }
+            }
+        }
+
+        #[cfg(feature = "serde")]
+        impl<'de> Deserialize<'de> for $name {
+            fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+                #[derive(Deserialize)]
+                struct $name(U256);
+
+                let a = $name::deserialize(deserializer)?.0;
+
+                if a < U256($modulus) {
+                    Ok(Self(a))
+                } else {
+                    Err(D::Error::custom("integer is not less than modulus"))
+                }
+            }
+        }
+
         impl From<$name> for U256 {
             #[inline]
             fn from(mut a: $name) -> Self {
-- 
2.43.0


From 6f9f60349dea35dc7048f3fdac5f7e5462b4a3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:12 +0000
Subject: [PATCH 4/5] fix: refuse stored points outside the group

Reading a G1 or G2 value accepted any three coordinates: points off the
curve, and twist points outside the group of order r, on which the group
law and the pairing are undefined. The stored form is unchanged.
---
 src/groups/mod.rs | 63 +++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 58 insertions(+), 5 deletions(-)

diff --git a/src/groups/mod.rs b/src/groups/mod.rs
index fe847c0..cd3bdc0 100644
--- a/src/groups/mod.rs
+++ b/src/groups/mod.rs
@@ -4,9 +4,9 @@ use arith::U256;
 use std::fmt;
 use rand::Rng;
 #[cfg(feature = "borsh")]
-use borsh::{BorshSerialize, BorshDeserialize};
+use borsh::{BorshSerialize, BorshDeserialize, io};
 #[cfg(feature = "serde")]
-use serde::{de::DeserializeOwned, Serialize, Deserialize};
+use serde::{de::{DeserializeOwned, Error}, Serialize, Deserialize, Deserializer};
 
 pub trait GroupElement
     : Sized
@@ -36,12 +36,11 @@ pub trait GroupParams: Sized {
     fn name() -> &'static str;
     fn one() -> G<Self>;
     fn coeff_b() -> Self::Base;
-    #[allow(dead_code)]
     fn check_order() -> bool { false }
 }
 
-#[cfg_attr(feature = "borsh", derive(BorshSerialize, BorshDeserialize))]
-#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "borsh", derive(BorshSerialize))]
+#[cfg_attr(feature = "serde", derive(Serialize))]
 #[repr(C)]
 pub struct G<P: GroupParams> {
     x: P::Base,
@@ -49,6 +48,45 @@ pub struct G<P: GroupParams> {
     z: P::Base,
 }
 
+#[cfg(feature = "borsh")]
+impl<P: GroupParams> BorshDeserialize for G<P> {
+    fn deserialize_reader<R: io::Read>(reader: &mut R) -> io::Result<Self> {
+        let p = G {
+            x: P::Base::deserialize_reader(reader)?,
+            y: P::Base::deserialize_reader(reader)?,
+            z: P::Base::deserialize_reader(reader)?,
+        };
+
+        if p.is_member() {
+            Ok(p)
+        } else {
+            Err(io::Error::new(io::ErrorKind::InvalidData, "point is not a member of the group"))
+        }
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<'de, P: GroupParams> Deserialize<'de> for G<P> {
+    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        #[derive(Deserialize)]
+        #[serde(rename = "G")]
+        struct Coordinates<B> {
+            x: B,
+            y: B,
+            z: B,
+        }
+
+        let c = Coordinates::<P::Base>::deserialize(deserializer)?;
+        let p = G { x: c.x, y: c.y, z: c.z };
+
+        if p.is_member() {
+            Ok(p)
+        } else {
+            Err(D::Error::custom("point is not a member of the group"))
+        }
+    }
+}
+
 #[cfg_attr(feature = "borsh", derive(BorshSerialize, BorshDeserialize))]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 pub struct AffineG<P: GroupParams> {
@@ -122,6 +160,21 @@ impl<P: GroupParams> PartialEq for G<P> {
 impl<P: GroupParams> Eq for G<P> {}
 
 impl<P: GroupParams> G<P> {
+    /// Whether this is the identity, or a point of the curve and of the
+    /// group of order r.
+    fn is_member(&self) -> bool {
+        if self.z.is_zero() {
+            return true;
+        }
+
+        let z_cubed = self.z.squared() * self.z;
+
+        if self.y.squared() != self.x.squared() * self.x + P::coeff_b() * z_cubed.squared() {
+            return false;
+        }
+
+        !P::check_order() || (*self * (-Fr::one()) + *self).is_zero()
+    }
     pub fn into_bytes(&self) -> Vec<u8> {
         [
             self.x.into_bytes(),
-- 
2.43.0


From b48cecdf9c42de0dd43b71d9b7445399342a2c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:15 +0000
Subject: [PATCH 5/5] fix: refuse stored Gt values outside the group of order r

Deserializing Gt accepted any element of the degree-12 field, for
instance zero or an element outside the subgroup of order r.
---
 src/lib.rs | 45 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 086e156..2370a0c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -31,12 +31,13 @@ use std::{
 use rand::{Rng, distributions::{Distribution, Standard}};
 use core::fmt;
 #[cfg(feature = "borsh")]
-use borsh::{BorshSerialize, BorshDeserialize};
+use borsh::{BorshSerialize, BorshDeserialize, io};
 #[cfg(feature = "serde")]
 use serde::{
-    de::DeserializeOwned,
+    de::{DeserializeOwned, Error},
     Serialize,
-    Deserialize
+    Deserialize,
+    Deserializer
 };
 
 #[derive(Copy, Clone, PartialEq, Eq)]
@@ -385,12 +386,46 @@ impl Debug for G2 {
 }
 
 #[derive(Copy, Clone, PartialEq, Eq)]
-#[cfg_attr(feature = "borsh", derive(BorshSerialize, BorshDeserialize))]
-#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "borsh", derive(BorshSerialize))]
+#[cfg_attr(feature = "serde", derive(Serialize))]
 #[repr(C)]
 pub struct Gt(fields::Fq12);
 
+#[cfg(feature = "borsh")]
+impl BorshDeserialize for Gt {
+    fn deserialize_reader<R: io::Read>(reader: &mut R) -> io::Result<Self> {
+        let gt = Gt(fields::Fq12::deserialize_reader(reader)?);
+
+        if gt.is_member() {
+            Ok(gt)
+        } else {
+            Err(io::Error::new(io::ErrorKind::InvalidData, "element is not a member of the group"))
+        }
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<'de> Deserialize<'de> for Gt {
+    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        #[derive(Deserialize)]
+        #[serde(rename = "Gt")]
+        struct Element(fields::Fq12);
+
+        let gt = Gt(Element::deserialize(deserializer)?.0);
+
+        if gt.is_member() {
+            Ok(gt)
+        } else {
+            Err(D::Error::custom("element is not a member of the group"))
+        }
+    }
+}
+
 impl Gt {
+    /// Whether this is an element of the group of order r.
+    fn is_member(&self) -> bool {
+        self.0.pow(-fields::Fr::one()) * self.0 == fields::Fq12::one()
+    }
     pub fn one() -> Self {
         Gt(fields::Fq12::one())
     }
-- 
2.43.0

