From dad98ed2cfafb6292c79ccf57e9e98b7d3616278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 01/15] fix: square roots over a field shared between threads
 no longer panic

get_sqrt_precmp took a mutable borrow of the shared cache on every call, and
held it while the constants were computed, so two threads taking a square root
over the same field at the same time panicked with 'already mutably borrowed'.
---
 src/primefield/mod.rs     | 16 +++++++++++-----
 src/quadraticfield/mod.rs | 16 +++++++++++-----
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/primefield/mod.rs b/src/primefield/mod.rs
index de6f7bf..7e99709 100644
--- a/src/primefield/mod.rs
+++ b/src/primefield/mod.rs
@@ -254,11 +254,17 @@ enum SqrtPrecmp {
 }
 impl Fp {
     fn get_sqrt_precmp(&self) -> SqrtPrecmp {
-        self.0
-            .sqrt_precmp
-            .borrow_mut()
-            .get_or_insert(self.calc_sqrt_precmp())
-            .clone()
+        if let Ok(cache) = self.0.sqrt_precmp.try_borrow() {
+            if let Some(pre) = cache.as_ref() {
+                return pre.clone();
+            }
+        }
+        // Another thread may be using the cache: never wait for it.
+        let pre = self.calc_sqrt_precmp();
+        if let Ok(mut cache) = self.0.sqrt_precmp.try_borrow_mut() {
+            cache.get_or_insert_with(|| pre.clone());
+        }
+        pre
     }
     fn calc_sqrt_precmp(&self) -> SqrtPrecmp {
         let p = &self.0.p;
diff --git a/src/quadraticfield/mod.rs b/src/quadraticfield/mod.rs
index 95a7ed0..5d14e52 100644
--- a/src/quadraticfield/mod.rs
+++ b/src/quadraticfield/mod.rs
@@ -272,11 +272,17 @@ enum SqrtPrecmp {
 
 impl Fp2 {
     fn get_sqrt_precmp(&self) -> SqrtPrecmp {
-        self.0
-            .sqrt_precmp
-            .borrow_mut()
-            .get_or_insert(self.calc_sqrt_precmp())
-            .clone()
+        if let Ok(cache) = self.0.sqrt_precmp.try_borrow() {
+            if let Some(pre) = cache.as_ref() {
+                return pre.clone();
+            }
+        }
+        // Another thread may be using the cache: never wait for it.
+        let pre = self.calc_sqrt_precmp();
+        if let Ok(mut cache) = self.0.sqrt_precmp.try_borrow_mut() {
+            cache.get_or_insert_with(|| pre.clone());
+        }
+        pre
     }
     fn calc_sqrt_precmp(&self) -> SqrtPrecmp {
         let p = self.get_modulus();
-- 
2.43.0


From 3b31907e0ee70a3d5144ae05f4cc529403fef6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 02/15] fix: do not leak fields with p = 5 mod 8 after a square
 root

The cached sqrt(-1) was a field element, which keeps its field alive, and the
field owns the cache: the reference cycle was never freed.
---
 src/primefield/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/primefield/mod.rs b/src/primefield/mod.rs
index 7e99709..7ef0af5 100644
--- a/src/primefield/mod.rs
+++ b/src/primefield/mod.rs
@@ -248,7 +248,7 @@ impl CMov for FpElt {}
 #[derive(Clone, std::cmp::PartialEq)]
 enum SqrtPrecmp {
     P3MOD4 { exp: BigInt },
-    P5MOD8 { exp: BigInt, sqrt_minus_one: FpElt },
+    P5MOD8 { exp: BigInt, sqrt_minus_one: BigInt },
     P9MOD16,
     P1MOD16,
 }
@@ -280,7 +280,7 @@ impl Fp {
             t0 = t0 + self.one(); //       2t^2+1
             t0 = t0 * t; //             t(2t^2+1)
             let exp = k + 1;
-            let sqrt_minus_one = t0;
+            let sqrt_minus_one = t0.n; // an FpElt would own the field that owns the cache
             SqrtPrecmp::P5MOD8 {
                 exp,
                 sqrt_minus_one,
@@ -311,7 +311,7 @@ impl Sqrt for FpElt {
                 let t0 = self ^ &exp;
                 let t1 = &t0 ^ 2u32;
                 let e = *self == t1;
-                let t1 = &t0 * sqrt_minus_one;
+                let t1 = &t0 * self.f.elt(sqrt_minus_one);
                 FpElt::cmov(&t1, &t0, e)
             }
             SqrtPrecmp::P9MOD16 => unimplemented!(),
-- 
2.43.0


From ce79a001d7feb35c63bd26d2c8e63679c24a9813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 03/15] fix: iterating over the bits of the zero scalar

iter_lr subtracted one from a bit length of zero, so multiplying any point by
zero panicked with overflow checks on.
---
 src/edwards/scalar.rs     | 2 +-
 src/montgomery/scalar.rs  | 2 +-
 src/weierstrass/scalar.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/edwards/scalar.rs b/src/edwards/scalar.rs
index c941de1..3758dd5 100644
--- a/src/edwards/scalar.rs
+++ b/src/edwards/scalar.rs
@@ -144,7 +144,7 @@ impl std::iter::Iterator for Iterino {
 impl Scalar {
     pub fn iter_lr(&self) -> impl std::iter::Iterator<Item = bool> {
         let l = self.k.bits() as usize;
-        let i = l - 1usize;
+        let i = l.saturating_sub(1usize);
         let (_, v) = self.k.to_u32_digits();
         let is_lr = true;
         Iterino { l, i, v, is_lr }
diff --git a/src/montgomery/scalar.rs b/src/montgomery/scalar.rs
index 15f8d6c..5432971 100644
--- a/src/montgomery/scalar.rs
+++ b/src/montgomery/scalar.rs
@@ -138,7 +138,7 @@ impl std::iter::Iterator for Iterino {
 impl Scalar {
     pub fn iter_lr(&self) -> impl std::iter::Iterator<Item = bool> {
         let l = self.k.bits() as usize;
-        let i = l - 1usize;
+        let i = l.saturating_sub(1usize);
         let (_, v) = self.k.to_u32_digits();
         let is_lr = true;
         Iterino { l, i, v, is_lr }
diff --git a/src/weierstrass/scalar.rs b/src/weierstrass/scalar.rs
index 1db28da..e6406ac 100644
--- a/src/weierstrass/scalar.rs
+++ b/src/weierstrass/scalar.rs
@@ -138,7 +138,7 @@ impl std::iter::Iterator for Iterino {
 impl Scalar {
     pub fn iter_lr(&self) -> impl std::iter::Iterator<Item = bool> {
         let l = self.k.bits() as usize;
-        let i = l - 1usize;
+        let i = l.saturating_sub(1usize);
         let (_, v) = self.k.to_u32_digits();
         let is_lr = true;
         Iterino { l, i, v, is_lr }
-- 
2.43.0


From 2660ef6b3169b421332a1f8376223d5e63e61f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:07 +0000
Subject: [PATCH 04/15] fix: the point at infinity survives normalize, encode
 and decode

normalize turned it into the invalid (0:0:1), so encode never produced the
single zero byte, and decode of that byte read past the end of the buffer.
---
 src/montgomery/curve.rs  | 2 +-
 src/montgomery/point.rs  | 4 ++++
 src/weierstrass/curve.rs | 2 +-
 src/weierstrass/point.rs | 4 ++++
 4 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/montgomery/curve.rs b/src/montgomery/curve.rs
index 5139f6d..2f3cb61 100644
--- a/src/montgomery/curve.rs
+++ b/src/montgomery/curve.rs
@@ -100,7 +100,7 @@ impl Decode for Curve {
         }
         let tag = buf[0];
         // check x coordinate is in the valid range, Sign::Plus => > 0
-        let x_val = BigInt::from_bytes_be(Sign::Plus, &buf[1..size + 1]);
+        let x_val = BigInt::from_bytes_be(Sign::Plus, &buf[1..blen.min(size + 1)]);
         let p = self.f.get_modulus();
         if x_val >= p {
             return Err(Error::new(ErrorKind::Other, "Invalid x coordinate"));
diff --git a/src/montgomery/point.rs b/src/montgomery/point.rs
index 72c193a..b8f3774 100644
--- a/src/montgomery/point.rs
+++ b/src/montgomery/point.rs
@@ -65,6 +65,10 @@ impl Encode for Point {
 
 impl Point {
     pub fn normalize(&mut self) {
+        if self.is_zero() {
+            self.c.y.set_one();
+            return;
+        }
         let inv_z = 1u32 / &self.c.z;
         self.c.x = &self.c.x * &inv_z;
         self.c.y = &self.c.y * &inv_z;
diff --git a/src/weierstrass/curve.rs b/src/weierstrass/curve.rs
index f1a6322..ac211c9 100644
--- a/src/weierstrass/curve.rs
+++ b/src/weierstrass/curve.rs
@@ -98,7 +98,7 @@ impl Decode for Curve {
         }
         let tag = buf[0];
         // check x coordinate is in the valid range, Sign::Plus => > 0
-        let x_val = BigInt::from_bytes_be(Sign::Plus, &buf[1..size + 1]);
+        let x_val = BigInt::from_bytes_be(Sign::Plus, &buf[1..blen.min(size + 1)]);
         let p = self.f.get_modulus();
         if x_val >= p {
             return Err(Error::new(ErrorKind::Other, "Invalid x coordinate"));
diff --git a/src/weierstrass/point.rs b/src/weierstrass/point.rs
index 8fb2239..2b4bc4c 100644
--- a/src/weierstrass/point.rs
+++ b/src/weierstrass/point.rs
@@ -70,6 +70,10 @@ impl Encode for Point {
 
 impl Point {
     pub fn normalize(&mut self) {
+        if self.is_zero() {
+            self.c.y.set_one();
+            return;
+        }
         let inv_z = 1u32 / &self.c.z;
         self.c.x = &self.c.x * &inv_z;
         self.c.y = &self.c.y * &inv_z;
-- 
2.43.0


From 61924ea212358813793b09c60e369248ad23013a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:07 +0000
Subject: [PATCH 05/15] fix: decode reports bytes that are not a point as an
 error

decode panicked with 'not valid point' when the bytes had a valid form but
the point is not on the curve, instead of returning the Err it promises.
---
 src/edwards/curve.rs     | 11 ++++++++++-
 src/montgomery/curve.rs  | 16 ++++++++++++++--
 src/weierstrass/curve.rs | 16 ++++++++++++++--
 3 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/src/edwards/curve.rs b/src/edwards/curve.rs
index 5b61dd0..a348a59 100644
--- a/src/edwards/curve.rs
+++ b/src/edwards/curve.rs
@@ -142,7 +142,16 @@ impl Decode for Curve {
         if tag != x_0 {
             x = -x;
         }
-        Ok(self.new_point(x, y))
+        let t = &x * &y;
+        let z = self.f.one();
+        let pt = Point {
+            c: ProyCoordinates { x, y, t, z },
+            e: self.clone(),
+        };
+        if !self.is_on_curve(&pt) {
+            return Err(Error::new(ErrorKind::Other, ERR_ECC_NEW));
+        }
+        Ok(pt)
     }
 }
 
diff --git a/src/montgomery/curve.rs b/src/montgomery/curve.rs
index 2f3cb61..f0241b2 100644
--- a/src/montgomery/curve.rs
+++ b/src/montgomery/curve.rs
@@ -39,6 +39,18 @@ impl Curve {
         let pt = Point { e, c };
         do_if_eq!(self.is_on_curve(&pt), pt, ERR_ECC_NEW)
     }
+    fn decoded_point(&self, x: FpElt, y: FpElt) -> Result<Point, Error> {
+        let e = self.clone();
+        let z = self.f.one();
+        let pt = Point {
+            c: ProyCoordinates { x, y, z },
+            e,
+        };
+        if !self.is_on_curve(&pt) {
+            return Err(Error::new(ErrorKind::Other, ERR_ECC_NEW));
+        }
+        Ok(pt)
+    }
 }
 
 impl EllipticCurve for Curve {
@@ -129,7 +141,7 @@ impl Decode for Curve {
                     return Err(Error::new(ErrorKind::Other, "Invalid y coordinate"));
                 }
                 let y = self.f.elt(y_val);
-                Ok(self.new_point(x, y))
+                self.decoded_point(x, y)
             }
             0x02 | 0x03 => {
                 if buf.len() != size + 1 {
@@ -154,7 +166,7 @@ impl Decode for Curve {
                 if tag != deser_tag {
                     y = -y;
                 }
-                Ok(self.new_point(x, y))
+                self.decoded_point(x, y)
             }
             _ => Err(Error::new(ErrorKind::Other, "Invalid tag specified")),
         }
diff --git a/src/weierstrass/curve.rs b/src/weierstrass/curve.rs
index ac211c9..06cf3be 100644
--- a/src/weierstrass/curve.rs
+++ b/src/weierstrass/curve.rs
@@ -35,6 +35,18 @@ impl Curve {
         let pt = Point { e, c };
         do_if_eq!(self.is_on_curve(&pt), pt, ERR_ECC_NEW)
     }
+    fn decoded_point(&self, x: FpElt, y: FpElt) -> Result<Point, Error> {
+        let e = self.clone();
+        let z = self.f.one();
+        let pt = Point {
+            c: ProyCoordinates { x, y, z },
+            e,
+        };
+        if !self.is_on_curve(&pt) {
+            return Err(Error::new(ErrorKind::Other, ERR_ECC_NEW));
+        }
+        Ok(pt)
+    }
 }
 
 impl EllipticCurve for Curve {
@@ -127,7 +139,7 @@ impl Decode for Curve {
                     return Err(Error::new(ErrorKind::Other, "Invalid y coordinate"));
                 }
                 let y = self.f.elt(y_val);
-                Ok(self.new_point(x, y))
+                self.decoded_point(x, y)
             }
             0x02 | 0x03 => {
                 if buf.len() != size + 1 {
@@ -149,7 +161,7 @@ impl Decode for Curve {
                 if tag != deser_tag {
                     y = -y;
                 }
-                Ok(self.new_point(x, y))
+                self.decoded_point(x, y)
             }
             _ => Err(Error::new(ErrorKind::Other, "Invalid tag specified")),
         }
-- 
2.43.0


From c102a5c668f104ba1b898cffcbc2838d8e0234e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:07 +0000
Subject: [PATCH 06/15] fix: (0,-1) on an Edwards curve is not the identity

---
 src/edwards/point.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edwards/point.rs b/src/edwards/point.rs
index f456424..bdc7773 100644
--- a/src/edwards/point.rs
+++ b/src/edwards/point.rs
@@ -29,7 +29,7 @@ pub struct Point {
 impl ScMulRef<Scalar> for Point {}
 impl EcPoint<Scalar> for Point {
     fn is_zero(&self) -> bool {
-        self.c.x.is_zero() && !self.c.y.is_zero() && self.c.t.is_zero() && !self.c.z.is_zero()
+        self.c.x.is_zero() && self.c.y == self.c.z && self.c.t.is_zero() && !self.c.z.is_zero()
     }
 }
 impl Encode for Point {
-- 
2.43.0


From a5662ae249e2b0a1a9dd8e857caa1ecbf8915454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:33 +0000
Subject: [PATCH 07/15] fix: the map between edwards25519 and curve25519 on
 points of order two

push sent (0,-1) to the all-zero coordinates, and pull recognised (0,0) only
when it happened to be normalized.
---
 src/instances/rational_maps.rs | 6 ++++++
 src/montgomery/point.rs        | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/instances/rational_maps.rs b/src/instances/rational_maps.rs
index 568c194..9013e45 100644
--- a/src/instances/rational_maps.rs
+++ b/src/instances/rational_maps.rs
@@ -1,3 +1,5 @@
+use num_traits::identities::Zero;
+
 use crate::edwards;
 use crate::edwards::Curve as EdCurve;
 use crate::edwards::Point as TePoint;
@@ -42,6 +44,10 @@ impl RationalMap for Ed2Mt25519 {
     fn push(&self, p: TePoint) -> MtPoint {
         if p.is_zero() {
             self.e1.identity()
+        } else if p.c.x.is_zero() {
+            // (0,-1), the point of order two
+            let ff = self.e1.get_field();
+            self.e1.new_point(ff.zero(), ff.zero())
         } else {
             let (x, y, z) = (&p.c.x, &p.c.y, &p.c.z);
             let t0 = z + y;
diff --git a/src/montgomery/point.rs b/src/montgomery/point.rs
index b8f3774..b97f552 100644
--- a/src/montgomery/point.rs
+++ b/src/montgomery/point.rs
@@ -117,7 +117,7 @@ impl Point {
         q
     }
     pub fn is_two_torsion(&self) -> bool {
-        self.c.y.is_zero() && self.c.z.is_one()
+        self.c.y.is_zero() && !self.c.z.is_zero()
     }
 }
 
-- 
2.43.0


From e1e5593708b0e1788bfe5cbd686e7404c30cf37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:33 +0000
Subject: [PATCH 08/15] fix: pulling (0,0) back from curve448 to edwards448

The formulas give all-zero coordinates there; the dual isogeny sends the point
to the identity.
---
 src/instances/rational_maps.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instances/rational_maps.rs b/src/instances/rational_maps.rs
index 9013e45..8841f19 100644
--- a/src/instances/rational_maps.rs
+++ b/src/instances/rational_maps.rs
@@ -132,7 +132,7 @@ impl RationalMap for Ed4isoMt448 {
         }
     }
     fn pull(&self, p: MtPoint) -> TePoint {
-        if p.is_zero() {
+        if p.is_zero() || p.is_two_torsion() {
             self.e0.identity()
         } else {
             let ff = self.e0.get_field();
-- 
2.43.0


From 28c96ce03fd1dbdf3ab7f6041a6d09aa5539076e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 09/15] fix: isogenies accept points in any representation

push read the projective x and y as affine coordinates, and panicked on the
point at infinity.
---
 src/instances/rational_maps.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/instances/rational_maps.rs b/src/instances/rational_maps.rs
index 8841f19..6aa4eaf 100644
--- a/src/instances/rational_maps.rs
+++ b/src/instances/rational_maps.rs
@@ -216,7 +216,14 @@ impl Isogeny for Isosecp256k1 {
     fn codomain(&self) -> Self::E1 {
         self.e1.clone()
     }
-    fn push(&self, p: <Self::E0 as EllipticCurve>::Point) -> <Self::E1 as EllipticCurve>::Point {
+    fn push(
+        &self,
+        mut p: <Self::E0 as EllipticCurve>::Point,
+    ) -> <Self::E1 as EllipticCurve>::Point {
+        if p.is_zero() {
+            return self.e1.identity();
+        }
+        p.normalize(); // the formulas take affine coordinates
         let f = self.e0.get_field();
         let x = p.c.x;
         let y = p.c.y;
@@ -329,7 +336,14 @@ impl Isogeny for IsoBls12381G1 {
     fn codomain(&self) -> Self::E1 {
         self.e1.clone()
     }
-    fn push(&self, p: <Self::E0 as EllipticCurve>::Point) -> <Self::E1 as EllipticCurve>::Point {
+    fn push(
+        &self,
+        mut p: <Self::E0 as EllipticCurve>::Point,
+    ) -> <Self::E1 as EllipticCurve>::Point {
+        if p.is_zero() {
+            return self.e1.identity();
+        }
+        p.normalize(); // the formulas take affine coordinates
         let f = self.e0.get_field();
         let x = p.c.x;
         let y = p.c.y;
-- 
2.43.0


From a81e50e12c79440166438de06571104f157ffa2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 10/15] fix: the BLS12-381 isogeny sends its rational kernel to
 the identity

push panicked with 'not valid point' on the ten points of order 11 in it.
---
 src/instances/rational_maps.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/instances/rational_maps.rs b/src/instances/rational_maps.rs
index 6aa4eaf..0960dd9 100644
--- a/src/instances/rational_maps.rs
+++ b/src/instances/rational_maps.rs
@@ -361,6 +361,9 @@ impl Isogeny for IsoBls12381G1 {
             y_den = (y_den * &x) + &self.y_den[i];
         }
 
+        if x_den.is_zero() {
+            return self.e1.identity(); // the point is in the kernel
+        }
         let xx = x_num / x_den;
         let yy = y * (y_num / y_den);
         self.e1.new_point(xx, yy)
-- 
2.43.0


From 2cd515ca878ae9c0dc7c03653b781424cbf9490f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 11/15] fix: exponentiation and square roots in quadratic
 extensions

They started from Fp2Elt::one(), which is unimplemented, and skipped the top
bit of every 32-bit digit of the exponent.
---
 src/quadraticfield/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quadraticfield/mod.rs b/src/quadraticfield/mod.rs
index 5d14e52..4b44e05 100644
--- a/src/quadraticfield/mod.rs
+++ b/src/quadraticfield/mod.rs
@@ -240,9 +240,9 @@ impl<'a, 'b> BitXor<&'b BigUint> for &'a Fp2Elt {
     #[inline]
     fn bitxor(self, exp: &'b BigUint) -> Self::Output {
         let v = exp.to_u32_digits();
-        let mut out = Fp2Elt::one();
+        let mut out = self.f.one();
         for vi in v.iter().rev() {
-            for j in (0..31).rev() {
+            for j in (0..32).rev() {
                 out = &out * &out;
                 let bit = (*vi >> j) & 1;
                 if bit == 1 {
-- 
2.43.0


From ab3e356a879062f3297f9fcbfa29e693995cc17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:58 +0000
Subject: [PATCH 12/15] fix: inversion in quadratic extensions

The inverse of a+bi is (a-bi)/(a^2+b^2); the sign of b was lost, so neither
x*(1/x) = 1 nor (a/b)*b = a held.
---
 src/quadraticfield/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quadraticfield/mod.rs b/src/quadraticfield/mod.rs
index 4b44e05..930755b 100644
--- a/src/quadraticfield/mod.rs
+++ b/src/quadraticfield/mod.rs
@@ -189,7 +189,7 @@ impl Fp2Elt {
         let n0 = &self.n[0];
         let n1 = &self.n[1];
         let den = 1u32 / &(n0 * n0 + n1 * n1);
-        self.elt(&den * n0, den * n1)
+        self.elt(&den * n0, -(den * n1))
     }
 }
 
-- 
2.43.0


From 154beb12464adc656be483985a7b15871da887b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:58 +0000
Subject: [PATCH 13/15] fix: sign of elements of quadratic extensions

sgn0 combined the +1/-1 signs of the coordinates as if they were bits, so many
elements had the same sign as their negative.
---
 src/quadraticfield/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/quadraticfield/mod.rs b/src/quadraticfield/mod.rs
index 930755b..91c083d 100644
--- a/src/quadraticfield/mod.rs
+++ b/src/quadraticfield/mod.rs
@@ -331,9 +331,12 @@ impl Sqrt for Fp2Elt {
 impl Sgn0 for Fp2Elt {
     fn sgn0(&self) -> i32 {
         let s0 = self.n[0].sgn0();
-        let z0 = self.n[0].is_zero() as i32;
         let s1 = self.n[1].sgn0();
-        s0 | (z0 ^ s1)
+        if self.n[0].is_zero() {
+            s1
+        } else {
+            s0
+        }
     }
 }
 
-- 
2.43.0


From 2fef7281d6c4f0fcd644466e8eeb94796c767803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:58 +0000
Subject: [PATCH 14/15] fix: zero is a square in quadratic extensions, as it is
 in prime fields

---
 src/quadraticfield/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quadraticfield/mod.rs b/src/quadraticfield/mod.rs
index 91c083d..64108a4 100644
--- a/src/quadraticfield/mod.rs
+++ b/src/quadraticfield/mod.rs
@@ -304,7 +304,7 @@ impl Sqrt for Fp2Elt {
         let t0 = n0 * n0 + n1 * n1;
         let exp = (self.f.get_modulus() - 1u32) >> 1usize;
         let t1 = &t0 ^ &exp;
-        t1 == self.f.0.base.one()
+        t1.is_one() || t1.is_zero()
     }
     fn sqrt(&self) -> Fp2Elt {
         let pre = self.f.get_sqrt_precmp();
-- 
2.43.0


From 243d368644cc6b6da6728630d70357b5eb4e7442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:36 +0000
Subject: [PATCH 15/15] fix: normalize leaves the point intact when it fails
 midway

---
 src/edwards/point.rs     | 10 +++++++---
 src/montgomery/point.rs  |  7 +++++--
 src/weierstrass/point.rs |  7 +++++--
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/edwards/point.rs b/src/edwards/point.rs
index bdc7773..ac50392 100644
--- a/src/edwards/point.rs
+++ b/src/edwards/point.rs
@@ -55,9 +55,13 @@ impl Encode for Point {
 impl Point {
     pub fn normalize(&mut self) {
         let inv_z = 1u32 / &self.c.z;
-        self.c.x = &self.c.x * &inv_z;
-        self.c.y = &self.c.y * &inv_z;
-        self.c.t = &self.c.x * &self.c.y;
+        // nothing is replaced until everything has been computed.
+        let x = &self.c.x * &inv_z;
+        let y = &self.c.y * &inv_z;
+        let t = &x * &y;
+        self.c.x = x;
+        self.c.y = y;
+        self.c.t = t;
         self.c.z.set_one();
     }
     fn core_neg(&self) -> Point {
diff --git a/src/montgomery/point.rs b/src/montgomery/point.rs
index b97f552..526ff5b 100644
--- a/src/montgomery/point.rs
+++ b/src/montgomery/point.rs
@@ -70,8 +70,11 @@ impl Point {
             return;
         }
         let inv_z = 1u32 / &self.c.z;
-        self.c.x = &self.c.x * &inv_z;
-        self.c.y = &self.c.y * &inv_z;
+        // nothing is replaced until everything has been computed.
+        let x = &self.c.x * &inv_z;
+        let y = &self.c.y * &inv_z;
+        self.c.x = x;
+        self.c.y = y;
         self.c.z.set_one();
     }
     fn core_neg(&self) -> Point {
diff --git a/src/weierstrass/point.rs b/src/weierstrass/point.rs
index 2b4bc4c..fc59e65 100644
--- a/src/weierstrass/point.rs
+++ b/src/weierstrass/point.rs
@@ -75,8 +75,11 @@ impl Point {
             return;
         }
         let inv_z = 1u32 / &self.c.z;
-        self.c.x = &self.c.x * &inv_z;
-        self.c.y = &self.c.y * &inv_z;
+        // nothing is replaced until everything has been computed.
+        let x = &self.c.x * &inv_z;
+        let y = &self.c.y * &inv_z;
+        self.c.x = x;
+        self.c.y = y;
         self.c.z.set_one();
     }
     fn core_neg(&self) -> <Curve as EllipticCurve>::Point {
-- 
2.43.0

