From 47333a571cdc00266043c45af8f0b10b37cf725f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:03 +0000
Subject: [PATCH 01/21] fix: negate the imaginary part in the inverse of Fp2
 elements

---
 src/quadraticfield/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quadraticfield/mod.rs b/src/quadraticfield/mod.rs
index 95a7ed0..23a4d0b 100644
--- a/src/quadraticfield/mod.rs
+++ b/src/quadraticfield/mod.rs
@@ -189,7 +189,7 @@ impl Fp2Elt {
         let n0 = &self.n[0];
         let n1 = &self.n[1];
         let den = 1u32 / &(n0 * n0 + n1 * n1);
-        self.elt(&den * n0, den * n1)
+        self.elt(&den * n0, -(den * n1))
     }
 }
 
-- 
2.43.0


From 327eb1ea97e400ad3fd0e67c864e158fee820812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:31 +0000
Subject: [PATCH 02/21] fix: exponentiation of Fp2 elements

Start from the one of the element's field (Fp2Elt::one is unimplemented)
and read all 32 bits of each digit of the exponent.
---
 src/quadraticfield/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quadraticfield/mod.rs b/src/quadraticfield/mod.rs
index 23a4d0b..8506377 100644
--- a/src/quadraticfield/mod.rs
+++ b/src/quadraticfield/mod.rs
@@ -240,9 +240,9 @@ impl<'a, 'b> BitXor<&'b BigUint> for &'a Fp2Elt {
     #[inline]
     fn bitxor(self, exp: &'b BigUint) -> Self::Output {
         let v = exp.to_u32_digits();
-        let mut out = Fp2Elt::one();
+        let mut out = self.f.one();
         for vi in v.iter().rev() {
-            for j in (0..31).rev() {
+            for j in (0..32).rev() {
                 out = &out * &out;
                 let bit = (*vi >> j) & 1;
                 if bit == 1 {
-- 
2.43.0


From 7a98ba3d7da342cacd087e3c66e87121dc1e71ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:33 +0000
Subject: [PATCH 03/21] fix: zero is a square in Fp2

---
 src/quadraticfield/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quadraticfield/mod.rs b/src/quadraticfield/mod.rs
index 8506377..45ea15b 100644
--- a/src/quadraticfield/mod.rs
+++ b/src/quadraticfield/mod.rs
@@ -298,7 +298,7 @@ impl Sqrt for Fp2Elt {
         let t0 = n0 * n0 + n1 * n1;
         let exp = (self.f.get_modulus() - 1u32) >> 1usize;
         let t1 = &t0 ^ &exp;
-        t1 == self.f.0.base.one()
+        t1.is_one() || t1.is_zero()
     }
     fn sqrt(&self) -> Fp2Elt {
         let pre = self.f.get_sqrt_precmp();
-- 
2.43.0


From f9981259a88de9df1d7694fa2f5ed2916ad48e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:34 +0000
Subject: [PATCH 04/21] fix: sign of Fp2 elements

The sign is the one of the first coordinate that is not zero; the bitwise
formula assumed signs 0 and 1, but they are 1 and -1.
---
 src/quadraticfield/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/quadraticfield/mod.rs b/src/quadraticfield/mod.rs
index 45ea15b..6e529e4 100644
--- a/src/quadraticfield/mod.rs
+++ b/src/quadraticfield/mod.rs
@@ -325,9 +325,12 @@ impl Sqrt for Fp2Elt {
 impl Sgn0 for Fp2Elt {
     fn sgn0(&self) -> i32 {
         let s0 = self.n[0].sgn0();
-        let z0 = self.n[0].is_zero() as i32;
         let s1 = self.n[1].sgn0();
-        s0 | (z0 ^ s1)
+        if self.n[0].is_zero() {
+            s1
+        } else {
+            s0
+        }
     }
 }
 
-- 
2.43.0


From 7589471aea1a5ff453afa4c81f79deda7af49e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:36 +0000
Subject: [PATCH 05/21] fix: zero to the power of a multiple of p-1 is zero

The signed exponent was reduced to 0, which gives 1.
---
 src/primefield/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/primefield/mod.rs b/src/primefield/mod.rs
index de6f7bf..9e0604d 100644
--- a/src/primefield/mod.rs
+++ b/src/primefield/mod.rs
@@ -238,8 +238,13 @@ impl<'a, 'b> BitXor<&'b BigInt> for &'a FpElt {
     type Output = FpElt;
     #[inline]
     fn bitxor(self, exp: &'b BigInt) -> Self::Output {
-        let expo = &exp.mod_floor(&(&self.f.0.p - 1)).to_biguint().unwrap();
-        self ^ expo
+        let order = &self.f.0.p - 1;
+        let mut expo = exp.mod_floor(&order);
+        if expo.is_zero() && !exp.is_zero() {
+            // 0^(p-1) is 0, whereas 0^0 is 1
+            expo = order;
+        }
+        self ^ &expo.to_biguint().unwrap()
     }
 }
 
-- 
2.43.0


From 3725e115293d50135d1f713c49808167bbead9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:37 +0000
Subject: [PATCH 06/21] fix: concurrent square roots on a shared field panicked

The cache of precomputed values was always borrowed mutably, so two threads
reaching it together panicked in AtomicRefCell.
---
 src/primefield/mod.rs     | 16 +++++++++++-----
 src/quadraticfield/mod.rs | 16 +++++++++++-----
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/primefield/mod.rs b/src/primefield/mod.rs
index 9e0604d..204ddcc 100644
--- a/src/primefield/mod.rs
+++ b/src/primefield/mod.rs
@@ -259,11 +259,17 @@ enum SqrtPrecmp {
 }
 impl Fp {
     fn get_sqrt_precmp(&self) -> SqrtPrecmp {
-        self.0
-            .sqrt_precmp
-            .borrow_mut()
-            .get_or_insert(self.calc_sqrt_precmp())
-            .clone()
+        if let Ok(cache) = self.0.sqrt_precmp.try_borrow() {
+            if let Some(pre) = cache.as_ref() {
+                return pre.clone();
+            }
+        }
+        let pre = self.calc_sqrt_precmp();
+        // another thread may be using the cache: then it is left for later
+        if let Ok(mut cache) = self.0.sqrt_precmp.try_borrow_mut() {
+            *cache = Some(pre.clone());
+        }
+        pre
     }
     fn calc_sqrt_precmp(&self) -> SqrtPrecmp {
         let p = &self.0.p;
diff --git a/src/quadraticfield/mod.rs b/src/quadraticfield/mod.rs
index 6e529e4..16a1498 100644
--- a/src/quadraticfield/mod.rs
+++ b/src/quadraticfield/mod.rs
@@ -272,11 +272,17 @@ enum SqrtPrecmp {
 
 impl Fp2 {
     fn get_sqrt_precmp(&self) -> SqrtPrecmp {
-        self.0
-            .sqrt_precmp
-            .borrow_mut()
-            .get_or_insert(self.calc_sqrt_precmp())
-            .clone()
+        if let Ok(cache) = self.0.sqrt_precmp.try_borrow() {
+            if let Some(pre) = cache.as_ref() {
+                return pre.clone();
+            }
+        }
+        let pre = self.calc_sqrt_precmp();
+        // another thread may be using the cache: then it is left for later
+        if let Ok(mut cache) = self.0.sqrt_precmp.try_borrow_mut() {
+            *cache = Some(pre.clone());
+        }
+        pre
     }
     fn calc_sqrt_precmp(&self) -> SqrtPrecmp {
         let p = self.get_modulus();
-- 
2.43.0


From 4fadce96a15183788f44b84b242634604a024225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:39 +0000
Subject: [PATCH 07/21] fix: fields of characteristic 5 mod 8 were never freed

The cached square root of -1 was a field element, which owns its field:
a reference cycle. Keep the integer instead.
---
 src/primefield/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/primefield/mod.rs b/src/primefield/mod.rs
index 204ddcc..bc2442a 100644
--- a/src/primefield/mod.rs
+++ b/src/primefield/mod.rs
@@ -253,7 +253,7 @@ impl CMov for FpElt {}
 #[derive(Clone, std::cmp::PartialEq)]
 enum SqrtPrecmp {
     P3MOD4 { exp: BigInt },
-    P5MOD8 { exp: BigInt, sqrt_minus_one: FpElt },
+    P5MOD8 { exp: BigInt, sqrt_minus_one: BigInt },
     P9MOD16,
     P1MOD16,
 }
@@ -285,7 +285,7 @@ impl Fp {
             t0 = t0 + self.one(); //       2t^2+1
             t0 = t0 * t; //             t(2t^2+1)
             let exp = k + 1;
-            let sqrt_minus_one = t0;
+            let sqrt_minus_one = t0.n;
             SqrtPrecmp::P5MOD8 {
                 exp,
                 sqrt_minus_one,
@@ -316,7 +316,7 @@ impl Sqrt for FpElt {
                 let t0 = self ^ &exp;
                 let t1 = &t0 ^ 2u32;
                 let e = *self == t1;
-                let t1 = &t0 * sqrt_minus_one;
+                let t1 = self.red(&t0.n * sqrt_minus_one);
                 FpElt::cmov(&t1, &t0, e)
             }
             SqrtPrecmp::P9MOD16 => unimplemented!(),
-- 
2.43.0


From 2db789d3fb14ecd94afb9568d91a977a7ec813da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 08/21] fix: iterating over the bits of the zero scalar

l - 1 underflowed, so multiplying a point by zero panicked in debug builds.
---
 src/edwards/scalar.rs     | 2 +-
 src/montgomery/scalar.rs  | 2 +-
 src/weierstrass/scalar.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/edwards/scalar.rs b/src/edwards/scalar.rs
index c941de1..7f89f6c 100644
--- a/src/edwards/scalar.rs
+++ b/src/edwards/scalar.rs
@@ -144,7 +144,7 @@ impl std::iter::Iterator for Iterino {
 impl Scalar {
     pub fn iter_lr(&self) -> impl std::iter::Iterator<Item = bool> {
         let l = self.k.bits() as usize;
-        let i = l - 1usize;
+        let (i, _) = l.overflowing_sub(1usize);
         let (_, v) = self.k.to_u32_digits();
         let is_lr = true;
         Iterino { l, i, v, is_lr }
diff --git a/src/montgomery/scalar.rs b/src/montgomery/scalar.rs
index 15f8d6c..eb3e4b5 100644
--- a/src/montgomery/scalar.rs
+++ b/src/montgomery/scalar.rs
@@ -138,7 +138,7 @@ impl std::iter::Iterator for Iterino {
 impl Scalar {
     pub fn iter_lr(&self) -> impl std::iter::Iterator<Item = bool> {
         let l = self.k.bits() as usize;
-        let i = l - 1usize;
+        let (i, _) = l.overflowing_sub(1usize);
         let (_, v) = self.k.to_u32_digits();
         let is_lr = true;
         Iterino { l, i, v, is_lr }
diff --git a/src/weierstrass/scalar.rs b/src/weierstrass/scalar.rs
index 1db28da..935bd8b 100644
--- a/src/weierstrass/scalar.rs
+++ b/src/weierstrass/scalar.rs
@@ -138,7 +138,7 @@ impl std::iter::Iterator for Iterino {
 impl Scalar {
     pub fn iter_lr(&self) -> impl std::iter::Iterator<Item = bool> {
         let l = self.k.bits() as usize;
-        let i = l - 1usize;
+        let (i, _) = l.overflowing_sub(1usize);
         let (_, v) = self.k.to_u32_digits();
         let is_lr = true;
         Iterino { l, i, v, is_lr }
-- 
2.43.0


From 72cb147bb4d40dc021a1c1e135367610cacbbb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:48 +0000
Subject: [PATCH 09/21] fix: normalization of the point at infinity

It turned it into (0:0:1), which is not the point at infinity, nor in
general a point, and encode() returned that instead of a zero byte.
---
 src/montgomery/point.rs  | 5 +++++
 src/weierstrass/point.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/montgomery/point.rs b/src/montgomery/point.rs
index 72c193a..30e682d 100644
--- a/src/montgomery/point.rs
+++ b/src/montgomery/point.rs
@@ -65,6 +65,11 @@ impl Encode for Point {
 
 impl Point {
     pub fn normalize(&mut self) {
+        if self.is_zero() {
+            // the point at infinity has no affine coordinates
+            self.c.y.set_one();
+            return;
+        }
         let inv_z = 1u32 / &self.c.z;
         self.c.x = &self.c.x * &inv_z;
         self.c.y = &self.c.y * &inv_z;
diff --git a/src/weierstrass/point.rs b/src/weierstrass/point.rs
index 8fb2239..beffe6a 100644
--- a/src/weierstrass/point.rs
+++ b/src/weierstrass/point.rs
@@ -70,6 +70,11 @@ impl Encode for Point {
 
 impl Point {
     pub fn normalize(&mut self) {
+        if self.is_zero() {
+            // the point at infinity has no affine coordinates
+            self.c.y.set_one();
+            return;
+        }
         let inv_z = 1u32 / &self.c.z;
         self.c.x = &self.c.x * &inv_z;
         self.c.y = &self.c.y * &inv_z;
-- 
2.43.0


From f93cf50ef133b52b3e3c9628549381d3995e4b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:50 +0000
Subject: [PATCH 10/21] fix: decoding a single byte

The coordinate was sliced before looking at the length, so the encoding of
the point at infinity (and any other byte) panicked.
---
 src/montgomery/curve.rs  | 7 +++++++
 src/weierstrass/curve.rs | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/montgomery/curve.rs b/src/montgomery/curve.rs
index 5139f6d..eb4158c 100644
--- a/src/montgomery/curve.rs
+++ b/src/montgomery/curve.rs
@@ -99,6 +99,13 @@ impl Decode for Curve {
             return Err(Error::new(ErrorKind::Other, "Wrong input buffer size."));
         }
         let tag = buf[0];
+        if blen == 1 {
+            // only the point at infinity takes a single byte
+            return match tag {
+                0x00 => Ok(self.identity()),
+                _ => Err(Error::new(ErrorKind::Other, "Invalid tag specified")),
+            };
+        }
         // check x coordinate is in the valid range, Sign::Plus => > 0
         let x_val = BigInt::from_bytes_be(Sign::Plus, &buf[1..size + 1]);
         let p = self.f.get_modulus();
diff --git a/src/weierstrass/curve.rs b/src/weierstrass/curve.rs
index f1a6322..4c5eebc 100644
--- a/src/weierstrass/curve.rs
+++ b/src/weierstrass/curve.rs
@@ -97,6 +97,13 @@ impl Decode for Curve {
             return Err(Error::new(ErrorKind::Other, "Wrong input buffer size."));
         }
         let tag = buf[0];
+        if blen == 1 {
+            // only the point at infinity takes a single byte
+            return match tag {
+                0x00 => Ok(self.identity()),
+                _ => Err(Error::new(ErrorKind::Other, "Invalid tag specified")),
+            };
+        }
         // check x coordinate is in the valid range, Sign::Plus => > 0
         let x_val = BigInt::from_bytes_be(Sign::Plus, &buf[1..size + 1]);
         let p = self.f.get_modulus();
-- 
2.43.0


From 5c091d78d9aa4153b396ff98eec09b5b4fed7e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:51 +0000
Subject: [PATCH 11/21] fix: decoding coordinates that are not on the curve

decode() panicked instead of returning an error.
---
 src/edwards/curve.rs     | 19 ++++++++++++++++++-
 src/montgomery/curve.rs  | 20 ++++++++++++++++++--
 src/weierstrass/curve.rs | 20 ++++++++++++++++++--
 3 files changed, 54 insertions(+), 5 deletions(-)

diff --git a/src/edwards/curve.rs b/src/edwards/curve.rs
index 5b61dd0..5392ef2 100644
--- a/src/edwards/curve.rs
+++ b/src/edwards/curve.rs
@@ -36,6 +36,23 @@ impl Curve {
         let pt = Point { e, c };
         do_if_eq!(self.is_on_curve(&pt), pt, ERR_ECC_NEW)
     }
+    /// point with the decoded affine coordinates, if it lies on the curve
+    fn decoded_point(&self, x: FpElt, y: FpElt) -> Result<Point, Error> {
+        let pt = Point {
+            c: ProyCoordinates {
+                t: &x * &y,
+                x,
+                y,
+                z: self.f.one(),
+            },
+            e: self.clone(),
+        };
+        if self.is_on_curve(&pt) {
+            Ok(pt)
+        } else {
+            Err(Error::new(ErrorKind::Other, "Not a point of the curve"))
+        }
+    }
 }
 
 impl EllipticCurve for Curve {
@@ -142,7 +159,7 @@ impl Decode for Curve {
         if tag != x_0 {
             x = -x;
         }
-        Ok(self.new_point(x, y))
+        self.decoded_point(x, y)
     }
 }
 
diff --git a/src/montgomery/curve.rs b/src/montgomery/curve.rs
index eb4158c..999163a 100644
--- a/src/montgomery/curve.rs
+++ b/src/montgomery/curve.rs
@@ -39,6 +39,22 @@ impl Curve {
         let pt = Point { e, c };
         do_if_eq!(self.is_on_curve(&pt), pt, ERR_ECC_NEW)
     }
+    /// point with the decoded affine coordinates, if it lies on the curve
+    fn decoded_point(&self, x: FpElt, y: FpElt) -> Result<Point, Error> {
+        let pt = Point {
+            c: ProyCoordinates {
+                x,
+                y,
+                z: self.f.one(),
+            },
+            e: self.clone(),
+        };
+        if self.is_on_curve(&pt) {
+            Ok(pt)
+        } else {
+            Err(Error::new(ErrorKind::Other, "Not a point of the curve"))
+        }
+    }
 }
 
 impl EllipticCurve for Curve {
@@ -136,7 +152,7 @@ impl Decode for Curve {
                     return Err(Error::new(ErrorKind::Other, "Invalid y coordinate"));
                 }
                 let y = self.f.elt(y_val);
-                Ok(self.new_point(x, y))
+                self.decoded_point(x, y)
             }
             0x02 | 0x03 => {
                 if buf.len() != size + 1 {
@@ -161,7 +177,7 @@ impl Decode for Curve {
                 if tag != deser_tag {
                     y = -y;
                 }
-                Ok(self.new_point(x, y))
+                self.decoded_point(x, y)
             }
             _ => Err(Error::new(ErrorKind::Other, "Invalid tag specified")),
         }
diff --git a/src/weierstrass/curve.rs b/src/weierstrass/curve.rs
index 4c5eebc..98c4622 100644
--- a/src/weierstrass/curve.rs
+++ b/src/weierstrass/curve.rs
@@ -35,6 +35,22 @@ impl Curve {
         let pt = Point { e, c };
         do_if_eq!(self.is_on_curve(&pt), pt, ERR_ECC_NEW)
     }
+    /// point with the decoded affine coordinates, if it lies on the curve
+    fn decoded_point(&self, x: FpElt, y: FpElt) -> Result<Point, Error> {
+        let pt = Point {
+            c: ProyCoordinates {
+                x,
+                y,
+                z: self.f.one(),
+            },
+            e: self.clone(),
+        };
+        if self.is_on_curve(&pt) {
+            Ok(pt)
+        } else {
+            Err(Error::new(ErrorKind::Other, "Not a point of the curve"))
+        }
+    }
 }
 
 impl EllipticCurve for Curve {
@@ -134,7 +150,7 @@ impl Decode for Curve {
                     return Err(Error::new(ErrorKind::Other, "Invalid y coordinate"));
                 }
                 let y = self.f.elt(y_val);
-                Ok(self.new_point(x, y))
+                self.decoded_point(x, y)
             }
             0x02 | 0x03 => {
                 if buf.len() != size + 1 {
@@ -156,7 +172,7 @@ impl Decode for Curve {
                 if tag != deser_tag {
                     y = -y;
                 }
-                Ok(self.new_point(x, y))
+                self.decoded_point(x, y)
             }
             _ => Err(Error::new(ErrorKind::Other, "Invalid tag specified")),
         }
-- 
2.43.0


From ccfa6355fa95e1293542fd1a457ccd061b9c49f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:53 +0000
Subject: [PATCH 12/21] fix: reject the compressed form of a negative zero

A point with y=0 was decoded from the tags 2 and 3, whereas only 2 is its
encoding.
---
 src/montgomery/curve.rs  | 3 +++
 src/weierstrass/curve.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/montgomery/curve.rs b/src/montgomery/curve.rs
index 999163a..14a105d 100644
--- a/src/montgomery/curve.rs
+++ b/src/montgomery/curve.rs
@@ -171,6 +171,9 @@ impl Decode for Curve {
                 let b_inv = &one / &self.b;
                 let yy = &byy * b_inv;
                 let y_sqrt = yy.sqrt();
+                if y_sqrt.is_zero() && tag == 0x03 {
+                    return Err(Error::new(ErrorKind::Other, "Invalid sign of y"));
+                }
                 let s = y_sqrt.sgn0();
                 let deser_tag = (((s >> 1) & 0x1) + 2) as u8;
                 let mut y = y_sqrt;
diff --git a/src/weierstrass/curve.rs b/src/weierstrass/curve.rs
index 98c4622..c1cda18 100644
--- a/src/weierstrass/curve.rs
+++ b/src/weierstrass/curve.rs
@@ -166,6 +166,9 @@ impl Decode for Curve {
                 let xxx_ax = &xx_a * &x;
                 let xxx_ax_b = &xxx_ax + &self.b;
                 let y_sqrt = xxx_ax_b.sqrt();
+                if y_sqrt.is_zero() && tag == 0x03 {
+                    return Err(Error::new(ErrorKind::Other, "Invalid sign of y"));
+                }
                 let s = y_sqrt.sgn0();
                 let deser_tag = (((s >> 1) & 0x1) + 2) as u8;
                 let mut y = y_sqrt;
-- 
2.43.0


From e3e3773a7e21235e53672cef24857b79bc6e7343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 13/21] fix: is_zero on the Edwards point of order two

It was also true for (0,-1).
---
 src/edwards/point.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edwards/point.rs b/src/edwards/point.rs
index f456424..bdc7773 100644
--- a/src/edwards/point.rs
+++ b/src/edwards/point.rs
@@ -29,7 +29,7 @@ pub struct Point {
 impl ScMulRef<Scalar> for Point {}
 impl EcPoint<Scalar> for Point {
     fn is_zero(&self) -> bool {
-        self.c.x.is_zero() && !self.c.y.is_zero() && self.c.t.is_zero() && !self.c.z.is_zero()
+        self.c.x.is_zero() && self.c.y == self.c.z && self.c.t.is_zero() && !self.c.z.is_zero()
     }
 }
 impl Encode for Point {
-- 
2.43.0


From 637a47b45143d913f72b13e44fb33bdb4d47ef1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 14/21] fix: is_two_torsion on unnormalized points

It was false for (0:0:z) with z other than one.
---
 src/montgomery/point.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/montgomery/point.rs b/src/montgomery/point.rs
index 30e682d..eaad3c9 100644
--- a/src/montgomery/point.rs
+++ b/src/montgomery/point.rs
@@ -118,7 +118,7 @@ impl Point {
         q
     }
     pub fn is_two_torsion(&self) -> bool {
-        self.c.y.is_zero() && self.c.z.is_one()
+        self.c.y.is_zero() && !self.c.z.is_zero()
     }
 }
 
-- 
2.43.0


From 11f82ef71bc8035f2f44cc3e2811fe459c72c548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:57 +0000
Subject: [PATCH 15/21] fix: comparing points of curves over different fields

The coordinates were multiplied before comparing the curves, which panicked.
---
 src/edwards/point.rs     | 5 ++++-
 src/montgomery/point.rs  | 5 ++++-
 src/weierstrass/point.rs | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/edwards/point.rs b/src/edwards/point.rs
index bdc7773..8af4003 100644
--- a/src/edwards/point.rs
+++ b/src/edwards/point.rs
@@ -107,13 +107,16 @@ impl Eq for Point {}
 
 impl PartialEq for Point {
     fn eq(&self, other: &Self) -> bool {
+        if self.e != other.e {
+            return false;
+        }
         let x1z2 = &self.c.x * &other.c.z;
         let z1x2 = &self.c.z * &other.c.x;
         let y1z2 = &self.c.y * &other.c.z;
         let z1y2 = &self.c.z * &other.c.y;
         let t1z2 = &self.c.t * &other.c.z;
         let z1t2 = &self.c.z * &other.c.t;
-        self.e == other.e && x1z2 == z1x2 && y1z2 == z1y2 && t1z2 == z1t2
+        x1z2 == z1x2 && y1z2 == z1y2 && t1z2 == z1t2
     }
 }
 
diff --git a/src/montgomery/point.rs b/src/montgomery/point.rs
index eaad3c9..8f4392a 100644
--- a/src/montgomery/point.rs
+++ b/src/montgomery/point.rs
@@ -126,11 +126,14 @@ impl Eq for Point {}
 
 impl PartialEq for Point {
     fn eq(&self, other: &Self) -> bool {
+        if self.e != other.e {
+            return false;
+        }
         let x1z2 = &self.c.x * &other.c.z;
         let z1x2 = &self.c.z * &other.c.x;
         let y1z2 = &self.c.y * &other.c.z;
         let z1y2 = &self.c.z * &other.c.y;
-        self.e == other.e && x1z2 == z1x2 && y1z2 == z1y2
+        x1z2 == z1x2 && y1z2 == z1y2
     }
 }
 
diff --git a/src/weierstrass/point.rs b/src/weierstrass/point.rs
index beffe6a..ecfb1d4 100644
--- a/src/weierstrass/point.rs
+++ b/src/weierstrass/point.rs
@@ -211,11 +211,14 @@ impl Eq for Point {}
 
 impl PartialEq for Point {
     fn eq(&self, other: &Self) -> bool {
+        if self.e != other.e {
+            return false;
+        }
         let x1z2 = &self.c.x * &other.c.z;
         let z1x2 = &self.c.z * &other.c.x;
         let y1z2 = &self.c.y * &other.c.z;
         let z1y2 = &self.c.z * &other.c.y;
-        self.e == other.e && x1z2 == z1x2 && y1z2 == z1y2
+        x1z2 == z1x2 && y1z2 == z1y2
     }
 }
 
-- 
2.43.0


From 3051c1abdcec2c30e104ff0052cb00820ea08e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:59 +0000
Subject: [PATCH 16/21] fix: addition on Montgomery curves with b other than
 one

The formulas did not involve b, so sums were not on the curve.
---
 src/montgomery/point.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/montgomery/point.rs b/src/montgomery/point.rs
index 8f4392a..3ed2d93 100644
--- a/src/montgomery/point.rs
+++ b/src/montgomery/point.rs
@@ -85,8 +85,9 @@ impl Point {
     fn core_add(&self, p: &Point) -> Point {
         let (x1, y1, z1) = (&self.c.x, &self.c.y, &self.c.z);
         let (x2, y2, z2) = (&p.c.x, &p.c.y, &p.c.z);
-        let (a_ec, s_ec) = (&self.e.a, &self.e.s);
-        let (t0, t1, t2) = (x1 * x2, y1 * y2, z1 * z2);
+        let (a_ec, b_ec, s_ec) = (&self.e.a, &self.e.b, &self.e.s);
+        let bs_ec = b_ec * s_ec;
+        let (t0, t1, t2) = (x1 * x2, b_ec * &(y1 * y2), z1 * z2);
         let (t3, t4) = (x1 * y2, x2 * y1);
         let (t5, t6) = (y1 * z2, y2 * z1);
         let (t7, t8) = (x1 * z2, x2 * z1);
@@ -95,12 +96,12 @@ impl Point {
         let rr = &t5 + &t6;
         let tt = &ta - &t1;
         let vv = t9 * a_ec + &t0 + &t0 + &t0 + &t2;
-        let ss = (&t3 - &t4) * s_ec + t0 - t2;
+        let ss = (&t3 - &t4) * &bs_ec + t0 - t2;
         let uu = (t7 - t8) * s_ec - t3 - t4;
-        let ww = (t5 - t6) * s_ec + ta + t1;
-        let x3 = &rr * &ss - &tt * &uu;
+        let ww = (t5 - t6) * &bs_ec + ta + t1;
+        let x3 = (&rr * &ss - &tt * &uu) * b_ec;
         let y3 = tt * &ww - &vv * &ss;
-        let z3 = vv * uu - rr * ww;
+        let z3 = (vv * uu - rr * ww) * b_ec;
         self.e.new_proy_point(ProyCoordinates {
             x: x3,
             y: y3,
-- 
2.43.0


From aa9bfa8962ed04f16d154d1b482c57515b50d789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:43 +0000
Subject: [PATCH 17/21] fix: image in curve25519 of the Edwards point of order
 two

(0,-1) is mapped to (0,0); the formulas give no point there.
---
 src/instances/rational_maps.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/instances/rational_maps.rs b/src/instances/rational_maps.rs
index 568c194..e23c41e 100644
--- a/src/instances/rational_maps.rs
+++ b/src/instances/rational_maps.rs
@@ -1,3 +1,5 @@
+use num_traits::identities::Zero;
+
 use crate::edwards;
 use crate::edwards::Curve as EdCurve;
 use crate::edwards::Point as TePoint;
@@ -42,6 +44,10 @@ impl RationalMap for Ed2Mt25519 {
     fn push(&self, p: TePoint) -> MtPoint {
         if p.is_zero() {
             self.e1.identity()
+        } else if p.c.x.is_zero() {
+            // the other point with x=0 is (0,-1), of order two
+            let ff = self.e1.get_field();
+            self.e1.new_point(ff.zero(), ff.zero())
         } else {
             let (x, y, z) = (&p.c.x, &p.c.y, &p.c.z);
             let t0 = z + y;
-- 
2.43.0


From e54c74e98528ee1661793af27fef1be8df58053e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:45 +0000
Subject: [PATCH 18/21] fix: image in edwards448 of the Montgomery point of
 order two

(0,0) is in the kernel of the 4-isogeny; the formulas give no point there.
---
 src/instances/rational_maps.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instances/rational_maps.rs b/src/instances/rational_maps.rs
index e23c41e..b22bcfb 100644
--- a/src/instances/rational_maps.rs
+++ b/src/instances/rational_maps.rs
@@ -132,7 +132,7 @@ impl RationalMap for Ed4isoMt448 {
         }
     }
     fn pull(&self, p: MtPoint) -> TePoint {
-        if p.is_zero() {
+        if p.is_zero() || p.is_two_torsion() {
             self.e0.identity()
         } else {
             let ff = self.e0.get_field();
-- 
2.43.0


From 6e5bd5904456d2c4008d5d4bdce9a04b73844aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:46 +0000
Subject: [PATCH 19/21] fix: isogenies on unnormalized points and on their
 kernel

The rational functions were evaluated on projective coordinates as if they
were affine, and the kernel was not sent to the point at infinity.
---
 src/instances/rational_maps.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/instances/rational_maps.rs b/src/instances/rational_maps.rs
index b22bcfb..ffbcde2 100644
--- a/src/instances/rational_maps.rs
+++ b/src/instances/rational_maps.rs
@@ -217,6 +217,11 @@ impl Isogeny for Isosecp256k1 {
         self.e1.clone()
     }
     fn push(&self, p: <Self::E0 as EllipticCurve>::Point) -> <Self::E1 as EllipticCurve>::Point {
+        if p.is_zero() {
+            return self.e1.identity();
+        }
+        let mut p = p;
+        p.normalize();
         let f = self.e0.get_field();
         let x = p.c.x;
         let y = p.c.y;
@@ -330,6 +335,11 @@ impl Isogeny for IsoBls12381G1 {
         self.e1.clone()
     }
     fn push(&self, p: <Self::E0 as EllipticCurve>::Point) -> <Self::E1 as EllipticCurve>::Point {
+        if p.is_zero() {
+            return self.e1.identity();
+        }
+        let mut p = p;
+        p.normalize();
         let f = self.e0.get_field();
         let x = p.c.x;
         let y = p.c.y;
@@ -347,6 +357,10 @@ impl Isogeny for IsoBls12381G1 {
             y_den = (y_den * &x) + &self.y_den[i];
         }
 
+        if x_den.is_zero() {
+            // point of the kernel
+            return self.e1.identity();
+        }
         let xx = x_num / x_den;
         let yy = y * (y_num / y_den);
         self.e1.new_point(xx, yy)
-- 
2.43.0


From 0e4ad3108e881cd9f113382a528f6314f6610c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:47 +0000
Subject: [PATCH 20/21] fix: Elligator 2 on Montgomery curves with b other than
 one

The coefficient of the curve with b=1 is a/b, not a*b.
---
 src/montgomery/elligator2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/montgomery/elligator2.rs b/src/montgomery/elligator2.rs
index a74c048..449b025 100644
--- a/src/montgomery/elligator2.rs
+++ b/src/montgomery/elligator2.rs
@@ -19,7 +19,7 @@ impl Ell2 {
             panic!("wrong input parameters")
         } else {
             let inb = 1u32 / &e.b;
-            let ca = &e.a / &inb;
+            let ca = &e.a * &inb;
             let cb = inb ^ 2u32;
             Ell2 { e, z, ca, cb }
         }
-- 
2.43.0


From 7288322a3176c57351e33852fbb5926a2de7d682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:49 +0000
Subject: [PATCH 21/21] fix: cofactor of the curve isogenous to BLS12-381 G1

Multiplying by 1-z takes every point of G1 to the subgroup of prime order, but
not those of the 11-isogenous curve, whose 11-torsion is cyclic. Use the
actual cofactor.
---
 src/instances/weier.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instances/weier.rs b/src/instances/weier.rs
index d648cf5..741f416 100644
--- a/src/instances/weier.rs
+++ b/src/instances/weier.rs
@@ -100,7 +100,7 @@ static BLS12381G1_11ISO_PARAMS: &Params = &Params {
     a: "0x144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d",
     b: "0x12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0",
     r: "52435875175126190479447740508185965837690552500527637822603658699938581184513",
-    h: "15132376222941642753",
+    h: "76329603384216526031706109802092473003",
     gx: "0x6a0ead062ba73a09984eb7351a2d851bc817625345ce033a6eb7d78242b6466c877e022dda626a79ddb85bce57997e2",
     gy: "0x3b89d8bb9326270e46b6b74e19f7b3f10082fbf1a46df72da50c6571b969afc570d6529350b1b9b05ab4fe5c29920b4",
 };
-- 
2.43.0

