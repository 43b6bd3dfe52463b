From 07ccd29dc22346ee304d3b1061ef26ab8338dfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 01/18] fix: adding the point at infinity on the right returns
 the left operand

---
 src/elliptic_curve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elliptic_curve.rs b/src/elliptic_curve.rs
index 5c8e3c8..d191d77 100644
--- a/src/elliptic_curve.rs
+++ b/src/elliptic_curve.rs
@@ -103,7 +103,7 @@ impl EllipticCurve {
         if point1.is_infinity() {
             return ECPoint::new(&point2.x, &point2.y, &point2.z);
         } else if point2.is_infinity() {
-            return ECPoint::new(&point1.x, &point2.y, &point2.z);
+            return ECPoint::new(&point1.x, &point1.y, &point1.z);
         }
         let p1 = self.canonicalize(point1);
         let p2 = self.canonicalize(point2);
-- 
2.43.0


From 42d80316b2d9577c5dc5237e531ba32316063118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 02/18] fix: multiplying a point by a negative scalar negates
 the result

---
 src/elliptic_curve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elliptic_curve.rs b/src/elliptic_curve.rs
index d191d77..64956d0 100644
--- a/src/elliptic_curve.rs
+++ b/src/elliptic_curve.rs
@@ -185,7 +185,7 @@ impl EllipticCurve {
             return ECPoint::infinity();
         } else if n < &Zero::zero() {
             let minus_np = self.multiply_scalar(point, &(-n));
-            return self.plus(&ECPoint::infinity(), &minus_np);
+            return self.negate(&minus_np);
         } else if n == &One::one() {
             return point.clone();
         }
-- 
2.43.0


From 49495f36eab4906b699717b6e43b5f820f2ceeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 03/18] fix: isogeny applies Velu's formulas modulo p

---
 src/elliptic_curve.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/elliptic_curve.rs b/src/elliptic_curve.rs
index 64956d0..e97a740 100644
--- a/src/elliptic_curve.rs
+++ b/src/elliptic_curve.rs
@@ -232,23 +232,19 @@ impl EllipticCurve {
     pub fn isogeny(&self, order: &BigInt) -> EllipticCurve {
         let pointvec = self.division_points(order);
         let points: vec::Vec<ECPoint> = pointvec.0.clone();
-        let is_odd_order = order.is_odd();
+        // Velu's formulas, summed over all points of the kernel but O
         let mut v = BigInt::from(0);
         let mut w = BigInt::from(0);
         for point in points {
             if !point.is_infinity() {
-                let gpx = (BigInt::from(3) * point.x.power(2) + &self.a).div_floor(&self.p);
-                let gpy = (- BigInt::from(2) * point.y).div_floor(&self.p);
-                let up = gpy.power(2).div_floor(&self.p);
-                let vp = if is_odd_order { gpx } else { gpx * BigInt::from(2) };
+                let vp = BigInt::from(3) * point.x.power(2) + &self.a;
+                let up = BigInt::from(2) * point.y.power(2);
                 v += vp.clone();
                 w += up + point.x * vp;
             }
         }
-        v = v.div_floor(&self.p);
-        w = w.div_floor(&self.p);
-        let a = (&self.a - BigInt::from(5) * v).div_floor(&self.p);
-        let b = (&self.b - BigInt::from(7) * w).div_floor(&self.p);
+        let a = (&self.a - BigInt::from(5) * v).mod_floor(&self.p);
+        let b = (&self.b - BigInt::from(7) * w).mod_floor(&self.p);
         EllipticCurve::new(&a, &b, &self.p)
     }
 }
-- 
2.43.0


From 33da8eb221a3f177eb7ce76e67d593c913bf4d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 04/18] fix: polynomial arithmetic keeps no terms with
 coefficient zero

---
 src/polynomial.rs | 9 +++++++--
 src/term.rs       | 8 +-------
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index b350937..2fbbc9b 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -64,7 +64,7 @@ impl_op_ex!(+= |a: &mut Polynomial, b: &term::Term| {
         if av.is_zero() {
             a.terms.remove(&b.monomial.clone());
         }
-    } else {
+    } else if !b.coef.is_zero() {
         a.terms.insert(b.monomial.clone(), b.coef.clone());
     }
 });
@@ -117,6 +117,9 @@ impl_op_ex!(* |a: &Polynomial, b: &Polynomial| -> Polynomial {
             let l = i.clone() * j;
             if let Some(lv) = pol.terms.get_mut(&l.monomial) {
                 *lv += &l.coef;
+                if lv.is_zero() {
+                    pol.terms.remove(&l.monomial);
+                }
             } else {
                 pol.terms.insert(l.monomial, l.coef);
             }
@@ -154,7 +157,9 @@ impl_op_ex!(/ |a: &Polynomial, b: &Polynomial| -> Polynomial {
             let (m, coef) = b.terms.iter().next().unwrap();
             let u2 = term::Term::from(m, coef); 
             let u = i / &u2;
-            pol.terms.insert(u.monomial, u.coef);
+            if !u.coef.is_zero() {
+                pol.terms.insert(u.monomial, u.coef);
+            }
         }
         pol
     } else {
diff --git a/src/term.rs b/src/term.rs
index e39847d..a24a7c3 100644
--- a/src/term.rs
+++ b/src/term.rs
@@ -35,13 +35,7 @@ impl One for Term {
 }
 
 impl_op_ex!(+ |a: &Term, b: &Term| -> polynomial::Polynomial {
-    let mut pol = a.clone().to_pol();
-    if let Some(av) = pol.terms.get_mut(&b.monomial) {
-        *av += b.coef.clone(); 
-    } else {
-        pol.terms.insert(b.monomial, b.coef.clone());
-    }
-    pol
+    a.to_pol() + b.to_pol()
 });
 
 impl_op_ex!(* |a: &Term, b: &Term| -> Term {
-- 
2.43.0


From c38f4f6af6fc2bd87f2de886e3cc31906d37d2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 05/18] fix: Polynomial::power_modulo with exponent zero is one

---
 src/polynomial.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 2fbbc9b..c28c5d4 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -328,6 +328,9 @@ impl Polynomial {
         assert!(*n >= Zero::zero());
         let mut b = self % p;
         let mut r: Polynomial = One::one();
+        if n.is_zero() {
+            return &r % p;
+        }
         let mut e = n.clone();
         while &e > &One::one() {
             if e.is_odd() {
-- 
2.43.0


From 210d8a4137dea505e8a62e438f94eaad0a04b2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 06/18] fix: polynomial_modular ends for constant and unreduced
 divisors

---
 src/polynomial.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index c28c5d4..a952a35 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -360,11 +360,13 @@ impl Polynomial {
     pub fn polynomial_modular(&self, other: &Polynomial, p: &BigInt) -> Self {
         assert!(!other.has_y(), "!other.has_y()");
         assert!(!other.has_q(), "!other.has_q()");
+        let other = &(other % p);
+        assert!(!other.is_zero(), "other.is_zero()");
         let oh = other.highest_term_x();
         let mut r = self.clone();
         loop {
             let rh = r.highest_term_x();
-            if rh.xpow() < oh.xpow() {
+            if r.is_zero() || rh.xpow() < oh.xpow() {
                 break;
             }
             let mut q = term_builder::TermBuilder::new()
-- 
2.43.0


From 19647a396bf96a1139d4fe6f274692aacc700b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:08 +0000
Subject: [PATCH 07/18] fix: gcd accepts coprime, zero and unreduced
 polynomials; to_monic reduces first

---
 src/polynomial.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index a952a35..b0b62b2 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -452,25 +452,26 @@ impl Polynomial {
     }
 
     pub fn gcd(&self, other: &Self, p: &BigInt) -> Polynomial {
-        let s = self.highest_term_x();
-        let o = other.highest_term_x();
-        if s.xpow() < o.xpow() {
-            return other.gcd(self, p);
+        let a = self % p;
+        let b = other % p;
+        if a.highest_term_x().xpow() < b.highest_term_x().xpow() {
+            return b.gcd(&a, p);
         }
-        let r = self.polynomial_modular(other, p);
-        if r.is_zero() {
-            return other.to_monic(p);
+        if b.is_zero() {
+            return a.to_monic(p);
         }
-        return other.gcd(&r, p);
+        let r = a.polynomial_modular(&b, p);
+        return b.gcd(&r, p);
     }
 
     pub fn to_monic(&self, p: &BigInt) -> Polynomial {
-        if self.is_zero() {
-            return self.clone();
+        let pol = self % p;
+        if pol.is_zero() {
+            return pol;
         }
-        let s = self.highest_term_x();
+        let s = pol.highest_term_x();
         let inv = s.coef.inverse(p);
-        let mut pol = self * term_builder::TermBuilder::new().coef(&inv).build();
+        let mut pol = pol * term_builder::TermBuilder::new().coef(&inv).build();
         pol.modular_assign(p);
         pol
     }
-- 
2.43.0


From 011025e0e55b7bd0ff9d954f554d6596dc47a4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 08/18] fix: is_gcd_one tells whether the gcd is one

---
 src/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index b0b62b2..7d2e3a7 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -448,7 +448,7 @@ impl Polynomial {
 
     pub fn is_gcd_one(&self, other: &Self, p: &BigInt) -> bool {
         let m = self.gcd(other, p);
-        return !m.is_zero();
+        return m.is_one();
     }
 
     pub fn gcd(&self, other: &Self, p: &BigInt) -> Polynomial {
-- 
2.43.0


From 86a85227c908eea6a180ab9513aca56d9aec090e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 09/18] fix: to_frob, to_y_power and to_q_power sum terms that
 fall together

---
 src/polynomial.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 7d2e3a7..46cab31 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -512,8 +512,7 @@ impl Polynomial {
         let mut pol = Polynomial::new();
         for (m, coef) in &self.terms {
             let u = term::Term::from(m, coef);
-            let u = u.to_frob(n);
-            pol.terms.insert(u.monomial, u.coef);
+            pol += u.to_frob(n);
         }
         pol
     }
@@ -523,8 +522,7 @@ impl Polynomial {
         let mut pol = Polynomial::new();
         for (m, coef) in &self.terms {
             let u = term::Term::from(m, coef);
-            let u = u.to_y_power(n);
-            pol.terms.insert(u.monomial, u.coef);
+            pol += u.to_y_power(n);
         }
         pol
     }
@@ -534,8 +532,7 @@ impl Polynomial {
         let mut pol = Polynomial::new();
         for (m, coef) in &self.terms {
             let u = term::Term::from(m, coef);
-            let u = u.to_q_power(n);
-            pol.terms.insert(u.monomial, u.coef);
+            pol += u.to_q_power(n);
         }
         pol
     }
-- 
2.43.0


From 4fe7248bc81b2710e783beb5b003e7c6538351c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 10/18] fix: schoof determines the sign of the trace with +phi

---
 src/schoof.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/schoof.rs b/src/schoof.rs
index a8e9c61..01abdf4 100644
--- a/src/schoof.rs
+++ b/src/schoof.rs
@@ -125,7 +125,7 @@ pub fn schoof(a: &BigInt, b: &BigInt, q: i32) -> Vec<bigint::ModResult> {
             let d = omg - &g * division_polynomial::psi(a, b, ql).power(3);
             let d = d.reduction_modular(a, b, q);
 
-            let mut e = - division_polynomial::phi(a, b, ql) +
+            let mut e = division_polynomial::phi(a, b, ql) +
                     TermBuilder::new().coef(2).xpow(q.pow(2)).build()
                     * division_polynomial::psi(a, b, ql).power(2);
             e.modular_assign(&qq);
-- 
2.43.0


From 33cac62072c72c389ccf1618094e0385e8c15f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 11/18] fix: schoof handles a Frobenius map that is scalar on
 E[l]

---
 src/schoof.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/schoof.rs b/src/schoof.rs
index 01abdf4..15c1162 100644
--- a/src/schoof.rs
+++ b/src/schoof.rs
@@ -112,7 +112,8 @@ pub fn schoof(a: &BigInt, b: &BigInt, q: i32) -> Vec<bigint::ModResult> {
                 break;
             }
         }
-        if found {
+        // den1 is zero on E[l] when the Frobenius map is a scalar there
+        if found && !den1.polynomial_modular(&psi_l, &qq).is_zero() {
             // iii
             println!("x found");
             // y
@@ -180,7 +181,7 @@ pub fn schoof(a: &BigInt, b: &BigInt, q: i32) -> Vec<bigint::ModResult> {
             println!("(iii) y  a = {} mod {}", jj, l);
         } else {
             // (d)
-            println!("x not found");
+            println!("x not found or scalar");
             let mut found = false;
             let mut w: i32 = 1;
             for i in num_iter::range(1, l) {
@@ -200,24 +201,20 @@ pub fn schoof(a: &BigInt, b: &BigInt, q: i32) -> Vec<bigint::ModResult> {
                 p12.modular_assign(&qq);
                 let p13 = p12.reduction_modular(a, b, q);
 
-                let p14 = &division_polynomial::psi(&qq, b, l) % q;
-
-                let qq = BigInt::from(q);
-                let p15 = p13.polynomial_modular(&p14, &qq);
+                let p15 = p13.polynomial_modular(&psi_l, &qq);
 
                 if !p15.is_zero() {
                     mod_result.push(bigint::ModResult { l: BigInt::from(l), r: BigInt::from(0) });
                     println!("(e) y  a = 0 mod {}", l);
                 } else {
                     // (e) y
-                    let aa: i32 = a.clone().to_i32().unwrap();
-                    let mut p16 = (TermBuilder::new().ypow(aa).build()
-                              * division_polynomial::psi(a, b, w).power(3) - division_polynomial::omega(a, b, w)) /
-                            TermBuilder::new().ypow(1).build();
-                    p16.modular_assign(&qq);
-                    let p17 = p16.reduction_modular(a, b, q);
+                    let p16 = TermBuilder::new().ypow(q).build()
+                              * division_polynomial::psi(a, b, w).power(3) - division_polynomial::omega(a, b, w);
+                    let mut p17 = p16.reduction_modular(a, b, q);
+                    if p17.has_y() {
+                        p17 /= TermBuilder::new().ypow(1).build();
+                    }
                     let mut ww: BigInt;
-                    let qq = BigInt::from(q);
                     if p17.is_gcd_one(&division_polynomial::psi(a, b, l), &qq) {
                         ww = - BigInt::from(2) * w;
                     } else {
-- 
2.43.0


From 4e1e944916d1318e575fa0434ba06a0403751c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 12/18] fix: solve divides out the coefficient of the first
 unknown too

---
 src/simultaneous_equation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simultaneous_equation.rs b/src/simultaneous_equation.rs
index c63f21d..4cfdb81 100644
--- a/src/simultaneous_equation.rs
+++ b/src/simultaneous_equation.rs
@@ -56,7 +56,7 @@ pub fn solve(matrix: &Vec<Vec<BigInt>>) -> Vec<Vec<BigInt>> {
 
     // (ii) Substitute
     let col_prim = col_count -1;
-    for i in num_iter::range(1, col_count - 1).rev() {
+    for i in num_iter::range(0, col_count - 1).rev() {
         // diagonal coef
         let diag = a[row[i]][i].clone();
         let prim = a[row[i]][col_prim].clone();
-- 
2.43.0


From bb5cd1ab20a9d2b4d9b8b3490fabfe861591ca91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 13/18] fix: variable_from_index refuses indices of 2^32 and
 above

---
 src/subscripted_variable.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/subscripted_variable.rs b/src/subscripted_variable.rs
index 939e679..0e74d62 100644
--- a/src/subscripted_variable.rs
+++ b/src/subscripted_variable.rs
@@ -133,10 +133,10 @@ impl SubscriptedVariableConverter {
     }
 
     pub fn variable_from_index(&self, index: u64) -> SubscriptedVariable {
-        let mut local_index: i32 = 0;
+        let mut local_index: u64 = 0;
         for i in num_iter::range(0, self.p+1) {
             for j in num_iter::range(i+1, self.p+1) {
-                if local_index == index as i32 {
+                if local_index == index {
                     return SubscriptedVariable {
                         i: i,
                         j: j,
@@ -147,7 +147,7 @@ impl SubscriptedVariableConverter {
             }
         } 
         for i in num_iter::range(0, self.p+1) {
-            if local_index == index as i32 {
+            if local_index == index {
                 return SubscriptedVariable {
                     i: i,
                     j: i,
-- 
2.43.0


From 0ebc9d06260ea4bac444487540be26e0b48e4cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 14/18] fix: to_scalar refuses a polynomial with a variable

---
 src/polynomial.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 46cab31..1920be7 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -651,6 +651,9 @@ impl Polynomial {
             if !m.qpow.is_zero() {
                 panic!();
             }
+            if !m.variable.empty {
+                panic!();
+            }
             return coef.clone();
         }
         panic!();
-- 
2.43.0


From 16df4541a2fd24c66708e4fcd60e16a97cec6517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 15/18] fix: Term::power_modulo refuses a term with a variable

---
 src/term.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/term.rs b/src/term.rs
index a24a7c3..3beeaaf 100644
--- a/src/term.rs
+++ b/src/term.rs
@@ -199,6 +199,9 @@ impl Term {
 
     /// Term^n (mod p)
     pub fn power_modulo(&self, n: &BigInt, p: &BigInt) -> Self {
+        if !self.variable().empty {
+            panic!("can't power non zero variable!");
+        }
         let nn = n.to_i32().unwrap();
         term_builder::TermBuilder::new()
             .coef(self.coef.power_modulo(n, p))
-- 
2.43.0


From f9333aead2d0421c8c79eb27d37a554a7142b433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 16/18] fix: sigma_divisor does not overflow for the largest
 argument

---
 src/divisor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/divisor.rs b/src/divisor.rs
index cd899e5..8825155 100644
--- a/src/divisor.rs
+++ b/src/divisor.rs
@@ -12,7 +12,7 @@ pub fn sigma_divisor(n: i32, power: i32) -> BigInt {
         return Zero::zero();
     }
     let mut sum: BigInt = Zero::zero();
-    for i in num_iter::range(1, n + 1) {
+    for i in num_iter::range_inclusive(1, n) {
         if n % i == Zero::zero() {
             sum += BigInt::from(i).power(power);
         }
-- 
2.43.0


From 63dec8257c538b5fb679e50e3d926ec3d38fec04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 17/18] fix: power_omit_high_order_q refuses a negative
 exponent

---
 src/polynomial.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 1920be7..754b6f1 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -347,6 +347,7 @@ impl Polynomial {
     }
 
     pub fn power_omit_high_order_q(&self, n: i32, order: i32) -> Self {
+        assert!(n >= 0, "n:{}", n.to_string());
         assert!(!self.has_x(), "!self.has_x()");
         assert!(!self.has_y(), "!self.has_y()");
         let mut pol = polynomial::Polynomial::one();
-- 
2.43.0


From 2dce19323033543250cf0a8643178cdb32a72b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:10 +0000
Subject: [PATCH 18/18] fix: extended_gcd used a stack frame per Euclidean step
 and overflowed the stack on long operands

---
 src/bigint.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/bigint.rs b/src/bigint.rs
index 04ad186..30ac778 100644
--- a/src/bigint.rs
+++ b/src/bigint.rs
@@ -101,13 +101,23 @@ impl Inverse for BigInt {
 /// return: (gcd(a, b), x, y)
 ///
 pub fn extended_gcd(a: BigInt, b: BigInt) -> (BigInt, BigInt, BigInt) {
-    if a.clone() == Zero::zero() {
-        return (b, Zero::zero(), One::one());
+    let mut a = a;
+    let mut b = b;
+    let mut quotients = Vec::new();
+    while a != Zero::zero() {
+        let r = b.clone() % a.clone();
+        quotients.push(b / a.clone());
+        b = a;
+        a = r;
     }
-    let r = b.clone() % a.clone();
-    let q = b.clone() / a.clone();
-    let (g, x, y) = extended_gcd(r, a);
-    (g, y - q * x.clone(), x.clone())
+    let mut x: BigInt = Zero::zero();
+    let mut y: BigInt = One::one();
+    while let Some(q) = quotients.pop() {
+        let t = y - q * x.clone();
+        y = x;
+        x = t;
+    }
+    (b, x, y)
 }
 
 /// x (mod l) = r
-- 
2.43.0

