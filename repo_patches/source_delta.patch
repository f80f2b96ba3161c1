From 5a5dd6a7690e427b16dd627de19e23442bf9ca03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:12 +0000
Subject: [PATCH 01/31] fix: Rational::div_rem divides the numerator by the
 denominator, not the reverse

---
 src/algos.rs    | 12 ++++++++----
 src/rational.rs |  2 +-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index fe78334..47aedf9 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -568,10 +568,14 @@ impl Pow {
             }
             (A::Sum(sum), A::Rational(r)) if r > &Rational::ONE && sum.args.len() > 1 => {
                 let (div, rem) = r.div_rem();
-                return expand_mul(
-                    &expand_pow(self.base(), &Expr::from(div)),
-                    &expand_pow(self.base(), &Expr::from(rem)),
-                );
+                let lhs = expand_pow(self.base(), &Expr::from(div));
+                let rhs = expand_pow(self.base(), &Expr::from(rem));
+                // multiply out, lhs * rhs could merge back to the same power
+                return if recurse {
+                    Prod::expand_mul(&lhs, &rhs)
+                } else {
+                    Expr::mul(lhs, rhs)
+                };
             }
             (A::Prod(_), _) => {
                 return self
diff --git a/src/rational.rs b/src/rational.rs
index afb1547..8518ff8 100644
--- a/src/rational.rs
+++ b/src/rational.rs
@@ -402,7 +402,7 @@ impl Rational {
         let denom = self.denom();
         let num = self.numer();
         //let (num, den) = self.0.to_numerator_and_denominator();
-        let (quot, rem) = num::integer::div_rem(denom, num);
+        let (quot, rem) = num::integer::div_rem(num, denom);
         //let (quot, rem) = marith::DivRem::div_rem(num, den);
         (Self::new_int(quot), Self::new(rem, denom))
 
-- 
2.43.0


From 87eeea97ef5395816b04e889567c6a7b2865edbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:01 +0000
Subject: [PATCH 02/31] fix: Rational::pow reports the fractional remainder
 exponent and leaves uncomputable powers unchanged

---
 src/algos.rs    |  8 ++++++--
 src/rational.rs | 13 +++++++++----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index 47aedf9..a692d84 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -784,8 +784,12 @@ impl Expr {
         match (base.atom(), exponent.atom()) {
             (A::Rational(b), A::Rational(e)) if b.is_int() && e.is_int() => {
                 let (pow, rem) = b.clone().pow(e.clone());
-                assert!(rem.is_zero());
-                Expr::from(pow)
+                if rem.is_zero() {
+                    Expr::from(pow)
+                } else {
+                    // not representable
+                    Expr::pow_raw(base, exponent)
+                }
             }
             (A::Pow(pow), A::Rational(e)) if e.is_int() => {
                 Expr::pow(pow.base(), exponent * pow.exponent())
diff --git a/src/rational.rs b/src/rational.rs
index 8518ff8..a705503 100644
--- a/src/rational.rs
+++ b/src/rational.rs
@@ -431,6 +431,8 @@ impl Rational {
             return (Rational::ONE, Rational::ZERO);
         }
 
+        let (base, expon) = (self, rhs);
+
         // inverse if exponent is negative
         if rhs.is_neg() {
             self = self.inverse().unwrap();
@@ -446,9 +448,8 @@ impl Rational {
                 if let Some(pow) = num::checked_pow(self.0, exp) {
                     return (Self(pow), Rational::ZERO);
                 }
-            } else {
-                return (self, rhs);
             }
+            return (base, expon);
         }
 
         // ensure that the exponent is < 1
@@ -459,7 +460,11 @@ impl Rational {
             let denom = rhs.denom();
             let (quot, rem) = num::integer::div_rem(numer, denom); //marith::DivRem::div_rem(num, den);
                                                                    //let rem_exp = Self(mal::Rational::from(rem));
-            let rem_exp = Self::new_int(rem);
+            // the remainder is an exponent of the base we were called with
+            let rem_exp = match expon.is_neg() {
+                true => Self::new(-rem, denom),
+                false => Self::new(rem, denom),
+            };
             if let Ok(apply_exp) = usize::try_from(quot) {
                 if let Some(pow) = num::checked_pow(self.0, apply_exp) {
                     return (Self(pow), rem_exp);
@@ -474,7 +479,7 @@ impl Rational {
         }
 
         // no change
-        (self, rhs)
+        (base, expon)
     }
 
     pub fn pow_basic(self, rhs: Self) -> Option<Self> {
-- 
2.43.0


From 44d745b99349efafc6c61f6e7df6cd8b4dc63561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:09 +0000
Subject: [PATCH 03/31] fix: total, antisymmetric ordering of expressions that
 ignores operand order and handles undef

---
 src/atom.rs | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/atom.rs b/src/atom.rs
index 476d436..3f65b42 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -180,7 +180,11 @@ impl PartialOrd for Atom {
     }
 }
 
-fn cmp_slice_rev(lhs: &[Expr], rhs: &[Expr]) -> cmp::Ordering {
+/// compares the operands of a sum or product, largest first and regardless of their order
+fn cmp_operands(lhs: &[Expr], rhs: &[Expr]) -> cmp::Ordering {
+    let (mut lhs, mut rhs) = (lhs.to_vec(), rhs.to_vec());
+    lhs.sort();
+    rhs.sort();
     let args = lhs.iter().rev().zip(rhs.iter().rev());
 
     for (l, r) in args {
@@ -218,9 +222,12 @@ impl Ord for Atom {
         }
 
         match (lhs, rhs) {
+            (A::Undef, A::Undef) => cmp::Ordering::Equal,
+            (A::Undef, _) => cmp::Ordering::Less,
+            (_, A::Undef) => cmp::Ordering::Greater,
             (A::Var(l), A::Var(r)) => l.cmp(r),
             (A::Prod(_), A::Prod(_)) | (A::Sum(_), A::Sum(_)) => {
-                cmp_slice_rev(lhs.args(), rhs.args())
+                cmp_operands(lhs.args(), rhs.args())
             }
             (A::Pow(p1), A::Pow(p2)) => {
                 if p1.base() != p2.base() {
@@ -237,22 +244,19 @@ impl Ord for Atom {
                     cmp_slice(f1.args(), f2.args())
                 }
             }
-            (A::Prod(_) | A::Sum(_), _) => {
-                if lhs.n_args() == 0 {
-                    cmp::Ordering::Less
-                } else if lhs.args().last().unwrap().atom() != rhs {
-                    lhs.args().last().unwrap().atom().cmp(rhs)
-                } else {
-                    cmp::Ordering::Greater
-                }
-            }
-            (A::Pow(p), _) => {
-                if p.base().atom() != rhs {
-                    p.base().atom().cmp(rhs)
-                } else {
-                    p.exponent().atom().cmp(&A::ONE)
-                }
-            }
+            // the order of the following arms decides which rule applies to a mixed pair
+            (A::Prod(_), _) => cmp_operands(lhs.args(), &[rhs.clone().into()])
+                .then(cmp::Ordering::Greater),
+            (_, A::Prod(_)) => rhs.cmp(lhs).reverse(),
+            (A::Pow(p), _) => p
+                .base()
+                .atom()
+                .cmp(rhs)
+                .then_with(|| p.exponent().atom().cmp(&A::ONE))
+                .then(cmp::Ordering::Greater),
+            (_, A::Pow(_)) => rhs.cmp(lhs).reverse(),
+            (A::Sum(_), _) => cmp_operands(lhs.args(), &[rhs.clone().into()])
+                .then(cmp::Ordering::Greater),
             (A::Func(f), A::Var(v)) => {
                 let n = f.name();
                 if n == *v.0 {
-- 
2.43.0


From 81be4300ee55458b165af81df8b734d0b93205f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:29 +0000
Subject: [PATCH 04/31] fix: equal sums and products hash alike

---
 src/atom.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/atom.rs b/src/atom.rs
index 3f65b42..fcb24a7 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -195,6 +195,12 @@ fn cmp_operands(lhs: &[Expr], rhs: &[Expr]) -> cmp::Ordering {
 
     lhs.len().cmp(&rhs.len())
 }
+/// hashes the operands of a sum or product regardless of their order
+fn hash_operands<H: hash::Hasher>(args: &[Expr], state: &mut H) {
+    let mut args = args.to_vec();
+    args.sort();
+    hash::Hash::hash(&args, state)
+}
 fn cmp_slice(lhs: &[Expr], rhs: &[Expr]) -> cmp::Ordering {
     let args = lhs.iter().zip(rhs.iter());
 
@@ -485,11 +491,17 @@ impl Func {
     }
 }
 
-#[derive(Clone, PartialOrd, Ord, Hash, Serialize, Deserialize)]
+#[derive(Clone, PartialOrd, Ord, Serialize, Deserialize)]
 pub struct Sum {
     pub args: Vec<Expr>,
 }
 
+impl hash::Hash for Sum {
+    fn hash<H: hash::Hasher>(&self, state: &mut H) {
+        hash_operands(&self.args, state)
+    }
+}
+
 impl fmt::Debug for Sum {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         if self.n_args() == 0 {
@@ -564,11 +576,17 @@ impl Sum {
     }
 }
 
-#[derive(Clone, PartialOrd, Ord, Hash, Serialize, Deserialize)]
+#[derive(Clone, PartialOrd, Ord, Serialize, Deserialize)]
 pub struct Prod {
     pub args: Vec<Expr>,
 }
 
+impl hash::Hash for Prod {
+    fn hash<H: hash::Hasher>(&self, state: &mut H) {
+        hash_operands(&self.args, state)
+    }
+}
+
 impl fmt::Debug for Prod {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         if self.n_args() == 0 {
-- 
2.43.0


From 0acc47050f3330696f3f7f4ae32fe63fc268d439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:33 +0000
Subject: [PATCH 05/31] fix: compare rational constants exactly instead of
 through f64

---
 src/atom.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/atom.rs b/src/atom.rs
index fcb24a7..d175861 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -295,11 +295,20 @@ impl PartialOrd for Real {
 impl Ord for Real {
     fn cmp(&self, other: &Self) -> cmp::Ordering {
         use ordered_float::OrderedFloat;
-        OrderedFloat(self.f64_approx()).cmp(&OrderedFloat(other.f64_approx()))
+        match (self, other) {
+            (Real::Rational(l), Real::Rational(r)) => l.cmp(r),
+            _ => OrderedFloat(self.f64_approx())
+                .cmp(&OrderedFloat(other.f64_approx()))
+                .then_with(|| self.is_irrational().cmp(&other.is_irrational())),
+        }
     }
 }
 
 impl Real {
+    fn is_irrational(&self) -> bool {
+        matches!(self, Real::Irrational(_))
+    }
+
     pub const E: Real = Real::Irrational(Irrational::E);
     pub const PI: Real = Real::Irrational(Irrational::PI);
 
-- 
2.43.0


From 76cccd40a310503897eb50ce3ae84c804b853ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:05 +0000
Subject: [PATCH 06/31] fix: contracting a sum of trigonometric terms no longer
 adds one

---
 src/algos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index a692d84..b2d7241 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -1485,7 +1485,7 @@ fn contract_trig_arg(e: &Expr) -> Expr {
             }
         }
 
-        Atom::Sum(s) => s.iter_args().fold(Expr::one(), |lhs, rhs| {
+        Atom::Sum(s) => s.iter_args().fold(Expr::zero(), |lhs, rhs| {
             if rhs.is_prod() || rhs.is_pow() {
                 lhs + contract_trig_arg(rhs)
             } else {
-- 
2.43.0


From 1103f7b625e55a1579efa7e45fdf240dd2df57a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:05 +0000
Subject: [PATCH 07/31] fix: contract_trig leaves powers alone that are not
 positive integer powers of sin or cos

---
 src/algos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index b2d7241..b5aae33 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -1506,7 +1506,7 @@ fn contract_trig_pow(p: &Expr) -> Expr {
     let f = p.base();
     let n = p.exponent();
 
-    if !(n.is_int() && n.is_pos()) && !(f.is_sin() || f.is_cos()) {
+    if !(n.is_int() && n.is_pos()) || !(f.is_sin() || f.is_cos()) {
         return p.clone();
     }
 
-- 
2.43.0


From aed06c7e54ced3e03feeec1d06863ac941edd5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:05 +0000
Subject: [PATCH 08/31] fix: the numerator of 1\/x is 1 in try_as_div

---
 src/atom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atom.rs b/src/atom.rs
index d175861..9d9f6f7 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -959,7 +959,7 @@ impl Expr {
 
     pub fn try_as_div(&self) -> Option<(Expr, Expr)> {
         if self.is_pow() && self.exponent().is_min_one() {
-            Some((Expr::min_one(), self.base().clone()))
+            Some((Expr::one(), self.base().clone()))
         } else if self.is_prod() {
             Some(
                 self.iter_args()
-- 
2.43.0


From 6f052956cee689a3b3293dacc25d9f3a794b3e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:20 +0000
Subject: [PATCH 09/31] fix: 0/0 is undefined, not one

---
 src/algos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index b5aae33..7c036a4 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -709,7 +709,7 @@ impl Expr {
 
         if lhs.is_undef() || rhs.is_undef() {
             Expr::undef()
-        } else if lhs == rhs {
+        } else if lhs == rhs && !lhs.is_zero() {
             Expr::one()
         } else {
             let min_one = Expr::from(-1);
-- 
2.43.0


From a538579e203b6e926702754e75b34df777e51ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:20 +0000
Subject: [PATCH 10/31] fix: seq_substitude does not substitute inside its own
 replacement

---
 src/algos.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index 7c036a4..6dc2d00 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -1269,11 +1269,7 @@ impl Expr {
     {
         let mut res = self.clone();
         subs.into_iter().for_each(|(from, to)| {
-            res.for_each_compl_sub_expr(|sub_expr| {
-                if sub_expr == from {
-                    *sub_expr = to.clone();
-                }
-            });
+            res = res.substitude(from, to);
         });
         res
     }
-- 
2.43.0


From c4cc127c16f7bd370bc542d6133645ac3379147d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:20 +0000
Subject: [PATCH 11/31] fix: a polynomial that is itself the generalized
 variable has degree one

---
 src/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 9ca0afa..be21e97 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -336,7 +336,7 @@ impl<'a> PolynomialView<'a> {
         if let A::Sum(Sum { args }) = self.poly.atom() {
             if self.vars.has(self.poly) {
                 let v = self.poly;
-                coeffs.insert([(v.clone(), 0)].into(), Expr::one());
+                coeffs.insert([(v.clone(), 1)].into(), Expr::one());
                 return coeffs;
             }
 
-- 
2.43.0


From 6f645390adf847726dfcebc942f756e73271d4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:20 +0000
Subject: [PATCH 12/31] fix: collect_terms returns a monomial as it is and None
 for anything else

---
 src/polynomial.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index be21e97..7b7f33e 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -375,9 +375,9 @@ impl<'a> PolynomialView<'a> {
         } else {
             // self.poly != A::Sum(_)
             if self.poly.as_monomial_view(self.vars).check() {
-                return None;
-            } else {
                 return Some(self.poly.clone());
+            } else {
+                return None;
             }
         };
 
-- 
2.43.0


From 4f4ee1516e86aaaac4cbd64cdfd752864077d3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:20 +0000
Subject: [PATCH 13/31] fix: variables and the monomial check handle functions
 and fractional powers

---
 src/atom.rs       | 6 ++++--
 src/polynomial.rs | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/atom.rs b/src/atom.rs
index 9d9f6f7..691f451 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -1084,14 +1084,16 @@ impl Expr {
             }
             A::Pow(pow) => {
                 if let A::Rational(r) = pow.exponent().atom() {
-                    if r >= &Rational::ONE {
+                    if r.is_int() && r >= &Rational::ONE {
                         vars.insert(pow.base().clone());
                         return;
                     }
                 }
                 vars.insert(self.clone());
             }
-            A::Func(_) => todo!(),
+            A::Func(_) => {
+                vars.insert(self.clone());
+            }
         }
     }
 
diff --git a/src/polynomial.rs b/src/polynomial.rs
index 7b7f33e..f0e5e21 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -197,7 +197,7 @@ impl<'a> MonomialView<'a> {
                 }
                 _ => (),
             },
-            A::Func(_) => todo!(),
+            A::Func(_) => (),
         }
         self.monom.free_of_set(self.vars.iter())
     }
-- 
2.43.0


From b9b1cadd31b0bf0ceb0b6c4247eedef752742b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:43 +0000
Subject: [PATCH 14/31] fix: the coefficients of one variable keep the powers
 of the other variables

---
 src/polynomial.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index f0e5e21..8d63f4b 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -307,14 +307,11 @@ impl<'a> PolynomialView<'a> {
     }
 
     pub fn coeffs_of(&self, v: &GVar) -> HashMap<Degree, Coeff> {
-        let coeff = self.coeffs().into_iter().filter_map(|(d, c)| {
-            if let Some(d) = d.degree_of(v) {
-                Some((d.clone(), c))
-            } else if d.is_const() {
-                Some((0, c))
-            } else {
-                None
-            }
+        // the powers of the other variables belong to the coefficient
+        let coeff = self.coeffs().into_iter().map(|(mut d, c)| {
+            let deg = d.degree_of(v).cloned().unwrap_or(0);
+            d.var_deg.retain(|(var, _)| var != v);
+            (deg, c * d.as_expr())
         });
 
         let mut res = HashMap::default();
-- 
2.43.0


From 783b67c9e3afa628d486e561958153146b7211db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:43 +0000
Subject: [PATCH 15/31] fix: print the product of two numbers with a
 multiplication sign

---
 src/sym_fmt.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/sym_fmt.rs b/src/sym_fmt.rs
index d2bfcb3..77f0f3c 100644
--- a/src/sym_fmt.rs
+++ b/src/sym_fmt.rs
@@ -443,12 +443,9 @@ impl fmt::Display for FmtAtom {
 pub fn implicit_prefix_mul(e: &FmtAtom) -> bool {
     use FmtAtom as F;
     match e {
-        F::Var(_)
-        | F::Rational(_)
-        | F::Irrational(_)
-        | F::Sum(_)
-        | F::Func(_, _)
-        | F::Pow(_, _) => true,
+        F::Var(_) | F::Irrational(_) | F::Sum(_) | F::Func(_, _) => true,
+        // 2·3 is not 23
+        F::Pow(b, _) => implicit_prefix_mul(b),
         _ => false,
     }
 }
-- 
2.43.0


From 6498e662b8432064dcd886ad7c185a44e90c35a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:16 +0000
Subject: [PATCH 16/31] fix: rationalize does not recurse forever on an
 undefined summand

---
 src/algos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index 6dc2d00..4ad4382 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -1064,7 +1064,7 @@ impl Expr {
         let c = rhs.numerator();
         let d = rhs.denominator();
         let bd = &b * &d;
-        if bd.is_one() {
+        if bd.is_one() || bd.is_undef() {
             lhs + rhs
         } else {
             Self::rationalize_add(&(&a * &d), &(&c * &b)) / bd
-- 
2.43.0


From 1907d495daee32653cc1e5665564157e3d0d44cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:31 +0000
Subject: [PATCH 17/31] fix: order the operands of a sum by the total order of
 expressions

---
 src/algos.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index 4ad4382..9653d21 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -84,11 +84,7 @@ impl Sum {
     }
 
     fn cmp_args(lhs: &Expr, rhs: &Expr) -> cmp::Ordering {
-        match (lhs.atom(), rhs.atom()) {
-            (Atom::Prod(p1), Atom::Prod(p2)) => p1.cmp(p2),
-            (Atom::Var(a), Atom::Var(b)) => a.cmp(b),
-            _ => rhs.cmp(lhs),
-        }
+        lhs.cmp(rhs)
     }
 
     fn add_sorted(lhs: &Expr, rhs: &Expr) -> Sum {
-- 
2.43.0


From e739060db41d0ac9a6f8919016c107e6a535213f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:44 +0000
Subject: [PATCH 18/31] fix: a reduced product has no factors of one

---
 src/atom.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/atom.rs b/src/atom.rs
index 691f451..a751825 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -1310,6 +1310,7 @@ impl SymbolicExpr for Sum {
 impl SymbolicExpr for Prod {
     fn reduce(&self) -> Expr {
         let mut prod = Prod::reduce_rec(&self.args);
+        prod.args.retain(|a| !a.is_one());
         if prod.is_one() {
             Expr::one()
         } else if prod.is_undef() {
-- 
2.43.0


From 94911b1e2aec48960f2905282296646f9923ef49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:56 +0000
Subject: [PATCH 19/31] fix: reducing a product whose factors combine into
 others does not panic

---
 src/algos.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index 9653d21..645f357 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -470,7 +470,9 @@ impl Prod {
                     //assert!(q1 == &h[0], "{:?} != {:?}", q1, h[0]);
                     Prod::merge_args(p, q_rest)
                 } else {
-                    panic!("Illegal reduction: {q:?} * {p:?} -> h")
+                    // the two factors were combined into other ones
+                    let rest = Prod::merge_args(p_rest, q_rest);
+                    return Prod::merge_args(&h, &rest.args);
                 };
 
                 Prod::flat_merge(&h[0], rhs)
-- 
2.43.0


From 8e386c45c1317f513845202018769b2ad699f8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:26 +0000
Subject: [PATCH 20/31] fix: reduce multiplies out integer powers of products,
 so that reducing again changes nothing

---
 src/atom.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/atom.rs b/src/atom.rs
index a751825..420f3c8 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -1365,6 +1365,14 @@ impl SymbolicExpr for Pow {
                 pow.args[1] *= self.exponent();
                 pow.reduce()
             }
+            (A::Prod(prod), A::Rational(e)) if e.is_int() => Prod {
+                args: prod
+                    .args
+                    .iter()
+                    .map(|a| Expr::pow(a, self.exponent()).reduce())
+                    .collect(),
+            }
+            .reduce(),
             _ => A::Pow(self.clone()).into(),
         }
     }
-- 
2.43.0


From d281fc5ed384bfd925288b80cc348f078bd99e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:40 +0000
Subject: [PATCH 21/31] fix: comparing nested sums and products no longer
 compares every operand twice per level

---
 src/atom.rs | 40 +++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/src/atom.rs b/src/atom.rs
index 420f3c8..2ea1b5c 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -4,7 +4,7 @@ use crate::{
     sym_fmt,
     utils::{log_macros::*, HashSet},
 };
-use std::{borrow::Borrow, cmp, fmt, hash, ops, slice};
+use std::{borrow::{Borrow, Cow}, cmp, fmt, hash, ops, slice};
 
 use derive_more::{Debug, Display, From, Into, IsVariant, TryUnwrap, Unwrap};
 use paste::paste;
@@ -182,31 +182,37 @@ impl PartialOrd for Atom {
 
 /// compares the operands of a sum or product, largest first and regardless of their order
 fn cmp_operands(lhs: &[Expr], rhs: &[Expr]) -> cmp::Ordering {
-    let (mut lhs, mut rhs) = (lhs.to_vec(), rhs.to_vec());
-    lhs.sort();
-    rhs.sort();
+    let (lhs, rhs) = (sorted_operands(lhs), sorted_operands(rhs));
     let args = lhs.iter().rev().zip(rhs.iter().rev());
 
     for (l, r) in args {
-        if !l.cmp(r).is_eq() {
-            return l.cmp(r)
+        let ord = l.cmp(r);
+        if !ord.is_eq() {
+            return ord
         }
     }
 
     lhs.len().cmp(&rhs.len())
 }
+/// the operands in ascending order, only copied if they are not in that order already
+fn sorted_operands(args: &[Expr]) -> Cow<'_, [Expr]> {
+    let mut args = Cow::Borrowed(args);
+    if !args.is_sorted() {
+        args.to_mut().sort();
+    }
+    args
+}
 /// hashes the operands of a sum or product regardless of their order
 fn hash_operands<H: hash::Hasher>(args: &[Expr], state: &mut H) {
-    let mut args = args.to_vec();
-    args.sort();
-    hash::Hash::hash(&args, state)
+    hash::Hash::hash(&sorted_operands(args)[..], state)
 }
 fn cmp_slice(lhs: &[Expr], rhs: &[Expr]) -> cmp::Ordering {
     let args = lhs.iter().zip(rhs.iter());
 
     for (l, r) in args {
-        if !l.cmp(r).is_eq() {
-            return l.cmp(r)
+        let ord = l.cmp(r);
+        if !ord.is_eq() {
+            return ord
         }
     }
 
@@ -538,11 +544,7 @@ impl PartialEq for Sum {
             return false;
         }
 
-        let mut largs = self.args.clone();
-        largs.sort();
-        let mut rargs = other.args.clone();
-        rargs.sort();
-        largs == rargs
+        sorted_operands(&self.args) == sorted_operands(&other.args)
     }
 }
 
@@ -623,11 +625,7 @@ impl PartialEq for Prod {
             return false;
         }
 
-        let mut largs = self.args.clone();
-        largs.sort();
-        let mut rargs = other.args.clone();
-        rargs.sort();
-        largs == rargs
+        sorted_operands(&self.args) == sorted_operands(&other.args)
     }
 }
 
-- 
2.43.0


From 736d1172b020f32bce2b8278ca353b00a95370c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:45 +0000
Subject: [PATCH 22/31] fix: the powers of a monomial are kept in one order, so
 x*y and y*x are one monomial

---
 src/polynomial.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 8d63f4b..6e6f211 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -99,7 +99,9 @@ impl VarPow {
         if let Some(degree) = self.find_mut(&v) {
             *degree += d;
         } else {
-            self.var_deg.push((v, d))
+            // ordered, so that x*y and y*x are the same monomial
+            let at = self.var_deg.partition_point(|(var, _)| var < &v);
+            self.var_deg.insert(at, (v, d))
         }
     }
 
-- 
2.43.0


From c1fbf26c694f192c0034b87e73fdd34ad00458d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:21 +0000
Subject: [PATCH 23/31] fix: -x^2 in expr! was read as (-x)^2

---
 macros/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index e3c21b4..6d21298 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -124,7 +124,7 @@ impl Expr {
         if let Ok(op) = Op::parse(s) {
             match op.kind {
                 OpKind::Sub => {
-                    let operand = Self::parse_operand(s)?;
+                    let operand = Self::parse_bin_expr(s, OpKind::Pow.precedence())?;
                     Ok(if let Expr::Num(n) = operand {
                         Expr::Num(-1 * n)
                     } else {
-- 
2.43.0


From 3586679097644c9e3e8e52385dfb1109e9e998d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:21 +0000
Subject: [PATCH 24/31] fix: factoring an empty sum against an empty product
 recursed without end

---
 src/algos.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index 645f357..94308ad 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -1124,7 +1124,7 @@ impl Expr {
                 let (y, (b, u)) = Self::factorize_common_terms(&by, &uy);
                 (x * y, (a * b, u))
             }
-            (_, A::Prod(_)) => {
+            (_, A::Prod(prod)) if !prod.args.is_empty() => {
                 let (fac, (r, l)) = Self::factorize_common_terms(rhs, lhs);
                 (fac, (l, r))
             }
@@ -1167,7 +1167,7 @@ impl Expr {
                 //println!("");
                 (xy, (a * b + &c * d, ua * c))
             }
-            (_, A::Sum(_)) => {
+            (_, A::Sum(sum)) if !sum.args.is_empty() => {
                 let (fac, (r, l)) = Self::factorize_common_terms(rhs, lhs);
                 (fac, (l, r))
             }
-- 
2.43.0


From d8841905a369b43c8d21a4049e1929714090f19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:46 +0000
Subject: [PATCH 25/31] fix: the derivative of a power skips terms that vanish,
 so 0^(1/2) has derivative zero

---
 src/algos.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index 94308ad..d90a1fe 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -822,6 +822,9 @@ impl Expr {
                 args.iter()
                     .map(|a| a.derivative(x))
                     .for_each(|a| res.add_rhs(&a));
+                if res.is_zero() {
+                    return Expr::zero();
+                }
                 Atom::Sum(res).into()
             }
             A::Prod(prod) => {
@@ -843,8 +846,16 @@ impl Expr {
                 let v = pow.base();
                 let w = pow.exponent();
                 // d(v^w)/dx = w * v^(w - 1) * dv/dx + dw/dx * v^w * ln(v)
-                w * Expr::pow(v, w - Expr::one()) * v.derivative(x)
-                    + w.derivative(x) * Expr::pow(v, w) * Expr::ln(v)
+                let (dv, dw) = (v.derivative(x), w.derivative(x));
+                let mut res = Expr::zero();
+                // a term with factor zero is zero, even where the rest is not defined
+                if !dv.is_zero() {
+                    res += w * Expr::pow(v, w - Expr::one()) * dv;
+                }
+                if !dw.is_zero() {
+                    res += dw * Expr::pow(v, w) * Expr::ln(v);
+                }
+                res
             }
             A::Var(_) => {
                 if self.free_of(x) {
-- 
2.43.0


From dbc863ceb8442f3051725c6f25e961fbff634860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:46 +0000
Subject: [PATCH 26/31] fix: factors that reduce combined are reduced again, so
 that reducing twice changes nothing

---
 src/algos.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index d90a1fe..b66d127 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -498,7 +498,13 @@ impl Prod {
             } else if let Atom::Prod(p) = rhs.atom() {
                 Prod::merge_args(slice::from_ref(lhs), &p.args)
             } else if lhs.is_const() || rhs.is_const() {
-                let res = Prod::mul_sorted(lhs, rhs);
+                let mut res = Prod::mul_sorted(lhs, rhs);
+                // factors that were combined can be reduced further
+                for a in &mut res.args {
+                    if a != lhs && a != rhs {
+                        *a = a.reduce();
+                    }
+                }
 
                 // numbers if present always at the lhs
                 //assert!(
-- 
2.43.0


From 456f34d7dadccdf4e58a1a023ba5382ecfa6799d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:46 +0000
Subject: [PATCH 27/31] fix: powers of products are split only where that keeps
 their value

---
 src/algos.rs | 15 +++++++++++++--
 src/atom.rs  | 14 ++++++++++++++
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index b66d127..6c06fc5 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -277,7 +277,7 @@ impl Prod {
                 self.args.push(rhs.clone())
             }
             A::Pow(pow) => {
-                if pow.base().is_prod() {
+                if pow.base().is_prod() && pow.distributes() {
                     let rhs_terms = pow.base().args();
                     let expon = pow.exponent();
 
@@ -544,6 +544,17 @@ impl Prod {
 }
 
 impl Pow {
+    /// (a * b)^e = a^e * b^e holds for integers e, or if at most one factor can be negative
+    fn distributes(&self) -> bool {
+        self.exponent().is_int()
+            || self
+                .base()
+                .iter_args()
+                .filter(|a| !a.is_pos_for_pos_vars())
+                .count()
+                <= 1
+    }
+
     pub fn expand_pow_rec(&self, recurse: bool) -> Expr {
         use Atom as A;
         let expand_pow = |lhs: &Expr, rhs: &Expr| -> Expr {
@@ -581,7 +592,7 @@ impl Pow {
                     Expr::mul(lhs, rhs)
                 };
             }
-            (A::Prod(_), _) => {
+            (A::Prod(_), _) if self.distributes() => {
                 return self
                     .base()
                     .clone()
diff --git a/src/atom.rs b/src/atom.rs
index 2ea1b5c..5f6c8f3 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -1108,6 +1108,20 @@ impl Expr {
         ExprIterator { atoms }
     }
 
+    /// positive wherever its variables are
+    pub(crate) fn is_pos_for_pos_vars(&self) -> bool {
+        use Atom as A;
+        match self.atom() {
+            A::Var(_) | A::Irrational(_) => true,
+            A::Rational(r) => r.is_pos(),
+            A::Sum(Sum { args }) | A::Prod(Prod { args }) => {
+                !args.is_empty() && args.iter().all(Expr::is_pos_for_pos_vars)
+            }
+            A::Pow(pow) => pow.base().is_pos_for_pos_vars(),
+            A::Undef | A::Func(_) => false,
+        }
+    }
+
     pub fn flatten(&self) -> &Expr {
         match self.atom() {
             Atom::Sum(sum) if sum.n_args() == 1 => sum.args().first().unwrap(),
-- 
2.43.0


From adad7d3625bbc0a714d87455e09d5af526b22f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:59 +0000
Subject: [PATCH 28/31] fix: reduce also reduces the exponent of a merged power

---
 src/atom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atom.rs b/src/atom.rs
index 5f6c8f3..97bf80a 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -1374,7 +1374,7 @@ impl SymbolicExpr for Pow {
             //TODO: rule?
             (A::Pow(pow), _) => {
                 let mut pow = pow.clone();
-                pow.args[1] *= self.exponent();
+                pow.args[1] = (pow.exponent() * self.exponent()).reduce();
                 pow.reduce()
             }
             (A::Prod(prod), A::Rational(e)) if e.is_int() => Prod {
-- 
2.43.0


From 832fdbf5cb91d4f787f74c7238926a31b8d32ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:59 +0000
Subject: [PATCH 29/31] fix: reduce merges (b^p)^e only for integer e or
 positive b

---
 src/atom.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/atom.rs b/src/atom.rs
index 97bf80a..95dff68 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -1372,7 +1372,8 @@ impl SymbolicExpr for Pow {
                 }
             }
             //TODO: rule?
-            (A::Pow(pow), _) => {
+            // (b^p)^e = b^(p*e) holds for integers e and positive b only
+            (A::Pow(pow), _) if self.exponent().is_int() || pow.base().is_pos_for_pos_vars() => {
                 let mut pow = pow.clone();
                 pow.args[1] = (pow.exponent() * self.exponent()).reduce();
                 pow.reduce()
-- 
2.43.0


From 66ef7dc25fd5e60ffbdcacd9e8045895d0f927d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 30/31] fix: reduced sums and products do not depend on the
 order of their operands

Sum and Prod merged their operands pairwise and put a combined operand in front of the rest without
combining it with them: x*(x*y)^(1/2)*(x*y)^(1/2) was x*x*y, reducing it again gave x^2*y, 2*2^(1/2)*(-1)
and its mirror image had different reduced forms, x + 2*(x + y) - (x + y) stayed x + x + y.
Collect the factors by base and the terms by their non-rational part until nothing can be combined.
---
 src/algos.rs | 358 ++++++++++++++-------------------------------------
 1 file changed, 100 insertions(+), 258 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index 6c06fc5..e25550e 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -87,136 +87,61 @@ impl Sum {
         lhs.cmp(rhs)
     }
 
-    fn add_sorted(lhs: &Expr, rhs: &Expr) -> Sum {
-        let mut lhs = lhs;
-        let mut rhs = rhs;
-
-        if Self::cmp_args(lhs, rhs).is_ge() {
-            std::mem::swap(&mut lhs, &mut rhs)
-        }
-        let mut sum = Sum::zero();
-        sum.add_rhs(&lhs);
-        sum.add_rhs(&rhs);
-        sum
-    }
-
-    fn flat_merge(lhs: &Expr, mut rhs: Sum) -> Sum {
-        let lhs = lhs.flatten();
-
-        if lhs.is_zero() {
-            return rhs;
-        }
-
-        match lhs.atom() {
-            Atom::Sum(sum) => {
-                let mut sum = sum.clone();
-                rhs.args.into_iter().for_each(|a| {
-                    sum.add_rhs(&a);
-                });
-                sum
-            }
-            _ => {
-                let mut res = vec![lhs.clone()];
-                res.append(&mut rhs.args);
-                rhs.args = res;
-                rhs
-            }
-        }
-        //if let Atom::Sum(sum) = lhs.atom() {
-        //    let mut sum = sum.clone();
-        //    rhs.args.into_iter().for_each(|a| {
-        //        sum.add_rhs(&a);
-        //    });
-        //    sum
-        //} else {
-        //    let mut res = vec![lhs];
-        //    res.extend(rhs.args);
-        //    rhs.args = res;
-        //    rhs
-        //}
-    }
-
-    fn merge_args(p: &[Expr], q: &[Expr]) -> Sum {
-        // println!("merge_args: {p:?} (+) {q:?}");
-        if p.is_empty() {
-            //q.into_iter().cloned().collect()
-            Sum { args: q.to_vec() }
-        } else if q.is_empty() {
-            //p.into_iter().cloned().collect()
-            Sum { args: p.to_vec() }
-        } else {
-            let p1 = p.first().unwrap();
-            let q1 = q.first().unwrap();
-            let p_rest = &p[1..];
-            let q_rest = &q[1..];
-            let h = Sum::reduce_rec(&[p1.clone(), q1.clone()]).args;
-            // println!("merge_args: {p1} (+) {q1} -> {h:?}");
-            if h.is_empty() {
-                Sum::merge_args(p_rest, q_rest)
-            } else if h.len() == 1 {
-                Sum::flat_merge(&h[0], Sum::merge_args(p_rest, q_rest))
-            } else {
-                let rhs = if p1 == &h[0] && q1 == &h[1] {
-                    let rhs = Sum::merge_args(p_rest, q);
-                    // println!("  merge_args1: {p_rest:?} (+) {q:?} -> {rhs:?}");
-                    rhs
-                } else if q1 == &h[0] && p1 == &h[1] {
-                    //assert!(q1 == &h[0], "{:?} != {:?}", q1, h[0]);
-                    let rhs = Sum::merge_args(p, q_rest);
-                    // println!("  merge_args2: {p:?} (+) {q_rest:?} -> {rhs:?}");
-                    rhs
+    /// adds up the numbers and the terms that differ in their coefficient only,
+    /// until nothing can be combined any more
+    ///
+    /// the result does not depend on the order of the arguments
+    pub(crate) fn reduce_rec(args: &[Expr]) -> Sum {
+        let mut args = args.to_vec();
+
+        loop {
+            let mut number = Rational::ZERO;
+            // term, its coefficient and the number of arguments it was collected from
+            let mut terms: Vec<(Expr, Rational, usize)> = vec![];
+            let mut todo: Vec<_> = args.iter().rev().cloned().collect();
+
+            while let Some(arg) = todo.pop() {
+                let arg = arg.flatten();
+                if arg.is_undef() {
+                    return Sum {
+                        args: vec![Expr::undef()],
+                    };
+                } else if let Atom::Sum(sum) = arg.atom() {
+                    todo.extend(sum.args.iter().rev().cloned());
+                } else if let Atom::Rational(r) = arg.atom() {
+                    number += r;
                 } else {
-                    panic!("Illegal reduction: {q:?} + {p:?} -> h")
-                };
-
-                // println!("flat_merge: {:?} (+) {:?}", h[0], rhs);
-                Sum::flat_merge(&h[0], rhs)
+                    let coeff = arg.rational_coeff().unwrap_or(Rational::ONE);
+                    let term = arg.non_rational_term().unwrap_or(Expr::one());
+                    match terms.iter_mut().find(|(t, _, _)| t == &term) {
+                        Some((_, c, n)) => {
+                            *c += coeff;
+                            *n += 1;
+                        }
+                        None => terms.push((term, coeff, 1)),
+                    }
+                }
             }
-        }
-    }
 
-    pub(crate) fn reduce_rec(args: &[Expr]) -> Sum {
-        //println!("reduce_rec: {args:?}");
-        let res = if args.len() < 2 {
-            //return args.into_iter().cloned().collect();
-            Sum {
-                args: args.to_vec(),
-            }
-        } else if args.len() == 2 {
-            //println!("args: {args:?}");
-            let lhs = args[0].flatten();
-            let rhs = args[1].flatten();
-            if let (Atom::Sum(p1), Atom::Sum(p2)) = (lhs.atom(), rhs.atom()) {
-                Sum::merge_args(&p1.args, &p2.args)
-            } else if let Atom::Sum(p) = lhs.atom() {
-                Sum::merge_args(&p.args, slice::from_ref(rhs))
-            } else if let Atom::Sum(p) = rhs.atom() {
-                Sum::merge_args(slice::from_ref(lhs), &p.args)
-            } else if lhs.is_const() || rhs.is_const() {
-                Sum::add_sorted(lhs, rhs)
-            } else if lhs
-                .non_rational_term()
-                .is_some_and(|term| Some(term) == rhs.non_rational_term())
-            {
-                //} else if lhs.term() == rhs.term() && lhs.term().is_some() {
-                let e = lhs.rational_coeff().unwrap() + rhs.rational_coeff().unwrap();
-                Sum {
-                    args: vec![(Expr::from(e) * lhs.non_rational_term().unwrap()).reduce()],
+            let combined = terms.iter().any(|(_, _, n)| *n > 1);
+            args.clear();
+            if !number.is_zero() {
+                args.push(number.into());
+            }
+            for (term, coeff, n) in terms {
+                if coeff.is_one() {
+                    args.push(term);
+                } else if !coeff.is_zero() {
+                    let arg = Expr::mul_raw(Expr::from(coeff), term);
+                    args.push(if n > 1 { arg.reduce() } else { arg });
                 }
-            } else {
-                Sum::add_sorted(lhs, rhs)
             }
-        } else {
-            let lhs = args.first().unwrap().flatten();
-            let rhs = Sum::reduce_rec(&args[1..]);
 
-            if let Atom::Sum(p) = lhs.atom() {
-                Sum::merge_args(&p.args, &rhs.args)
-            } else {
-                Sum::merge_args(slice::from_ref(lhs), &rhs.args)
+            if !combined {
+                args.sort_by(Self::cmp_args);
+                return Sum { args };
             }
-        };
-        res
+        }
     }
 }
 impl Prod {
@@ -318,18 +243,6 @@ impl Prod {
         lhs.cmp(rhs)
     }
 
-    fn mul_sorted(lhs: &Expr, rhs: &Expr) -> Prod {
-        let mut lhs = lhs;
-        let mut rhs = rhs;
-        if Self::cmp_args(lhs, rhs).is_ge() {
-            std::mem::swap(&mut lhs, &mut rhs)
-        }
-        let mut mul = Prod::one();
-        mul.mul_rhs(&lhs);
-        mul.mul_rhs(&rhs);
-        mul
-    }
-
     fn expand_mul(lhs: &Expr, rhs: &Expr) -> Expr {
         use Atom as A;
         match (lhs.atom(), rhs.atom()) {
@@ -407,137 +320,66 @@ impl Prod {
             })
     }
 
-    fn flat_merge(lhs: &Expr, mut rhs: Prod) -> Prod {
-        let lhs = lhs.flatten();
-        if lhs.is_zero() {
-            rhs.args = vec![Expr::zero()];
-            return rhs;
-        } else if lhs.is_one() {
-            return rhs;
-        }
-        match lhs.atom() {
-            Atom::Prod(prod) => {
-                let mut prod = prod.clone();
-                rhs.args.into_iter().for_each(|a| {
-                    prod.mul_rhs(&a);
-                });
-                prod
-            }
-            _ => {
-                let mut res = vec![lhs.clone()];
-                res.append(&mut rhs.args);
-                rhs.args = res;
-                rhs
-            }
-        }
-        //if let Atom::Prod(prod) = lhs.atom() {
-        //    let mut prod = prod.clone();
-        //    rhs.args.into_iter().for_each(|a| {
-        //        prod.mul_rhs(&a);
-        //    });
-        //    //vec![Atom::Prod(prod).into()]
-        //    prod
-        //} else {
-        //    let mut res = vec![lhs];
-        //    res.extend(rhs.args);
-        //    rhs.args = res;
-        //    rhs
-        //}
-    }
-
-    fn merge_args(p: &[Expr], q: &[Expr]) -> Prod {
-        //println!("merge_args: {p:?} (*) {q:?}");
-        if p.is_empty() {
-            Prod { args: q.to_vec() }
-        } else if q.is_empty() {
-            Prod { args: p.to_vec() }
-        } else {
-            let p1 = p.first().unwrap();
-            let q1 = q.first().unwrap();
-            let p_rest = &p[1..];
-            let q_rest = &q[1..];
-            let h = Prod::reduce_rec(&[p1.clone(), q1.clone()]).args;
-            //println!("merge_args: {p1} (*) {p_rest:?} (*) {q1} (*) {q_rest:?} -> {h:?}");
-            if h.is_empty() {
-                Prod::merge_args(p_rest, q_rest)
-            } else if h.len() == 1 {
-                Prod::flat_merge(&h[0], Prod::merge_args(p_rest, q_rest))
-            } else {
-                let rhs = if p1 == &h[0] && q1 == &h[1] {
-                    Prod::merge_args(p_rest, q)
-                } else if q1 == &h[0] && p1 == &h[1] {
-                    //println!("h: {h:?}, p1: {p1:?}, q1: {q1:?}");
-                    //assert!(q1 == &h[0], "{:?} != {:?}", q1, h[0]);
-                    Prod::merge_args(p, q_rest)
-                } else {
-                    // the two factors were combined into other ones
-                    let rest = Prod::merge_args(p_rest, q_rest);
-                    return Prod::merge_args(&h, &rest.args);
-                };
-
-                Prod::flat_merge(&h[0], rhs)
-            }
-        }
-    }
-
+    /// multiplies the numbers and adds up the exponents of factors with the same base,
+    /// until nothing can be combined any more
+    ///
+    /// the result does not depend on the order of the arguments
     pub(crate) fn reduce_rec(args: &[Expr]) -> Prod {
-        //println!("reduce_rec: {args:?}");
-        if args.len() < 2 {
-            //return args.into_iter().cloned().collect();
-            Prod {
-                args: args.to_vec(),
-            }
-        } else if args.len() == 2 {
-            //println!("args: {args:?}");
-            let lhs = args[0].flatten();
-            let rhs = args[1].flatten();
-            if let (Atom::Prod(p1), Atom::Prod(p2)) = (lhs.atom(), rhs.atom()) {
-                Prod::merge_args(&p1.args, &p2.args)
-            } else if let Atom::Prod(p) = lhs.atom() {
-                Prod::merge_args(&p.args, slice::from_ref(rhs))
-            } else if let Atom::Prod(p) = rhs.atom() {
-                Prod::merge_args(slice::from_ref(lhs), &p.args)
-            } else if lhs.is_const() || rhs.is_const() {
-                let mut res = Prod::mul_sorted(lhs, rhs);
-                // factors that were combined can be reduced further
-                for a in &mut res.args {
-                    if a != lhs && a != rhs {
-                        *a = a.reduce();
+        let mut args = args.to_vec();
+
+        loop {
+            let mut number = Rational::ONE;
+            // base and all its exponents
+            let mut factors: Vec<(Expr, Vec<Expr>)> = vec![];
+            let mut todo: Vec<_> = args.iter().rev().cloned().collect();
+
+            while let Some(arg) = todo.pop() {
+                let arg = arg.flatten();
+                if arg.is_undef() {
+                    return Prod {
+                        args: vec![Expr::undef()],
+                    };
+                } else if let Atom::Prod(prod) = arg.atom() {
+                    todo.extend(prod.args.iter().rev().cloned());
+                } else if let Atom::Rational(r) = arg.atom() {
+                    number *= r;
+                } else {
+                    let base = arg.base();
+                    match factors.iter_mut().find(|(b, _)| b == &base) {
+                        Some((_, exponents)) => exponents.push(arg.exponent()),
+                        None => factors.push((base, vec![arg.exponent()])),
                     }
                 }
+            }
 
-                // numbers if present always at the lhs
-                //assert!(
-                //    (res.n_args() < 2
-                //        || (res.args[0].is_number()
-                //            || res.args[1].is_number() && res.args[0].is_number())),
-                //);
-
-                res
-            } else if lhs.base() == rhs.base() {
-                let e = (lhs.exponent() + rhs.exponent()).reduce();
-                Prod {
-                    args: vec![Expr::pow(lhs.base(), e).reduce()],
-                }
-            } else {
-                let mut lhs = lhs.clone();
-                let mut rhs = rhs.clone();
-                if rhs < lhs {
-                    std::mem::swap(&mut lhs, &mut rhs);
-                }
+            if number.is_zero() {
+                return Prod {
+                    args: vec![Expr::zero()],
+                };
+            }
 
-                Prod {
-                    args: vec![lhs, rhs],
+            let combined = factors.iter().any(|(_, exponents)| exponents.len() > 1);
+            args.clear();
+            if !number.is_one() {
+                args.push(number.into());
+            }
+            for (base, mut exponents) in factors {
+                if exponents.len() == 1 {
+                    let exponent = exponents.remove(0);
+                    args.push(if exponent.is_one() {
+                        base
+                    } else {
+                        Expr::pow_raw(base, exponent)
+                    });
+                } else {
+                    let exponent = Sum { args: exponents }.reduce();
+                    args.push(Expr::pow_raw(base, exponent).reduce());
                 }
             }
-        } else {
-            let lhs = args.first().unwrap().flatten();
-            let rhs = Prod::reduce_rec(&args[1..]);
 
-            if let Atom::Prod(p) = lhs.atom() {
-                Prod::merge_args(&p.args, &rhs.args)
-            } else {
-                Prod::merge_args(slice::from_ref(lhs), &rhs.args)
+            if !combined {
+                args.sort_by(Self::cmp_args);
+                return Prod { args };
             }
         }
     }
-- 
2.43.0


From 566df37ecb32db0b154fad7d42c4bf0625056271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:39 +0000
Subject: [PATCH 31/31] fix: comparison of numbers and constants is transitive
 for large fractions

A number was compared with pi and e by dividing its numerator and denominator as floats, which is not
monotonic for large ones: 28296951008113774/9007199254740997 was greater than pi,
31415926535898121/10000000000000061, which is greater than the first, less than pi.
---
 Cargo.lock  | 57 ++++++++++++++++++++++++++++++++++++++++++-----------
 src/atom.rs | 26 +++++++++++++++++-------
 2 files changed, 64 insertions(+), 19 deletions(-)

diff --git a/Cargo.lock b/Cargo.lock
index 2c2dfa1..67e02ae 100644
--- a/Cargo.lock
+++ b/Cargo.lock
@@ -1,6 +1,6 @@
 # This file is automatically @generated by Cargo.
 # It is not intended for manual editing.
-version = 3
+version = 4
 
 [[package]]
 name = "ahash"
@@ -112,7 +112,6 @@ checksum = "1fd0f2584146f6f2ef48085050886acf353beff7305ebd1ae69500e27c67f64b"
 name = "calcu-rs"
 version = "0.1.0"
 dependencies = [
- "bitflags",
  "calcurs_macros",
  "criterion",
  "derive_more",
@@ -123,9 +122,11 @@ dependencies = [
  "num",
  "num-bigint",
  "num-integer",
+ "num-rational",
  "ordered-float",
  "paste",
  "quanta",
+ "ref-cast",
  "serde",
  "serde_json",
 ]
@@ -134,13 +135,14 @@ dependencies = [
 name = "calcurs_macros"
 version = "0.1.0"
 dependencies = [
+ "derive_more",
  "logos",
  "ordered-float",
  "proc-macro2",
  "quote",
  "serde",
  "serde_json",
- "syn",
+ "syn 2.0.85",
 ]
 
 [[package]]
@@ -307,7 +309,7 @@ dependencies = [
  "convert_case",
  "proc-macro2",
  "quote",
- "syn",
+ "syn 2.0.85",
  "unicode-xid",
 ]
 
@@ -481,7 +483,7 @@ dependencies = [
  "proc-macro2",
  "quote",
  "regex-syntax",
- "syn",
+ "syn 2.0.85",
 ]
 
 [[package]]
@@ -679,9 +681,9 @@ dependencies = [
 
 [[package]]
 name = "proc-macro2"
-version = "1.0.86"
+version = "1.0.107"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "5e719e8df665df0d1c8fbfd238015744736151d4445ec0836b8e628aae103b77"
+checksum = "985e7ec9bb745e6ce6535b544d84d6cd6f7ad8bd711c398938ae983b91a766d9"
 dependencies = [
  "unicode-ident",
 ]
@@ -758,6 +760,26 @@ dependencies = [
  "crossbeam-utils",
 ]
 
+[[package]]
+name = "ref-cast"
+version = "1.0.27"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "7e440fb4e4b4147295338efb76001ab9e4efc0e5839df2c47fc5ac2381d365c3"
+dependencies = [
+ "ref-cast-impl",
+]
+
+[[package]]
+name = "ref-cast-impl"
+version = "1.0.27"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "92ecd8964f8453721699a1ed72037b0db49ce2f5a5138486ee89bed6f67cdf3a"
+dependencies = [
+ "proc-macro2",
+ "quote",
+ "syn 3.0.9",
+]
+
 [[package]]
 name = "regex"
 version = "1.10.6"
@@ -819,7 +841,7 @@ checksum = "de523f781f095e28fa605cdce0f8307e451cc0fd14e2eb4cd2e98a355b147766"
 dependencies = [
  "proc-macro2",
  "quote",
- "syn",
+ "syn 2.0.85",
 ]
 
 [[package]]
@@ -845,6 +867,17 @@ dependencies = [
  "unicode-ident",
 ]
 
+[[package]]
+name = "syn"
+version = "3.0.9"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "d78c8dee4c7bf0e14673097256fed6142ce9d3b85a408189d07482442145823b"
+dependencies = [
+ "proc-macro2",
+ "quote",
+ "unicode-ident",
+]
+
 [[package]]
 name = "tinytemplate"
 version = "1.2.1"
@@ -923,7 +956,7 @@ dependencies = [
  "once_cell",
  "proc-macro2",
  "quote",
- "syn",
+ "syn 2.0.85",
  "wasm-bindgen-shared",
 ]
 
@@ -945,7 +978,7 @@ checksum = "afc340c74d9005395cf9dd098506f7f44e38f2b4a21c6aaacf9a105ea5e1e836"
 dependencies = [
  "proc-macro2",
  "quote",
- "syn",
+ "syn 2.0.85",
  "wasm-bindgen-backend",
  "wasm-bindgen-shared",
 ]
@@ -988,7 +1021,7 @@ version = "0.1.9"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "cf221c93e13a30d793f7645a0e7762c55d169dbb0a49671918a2319d289b10bb"
 dependencies = [
- "windows-sys 0.52.0",
+ "windows-sys 0.59.0",
 ]
 
 [[package]]
@@ -1096,5 +1129,5 @@ checksum = "fa4f8080344d4671fb4e831a13ad1e68092748387dfc4f55e356242fae12ce3e"
 dependencies = [
  "proc-macro2",
  "quote",
- "syn",
+ "syn 2.0.85",
 ]
diff --git a/src/atom.rs b/src/atom.rs
index 95dff68..5569dd2 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -300,13 +300,10 @@ impl PartialOrd for Real {
 }
 impl Ord for Real {
     fn cmp(&self, other: &Self) -> cmp::Ordering {
-        use ordered_float::OrderedFloat;
-        match (self, other) {
-            (Real::Rational(l), Real::Rational(r)) => l.cmp(r),
-            _ => OrderedFloat(self.f64_approx())
-                .cmp(&OrderedFloat(other.f64_approx()))
-                .then_with(|| self.is_irrational().cmp(&other.is_irrational())),
-        }
+        // exact, as the quotient of large integers in floats does not grow with the fraction
+        self.approx()
+            .cmp(&other.approx())
+            .then_with(|| self.is_irrational().cmp(&other.is_irrational()))
     }
 }
 
@@ -318,6 +315,13 @@ impl Real {
     pub const E: Real = Real::Irrational(Irrational::E);
     pub const PI: Real = Real::Irrational(Irrational::PI);
 
+    fn approx(&self) -> Rational {
+        match self {
+            Real::Rational(r) => r.clone(),
+            Real::Irrational(i) => i.approx(),
+        }
+    }
+
     pub fn f64_approx(&self) -> f64 {
         match self {
             Real::Rational(r) => r.f64_approx(),
@@ -368,6 +372,14 @@ impl Irrational {
             Irrational::PI => std::f64::consts::PI,
         }
     }
+
+    /// [`Self::f64_approx`] as a fraction
+    fn approx(&self) -> Rational {
+        match self {
+            Irrational::E => Rational::from((6121026514868073i128, 1i128 << 51)),
+            Irrational::PI => Rational::from((884279719003555i128, 1i128 << 48)),
+        }
+    }
 }
 
 #[derive(
-- 
2.43.0

