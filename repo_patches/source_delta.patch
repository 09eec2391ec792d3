From d98e1c982237ad9874db30eaa92a73e0cc3a684e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:13 +0000
Subject: [PATCH 1/6] fix: integer arithmetic on mixed signed/unsigned operands
 is exact

An i64 operand below zero combined with a u64 operand above i64::MAX fell
through to f64 arithmetic, silently rounding sums, products, quotients and
remainders. Compute these in i128 and report a range error when the exact
result has no 64-bit representation.
---
 src/eval/stg/arith.rs | 80 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 80 insertions(+)

diff --git a/src/eval/stg/arith.rs b/src/eval/stg/arith.rs
index 5f57315..a068a2c 100644
--- a/src/eval/stg/arith.rs
+++ b/src/eval/stg/arith.rs
@@ -73,6 +73,32 @@ fn num_from_floored(val: f64) -> Option<Number> {
     Number::from_f64(val)
 }
 
+/// Both operands as exact integers when neither is a float, whichever
+/// 64-bit representation (signed or unsigned) each happens to use.
+fn int_operands(x: &Number, y: &Number) -> Option<(i128, i128)> {
+    let widen = |n: &Number| n.as_i64().map(i128::from).or(n.as_u64().map(i128::from));
+    Some((widen(x)?, widen(y)?))
+}
+
+/// Floor division and modulus of widened 64-bit operands.
+fn floor_div_mod_i128(a: i128, b: i128) -> Option<(i128, i128)> {
+    let d = a.checked_div(b)?;
+    let r = a.checked_rem(b)?;
+    if r != 0 && ((r ^ b) < 0) {
+        Some((d - 1, r + b))
+    } else {
+        Some((d, r))
+    }
+}
+
+/// An integer result as a Number, if it fits a 64-bit representation.
+fn num_from_int(val: i128) -> Option<Number> {
+    i64::try_from(val)
+        .map(Number::from)
+        .or_else(|_| u64::try_from(val).map(Number::from))
+        .ok()
+}
+
 /// ADD(l, r) - add l to r
 pub struct Add;
 
@@ -118,6 +144,14 @@ impl StgIntrinsic for Add {
                 y,
             ))?;
             machine_return_num(machine, view, Number::from(total))
+        } else if let Some((l, r)) = int_operands(&x, &y) {
+            // One signed and one beyond the signed range: f64 would round
+            let result = num_from_int(l + r).ok_or(ExecutionError::NumericRangeError(
+                machine.annotation(),
+                x,
+                y,
+            ))?;
+            machine_return_num(machine, view, result)
         } else if let (Some(l), Some(r)) = (x.as_f64(), y.as_f64()) {
             if let Some(ret) = Number::from_f64(l + r) {
                 machine_return_num(machine, view, ret)
@@ -185,6 +219,14 @@ impl StgIntrinsic for Sub {
                 y,
             ))?;
             machine_return_num(machine, view, Number::from(result))
+        } else if let Some((l, r)) = int_operands(&x, &y) {
+            // One signed and one beyond the signed range: f64 would round
+            let result = num_from_int(l - r).ok_or(ExecutionError::NumericRangeError(
+                machine.annotation(),
+                x,
+                y,
+            ))?;
+            machine_return_num(machine, view, result)
         } else if let (Some(l), Some(r)) = (x.as_f64(), y.as_f64()) {
             if let Some(ret) = Number::from_f64(l - r) {
                 machine_return_num(machine, view, ret)
@@ -252,6 +294,12 @@ impl StgIntrinsic for Mul {
                 y,
             ))?;
             machine_return_num(machine, view, Number::from(product))
+        } else if let Some((l, r)) = int_operands(&x, &y) {
+            // One signed and one beyond the signed range: f64 would round
+            let result = l.checked_mul(r).and_then(num_from_int).ok_or(
+                ExecutionError::NumericRangeError(machine.annotation(), x, y),
+            )?;
+            machine_return_num(machine, view, result)
         } else if let (Some(l), Some(r)) = (x.as_f64(), y.as_f64()) {
             if let Some(ret) = Number::from_f64(l * r) {
                 machine_return_num(machine, view, ret)
@@ -326,6 +374,16 @@ impl StgIntrinsic for Div {
                 y,
             ))?;
             machine_return_num(machine, view, Number::from(result))
+        } else if let Some((l, r)) = int_operands(&x, &y) {
+            // One signed and one beyond the signed range: f64 would round
+            let result = floor_div_mod_i128(l, r)
+                .and_then(|(d, _)| num_from_int(d))
+                .ok_or(ExecutionError::NumericRangeError(
+                    machine.annotation(),
+                    x,
+                    y,
+                ))?;
+            machine_return_num(machine, view, result)
         } else if let (Some(l), Some(r)) = (x.as_f64(), y.as_f64()) {
             let result = (l / r).floor();
             if let Some(n) = num_from_floored(result) {
@@ -388,6 +446,16 @@ impl StgIntrinsic for Mod {
                 y,
             ))?;
             machine_return_num(machine, view, Number::from(result))
+        } else if let Some((l, r)) = int_operands(&x, &y) {
+            // One signed and one beyond the signed range: f64 would round
+            let result = floor_div_mod_i128(l, r)
+                .and_then(|(_, m)| num_from_int(m))
+                .ok_or(ExecutionError::NumericRangeError(
+                    machine.annotation(),
+                    x,
+                    y,
+                ))?;
+            machine_return_num(machine, view, result)
         } else if let (Some(l), Some(r)) = (x.as_f64(), y.as_f64()) {
             let q = (l / r).floor();
             let result = l - r * q;
@@ -908,6 +976,12 @@ impl StgIntrinsic for Quot {
                 y,
             ))?;
             machine_return_num(machine, view, Number::from(result))
+        } else if let Some((l, r)) = int_operands(&x, &y) {
+            // One signed and one beyond the signed range: f64 would round
+            let result = l.checked_div(r).and_then(num_from_int).ok_or(
+                ExecutionError::NumericRangeError(machine.annotation(), x, y),
+            )?;
+            machine_return_num(machine, view, result)
         } else if let (Some(l), Some(r)) = (x.as_f64(), y.as_f64()) {
             let result = (l / r).trunc();
             if let Some(n) = num_from_floored(result) {
@@ -970,6 +1044,12 @@ impl StgIntrinsic for Rem {
                 y,
             ))?;
             machine_return_num(machine, view, Number::from(result))
+        } else if let Some((l, r)) = int_operands(&x, &y) {
+            // One signed and one beyond the signed range: f64 would round
+            let result = l.checked_rem(r).and_then(num_from_int).ok_or(
+                ExecutionError::NumericRangeError(machine.annotation(), x, y),
+            )?;
+            machine_return_num(machine, view, result)
         } else if let (Some(l), Some(r)) = (x.as_f64(), y.as_f64()) {
             if let Some(ret) = Number::from_f64(l % r) {
                 machine_return_num(machine, view, ret)
-- 
2.43.0


From 8ad901a3a3aaf57da679bee63cc09d25b570cb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:13 +0000
Subject: [PATCH 2/6] fix: a float equal to 2^63 is not the integer 2^63 - 1

i64::MAX as f64 rounds up to 2^63, so the inclusive bound let 2^63 through
the saturating cast: flooring returned 9223372036854775807 and the bitwise
operators accepted the value instead of reporting it out of range.
---
 src/eval/stg/arith.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eval/stg/arith.rs b/src/eval/stg/arith.rs
index a068a2c..8a899f4 100644
--- a/src/eval/stg/arith.rs
+++ b/src/eval/stg/arith.rs
@@ -64,7 +64,7 @@ fn floor_mod_i64(a: i64, b: i64) -> Option<i64> {
 /// Convert a floored/truncated f64 to an integer Number when possible,
 /// falling back to f64 representation for values outside i64 range.
 fn num_from_floored(val: f64) -> Option<Number> {
-    if val.is_finite() && val >= i64::MIN as f64 && val <= i64::MAX as f64 {
+    if val.is_finite() && val >= i64::MIN as f64 && val < -(i64::MIN as f64) {
         let i = val as i64;
         if (i as f64) == val {
             return Some(Number::from(i));
@@ -1085,7 +1085,7 @@ fn require_i64(n: &Number, smid: crate::common::sourcemap::Smid) -> Result<i64,
             )
         })
     } else if let Some(f) = n.as_f64() {
-        if f.fract() == 0.0 && f >= i64::MIN as f64 && f <= i64::MAX as f64 {
+        if f.fract() == 0.0 && f >= i64::MIN as f64 && f < -(i64::MIN as f64) {
             Ok(f as i64)
         } else {
             Err(ExecutionError::BitwiseIntegerRequired(
-- 
2.43.0


From 4fee04fae8d1009c0ff170791aaae54e8893f788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:14 +0000
Subject: [PATCH 3/6] fix: powers of -1, 0 and 1 with exponents beyond u32 are
 exact

They fell back to f64, where an odd exponent above 2^53 rounds to an even
one, so -1 raised to it came out as 1.
---
 src/eval/stg/arith.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/eval/stg/arith.rs b/src/eval/stg/arith.rs
index 8a899f4..8f0b7ba 100644
--- a/src/eval/stg/arith.rs
+++ b/src/eval/stg/arith.rs
@@ -882,10 +882,15 @@ impl StgIntrinsic for Pow {
 
 /// Integer exponentiation with overflow checking
 fn checked_int_pow(base: i64, exp: u64) -> Option<i64> {
-    if exp > u32::MAX as u64 {
-        return None;
+    match u32::try_from(exp) {
+        Ok(e) => base.checked_pow(e),
+        // Only these bases stay in range; f64 cannot tell the exponent's parity
+        Err(_) => match base {
+            0 | 1 => Some(base),
+            -1 => Some(if exp % 2 == 0 { 1 } else { -1 }),
+            _ => None,
+        },
     }
-    base.checked_pow(exp as u32)
 }
 
 impl CallGlobal2 for Pow {}
-- 
2.43.0


From 9c1b26a7cae1079e183f01802e9cbda23afa1aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:52 +0000
Subject: [PATCH 4/6] fix: a prefix operator takes no operand from what
 precedes it

---
 src/core/cook/shunt.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/cook/shunt.rs b/src/core/cook/shunt.rs
index 0bfce89..78c16fa 100644
--- a/src/core/cook/shunt.rs
+++ b/src/core/cook/shunt.rs
@@ -114,6 +114,13 @@ impl<'smap> Shunter<'smap> {
                 return;
             }
 
+            // Prefix operators take nothing from what precedes them, so
+            // whatever is on the op stack is still waiting for its operand
+            if *this_fixity == Fixity::UnaryPrefix {
+                self.push_op(op);
+                return;
+            }
+
             let top = self.peek_op().cloned();
 
             match top {
-- 
2.43.0


From e4df10888ce5e6f9f7c068a41e62855b8e923503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:50 +0000
Subject: [PATCH 5/6] fix: shift the outer variables of a replacement
 substituted inside nested scopes

RcExpr::substs put a replacement under Let and Lam scopes without adjusting
its bound variables, so an inlined combinator which refers to a binding of
an enclosing scope came to refer to some other variable at the call site.
---
 src/core/expr.rs | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/core/expr.rs b/src/core/expr.rs
index 0734705..9dc6c9f 100644
--- a/src/core/expr.rs
+++ b/src/core/expr.rs
@@ -1189,13 +1189,47 @@ impl RcExpr {
     /// wrapping Let scope). Callers must maintain this invariant.
     ///
     /// Uses optimised `try_walk` to avoid unnecessary allocations.
+    ///
+    /// A replacement that lands inside Let or Lam scopes of `self` has its
+    /// outer bound variables shifted by the number of scopes crossed.
     pub fn substs(&self, mappings: &[(String, RcExpr)]) -> RcExpr {
+        self.substs_at(mappings, 0)
+    }
+
+    /// `substs` for an expression `depth` scopes inside the one the
+    /// replacements were taken from.
+    fn substs_at(&self, mappings: &[(String, RcExpr)], depth: u32) -> RcExpr {
         match &*self.inner {
             Expr::Var(_, Var::Free(name)) => match mappings.iter().find(|(n, _)| n == name) {
-                Some((_, replacement)) => replacement.clone(),
+                Some((_, replacement)) => replacement.shift_outer(0, depth),
                 None => self.clone(),
             },
-            _ => self.try_walk(&|e: &RcExpr| e.substs(mappings)),
+            Expr::Let(_, _, _) | Expr::Lam(_, _, _) => {
+                self.try_walk(&|e: &RcExpr| e.substs_at(mappings, depth + 1))
+            }
+            _ => self.try_walk(&|e: &RcExpr| e.substs_at(mappings, depth)),
+        }
+    }
+
+    /// Add `by` to the scope index of every bound variable that refers
+    /// outside the `depth` innermost scopes.
+    fn shift_outer(&self, depth: u32, by: u32) -> RcExpr {
+        if by == 0 {
+            return self.clone();
+        }
+        match &*self.inner {
+            Expr::Var(s, Var::Bound(bv)) if bv.scope >= depth => RcExpr::from(Expr::Var(
+                *s,
+                Var::Bound(BoundVar {
+                    scope: bv.scope + by,
+                    binder: bv.binder,
+                    name: bv.name.clone(),
+                }),
+            )),
+            Expr::Let(_, _, _) | Expr::Lam(_, _, _) => {
+                self.try_walk(&|e: &RcExpr| e.shift_outer(depth + 1, by))
+            }
+            _ => self.try_walk(&|e: &RcExpr| e.shift_outer(depth, by)),
         }
     }
 
-- 
2.43.0


From 4f440ded3cab67d4efae733d2c7dbac9ea32b03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:50 +0000
Subject: [PATCH 6/6] fix: do not open a scope whose binders are also free in
 it while inlining

Opening a Let or Lam scope merged its binders with free variables of the
same name (binders of enclosing scopes which are already open, carried in by
an inlined combinator), so that closing it again captured them.
---
 src/core/inline/reduce.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/core/inline/reduce.rs b/src/core/inline/reduce.rs
index 4039908..3d1f4e8 100644
--- a/src/core/inline/reduce.rs
+++ b/src/core/inline/reduce.rs
@@ -166,6 +166,17 @@ fn pre_expand_inlines(mut inlines: Vec<(String, RcExpr)>) -> Vec<(String, RcExpr
     inlines
 }
 
+/// True iff any of the `binders` of the scope `expr` is also the name of
+/// a free variable of `expr`.
+///
+/// Opening such a scope makes its own bound variables indistinguishable
+/// from those free variables (e.g. references to the binders of enclosing
+/// scopes which are already open, carried in by an inlined combinator).
+fn clashes<'a, I: Iterator<Item = &'a str>>(mut binders: I, expr: &RcExpr) -> bool {
+    let free = free_vars(expr);
+    binders.any(|name| free.contains(name))
+}
+
 /// Distribute inline lambdas to call site
 fn distribute(expr: &RcExpr) -> Result<RcExpr, CoreError> {
     match &*expr.inner {
@@ -192,6 +203,10 @@ fn distribute(expr: &RcExpr) -> Result<RcExpr, CoreError> {
 
             if inlines.is_empty() {
                 Ok(expr.clone())
+            } else if clashes(scope.pattern.iter().map(|b| b.name.as_str()), expr) {
+                // opening the scope has merged its binders with free
+                // variables of the same name, so leave it closed
+                expr.try_walk_safe(&mut |e| distribute(e))
             } else {
                 let bindings = open_bindings
                     .iter()
@@ -284,9 +299,12 @@ fn beta_reduce(expr: &RcExpr) -> Result<RcExpr, CoreError> {
                     let binders = scope.pattern.clone();
                     let body = open_lam_scope(scope);
 
-                    if binders.len() != xs.len() {
+                    if binders.len() != xs.len()
+                        || clashes(binders.iter().map(|b| b.as_str()), f)
+                    {
                         // cannot inline partial application or extra
-                        // args for now
+                        // args for now, nor substitute for binders which
+                        // cannot be told apart from free variables
                         // Use optimized try_walk_safe
                         expr.try_walk_safe(&mut |e| beta_reduce(e))
                     } else {
-- 
2.43.0

