From db591ad19f7d2cdfb05bfb017bbacdab590c707b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:14 +0000
Subject: [PATCH 1/9] fix: do not print debug traces from homographic
 evaluation

Building a homographic number or extracting symbols from it wrote its
coefficients to the standard output of the program using the library.
---
 src/strategy/homographic.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/strategy/homographic.rs b/src/strategy/homographic.rs
index f5f8da3..50221e9 100644
--- a/src/strategy/homographic.rs
+++ b/src/strategy/homographic.rs
@@ -1084,8 +1084,6 @@ impl Homographic {
         Option<Ratio>,
         Option<Homographic>,
     ) {
-        // FIXME: debug
-        println!("{} {} {} {}", self.nx, self.n, self.dx, self.d);
         if self.are_singularities_outside_domain() {
             if let Ok(primer) = self.primer_egest() {
                 return (None, primer, None, Some(self));
@@ -1137,8 +1135,6 @@ impl Homographic {
 
 impl Strategy for Homographic {
     fn egest(&mut self) -> Result<Option<protocol::Reduction>, Box<dyn Strategy>> {
-        // FIXME: debug
-        println!("{} {} {} {}", self.nx, self.n, self.dx, self.d);
         if self.are_singularities_outside_domain() {
             if let Ok(reduction) = self.reduction_egest() {
                 return Ok(reduction);
-- 
2.43.0


From 543f2d50bd3e9be64420f0148c49f3623b09fef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:14 +0000
Subject: [PATCH 2/9] fix: report division by zero for an identically zero
 denominator

A homographic transformation whose denominator coefficients are both zero
silently produced a number, so that x / 0 was accepted by combine as well.
---
 src/strategy/homographic.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/strategy/homographic.rs b/src/strategy/homographic.rs
index 50221e9..2368b4c 100644
--- a/src/strategy/homographic.rs
+++ b/src/strategy/homographic.rs
@@ -862,6 +862,10 @@ pub fn new(
         (special, primer, ratio, None)
     }
 
+    if dx == 0 && d == 0 {
+        panic!("division by zero");
+    }
+
     if nx == 0 && dx == 0 {
         return as_ratio(n, d);
     }
-- 
2.43.0


From feec4a0e0c6f294d8e38b1109b4edad3dd4a2e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:14 +0000
Subject: [PATCH 3/9] fix: detect overflow when negating coefficients

Negating the smallest machine integer wrapped around silently in release
builds, which led to wrong results.  Check it like all other coefficient
arithmetic.
---
 src/strategy/combine.rs     | 24 ++++++++++++------------
 src/strategy/homographic.rs | 16 ++++++++--------
 src/strategy/support.rs     | 12 ++++++------
 3 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/strategy/combine.rs b/src/strategy/combine.rs
index 01420b3..7bf7690 100644
--- a/src/strategy/combine.rs
+++ b/src/strategy/combine.rs
@@ -727,19 +727,19 @@ pub fn new(
 
     macro_rules! reflect_x {
         () => {
-            a *= -1;
-            b *= -1;
-            e *= -1;
-            f *= -1;
+            a = a.checked_neg().unwrap();
+            b = b.checked_neg().unwrap();
+            e = e.checked_neg().unwrap();
+            f = f.checked_neg().unwrap();
         };
     }
 
     macro_rules! reflect_y {
         () => {
-            a *= -1;
-            c *= -1;
-            e *= -1;
-            g *= -1;
+            a = a.checked_neg().unwrap();
+            c = c.checked_neg().unwrap();
+            e = e.checked_neg().unwrap();
+            g = g.checked_neg().unwrap();
         };
     }
 
@@ -1106,10 +1106,10 @@ impl Combine {
     }
 
     fn reflect(&mut self) -> protocol::Primer {
-        self.a = -self.a;
-        self.b = -self.b;
-        self.c = -self.c;
-        self.d = -self.d;
+        self.a = self.a.checked_neg().unwrap();
+        self.b = self.b.checked_neg().unwrap();
+        self.c = self.c.checked_neg().unwrap();
+        self.d = self.d.checked_neg().unwrap();
         protocol::Primer::Reflect
     }
 
diff --git a/src/strategy/homographic.rs b/src/strategy/homographic.rs
index 2368b4c..27717ae 100644
--- a/src/strategy/homographic.rs
+++ b/src/strategy/homographic.rs
@@ -889,12 +889,12 @@ pub fn new(
             swap(&mut dx, &mut d);
         }
         Some(protocol::Primer::Reflect) => {
-            nx = -nx;
-            dx = -dx;
+            nx = nx.checked_neg().unwrap();
+            dx = dx.checked_neg().unwrap();
         }
         Some(protocol::Primer::Ground) => {
-            nx = -nx;
-            dx = -dx;
+            nx = nx.checked_neg().unwrap();
+            dx = dx.checked_neg().unwrap();
             swap(&mut nx, &mut n);
             swap(&mut dx, &mut d);
         }
@@ -968,16 +968,16 @@ impl Homographic {
     }
 
     fn ground(&mut self) -> protocol::Primer {
-        self.dx = -self.dx;
-        self.d = -self.d;
+        self.dx = self.dx.checked_neg().unwrap();
+        self.d = self.d.checked_neg().unwrap();
         swap(&mut self.nx, &mut self.dx);
         swap(&mut self.n, &mut self.d);
         protocol::Primer::Ground
     }
 
     fn reflect(&mut self) -> protocol::Primer {
-        self.nx = -self.nx;
-        self.n = -self.n;
+        self.nx = self.nx.checked_neg().unwrap();
+        self.n = self.n.checked_neg().unwrap();
         protocol::Primer::Reflect
     }
 
diff --git a/src/strategy/support.rs b/src/strategy/support.rs
index bbbcb00..5f75e6b 100644
--- a/src/strategy/support.rs
+++ b/src/strategy/support.rs
@@ -155,16 +155,16 @@ pub fn updated_range(
     }
 
     if dmin < 0 {
-        nmin *= -1;
-        dmin *= -1;
+        nmin = nmin.checked_neg().unwrap();
+        dmin = dmin.checked_neg().unwrap();
     }
     if dmax < 0 {
-        nmax *= -1;
-        dmax *= -1;
+        nmax = nmax.checked_neg().unwrap();
+        dmax = dmax.checked_neg().unwrap();
     }
     if dnew < 0 {
-        nnew *= -1;
-        dnew *= -1;
+        nnew = nnew.checked_neg().unwrap();
+        dnew = dnew.checked_neg().unwrap();
     }
 
     if nmin == 0 {
-- 
2.43.0


From f8eceb721145c3358aa5a371ff44fb34b1b9ec6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:15 +0000
Subject: [PATCH 4/9] fix: accept the smallest machine integer in ratios

Number::ratio(isize::MIN, d) overflowed while taking the magnitude of its
argument in builds with overflow checks.
---
 src/lib.rs            | 4 ++--
 src/strategy/ratio.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c1adac3..4bab521 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -87,8 +87,8 @@ impl Number {
     pub fn ratio(num: isize, den: isize) -> Number {
         Number::ratio_u(
             (num >= 0 && den >= 0) || (num < 0 && den < 0),
-            if num >= 0 { num } else { -num } as usize,
-            if den >= 0 { den } else { -den } as usize,
+            num.unsigned_abs(),
+            den.unsigned_abs(),
         )
     }
 
diff --git a/src/strategy/ratio.rs b/src/strategy/ratio.rs
index d322086..8935831 100644
--- a/src/strategy/ratio.rs
+++ b/src/strategy/ratio.rs
@@ -240,8 +240,8 @@ pub fn new_i(
 ) {
     new(
         (num >= 0 && den >= 0) || (num < 0 && den < 0),
-        if num >= 0 { num } else { -num } as usize,
-        if den >= 0 { den } else { -den } as usize,
+        num.unsigned_abs(),
+        den.unsigned_abs(),
     )
 }
 
-- 
2.43.0


From 6f5086ce137b0081f324559eb945cb884f0f0000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:15 +0000
Subject: [PATCH 5/9] fix: do not extract symbols when primers decide a
 comparison

The reductions of both numbers were always compared, even when their
primers differ.  This could fail or take forever although the ordering
was already known.
---
 src/compare.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/compare.rs b/src/compare.rs
index 192438d..9fb2861 100644
--- a/src/compare.rs
+++ b/src/compare.rs
@@ -297,11 +297,13 @@ fn compare_others(
     p2: Option<protocol::Primer>,
     c2: Clog,
 ) -> Ordering {
-    compare_primers(&p1, &p2).then(compare_clogs(
-        c1,
-        c2,
-        p1 != Some(protocol::Primer::Reflect) && p1 != Some(protocol::Primer::Turn),
-    ))
+    compare_primers(&p1, &p2).then_with(|| {
+        compare_clogs(
+            c1,
+            c2,
+            p1 != Some(protocol::Primer::Reflect) && p1 != Some(protocol::Primer::Turn),
+        )
+    })
 }
 
 fn compare_primers(p1: &Option<protocol::Primer>, p2: &Option<protocol::Primer>) -> Ordering {
-- 
2.43.0


From 88ad28f94ed5b7873655f7cbe60aadedb7de437f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:37 +0000
Subject: [PATCH 6/9] Add a guarded hook that builds a number from a symbol
 source

---
 src/lib.rs   |  4 ++++
 src/verif.rs | 44 ++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 48 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index 4bab521..775ccda 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -26,8 +26,12 @@
 //! Continued logarithm is a way of representing rational numbers with unbounded precision.
 //! Reference: <https://perl.plover.com/classes/cftalk/INFO/gosper.txt>
 
+#![allow(unexpected_cfgs)]
+
 mod compare;
 mod strategy;
+#[cfg(clarith_verif)]
+mod verif;
 
 pub mod protocol;
 
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..d7bdfe2
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,44 @@
+/*
+ * Copyright 2019 Rafael Lorandi <coolparadox@gmail.com>
+ *
+ * This file is part of clarith, a library for performing arithmetic
+ * in continued logarithm representation.
+ *
+ * clarith is free software: you can redistribute it and/or modify
+ * it under the terms of the GNU General Public License as published by
+ * the Free Software Foundation, either version 3 of the License, or
+ * (at your option) any later version.
+ *
+ * clarith is distributed in the hope that it will be useful,
+ * but WITHOUT ANY WARRANTY; without even the implied warranty of
+ * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ * GNU General Public License for more details.
+ *
+ * You should have received a copy of the GNU General Public License
+ * along with clarith.  If not, see <http://www.gnu.org/licenses/>
+ */
+
+// Verification hook, compiled only with `--cfg clarith_verif`.
+
+use crate::protocol;
+use crate::strategy::Strategy;
+use crate::Clog;
+
+struct Source {
+    next: Box<dyn FnMut() -> Option<protocol::Reduction>>,
+}
+
+impl Strategy for Source {
+    fn egest(&mut self) -> Result<Option<protocol::Reduction>, Box<dyn Strategy>> {
+        Ok((self.next)())
+    }
+}
+
+impl Clog {
+    /// Construct a Clog whose Reduction symbols are supplied by the caller.
+    pub fn from_source(next: Box<dyn FnMut() -> Option<protocol::Reduction>>) -> Clog {
+        Clog {
+            strategy: Box::new(Source { next }),
+        }
+    }
+}
-- 
2.43.0


From 98ab7acea825849673f52434902f51f2c29aa530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:39 +0000
Subject: [PATCH 7/9] fix: take the sign of infinity at a pole from inside the
 domain

The value at a pole on the edge of the domain was given the sign of the
numerator alone.  The range of e.g. 1/-x was then misjudged, so that the
reciprocal of a small negative number read its whole operand and could
overflow, unlike the reciprocal of a small positive number.
---
 src/strategy/homographic.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/strategy/homographic.rs b/src/strategy/homographic.rs
index 27717ae..8ba58de 100644
--- a/src/strategy/homographic.rs
+++ b/src/strategy/homographic.rs
@@ -988,14 +988,21 @@ impl Homographic {
     }
 
     fn image_extremes(&self) -> (isize, isize, isize, isize) {
-        let (n0, d0) = self.value_at_zero();
+        let (mut n0, d0) = self.value_at_zero();
         if n0 == 0 && d0 == 0 {
             return (0, 0, 0, 0);
         }
-        let (n1, d1) = self.value_at_one();
+        let (mut n1, d1) = self.value_at_one();
         if n1 == 0 && d1 == 0 {
             return (0, 0, 0, 0);
         }
+        // at a pole, infinity has the sign of the nearby values inside the domain
+        if d0 == 0 && d1 < 0 {
+            n0 = -n0.signum();
+        }
+        if d1 == 0 && d0 < 0 {
+            n1 = -n1.signum();
+        }
         support::updated_range(n0, d0, n0, d0, n1, d1)
     }
 
-- 
2.43.0


From 8d3b9bd8de4d2a219f414738d5e8db5f24b45fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:36:13 +0000
Subject: [PATCH 8/9] fix: extract nothing more from a number after a panic

A panic while coefficients are being updated, usually on overflow, leaves
them half updated. A caller that caught the panic and went on extracting
could get wrong symbols. Now every later extraction panics as well.
---
 src/lib.rs      | 10 ++++++++--
 src/strategy.rs |  9 +++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 775ccda..0c73dda 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -37,6 +37,7 @@ pub mod protocol;
 
 use crate::strategy::Strategy;
 use std::cmp::Ordering;
+use std::mem::replace;
 
 /// A number greater than zero and lesser than one with unbounded precision.
 pub struct Clog {
@@ -49,8 +50,13 @@ impl Clog {
      * If self is one half, no symbol is returned.
      */
     pub fn egest(&mut self) -> Option<protocol::Reduction> {
-        match self.strategy.egest() {
-            Ok(reduction) => reduction,
+        // A panic may leave coefficients half updated, so nothing can be extracted after it.
+        let mut strategy = replace(&mut self.strategy, Box::new(strategy::Failed));
+        match strategy.egest() {
+            Ok(reduction) => {
+                self.strategy = strategy;
+                reduction
+            }
             Err(new_strategy) => {
                 self.strategy = new_strategy;
                 self.egest()
diff --git a/src/strategy.rs b/src/strategy.rs
index 9a7c4ad..9836fcd 100644
--- a/src/strategy.rs
+++ b/src/strategy.rs
@@ -29,3 +29,12 @@ use crate::protocol;
 pub trait Strategy {
     fn egest(&mut self) -> Result<Option<protocol::Reduction>, Box<dyn Strategy>>;
 }
+
+/// What is left of a number whose extraction has panicked.
+pub struct Failed;
+
+impl Strategy for Failed {
+    fn egest(&mut self) -> Result<Option<protocol::Reduction>, Box<dyn Strategy>> {
+        panic!("extraction has failed before");
+    }
+}
-- 
2.43.0


From a64fc660a63501558fc540316e63d38c23efe237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:26:26 +0000
Subject: [PATCH 9/9] fix: find the primer of a result in a loop instead of by
 recursion

A constant quotient such as x / x reads its operand to the end before the
primer is known. With an operand of tens of thousands of symbols the
recursion overflowed the stack.
---
 src/strategy/combine.rs     | 18 ++++++++++--------
 src/strategy/homographic.rs | 16 ++++++++--------
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/strategy/combine.rs b/src/strategy/combine.rs
index 7bf7690..90492c2 100644
--- a/src/strategy/combine.rs
+++ b/src/strategy/combine.rs
@@ -869,16 +869,18 @@ impl Combine {
         Option<Homographic>,
         Option<Combine>,
     ) {
-        if self.are_singularities_outside_domain() {
-            if let Ok(primer) = self.primer_egest() {
-                return (None, primer, None, None, Some(self));
+        loop {
+            if self.are_singularities_outside_domain() {
+                if let Ok(primer) = self.primer_egest() {
+                    return (None, primer, None, None, Some(self));
+                }
             }
-        }
-        match self.prime_ingest() {
-            Ok((special, primer, ratio, homographic)) => {
-                (special, primer, ratio, homographic, None)
+            match self.prime_ingest() {
+                Ok((special, primer, ratio, homographic)) => {
+                    return (special, primer, ratio, homographic, None);
+                }
+                Err(myself) => self = myself,
             }
-            Err(myself) => myself.prime(),
         }
     }
 
diff --git a/src/strategy/homographic.rs b/src/strategy/homographic.rs
index 8ba58de..cb6694c 100644
--- a/src/strategy/homographic.rs
+++ b/src/strategy/homographic.rs
@@ -1095,15 +1095,15 @@ impl Homographic {
         Option<Ratio>,
         Option<Homographic>,
     ) {
-        if self.are_singularities_outside_domain() {
-            if let Ok(primer) = self.primer_egest() {
-                return (None, primer, None, Some(self));
+        loop {
+            if self.are_singularities_outside_domain() {
+                if let Ok(primer) = self.primer_egest() {
+                    return (None, primer, None, Some(self));
+                }
+            }
+            if let Some((special, primer, ratio)) = self.prime_ingest() {
+                return (special, primer, ratio, None);
             }
-        }
-        match self.prime_ingest() {
-            Some((special, primer, ratio)) => (special, primer, ratio, None),
-            // FIXME: recursion
-            None => self.prime(),
         }
     }
 
-- 
2.43.0

