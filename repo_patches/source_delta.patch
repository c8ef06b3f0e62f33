From 39175b8d81e72a659df19e9afc7eac2d6b59ee81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:59 +0000
Subject: [PATCH 1/7] fix: reject a denominator that is zero for every operand

A homographic function whose two denominator coefficients are both zero
was accepted when the operand was not -1, 0 or 1. The result was a Number
that never stopped emitting symbols. Report "division by zero" instead.
Combining two Numbers takes the same path once one operand ends.
---
 src/strategy/homographic.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/strategy/homographic.rs b/src/strategy/homographic.rs
index f5f8da3..9c4949a 100644
--- a/src/strategy/homographic.rs
+++ b/src/strategy/homographic.rs
@@ -862,6 +862,10 @@ pub fn new(
         (special, primer, ratio, None)
     }
 
+    if dx == 0 && d == 0 {
+        panic!("division by zero");
+    }
+
     if nx == 0 && dx == 0 {
         return as_ratio(n, d);
     }
-- 
2.43.0


From 93ede450586d100f22a183ddf7ce7929b0284951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:59 +0000
Subject: [PATCH 2/7] fix: accept the smallest machine integer in a ratio

The absolute value of isize::min_value() was computed in isize, which
overflows and panics when overflow checks are on. Compute it in usize.
---
 src/lib.rs            | 4 ++--
 src/strategy/ratio.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c1adac3..4bab521 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -87,8 +87,8 @@ impl Number {
     pub fn ratio(num: isize, den: isize) -> Number {
         Number::ratio_u(
             (num >= 0 && den >= 0) || (num < 0 && den < 0),
-            if num >= 0 { num } else { -num } as usize,
-            if den >= 0 { den } else { -den } as usize,
+            num.unsigned_abs(),
+            den.unsigned_abs(),
         )
     }
 
diff --git a/src/strategy/ratio.rs b/src/strategy/ratio.rs
index d322086..8935831 100644
--- a/src/strategy/ratio.rs
+++ b/src/strategy/ratio.rs
@@ -240,8 +240,8 @@ pub fn new_i(
 ) {
     new(
         (num >= 0 && den >= 0) || (num < 0 && den < 0),
-        if num >= 0 { num } else { -num } as usize,
-        if den >= 0 { den } else { -den } as usize,
+        num.unsigned_abs(),
+        den.unsigned_abs(),
     )
 }
 
-- 
2.43.0


From 842a44943ed258b86208047ad54665b754bd55a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:59 +0000
Subject: [PATCH 3/7] fix: do not let a coefficient wrap around when it is
 negated

The other coefficient updates are checked, but the negations were not.
With overflow checks off, negating isize::min_value() left it unchanged
and a wrong Number was returned without notice. Panic instead, as for any
other overflow.
---
 src/strategy/combine.rs     | 24 ++++++++++++------------
 src/strategy/homographic.rs | 16 ++++++++--------
 src/strategy/support.rs     | 12 ++++++------
 3 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/strategy/combine.rs b/src/strategy/combine.rs
index 01420b3..7bf7690 100644
--- a/src/strategy/combine.rs
+++ b/src/strategy/combine.rs
@@ -727,19 +727,19 @@ pub fn new(
 
     macro_rules! reflect_x {
         () => {
-            a *= -1;
-            b *= -1;
-            e *= -1;
-            f *= -1;
+            a = a.checked_neg().unwrap();
+            b = b.checked_neg().unwrap();
+            e = e.checked_neg().unwrap();
+            f = f.checked_neg().unwrap();
         };
     }
 
     macro_rules! reflect_y {
         () => {
-            a *= -1;
-            c *= -1;
-            e *= -1;
-            g *= -1;
+            a = a.checked_neg().unwrap();
+            c = c.checked_neg().unwrap();
+            e = e.checked_neg().unwrap();
+            g = g.checked_neg().unwrap();
         };
     }
 
@@ -1106,10 +1106,10 @@ impl Combine {
     }
 
     fn reflect(&mut self) -> protocol::Primer {
-        self.a = -self.a;
-        self.b = -self.b;
-        self.c = -self.c;
-        self.d = -self.d;
+        self.a = self.a.checked_neg().unwrap();
+        self.b = self.b.checked_neg().unwrap();
+        self.c = self.c.checked_neg().unwrap();
+        self.d = self.d.checked_neg().unwrap();
         protocol::Primer::Reflect
     }
 
diff --git a/src/strategy/homographic.rs b/src/strategy/homographic.rs
index 9c4949a..8e92029 100644
--- a/src/strategy/homographic.rs
+++ b/src/strategy/homographic.rs
@@ -889,12 +889,12 @@ pub fn new(
             swap(&mut dx, &mut d);
         }
         Some(protocol::Primer::Reflect) => {
-            nx = -nx;
-            dx = -dx;
+            nx = nx.checked_neg().unwrap();
+            dx = dx.checked_neg().unwrap();
         }
         Some(protocol::Primer::Ground) => {
-            nx = -nx;
-            dx = -dx;
+            nx = nx.checked_neg().unwrap();
+            dx = dx.checked_neg().unwrap();
             swap(&mut nx, &mut n);
             swap(&mut dx, &mut d);
         }
@@ -968,16 +968,16 @@ impl Homographic {
     }
 
     fn ground(&mut self) -> protocol::Primer {
-        self.dx = -self.dx;
-        self.d = -self.d;
+        self.dx = self.dx.checked_neg().unwrap();
+        self.d = self.d.checked_neg().unwrap();
         swap(&mut self.nx, &mut self.dx);
         swap(&mut self.n, &mut self.d);
         protocol::Primer::Ground
     }
 
     fn reflect(&mut self) -> protocol::Primer {
-        self.nx = -self.nx;
-        self.n = -self.n;
+        self.nx = self.nx.checked_neg().unwrap();
+        self.n = self.n.checked_neg().unwrap();
         protocol::Primer::Reflect
     }
 
diff --git a/src/strategy/support.rs b/src/strategy/support.rs
index bbbcb00..5f75e6b 100644
--- a/src/strategy/support.rs
+++ b/src/strategy/support.rs
@@ -155,16 +155,16 @@ pub fn updated_range(
     }
 
     if dmin < 0 {
-        nmin *= -1;
-        dmin *= -1;
+        nmin = nmin.checked_neg().unwrap();
+        dmin = dmin.checked_neg().unwrap();
     }
     if dmax < 0 {
-        nmax *= -1;
-        dmax *= -1;
+        nmax = nmax.checked_neg().unwrap();
+        dmax = dmax.checked_neg().unwrap();
     }
     if dnew < 0 {
-        nnew *= -1;
-        dnew *= -1;
+        nnew = nnew.checked_neg().unwrap();
+        dnew = dnew.checked_neg().unwrap();
     }
 
     if nmin == 0 {
-- 
2.43.0


From c0a232b95c4b033294cd590a7d33d443878e5db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:59 +0000
Subject: [PATCH 4/7] fix: compare fractions without overflowing

Two fractions were compared by products that have to fit in isize, so
coefficients beyond about 2^31 panicked although they were valid
themselves. Operands and coefficients of three digits were enough to get
there. Use double width products.
---
 src/strategy/support.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/strategy/support.rs b/src/strategy/support.rs
index 5f75e6b..ed1e2ef 100644
--- a/src/strategy/support.rs
+++ b/src/strategy/support.rs
@@ -197,12 +197,12 @@ pub fn greater_than(n0: isize, d0: isize, n1: isize, d1: isize) -> bool {
     ad > bc
 }
 
-pub fn compare_reduce(n0: isize, d0: isize, n1: isize, d1: isize) -> (isize, isize) {
+pub fn compare_reduce(n0: isize, d0: isize, n1: isize, d1: isize) -> (i128, i128) {
     (
         // (n0 * d0.signum()).checked_mul(d1.abs()).unwrap(),
         // (n1 * d1.signum()).checked_mul(d0.abs()).unwrap(),
-        n0.checked_mul(d1).unwrap(),
-        n1.checked_mul(d0).unwrap(),
+        n0 as i128 * d1 as i128,
+        n1 as i128 * d0 as i128,
     )
 }
 
-- 
2.43.0


From 44f509e8d33025432130bb92a53ce65ecf1ab032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:59 +0000
Subject: [PATCH 5/7] fix: do not print debugging output from homographic
 functions

Every step of a homographic function printed its coefficients to the
standard output of the program using the library.
---
 src/strategy/homographic.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/strategy/homographic.rs b/src/strategy/homographic.rs
index 8e92029..27717ae 100644
--- a/src/strategy/homographic.rs
+++ b/src/strategy/homographic.rs
@@ -1088,8 +1088,6 @@ impl Homographic {
         Option<Ratio>,
         Option<Homographic>,
     ) {
-        // FIXME: debug
-        println!("{} {} {} {}", self.nx, self.n, self.dx, self.d);
         if self.are_singularities_outside_domain() {
             if let Ok(primer) = self.primer_egest() {
                 return (None, primer, None, Some(self));
@@ -1141,8 +1139,6 @@ impl Homographic {
 
 impl Strategy for Homographic {
     fn egest(&mut self) -> Result<Option<protocol::Reduction>, Box<dyn Strategy>> {
-        // FIXME: debug
-        println!("{} {} {} {}", self.nx, self.n, self.dx, self.d);
         if self.are_singularities_outside_domain() {
             if let Ok(reduction) = self.reduction_egest() {
                 return Ok(reduction);
-- 
2.43.0


From ed6bcb92d899f55e03696bd8528488f4a76c047c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:16:43 +0000
Subject: [PATCH 6/7] fix: do not read the fractions when the primers already
 order two Numbers

---
 src/compare.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/compare.rs b/src/compare.rs
index 192438d..9fb2861 100644
--- a/src/compare.rs
+++ b/src/compare.rs
@@ -297,11 +297,13 @@ fn compare_others(
     p2: Option<protocol::Primer>,
     c2: Clog,
 ) -> Ordering {
-    compare_primers(&p1, &p2).then(compare_clogs(
-        c1,
-        c2,
-        p1 != Some(protocol::Primer::Reflect) && p1 != Some(protocol::Primer::Turn),
-    ))
+    compare_primers(&p1, &p2).then_with(|| {
+        compare_clogs(
+            c1,
+            c2,
+            p1 != Some(protocol::Primer::Reflect) && p1 != Some(protocol::Primer::Turn),
+        )
+    })
 }
 
 fn compare_primers(p1: &Option<protocol::Primer>, p2: &Option<protocol::Primer>) -> Ordering {
-- 
2.43.0


From 9ddf54657d83aa1b79df136d0a1e4843f3971b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:15:09 +0000
Subject: [PATCH 7/7] fix: give an infinite extreme the sign it is approached
 with

---
 src/strategy/homographic.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/strategy/homographic.rs b/src/strategy/homographic.rs
index 27717ae..e3ade54 100644
--- a/src/strategy/homographic.rs
+++ b/src/strategy/homographic.rs
@@ -996,6 +996,9 @@ impl Homographic {
         if n1 == 0 && d1 == 0 {
             return (0, 0, 0, 0);
         }
+        // The sign of an infinite extreme is the one that is approached from inside the domain.
+        let n0 = if d0 == 0 && self.dx < 0 { -n0.signum() } else { n0 };
+        let n1 = if d1 == 0 && self.d < 0 { -n1.signum() } else { n1 };
         support::updated_range(n0, d0, n0, d0, n1, d1)
     }
 
-- 
2.43.0

