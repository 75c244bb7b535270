From 1eb53c9ba6192c1f0542642f86c6fc76263f3ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:39 +0000
Subject: [PATCH 01/45] fix: log next to a negative power of ten (exponent and
 mantissa disagreed)

---
 include/gcem_incl/find_exponent.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/gcem_incl/find_exponent.hpp b/include/gcem_incl/find_exponent.hpp
index 200e4e9..4238077 100644
--- a/include/gcem_incl/find_exponent.hpp
+++ b/include/gcem_incl/find_exponent.hpp
@@ -35,10 +35,7 @@ find_exponent(const T x, const llint_t exponent)
 noexcept
 {
     return( // < 1
-            x < T(1e-03)  ? \
-                find_exponent(x * T(1e+04), exponent - llint_t(4)) :
-            x < T(1e-01)  ? \
-                find_exponent(x * T(1e+02), exponent - llint_t(2)) :
+            // (same steps as mantissa(), so that both round in the same way)
             x < T(1)  ? \
                 find_exponent(x * T(10), exponent - llint_t(1)) :
             // > 10
-- 
2.43.0


From bffb72a61f9cd35178d4c21e96c4f0dbb29f654c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:11 +0000
Subject: [PATCH 02/45] fix: sqrt of very small arguments (Newton iteration did
 not converge)

---
 include/gcem_incl/sqrt.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/gcem_incl/sqrt.hpp b/include/gcem_incl/sqrt.hpp
index 1b2753c..caeda49 100644
--- a/include/gcem_incl/sqrt.hpp
+++ b/include/gcem_incl/sqrt.hpp
@@ -61,6 +61,9 @@ noexcept
                 sqrt_simplify(x / T(100), T(10) * m_val) :
             x > T(4) ? \
                 sqrt_simplify(x / T(4), T(2) * m_val) :
+            // scale up by 2^64 (exact)
+            x < T(1e-16) ? \
+                sqrt_simplify(x * T(18446744073709551616.0), m_val / T(4294967296.0)) :
                 m_val * sqrt_recur(x, x / T(2), 0) );
 }
 
-- 
2.43.0


From e421f9081d4b2a28759f5325b248bcf6deea4d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:22 +0000
Subject: [PATCH 03/45] fix: inv_sqrt of large and very small arguments (Newton
 iteration did not converge)

---
 include/gcem_incl/inv_sqrt.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/inv_sqrt.hpp b/include/gcem_incl/inv_sqrt.hpp
index d0e33fb..251ea48 100644
--- a/include/gcem_incl/inv_sqrt.hpp
+++ b/include/gcem_incl/inv_sqrt.hpp
@@ -43,6 +43,19 @@ noexcept
                 xn );
 }
 
+template<typename T>
+constexpr
+T
+inv_sqrt_simplify(const T x, const T m_val)
+noexcept
+{   // scale by 2^32 (exact), so that the Newton iteration converges
+    return( x > T(4294967296.0) ? \
+                inv_sqrt_simplify(x / T(4294967296.0), m_val / T(65536)) :
+            x < T(1) / T(4294967296.0) ? \
+                inv_sqrt_simplify(x * T(4294967296.0), m_val * T(65536)) :
+                m_val * inv_sqrt_recur(x, x/T(2), 0) );
+}
+
 template<typename T>
 constexpr
 T
@@ -63,7 +76,7 @@ noexcept
             GCLIM<T>::min() > abs(T(1) - x) ? \
                 x :
             // else
-            inv_sqrt_recur(x, x/T(2), 0) );
+            inv_sqrt_simplify(x, T(1)) );
 }
 
 }
-- 
2.43.0


From cd5155ea8449383f27b9a3e46409f37775eb70bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:33 +0000
Subject: [PATCH 04/45] fix: hypot overflowed when the second argument was much
 larger than the first

---
 include/gcem_incl/hypot.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/gcem_incl/hypot.hpp b/include/gcem_incl/hypot.hpp
index 01ad4e9..32bd5d3 100644
--- a/include/gcem_incl/hypot.hpp
+++ b/include/gcem_incl/hypot.hpp
@@ -55,8 +55,10 @@ noexcept
                 abs(y) :
             GCLIM<T>::min() > abs(y) ? \
                 abs(x) :
-            // else
-            hypot_compute(x, y/x) );
+            // else; the ratio must not exceed one, or its square may overflow
+            abs(x) < abs(y) ? \
+                hypot_compute(y, x/y) :
+                hypot_compute(x, y/x) );
 }
 
 template<typename T1, typename T2, typename TC = common_return_t<T1,T2>>
-- 
2.43.0


From ee1d3afee9bdb755d96e628f5be985c320515c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:42 +0000
Subject: [PATCH 05/45] fix: log of a negative integer returned zero instead of
 NaN

---
 include/gcem_incl/log.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/gcem_incl/log.hpp b/include/gcem_incl/log.hpp
index 01b6a80..0c43c9d 100644
--- a/include/gcem_incl/log.hpp
+++ b/include/gcem_incl/log.hpp
@@ -160,7 +160,9 @@ noexcept
                     - GCLIM<return_t<T>>::infinity() :
                 x > T(1) ? \
                     log_check( static_cast<return_t<T>>(x) ) :
+                x == T(1) ? \
                     static_cast<return_t<T>>(0) :
+                    GCLIM<return_t<T>>::quiet_NaN() :
             log_check( static_cast<return_t<T>>(x) ) );
 }
 
-- 
2.43.0


From e0f2cc91743801e14d3cc743b5ee4482b15418b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:52 +0000
Subject: [PATCH 06/45] fix: exp overflowed to infinity just below the overflow
 threshold

---
 include/gcem_incl/exp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/exp.hpp b/include/gcem_incl/exp.hpp
index 595ffc2..b0c7a07 100644
--- a/include/gcem_incl/exp.hpp
+++ b/include/gcem_incl/exp.hpp
@@ -82,7 +82,7 @@ T
 exp_split(const T x)
 noexcept
 {
-    return( static_cast<T>(pow_integral(GCEM_E,find_whole(x))) * exp_cf(find_fraction(x)) );
+    return( static_cast<T>( pow_integral(GCEM_E,find_whole(x)) * exp_cf(find_fraction(x)) ) );
 }
 
 template<typename T>
-- 
2.43.0


From af2a1f2f17eaec379482a609c866685ae8ab7c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:02 +0000
Subject: [PATCH 07/45] fix: exp of arguments that do not fit in an integer

---
 include/gcem_incl/exp.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/gcem_incl/exp.hpp b/include/gcem_incl/exp.hpp
index b0c7a07..27e960d 100644
--- a/include/gcem_incl/exp.hpp
+++ b/include/gcem_incl/exp.hpp
@@ -105,6 +105,12 @@ noexcept
             //
             abs(x) < T(2) ? \
                 exp_cf(x) : \
+            // overflow and underflow; x may not fit in an integer
+            x > T(GCLIM<T>::max_exponent) ? \
+                GCLIM<T>::infinity() :
+            x < T(GCLIM<T>::min_exponent - GCLIM<T>::digits) ? \
+                T(0) :
+            // else
                 exp_split(x) );
 }
 
-- 
2.43.0


From a3a490538bf666010979c68f140c8d81c82d475d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:35 +0000
Subject: [PATCH 08/45] fix: tanh exceeded one for large arguments and was NaN
 at infinity

---
 include/gcem_incl/tanh.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/gcem_incl/tanh.hpp b/include/gcem_incl/tanh.hpp
index 51fc908..0cef0a8 100644
--- a/include/gcem_incl/tanh.hpp
+++ b/include/gcem_incl/tanh.hpp
@@ -86,6 +86,9 @@ noexcept
             // indistinguishable from zero
              GCLIM<T>::min() > abs(x) ? \
                 T(0) :
+             // indistinguishable from +/- one; the continued fraction diverges for large x
+             abs(x) > T(23) ? \
+                T(sgn(x)) :
              // else
                 x < T(0) ? \
                     - tanh_begin(-x) : 
-- 
2.43.0


From 499e4e005fbab9e6b99e5950bd14f4ca4a2dc91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:46 +0000
Subject: [PATCH 09/45] fix: asinh lost all accuracy for negative arguments

---
 include/gcem_incl/asinh.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/gcem_incl/asinh.hpp b/include/gcem_incl/asinh.hpp
index a5f3ff6..81aa429 100644
--- a/include/gcem_incl/asinh.hpp
+++ b/include/gcem_incl/asinh.hpp
@@ -40,6 +40,9 @@ noexcept
             // indistinguishable from zero
             GCLIM<T>::min() > abs(x) ? \
                 T(0) :
+            // odd function; avoids cancellation
+            x < T(0) ? \
+                - asinh_compute(-x) :
             // else
                 log( x + sqrt(x*x + T(1)) ) );
 }
-- 
2.43.0


From 9e9b759e44160e963c1226b0e8b237ef26c62f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:57 +0000
Subject: [PATCH 10/45] fix: asinh and acosh overflowed to infinity for very
 large arguments

---
 include/gcem_incl/acosh.hpp | 3 +++
 include/gcem_incl/asinh.hpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/gcem_incl/acosh.hpp b/include/gcem_incl/acosh.hpp
index 8767200..12b8ae4 100644
--- a/include/gcem_incl/acosh.hpp
+++ b/include/gcem_incl/acosh.hpp
@@ -43,6 +43,9 @@ noexcept
             // indistinguishable from 1
             GCLIM<T>::min() > abs(x - T(1)) ? \
                 T(0) :
+            // x*x would overflow for very large x
+            x > T(1) / GCLIM<T>::epsilon() ? \
+                log(x) + T(GCEM_LOG_2) :
             // else
                 log( x + sqrt(x*x - T(1)) ) );
 }
diff --git a/include/gcem_incl/asinh.hpp b/include/gcem_incl/asinh.hpp
index 81aa429..f724a6f 100644
--- a/include/gcem_incl/asinh.hpp
+++ b/include/gcem_incl/asinh.hpp
@@ -43,6 +43,9 @@ noexcept
             // odd function; avoids cancellation
             x < T(0) ? \
                 - asinh_compute(-x) :
+            // x*x would overflow for very large x
+            x > T(1) / GCLIM<T>::epsilon() ? \
+                log(x) + T(GCEM_LOG_2) :
             // else
                 log( x + sqrt(x*x + T(1)) ) );
 }
-- 
2.43.0


From fef3104e6f9b91714c2cff21339165aaf3621a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:08 +0000
Subject: [PATCH 11/45] fix: floor, ceil, trunc and round returned subnormal
 arguments unchanged

---
 include/gcem_incl/ceil.hpp  | 2 +-
 include/gcem_incl/floor.hpp | 2 +-
 include/gcem_incl/round.hpp | 2 +-
 include/gcem_incl/trunc.hpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/gcem_incl/ceil.hpp b/include/gcem_incl/ceil.hpp
index ff1097b..6abe2b1 100644
--- a/include/gcem_incl/ceil.hpp
+++ b/include/gcem_incl/ceil.hpp
@@ -103,7 +103,7 @@ noexcept
             !is_finite(x) ? \
                 x :
             // signed-zero cases
-            GCLIM<T>::min() > abs(x) ? \
+            x == T(0) ? \
                 x :
             // else
                 ceil_check_internal(x) );
diff --git a/include/gcem_incl/floor.hpp b/include/gcem_incl/floor.hpp
index 8b260ff..91bff75 100644
--- a/include/gcem_incl/floor.hpp
+++ b/include/gcem_incl/floor.hpp
@@ -103,7 +103,7 @@ noexcept
             !is_finite(x) ? \
                 x :
             // signed-zero cases
-            GCLIM<T>::min() > abs(x) ? \
+            x == T(0) ? \
                 x :
             // else
                 floor_check_internal(x) );
diff --git a/include/gcem_incl/round.hpp b/include/gcem_incl/round.hpp
index 9ac4a09..e9e2d13 100644
--- a/include/gcem_incl/round.hpp
+++ b/include/gcem_incl/round.hpp
@@ -98,7 +98,7 @@ noexcept
             !is_finite(x) ? \
                 x :
             // signed-zero cases
-            GCLIM<T>::min() > abs(x) ? \
+            x == T(0) ? \
                 x :
             // else
                 sgn(x) * round_check_internal(abs(x)) );
diff --git a/include/gcem_incl/trunc.hpp b/include/gcem_incl/trunc.hpp
index af3f448..41564ab 100644
--- a/include/gcem_incl/trunc.hpp
+++ b/include/gcem_incl/trunc.hpp
@@ -94,7 +94,7 @@ noexcept
             !is_finite(x) ? \
                 x :
             // signed-zero cases
-            GCLIM<T>::min() > abs(x) ? \
+            x == T(0) ? \
                 x :
             // else
                 trunc_check_internal(x) );
-- 
2.43.0


From f2af2ceff546e31e4cd06a9761a267937ba3a5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:39 +0000
Subject: [PATCH 12/45] fix: lcm(0,0) divided by zero

---
 include/gcem_incl/lcm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/lcm.hpp b/include/gcem_incl/lcm.hpp
index a7ca776..664d090 100644
--- a/include/gcem_incl/lcm.hpp
+++ b/include/gcem_incl/lcm.hpp
@@ -30,7 +30,7 @@ T
 lcm_compute(const T a, const T b)
 noexcept
 {
-    return abs(a * (b / gcd(a,b)));
+    return( a == T(0) || b == T(0) ? T(0) : abs(a * (b / gcd(a,b))) );
 }
 
 template<typename T1, typename T2, typename TC = common_t<T1,T2>>
-- 
2.43.0


From 9679dcc31ec7feed4fa71771720b32a53070f89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:49 +0000
Subject: [PATCH 13/45] fix: lcm of a negative signed and an unsigned argument

---
 include/gcem_incl/lcm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/lcm.hpp b/include/gcem_incl/lcm.hpp
index 664d090..2645706 100644
--- a/include/gcem_incl/lcm.hpp
+++ b/include/gcem_incl/lcm.hpp
@@ -39,7 +39,7 @@ TC
 lcm_type_check(const T1 a, const T2 b)
 noexcept
 {
-    return lcm_compute(static_cast<TC>(a),static_cast<TC>(b));
+    return lcm_compute(static_cast<TC>(abs(a)),static_cast<TC>(abs(b)));
 }
 
 }
-- 
2.43.0


From 666e6cbbe77f36d3e0b7d20da63a60788b3612a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:00 +0000
Subject: [PATCH 14/45] fix: integral powers ignored the base when the exponent
 was the largest or smallest of its type

---
 include/gcem_incl/pow_integral.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/gcem_incl/pow_integral.hpp b/include/gcem_incl/pow_integral.hpp
index 4e67155..511b0bc 100644
--- a/include/gcem_incl/pow_integral.hpp
+++ b/include/gcem_incl/pow_integral.hpp
@@ -83,11 +83,11 @@ noexcept
                 base :
             exp_term == T2(0) ? \
                 T1(1) :
-            // check for overflow
+            // the negative of the smallest exponent is not representable
             exp_term == GCLIM<T2>::min() ? \
-                T1(0) :
-            exp_term == GCLIM<T2>::max() ? \
-                GCLIM<T1>::infinity() :
+                (std::is_integral<T1>::value && abs(base) > T1(1)) ? \
+                    T1(0) :
+                    pow_integral_compute(base*base, exp_term/2) :
             // else
             pow_integral_sgn_check(base,exp_term) );
 }
-- 
2.43.0


From a1d2fb035486af3f82f92edce9a03109d4c29a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:10 +0000
Subject: [PATCH 15/45] fix: pow of an integral base overflowed the type of the
 base instead of using the return type

---
 include/gcem_incl/pow.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/pow.hpp b/include/gcem_incl/pow.hpp
index 3891ede..701314c 100644
--- a/include/gcem_incl/pow.hpp
+++ b/include/gcem_incl/pow.hpp
@@ -57,7 +57,7 @@ TC
 pow_check(const T1 base, const T2 exp_term)
 noexcept
 {
-    return pow_integral(base,exp_term);
+    return pow_integral(static_cast<TC>(base),exp_term);
 }
 
 }
-- 
2.43.0


From c9c7161a059f8b9fd9bf071087b42dd4504acab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:21 +0000
Subject: [PATCH 16/45] fix: pow(x,0.0) was NaN for x zero or infinite

---
 include/gcem_incl/pow.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/pow.hpp b/include/gcem_incl/pow.hpp
index 701314c..f4fd00d 100644
--- a/include/gcem_incl/pow.hpp
+++ b/include/gcem_incl/pow.hpp
@@ -44,7 +44,10 @@ TC
 pow_check(const T1 base, const T2 exp_term)
 noexcept
 {
-    return( base < T1(0) ? \
+    return( exp_term == T2(0) ? \
+                TC(1) :
+            //
+            base < T1(0) ? \
                 GCLIM<TC>::quiet_NaN() :
             //
             pow_dbl(static_cast<TC>(base),static_cast<TC>(exp_term)) );
-- 
2.43.0


From 44b8c42b89e32d4bd6c8bef9a56da119a929ff00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:31 +0000
Subject: [PATCH 17/45] fix: lgamma lost all accuracy for small positive
 arguments

---
 include/gcem_incl/lgamma.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/gcem_incl/lgamma.hpp b/include/gcem_incl/lgamma.hpp
index 507c6d4..bdd8c7d 100644
--- a/include/gcem_incl/lgamma.hpp
+++ b/include/gcem_incl/lgamma.hpp
@@ -105,6 +105,9 @@ noexcept
                 T(0) :
             GCLIM<T>::min() > x ? \
                 GCLIM<T>::infinity() :
+            // x - 1 would lose the digits of a small x; use gamma(x+1) = x * gamma(x)
+            x < T(0.5) ? \
+                lgamma_begin(x) - log(x) :
             // else
                 lgamma_begin(x - T(1)) );
 }
-- 
2.43.0


From 280c199d682c2ae16a646e74a2aa4a2c56ea60c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:02 +0000
Subject: [PATCH 18/45] fix: tgamma of large negative arguments recursed
 without bound

---
 include/gcem_incl/tgamma.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/tgamma.hpp b/include/gcem_incl/tgamma.hpp
index deffd3a..cbd9d86 100644
--- a/include/gcem_incl/tgamma.hpp
+++ b/include/gcem_incl/tgamma.hpp
@@ -42,11 +42,16 @@ noexcept
                 T(1) :
             GCLIM<T>::min() > abs(x) ? \
                 GCLIM<T>::infinity() :
+            is_neginf(x) ? \
+                GCLIM<T>::quiet_NaN() :
             // negative numbers
             x < T(0) ? \
                 // check for integer
-                GCLIM<T>::min() > abs(x - find_whole(x)) ? \
+                GCLIM<T>::min() > abs(x - floor_check(x)) ? \
                     GCLIM<T>::quiet_NaN() :
+                // underflow; do not recurse over an unbounded range
+                x < - T(GCLIM<T>::max_exponent) ? \
+                    T(0) :
                 // else
                 tgamma_check(x+T(1)) / x :
 
-- 
2.43.0


From 3a85c0c5f3dd383fe2df9f46b46fbff647024995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:12 +0000
Subject: [PATCH 19/45] fix: atan2 of two infinities was NaN

---
 include/gcem_incl/atan2.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/gcem_incl/atan2.hpp b/include/gcem_incl/atan2.hpp
index 5ca55b7..33714dc 100644
--- a/include/gcem_incl/atan2.hpp
+++ b/include/gcem_incl/atan2.hpp
@@ -37,6 +37,9 @@ noexcept
     return( // NaN check
             any_nan(y,x) ? \
                 GCLIM<T>::quiet_NaN() :
+            // y/x would be NaN
+            is_inf(y) && is_inf(x) ? \
+                atan2_compute(T(sgn(y)),T(sgn(x))) :
             //
             GCLIM<T>::min() > abs(x) ? \
             //
-- 
2.43.0


From b027f6e2757f3d49fb931710d9133f35d38ebb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:22 +0000
Subject: [PATCH 20/45] fix: fmod of a finite argument by an infinite one was
 NaN instead of the argument

---
 include/gcem_incl/fmod.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/fmod.hpp b/include/gcem_incl/fmod.hpp
index 02459ef..3218aa7 100644
--- a/include/gcem_incl/fmod.hpp
+++ b/include/gcem_incl/fmod.hpp
@@ -34,8 +34,10 @@ noexcept
             any_nan(x, y) ? \
                 GCLIM<T>::quiet_NaN() :
             // +/- infinite
-            !all_finite(x, y) ? \
+            !is_finite(x) ? \
                 GCLIM<T>::quiet_NaN() :
+            !is_finite(y) ? \
+                x :
             // else
                 x - trunc(x/y)*y );
 }
-- 
2.43.0


From 3280cd8de45d56ec2d87bb87661330bb5eefbf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:47 +0000
Subject: [PATCH 21/45] fix: incomplete_gamma(a,infinity) was NaN instead of
 one

---
 include/gcem_incl/incomplete_gamma.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/gcem_incl/incomplete_gamma.hpp b/include/gcem_incl/incomplete_gamma.hpp
index 9ee4146..82d5815 100644
--- a/include/gcem_incl/incomplete_gamma.hpp
+++ b/include/gcem_incl/incomplete_gamma.hpp
@@ -199,6 +199,8 @@ noexcept
             //
             GCLIM<T>::min() > a ? \
                 T(1) : 
+            is_posinf(z) ? \
+                T(1) :
             // cf or quadrature
             (a < T(10)) && (z - a < T(10)) ?
                 incomplete_gamma_cf_1(a,z) :
-- 
2.43.0


From c42ab0788f37cea0c25f90400555aabddc3917e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:15 +0000
Subject: [PATCH 22/45] fix: lgamma(infinity) and tgamma(infinity) were NaN

---
 include/gcem_incl/lgamma.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/gcem_incl/lgamma.hpp b/include/gcem_incl/lgamma.hpp
index bdd8c7d..fe72ee5 100644
--- a/include/gcem_incl/lgamma.hpp
+++ b/include/gcem_incl/lgamma.hpp
@@ -105,6 +105,8 @@ noexcept
                 T(0) :
             GCLIM<T>::min() > x ? \
                 GCLIM<T>::infinity() :
+            is_posinf(x) ? \
+                GCLIM<T>::infinity() :
             // x - 1 would lose the digits of a small x; use gamma(x+1) = x * gamma(x)
             x < T(0.5) ? \
                 lgamma_begin(x) - log(x) :
-- 
2.43.0


From 9e0f11d526937836b2bdf3b4684625b235bf3df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:02 +0000
Subject: [PATCH 23/45] fix: atan2 of a negative zero and a negative argument
 had the wrong sign

---
 include/gcem_incl/atan2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/atan2.hpp b/include/gcem_incl/atan2.hpp
index 33714dc..0ba8068 100644
--- a/include/gcem_incl/atan2.hpp
+++ b/include/gcem_incl/atan2.hpp
@@ -51,7 +51,7 @@ noexcept
                     T(GCEM_HALF_PI) : - T(GCEM_HALF_PI) :
             //
             x < T(0) ? \
-                y < T(0) ? \
+                y < T(0) || neg_zero(y) ? \
                     atan(y/x) - T(GCEM_PI) : 
                     atan(y/x) + T(GCEM_PI) :
             //
-- 
2.43.0


From 2a70d2e7b8bbf7d79a2cd940c11d210cb3fce9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:14 +0000
Subject: [PATCH 24/45] fix: incomplete_gamma cut off the upper tail (error up
 to 1e-4 for 10 <= a <= 100)

---
 include/gcem_incl/incomplete_gamma.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/incomplete_gamma.hpp b/include/gcem_incl/incomplete_gamma.hpp
index 82d5815..41e7c81 100644
--- a/include/gcem_incl/incomplete_gamma.hpp
+++ b/include/gcem_incl/incomplete_gamma.hpp
@@ -204,7 +204,7 @@ noexcept
             // cf or quadrature
             (a < T(10)) && (z - a < T(10)) ?
                 incomplete_gamma_cf_1(a,z) :
-            (a < T(10)) || (z/a > T(3)) ?
+            (a < T(10)) || (z/a > T(3)) || (z > a + 5*sqrt(a)) ?
                 incomplete_gamma_cf_2(a,z) :
             // else
                 incomplete_gamma_quad(a,z) );
-- 
2.43.0


From 763a68d228ce4c37677432d9f605869f8dcb758a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:25 +0000
Subject: [PATCH 25/45] fix: incomplete_gamma cut off the lower tail (error up
 to 1e-9 for 20 <= a <= 30)

---
 include/gcem_incl/incomplete_gamma.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/incomplete_gamma.hpp b/include/gcem_incl/incomplete_gamma.hpp
index 41e7c81..b10bf88 100644
--- a/include/gcem_incl/incomplete_gamma.hpp
+++ b/include/gcem_incl/incomplete_gamma.hpp
@@ -90,7 +90,7 @@ noexcept
             a > T(40)   ? max(T(0),min(z,a) -  6*sqrt(a)) :
             a > T(30)   ? max(T(0),min(z,a) -  5*sqrt(a)) :
             // else
-                max(T(0),min(z,a)-4*sqrt(a)) );
+                max(T(0),min(z,a)-5*sqrt(a)) );
 }
 
 template<typename T>
-- 
2.43.0


From feab390b54e020d6ade126c01994340dbca328f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:34 +0000
Subject: [PATCH 26/45] fix: gcd, lcm, binomial_coef and pow did not compile
 for integral types narrower than int

---
 include/gcem_incl/binomial_coef.hpp | 2 +-
 include/gcem_incl/gcd.hpp           | 2 +-
 include/gcem_incl/pow_integral.hpp  | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/gcem_incl/binomial_coef.hpp b/include/gcem_incl/binomial_coef.hpp
index 0fc17f3..afcbb35 100644
--- a/include/gcem_incl/binomial_coef.hpp
+++ b/include/gcem_incl/binomial_coef.hpp
@@ -34,7 +34,7 @@ noexcept
                 (k == T(0) || n == k) ? T(1) : // deals with 0 choose 0 case
                 n == T(0) ? T(0) :
             // else
-                binomial_coef_recur(n-1,k-1) + binomial_coef_recur(n-1,k) );
+                binomial_coef_recur<T>(n-1,k-1) + binomial_coef_recur<T>(n-1,k) );
 }
 
 template<typename T, typename std::enable_if<std::is_integral<T>::value>::type* = nullptr>
diff --git a/include/gcem_incl/gcd.hpp b/include/gcem_incl/gcd.hpp
index 1e277fb..eccec1b 100644
--- a/include/gcem_incl/gcd.hpp
+++ b/include/gcem_incl/gcd.hpp
@@ -30,7 +30,7 @@ T
 gcd_recur(const T a, const T b)
 noexcept
 {
-    return( b == T(0) ? a : gcd_recur(b, a % b) );
+    return( b == T(0) ? a : gcd_recur<T>(b, a % b) );
 }
 
 template<typename T, typename std::enable_if<std::is_integral<T>::value>::type* = nullptr>
diff --git a/include/gcem_incl/pow_integral.hpp b/include/gcem_incl/pow_integral.hpp
index 511b0bc..55aefff 100644
--- a/include/gcem_incl/pow_integral.hpp
+++ b/include/gcem_incl/pow_integral.hpp
@@ -42,8 +42,8 @@ noexcept
 {
     return( exp_term > T2(1) ? \
                 (is_odd(exp_term) ? \
-                    pow_integral_compute_recur(base*base,val*base,exp_term/2) :
-                    pow_integral_compute_recur(base*base,val,exp_term/2)) :
+                    pow_integral_compute_recur<T1,T2>(base*base,val*base,exp_term/2) :
+                    pow_integral_compute_recur<T1,T2>(base*base,val,exp_term/2)) :
                 (exp_term == T2(1) ? val*base : val) );
 }
 
-- 
2.43.0


From fb6938a271f0b601367e205f9c7f4a5f5f21951a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:43 +0000
Subject: [PATCH 27/45] fix: incomplete_beta_inv of integral arguments returned
 an integer

---
 include/gcem_incl/incomplete_beta_inv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gcem_incl/incomplete_beta_inv.hpp b/include/gcem_incl/incomplete_beta_inv.hpp
index 9f575a3..745669d 100644
--- a/include/gcem_incl/incomplete_beta_inv.hpp
+++ b/include/gcem_incl/incomplete_beta_inv.hpp
@@ -310,7 +310,7 @@ noexcept
                     alpha_par,beta_par,p,lbeta(alpha_par,beta_par)) );
 }
 
-template<typename T1, typename T2, typename T3, typename TC = common_t<T1,T2,T3>>
+template<typename T1, typename T2, typename T3, typename TC = common_return_t<T1,T2,T3>>
 constexpr
 TC
 incomplete_beta_inv_type_check(const T1 a, const T2 b, const T3 p)
@@ -342,7 +342,7 @@ noexcept
 
 template<typename T1, typename T2, typename T3>
 constexpr
-common_t<T1,T2,T3>
+common_return_t<T1,T2,T3>
 incomplete_beta_inv(const T1 a, const T2 b, const T3 p)
 noexcept
 {
-- 
2.43.0


From 3ee122ea54071425aa406e8645e1436937b56898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:01 +0000
Subject: [PATCH 28/45] fix: asin and acos lost up to half of their digits next
 to one

---
 include/gcem_incl/acos.hpp | 2 +-
 include/gcem_incl/asin.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gcem_incl/acos.hpp b/include/gcem_incl/acos.hpp
index a47003d..1237a31 100644
--- a/include/gcem_incl/acos.hpp
+++ b/include/gcem_incl/acos.hpp
@@ -43,7 +43,7 @@ noexcept
             GCLIM<T>::min() > abs(x) ? \
                 T(GCEM_HALF_PI) :
             // else
-                atan( sqrt(T(1) - x*x)/x ) );
+                atan( sqrt((T(1) - x)*(T(1) + x))/x ) );
 }
 
 template<typename T>
diff --git a/include/gcem_incl/asin.hpp b/include/gcem_incl/asin.hpp
index 6a79e87..34120e5 100644
--- a/include/gcem_incl/asin.hpp
+++ b/include/gcem_incl/asin.hpp
@@ -43,7 +43,7 @@ noexcept
             GCLIM<T>::min() > abs(x) ? \
                 T(0) :
             // else
-                atan( x/sqrt(T(1) - x*x) ) );
+                atan( x/sqrt((T(1) - x)*(T(1) + x)) ) );
 }
 
 template<typename T>
-- 
2.43.0


From 25717659b9f07073da53241305172c07797032aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:11 +0000
Subject: [PATCH 29/45] fix: acosh lost up to half of its digits next to one

---
 include/gcem_incl/acosh.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/acosh.hpp b/include/gcem_incl/acosh.hpp
index 12b8ae4..5dc0beb 100644
--- a/include/gcem_incl/acosh.hpp
+++ b/include/gcem_incl/acosh.hpp
@@ -47,7 +47,7 @@ noexcept
             x > T(1) / GCLIM<T>::epsilon() ? \
                 log(x) + T(GCEM_LOG_2) :
             // else
-                log( x + sqrt(x*x - T(1)) ) );
+                log( x + sqrt((x - T(1))*(x + T(1))) ) );
 }
 
 }
-- 
2.43.0


From b3eea9be128ed3aaa33880f639d957cafff6121f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:04 +0000
Subject: [PATCH 30/45] fix: incomplete_gamma lost most of its digits for a <
 10 and z close to a + 10

---
 include/gcem_incl/incomplete_gamma.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/incomplete_gamma.hpp b/include/gcem_incl/incomplete_gamma.hpp
index b10bf88..07387c1 100644
--- a/include/gcem_incl/incomplete_gamma.hpp
+++ b/include/gcem_incl/incomplete_gamma.hpp
@@ -202,7 +202,7 @@ noexcept
             is_posinf(z) ? \
                 T(1) :
             // cf or quadrature
-            (a < T(10)) && (z - a < T(10)) ?
+            (a < T(10)) && (z - a < T(2)) ?
                 incomplete_gamma_cf_1(a,z) :
             (a < T(10)) || (z/a > T(3)) || (z > a + 5*sqrt(a)) ?
                 incomplete_gamma_cf_2(a,z) :
-- 
2.43.0


From 3433f6d8e7c1c15feda413a93baf6714aee78aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:40 +0000
Subject: [PATCH 31/45] fix: incomplete_gamma_inv paired the derivative at the
 old point with the residual at the new one

---
 include/gcem_incl/incomplete_gamma_inv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/incomplete_gamma_inv.hpp b/include/gcem_incl/incomplete_gamma_inv.hpp
index e5976d0..1fa09f6 100644
--- a/include/gcem_incl/incomplete_gamma_inv.hpp
+++ b/include/gcem_incl/incomplete_gamma_inv.hpp
@@ -192,7 +192,7 @@ noexcept
     return( iter_count <= GCEM_INCML_GAMMA_INV_MAX_ITER ? \
             // if
                 incomplete_gamma_inv_recur(value-direc,a,p,
-                    incomplete_gamma_inv_deriv_1(value,a,lg_val),
+                    incomplete_gamma_inv_deriv_1(value-direc,a,lg_val),
                     lg_val,iter_count+1) :
             // else 
                 value - direc );
-- 
2.43.0


From d203c594db559c839e2d9a37d5e4beb3606e6c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:50 +0000
Subject: [PATCH 32/45] fix: incomplete_beta_inv paired the derivative at the
 old point with the residual at the new one

---
 include/gcem_incl/incomplete_beta_inv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/incomplete_beta_inv.hpp b/include/gcem_incl/incomplete_beta_inv.hpp
index 745669d..483b500 100644
--- a/include/gcem_incl/incomplete_beta_inv.hpp
+++ b/include/gcem_incl/incomplete_beta_inv.hpp
@@ -274,7 +274,7 @@ noexcept
     return( iter_count <= GCEM_INCML_BETA_INV_MAX_ITER ?
             // if
                 incomplete_beta_inv_recur(value-direc,alpha_par,beta_par,p,
-                    incomplete_beta_inv_deriv_1(value,alpha_par,beta_par,lb_val),
+                    incomplete_beta_inv_deriv_1(value-direc,alpha_par,beta_par,lb_val),
                     lb_val, iter_count+1) :
             // else
                 value - direc );
-- 
2.43.0


From 40bdd5c876ec10a4a19b1fe19d9dc067a21bbffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:01 +0000
Subject: [PATCH 33/45] fix: incomplete_gamma_inv could step below zero and
 return NaN

---
 include/gcem_incl/incomplete_gamma_inv.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/gcem_incl/incomplete_gamma_inv.hpp b/include/gcem_incl/incomplete_gamma_inv.hpp
index 1fa09f6..2476a14 100644
--- a/include/gcem_incl/incomplete_gamma_inv.hpp
+++ b/include/gcem_incl/incomplete_gamma_inv.hpp
@@ -177,8 +177,10 @@ incomplete_gamma_inv_recur(const T value, const T a, const T p, const T deriv_1,
 noexcept
 {
     return incomplete_gamma_inv_decision(value, a, p,
-                incomplete_gamma_inv_halley(incomplete_gamma_inv_ratio_val_1(value,a,p,deriv_1), 
-                incomplete_gamma_inv_ratio_val_2(value,a,deriv_1)),
+                // at most halve or double the value in one step
+                max( -value, min( value/T(2),
+                    incomplete_gamma_inv_halley(incomplete_gamma_inv_ratio_val_1(value,a,p,deriv_1), 
+                    incomplete_gamma_inv_ratio_val_2(value,a,deriv_1)) ) ),
                 lg_val, iter_count);
 }
 
-- 
2.43.0


From 3db6a93893506df233bce52b72253a18c159b361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:10 +0000
Subject: [PATCH 34/45] fix: incomplete_beta_inv could step outside of (0,1)
 and return NaN

---
 include/gcem_incl/incomplete_beta_inv.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/gcem_incl/incomplete_beta_inv.hpp b/include/gcem_incl/incomplete_beta_inv.hpp
index 483b500..42ed8a9 100644
--- a/include/gcem_incl/incomplete_beta_inv.hpp
+++ b/include/gcem_incl/incomplete_beta_inv.hpp
@@ -258,10 +258,12 @@ noexcept
                     GCEM_INCML_BETA_INV_MAX_ITER+1) :
             // else
             incomplete_beta_inv_decision( value, alpha_par, beta_par, p,
-               incomplete_beta_inv_halley(
-                   incomplete_beta_inv_ratio_val_1(value,alpha_par,beta_par,p,deriv_1),
-                   incomplete_beta_inv_ratio_val_2(value,alpha_par,beta_par,deriv_1)
-               ), lb_val, iter_count) );
+               // at most half of the way to zero or one in one step
+               max( (value - T(1))/T(2), min( value/T(2),
+                   incomplete_beta_inv_halley(
+                       incomplete_beta_inv_ratio_val_1(value,alpha_par,beta_par,p,deriv_1),
+                       incomplete_beta_inv_ratio_val_2(value,alpha_par,beta_par,deriv_1)
+                   ) ) ), lb_val, iter_count) );
 }
 
 template<typename T>
-- 
2.43.0


From 0698dee8a2dee8d4d54e7ee947bf865f1bc0d784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:35 +0000
Subject: [PATCH 35/45] fix: incomplete_gamma lost its digits for small shape
 parameters, down to an infinite result

---
 include/gcem_incl/incomplete_gamma.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/gcem_incl/incomplete_gamma.hpp b/include/gcem_incl/incomplete_gamma.hpp
index 07387c1..964d90e 100644
--- a/include/gcem_incl/incomplete_gamma.hpp
+++ b/include/gcem_incl/incomplete_gamma.hpp
@@ -154,7 +154,7 @@ T
 incomplete_gamma_cf_1_coef(const T a, const T z, const int depth)
 noexcept
 {
-    return( is_odd(depth) ? - (a - 1 + T(depth+1)/T(2)) * z : T(depth)/T(2) * z );
+    return( is_odd(depth) ? - (a + T(depth-1)/T(2)) * z : T(depth)/T(2) * z );
 }
 
 template<typename T>
@@ -165,9 +165,9 @@ noexcept
 {
     return( depth < GCEM_INCML_GAMMA_MAX_ITER ? \
             // if
-                (a + depth - 1) + incomplete_gamma_cf_1_coef(a,z,depth)/incomplete_gamma_cf_1_recur(a,z,depth+1) :
+                (a + T(depth - 1)) + incomplete_gamma_cf_1_coef(a,z,depth)/incomplete_gamma_cf_1_recur(a,z,depth+1) :
             // else
-                (a + depth - 1) );
+                (a + T(depth - 1)) );
 }
 
 template<typename T>
-- 
2.43.0


From e6e5787ebaa32c79d5a9af3845090b1b5cff4b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:23 +0000
Subject: [PATCH 36/45] fix: lbeta and beta of mixed argument types were only
 as accurate as the narrower type

---
 include/gcem_incl/lbeta.hpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/lbeta.hpp b/include/gcem_incl/lbeta.hpp
index 60c87b4..6b3ac40 100644
--- a/include/gcem_incl/lbeta.hpp
+++ b/include/gcem_incl/lbeta.hpp
@@ -21,6 +21,29 @@
 #ifndef _gcem_lbeta_HPP
 #define _gcem_lbeta_HPP
 
+namespace internal
+{
+
+template<typename T>
+constexpr
+T
+lbeta_compute(const T a, const T b)
+noexcept
+{
+    return( (lgamma(a) + lgamma(b)) - lgamma(a+b) );
+}
+
+template<typename T1, typename T2, typename TC = common_return_t<T1,T2>>
+constexpr
+TC
+lbeta_type_check(const T1 a, const T2 b)
+noexcept
+{
+    return lbeta_compute(static_cast<TC>(a),static_cast<TC>(b));
+}
+
+}
+
 /**
  * Compile-time log-beta function
  *
@@ -36,7 +59,7 @@ common_return_t<T1,T2>
 lbeta(const T1 a, const T2 b)
 noexcept
 {
-    return( (lgamma(a) + lgamma(b)) - lgamma(a+b) );
+    return internal::lbeta_type_check(a,b);
 }
 
 #endif
-- 
2.43.0


From e7180f0b562b4775c811986367414f67c6e32eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:47 +0000
Subject: [PATCH 37/45] fix: incomplete_gamma and its inverse were not usable
 in constant expressions for a >= 10

---
 include/gcem_incl/quadrature/gauss_legendre_30.hpp | 4 ++--
 include/gcem_incl/quadrature/gauss_legendre_50.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/gcem_incl/quadrature/gauss_legendre_30.hpp b/include/gcem_incl/quadrature/gauss_legendre_30.hpp
index 295f43d..61f314b 100644
--- a/include/gcem_incl/quadrature/gauss_legendre_30.hpp
+++ b/include/gcem_incl/quadrature/gauss_legendre_30.hpp
@@ -22,7 +22,7 @@
  * Gauss-Legendre quadrature: 30 points
  */
 
-static const long double gauss_legendre_30_points[30] = \
+static constexpr long double gauss_legendre_30_points[30] = \
 {
     -0.05147184255531769583302521316672L,
      0.05147184255531769583302521316672L,
@@ -56,7 +56,7 @@ static const long double gauss_legendre_30_points[30] = \
      0.99689348407464954027163005091870L\
 };
 
-static const long double gauss_legendre_30_weights[30] = \
+static constexpr long double gauss_legendre_30_weights[30] = \
 {
     0.10285265289355884034128563670542L,
     0.10285265289355884034128563670542L,
diff --git a/include/gcem_incl/quadrature/gauss_legendre_50.hpp b/include/gcem_incl/quadrature/gauss_legendre_50.hpp
index d4e448c..89a9edc 100644
--- a/include/gcem_incl/quadrature/gauss_legendre_50.hpp
+++ b/include/gcem_incl/quadrature/gauss_legendre_50.hpp
@@ -22,7 +22,7 @@
  * Gauss-Legendre quadrature: 50 points
  */
 
-static const long double gauss_legendre_50_points[50] = \
+static constexpr long double gauss_legendre_50_points[50] = \
 {
     -0.03109833832718887611232898966595L,
      0.03109833832718887611232898966595L,
@@ -76,7 +76,7 @@ static const long double gauss_legendre_50_points[50] = \
      0.99886640442007105018545944497422L\
 };
 
-static const long double gauss_legendre_50_weights[50] = \
+static constexpr long double gauss_legendre_50_weights[50] = \
 {
     0.06217661665534726232103310736061L,
     0.06217661665534726232103310736061L,
-- 
2.43.0


From 6d61b64fa7d04566d12faa839efaf7b771e802b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:48 +0000
Subject: [PATCH 38/45] fix: atan and acos overflowed, and so were no constant
 expressions, for large and for small arguments

---
 include/gcem_incl/atan.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/atan.hpp b/include/gcem_incl/atan.hpp
index d2b7936..5048106 100644
--- a/include/gcem_incl/atan.hpp
+++ b/include/gcem_incl/atan.hpp
@@ -110,7 +110,8 @@ noexcept
             x < T(25)   ? atan_series_order(x,x,1U,5U)  :  // O(1/x^19)
             x < T(100)  ? atan_series_order(x,x,1U,4U)  :  // O(1/x^15)
             x < T(1000) ? atan_series_order(x,x,1U,3U)  :  // O(1/x^11)
-                          atan_series_order(x,x,1U,2U) );  // O(1/x^7)
+            x < T(1e07) ? atan_series_order(x,x,1U,2U)  :  // O(1/x^7)
+                          atan_series_order(x,x,1U,1U) );  // O(1/x^3)
 }
 
 // CF
-- 
2.43.0


From 7dea76678e10519d3a8c94833989b91c97d8dc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:23 +0000
Subject: [PATCH 39/45] fix: erf overflowed, and so was no constant expression,
 for large arguments

---
 include/gcem_incl/erf.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/erf.hpp b/include/gcem_incl/erf.hpp
index ce920fb..bd40d31 100644
--- a/include/gcem_incl/erf.hpp
+++ b/include/gcem_incl/erf.hpp
@@ -137,7 +137,11 @@ T
 erf_begin(const T x)
 noexcept
 {
-    return( x > T(2.1) ? \
+    return( // indistinguishable from one; avoids overflow in x*x
+            x > T(12) ? \
+                T(1) :
+            //
+            x > T(2.1) ? \
             // if
                 erf_cf_large_main(x) :
             // else
-- 
2.43.0


From d4cb3a75faf8e5d48093420a83f0f2fe3995c97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:03 +0000
Subject: [PATCH 40/45] fix: signbit, copysign and atan2 were no constant
 expressions with clang

---
 include/gcem_incl/gcem_options.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/gcem_options.hpp b/include/gcem_incl/gcem_options.hpp
index 4113738..c8eb7c4 100644
--- a/include/gcem_incl/gcem_options.hpp
+++ b/include/gcem_incl/gcem_options.hpp
@@ -205,7 +205,11 @@ namespace gcem
     #endif
 #else
     #ifndef GCEM_SIGNBIT
-        #define GCEM_SIGNBIT(x) __builtin_signbit(x)
+        #ifdef __clang__ // __builtin_signbit is not a constant expression
+            #define GCEM_SIGNBIT(x) (__builtin_copysignl(1.0L,x) < 0)
+        #else
+            #define GCEM_SIGNBIT(x) __builtin_signbit(x)
+        #endif
     #endif
     #ifndef GCEM_COPYSIGN
         #define GCEM_COPYSIGN(x,y) __builtin_copysign(x,y)
-- 
2.43.0


From 3011a3977309db46a5649607ef0c3fc82334f131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:52 +0000
Subject: [PATCH 41/45] fix: incomplete_beta_inv was NaN where its second
 derivative overflows

---
 include/gcem_incl/incomplete_beta_inv.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/gcem_incl/incomplete_beta_inv.hpp b/include/gcem_incl/incomplete_beta_inv.hpp
index 42ed8a9..dfcae07 100644
--- a/include/gcem_incl/incomplete_beta_inv.hpp
+++ b/include/gcem_incl/incomplete_beta_inv.hpp
@@ -230,10 +230,11 @@ noexcept
 template<typename T>
 constexpr
 T
-incomplete_beta_inv_ratio_val_2(const T value, const T alpha_par, const T beta_par, const T deriv_1)
+incomplete_beta_inv_ratio_val_2(const T value, const T alpha_par, const T beta_par)
 noexcept
 {
-    return( incomplete_beta_inv_deriv_2(value,alpha_par,beta_par,deriv_1) / deriv_1 );
+    // (the second derivative itself may overflow)
+    return( incomplete_beta_inv_deriv_2(value,alpha_par,beta_par,T(1)) );
 }
 
 template<typename T>
@@ -262,7 +263,7 @@ noexcept
                max( (value - T(1))/T(2), min( value/T(2),
                    incomplete_beta_inv_halley(
                        incomplete_beta_inv_ratio_val_1(value,alpha_par,beta_par,p,deriv_1),
-                       incomplete_beta_inv_ratio_val_2(value,alpha_par,beta_par,deriv_1)
+                       incomplete_beta_inv_ratio_val_2(value,alpha_par,beta_par)
                    ) ) ), lb_val, iter_count) );
 }
 
-- 
2.43.0


From 09f14b424e22d12d4f067eb2f2f28a422f3756dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:35 +0000
Subject: [PATCH 42/45] fix: incomplete_gamma_inv was NaN where a derivative
 over- or underflows

---
 include/gcem_incl/incomplete_gamma_inv.hpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/gcem_incl/incomplete_gamma_inv.hpp b/include/gcem_incl/incomplete_gamma_inv.hpp
index 2476a14..a56e4ab 100644
--- a/include/gcem_incl/incomplete_gamma_inv.hpp
+++ b/include/gcem_incl/incomplete_gamma_inv.hpp
@@ -155,10 +155,11 @@ noexcept
 template<typename T>
 constexpr
 T
-incomplete_gamma_inv_ratio_val_2(const T value, const T a, const T deriv_1)
+incomplete_gamma_inv_ratio_val_2(const T value, const T a)
 noexcept
 {
-    return( incomplete_gamma_inv_deriv_2(value,a,deriv_1) / deriv_1 );
+    // (the second derivative itself may overflow)
+    return( incomplete_gamma_inv_deriv_2(value,a,T(1)) );
 }
 
 template<typename T>
@@ -176,12 +177,21 @@ T
 incomplete_gamma_inv_recur(const T value, const T a, const T p, const T deriv_1, const T lg_val, const int iter_count)
 noexcept
 {
-    return incomplete_gamma_inv_decision(value, a, p,
+    return( // indistinguishable from zero
+            GCLIM<T>::min() > value ? \
+                value :
+            // derivative = 0
+            GCLIM<T>::min() > deriv_1 ? \
+                incomplete_gamma_inv_decision(value, a, p,
+                    incomplete_gamma_inv_err_val(value,a,p) > T(0) ? value/T(2) : -value,
+                    lg_val, iter_count) :
+            // else
+            incomplete_gamma_inv_decision(value, a, p,
                 // at most halve or double the value in one step
                 max( -value, min( value/T(2),
                     incomplete_gamma_inv_halley(incomplete_gamma_inv_ratio_val_1(value,a,p,deriv_1), 
-                    incomplete_gamma_inv_ratio_val_2(value,a,deriv_1)) ) ),
-                lg_val, iter_count);
+                    incomplete_gamma_inv_ratio_val_2(value,a)) ) ),
+                lg_val, iter_count) );
 }
 
 template<typename T>
-- 
2.43.0


From f01aad0ecdfa6235daadc8d743f9f17bfb88fd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:46 +0000
Subject: [PATCH 43/45] fix: pow with a bool exponent returned the third power

---
 include/gcem_incl/pow_integral.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/pow_integral.hpp b/include/gcem_incl/pow_integral.hpp
index 55aefff..2249361 100644
--- a/include/gcem_incl/pow_integral.hpp
+++ b/include/gcem_incl/pow_integral.hpp
@@ -98,7 +98,8 @@ T1
 pow_integral_type_check(const T1 base, const T2 exp_term)
 noexcept
 {
-    return pow_integral_compute(base,exp_term);
+    // promote bool and other narrow types: bool(2) and bool(3) are both true
+    return pow_integral_compute(base,+exp_term);
 }
 
 template<typename T1, typename T2, typename std::enable_if<!std::is_integral<T2>::value>::type* = nullptr>
-- 
2.43.0


From 1136dfa70f59ce5d2e7eca3a1fcb0befdfd739bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:48 +0000
Subject: [PATCH 44/45] fix: the inverse incomplete functions returned zero for
 negative arguments, not NaN

---
 include/gcem_incl/incomplete_beta_inv.hpp  | 3 +++
 include/gcem_incl/incomplete_gamma_inv.hpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/gcem_incl/incomplete_beta_inv.hpp b/include/gcem_incl/incomplete_beta_inv.hpp
index dfcae07..a0d231f 100644
--- a/include/gcem_incl/incomplete_beta_inv.hpp
+++ b/include/gcem_incl/incomplete_beta_inv.hpp
@@ -303,6 +303,9 @@ noexcept
     return( // NaN check
             any_nan(alpha_par, beta_par, p) ? \
                 GCLIM<T>::quiet_NaN() :
+            // outside the domain
+            alpha_par < T(0) || beta_par < T(0) || p < T(0) ? \
+                GCLIM<T>::quiet_NaN() :
             // indistinguishable from zero or one
             GCLIM<T>::min() > p ? \
                 T(0) :
diff --git a/include/gcem_incl/incomplete_gamma_inv.hpp b/include/gcem_incl/incomplete_gamma_inv.hpp
index a56e4ab..d8619f5 100644
--- a/include/gcem_incl/incomplete_gamma_inv.hpp
+++ b/include/gcem_incl/incomplete_gamma_inv.hpp
@@ -229,6 +229,9 @@ noexcept
     return( // NaN check
             any_nan(a, p) ? \
                 GCLIM<T>::quiet_NaN() :
+            // outside the domain
+            a < T(0) || p < T(0) ? \
+                GCLIM<T>::quiet_NaN() :
             //
             GCLIM<T>::min() > p ? \
                 T(0) :
-- 
2.43.0


From 9d4709866b5c2d4c5cce0321c6051584e4ef511b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:42 +0000
Subject: [PATCH 45/45] fix: a negative power of an integer overflowed and
 divided by zero

---
 include/gcem_incl/pow_integral.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/gcem_incl/pow_integral.hpp b/include/gcem_incl/pow_integral.hpp
index 2249361..8e04126 100644
--- a/include/gcem_incl/pow_integral.hpp
+++ b/include/gcem_incl/pow_integral.hpp
@@ -54,6 +54,9 @@ pow_integral_sgn_check(const T1 base, const T2 exp_term)
 noexcept
 {
     return( exp_term < T2(0) ? \
+            // the quotient of an integral base is 0 or +/-1, and the power itself may overflow
+                std::is_integral<T1>::value ? \
+                    pow_integral_compute_recur(static_cast<T1>(T1(1)/base), T1(1), - exp_term) :
             //
                 T1(1) / pow_integral_compute(base, - exp_term) : 
             //
@@ -85,8 +88,8 @@ noexcept
                 T1(1) :
             // the negative of the smallest exponent is not representable
             exp_term == GCLIM<T2>::min() ? \
-                (std::is_integral<T1>::value && abs(base) > T1(1)) ? \
-                    T1(0) :
+                std::is_integral<T1>::value ? \
+                    pow_integral_compute_recur(static_cast<T1>(T1(1)/base), T1(1), - (exp_term/2)) :
                     pow_integral_compute(base*base, exp_term/2) :
             // else
             pow_integral_sgn_check(base,exp_term) );
-- 
2.43.0

