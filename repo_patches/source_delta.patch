From b2d8780bd05fc397b37329b6292504293bdb216c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:48 +0000
Subject: [PATCH 01/15] fix: nth_root protects its unprotected computations

nth_root computed with unprotected intervals without creating a rounding
object first, so the rounding mode was neither set up for the computation
nor given back to the caller afterwards.
---
 include/boost/numeric/interval/arith2.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/numeric/interval/arith2.hpp b/include/boost/numeric/interval/arith2.hpp
index eec87e0..55c6445 100644
--- a/include/boost/numeric/interval/arith2.hpp
+++ b/include/boost/numeric/interval/arith2.hpp
@@ -273,6 +273,8 @@ interval<T, Policies> nth_root(interval<T, Policies> const &x, int k)
   if (interval_lib::detail::test_input(x)) return I::empty();
   assert(k > 0);
   if (k == 1) return x;
+  typename Policies::rounding rnd; // protects the unprotected computations below
+  (void)rnd;
   typedef typename interval_lib::unprotect<I>::type R;
   if (!interval_lib::user::is_pos(x.upper())) {
     if (interval_lib::user::is_zero(x.upper())) {
-- 
2.43.0


From ef7688343d1e90e2e701adfa8029a49f8cf79b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:48 +0000
Subject: [PATCH 02/15] fix: nth_root of an unbounded or tiny interval

An infinite upper bound, or the overflowing reciprocal of a tiny bound, made
the iteration start from an infinite midpoint and produce invalid bounds.
---
 include/boost/numeric/interval/arith2.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/numeric/interval/arith2.hpp b/include/boost/numeric/interval/arith2.hpp
index 55c6445..b00367a 100644
--- a/include/boost/numeric/interval/arith2.hpp
+++ b/include/boost/numeric/interval/arith2.hpp
@@ -15,6 +15,7 @@
 #define BOOST_NUMERIC_INTERVAL_ARITH2_HPP
 
 #include <boost/config.hpp>
+#include <boost/limits.hpp>
 #include <boost/numeric/interval/detail/interval_prototype.hpp>
 #include <boost/numeric/interval/detail/test_input.hpp>
 #include <boost/numeric/interval/detail/bugs.hpp>
@@ -231,6 +232,9 @@ I root_aux(typename I::base_type const &x, int k) // x and k are bigger than one
   typedef typename I::base_type T;
   T tk(k);
   I y(static_cast<T>(1), x, true);
+  if (std::numeric_limits<T>::has_infinity &&
+      x == std::numeric_limits<T>::infinity())
+    return y; // no midpoint to start from
   for(;;) {
     T y0 = median(y);
     I yy = intersect(y, y0 - (pow(I(y0, y0, true), k) - x) / (tk * pow(y, k - 1)));
-- 
2.43.0


From a9e1a10e0c42b3ee68e803fa2d5bd61ce670f2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:48 +0000
Subject: [PATCH 03/15] fix: lower bounds of rounded_transc_opp

-force_rounding(-f(x)) in upward mode rounds f(x) up, not down: negating
afterwards does not change the direction.  Odd functions use -f(-x), acosh
switches the mode like the other functions without that symmetry.
---
 include/boost/numeric/interval/rounded_transc.hpp | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/include/boost/numeric/interval/rounded_transc.hpp b/include/boost/numeric/interval/rounded_transc.hpp
index ef6e28b..e981585 100644
--- a/include/boost/numeric/interval/rounded_transc.hpp
+++ b/include/boost/numeric/interval/rounded_transc.hpp
@@ -100,7 +100,7 @@ struct rounded_transc_opp: Rounding
 # define BOOST_NUMERIC_INTERVAL_new_func(f) \
     T f##_down(const T& x) \
     { BOOST_NUMERIC_INTERVAL_using_math(f); \
-      return -this->force_rounding(-f(x)); } \
+      return -this->force_rounding(f(-x)); } \
     T f##_up  (const T& x) \
     { BOOST_NUMERIC_INTERVAL_using_math(f); \
       return this->force_rounding(f(x)); }
@@ -121,14 +121,6 @@ struct rounded_transc_opp: Rounding
       return this->force_rounding(f(x)); }
   BOOST_NUMERIC_INTERVAL_new_func(asinh)
   BOOST_NUMERIC_INTERVAL_new_func(atanh)
-# undef BOOST_NUMERIC_INTERVAL_new_func
-# define BOOST_NUMERIC_INTERVAL_new_func(f) \
-    T f##_down(const T& x) \
-    { BOOST_NUMERIC_INTERVAL_using_ahyp(f); \
-      return -this->force_rounding(-f(x)); } \
-    T f##_up  (const T& x) \
-    { BOOST_NUMERIC_INTERVAL_using_ahyp(f); \
-      return this->force_rounding(f(x)); }
   BOOST_NUMERIC_INTERVAL_new_func(acosh)
 # undef BOOST_NUMERIC_INTERVAL_new_func
 };
-- 
2.43.0


From fdd7f3fa3fae3edb87aa0cb27d0ce6931602f7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:48 +0000
Subject: [PATCH 04/15] fix: conversion of unsigned and minimal integers by
 rounded_arith_opp

conv_down negated the value in its own type, which wraps for unsigned types
and overflows for the smallest signed integer.
---
 include/boost/numeric/interval/rounded_arith.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/boost/numeric/interval/rounded_arith.hpp b/include/boost/numeric/interval/rounded_arith.hpp
index 4bb8691..6aa2a35 100644
--- a/include/boost/numeric/interval/rounded_arith.hpp
+++ b/include/boost/numeric/interval/rounded_arith.hpp
@@ -91,6 +91,22 @@ struct rounded_arith_opp: Rounding {
 # define BOOST_UP(EXPR) return this->force_rounding(EXPR)
 # define BOOST_UP_NEG(EXPR) return -this->force_rounding(EXPR)
   template<class U> T conv_down(U const &v) { BOOST_UP_NEG(-v); }
+  // a built-in integer may have no opposite; the volatile copy keeps the
+  // conversion behind the change of mode
+# define BOOST_NUMERIC_INTERVAL_conv_int(U) \
+  T conv_down(U const &v) \
+  { this->downward(); U volatile v_ = v; \
+    T r = this->force_rounding(static_cast<T>(static_cast<U>(v_))); \
+    this->upward(); return r; }
+  BOOST_NUMERIC_INTERVAL_conv_int(int)
+  BOOST_NUMERIC_INTERVAL_conv_int(unsigned int)
+  BOOST_NUMERIC_INTERVAL_conv_int(long)
+  BOOST_NUMERIC_INTERVAL_conv_int(unsigned long)
+# ifdef BOOST_HAS_LONG_LONG
+  BOOST_NUMERIC_INTERVAL_conv_int(boost::long_long_type)
+  BOOST_NUMERIC_INTERVAL_conv_int(boost::ulong_long_type)
+# endif
+# undef BOOST_NUMERIC_INTERVAL_conv_int
   template<class U> T conv_up  (U const &v) { BOOST_UP(v); }
   T add_down(const T& x, const T& y) { BOOST_UP_NEG((-x) - y); }
   T sub_down(const T& x, const T& y) { BOOST_UP_NEG(y - x); }
-- 
2.43.0


From eaf2dcc1572d20a455861b0f314614489b05813b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:48 +0000
Subject: [PATCH 05/15] fix: rounded_*_opp leaves the rounding mode upward when
 the number type throws

A number type's exception in a temporarily downward or to-nearest section left
that mode behind, so later unprotected computations of the same block were
rounded in the wrong direction.
---
 .../boost/numeric/interval/rounded_arith.hpp  | 21 +++++++++++++++----
 .../boost/numeric/interval/rounded_transc.hpp |  7 +++++--
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/include/boost/numeric/interval/rounded_arith.hpp b/include/boost/numeric/interval/rounded_arith.hpp
index 6aa2a35..d75840b 100644
--- a/include/boost/numeric/interval/rounded_arith.hpp
+++ b/include/boost/numeric/interval/rounded_arith.hpp
@@ -75,18 +75,30 @@ struct rounded_arith_std: Rounding {
 # undef BOOST_UP
 };
   
+namespace detail {
+
+// switches back to upward rounding, even if the number type throws
+template<class Rounding>
+struct back_upward {
+  Rounding &rnd;
+  explicit back_upward(Rounding &r): rnd(r) {}
+  ~back_upward() { rnd.upward(); }
+};
+
+} // namespace detail
+
 template<class T, class Rounding>
 struct rounded_arith_opp: Rounding {
   void init() { this->upward(); }
 # define BOOST_DN(EXPR) \
+    detail::back_upward<Rounding> back(*this); \
     this->downward(); \
     T r = this->force_rounding(EXPR); \
-    this->upward(); \
     return r
 # define BOOST_NR(EXPR) \
+    detail::back_upward<Rounding> back(*this); \
     this->to_nearest(); \
     T r = this->force_rounding(EXPR); \
-    this->upward(); \
     return r
 # define BOOST_UP(EXPR) return this->force_rounding(EXPR)
 # define BOOST_UP_NEG(EXPR) return -this->force_rounding(EXPR)
@@ -95,9 +107,10 @@ struct rounded_arith_opp: Rounding {
   // conversion behind the change of mode
 # define BOOST_NUMERIC_INTERVAL_conv_int(U) \
   T conv_down(U const &v) \
-  { this->downward(); U volatile v_ = v; \
+  { U volatile v_; detail::back_upward<Rounding> back(*this); \
+    this->downward(); v_ = v; \
     T r = this->force_rounding(static_cast<T>(static_cast<U>(v_))); \
-    this->upward(); return r; }
+    return r; }
   BOOST_NUMERIC_INTERVAL_conv_int(int)
   BOOST_NUMERIC_INTERVAL_conv_int(unsigned int)
   BOOST_NUMERIC_INTERVAL_conv_int(long)
diff --git a/include/boost/numeric/interval/rounded_transc.hpp b/include/boost/numeric/interval/rounded_transc.hpp
index e981585..0bf93af 100644
--- a/include/boost/numeric/interval/rounded_transc.hpp
+++ b/include/boost/numeric/interval/rounded_transc.hpp
@@ -11,6 +11,7 @@
 #define BOOST_NUMERIC_INTERVAL_ROUNDED_TRANSC_HPP
 
 #include <boost/numeric/interval/rounding.hpp>
+#include <boost/numeric/interval/rounded_arith.hpp>
 #include <boost/numeric/interval/detail/bugs.hpp>
 #include <boost/config/no_tr1/cmath.hpp>
 
@@ -86,8 +87,9 @@ struct rounded_transc_opp: Rounding
 # define BOOST_NUMERIC_INTERVAL_new_func(f) \
     T f##_down(const T& x) \
     { BOOST_NUMERIC_INTERVAL_using_math(f); \
+      detail::back_upward<Rounding> back(*this); \
       this->downward(); T y = this->force_rounding(f(x)); \
-      this->upward(); return y; } \
+      return y; } \
     T f##_up  (const T& x) \
     { BOOST_NUMERIC_INTERVAL_using_math(f); \
       return this->force_rounding(f(x)); }
@@ -114,8 +116,9 @@ struct rounded_transc_opp: Rounding
 # define BOOST_NUMERIC_INTERVAL_new_func(f) \
     T f##_down(const T& x) \
     { BOOST_NUMERIC_INTERVAL_using_ahyp(f); \
+      detail::back_upward<Rounding> back(*this); \
       this->downward(); T y = this->force_rounding(f(x)); \
-      this->upward(); return y; } \
+      return y; } \
     T f##_up  (const T& x) \
     { BOOST_NUMERIC_INTERVAL_using_ahyp(f); \
       return this->force_rounding(f(x)); }
-- 
2.43.0


From c1481cf0d8d76343be9e7023c5850f62bda64153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:48 +0000
Subject: [PATCH 06/15] fix: converting assignments of interval leave it
 unchanged when they throw

The lower bound was overwritten before the upper one had been converted, so a
failing conversion left a mixture of old and new bounds.
---
 include/boost/numeric/interval/interval.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/boost/numeric/interval/interval.hpp b/include/boost/numeric/interval/interval.hpp
index e89af48..2b9adcb 100644
--- a/include/boost/numeric/interval/interval.hpp
+++ b/include/boost/numeric/interval/interval.hpp
@@ -209,8 +209,9 @@ interval<T, Policies> &interval<T, Policies>::operator=(T1 const &v)
   if (checking::is_nan(v)) set_empty();
   else {
     rounding rnd;
-    low = rnd.conv_down(v);
-    up  = rnd.conv_up  (v);
+    T l = rnd.conv_down(v);
+    T u = rnd.conv_up  (v);
+    set(l, u);
   }
   return *this;
 }
@@ -242,8 +243,9 @@ interval<T, Policies> &interval<T, Policies>::operator=(interval<T1, Policies1>
   if (checking1::is_empty(r.lower(), r.upper())) set_empty();
   else {
     rounding rnd;
-    low = rnd.conv_down(r.lower());
-    up  = rnd.conv_up  (r.upper());
+    T l = rnd.conv_down(r.lower());
+    T u = rnd.conv_up  (r.upper());
+    set(l, u);
   }
   return *this;
 }
-- 
2.43.0


From abd6c5963e65c606bdfba3db4fb795d2af3b3f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:48 +0000
Subject: [PATCH 07/15] fix: set_empty and set_whole leave the interval
 unchanged when the policy throws

---
 include/boost/numeric/interval/interval.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/boost/numeric/interval/interval.hpp b/include/boost/numeric/interval/interval.hpp
index 2b9adcb..370349f 100644
--- a/include/boost/numeric/interval/interval.hpp
+++ b/include/boost/numeric/interval/interval.hpp
@@ -268,15 +268,13 @@ void interval<T, Policies>::set(const T& l, const T& u)
 template<class T, class Policies> inline
 void interval<T, Policies>::set_empty()
 {
-  low = checking::empty_lower();
-  up  = checking::empty_upper();
+  set(checking::empty_lower(), checking::empty_upper());
 }
 
 template<class T, class Policies> inline
 void interval<T, Policies>::set_whole()
 {
-  low = checking::neg_inf();
-  up  = checking::pos_inf();
+  set(checking::neg_inf(), checking::pos_inf());
 }
 
 template<class T, class Policies> inline
-- 
2.43.0


From 9896dc3fc1c99e8d8ef58f9780508da74e5892f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:48 +0000
Subject: [PATCH 08/15] fix: widen checks its number argument

---
 include/boost/numeric/interval/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/utility.hpp b/include/boost/numeric/interval/utility.hpp
index 8e784b8..08ffcc6 100644
--- a/include/boost/numeric/interval/utility.hpp
+++ b/include/boost/numeric/interval/utility.hpp
@@ -82,7 +82,7 @@ T median(const interval<T, Policies>& x)
 template<class T, class Policies> inline
 interval<T, Policies> widen(const interval<T, Policies>& x, const T& v)
 {
-  if (interval_lib::detail::test_input(x))
+  if (interval_lib::detail::test_input(x, v))
     return interval<T, Policies>::empty();
   typename Policies::rounding rnd;
   return interval<T, Policies>(rnd.sub_down(x.lower(), v),
-- 
2.43.0


From 4cdf49ba3d6bbd2231a18e4a17be4d70ba1be7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:48 +0000
Subject: [PATCH 09/15] fix: numeric_limits<interval> must let exceptions out

The members call checking policies and number types that may throw (empty()
throws with checking_no_empty and checking_strict); noexcept turned that into
std::terminate.  Also corrects the spelling of signaling_NaN.
---
 include/boost/numeric/interval/limits.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/boost/numeric/interval/limits.hpp b/include/boost/numeric/interval/limits.hpp
index ce080dd..842cff9 100644
--- a/include/boost/numeric/interval/limits.hpp
+++ b/include/boost/numeric/interval/limits.hpp
@@ -26,18 +26,18 @@ private:
   typedef boost::numeric::interval<T, Policies> I;
   typedef numeric_limits<T> bl;
 public:
-  static I min BOOST_PREVENT_MACRO_SUBSTITUTION () BOOST_NOEXCEPT_OR_NOTHROW { return I((bl::min)(), (bl::min)()); }
-  static I max BOOST_PREVENT_MACRO_SUBSTITUTION () BOOST_NOEXCEPT_OR_NOTHROW { return I((bl::max)(), (bl::max)()); }
-  static I epsilon() BOOST_NOEXCEPT_OR_NOTHROW { return I(bl::epsilon(), bl::epsilon()); }
+  static I min BOOST_PREVENT_MACRO_SUBSTITUTION () { return I((bl::min)(), (bl::min)()); }
+  static I max BOOST_PREVENT_MACRO_SUBSTITUTION () { return I((bl::max)(), (bl::max)()); }
+  static I epsilon() { return I(bl::epsilon(), bl::epsilon()); }
 
   BOOST_STATIC_CONSTANT(float_round_style, round_style = round_indeterminate);
   BOOST_STATIC_CONSTANT(bool, is_iec559 = false);
 
-  static I infinity () BOOST_NOEXCEPT_OR_NOTHROW { return I::whole(); }
-  static I quiet_NaN() BOOST_NOEXCEPT_OR_NOTHROW { return I::empty(); }
-  static I signaling_NaN() BOOST_NOEXCEPT_OR_NOTHROW
-  { return I(bl::signaling_NaN(), bl::signaling_Nan()); }
-  static I denorm_min() BOOST_NOEXCEPT_OR_NOTHROW
+  static I infinity () { return I::whole(); }
+  static I quiet_NaN() { return I::empty(); }
+  static I signaling_NaN()
+  { return I(bl::signaling_NaN(), bl::signaling_NaN()); }
+  static I denorm_min()
   { return I(bl::denorm_min(), bl::denorm_min()); }
 private:
   static I round_error();    // hide this on purpose, not yet implemented
-- 
2.43.0


From 0a29ccbab23e070464543d75016c1c714df355f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:48 +0000
Subject: [PATCH 10/15] fix: rounding long double to an integer does not go
 through double

---
 .../boost/numeric/interval/detail/c99sub_rounding_control.hpp  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/detail/c99sub_rounding_control.hpp b/include/boost/numeric/interval/detail/c99sub_rounding_control.hpp
index a8684df..00084c9 100644
--- a/include/boost/numeric/interval/detail/c99sub_rounding_control.hpp
+++ b/include/boost/numeric/interval/detail/c99sub_rounding_control.hpp
@@ -18,7 +18,7 @@ namespace numeric {
 namespace interval_lib {
 namespace detail {
 
-extern "C" { double rint(double); }
+extern "C" { double rint(double); long double rintl(long double); }
 
 struct c99_rounding_control
 {
@@ -33,6 +33,7 @@ struct c99_rounding_control
 
   template<class T>
   static T to_int(const T& r) { return rint(r); }
+  static long double to_int(const long double& r) { return rintl(r); }
 };
 
 } // namespace detail
-- 
2.43.0


From 9112e44d5f391b9136a38fcb3dd944b5242d9930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:06 +0000
Subject: [PATCH 11/15] fix: pow with the smallest integer does not recurse for
 ever

---
 include/boost/numeric/interval/arith2.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/numeric/interval/arith2.hpp b/include/boost/numeric/interval/arith2.hpp
index b00367a..c7c3e26 100644
--- a/include/boost/numeric/interval/arith2.hpp
+++ b/include/boost/numeric/interval/arith2.hpp
@@ -172,6 +172,8 @@ interval<T, Policies> pow(const interval<T, Policies>& x, int pwr)
       return I::empty();
     else
       return I(static_cast<T>(1));
+  else if (pwr < -(std::numeric_limits<int>::max)()) // no opposite
+    return interval_lib::multiplicative_inverse(square(pow(x, -(pwr / 2))));
   else if (pwr < 0)
     return interval_lib::multiplicative_inverse(pow(x, -pwr));
 
-- 
2.43.0


From 6146254b5d6fcc8243db0d368e1b81b1e2a07ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:10 +0000
Subject: [PATCH 12/15] fix: nth_root encloses a root index the number type
 cannot represent

---
 include/boost/numeric/interval/arith2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/arith2.hpp b/include/boost/numeric/interval/arith2.hpp
index c7c3e26..b4bf7f5 100644
--- a/include/boost/numeric/interval/arith2.hpp
+++ b/include/boost/numeric/interval/arith2.hpp
@@ -232,7 +232,7 @@ template< class I > inline
 I root_aux(typename I::base_type const &x, int k) // x and k are bigger than one
 {
   typedef typename I::base_type T;
-  T tk(k);
+  I tk(k);
   I y(static_cast<T>(1), x, true);
   if (std::numeric_limits<T>::has_infinity &&
       x == std::numeric_limits<T>::infinity())
-- 
2.43.0


From 74ed10a10e8ef59350af94d5c2982d4e7fa45b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:21:53 +0000
Subject: [PATCH 13/15] fix: median of large bounds does not overflow

---
 include/boost/numeric/interval/utility.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/utility.hpp b/include/boost/numeric/interval/utility.hpp
index 08ffcc6..92c84de 100644
--- a/include/boost/numeric/interval/utility.hpp
+++ b/include/boost/numeric/interval/utility.hpp
@@ -76,7 +76,9 @@ T median(const interval<T, Policies>& x)
     return checking::nan();
   }
   typename Policies::rounding rnd;
-  return rnd.median(x.lower(), x.upper());
+  T m = rnd.median(x.lower(), x.upper());
+  if (x.lower() <= m && m <= x.upper()) return m;
+  return rnd.add_down(x.lower() / 2, x.upper() / 2); // the sum overflowed
 }
 
 template<class T, class Policies> inline
-- 
2.43.0


From 18ef4d54f7dba052bd473cce4f9de931da0102a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:54 +0000
Subject: [PATCH 14/15] fix: subset accepts intervals of different policies

The set comparison operators <= and >= are declared for two intervals of
different policies and call subset, which took only one policy: the
operators did not compile. proper_subset, overlap and equal already
accept two.
---
 include/boost/numeric/interval/utility.hpp     | 6 +++---
 include/boost/numeric/interval/utility_fwd.hpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/numeric/interval/utility.hpp b/include/boost/numeric/interval/utility.hpp
index 92c84de..0298fd8 100644
--- a/include/boost/numeric/interval/utility.hpp
+++ b/include/boost/numeric/interval/utility.hpp
@@ -122,9 +122,9 @@ bool in(const T& x, const interval<T, Policies>& y)
   return y.lower() <= x && x <= y.upper();
 }
 
-template<class T, class Policies> inline
-bool subset(const interval<T, Policies>& x,
-            const interval<T, Policies>& y)
+template<class T, class Policies1, class Policies2> inline
+bool subset(const interval<T, Policies1>& x,
+            const interval<T, Policies2>& y)
 {
   if (empty(x)) return true;
   return !empty(y) && y.lower() <= x.lower() && x.upper() <= y.upper();
diff --git a/include/boost/numeric/interval/utility_fwd.hpp b/include/boost/numeric/interval/utility_fwd.hpp
index 5fce06c..368affd 100644
--- a/include/boost/numeric/interval/utility_fwd.hpp
+++ b/include/boost/numeric/interval/utility_fwd.hpp
@@ -58,11 +58,11 @@ namespace boost { namespace numeric {
     template <class T, class Policies>
     bool in(const T& x, const interval<T,Policies>& y);
 
-    template <class T, class Policies>
+    template <class T, class Policies1, class Policies2>
     bool
         subset(
-            const interval<T,Policies>& x
-          , const interval<T,Policies>& y
+            const interval<T,Policies1>& x
+          , const interval<T,Policies2>& y
         );
 
     template <class T, class Policies1, class Policies2>
-- 
2.43.0


From 3e6c6ac45c5dc693a142568ee17081a7518816d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 15/15] fix: assign accepts references to the interval's own
 bounds

---
 include/boost/numeric/interval/interval.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/interval.hpp b/include/boost/numeric/interval/interval.hpp
index 370349f..bb51b74 100644
--- a/include/boost/numeric/interval/interval.hpp
+++ b/include/boost/numeric/interval/interval.hpp
@@ -255,7 +255,7 @@ void interval<T, Policies>::assign(const T& l, const T& u)
 {
   if (checking::is_nan(l) || checking::is_nan(u) || !(l <= u))
     set_empty();
-  else set(l, u);
+  else set(l, T(u)); // u may be the lower bound of this interval
 }
 
 template<class T, class Policies> inline
-- 
2.43.0

