From d7743237730432b43bacb78895ac6c3612eeda61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:11 +0000
Subject: [PATCH 01/30] fix: ldexp/frexp derivatives for negative and large
 exponents

The derivative was computed with 1 << exp, which is undefined for exponents
that are negative or exceed the width of int (e.g. frexp(0.1, &e), ldexp(x, -2)).
---
 src/XAD/UnaryMathFunctors.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index e919c89..1ca71dd 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -203,7 +203,7 @@ struct ldexp_op
 {
     XAD_INLINE explicit ldexp_op(int exp) : exp_(exp) {}
     XAD_INLINE Scalar operator()(const Scalar& a) const { return ldexp(a, exp_); }
-    XAD_INLINE Scalar derivative(const Scalar&) const { return Scalar(1 << exp_); }
+    XAD_INLINE Scalar derivative(const Scalar&) const { return Scalar(std::ldexp(1.0, exp_)); }
     int exp_;
 };
 
@@ -217,7 +217,7 @@ struct frexp_op
         // we assume that operator() and derivative are called in succession and in
         // this order, which is always the case in XAD. Therefore we can read the
         // value in *exp_ here to calculate the derivative
-        return Scalar(1.0) / Scalar(1 << *exp_);
+        return Scalar(std::ldexp(1.0, -*exp_));
     }
     int* exp_;
 };
-- 
2.43.0


From f0ed4c1f5d042caca7bbb4b70a4dd67fe589147d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:09 +0000
Subject: [PATCH 02/30] fix: fmod derivative with respect to the divisor for
 negative quotients

fmod truncates the quotient towards zero, so the derivative is -trunc(a/b);
-floor(a/b) is off by one when a/b is negative.
---
 src/XAD/BinaryMathFunctors.hpp | 2 +-
 src/XAD/UnaryMathFunctors.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/XAD/BinaryMathFunctors.hpp b/src/XAD/BinaryMathFunctors.hpp
index 9c9fd51..e1affcc 100644
--- a/src/XAD/BinaryMathFunctors.hpp
+++ b/src/XAD/BinaryMathFunctors.hpp
@@ -217,7 +217,7 @@ struct fmod_op
 {
     XAD_INLINE Scalar operator()(const Scalar& a, const Scalar& b) const { return fmod(a, b); }
     XAD_INLINE Scalar derivative_a(const Scalar&, const Scalar&) const { return Scalar(1); }
-    XAD_INLINE Scalar derivative_b(const Scalar& a, const Scalar& b) const { return -floor(a / b); }
+    XAD_INLINE Scalar derivative_b(const Scalar& a, const Scalar& b) const { return -trunc(a / b); }
 };
 
 template <class Scalar>
diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index 1ca71dd..f451b37 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -192,7 +192,7 @@ struct fabs_op : abs_op<Scalar>
     };
 
 XAD_MAKE_UNARY_BINFUNCTOR(pow, Scalar(b) * Scalar(pow(a, b - T2(1))), log(b) * v)
-XAD_MAKE_UNARY_BINFUNCTOR(fmod, Scalar(1), -floor(Scalar(b) / a))
+XAD_MAKE_UNARY_BINFUNCTOR(fmod, Scalar(1), -trunc(Scalar(b) / a))
 XAD_MAKE_UNARY_BINFUNCTOR(atan2, Scalar(b) / (a * a + Scalar(b * b)),
                           -Scalar(b) / (a * a + Scalar(b * b)))
 XAD_MAKE_UNARY_BINFUNCTOR(nextafter, Scalar(1), Scalar(0))
-- 
2.43.0


From ea9768a7bfe9b811d546102b7c2e1a0f291b699c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:32 +0000
Subject: [PATCH 03/30] fix: integer overflow in the derivative of atan2 with
 integer arguments

The square of the passive argument was computed in its own (integer) type.
---
 src/XAD/UnaryMathFunctors.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index f451b37..d703ec7 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -193,8 +193,8 @@ struct fabs_op : abs_op<Scalar>
 
 XAD_MAKE_UNARY_BINFUNCTOR(pow, Scalar(b) * Scalar(pow(a, b - T2(1))), log(b) * v)
 XAD_MAKE_UNARY_BINFUNCTOR(fmod, Scalar(1), -trunc(Scalar(b) / a))
-XAD_MAKE_UNARY_BINFUNCTOR(atan2, Scalar(b) / (a * a + Scalar(b * b)),
-                          -Scalar(b) / (a * a + Scalar(b * b)))
+XAD_MAKE_UNARY_BINFUNCTOR(atan2, Scalar(b) / (a * a + Scalar(b) * Scalar(b)),
+                          -Scalar(b) / (a * a + Scalar(b) * Scalar(b)))
 XAD_MAKE_UNARY_BINFUNCTOR(nextafter, Scalar(1), Scalar(0))
 XAD_MAKE_UNARY_BINFUNCTOR(hypot, Scalar(a) / v, Scalar(a) / v)
 
-- 
2.43.0


From c6f14abb4b9212117a673dff116e008f1985a8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:48 +0000
Subject: [PATCH 04/30] fix: NaN derivatives of pow at zero base or zero
 exponent

pow(x, 0) is 1 everywhere, so its derivative is 0 also at x = 0 (and for unsigned
exponents, where b - 1 wrapped around); pow(0, b) with b > 0 is 0, so its
derivative with respect to b is 0 rather than log(0) * 0.
---
 src/XAD/BinaryMathFunctors.hpp | 6 +++++-
 src/XAD/UnaryMathFunctors.hpp  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/XAD/BinaryMathFunctors.hpp b/src/XAD/BinaryMathFunctors.hpp
index e1affcc..0b18357 100644
--- a/src/XAD/BinaryMathFunctors.hpp
+++ b/src/XAD/BinaryMathFunctors.hpp
@@ -37,10 +37,14 @@ struct pow_op
     XAD_INLINE Scalar operator()(const Scalar& a, const Scalar& b) const { return pow(a, b); }
     XAD_INLINE Scalar derivative_a(const Scalar& a, const Scalar& b, const Scalar&) const
     {
+        if (a == Scalar(0) && b == Scalar(0))  // pow(x, 0) is 1 for all x
+            return Scalar(0);
         return b * pow(a, b - Scalar(1));
     }
-    XAD_INLINE Scalar derivative_b(const Scalar& a, const Scalar&, const Scalar& v) const
+    XAD_INLINE Scalar derivative_b(const Scalar& a, const Scalar& b, const Scalar& v) const
     {
+        if (a == Scalar(0) && b > Scalar(0))  // pow(0, x) is 0 for all x > 0
+            return Scalar(0);
         return log(a) * v;
     }
 };
diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index d703ec7..34cdfee 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -191,7 +191,11 @@ struct fabs_op : abs_op<Scalar>
         };                                                                                         \
     };
 
-XAD_MAKE_UNARY_BINFUNCTOR(pow, Scalar(b) * Scalar(pow(a, b - T2(1))), log(b) * v)
+// (constant exponent zero: the derivative is zero everywhere, also where b-1 would wrap around or
+// divide by zero; constant base zero: the derivative with respect to the exponent is zero)
+XAD_MAKE_UNARY_BINFUNCTOR(pow,
+                          b == T2(0) ? Scalar(0) : Scalar(Scalar(b) * Scalar(pow(a, b - T2(1)))),
+                          b == T2(0) && a > Scalar(0) ? Scalar(0) : Scalar(log(b) * v))
 XAD_MAKE_UNARY_BINFUNCTOR(fmod, Scalar(1), -trunc(Scalar(b) / a))
 XAD_MAKE_UNARY_BINFUNCTOR(atan2, Scalar(b) / (a * a + Scalar(b) * Scalar(b)),
                           -Scalar(b) / (a * a + Scalar(b) * Scalar(b)))
-- 
2.43.0


From 650b9aa8f2c895edc6f50d57a0d520ffa2422c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:16 +0000
Subject: [PATCH 05/30] fix: remainder/remquo derivative with respect to the
 divisor for large quotients

std::remquo only delivers the low-order bits of the quotient (3 bits with glibc),
so the derivative was wrong as soon as the quotient exceeded 7.
---
 src/XAD/BinaryMathFunctors.hpp | 19 +++++++++----------
 src/XAD/UnaryMathFunctors.hpp  | 19 +++++++++----------
 2 files changed, 18 insertions(+), 20 deletions(-)

diff --git a/src/XAD/BinaryMathFunctors.hpp b/src/XAD/BinaryMathFunctors.hpp
index 0b18357..bac2dc3 100644
--- a/src/XAD/BinaryMathFunctors.hpp
+++ b/src/XAD/BinaryMathFunctors.hpp
@@ -269,28 +269,27 @@ struct remainder_op
     XAD_INLINE Scalar derivative_b(const Scalar& a, const Scalar& b) const
     {
         // function is rare enough that there's no need to optimize this better
-        int n_;
-        using std::remquo;
-        XAD_UNUSED_VARIABLE(remquo(a, b, &n_));
-        return Scalar(-n_);
+        // (note that remquo only gives the low-order bits of the quotient)
+        return -round((a - remainder(a, b)) / b);
     }
 };
 
 template <class Scalar>
 struct remquo_op
 {
-    XAD_INLINE explicit remquo_op(int* quo) : quo_(quo), q_() {}
+    XAD_INLINE explicit remquo_op(int* quo) : quo_(quo) {}
     XAD_INLINE Scalar operator()(const Scalar& a, const Scalar& b) const
     {
         using std::remquo;
-        Scalar v = remquo(a, b, &q_);
-        *quo_ = q_;
-        return v;
+        return remquo(a, b, quo_);
     }
     XAD_INLINE Scalar derivative_a(const Scalar&, const Scalar&) const { return Scalar(1); }
-    XAD_INLINE Scalar derivative_b(const Scalar&, const Scalar&) const { return Scalar(-q_); }
+    XAD_INLINE Scalar derivative_b(const Scalar& a, const Scalar& b) const
+    {
+        // (note that remquo only gives the low-order bits of the quotient)
+        return -round((a - remainder(a, b)) / b);
+    }
     int* quo_;
-    mutable int q_;
 };
 
 template <class Scalar>
diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index 34cdfee..6b16d1c 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -379,10 +379,8 @@ struct scalar_remainder1_op
     XAD_INLINE Scalar derivative(const Scalar& a) const
     {
         // function is rare enough that there's no need to optimize this better
-        int n_;
-        using std::remquo;
-        (void)remquo(b_, a, &n_);
-        return Scalar(-n_);
+        // (note that remquo only gives the low-order bits of the quotient)
+        return -round((Scalar(b_) - remainder(b_, a)) / a);
     }
     T2 b_;
 };
@@ -399,18 +397,19 @@ struct scalar_remainder2_op
 template <class Scalar, class T2>
 struct scalar_remquo1_op
 {
-    XAD_INLINE scalar_remquo1_op(const T2& b, int* quo) : b_(b), quo_(quo), q_() {}
+    XAD_INLINE scalar_remquo1_op(const T2& b, int* quo) : b_(b), quo_(quo) {}
     XAD_INLINE Scalar operator()(const Scalar& a) const
     {
         using std::remquo;
-        Scalar v = remquo(b_, a, &q_);
-        *quo_ = q_;
-        return v;
+        return remquo(b_, a, quo_);
+    }
+    XAD_INLINE Scalar derivative(const Scalar& a) const
+    {
+        // (note that remquo only gives the low-order bits of the quotient)
+        return -round((Scalar(b_) - remainder(b_, a)) / a);
     }
-    XAD_INLINE Scalar derivative(const Scalar&) const { return Scalar(-q_); }
     T2 b_;
     int* quo_;
-    mutable int q_;
 };
 
 template <class Scalar, class T2>
-- 
2.43.0


From c96ef064a2528db802b1b1ce68036038634ee2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:36 +0000
Subject: [PATCH 06/30] fix: copysign result sign for a negative zero magnitude

copysign(-0.0, -1) returned +0.0.
---
 src/XAD/UnaryOperators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/XAD/UnaryOperators.hpp b/src/XAD/UnaryOperators.hpp
index fcb6592..faa6057 100644
--- a/src/XAD/UnaryOperators.hpp
+++ b/src/XAD/UnaryOperators.hpp
@@ -461,7 +461,7 @@ XAD_INLINE typename ExprTraits<Derived>::value_type copysign(const Expression<Sc
 {
     using T = typename ExprTraits<Derived>::value_type;
     bool sign = signbit(y);
-    if (x < 0)
+    if (signbit(x))
     {
         if (sign)
             return T(x);
-- 
2.43.0


From 15e74e860de845370571d06754cd70132412f912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:58 +0000
Subject: [PATCH 07/30] fix: scalbn overflow when the power of two alone is not
 representable

scalbn(1e-300, 1100) gave infinity as 2^1100 was computed on its own first.
---
 src/XAD/UnaryOperators.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/XAD/UnaryOperators.hpp b/src/XAD/UnaryOperators.hpp
index faa6057..25e9e9d 100644
--- a/src/XAD/UnaryOperators.hpp
+++ b/src/XAD/UnaryOperators.hpp
@@ -450,9 +450,8 @@ template <class Scalar, class Derived>
 XAD_INLINE typename ExprTraits<Derived>::value_type scalbn(const Expression<Scalar, Derived>& x,
                                                            int exp)
 {
-    using std::scalbn;
     using T = typename ExprTraits<Derived>::value_type;
-    return T(x * scalbn(1.0, exp));
+    return T(ldexp(x, exp));  // FLT_RADIX is 2
 }
 
 template <class Scalar, class Derived, class T2>
-- 
2.43.0


From 95a43f96ae1f7437c64300bb90472d9f87cf0280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:00 +0000
Subject: [PATCH 08/30] fix: higher-order adjoints dropped where the
 first-order adjoint is zero

The reverse sweep skips statements with a zero adjoint, but only compared the
value. In nested modes an adjoint with value zero may carry inner derivatives,
e.g. for z = sin(x); y = z * z at x = 0 the second derivative came out as 0.
---
 src/Tape.cpp | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 88b2c43..584b001 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -547,6 +547,31 @@ XAD_FORCE_INLINE double fused_multiply_add(double a, double b, double c)
 
 XAD_FORCE_INLINE float fused_multiply_add(float a, float b, float c) { return std::fma(a, b, c); }
 
+// true if an adjoint does not contribute anything when propagated. For higher orders, an adjoint
+// with value zero can still carry derivative information of the inner mode.
+template <class T>
+XAD_FORCE_INLINE bool is_zero_adjoint(const FReal<T>& a);
+template <class T>
+XAD_FORCE_INLINE bool is_zero_adjoint(const AReal<T>& a);
+
+template <class T>
+XAD_FORCE_INLINE bool is_zero_adjoint(const T& a)
+{
+    return a == T();
+}
+
+template <class T>
+XAD_FORCE_INLINE bool is_zero_adjoint(const FReal<T>& a)
+{
+    return is_zero_adjoint(a.value()) && is_zero_adjoint(a.derivative());
+}
+
+template <class T>
+XAD_FORCE_INLINE bool is_zero_adjoint(const AReal<T>& a)
+{
+    return !a.shouldRecord() && is_zero_adjoint(a.value());
+}
+
 }  // namespace detail
 
 template <class T>
@@ -581,7 +606,7 @@ void Tape<T>::computeAdjointsToImpl(position_type pos, position_type start)
             auto st = *it;
             auto a = derivatives_[st.second];
             derivatives_[st.second] = T();
-            if (a != T())
+            if (!detail::is_zero_adjoint(a))
             {
                 for (auto opi = it[-1].first, ope = st.first; opi != ope; ++opi)
                 {
@@ -599,7 +624,7 @@ void Tape<T>::computeAdjointsToImpl(position_type pos, position_type start)
             auto st = chunk_it[0][endidx];
             auto a = derivatives_[st.second];
             derivatives_[st.second] = T();
-            if (a != T())
+            if (!detail::is_zero_adjoint(a))
             {
                 for (auto opi = prevendpoint, ope = st.first; opi != ope; ++opi)
                 {
-- 
2.43.0


From aee4a2af5fcb004df21cda900e4ca671c5bb672c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:47 +0000
Subject: [PATCH 09/30] fix: heap overflow when recording continues after
 seeding an adjoint

The vector of adjoints was only sized when a derivative was accessed, so
computeAdjoints wrote past its end if variables were registered after that.
---
 src/Tape.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 584b001..36c1edd 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -494,6 +494,9 @@ void Tape<T>::computeAdjoints()
 template <class T>
 void Tape<T>::computeAdjointsTo(position_type pos)
 {
+    // more variables may have been registered since the derivatives were last accessed
+    initDerivatives();
+
     position_type start = position_type(statement_.size() - 1);
     LOG_DEBUG("number checkpoints: " << checkpoints_.size());
     for (unsigned i = unsigned(checkpoints_.size()); i > 0; --i)
-- 
2.43.0


From c14a9ac7c54b3b1a05cc997977d3e2f5c66593e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:16 +0000
Subject: [PATCH 10/30] fix: moved-from ChunkContainer kept its size

The destructor of a moved-from, non-empty container of non-trivial elements
(e.g. in a moved-from second order tape) accessed the chunks it no longer had.
---
 src/XAD/ChunkContainer.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/XAD/ChunkContainer.hpp b/src/XAD/ChunkContainer.hpp
index 9e359cc..138ff96 100644
--- a/src/XAD/ChunkContainer.hpp
+++ b/src/XAD/ChunkContainer.hpp
@@ -135,6 +135,8 @@ class ChunkContainer
     ChunkContainer(ChunkContainer&& o) noexcept
         : chunkList_(std::move(o.chunkList_)), chunk_(o.chunk_), idx_(o.idx_)
     {
+        o.chunkList_.clear();
+        o.chunk_ = o.idx_ = 0;
     }
 
     ChunkContainer& operator=(ChunkContainer&& o)
@@ -143,6 +145,8 @@ class ChunkContainer
         chunkList_ = std::move(o.chunkList_);
         chunk_ = o.chunk_;
         idx_ = o.idx_;
+        o.chunkList_.clear();
+        o.chunk_ = o.idx_ = 0;
         return *this;
     }
 
-- 
2.43.0


From 2ad1b93f1a310ece970fbdeb4f6a0b3d09263d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:56 +0000
Subject: [PATCH 11/30] fix: moving an active tape terminated the program

Activating the new tape while the moved-from one was still active threw
TapeAlreadyActive from a noexcept function. Also the iterators into the list of
reusable slots referred to the moved-from list, and move-assignment leaked the
callbacks owned by the target.
---
 src/Tape.cpp     | 29 ++++++++++++++++++++++++-----
 src/XAD/Tape.hpp |  1 +
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 36c1edd..2ab9928 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -67,15 +67,15 @@ Tape<T>::Tape(Tape&& o) noexcept
       nestedRecordings_(std::move(o.nestedRecordings_)),
       currentRec_(o.currentRec_)
 {
-    if (o.isActive())
-        activate();
-    else
-        deactivate();
+    finishMove(o);
 }
 
 template <class T>
 Tape<T>& Tape<T>::operator=(Tape&& o) noexcept
 {
+    if (this == &o)
+        return *this;
+    for (auto p : callbacks_) delete p;
     multiplier_ = std::move(o.multiplier_);
     slot_ = std::move(o.slot_);
     statement_ = std::move(o.statement_);
@@ -87,11 +87,30 @@ Tape<T>& Tape<T>::operator=(Tape&& o) noexcept
 #endif
     nestedRecordings_ = std::move(o.nestedRecordings_);
     currentRec_ = o.currentRec_;
+    finishMove(o);
+    return *this;
+}
+
+template <class T>
+void Tape<T>::finishMove(Tape& o) noexcept
+{
+    o.callbacks_.clear();
+    o.currentRec_ = nullptr;
+#ifdef XAD_TAPE_REUSE_SLOTS
+    // end iterators still refer to the other list
+    if (currentRec_ && currentRec_->startRange_ == o.reusable_ranges_.end())
+        currentRec_->startRange_ = reusable_ranges_.end();
+    if (currentRec_ && currentRec_->latestRange_ == o.reusable_ranges_.end())
+        currentRec_->latestRange_ = reusable_ranges_.end();
+#endif
+    // only one tape can be active at a time, so the other one has to be deactivated first
     if (o.isActive())
+    {
+        o.deactivate();
         activate();
+    }
     else
         deactivate();
-    return *this;
 }
 
 template <class T>
diff --git a/src/XAD/Tape.hpp b/src/XAD/Tape.hpp
index bd4c709..ff5d771 100644
--- a/src/XAD/Tape.hpp
+++ b/src/XAD/Tape.hpp
@@ -245,6 +245,7 @@ class Tape
     void computeAdjointsTo(position_type pos);
 
   private:
+    void finishMove(Tape& o) noexcept;
     void computeAdjointsToImpl(position_type pos, position_type start);
     void initDerivatives();
     slot_type registerVariableAtEnd()
-- 
2.43.0


From 41386562806338c74e871f996544ee7eabc014a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:22 +0000
Subject: [PATCH 12/30] fix: wrong adjoints when checkpoint callbacks re-use
 slots with pending adjoints

During a checkpoint callback, variables were given the slots of variables that
had already been destroyed, although their adjoints are still to be propagated
by the part of the tape that is not rolled back yet. These adjoints got
overwritten or mixed up with those of the nested recording. Callbacks now only
use slots above all those in use, and slots released in the callback (or only
after the nested recording ended) are handled accordingly. With re-usable slots,
nested recordings keep their own ranges, as ranges of the enclosing recording
were left inconsistent at the end of the nested one.
---
 src/Tape.cpp     | 72 ++++++++++++++++++++++++++++++++++++++++++++++--
 src/XAD/Tape.hpp | 14 ++++++++++
 2 files changed, 84 insertions(+), 2 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 2ab9928..9f71819 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -130,6 +130,7 @@ void Tape<T>::clearAll()
     checkpoints_.clear();
 #ifdef XAD_TAPE_REUSE_SLOTS
     reusable_ranges_.clear();
+    outer_ranges_.clear();
 #endif
     while (!nestedRecordings_.empty()) nestedRecordings_.pop();
     statement_.push_back(std::make_pair(size_type(slot_.size()), slot_type(INVALID_SLOT)));
@@ -339,7 +340,8 @@ void Tape<T>::foldSubrecording()
                          [=](const chkpt_type& ckpt, slot_type pos) { return ckpt.first < pos; });
     checkpoints_.erase(it, checkpoints_.end());
 #ifdef XAD_TAPE_REUSE_SLOTS
-    reusable_ranges_.erase(prev.startRange_, reusable_ranges_.end());
+    reusable_ranges_.swap(outer_ranges_.back());
+    outer_ranges_.pop_back();
 #endif
 }
 
@@ -357,6 +359,9 @@ void Tape<T>::newNestedRecording()
 {
     SubRecording newr(*currentRec_);
 #ifdef XAD_TAPE_REUSE_SLOTS
+    // the nested recording starts without reusable slots
+    outer_ranges_.emplace_back();
+    outer_ranges_.back().swap(reusable_ranges_);
     newr.startRange_ = reusable_ranges_.end();
     newr.latestRange_ = newr.startRange_;
 #endif
@@ -510,6 +515,66 @@ void Tape<T>::computeAdjoints()
     computeAdjointsTo(currentRec_->statementStartPos_ - 1);
 }
 
+template <class T>
+class Tape<T>::CallbackScope
+{
+  public:
+    explicit CallbackScope(Tape& tape)
+        : tape_(tape),
+          callbackStart_(tape.callbackStart_),
+          iDerivative_(tape.currentRec_->iDerivative_),
+          numDerivatives_(tape.currentRec_->numDerivatives_)
+    {
+        tape.callbackStart_ = tape.currentRec_->iDerivative_ = tape.currentRec_->maxDerivative_;
+#ifdef XAD_TAPE_REUSE_SLOTS
+        ranges_.swap(tape.reusable_ranges_);
+        tape.currentRec_->startRange_ = tape.currentRec_->latestRange_ =
+            tape.reusable_ranges_.end();
+#endif
+    }
+
+    ~CallbackScope()
+    {
+        auto rec = tape_.currentRec_;
+        bool allReleased = rec->numDerivatives_ == numDerivatives_;
+#ifdef XAD_TAPE_REUSE_SLOTS
+        ranges_.swap(tape_.reusable_ranges_);
+        if (!allReleased)
+        {
+            // keep the slots above, and add those in between to the reusable ones
+            if (iDerivative_ != tape_.callbackStart_)
+                ranges_.emplace_front(iDerivative_, tape_.callbackStart_);
+            tape_.reusable_ranges_.splice(tape_.reusable_ranges_.end(), ranges_);
+        }
+        rec->startRange_ = rec->latestRange_ = tape_.reusable_ranges_.begin();
+#endif
+        if (allReleased)
+            rec->iDerivative_ = iDerivative_;
+        tape_.callbackStart_ = callbackStart_;
+        std::vector<slot_type> postponed;
+        postponed.swap(tape_.postponed_);
+        for (auto slot : postponed) tape_.unregisterVariable(slot);
+    }
+
+  private:
+    CallbackScope(const CallbackScope&) = delete;
+    CallbackScope& operator=(const CallbackScope&) = delete;
+
+    Tape& tape_;
+    slot_type callbackStart_, iDerivative_, numDerivatives_;
+#ifdef XAD_TAPE_REUSE_SLOTS
+    range_list ranges_;
+#endif
+};
+
+template <class T>
+void Tape<T>::unregisterOutside(slot_type slot)
+{
+    // slots above have been released already when their nested recording ended
+    if (slot < callbackStart_)
+        postponed_.push_back(slot);
+}
+
 template <class T>
 void Tape<T>::computeAdjointsTo(position_type pos)
 {
@@ -537,7 +602,10 @@ void Tape<T>::computeAdjointsTo(position_type pos)
         // subrecording
         currentRec_->prevMax_ = currentRec_->maxDerivative_;
 
-        cb->computeAdjoint(this);
+        {
+            CallbackScope scope(*this);
+            cb->computeAdjoint(this);
+        }
         currentRec_->prevMax_ = INVALID_SLOT;
         // std::cout << "********Reset to " << end-1 << std::endl;
 
diff --git a/src/XAD/Tape.hpp b/src/XAD/Tape.hpp
index ff5d771..d919ad9 100644
--- a/src/XAD/Tape.hpp
+++ b/src/XAD/Tape.hpp
@@ -213,6 +213,11 @@ class Tape
 
     XAD_INLINE void unregisterVariable(slot_type slot)
     {
+        if (slot < callbackStart_ || slot >= currentRec_->iDerivative_)
+        {
+            unregisterOutside(slot);
+            return;
+        }
 #ifndef XAD_TAPE_REUSE_SLOTS
         --currentRec_->numDerivatives_;
         if (slot == currentRec_->iDerivative_ - 1)  // it's at the end of the tape
@@ -270,8 +275,17 @@ class Tape
     typedef ReusableRange<slot_type> slot_range_type;
     typedef std::list<slot_range_type> range_list;
     range_list reusable_ranges_;
+    std::list<range_list> outer_ranges_;  // set aside while nested recordings are active
 #endif
 
+    // While a checkpoint callback runs, the slots from the part of the tape that is not rolled back
+    // yet have pending adjoints - even if their variables have been destroyed already. Therefore
+    // callbacks only use slots starting from callbackStart_, and releasing lower ones is postponed.
+    class CallbackScope;
+    void unregisterOutside(slot_type slot);
+    slot_type callbackStart_ = 0;
+    std::vector<slot_type> postponed_;
+
     void foldSubrecordings();
     void foldSubrecording();
 
-- 
2.43.0


From 45975279a356782160faae9bdbd6000c8edc8ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:20 +0000
Subject: [PATCH 13/30] fix: ChunkContainer resize, assign and
 uninitialized_extend at chunk boundaries

Growing to an exact multiple of the chunk size left the end position in a chunk
that was not allocated, shrinking with assign filled the wrong chunk, and
uninitialized_extend only handled a single chunk.
---
 src/XAD/ChunkContainer.hpp | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/XAD/ChunkContainer.hpp b/src/XAD/ChunkContainer.hpp
index 138ff96..9a7e32d 100644
--- a/src/XAD/ChunkContainer.hpp
+++ b/src/XAD/ChunkContainer.hpp
@@ -222,13 +222,10 @@ class ChunkContainer
 
     void uninitialized_extend(size_type i)
     {
-        reserve(size() + i);
-        idx_ += i;
-        if (idx_ > chunk_size)
-        {
-            ++chunk_;
-            idx_ = idx_ - chunk_size;
-        }
+        size_type s = size() + i;
+        reserve(s + 1);  // the chunk at the end position must exist
+        chunk_ = getHighPart(s);
+        idx_ = getLowPart(s);
     }
 
     void push_back(const_reference v)
@@ -264,7 +261,7 @@ class ChunkContainer
         }
 
         // now we have something bigger
-        reserve(s);
+        reserve(s + 1);  // the chunk at the end position must exist
         size_type nc_new = getHighPart(s);
         size_type nc_old = chunk_;
         size_type ix = idx_;
@@ -375,7 +372,7 @@ class ChunkContainer
             return;
         }
 
-        check_space(s);
+        reserve(s + 1);  // the chunk at the end position must exist
         size_type nc = getHighPart(s);
         size_type lc = getLowPart(s);
 
@@ -388,8 +385,8 @@ class ChunkContainer
             for (size_type i = 0; i < nc; ++i)
                 std::fill(reinterpret_cast<value_type*>(chunkList_[i]),
                           reinterpret_cast<value_type*>(chunkList_[i]) + chunk_size, v);
-            std::fill(reinterpret_cast<value_type*>(chunkList_[chunk_]),
-                      reinterpret_cast<value_type*>(chunkList_[chunk_]) + lc, v);
+            std::fill(reinterpret_cast<value_type*>(chunkList_[nc]),
+                      reinterpret_cast<value_type*>(chunkList_[nc]) + lc, v);
             chunk_ = nc;
             idx_ = lc;
 
@@ -451,8 +448,6 @@ class ChunkContainer
         }
     }
 
-    void check_space(size_type i) { reserve(chunk_ * chunk_size + idx_ + i); }
-
     void _free_memory()
     {
         clear();
-- 
2.43.0


From 25e6f8bdd20f005c82de70711df0433725860005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:13 +0000
Subject: [PATCH 14/30] fix: computeJacobian/computeHessian crash for an empty
 codomain/domain

The first row was accessed even if there is none.
---
 src/XAD/Hessian.hpp  | 4 ++--
 src/XAD/Jacobian.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/XAD/Hessian.hpp b/src/XAD/Hessian.hpp
index 3018d6d..5a21714 100644
--- a/src/XAD/Hessian.hpp
+++ b/src/XAD/Hessian.hpp
@@ -57,7 +57,7 @@ void computeHessian(const std::vector<AReal<FReal<T>>> &vec,
     unsigned int domain(static_cast<unsigned int>(vec.size()));
 
     if (std::distance(first, last) != domain ||
-        std::distance(first->cbegin(), first->cend()) != domain)
+        (domain != 0 && std::distance(first->cbegin(), first->cend()) != domain))
         throw OutOfRange("Iterator not allocated enough space");
     static_assert(detail::has_begin<typename std::iterator_traits<RowIterator>::value_type>::value,
                   "RowIterator must dereference to a type that implements a begin() method");
@@ -110,7 +110,7 @@ void computeHessian(const std::vector<FReal<FReal<T>>> &vec,
     unsigned int domain(static_cast<unsigned int>(vec.size()));
 
     if (std::distance(first, last) != domain ||
-        std::distance(first->cbegin(), first->cend()) != domain)
+        (domain != 0 && std::distance(first->cbegin(), first->cend()) != domain))
         throw OutOfRange("Iterator not allocated enough space");
     static_assert(detail::has_begin<typename std::iterator_traits<RowIterator>::value_type>::value,
                   "RowIterator must dereference to a type that implements a begin() method");
diff --git a/src/XAD/Jacobian.hpp b/src/XAD/Jacobian.hpp
index 1c2778b..421d625 100644
--- a/src/XAD/Jacobian.hpp
+++ b/src/XAD/Jacobian.hpp
@@ -53,7 +53,7 @@ void computeJacobian(const std::vector<AReal<T>> &vec,
                      std::function<std::vector<AReal<T>>(std::vector<AReal<T>> &)> foo,
                      RowIterator first, RowIterator last, Tape<T> *tape = Tape<T>::getActive())
 {
-    if (std::distance(first->cbegin(), first->cend()) != vec.size())
+    if (first != last && std::distance(first->cbegin(), first->cend()) != vec.size())
         throw OutOfRange("Iterator not allocated enough space (domain)");
     static_assert(detail::has_begin<typename std::iterator_traits<RowIterator>::value_type>::value,
                   "RowIterator must dereference to a type that implements a begin() method");
@@ -104,7 +104,7 @@ void computeJacobian(const std::vector<FReal<T>> &vec,
                      std::function<std::vector<FReal<T>>(std::vector<FReal<T>> &)> foo,
                      RowIterator first, RowIterator last)
 {
-    if (std::distance(first->cbegin(), first->cend()) != vec.size())
+    if (first != last && std::distance(first->cbegin(), first->cend()) != vec.size())
         throw OutOfRange("Iterator not allocated enough space (domain)");
     static_assert(detail::has_begin<typename std::iterator_traits<RowIterator>::value_type>::value,
                   "RowIterator must dereference to a type that implements a begin() method");
-- 
2.43.0


From 962ddea9f8e6b84a0fa661f70d4fcc39813dbcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:55 +0000
Subject: [PATCH 15/30] fix: computeJacobian/computeHessian for functions that
 modify their argument

Later evaluations got the modified argument. Also derivatives that the given
inputs already carried in the forward modes were mixed into the results.
---
 src/XAD/Hessian.hpp  |  8 ++++++--
 src/XAD/Jacobian.hpp | 11 +++++++----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/XAD/Hessian.hpp b/src/XAD/Hessian.hpp
index 5a21714..4067685 100644
--- a/src/XAD/Hessian.hpp
+++ b/src/XAD/Hessian.hpp
@@ -69,6 +69,7 @@ void computeHessian(const std::vector<AReal<FReal<T>>> &vec,
     }
 
     auto v(vec);
+    for (auto &x : v) derivative(value(x)) = 0.0;
     tape->registerInputs(v);
 
     auto row = first;
@@ -76,7 +77,8 @@ void computeHessian(const std::vector<AReal<FReal<T>>> &vec,
     {
         derivative(value(v[i])) = 1.0;
         tape->newRecording();
-        AReal<FReal<T>> y = foo(v);
+        auto vcopy(v);  // foo may modify its argument
+        AReal<FReal<T>> y = foo(vcopy);
         tape->registerOutput(y);
         value(derivative(y)) = 1.0;
         tape->computeAdjoints();
@@ -116,6 +118,7 @@ void computeHessian(const std::vector<FReal<FReal<T>>> &vec,
                   "RowIterator must dereference to a type that implements a begin() method");
 
     auto v(vec);
+    for (auto &x : v) x = value(value(x));
 
     auto row = first;
     for (unsigned int i = 0; i < domain; i++, row++)
@@ -125,7 +128,8 @@ void computeHessian(const std::vector<FReal<FReal<T>>> &vec,
         for (unsigned int j = 0; j < domain; j++, col++)
         {
             derivative(value(v[j])) = 1.0;
-            FReal<FReal<T>> y = foo(v);
+            auto vcopy(v);  // foo may modify its argument
+            FReal<FReal<T>> y = foo(vcopy);
             *col = derivative(derivative(y));
             derivative(value(v[j])) = 0.0;
         }
diff --git a/src/XAD/Jacobian.hpp b/src/XAD/Jacobian.hpp
index 421d625..d9c8c31 100644
--- a/src/XAD/Jacobian.hpp
+++ b/src/XAD/Jacobian.hpp
@@ -109,9 +109,12 @@ void computeJacobian(const std::vector<FReal<T>> &vec,
     static_assert(detail::has_begin<typename std::iterator_traits<RowIterator>::value_type>::value,
                   "RowIterator must dereference to a type that implements a begin() method");
 
+    // foo gets a copy every time, as it may modify its argument
     auto v(vec);
+    for (auto &x : v) derivative(x) = 0.0;
+    auto vcopy(v);
     unsigned int domain = static_cast<unsigned int>(vec.size()),
-                 codomain = static_cast<unsigned int>(foo(v).size());
+                 codomain = static_cast<unsigned int>(foo(vcopy).size());
 
     if (std::distance(first, last) != codomain)
         throw OutOfRange("Iterator not allocated enough space (codomain)");
@@ -119,9 +122,9 @@ void computeJacobian(const std::vector<FReal<T>> &vec,
     auto row = first;
     for (unsigned int i = 0; i < domain; i++)
     {
-        derivative(v[i]) = 1.0;
-        auto y = foo(v);
-        derivative(v[i]) = 0.0;
+        vcopy = v;
+        derivative(vcopy[i]) = 1.0;
+        auto y = foo(vcopy);
         for (unsigned int j = 0; j < codomain; j++)
         {
             row = first;
-- 
2.43.0


From c6d50d0878200088b63ee514593c34a10565f488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:05 +0000
Subject: [PATCH 16/30] fix: complex *= and /= with a reference to the own real
 part

z *= z.real() multiplied the imaginary part with the already updated real part.
---
 src/XAD/Complex.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index 2957863..a9bced2 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -160,8 +160,9 @@ class complex<xad::ADTypeBase<Scalar, T>> : public xad::detail::complex_impl<T>
 
     XAD_INLINE complex<T>& operator*=(const T& other)
     {
-        base::real() *= other;
-        base::imag() *= other;
+        const T factor(other);  // other may refer to the real part
+        base::real() *= factor;
+        base::imag() *= factor;
         return derived();
     }
 
@@ -176,8 +177,9 @@ class complex<xad::ADTypeBase<Scalar, T>> : public xad::detail::complex_impl<T>
 
     XAD_INLINE complex<T>& operator/=(const T& other)
     {
-        base::real() /= other;
-        base::imag() /= other;
+        const T divisor(other);  // other may refer to the real part
+        base::real() /= divisor;
+        base::imag() /= divisor;
         return derived();
     }
 
-- 
2.43.0


From 265627c97a0d498fd31e84ab2df3fe827848121a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:52 +0000
Subject: [PATCH 17/30] fix: zero derivatives of complex acos, atan and atanh
 at zero

---
 src/XAD/Complex.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index a9bced2..2123912 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -2467,8 +2467,6 @@ XAD_INLINE std::complex<T> atanh_impl(const std::complex<T>& z)
         return std::complex<T>(0.0, 3.141592653589793238462643383279502884197169399 * 0.5);
     if (z.real() == 0.0)
     {
-        if (z.imag() == 0.0)
-            return std::complex<T>(0.0, 0.0);
         if (xad::isnan(z.imag()))
             return std::complex<T>(0.0, std::numeric_limits<nested>::quiet_NaN());
     }
@@ -2517,7 +2515,13 @@ XAD_INLINE std::complex<T> acos_impl(const std::complex<T>& z)
     if (z.real() == 0.0)
     {
         if (z.imag() == 0.0 && !xad::signbit(z.imag()))
-            return std::complex<T>(3.141592653589793238462643383279502884197169399 * 0.5, -0.0);
+        {
+            // series expansion, for the imaginary part -0 with non-zero derivatives
+            std::complex<T> asinz = z + z * z * z / T(6.0);
+            return std::complex<T>(
+                T(3.141592653589793238462643383279502884197169399 * 0.5) - asinz.real(),
+                -asinz.imag());
+        }
         if (xad::isnan(z.imag()))
             return std::complex<T>(3.141592653589793238462643383279502884197169399 * 0.5,
                                    -std::numeric_limits<nested>::quiet_NaN());
-- 
2.43.0


From 383ed3516b956d61dca00d05561246ad81b779cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:01 +0000
Subject: [PATCH 18/30] fix: overflow of complex tanh and tan for large
 arguments

---
 src/XAD/Complex.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index 2123912..6edfeb1 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -2369,7 +2369,14 @@ XAD_INLINE std::complex<T> tanh_impl(const std::complex<T>& z)
         return std::complex<T>(1.0, 0.0);
     if (xad::isnan(z.real()) && z.imag() == 0.0)
         return std::complex<T>(std::numeric_limits<nested>::quiet_NaN(), 0.0);
-    return sinh(z) / cosh(z);
+    // only exponentials of arguments with negative real part, so that nothing overflows
+    if (z.real() > 0.0)
+    {
+        std::complex<T> e = exp(z * T(-2.0));
+        return (T(1.0) - e) / (T(1.0) + e);
+    }
+    std::complex<T> e = exp(z * T(2.0));
+    return (e - T(1.0)) / (e + T(1.0));
 }
 
 template <class T>
-- 
2.43.0


From 269e78b3780d0745d78b126e406abfefa9e35694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:03 +0000
Subject: [PATCH 19/30] fix: cancellation in complex asinh, asin and acos for
 negative real or positive imaginary parts

---
 src/XAD/Complex.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index 6edfeb1..0e4a0cf 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -2405,6 +2405,9 @@ XAD_INLINE std::complex<T> asinh_impl(const std::complex<T>& z)
     if (xad::isinf(z.imag()) && z.imag() > 0.0 && xad::isfinite(z.real()) && z.real() > 0.0)
         return std::complex<T>(std::numeric_limits<nested>::infinity(),
                                3.141592653589793238462643383279502884197169399 * 0.5);
+    // odd function: avoid the cancellation in the sum for negative real parts
+    if (z.real() < 0.0)
+        return -log(sqrt(T(1.0) + (z * z)) - z);
     return log(z + sqrt(T(1.0) + (z * z)));
 }
 
@@ -2571,9 +2574,9 @@ XAD_INLINE std::complex<T> acos_impl(const std::complex<T>& z)
     }
 
     std::complex<T> iz(-z.imag(), z.real());
-    std::complex<T> lnizsqrt = log(iz + sqrt(T(1.0) - (z * z)));
-    std::complex<T> ilnizsqrt(-lnizsqrt.imag(), lnizsqrt.real());
-    return T(3.141592653589793238462643383279502884197169399 * 0.5) + ilnizsqrt;
+    std::complex<T> asinhiz = asinh(iz);
+    std::complex<T> iasinhiz(-asinhiz.imag(), asinhiz.real());
+    return T(3.141592653589793238462643383279502884197169399 * 0.5) + iasinhiz;
 }
 
 template <class T>
-- 
2.43.0


From 73fcbc6d50bf1636eeb7dc0400faa8ed15ba34c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:23 +0000
Subject: [PATCH 20/30] fix: NaN in complex pow of a negative real base

---
 src/XAD/Complex.hpp | 57 ++++++++++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 22 deletions(-)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index 0e4a0cf..10dfc0c 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -332,6 +332,9 @@ template <class T1, class T2>
 XAD_INLINE std::complex<typename xad::ExprTraits<T1>::value_type> polar_impl(const T1& r,
                                                                              const T2& theta);
 
+template <class T>
+XAD_INLINE std::complex<T> pow_impl(const T& x, const std::complex<T>& y);
+
 template <class T>
 XAD_INLINE std::complex<T> sqrt_impl(const std::complex<T>& z);
 
@@ -1831,68 +1834,68 @@ XAD_INLINE complex<xad::AReal<T>> pow(const complex<xad::AReal<T>>& x, unsigned
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(const xad::AReal<T>& x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::pow_impl(x, y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(const T& x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::pow_impl(xad::AReal<T>(x), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(int x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_impl(xad::AReal<T>(T(x)), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(short x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_impl(xad::AReal<T>(T(x)), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(long x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_impl(xad::AReal<T>(T(x)), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(long long x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_impl(xad::AReal<T>(T(x)), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(unsigned x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_impl(xad::AReal<T>(T(x)), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(unsigned short x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_impl(xad::AReal<T>(T(x)), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(unsigned long x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_impl(xad::AReal<T>(T(x)), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(unsigned long long x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_impl(xad::AReal<T>(T(x)), y);
 }
 
 template <class T, class T2>
 XAD_INLINE typename std::enable_if<xad::ExprTraits<T2>::isExpr, complex<xad::AReal<T>>>::type pow(
     const T2& x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::pow_impl(xad::AReal<T>(x), y);
 }
 
 template <class T>
@@ -1984,68 +1987,68 @@ XAD_INLINE typename std::enable_if<xad::ExprTraits<T2>::isExpr, complex<xad::FRe
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(const xad::FReal<T>& x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::pow_impl(x, y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(const T& x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::pow_impl(xad::FReal<T>(x), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(int x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_impl(xad::FReal<T>(T(x)), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(short x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_impl(xad::FReal<T>(T(x)), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(long x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_impl(xad::FReal<T>(T(x)), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(long long x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_impl(xad::FReal<T>(T(x)), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(unsigned long x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_impl(xad::FReal<T>(T(x)), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(unsigned x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_impl(xad::FReal<T>(T(x)), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(unsigned long long x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_impl(xad::FReal<T>(T(x)), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(unsigned short x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_impl(xad::FReal<T>(T(x)), y);
 }
 
 template <class T, class T2>
 XAD_INLINE typename std::enable_if<xad::ExprTraits<T2>::isExpr, complex<xad::FReal<T>>>::type pow(
     const T2& x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::pow_impl(xad::FReal<T>(x), y);
 }
 
 template <class T>
@@ -2266,6 +2269,16 @@ XAD_INLINE std::complex<T> exp_impl(const std::complex<T>& z)
     return std::complex<T>(e * cos(z.imag()), e * sin(z.imag()));
 }
 
+// complex power of a real base
+template <class T>
+XAD_INLINE std::complex<T> pow_impl(const T& x, const std::complex<T>& y)
+{
+    if (x < 0.0)
+        return exp_impl(
+            std::complex<T>(log(-x), T(3.141592653589793238462643383279502884197169399)) * y);
+    return exp_impl(log(x) * y);
+}
+
 template <class T1, class T2>
 XAD_INLINE std::complex<typename xad::ExprTraits<T1>::value_type> polar_impl(const T1& r,
                                                                              const T2& theta)
-- 
2.43.0


From e409e4be3ce7eb7ec71492dc9ac931c2906b9432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:38 +0000
Subject: [PATCH 21/30] fix: derivatives of complex pow with an integer
 exponent at zero

---
 src/XAD/Complex.hpp | 54 +++++++++++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 16 deletions(-)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index 10dfc0c..1aaa519 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -335,6 +335,9 @@ XAD_INLINE std::complex<typename xad::ExprTraits<T1>::value_type> polar_impl(con
 template <class T>
 XAD_INLINE std::complex<T> pow_impl(const T& x, const std::complex<T>& y);
 
+template <class T, class C, class I>
+XAD_INLINE C powint_impl(const C& x, I y);
+
 template <class T>
 XAD_INLINE std::complex<T> sqrt_impl(const std::complex<T>& z);
 
@@ -1786,49 +1789,49 @@ XAD_INLINE typename std::enable_if<xad::ExprTraits<T2>::isExpr, complex<xad::ARe
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(const complex<xad::AReal<T>>& x, int y)
 {
-    return xad::detail::exp_impl(log(x) * T(y));
+    return xad::detail::powint_impl<T>(x, y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(const complex<xad::AReal<T>>& x, short y)
 {
-    return xad::detail::exp_impl(log(x) * T(y));
+    return xad::detail::powint_impl<T>(x, y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(const complex<xad::AReal<T>>& x, long y)
 {
-    return xad::detail::exp_impl(log(x) * T(y));
+    return xad::detail::powint_impl<T>(x, y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(const complex<xad::AReal<T>>& x, long long y)
 {
-    return xad::detail::exp_impl(log(x) * T(y));
+    return xad::detail::powint_impl<T>(x, y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(const complex<xad::AReal<T>>& x, unsigned y)
 {
-    return xad::detail::exp_impl(log(x) * T(y));
+    return xad::detail::powint_impl<T>(x, y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(const complex<xad::AReal<T>>& x, unsigned short y)
 {
-    return xad::detail::exp_impl(log(x) * T(y));
+    return xad::detail::powint_impl<T>(x, y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(const complex<xad::AReal<T>>& x, unsigned long y)
 {
-    return xad::detail::exp_impl(log(x) * T(y));
+    return xad::detail::powint_impl<T>(x, y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(const complex<xad::AReal<T>>& x, unsigned long long y)
 {
-    return xad::detail::exp_impl(log(x) * T(y));
+    return xad::detail::powint_impl<T>(x, y);
 }
 
 template <class T>
@@ -1932,49 +1935,49 @@ XAD_INLINE complex<xad::FReal<T>> pow(const complex<xad::FReal<T>>& x, const T&
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(const complex<xad::FReal<T>>& x, int y)
 {
-    return xad::detail::exp_impl(log(x) * T(y));
+    return xad::detail::powint_impl<T>(x, y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(const complex<xad::FReal<T>>& x, short y)
 {
-    return xad::detail::exp_impl(log(x) * T(y));
+    return xad::detail::powint_impl<T>(x, y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(const complex<xad::FReal<T>>& x, long y)
 {
-    return xad::detail::exp_impl(log(x) * T(y));
+    return xad::detail::powint_impl<T>(x, y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(const complex<xad::FReal<T>>& x, long long y)
 {
-    return xad::detail::exp_impl(log(x) * T(y));
+    return xad::detail::powint_impl<T>(x, y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(const complex<xad::FReal<T>>& x, unsigned y)
 {
-    return xad::detail::exp_impl(log(x) * T(y));
+    return xad::detail::powint_impl<T>(x, y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(const complex<xad::FReal<T>>& x, unsigned short y)
 {
-    return xad::detail::exp_impl(log(x) * T(y));
+    return xad::detail::powint_impl<T>(x, y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(const complex<xad::FReal<T>>& x, unsigned long y)
 {
-    return xad::detail::exp_impl(log(x) * T(y));
+    return xad::detail::powint_impl<T>(x, y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(const complex<xad::FReal<T>>& x, unsigned long long y)
 {
-    return xad::detail::exp_impl(log(x) * T(y));
+    return xad::detail::powint_impl<T>(x, y);
 }
 
 template <class T, class T2>
@@ -2269,6 +2272,25 @@ XAD_INLINE std::complex<T> exp_impl(const std::complex<T>& z)
     return std::complex<T>(e * cos(z.imag()), e * sin(z.imag()));
 }
 
+// complex power with an integer exponent
+template <class T, class C, class I>
+XAD_INLINE C powint_impl(const C& x, I y)
+{
+    if (x.real() == 0.0 && x.imag() == 0.0 && y >= 0)
+    {
+        // log is singular at zero, but the non-negative integer powers are differentiable
+        C res(T(1.0)), x2 = x;
+        for (; y > 0; y /= 2)
+        {
+            if (y % 2 != 0)
+                res *= x2;
+            x2 *= x2;
+        }
+        return res;
+    }
+    return exp_impl(log(x) * T(y));
+}
+
 // complex power of a real base
 template <class T>
 XAD_INLINE std::complex<T> pow_impl(const T& x, const std::complex<T>& y)
-- 
2.43.0


From 8521425b77b3aa5166d0116703aa9ec11afb21c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:41 +0000
Subject: [PATCH 22/30] fix: complex acosh on the wrong side of its branch cut
 after rounding

---
 src/XAD/Complex.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index 1aaa519..c0ae5c9 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -2488,7 +2488,8 @@ XAD_INLINE std::complex<T> acosh_impl(const std::complex<T>& z)
         return std::complex<T>(std::numeric_limits<nested>::infinity(),
                                std::numeric_limits<nested>::quiet_NaN());
 
-    return log(z + sqrt(z + T(1.0)) * sqrt(z - T(1.0)));
+    // both square roots are in the right half plane, also after rounding on the branch cut
+    return log(sqrt((z + T(1.0)) * T(0.5)) + sqrt((z - T(1.0)) * T(0.5))) * T(2.0);
 }
 
 template <class T>
-- 
2.43.0


From f815b26ec765ca9ae01cd5977d9993b602c2f3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:49 +0000
Subject: [PATCH 23/30] fix: resetTo after clearDerivativesAfter dropped
 reusable slots still referred to

---
 src/Tape.cpp | 22 ----------------------
 1 file changed, 22 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 9f71819..e730e0a 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -790,28 +790,6 @@ void Tape<T>::resetTo(position_type pos)
         LOG_DEBUG("removing " << std::distance(newend, checkpoints_.end()) << " checkpoints");
         checkpoints_.erase(newend, checkpoints_.end());
     }
-#ifdef XAD_TAPE_REUSE_SLOTS
-    if (!reusable_ranges_.empty())
-    {
-        auto it = reusable_ranges_.end();
-        --it;
-        while (!reusable_ranges_.empty() && it->second() >= currentRec_->maxDerivative_)
-        {
-            if (it->first() >= currentRec_->maxDerivative_)
-            {
-                auto it2 = it;
-                --it2;
-                reusable_ranges_.erase(it);
-                it = it2;
-            }
-            else
-            {
-                it->second(currentRec_->maxDerivative_);
-            }
-        }
-    }
-#endif
-
     // clearDerivatives(getPosition());
     // std::cout << "reset to " << pos << "\n";
 }
-- 
2.43.0


From 4b1754bf71cecaa602502f61ac9d1685afb3eb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:03 +0000
Subject: [PATCH 24/30] fix: heap overflow when re-using slots after
 clearDerivativesAfter

---
 src/Tape.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index e730e0a..e9807a9 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -155,6 +155,8 @@ typename Tape<T>::slot_type Tape<T>::registerVariableReuseSlots()
     // insert in a reusable slot
     auto& first_range = *currentRec_->startRange_;
     auto ret = first_range.insert();
+    // may be above it after clearDerivativesAfter
+    currentRec_->maxDerivative_ = (std::max)(ret + 1, currentRec_->maxDerivative_);
     if (first_range.isClosed())
     {
         if (currentRec_->latestRange_ == currentRec_->startRange_)
-- 
2.43.0


From 0d4e0ad949fb0ad3c9d5757f91bb7f724b7f6067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:41 +0000
Subject: [PATCH 25/30] fix: heap overflow in computeAdjoints after
 clearDerivativesAfter

---
 src/Tape.cpp     | 6 +++++-
 src/XAD/Tape.hpp | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index e9807a9..89e7fec 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -400,6 +400,7 @@ void Tape<T>::newRecording()
     checkpoints_.clear();
     foldSubrecordings();
     currentRec_->maxDerivative_ = currentRec_->iDerivative_ + 1;
+    currentRec_->peakDerivative_ = currentRec_->maxDerivative_;
     statement_.push_back(std::make_pair(size_type(slot_.size()), slot_type(INVALID_SLOT)));
     currentRec_->derivativesInitialized_ = false;
 }
@@ -580,7 +581,10 @@ void Tape<T>::unregisterOutside(slot_type slot)
 template <class T>
 void Tape<T>::computeAdjointsTo(position_type pos)
 {
-    // more variables may have been registered since the derivatives were last accessed
+    // more variables may have been registered since the derivatives were last accessed, and
+    // clearDerivativesAfter may have removed some that are used in the statements
+    currentRec_->maxDerivative_ =
+        (std::max)(currentRec_->maxDerivative_, currentRec_->peakDerivative_);
     initDerivatives();
 
     position_type start = position_type(statement_.size() - 1);
diff --git a/src/XAD/Tape.hpp b/src/XAD/Tape.hpp
index d919ad9..a82e1aa 100644
--- a/src/XAD/Tape.hpp
+++ b/src/XAD/Tape.hpp
@@ -258,6 +258,8 @@ class Tape
         ++currentRec_->iDerivative_;
         currentRec_->maxDerivative_ =
             (std::max)(currentRec_->iDerivative_, currentRec_->maxDerivative_);
+        currentRec_->peakDerivative_ =
+            (std::max)(currentRec_->iDerivative_, currentRec_->peakDerivative_);
         return currentRec_->iDerivative_ - 1;
     }
 
@@ -295,6 +297,7 @@ class Tape
             : numDerivatives_(),
               iDerivative_(),
               maxDerivative_(),
+              peakDerivative_(),
               statementStartPos_(1),
               opStartPos_(),
               startDerivative_(),
@@ -310,6 +313,7 @@ class Tape
         slot_type numDerivatives_;
         slot_type iDerivative_;
         slot_type maxDerivative_;
+        slot_type peakDerivative_;  // highest number of derivatives used in the recording
         slot_type statementStartPos_;
         slot_type opStartPos_;
         slot_type startDerivative_;
-- 
2.43.0


From 665fa968be14571e6a3ab8a70f108a841f39c4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:06 +0000
Subject: [PATCH 26/30] fix: clearDerivativesAfter dropped adjoints of
 variables used before the position

---
 src/Tape.cpp     | 28 +++++++++++++++++++++++++---
 src/XAD/Tape.hpp |  4 +++-
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 89e7fec..3a5cb92 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -375,6 +375,7 @@ void Tape<T>::newNestedRecording()
     newr.opStartPos_ = slot_type(multiplier_.size());
     newr.derivativesInitialized_ = false;
     newr.startDerivative_ = currentRec_->maxDerivative_;
+    newr.firstDerivative_ = currentRec_->maxDerivative_;
     nestedRecordings_.push(newr);
 
     currentRec_ = &nestedRecordings_.top();
@@ -401,6 +402,7 @@ void Tape<T>::newRecording()
     foldSubrecordings();
     currentRec_->maxDerivative_ = currentRec_->iDerivative_ + 1;
     currentRec_->peakDerivative_ = currentRec_->maxDerivative_;
+    currentRec_->firstDerivative_ = currentRec_->iDerivative_;
     statement_.push_back(std::make_pair(size_type(slot_.size()), slot_type(INVALID_SLOT)));
     currentRec_->derivativesInitialized_ = false;
 }
@@ -837,9 +839,29 @@ bool Tape<T>::haveCallbacks() const
 template <class T>
 void Tape<T>::clearDerivativesAfter(position_type pos)
 {
-    auto& st = statement_[pos];
-    derivatives_.resize(st.second + 1);
-    currentRec_->maxDerivative_ = st.second + 1;
+    // keep all variables that were registered before the recording or used up to the position
+    std::vector<bool> keep(currentRec_->firstDerivative_, true);
+    position_type end = position_type(statement_.size());
+    for (position_type i = currentRec_->statementStartPos_; i <= pos && i < end; ++i)
+    {
+        slot_type slot = statement_[i].second;
+        if (slot == INVALID_SLOT)
+            continue;
+        if (slot >= keep.size())
+            keep.resize(slot + 1, false);
+        keep[slot] = true;
+    }
+    slot_type num = slot_type(keep.size());
+    for (slot_type i = 0; i < num && i < slot_type(derivatives_.size()); ++i)
+    {
+        if (!keep[i])
+            derivatives_[i] = T();
+    }
+    if (num < currentRec_->maxDerivative_)
+    {
+        derivatives_.resize(num);
+        currentRec_->maxDerivative_ = num;
+    }
 }
 
 template <class T>
diff --git a/src/XAD/Tape.hpp b/src/XAD/Tape.hpp
index a82e1aa..6059515 100644
--- a/src/XAD/Tape.hpp
+++ b/src/XAD/Tape.hpp
@@ -298,6 +298,7 @@ class Tape
               iDerivative_(),
               maxDerivative_(),
               peakDerivative_(),
+              firstDerivative_(),
               statementStartPos_(1),
               opStartPos_(),
               startDerivative_(),
@@ -313,7 +314,8 @@ class Tape
         slot_type numDerivatives_;
         slot_type iDerivative_;
         slot_type maxDerivative_;
-        slot_type peakDerivative_;  // highest number of derivatives used in the recording
+        slot_type peakDerivative_;   // highest number of derivatives used in the recording
+        slot_type firstDerivative_;  // number of derivatives at the start of the recording
         slot_type statementStartPos_;
         slot_type opStartPos_;
         slot_type startDerivative_;
-- 
2.43.0


From a3600f1be5707ad0c08e6d1a2ce9662ef5143706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:57 +0000
Subject: [PATCH 27/30] fix: adjoint computeJacobian for functions that move or
 swap their inputs

The derivatives were read from the vector passed to the function, so swapping
its elements exchanged columns and moving from it read out of bounds. The
function gets a copy now, as in the other modes.
---
 src/XAD/Jacobian.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/XAD/Jacobian.hpp b/src/XAD/Jacobian.hpp
index d9c8c31..c2154ea 100644
--- a/src/XAD/Jacobian.hpp
+++ b/src/XAD/Jacobian.hpp
@@ -68,7 +68,8 @@ void computeJacobian(const std::vector<AReal<T>> &vec,
 
     tape->registerInputs(v);
     tape->newRecording();
-    auto y = foo(v);
+    auto vcopy(v);  // foo may modify its argument
+    auto y = foo(vcopy);
     unsigned int domain = static_cast<unsigned int>(vec.size()),
                  codomain = static_cast<unsigned int>(y.size());
     if (std::distance(first, last) != codomain)
-- 
2.43.0


From 008959975cfbfd2500f7999756ded233b3269a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:16 +0000
Subject: [PATCH 28/30] fix: computeJacobian (vector interface) for functions
 that resize their argument

The column count was read from the vector after the function had received it.
---
 src/XAD/Jacobian.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/XAD/Jacobian.hpp b/src/XAD/Jacobian.hpp
index c2154ea..41af2ed 100644
--- a/src/XAD/Jacobian.hpp
+++ b/src/XAD/Jacobian.hpp
@@ -42,7 +42,7 @@ std::vector<std::vector<T>> computeJacobian(
     Tape<T> *tape = Tape<T>::getActive())
 {
     auto v(vec);
-    std::vector<std::vector<T>> matrix(foo(v).size(), std::vector<T>(v.size(), 0.0));
+    std::vector<std::vector<T>> matrix(foo(v).size(), std::vector<T>(vec.size(), 0.0));
     computeJacobian(vec, foo, begin(matrix), end(matrix), tape);
     return matrix;
 }
@@ -94,7 +94,7 @@ std::vector<std::vector<T>> computeJacobian(
     std::function<std::vector<FReal<T>>(std::vector<FReal<T>> &)> foo)
 {
     auto v(vec);
-    std::vector<std::vector<T>> matrix(foo(v).size(), std::vector<T>(v.size(), 0.0));
+    std::vector<std::vector<T>> matrix(foo(v).size(), std::vector<T>(vec.size(), 0.0));
     computeJacobian(vec, foo, begin(matrix), end(matrix));
     return matrix;
 }
-- 
2.43.0


From 37633a6fb1f99c8f46c500c8d9c8d43a66306929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:30 +0000
Subject: [PATCH 29/30] fix: wrong derivative of frexp when the exponent is
 overwritten before recording

---
 src/XAD/UnaryMathFunctors.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index 6b16d1c..4038c64 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -214,16 +214,21 @@ struct ldexp_op
 template <class Scalar>
 struct frexp_op
 {
-    XAD_INLINE explicit frexp_op(int* exp) : exp_(exp) {}
-    XAD_INLINE Scalar operator()(const Scalar& a) const { return frexp(a, exp_); }
+    XAD_INLINE explicit frexp_op(int* exp) : exp_(exp), last_() {}
+    XAD_INLINE Scalar operator()(const Scalar& a) const
+    {
+        Scalar ret = frexp(a, exp_);
+        last_ = *exp_;
+        return ret;
+    }
     XAD_INLINE Scalar derivative(const Scalar&) const
     {
-        // we assume that operator() and derivative are called in succession and in
-        // this order, which is always the case in XAD. Therefore we can read the
-        // value in *exp_ here to calculate the derivative
-        return Scalar(std::ldexp(1.0, -*exp_));
+        // operator() is always called before derivative in XAD. The exponent is stored, as *exp_
+        // may have been changed in the meantime (e.g. by another frexp in the same expression)
+        return Scalar(std::ldexp(1.0, -last_));
     }
     int* exp_;
+    mutable int last_;
 };
 
 namespace detail
-- 
2.43.0


From d82a3e48a9b41472898b7384eb5aea14a3de99b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:17 +0000
Subject: [PATCH 30/30] fix: ChunkContainer iterators beyond the second chunk
 and out-of-bounds read in the last one

---
 src/XAD/ChunkContainer.hpp | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/src/XAD/ChunkContainer.hpp b/src/XAD/ChunkContainer.hpp
index 9a7e32d..a51c8ae 100644
--- a/src/XAD/ChunkContainer.hpp
+++ b/src/XAD/ChunkContainer.hpp
@@ -326,22 +326,16 @@ class ChunkContainer
 
     struct iterator
     {
-        pointer point_;
-        pointer next_chunk_;
-        int space_left_;
-        explicit iterator(pointer point = nullptr, int space_left = 0, pointer next = NULL)
-            : point_(point), next_chunk_(next), space_left_(space_left)
+        ChunkContainer* cont_;
+        size_type idx_;
+        explicit iterator(ChunkContainer* cont = nullptr, size_type idx = 0)
+            : cont_(cont), idx_(idx)
         {
         }
 
         iterator& operator++()
         {
-            ++point_;
-            if (--space_left_ == 0)
-            {
-                point_ = next_chunk_;
-                space_left_ = chunk_size;
-            }
+            ++idx_;
             return *this;
         }
         iterator operator++(int)
@@ -350,19 +344,13 @@ class ChunkContainer
             ++(*this);
             return r;
         }
-        reference operator*() const { return *point_; }
-        pointer operator->() const { return point_; }
-        bool operator==(const iterator& o) const { return point_ == o.point_; }
-        bool operator!=(const iterator& o) const { return point_ != o.point_; }
+        reference operator*() const { return (*cont_)[idx_]; }
+        pointer operator->() const { return &(*cont_)[idx_]; }
+        bool operator==(const iterator& o) const { return cont_ == o.cont_ && idx_ == o.idx_; }
+        bool operator!=(const iterator& o) const { return !(*this == o); }
     };
 
-    iterator iterator_at(size_type i)
-    {
-        auto nc = getHighPart(i);
-        auto lc = getLowPart(i);
-        return iterator(&reinterpret_cast<value_type*>(chunkList_[nc])[lc], int(chunk_size - lc),
-                        reinterpret_cast<value_type*>(*(&chunkList_[nc] + 1)));
-    }
+    iterator iterator_at(size_type i) { return iterator(this, i); }
 
     void assign(size_type s, const_reference v = value_type())
     {
-- 
2.43.0

