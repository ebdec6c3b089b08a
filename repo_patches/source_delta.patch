From c6387aec3e379cec3cbe57fb413e0c1fb5d141d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 01/28] fix: n-ary OR is unknown when no operand is true and
 some operand is unknown

---
 src/expr/BooleanOperators.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/expr/BooleanOperators.cc b/src/expr/BooleanOperators.cc
index d7d2f73..25ad1f5 100644
--- a/src/expr/BooleanOperators.cc
+++ b/src/expr/BooleanOperators.cc
@@ -100,7 +100,7 @@ namespace PLEXIL
   bool BooleanOr::operator()(Boolean &result, Function const &args) const
   {
     size_t const n = args.size();
-    bool anyKnown = false;
+    bool allKnown = true;
     for (size_t i = 0; i < n; ++i) {
       bool temp;
       if (args[i]->getValue(temp)) {
@@ -109,12 +109,13 @@ namespace PLEXIL
           result = true;
           return true;
         }
-        anyKnown = true; // but no true value yet
       }
+      else
+        allKnown = false; // may still be true if another arg is
     }
-    if (anyKnown)
+    if (allKnown)
       result = false; // or we would have returned above
-    return anyKnown;
+    return allKnown;
   }
 
   //
-- 
2.43.0


From 7469e86bf078b12a687f1fbf791bfad94cd197e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 02/28] fix: n-ary XOR tests operand known flags the right way
 round

---
 src/expr/BooleanOperators.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/BooleanOperators.cc b/src/expr/BooleanOperators.cc
index 25ad1f5..b66a164 100644
--- a/src/expr/BooleanOperators.cc
+++ b/src/expr/BooleanOperators.cc
@@ -224,7 +224,7 @@ namespace PLEXIL
     for (size_t i = 0; i < n; ++i) {
       bool temp2;
       // Return unknown if any arg is unknown
-      if (args[i]->getValue(temp2))
+      if (!args[i]->getValue(temp2))
         return false;
       temp1 = (temp1 != temp2);
     }
-- 
2.43.0


From 600c3dbef3dd2620c6ed6212b9eb3868151adb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:47 +0000
Subject: [PATCH 03/28] fix: integer division and modulo of the most negative
 integer by -1 no longer trap

---
 src/expr/ArithmeticOperators.cc | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/expr/ArithmeticOperators.cc b/src/expr/ArithmeticOperators.cc
index 075771d..cbe6e3b 100644
--- a/src/expr/ArithmeticOperators.cc
+++ b/src/expr/ArithmeticOperators.cc
@@ -29,6 +29,7 @@
 #include "PlanError.hh"
 
 #include <cmath>
+#include <limits>
 
 namespace PLEXIL
 {
@@ -228,6 +229,19 @@ namespace PLEXIL
     return true;
   }
 
+  // The quotient of the most negative integer and -1 is not representable.
+  template <>
+  bool Division<Integer>::calc(Integer &result, Expression const *arg0, Expression const *arg1) const
+  {
+    Integer temp0, temp1;
+    if (!(arg0->getValue(temp0) && arg1->getValue(temp1))
+        || temp1 == 0
+        || (temp1 == -1 && temp0 == std::numeric_limits<Integer>::min()))
+      return false;
+    result = temp0 / temp1;
+    return true;
+  }
+
   //
   // Modulo
   //
@@ -252,7 +266,8 @@ namespace PLEXIL
     if (!(arg0->getValue(temp0) && arg1->getValue(temp1))
         || temp1 == 0)
       return false;
-    result = temp0 % temp1;
+    // Avoid overflow trap on most negative integer
+    result = (temp1 == -1) ? 0 : temp0 % temp1;
     return true;
   }
 
-- 
2.43.0


From 559e2eaab1d88f5d8e25274bd02852ba6b0df81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 04/28] fix: conversion of NaN to Integer is unknown instead of
 undefined behaviour

---
 src/expr/ConversionOperators.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/expr/ConversionOperators.cc b/src/expr/ConversionOperators.cc
index c790d74..ac37e5d 100644
--- a/src/expr/ConversionOperators.cc
+++ b/src/expr/ConversionOperators.cc
@@ -40,13 +40,13 @@ namespace PLEXIL
   //
   // Helper function for Real -> int conversions
   // Returns true if conversion successful,
-  // false if x is out of range or not an integer.
+  // false if x is out of range, NaN, or not an integer.
   //
   static bool RealToInt(Real reel, Integer &result)
   {
-    if (reel < std::numeric_limits<Integer>::min()
-        || reel > std::numeric_limits<Integer>::max())
-      return false; // out of range
+    if (!(reel >= std::numeric_limits<Integer>::min()
+          && reel <= std::numeric_limits<Integer>::max()))
+      return false; // out of range, or not a number
     Integer tempResult = (Integer) reel;
     Real fraction = (Real) (reel - (Real) tempResult);
     // TODO: allow fraction to be +/- epsilon
-- 
2.43.0


From ea52d5f1e29ff6f4d9a201ea6c4090cb25738e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:54 +0000
Subject: [PATCH 05/28] fix: Command node activated its exit condition twice on
 entry to EXECUTING

---
 src/exec/CommandNode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exec/CommandNode.cc b/src/exec/CommandNode.cc
index cf52343..2379c29 100644
--- a/src/exec/CommandNode.cc
+++ b/src/exec/CommandNode.cc
@@ -201,8 +201,8 @@ namespace PLEXIL
   {
     activateLocalVariables();
 
+    // From WAITING, AncestorExit, AncestorInvariant, Exit are already active
     activateInvariantCondition();
-    activateExitCondition();
     activateEndCondition();
   }
 
-- 
2.43.0


From 64dc130d09c6cb17b7d34ada43d5c87f2e06c18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:54 +0000
Subject: [PATCH 06/28] fix: release mutexes when a node goes from EXECUTING or
 FAILING to FINISHED

---
 src/exec/NodeImpl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/exec/NodeImpl.cc b/src/exec/NodeImpl.cc
index 87d8b75..ca978d6 100644
--- a/src/exec/NodeImpl.cc
+++ b/src/exec/NodeImpl.cc
@@ -1376,8 +1376,8 @@ namespace PLEXIL
   // Wrapped by AssignmentNode
   void NodeImpl::transitionToFinished()
   {
-    // If transitioning from FAILING,, Release any mutexes held by this node
-    if (m_usingMutexes && m_state == WAITING_STATE) {
+    // If transitioning from EXECUTING or FAILING, release any mutexes held by this node
+    if (m_usingMutexes && m_state != WAITING_STATE) {
       for (Mutex *m : *m_usingMutexes)
         m->release(this);
     }
-- 
2.43.0


From 4ec15c6f84c3abbacdb8efa6e433d3ce2fdd89e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:18 +0000
Subject: [PATCH 07/28] fix: real to time conversion no longer leaves the
 result undefined out of range

---
 src/utils/timespec-utils.cc | 8 +++++---
 src/utils/timeval-utils.cc  | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/utils/timespec-utils.cc b/src/utils/timespec-utils.cc
index 6caaac8..3fd8d04 100644
--- a/src/utils/timespec-utils.cc
+++ b/src/utils/timespec-utils.cc
@@ -106,8 +106,10 @@ struct timespec operator-(const struct timespec& ts1, const struct timespec& ts2
 
 void doubleToTimespec(double dbl, timespec& result)
 {
-  if (dbl > std::numeric_limits<time_t>::max()
-      || dbl < std::numeric_limits<time_t>::min()) {
+  // N.B. max() is not representable as a double; the conversion rounds it up
+  // to the first value which is out of range. NaN fails both comparisons.
+  if (!(dbl < (double) std::numeric_limits<time_t>::max()
+        && dbl >= (double) std::numeric_limits<time_t>::min())) {
     // TODO: report out-of-range error
     return;
   }
@@ -119,7 +121,7 @@ void doubleToTimespec(double dbl, timespec& result)
 
 struct timespec doubleToTimespec(double dbl)
 {
-  timespec result;
+  timespec result = {0, 0};
   doubleToTimespec(dbl, result);
   return result;
 }
diff --git a/src/utils/timeval-utils.cc b/src/utils/timeval-utils.cc
index aa94f4c..062c1d8 100644
--- a/src/utils/timeval-utils.cc
+++ b/src/utils/timeval-utils.cc
@@ -116,8 +116,10 @@ struct timeval operator- (const struct timeval& tv1, const struct timeval& tv2)
 
 void doubleToTimeval(double dbl, timeval& result)
 {
-  if (dbl > std::numeric_limits<time_t>::max()
-      || dbl < std::numeric_limits<time_t>::min()) {
+  // N.B. max() is not representable as a double; the conversion rounds it up
+  // to the first value which is out of range. NaN fails both comparisons.
+  if (!(dbl < (double) std::numeric_limits<time_t>::max()
+        && dbl >= (double) std::numeric_limits<time_t>::min())) {
     // TODO: report out-of-range error
     return;
   }
@@ -134,7 +136,7 @@ void doubleToTimeval(double dbl, timeval& result)
 
 struct timeval doubleToTimeval(double dbl)
 {
-  timeval result;
+  timeval result = {0, 0};
   doubleToTimeval(dbl, result);
   return result;
 }
-- 
2.43.0


From 449704ebff9c5c7b835a155741b81b5627276ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:48 +0000
Subject: [PATCH 08/28] fix: LinkedQueue::insert_after records the inserted
 item as tail when appending

---
 src/utils/LinkedQueue.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/LinkedQueue.hh b/src/utils/LinkedQueue.hh
index d3bd1ed..a599059 100644
--- a/src/utils/LinkedQueue.hh
+++ b/src/utils/LinkedQueue.hh
@@ -191,7 +191,7 @@ namespace PLEXIL
         *nxtPtr = item;
         *(item->nextPtr()) = nxt;
         if (!nxt)
-          m_tail = nxt;
+          m_tail = item; // item is the new end of the queue
         ++m_count;
       }
       return iterator(item);
-- 
2.43.0


From cf524d2c2767a44b21800ecde218a581361f29da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:48 +0000
Subject: [PATCH 09/28] fix: cached unknown values compare equal only to
 unknown values

CachedValueImpl<T>::operator== returned true when the left value was
unknown and the right one known, and failed to treat two unknowns of
different types as equal.
---
 src/intfc/CachedValueImpl.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/intfc/CachedValueImpl.cc b/src/intfc/CachedValueImpl.cc
index 57fd294..91b41d8 100644
--- a/src/intfc/CachedValueImpl.cc
+++ b/src/intfc/CachedValueImpl.cc
@@ -437,7 +437,7 @@ namespace PLEXIL
   template <typename T>
   bool CachedValueImpl<T>::operator==(CachedValue const &other) const
   {
-    if (!m_known && other.isKnown())
+    if (!m_known && !other.isKnown())
       return true;
     CachedValueImpl<T> const *otherPtr = 
       dynamic_cast<CachedValueImpl<T> const *>(&other);
@@ -451,7 +451,7 @@ namespace PLEXIL
 
   bool CachedValueImpl<Integer>::operator==(CachedValue const &other) const
   {
-    if (!m_known && other.isKnown())
+    if (!m_known && !other.isKnown())
       return true;
     CachedValueImpl<Integer> const *otherPtr = 
       dynamic_cast<CachedValueImpl<Integer> const *>(&other);
@@ -465,7 +465,7 @@ namespace PLEXIL
 
   bool CachedValueImpl<Real>::operator==(CachedValue const &other) const
   {
-    if (!m_known && other.isKnown())
+    if (!m_known && !other.isKnown())
       return true;
     CachedValueImpl<Real> const *otherPtr = 
       dynamic_cast<CachedValueImpl<Real> const *>(&other);
@@ -479,7 +479,7 @@ namespace PLEXIL
 
   bool CachedValueImpl<String>::operator==(CachedValue const &other) const
   {
-    if (!m_known && other.isKnown())
+    if (!m_known && !other.isKnown())
       return true;
     CachedValueImpl<String> const *otherPtr = 
       dynamic_cast<CachedValueImpl<String> const *>(&other);
@@ -494,7 +494,7 @@ namespace PLEXIL
   template <typename T>
   bool CachedValueImpl<ArrayImpl<T> >::operator==(CachedValue const &other) const
   {
-    if (!m_known && other.isKnown())
+    if (!m_known && !other.isKnown())
       return true;
     CachedValueImpl<ArrayImpl<T> > const *otherPtr = 
       dynamic_cast<CachedValueImpl<ArrayImpl<T> > const *>(&other);
-- 
2.43.0


From e43672726c2a83ff8ecd31bbe7dd857888a5fcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:39 +0000
Subject: [PATCH 10/28] fix: array equality ignores the leftover contents of
 unknown elements

Two arrays with the same known elements compared unequal when an unknown
element had been known with different values before; operator< already
treated them as equal.
---
 src/value/ArrayImpl.cc | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/value/ArrayImpl.cc b/src/value/ArrayImpl.cc
index f3bf677..6daa98d 100644
--- a/src/value/ArrayImpl.cc
+++ b/src/value/ArrayImpl.cc
@@ -36,6 +36,20 @@
 namespace PLEXIL
 {
 
+  // Internal function
+  // Compare only those elements which are known.
+  // Presumes all vectors are the same size.
+  template <typename T>
+  static bool knownElementsEqual(std::vector<bool> const &known,
+                                 std::vector<T> const &avec,
+                                 std::vector<T> const &bvec)
+  {
+    for (size_t i = 0; i < known.size(); ++i)
+      if (known[i] && avec[i] != bvec[i])
+        return false;
+    return true;
+  }
+
   template <typename T>
   ArrayImpl<T>::ArrayImpl()
     : Array()
@@ -309,14 +323,14 @@ namespace PLEXIL
   {
     if (!(this->getKnownVector() == other.getKnownVector()))
       return false;
-    return m_contents == other.m_contents;
+    return knownElementsEqual(this->getKnownVector(), m_contents, other.m_contents);
   }
 
   bool ArrayImpl<String>::operator==(ArrayImpl<String> const &other) const
   {
     if (!(this->getKnownVector() == other.getKnownVector()))
       return false;
-    return m_contents == other.m_contents;
+    return knownElementsEqual(this->getKnownVector(), m_contents, other.m_contents);
   }
 
   template <typename T>
@@ -425,7 +439,7 @@ namespace PLEXIL
     std::vector<T> const *avec, *bvec;
     arya.getContentsVector(avec);
     aryb.getContentsVector(bvec);
-    return *avec == *bvec;
+    return knownElementsEqual(arya.getKnownVector(), *avec, *bvec);
   }
 
   // Generic
-- 
2.43.0


From 81bceeaf7ee2b2f07679c0eb5f51f04997912efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:39 +0000
Subject: [PATCH 11/28] fix: read array sizes as unsigned bytes when
 deserializing

An array of 128 or more elements was read back with a nonsensical size
where char is signed.
---
 src/value/ArrayImpl.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/value/ArrayImpl.cc b/src/value/ArrayImpl.cc
index 6daa98d..db5e4e3 100644
--- a/src/value/ArrayImpl.cc
+++ b/src/value/ArrayImpl.cc
@@ -941,9 +941,9 @@ namespace PLEXIL
       return nullptr; // not an appropriate array
 
     // Get 3 bytes of size
-    size_t siz = (size_t) *buf++; siz = siz << 8;
-    siz += (size_t) *buf++; siz = siz << 8;
-    siz += (size_t) *buf++;
+    size_t siz = (size_t) (unsigned char) *buf++; siz = siz << 8;
+    siz += (size_t) (unsigned char) *buf++; siz = siz << 8;
+    siz += (size_t) (unsigned char) *buf++;
     
     this->resize(siz);
     
@@ -962,9 +962,9 @@ namespace PLEXIL
       return nullptr; // not a Boolean array
 
     // Get 3 bytes of size
-    size_t siz = (size_t) *buf++; siz = siz << 8;
-    siz += (size_t) *buf++; siz = siz << 8;
-    siz += (size_t) *buf++;
+    size_t siz = (size_t) (unsigned char) *buf++; siz = siz << 8;
+    siz += (size_t) (unsigned char) *buf++; siz = siz << 8;
+    siz += (size_t) (unsigned char) *buf++;
     this->resize(siz);
     
     buf = deserializeBoolVector(this->m_known, buf);
@@ -980,9 +980,9 @@ namespace PLEXIL
       return nullptr; // not an appropriate array
 
     // Get 3 bytes of size
-    size_t siz = (size_t) *buf++; siz = siz << 8;
-    siz += (size_t) *buf++; siz = siz << 8;
-    siz += (size_t) *buf++;
+    size_t siz = (size_t) (unsigned char) *buf++; siz = siz << 8;
+    siz += (size_t) (unsigned char) *buf++; siz = siz << 8;
+    siz += (size_t) (unsigned char) *buf++;
     
     this->resize(siz);
     
-- 
2.43.0


From aeb371eb771847479b560f81f17d2d04576e903b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:15 +0000
Subject: [PATCH 12/28] fix: unknown integer and unknown real order as equal,
 as they compare

Value::equals treats an unknown Integer and an unknown Real as equal while
Value::lessThan put the integer first.
---
 src/value/Value.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/value/Value.cc b/src/value/Value.cc
index 9ea0967..d585e6a 100644
--- a/src/value/Value.cc
+++ b/src/value/Value.cc
@@ -1082,7 +1082,7 @@ namespace PLEXIL
       else if (REAL_TYPE == other.m_type) {
         if (m_known)
           return ((Real) integerValue) < other.realValue;
-        return true; // real unknown > int unknown
+        return false; // unknown numbers are equal
       }
       return m_type < other.m_type;
 
@@ -1095,7 +1095,7 @@ namespace PLEXIL
       else if (INTEGER_TYPE == other.m_type) {
         if (m_known)
           return realValue < (Real) other.integerValue;
-        return false; // real unknown > int unknown
+        return false; // unknown numbers are equal
       }
       return m_type < other.m_type;
 
-- 
2.43.0


From e56390cf6670252cbe0418d75ea51e9f64078654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:20 +0000
Subject: [PATCH 13/28] fix: an unknown update of an untyped cached value is
 not a change

---
 src/intfc/CachedValueImpl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/intfc/CachedValueImpl.cc b/src/intfc/CachedValueImpl.cc
index 91b41d8..0d34db4 100644
--- a/src/intfc/CachedValueImpl.cc
+++ b/src/intfc/CachedValueImpl.cc
@@ -90,7 +90,7 @@ namespace PLEXIL
       return false;
     }
     this->m_timestamp = timestamp;
-    return true;
+    return false;
   }
 
   //
-- 
2.43.0


From 2892c60c45dd73bc8be55ce1bbfae3199ca15bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:00 +0000
Subject: [PATCH 14/28] fix: an Integer change lookup missed its value becoming
 known again

---
 src/intfc/Lookup.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/intfc/Lookup.cc b/src/intfc/Lookup.cc
index 31a0504..49ed663 100644
--- a/src/intfc/Lookup.cc
+++ b/src/intfc/Lookup.cc
@@ -659,10 +659,12 @@ namespace PLEXIL
   bool ThresholdCacheImpl<Integer>::thresholdsExceeded(CachedValue const *value) const
   {
     Integer currentValue;
-    if (value->getValue(currentValue))
-      return (currentValue >= m_high) || (currentValue <= m_low);
-    // Current value is unknown
-    return m_wasKnown; 
+    if (!(value->getValue(currentValue)))
+      // now unknown, was it last time?
+      return m_wasKnown;
+    if (!m_wasKnown)
+      return true; // was unknown
+    return (currentValue >= m_high) || (currentValue <= m_low);
   }
 
   //! \brief Check whether the current value is beyond the thresholds
-- 
2.43.0


From 01f36236ca5c843063222eb6051f42146a7e5b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:12 +0000
Subject: [PATCH 15/28] fix: the thresholds of an Integer change lookup could
 overflow

---
 src/intfc/Lookup.cc | 51 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 45 insertions(+), 6 deletions(-)

diff --git a/src/intfc/Lookup.cc b/src/intfc/Lookup.cc
index 49ed663..dee752a 100644
--- a/src/intfc/Lookup.cc
+++ b/src/intfc/Lookup.cc
@@ -36,6 +36,7 @@
 #include "ValueType.hh"
 
 #include <cmath>  // fabs()
+#include <limits>
 #include <memory>
 
 namespace PLEXIL
@@ -561,6 +562,46 @@ namespace PLEXIL
 
   };
 
+  // Threshold arithmetic. Integer results are limited to the range of the type.
+
+  static inline Integer toleranceMagnitude(Integer tol)
+  {
+    if (tol == std::numeric_limits<Integer>::min())
+      return std::numeric_limits<Integer>::max();
+    return tol < 0 ? -tol : tol;
+  }
+
+  static inline Real toleranceMagnitude(Real tol)
+  {
+    return tol < 0 ? -tol : tol;
+  }
+
+  static inline Integer lowThreshold(Integer base, Integer tol)
+  {
+    // tol is not negative
+    if (base < std::numeric_limits<Integer>::min() + tol)
+      return std::numeric_limits<Integer>::min();
+    return base - tol;
+  }
+
+  static inline Real lowThreshold(Real base, Real tol)
+  {
+    return base - tol;
+  }
+
+  static inline Integer highThreshold(Integer base, Integer tol)
+  {
+    // tol is not negative
+    if (base > std::numeric_limits<Integer>::max() - tol)
+      return std::numeric_limits<Integer>::max();
+    return base + tol;
+  }
+
+  static inline Real highThreshold(Real base, Real tol)
+  {
+    return base + tol;
+  }
+
   //! \class ThresholdCacheImpl
   //! \brief Implementation class for Lookup threshold caching,
   //!        templated by value type of the threshold.
@@ -588,8 +629,7 @@ namespace PLEXIL
       check_error_1(tolerance); // paranoid check
       NUM newTol;
       if (tolerance->getValue(newTol)) {
-        if (newTol < 0)
-          newTol = -newTol;
+        newTol = toleranceMagnitude(newTol);
         debugMsg("ThresholdCache:toleranceChanged",
                  " returning " << (newTol != m_tolerance));
         return newTol != m_tolerance;
@@ -616,8 +656,7 @@ namespace PLEXIL
       check_error_1(value); // paranoid check
       NUM base, tol;
       if (tolerance->getValue(tol)) {
-        if (tol < 0)
-          tol = -tol;
+        tol = toleranceMagnitude(tol);
         debugMsg("ThresholdCache:setThresholds", " tolerance is " << tol);
       }
       else {
@@ -626,8 +665,8 @@ namespace PLEXIL
       }
       if (value->getValue(base)) {
         m_tolerance = tol;
-        m_low = base - tol;
-        m_high = base + tol;
+        m_low = lowThreshold(base, tol);
+        m_high = highThreshold(base, tol);
         m_wasKnown = true;
         debugMsg("ThresholdCache:setThresholds",
                  " setting thresholds to [" << m_low << ", " << m_high << ']');
-- 
2.43.0


From 5bb64d577ecc7c4728beeb3eab40c6227941c828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:12 +0000
Subject: [PATCH 16/28] fix: a change lookup did not pass on thresholds changed
 by a new tolerance

---
 src/intfc/Lookup.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/intfc/Lookup.cc b/src/intfc/Lookup.cc
index dee752a..0ba302f 100644
--- a/src/intfc/Lookup.cc
+++ b/src/intfc/Lookup.cc
@@ -1047,7 +1047,8 @@ namespace PLEXIL
         // m_cachedState, m_entry, and m_cachedValue are valid.
         if (m_tolerance->isKnown()) {
           // Check whether the thresholds have changed
-          if (m_thresholds->toleranceChanged(m_tolerance)) {
+          bool const newTolerance = m_thresholds->toleranceChanged(m_tolerance);
+          if (newTolerance) {
             debugMsg("LookupOnChange:update",
                      ' ' << this->m_cachedState
                      << " tolerance changed, updating thresholds");
@@ -1069,6 +1070,8 @@ namespace PLEXIL
           }
           debugMsg("LookupOnChange:update",
                    ' ' << this->m_cachedState << " value changed but within tolerances");
+          if (newTolerance)
+            m_entry->updateThresholds(m_cachedState);
           return false; // value or threshold updated, but value within tolerances
         }
         else {
-- 
2.43.0


From 35a2b0742d21be3b44a9dbf47c5e7632bac40640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:12 +0000
Subject: [PATCH 17/28] fix: a change lookup changed its value silently when
 its tolerance became unknown

---
 src/intfc/Lookup.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/intfc/Lookup.cc b/src/intfc/Lookup.cc
index 0ba302f..2cd193f 100644
--- a/src/intfc/Lookup.cc
+++ b/src/intfc/Lookup.cc
@@ -1082,10 +1082,13 @@ namespace PLEXIL
           // *** Do we need to delete m_cachedValue here??? ***
           // Is case of tolerance becoming unknown independent of state/value
           // worth optimizing?
+          // The value of this lookup is now the state's current value.
+          if (!(*m_cachedValue == *m_entry->cachedValue()))
+            valueChanged = true;
           m_cachedValue.reset();
           // Tell the cache entry about it
           m_entry->updateThresholds(m_cachedState);
-          return valueChanged; // ??
+          return valueChanged;
         }
       }
       else if (this->m_entry && this->m_entry->isKnown() && m_tolerance->isKnown()) {
-- 
2.43.0


From ef68c799042b243a22171a1ef566f27d824042c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:12 +0000
Subject: [PATCH 18/28] fix: saved value of a variable that was unknown is
 unknown

---
 src/expr/UserVariable.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr/UserVariable.cc b/src/expr/UserVariable.cc
index 144f015..f1e3cf2 100644
--- a/src/expr/UserVariable.cc
+++ b/src/expr/UserVariable.cc
@@ -393,12 +393,12 @@ namespace PLEXIL
   template <typename T>
   Value UserVariable<T>::getSavedValue() const
   {
-   return Value(m_savedValue);
+   return m_savedKnown ? Value(m_savedValue) : Value();
   }
 
   Value UserVariable<String>::getSavedValue() const
   {
-   return Value(m_savedValue);
+   return m_savedKnown ? Value(m_savedValue) : Value();
   }
 
   template <typename T>
-- 
2.43.0


From addcd0ebd2de21b0ba52f7457a90d1ace88e3715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:12 +0000
Subject: [PATCH 19/28] fix: saved value of an array variable that was unknown
 is unknown

---
 src/expr/ArrayVariable.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/ArrayVariable.cc b/src/expr/ArrayVariable.cc
index 708b10d..259f02d 100644
--- a/src/expr/ArrayVariable.cc
+++ b/src/expr/ArrayVariable.cc
@@ -204,7 +204,7 @@ namespace PLEXIL
 
   Value ArrayVariable::getSavedValue() const
   {
-    if (m_savedValue)
+    if (m_savedKnown && m_savedValue)
       return Value(*m_savedValue);
     return Value();
   }
-- 
2.43.0


From 7718c36cb9e5aa9c17965258014bb14b0d363533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:12 +0000
Subject: [PATCH 20/28] fix: restore an array variable's saved value when it
 has become unknown

---
 src/expr/ArrayVariable.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/expr/ArrayVariable.cc b/src/expr/ArrayVariable.cc
index 259f02d..6ed15d0 100644
--- a/src/expr/ArrayVariable.cc
+++ b/src/expr/ArrayVariable.cc
@@ -696,8 +696,8 @@ namespace PLEXIL
   void ArrayVariableImpl<T>::restoreSavedValue()
   {
     bool changed = m_known != m_savedKnown;
-    if (m_known && m_savedKnown
-        && !equals(m_savedValue.get())) {
+    if (m_savedKnown
+        && (!m_known || !equals(m_savedValue.get()))) {
       changed = true;
       ArrayImpl<T> const *saved =
         dynamic_cast<ArrayImpl<T> const *>(m_savedValue.get());
@@ -712,8 +712,8 @@ namespace PLEXIL
   void ArrayVariableImpl<Integer>::restoreSavedValue()
   {
     bool changed = m_known != m_savedKnown;
-    if (m_known && m_savedKnown
-        && !equals(m_savedValue.get())) {
+    if (m_savedKnown
+        && (!m_known || !equals(m_savedValue.get()))) {
       changed = true;
       ArrayImpl<Integer> const *saved =
         dynamic_cast<ArrayImpl<Integer> const *>(m_savedValue.get());
@@ -728,8 +728,8 @@ namespace PLEXIL
   void ArrayVariableImpl<String>::restoreSavedValue()
   {
     bool changed = m_known != m_savedKnown;
-    if (m_known && m_savedKnown
-        && !equals(m_savedValue.get())) {
+    if (m_savedKnown
+        && (!m_known || !equals(m_savedValue.get()))) {
       changed = true;
       ArrayImpl<String> const *saved =
         dynamic_cast<ArrayImpl<String> const *>(m_savedValue.get());
-- 
2.43.0


From 979991842e5f7255b5b63299388dee33117a5ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:12 +0000
Subject: [PATCH 21/28] fix: publish the change when an array element becomes
 unknown

---
 src/expr/ArrayVariable.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/expr/ArrayVariable.cc b/src/expr/ArrayVariable.cc
index 6ed15d0..08f26f7 100644
--- a/src/expr/ArrayVariable.cc
+++ b/src/expr/ArrayVariable.cc
@@ -285,8 +285,12 @@ namespace PLEXIL
 
   void ArrayVariable::setElementUnknown(size_t idx)
   {
-    if (m_known)
+    if (m_known) {
+      bool changed = m_value->elementKnown(idx);
       m_value->setElementUnknown(idx);
+      if (changed)
+        publishChange();
+    }
     // else fail silently
   }
 
-- 
2.43.0


From e17f5559938c1ede0d108dc235fdeb206f3d1aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:12 +0000
Subject: [PATCH 22/28] fix: an array variable reactivated with a smaller size
 gets that size

---
 src/expr/ArrayVariable.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/ArrayVariable.cc b/src/expr/ArrayVariable.cc
index 08f26f7..76224a9 100644
--- a/src/expr/ArrayVariable.cc
+++ b/src/expr/ArrayVariable.cc
@@ -153,7 +153,7 @@ namespace PLEXIL
       if (m_size && m_maxSize) {
         if (m_value) {
           m_value->reset(); // to all unknown
-          if (m_value->size() < m_maxSize)
+          if (m_value->size() != m_maxSize)
             m_value->resize(m_maxSize);
         }
         else {
-- 
2.43.0


From e0ee9faf098e3d90f45a03ddbaaaa2c292f2f780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:12 +0000
Subject: [PATCH 23/28] fix: an array element assignment is undone at the
 element it was made to

---
 src/expr/ArrayReference.cc | 11 +++++++----
 src/expr/ArrayReference.hh |  3 +++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/expr/ArrayReference.cc b/src/expr/ArrayReference.cc
index 89087f8..76820bd 100644
--- a/src/expr/ArrayReference.cc
+++ b/src/expr/ArrayReference.cc
@@ -228,6 +228,7 @@ namespace PLEXIL
     : Assignable(),
       ArrayReference(ary, idx, aryIsGarbage, idxIsGarbage),
       m_mutableArray(dynamic_cast<ArrayVariable *>(ary->getBaseExpression())),
+      m_savedIdx(0),
       m_saved(false)
   {
   }
@@ -268,20 +269,22 @@ namespace PLEXIL
     size_t idx;
     if (!mutableSelfCheck(idx)) {
       // unknown or invalid
+      m_savedValue = Value();
       m_saved = false;
       return;
     }
     m_savedValue = m_mutableArray->getElementValue(idx);
+    m_savedIdx = idx;
     m_saved = true;
   }
 
   void MutableArrayReference::restoreSavedValue()
   {
-    size_t idx;
-    if (!mutableSelfCheck(idx) || !m_saved) 
+    // The index expression may have changed since the value was saved.
+    if (!m_saved || !m_mutableArray->isKnown())
       return;
-    if (m_savedValue != m_mutableArray->getElementValue(idx)) {
-      m_mutableArray->setElement(idx, m_savedValue);
+    if (m_savedValue != m_mutableArray->getElementValue(m_savedIdx)) {
+      m_mutableArray->setElement(m_savedIdx, m_savedValue);
     }
     m_saved = false;
   }
diff --git a/src/expr/ArrayReference.hh b/src/expr/ArrayReference.hh
index 309893e..4a1b6a4 100644
--- a/src/expr/ArrayReference.hh
+++ b/src/expr/ArrayReference.hh
@@ -250,6 +250,9 @@ namespace PLEXIL {
     //! \brief Value saved by saveCurrentValue().
     Value m_savedValue;
 
+    //! \brief Index of the element saved by saveCurrentValue().
+    size_t m_savedIdx;
+
     //! \brief True if saveCurrentValue() has been called, false otherwise.
     bool m_saved;
   };
-- 
2.43.0


From 00e79434a2182b37f98baf5323a984794f39eede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:14 +0000
Subject: [PATCH 24/28] fix: SerializedInputQueue::flush deadlocked on its own
 mutex

---
 src/app-framework/SerializedInputQueue.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/app-framework/SerializedInputQueue.cc b/src/app-framework/SerializedInputQueue.cc
index 239a8a6..269a1e5 100644
--- a/src/app-framework/SerializedInputQueue.cc
+++ b/src/app-framework/SerializedInputQueue.cc
@@ -131,7 +131,10 @@ namespace PLEXIL
     QueueEntry *temp;
     while ((temp = m_queueGet)) {
       m_queueGet = temp->next;
-      release(temp);
+      // Can't call release() here, we already hold the mutex
+      temp->reset();
+      temp->next = m_freeList;
+      m_freeList = temp;
     }
     m_queuePut = nullptr;
   }
-- 
2.43.0


From 345d1fd795c50744e0f1474ffc264b5401fc7fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:14 +0000
Subject: [PATCH 25/28] fix: QueueEntry::initForAcceptMessage discarded the
 message handle

---
 src/intfc/QueueEntry.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/intfc/QueueEntry.cc b/src/intfc/QueueEntry.cc
index 74965ae..f6b0ab8 100644
--- a/src/intfc/QueueEntry.cc
+++ b/src/intfc/QueueEntry.cc
@@ -127,6 +127,7 @@ namespace PLEXIL
   void QueueEntry::initForAcceptMessage(Message *msg, std::string const &handle)
   {
     message = msg;
+    value = handle;
     type = Q_ACCEPT_MSG;
   }
 
-- 
2.43.0


From 59d39642af3e325dc439fba4f6207f66af3bb8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:00 +0000
Subject: [PATCH 26/28] fix: NodeImpl::notify reported an internal error for a
 pending node already to be rechecked

---
 src/exec/NodeImpl.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/exec/NodeImpl.cc b/src/exec/NodeImpl.cc
index ca978d6..e0b1b00 100644
--- a/src/exec/NodeImpl.cc
+++ b/src/exec/NodeImpl.cc
@@ -608,6 +608,9 @@ namespace PLEXIL
     case QUEUE_PENDING_CHECK:     // already a candidate, silently ignore
       return;
 
+    case QUEUE_PENDING_TRY_CHECK: // already a candidate, silently ignore
+      return;
+
     case QUEUE_TRANSITION_CHECK:  // already a candidate, silently ignore
       return;
 
-- 
2.43.0


From 3483955aa07f80d08da41cef32c484a0b60b9aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:00 +0000
Subject: [PATCH 27/28] fix: resourceCheckEligible marked a node pending after
 taking it off the pending queue

---
 src/exec/PlexilExec.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/exec/PlexilExec.cc b/src/exec/PlexilExec.cc
index aefeda2..aea0151 100644
--- a/src/exec/PlexilExec.cc
+++ b/src/exec/PlexilExec.cc
@@ -500,9 +500,11 @@ namespace PLEXIL
           removePendingNode(node);
           addStateChangeNode(node);
         }
-        // else still eligible to transition to EXECUTING,
-        // but resources not available
-        node->setQueueStatus(QUEUE_PENDING);
+        else {
+          // Still eligible to transition to EXECUTING,
+          // but resources not available
+          node->setQueueStatus(QUEUE_PENDING);
+        }
         return false;
 
       case QUEUE_PENDING_TRY_CHECK:
-- 
2.43.0


From 89cdc79a6205dec4da5833e566e0a2e501265776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:00 +0000
Subject: [PATCH 28/28] fix: resolveResourceConflicts skipped pending nodes
 after one that was removed

---
 src/exec/PlexilExec.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/exec/PlexilExec.cc b/src/exec/PlexilExec.cc
index aea0151..80ef39e 100644
--- a/src/exec/PlexilExec.cc
+++ b/src/exec/PlexilExec.cc
@@ -558,10 +558,12 @@ namespace PLEXIL
 
         Node *temp = priorityHead;
         do {
+          // Checking may remove the node from the queue
+          Node *nextNode = temp->next();
           if (resourceCheckEligible(temp)) 
             // Resource(s) were released, give it a look
             priorityNodes.push_back(temp);
-          temp = temp->next();
+          temp = nextNode;
         } while (temp && temp->getPriority() == thisPriority);
 
         // temp is at end of queue,
-- 
2.43.0

