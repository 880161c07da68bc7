From ccd51c6fff0f76dd307e3f3527f4670713227732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:19 +0000
Subject: [PATCH 01/34] fix: moveit swaps size, capacity and allocation flag
 without loss

The sizes went through int, and other kept its stale 'allocated' flag, so the
second assignment to a default constructed vector threw 'try to delete nullptr'.
---
 include/etr_bits/Core/BaseStore.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index 144b8e4..fb6e9d6 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -294,15 +294,17 @@ template <typename T, typename BaseTrait> struct BaseStore {
 
   template <typename L2> BaseStore &moveit(L2 &other) {
     T *temporary = other.p;
-    int tempSize = other.sz;
-    int tempCapacity = other.capacity;
+    std::size_t tempSize = other.sz;
+    std::size_t tempCapacity = other.capacity;
+    bool tempAllocated = other.allocated;
     other.p = this->p;
     other.sz = this->sz;
     other.capacity = this->capacity;
+    other.allocated = this->allocated;
     this->p = temporary;
     this->sz = tempSize;
     this->capacity = tempCapacity;
-    allocated = true;
+    this->allocated = tempAllocated;
     return *this;
   }
   auto begin() const { return It<T>{p}; }
-- 
2.43.0


From f0a8f06534d895f3405b258c52ce20b26aac554b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:45 +0000
Subject: [PATCH 02/34] fix: construct from RVec takes over the capacity
 together with the storage

Vec v = coca(1.0, 2.0) left capacity 0 next to size 2, so that a copy of v wrote
beyond a zero length block.
---
 include/etr_bits/Vector/Constructors.hpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/include/etr_bits/Vector/Constructors.hpp b/include/etr_bits/Vector/Constructors.hpp
index b9c576f..66f73e8 100644
--- a/include/etr_bits/Vector/Constructors.hpp
+++ b/include/etr_bits/Vector/Constructors.hpp
@@ -199,13 +199,7 @@ Vec(Vec<T2, R2, Trait2> &&other_vec) {
       d.setMatrix(true, other_vec.nr(), other_vec.nc());
     }
   } else {
-    std::size_t temp = other_vec.size();
-    d.allocated = other_vec.d.allocated;
-    other_vec.d.sz = this->size();
-    d.sz = temp;
-    T *tempP = other_vec.d.p;
-    other_vec.d.p = d.p;
-    d.p = tempP;
+    d.moveit(other_vec.d);
     if (other_vec.d.im()) {
       d.setMatrix(true, other_vec.nr(), other_vec.nc());
     }
-- 
2.43.0


From aab29b98a2dd82f6fbc2119b59d2fa44ea2e9e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:12 +0000
Subject: [PATCH 03/34] fix: copying and moving a BaseStore keeps size and
 matrix shape

operator= ignored a shorter source (and threw), and no copy took the
dimensions along, so that 'Vec m2 = m' lost the matrix flag.
---
 include/etr_bits/Core/BaseStore.hpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index fb6e9d6..54627e3 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -34,7 +34,8 @@ template <typename T, typename BaseTrait> struct BaseStore {
 
   // constructors
   BaseStore(const BaseStore<T> &other)
-      : sz(other.sz), capacity(other.capacity), allocated(other.allocated) {
+      : sz(other.sz), capacity(other.capacity), allocated(other.allocated),
+        mp(other.mp) {
     if (other.allocated) {
       p = new T[capacity];
       std::copy(other.p, other.p + capacity, p);
@@ -44,7 +45,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
   }
   BaseStore(BaseStore<T> &&other) noexcept
       : sz(other.sz), capacity(other.capacity), allocated(other.allocated),
-        p(other.p) {
+        p(other.p), mp(other.mp) {
     other.capacity = 0;
     other.sz = 0;
     other.allocated = false;
@@ -130,17 +131,15 @@ template <typename T, typename BaseTrait> struct BaseStore {
   BaseStore &operator=(const BaseStore<T> &other) { // deep copy
     if (this == &other)
       return *this;
-    if (other.size() > this->sz) {
-      if (allocated) {
-        std::size_t diff = other.size() - this->sz;
-        this->realloc(this->sz + diff);
-      } else {
-        resize(other.size());
-      }
+    if (other.size() > 0) {
+      resize(other.size());
+    } else {
+      sz = 0;
     }
     for (std::size_t i = 0; i < this->sz; i++) {
       p[i] = other[i];
     }
+    setMatrix(other.mp);
     return *this;
   }
 
-- 
2.43.0


From 6bd5526e352be3105b696461b9127478f243a7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:48 +0000
Subject: [PATCH 04/34] fix: assigning a vector to a matrix variable drops the
 stale dimensions

m = v kept the old rows and columns of m next to the new elements.
---
 include/etr_bits/Vector/AssignmentOperator.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index a813443..15d72a7 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -19,9 +19,12 @@ Vec &operator=(const TD inp) {
     } else if constexpr (isBorrow::value) {
       d.sz = 1;
       d[0] = inp;
+      d.setMatrix(false, 0, 0);
     } else {
       d.resize(1);
       d[0] = inp;
+      if constexpr (isBuffer::value)
+        d.setMatrix(false, 0, 0);
     }
     return *this;
   } else {
@@ -32,9 +35,12 @@ Vec &operator=(const TD inp) {
     } else if constexpr (isBorrow::value) {
       d.sz = 1;
       d[0] = static_cast<T>(inp);
+      d.setMatrix(false, 0, 0);
     } else {
       d.resize(1);
       d[0] = static_cast<T>(inp);
+      if constexpr (isBuffer::value)
+        d.setMatrix(false, 0, 0);
     }
     return *this;
   }
@@ -105,6 +111,8 @@ Vec &operator=(const Vec<T, R, Trait> &otherVec) {
   }
   if (otherVec.d.im()) {
     d.setMatrix(true, otherVec.d.nr(), otherVec.d.nc());
+  } else {
+    d.setMatrix(false, 0, 0);
   }
   return *this;
 }
@@ -234,6 +242,8 @@ Vec &operator=(const Vec<T2, R2, Trait2> &otherVec) {
   } else {
     if (otherVec.d.im()) {
       d.setMatrix(true, otherVec.d.nr(), otherVec.d.nc());
+    } else {
+      d.setMatrix(false, 0, 0);
     }
   }
   return *this;
-- 
2.43.0


From 05860fb1de76a796ca1ffb05213d62cdd07fc482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:15 +0000
Subject: [PATCH 05/34] fix: a unary operation on a matrix is a matrix

The condition in UnaryOperation::im was inverted, sinus(m) lost the dimensions.
---
 include/etr_bits/UnaryCalculations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/etr_bits/UnaryCalculations.hpp b/include/etr_bits/UnaryCalculations.hpp
index 3b0be8e..254aede 100644
--- a/include/etr_bits/UnaryCalculations.hpp
+++ b/include/etr_bits/UnaryCalculations.hpp
@@ -14,7 +14,7 @@ template <typename I, typename Trait, typename CTrait> struct UnaryOperation {
   using typeTraitObj = I;
   MatrixParameter mp;
   bool im() const {
-    if constexpr (std::is_arithmetic_v<I>) {
+    if constexpr (!std::is_arithmetic_v<I>) {
       return obj.im();
     } else {
       return false;
-- 
2.43.0


From 0d905e56997a9fa78d7bb86b42625dce350ec7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:24 +0000
Subject: [PATCH 06/34] fix: back() returns the last element

It returned the element behind the end; cmr read it in its last interval.
---
 include/etr_bits/Core/BaseStore.hpp     | 2 +-
 include/etr_bits/Core/Borrow.hpp        | 2 +-
 include/etr_bits/Core/BorrowSEXP.hpp    | 2 +-
 include/etr_bits/Vector/VectorClass.hpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index 54627e3..cae5bc0 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -308,7 +308,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
   }
   auto begin() const { return It<T>{p}; }
   auto end() const { return It<T>{p + sz}; }
-  T &back() { return p[sz]; }
+  T &back() { return p[sz - 1]; }
   T *data() const { return p; }
 
   void realloc(std::size_t new_size) {
diff --git a/include/etr_bits/Core/Borrow.hpp b/include/etr_bits/Core/Borrow.hpp
index bed8808..eb909e0 100644
--- a/include/etr_bits/Core/Borrow.hpp
+++ b/include/etr_bits/Core/Borrow.hpp
@@ -154,7 +154,7 @@ template <typename T, typename BorrowTrait> struct Borrow {
   template <typename L2> Borrow &moveit(L2 &other) = delete;
   auto begin() const { return It<T>{p}; }
   auto end() const { return It<T>{p + sz}; }
-  T &back() { return p[sz]; }
+  T &back() { return p[sz - 1]; }
   T *data() const { return p; }
   void realloc(int new_size) = delete;
   void push_back(T input) = delete;
diff --git a/include/etr_bits/Core/BorrowSEXP.hpp b/include/etr_bits/Core/BorrowSEXP.hpp
index 4023ba6..7aa3d8c 100644
--- a/include/etr_bits/Core/BorrowSEXP.hpp
+++ b/include/etr_bits/Core/BorrowSEXP.hpp
@@ -213,7 +213,7 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
 
   auto begin() const { return It<T>{p}; }
   auto end() const { return It<T>{p + sz}; }
-  T &back() { return p[sz]; }
+  T &back() { return p[sz - 1]; }
   T *data() const { return p; }
   void realloc(int new_size) {
     if (new_size <= sz) {
diff --git a/include/etr_bits/Vector/VectorClass.hpp b/include/etr_bits/Vector/VectorClass.hpp
index ce974b2..e7b6b42 100644
--- a/include/etr_bits/Vector/VectorClass.hpp
+++ b/include/etr_bits/Vector/VectorClass.hpp
@@ -83,7 +83,7 @@ template <typename T, typename R, typename Trait> struct Vec {
     }
   }
 
-  T &back() const { return d.p[this->size()]; }
+  T &back() const { return d.p[this->size() - 1]; }
   void fill(T value) { d.fill(value); }
   void resize(std::size_t newSize) { d.resize(newSize); }
   friend std::ostream &operator<<(std::ostream &os, const Vec &vec) {
-- 
2.43.0


From a1d6a640444b279b173be166fd5876cf8bffcb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:33 +0000
Subject: [PATCH 07/34] fix: a subset recycles over its indices, not over the
 length of its source

subset(a, idx) with more indices than a has elements repeated the first ones.
---
 include/etr_bits/Core/SubsetClass.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/etr_bits/Core/SubsetClass.hpp b/include/etr_bits/Core/SubsetClass.hpp
index 26bc638..3e0b8c8 100644
--- a/include/etr_bits/Core/SubsetClass.hpp
+++ b/include/etr_bits/Core/SubsetClass.hpp
@@ -61,12 +61,12 @@ template <typename T, typename SubsetTrait> struct Subset {
 
   CurrentBaseType &operator[](std::size_t pos) {
     ass(this->p != nullptr, "Subset is pointing to nothing!");
-    return this->p->operator[](ind[pos % p->size()]);
+    return this->p->operator[](ind[pos % ind.size()]);
   }
 
   CurrentBaseType operator[](std::size_t pos) const {
     ass(p != nullptr, "Subset is pointing to nothing!");
-    return this->p->operator[](ind[pos % p->size()]);
+    return this->p->operator[](ind[pos % ind.size()]);
   }
 
   ~Subset() {}
@@ -129,7 +129,7 @@ struct Subset<const T, SubsetTrait> {
 
   const CurrentBaseType operator[](std::size_t pos) const {
     ass(p != nullptr, "Subset is pointing to nothing!");
-    return this->p->operator[](ind[pos % p->size()]);
+    return this->p->operator[](ind[pos % ind.size()]);
   }
 
   ~Subset() {}
-- 
2.43.0


From 24da0824cb1391b966b3b5ad3566b80593ce5fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:41 +0000
Subject: [PATCH 08/34] fix: comparisons have logical elements, so they can be
 used as logical indices

---
 include/etr_bits/BinaryCalculations.hpp | 78 ++++++-------------------
 1 file changed, 18 insertions(+), 60 deletions(-)

diff --git a/include/etr_bits/BinaryCalculations.hpp b/include/etr_bits/BinaryCalculations.hpp
index b401e34..0864bf4 100644
--- a/include/etr_bits/BinaryCalculations.hpp
+++ b/include/etr_bits/BinaryCalculations.hpp
@@ -270,20 +270,13 @@ template <typename L, typename R> auto operator==(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
-               BinaryOperation<decltype(l.d), R, EqualTrait>>(
+    return Vec<bool, BinaryOperation<decltype(l.d), R, EqualTrait>>(
         BinaryOperation<decltype(l.d), R, EqualTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
-               BinaryOperation<L, decltype(r.d), EqualTrait>>(
+    return Vec<bool, BinaryOperation<L, decltype(r.d), EqualTrait>>(
         BinaryOperation<L, decltype(r.d), EqualTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
-    return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
-        BinaryOperation<decltype(l.d), decltype(r.d), EqualTrait>>(
+    return Vec<bool, BinaryOperation<decltype(l.d), decltype(r.d), EqualTrait>>(
         BinaryOperation<decltype(l.d), decltype(r.d), EqualTrait>(l.d, r.d));
   } else {
     ass(false, "This case should not be reached. Contact author");
@@ -294,20 +287,13 @@ template <typename L, typename R> auto operator!=(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
-               BinaryOperation<decltype(l.d), R, UnEqualTrait>>(
+    return Vec<bool, BinaryOperation<decltype(l.d), R, UnEqualTrait>>(
         BinaryOperation<decltype(l.d), R, UnEqualTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
-               BinaryOperation<L, decltype(r.d), UnEqualTrait>>(
+    return Vec<bool, BinaryOperation<L, decltype(r.d), UnEqualTrait>>(
         BinaryOperation<L, decltype(r.d), UnEqualTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
-    return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
-        BinaryOperation<decltype(l.d), decltype(r.d), UnEqualTrait>>(
+    return Vec<bool, BinaryOperation<decltype(l.d), decltype(r.d), UnEqualTrait>>(
         BinaryOperation<decltype(l.d), decltype(r.d),
 
                         UnEqualTrait>(l.d, r.d));
@@ -320,20 +306,13 @@ template <typename L, typename R> auto operator>(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
-               BinaryOperation<decltype(l.d), R, LargerTrait>>(
+    return Vec<bool, BinaryOperation<decltype(l.d), R, LargerTrait>>(
         BinaryOperation<decltype(l.d), R, LargerTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
-               BinaryOperation<L, decltype(r.d), LargerTrait>>(
+    return Vec<bool, BinaryOperation<L, decltype(r.d), LargerTrait>>(
         BinaryOperation<L, decltype(r.d), LargerTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
-    return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
-        BinaryOperation<decltype(l.d), decltype(r.d), LargerTrait>>(
+    return Vec<bool, BinaryOperation<decltype(l.d), decltype(r.d), LargerTrait>>(
         BinaryOperation<decltype(l.d), decltype(r.d),
 
                         LargerTrait>(l.d, r.d));
@@ -346,20 +325,13 @@ template <typename L, typename R> auto operator>=(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
-               BinaryOperation<decltype(l.d), R, LargerEqualTrait>>(
+    return Vec<bool, BinaryOperation<decltype(l.d), R, LargerEqualTrait>>(
         BinaryOperation<decltype(l.d), R, LargerEqualTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
-               BinaryOperation<L, decltype(r.d), LargerEqualTrait>>(
+    return Vec<bool, BinaryOperation<L, decltype(r.d), LargerEqualTrait>>(
         BinaryOperation<L, decltype(r.d), LargerEqualTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
-    return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
-        BinaryOperation<decltype(l.d), decltype(r.d), LargerEqualTrait>>(
+    return Vec<bool, BinaryOperation<decltype(l.d), decltype(r.d), LargerEqualTrait>>(
         BinaryOperation<decltype(l.d), decltype(r.d),
 
                         LargerEqualTrait>(l.d, r.d));
@@ -372,20 +344,13 @@ template <typename L, typename R> auto operator<(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
-               BinaryOperation<decltype(l.d), R, SmallerTrait>>(
+    return Vec<bool, BinaryOperation<decltype(l.d), R, SmallerTrait>>(
         BinaryOperation<decltype(l.d), R, SmallerTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
-               BinaryOperation<L, decltype(r.d), SmallerTrait>>(
+    return Vec<bool, BinaryOperation<L, decltype(r.d), SmallerTrait>>(
         BinaryOperation<L, decltype(r.d), SmallerTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
-    return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
-        BinaryOperation<decltype(l.d), decltype(r.d), SmallerTrait>>(
+    return Vec<bool, BinaryOperation<decltype(l.d), decltype(r.d), SmallerTrait>>(
         BinaryOperation<decltype(l.d), decltype(r.d),
 
                         SmallerTrait>(l.d, r.d));
@@ -398,20 +363,13 @@ template <typename L, typename R> auto operator<=(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
-               BinaryOperation<decltype(l.d), R, SmallerEqualTrait>>(
+    return Vec<bool, BinaryOperation<decltype(l.d), R, SmallerEqualTrait>>(
         BinaryOperation<decltype(l.d), R, SmallerEqualTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
-               BinaryOperation<L, decltype(r.d), SmallerEqualTrait>>(
+    return Vec<bool, BinaryOperation<L, decltype(r.d), SmallerEqualTrait>>(
         BinaryOperation<L, decltype(r.d), SmallerEqualTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
-    return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
-        BinaryOperation<decltype(l.d), decltype(r.d), SmallerEqualTrait>>(
+    return Vec<bool, BinaryOperation<decltype(l.d), decltype(r.d), SmallerEqualTrait>>(
         BinaryOperation<decltype(l.d), decltype(r.d),
 
                         SmallerEqualTrait>(l.d, r.d));
-- 
2.43.0


From fc885d9a04f51749abf032c082138d0119d589cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:49 +0000
Subject: [PATCH 09/34] fix: a subset of an expression checks its positions
 instead of recycling them

---
 include/etr_bits/Core/SubsetClass.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/etr_bits/Core/SubsetClass.hpp b/include/etr_bits/Core/SubsetClass.hpp
index 3e0b8c8..daad10a 100644
--- a/include/etr_bits/Core/SubsetClass.hpp
+++ b/include/etr_bits/Core/SubsetClass.hpp
@@ -129,7 +129,10 @@ struct Subset<const T, SubsetTrait> {
 
   const CurrentBaseType operator[](std::size_t pos) const {
     ass(p != nullptr, "Subset is pointing to nothing!");
-    return this->p->operator[](ind[pos % ind.size()]);
+    const std::size_t idx = ind[pos % ind.size()];
+    ass(idx < p->size(),
+        "Error: out of boundaries --> value beyond size of vector");
+    return this->p->operator[](idx);
   }
 
   ~Subset() {}
-- 
2.43.0


From 87c651e3df5293613cdb5174adfd87410c014ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:26 +0000
Subject: [PATCH 10/34] fix: assigning one subset to another does not grow the
 vector

---
 include/etr_bits/Vector/AssignmentOperator.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index 15d72a7..ac4c9c2 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -103,8 +103,6 @@ Vec &operator=(const Vec<T, R, Trait> &otherVec) {
         temp[i] = static_cast<T>(otherVec[i]);
       }
     }
-    if (d.p->size() < temp.size())
-      d.resize(temp.size());
     for (std::size_t i = 0; i < d.ind.size(); i++) {
       d[i % d.ind.size()] = temp[i];
     }
-- 
2.43.0


From 3b732ea49dcf7a67137cb97929074055e360be6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:54 +0000
Subject: [PATCH 11/34] fix: a vector stays valid when resizing it runs out of
 memory

---
 include/etr_bits/Core/BaseStore.hpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index cae5bc0..bd07c31 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -245,14 +245,14 @@ template <typename T, typename BaseTrait> struct BaseStore {
   }
 
   void init(std::size_t size) {
+    const std::size_t newCapacity = static_cast<std::size_t>(1.15 * size);
+    T *block = new T[newCapacity];
     if (allocated) {
-      ass(p != nullptr, "try to delete nullptr");
       delete[] p;
-      p = nullptr;
     }
+    p = block;
     sz = size;
-    capacity = static_cast<std::size_t>(1.15 * sz);
-    p = new T[capacity];
+    capacity = newCapacity;
     allocated = true;
   }
   void resize(std::size_t newSize) {
@@ -263,12 +263,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
       return;
     } else {
       if (newSize > capacity) {
-        ass(p != nullptr, "try to delete nullptr");
-        delete[] p;
-        capacity = static_cast<std::size_t>(newSize * 1.15);
-        p = new T[capacity];
-        sz = newSize;
-        allocated = true;
+        init(newSize);
         fill(T());
       } else {
         sz = newSize;
-- 
2.43.0


From acd7905a6739d417e062a295c4aa6a5a4c130267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:01 +0000
Subject: [PATCH 12/34] fix: realloc to a smaller size does not write past the
 new block

---
 include/etr_bits/Core/BaseStore.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index bd07c31..f5b07b8 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -308,25 +308,27 @@ template <typename T, typename BaseTrait> struct BaseStore {
 
   void realloc(std::size_t new_size) {
     T *temp;
-    capacity = static_cast<int>(new_size * 1.15);
-    temp = new T[capacity];
-    for (std::size_t i = 0; i < sz; i++)
+    const std::size_t newCapacity = static_cast<std::size_t>(new_size * 1.15);
+    const std::size_t kept = sz < new_size ? sz : new_size;
+    temp = new T[newCapacity];
+    for (std::size_t i = 0; i < kept; i++)
       temp[i] = p[i];
 
-    for (std::size_t i = sz; i < new_size; i++)
+    for (std::size_t i = kept; i < new_size; i++)
       temp[i] = T();
 
     delete[] p;
     p = temp;
 
     sz = new_size;
+    capacity = newCapacity;
     allocated = true;
     temp = nullptr;
   }
 
   void push_back(T input) {
     if (sz == capacity) {
-      int szOld = sz;
+      std::size_t szOld = sz;
       if (sz == 0) {
         realloc(1);
       } else if (sz > 0) {
-- 
2.43.0


From e39e5e95f03846255c0aa52f5f7859d2b5ec44b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:21 +0000
Subject: [PATCH 13/34] fix: filling from a temporary neither keeps a stale
 capacity nor frees borrowed memory

---
 include/etr_bits/Core/BaseStore.hpp | 6 +-----
 include/etr_bits/Core/Borrow.hpp    | 6 ------
 2 files changed, 1 insertion(+), 11 deletions(-)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index f5b07b8..b86f4ca 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -166,11 +166,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
         std::copy(ptr, ptr + sz, p);
       }
     } else if constexpr (IsRVec<TInp> && is<DataType, T>) {
-      delete[] p;
-      DataType *ptr = inp.getPtr();
-      inp.d.p = nullptr;
-      inp.d.allocated = false;
-      p = ptr;
+      moveit(inp.d);
     } else {
       if constexpr (is<DataType, T>) {
         for (std::size_t i = 0; i < sz; i++)
diff --git a/include/etr_bits/Core/Borrow.hpp b/include/etr_bits/Core/Borrow.hpp
index eb909e0..711aa66 100644
--- a/include/etr_bits/Core/Borrow.hpp
+++ b/include/etr_bits/Core/Borrow.hpp
@@ -103,12 +103,6 @@ template <typename T, typename BorrowTrait> struct Borrow {
         DataType *ptr = inp.getPtr();
         std::copy(ptr, ptr + sz, p);
       }
-    } else if constexpr (IsRVec<TInp> && is<DataType, T>) {
-      delete[] p;
-      DataType *ptr = inp.getPtr();
-      inp.d.p = nullptr;
-      inp.d.allocated = false;
-      p = ptr;
     } else {
       if constexpr (is<DataType, T>) {
         for (std::size_t i = 0; i < sz; i++)
-- 
2.43.0


From 32926f54cdb3dd5314c4115421c4b01c5de52af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:41 +0000
Subject: [PATCH 14/34] fix: a size that cannot be allocated throws instead of
 overflowing the capacity

---
 include/etr_bits/Core/BaseStore.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index b86f4ca..cff2f59 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -104,6 +104,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
   BaseStore(std::size_t sz_)
       : sz(sz_), capacity(static_cast<std::size_t>(sz_ * 1.15)) {
     ass(sz_ > 0, "Size has to be larger than 0");
+    ass(sz_ <= static_cast<std::size_t>(-1) / 2, "Size is too large");
     p = new T[capacity];
     for (std::size_t i = 0; i < capacity; i++) {
       p[i] = T();
@@ -241,6 +242,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
   }
 
   void init(std::size_t size) {
+    ass(size <= static_cast<std::size_t>(-1) / 2, "Size is too large");
     const std::size_t newCapacity = static_cast<std::size_t>(1.15 * size);
     T *block = new T[newCapacity];
     if (allocated) {
@@ -303,6 +305,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
   T *data() const { return p; }
 
   void realloc(std::size_t new_size) {
+    ass(new_size <= static_cast<std::size_t>(-1) / 2, "Size is too large");
     T *temp;
     const std::size_t newCapacity = static_cast<std::size_t>(new_size * 1.15);
     const std::size_t kept = sz < new_size ? sz : new_size;
-- 
2.43.0


From ec7a9bcda0ac2ec7dd84cfc4ab81a3bdff908825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:38 +0000
Subject: [PATCH 15/34] fix: at(m, r, c) checks row and column, not only their
 linear position

---
 include/etr_bits/Subsetting/at.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/etr_bits/Subsetting/at.hpp b/include/etr_bits/Subsetting/at.hpp
index 80f2967..b30ebe6 100644
--- a/include/etr_bits/Subsetting/at.hpp
+++ b/include/etr_bits/Subsetting/at.hpp
@@ -58,6 +58,8 @@ inline auto &at(T &inp, R r, C c) {
   if constexpr (std::is_integral_v<R> && std::is_integral_v<C>) {
     r--;
     c--;
+    ass(r < inp.nr() && c < inp.nc(),
+        "Error: out of boundaries --> value beyond size of vector");
     ass((c * inp.nr() + r) >= 0, "Error: out of boundaries --> value below 1");
     ass((c * inp.nr() + r) < inp.size(),
         "Error: out of boundaries --> value beyond size of vector");
@@ -66,6 +68,8 @@ inline auto &at(T &inp, R r, C c) {
     int r_ = d2i(r);
     r_--;
     c--;
+    ass(r_ < inp.nr() && c < inp.nc(),
+        "Error: out of boundaries --> value beyond size of vector");
     ass((c * inp.nr() + r_) >= 0, "Error: out of boundaries --> value below 1");
     ass((c * inp.nr() + r_) < inp.size(),
         "Error: out of boundaries --> value beyond size of vector");
@@ -74,6 +78,8 @@ inline auto &at(T &inp, R r, C c) {
     r--;
     int c_ = d2i(c);
     c_--;
+    ass(r < inp.nr() && c_ < inp.nc(),
+        "Error: out of boundaries --> value beyond size of vector");
     ass((c_ * inp.nr() + r) >= 0, "Error: out of boundaries --> value below 1");
     ass((c_ * inp.nr() + r) < inp.size(),
         "Error: out of boundaries --> value beyond size of vector");
@@ -83,6 +89,8 @@ inline auto &at(T &inp, R r, C c) {
     int c_ = d2i(c);
     r_--;
     c_--;
+    ass(r_ < inp.nr() && c_ < inp.nc(),
+        "Error: out of boundaries --> value beyond size of vector");
     ass((c_ * inp.nr() + r_) >= 0,
         "Error: out of boundaries --> value below 1");
     ass((c_ * inp.nr() + r_) < inp.size(),
@@ -100,6 +108,8 @@ inline auto at(const T &inp, R r, C c) {
   if constexpr (std::is_integral_v<R> && std::is_integral_v<C>) {
     r--;
     c--;
+    ass(r < inp.nr() && c < inp.nc(),
+        "Error: out of boundaries --> value beyond size of vector");
     ass((c * inp.nr() + r) >= 0, "Error: out of boundaries --> value below 1");
     ass((c * inp.nr() + r) < inp.size(),
         "Error: out of boundaries --> value beyond size of vector");
@@ -108,6 +118,8 @@ inline auto at(const T &inp, R r, C c) {
     int r_ = d2i(r);
     r_--;
     c--;
+    ass(r_ < inp.nr() && c < inp.nc(),
+        "Error: out of boundaries --> value beyond size of vector");
     ass((c * inp.nr() + r_) >= 0, "Error: out of boundaries --> value below 1");
     ass((c * inp.nr() + r_) < inp.size(),
         "Error: out of boundaries --> value beyond size of vector");
@@ -116,6 +128,8 @@ inline auto at(const T &inp, R r, C c) {
     r--;
     int c_ = d2i(c);
     c_--;
+    ass(r < inp.nr() && c_ < inp.nc(),
+        "Error: out of boundaries --> value beyond size of vector");
     ass((c_ * inp.nr() + r) >= 0, "Error: out of boundaries --> value below 1");
     ass((c_ * inp.nr() + r) < inp.size(),
         "Error: out of boundaries --> value beyond size of vector");
@@ -125,6 +139,8 @@ inline auto at(const T &inp, R r, C c) {
     int c_ = d2i(c);
     r_--;
     c_--;
+    ass(r_ < inp.nr() && c_ < inp.nc(),
+        "Error: out of boundaries --> value beyond size of vector");
     ass((c_ * inp.nr() + r_) >= 0,
         "Error: out of boundaries --> value below 1");
     ass((c_ * inp.nr() + r_) < inp.size(),
-- 
2.43.0


From 52b00089deb84b700c8206e7965ba5f47c8dfdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 16/34] fix: m[double, double] selects the element in the given
 column

---
 include/etr_bits/Subsetting/MatrixSubsetting.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/etr_bits/Subsetting/MatrixSubsetting.hpp b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
index a2499f5..e16c68b 100644
--- a/include/etr_bits/Subsetting/MatrixSubsetting.hpp
+++ b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
@@ -234,7 +234,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     std::size_t indexRow = convertSize(*idxL);
     indexRow--;
     ind.resize(1);
-    ind[0] = convertSize(*idxR) - 1 * vec.nr() + indexRow;
+    ind[0] = (convertSize(*idxR) - 1) * vec.nr() + indexRow;
     return;
   } else if constexpr (is<R, double> && IsAV<C>) {
     using DataTypeC = ExtractDataType<C>::RetType;
-- 
2.43.0


From d464a02ae12c8d4804effeadd9bba449f852b5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 17/34] fix: m[vector, double] truncates the column before it
 is turned into a position

---
 include/etr_bits/Subsetting/MatrixSubsetting.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/etr_bits/Subsetting/MatrixSubsetting.hpp b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
index e16c68b..15e608e 100644
--- a/include/etr_bits/Subsetting/MatrixSubsetting.hpp
+++ b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
@@ -437,7 +437,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     } else if constexpr (is<DataTypeR, double>) {
       ind.resize(idxL->size());
       for (int j = 0; j < idxL->size(); j++) {
-        ind[j] = ((*idxR) - 1) * vec.nr() + (d2i((*idxL)[j]) - 1);
+        ind[j] = (convertSize(*idxR) - 1) * vec.nr() + (d2i((*idxL)[j]) - 1);
       }
       return;
     } else {
-- 
2.43.0


From b3db60198751adc486fc08a692c94daf81770a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 18/34] fix: m[logical vector, numeric vector] is a matrix

---
 include/etr_bits/Subsetting/MatrixSubsetting.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/etr_bits/Subsetting/MatrixSubsetting.hpp b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
index 15e608e..01a8caa 100644
--- a/include/etr_bits/Subsetting/MatrixSubsetting.hpp
+++ b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
@@ -521,6 +521,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
           counter++;
         }
       }
+      mp.setMatrix(true, positions.size(), idxR->size());
       return;
     } else if constexpr ((is<DataTypeR, int> ||
                           is<DataTypeR, double>)&&is<DataTypeC, bool>) {
-- 
2.43.0


From 19d803c8648b2f658841c4de8c7777552b25350f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 19/34] fix: colon computes element k from its start, not by
 repeated steps

---
 include/etr_bits/Allocation/Colon.hpp | 28 ++++++++-------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/include/etr_bits/Allocation/Colon.hpp b/include/etr_bits/Allocation/Colon.hpp
index 29827ad..a8e7f98 100644
--- a/include/etr_bits/Allocation/Colon.hpp
+++ b/include/etr_bits/Allocation/Colon.hpp
@@ -25,21 +25,15 @@ template <typename T> inline auto colonInternal(T start, T end) {
   if (start < end) {
     std::size_t length = convertSize(end - start + 1);
     Vec<T, Buffer<T, RBufTrait>, RVecTrait> ret(SI{length});
-    std::size_t counter = 0;
-    while (start <= end) {
-      ret[counter] = start;
-      start++;
-      counter++;
+    for (std::size_t i = 0; i < length; i++) {
+      ret[i] = start + static_cast<T>(i);
     }
     return ret;
   } else {
     std::size_t length = convertSize(start - end + 1);
     Vec<T, Buffer<T, RBufTrait>, RVecTrait> ret(SI{length});
-    std::size_t counter = 0;
-    while (end <= start) {
-      ret[counter] = start;
-      start--;
-      counter++;
+    for (std::size_t i = 0; i < length; i++) {
+      ret[i] = start - static_cast<T>(i);
     }
     return ret;
   }
@@ -252,22 +246,16 @@ inline auto colonInternalDerivs(AV &av, T start, T end) {
     std::size_t length = convertSize(end - start + 1);
     av.varConstants[Idx].resize(convertSize(length));
     Vec<T, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
-    std::size_t counter = 0;
-    while (start <= end) {
-      av.varConstants[Idx][counter] = start;
-      start++;
-      counter++;
+    for (std::size_t i = 0; i < length; i++) {
+      av.varConstants[Idx][i] = start + static_cast<T>(i);
     }
     return ret;
   }
   std::size_t length = convertSize(start - end + 1);
   av.varConstants[Idx].resize(convertSize(length));
   Vec<T, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
-  std::size_t counter = 0;
-  while (end <= start) {
-    av.varConstants[Idx][counter] = start;
-    start--;
-    counter++;
+  for (std::size_t i = 0; i < length; i++) {
+    av.varConstants[Idx][i] = start - static_cast<T>(i);
   }
   return ret;
 }
-- 
2.43.0


From a4d4dffa25b6603202e1a99720ca60987b4b0b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:58 +0000
Subject: [PATCH 20/34] fix: vector_logical of a variable passed its length
 through bool

---
 include/etr_bits/Allocation/Vector.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/etr_bits/Allocation/Vector.hpp b/include/etr_bits/Allocation/Vector.hpp
index 7e27d3b..841cd45 100644
--- a/include/etr_bits/Allocation/Vector.hpp
+++ b/include/etr_bits/Allocation/Vector.hpp
@@ -54,14 +54,14 @@ template <typename T> inline auto vector_logical(const T &inp) {
 
 template <typename T> inline auto vector_logical(T &inp) {
   if constexpr (std::is_same_v<T, std::size_t>) {
-    return createRVec<bool>(inp);
+    return createRVec<int>(inp);
   } else if constexpr (std::is_floating_point_v<T>) {
-    return createRVec<bool>(inp);
+    return createRVec<int>(inp);
   } else if constexpr (std::is_integral_v<T>) {
-    return createRVec<bool>(inp);
+    return createRVec<int>(inp);
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
-    return createRVec<bool>(inp[0]);
+    return createRVec<int>(inp[0]);
   } else {
     static_assert(sizeof(T) == 0, "Unsupported type in vector");
   }
-- 
2.43.0


From c79226a8b99c1fa2402e46e7292ca68141c83b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:52 +0000
Subject: [PATCH 21/34] fix: assigning a scalar to a borrowed block of length
 zero wrote behind it

---
 include/etr_bits/Vector/AssignmentOperator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index ac4c9c2..ac5f161 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -17,7 +17,7 @@ Vec &operator=(const TD inp) {
         d[i] = inp;
       }
     } else if constexpr (isBorrow::value) {
-      d.sz = 1;
+      d.resize(1);
       d[0] = inp;
       d.setMatrix(false, 0, 0);
     } else {
@@ -33,7 +33,7 @@ Vec &operator=(const TD inp) {
         d[i] = static_cast<T>(inp);
       }
     } else if constexpr (isBorrow::value) {
-      d.sz = 1;
+      d.resize(1);
       d[0] = static_cast<T>(inp);
       d.setMatrix(false, 0, 0);
     } else {
-- 
2.43.0


From b3f5dcf065d4be751ca20ff9ae483c918dc9a3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:03 +0000
Subject: [PATCH 22/34] fix: a borrowed matrix refers to the memory it was
 given

---
 include/etr_bits/Vector/Constructors.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/etr_bits/Vector/Constructors.hpp b/include/etr_bits/Vector/Constructors.hpp
index 66f73e8..d418078 100644
--- a/include/etr_bits/Vector/Constructors.hpp
+++ b/include/etr_bits/Vector/Constructors.hpp
@@ -217,8 +217,12 @@ Vec(BaseType *ptr, std::size_t size) : d(size) {
   }
 }
 Vec(BaseType *ptr, std::size_t rows, std::size_t cols) : d(rows * cols) {
-  for (std::size_t i = 0; i < d.size(); i++)
-    d[i] = ptr[i];
+  if constexpr (isBorrow::value) {
+    d.init(ptr, rows * cols);
+  } else {
+    for (std::size_t i = 0; i < d.size(); i++)
+      d[i] = ptr[i];
+  }
   d.setMatrix(true, rows, cols);
 }
 
-- 
2.43.0


From 21fff4ca270078d696f7be74d6b7e3b11ba76da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:47 +0000
Subject: [PATCH 23/34] fix: a moved borrowed vector still refers to its memory

---
 include/etr_bits/Vector/Constructors.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/etr_bits/Vector/Constructors.hpp b/include/etr_bits/Vector/Constructors.hpp
index d418078..02d575a 100644
--- a/include/etr_bits/Vector/Constructors.hpp
+++ b/include/etr_bits/Vector/Constructors.hpp
@@ -129,7 +129,9 @@ template <typename T2, typename R2, typename Trait2>
 Vec(const Vec<T2, R2, Trait2> &&other_vec) {
   using TypeTrait = Trait2;
   using CaseTrait = Trait2;
-  if constexpr (isBorrow::value) {
+  if constexpr (isBorrow::value && std::is_same_v<R, R2>) {
+    d = other_vec.d;
+  } else if constexpr (isBorrow::value) {
     ass(d.sz <= other_vec.size(), "Sizes do not match");
     d.sz = other_vec.size();
     for (std::size_t i = 0; i < d.size(); i++) {
-- 
2.43.0


From 8fcb9e633d640ebdf7f76fbca52b7d0e18d3d748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:20 +0000
Subject: [PATCH 24/34] fix: quotient rule divides by the square of the
 divisor, not of its derivative

---
 include/etr_bits/Core/Traits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/etr_bits/Core/Traits.hpp b/include/etr_bits/Core/Traits.hpp
index 5802388..8e41cd8 100644
--- a/include/etr_bits/Core/Traits.hpp
+++ b/include/etr_bits/Core/Traits.hpp
@@ -98,7 +98,7 @@ struct DivideDerivTrait {
   static inline std::common_type<L, R>::type fDeriv(L l, R r, LDeriv ld,
                                                     RDeriv rd) {
     return (ld * r - l * rd) /
-           std::pow(rd, 2); // TODO: add check for integral ...
+           std::pow(r, 2); // TODO: add check for integral ...
   }
 };
 
-- 
2.43.0


From 117a451f76b0f1b119f1d52a26b7b2c5503dc643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:20 +0000
Subject: [PATCH 25/34] fix: chain rule for unary functions

---
 include/etr_bits/Derivatives/DerivTypes.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/etr_bits/Derivatives/DerivTypes.hpp b/include/etr_bits/Derivatives/DerivTypes.hpp
index 74da964..54f30aa 100644
--- a/include/etr_bits/Derivatives/DerivTypes.hpp
+++ b/include/etr_bits/Derivatives/DerivTypes.hpp
@@ -74,11 +74,7 @@ template <typename Deriv, typename Trait, typename OpTrait> struct UnaryType {
     return Op::f(Deriv::getVal(av, idx));
   }
   template <typename AV> static auto getDeriv(AV &av, std::size_t idx) {
-    if constexpr (IsConstant<Deriv> || IsVariableType<Deriv>) {
-      return Op::fDeriv(Deriv::getVal(av, idx));
-    } else {
-      return Op::fDeriv(Deriv::getDeriv(av, idx));
-    }
+    return Op::fDeriv(Deriv::getVal(av, idx)) * Deriv::getDeriv(av, idx);
   }
 };
 
-- 
2.43.0


From 6a4f627ce5d0cce2fb1cfa6fa12b53c3517dd7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:20 +0000
Subject: [PATCH 26/34] fix: an active variable keeps its derivatives until its
 right side is evaluated

---
 include/etr_bits/Vector/AssignmentOperator.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index ac5f161..73defd9 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -206,14 +206,18 @@ Vec &operator=(const Vec<T2, R2, Trait2> &otherVec) {
       for (std::size_t i = 0; i < otherVec.size(); i++) {
         temp[i] = otherVec.d[i];
       }
-      d.AllVarsRef.resizeDerivs(R::I, R::TIdx, otherVec.size());
-      for (std::size_t i = 0; i < res.getSize(d.AllVarsRef); i++) {
-        d.setDeriv(d.AllVarsRef, i, res.getDeriv(d.AllVarsRef, i));
+      // NOTE: the right side may contain the variable which is assigned
+      Buffer<BaseType> tempDerivs;
+      tempDerivs.resize(temp.size());
+      for (std::size_t i = 0; i < tempDerivs.size(); i++) {
+        tempDerivs[i] = res.getDeriv(d.AllVarsRef, i);
       }
 
-      d.resize(otherVec.size());
-      for (std::size_t i = 0; i < otherVec.size(); i++) {
+      d.resize(temp.size());
+      d.AllVarsRef.resizeDerivs(R::I, R::TIdx, temp.size());
+      for (std::size_t i = 0; i < temp.size(); i++) {
         d.AllVarsRef.varBuffer[d.I][i] = temp[i];
+        d.setDeriv(d.AllVarsRef, i, tempDerivs[i]);
       }
 
     }
-- 
2.43.0


From 233936ae110706ab6261acf9dbae56974f92d63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:20 +0000
Subject: [PATCH 27/34] fix: assignment to a borrowed active variable stored in
 a buffer variable

---
 include/etr_bits/Vector/AssignmentOperator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index 73defd9..4935412 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -184,7 +184,7 @@ Vec &operator=(const Vec<T2, R2, Trait2> &otherVec) {
     if constexpr (IsConstant<decltype(otherVec)>) {
       d.resize(otherVec.size());
       for (std::size_t i = 0; i < otherVec.size(); i++) {
-        d.AllVarsRef.varBuffer[d.I][i] = otherVec.d[i];
+        d.setVal(d.AllVarsRef, i, otherVec.d[i]);
       }
       d.AllVarsRef.resizeDerivs(R::I, R::TIdx, otherVec.size());
       if (d.AllVarsRef.IndepVarIdx == d.I) {
@@ -216,7 +216,7 @@ Vec &operator=(const Vec<T2, R2, Trait2> &otherVec) {
       d.resize(temp.size());
       d.AllVarsRef.resizeDerivs(R::I, R::TIdx, temp.size());
       for (std::size_t i = 0; i < temp.size(); i++) {
-        d.AllVarsRef.varBuffer[d.I][i] = temp[i];
+        d.setVal(d.AllVarsRef, i, temp[i]);
         d.setDeriv(d.AllVarsRef, i, tempDerivs[i]);
       }
 
-- 
2.43.0


From 1552084cca378f1e07b798fa903776edca66684f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:20 +0000
Subject: [PATCH 28/34] fix: the independent variable is identified by index
 and type

---
 include/etr_bits/Derivatives/VarPointer.hpp    | 9 ++++++---
 include/etr_bits/Vector/AssignmentOperator.hpp | 3 ++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/etr_bits/Derivatives/VarPointer.hpp b/include/etr_bits/Derivatives/VarPointer.hpp
index 96fc23e..c76c147 100644
--- a/include/etr_bits/Derivatives/VarPointer.hpp
+++ b/include/etr_bits/Derivatives/VarPointer.hpp
@@ -151,7 +151,8 @@ template <typename T, int Idx, int TypeIdx, typename Trait> struct VarPointer {
     } else if constexpr (TypeIdx == 0) {
       if (av.varBufferDerivs[Idx].size() != av.varBuffer[Idx].size()) {
         av.varBufferDerivs[Idx].resize(av.varBuffer[Idx].size());
-        if ((Idx == av.IndepVarIdx) && !av.DerivInit) {
+        if ((Idx == av.IndepVarIdx) && (TypeIdx == av.IndepVarTypeIdx) &&
+            !av.DerivInit) {
           av.varBufferDerivs[Idx].fill(1.0);
           av.DerivInit = true;
         }
@@ -160,7 +161,8 @@ template <typename T, int Idx, int TypeIdx, typename Trait> struct VarPointer {
     } else if constexpr (TypeIdx == 1) {
       if (av.varBorrowDerivs[Idx].size() != av.varBorrow[Idx].size()) {
         av.varBorrowDerivs[Idx].resize(av.varBorrow[Idx].size());
-        if ((Idx == av.IndepVarIdx) && !av.DerivInit) {
+        if ((Idx == av.IndepVarIdx) && (TypeIdx == av.IndepVarTypeIdx) &&
+            !av.DerivInit) {
           av.varBorrowDerivs[Idx].fill(1.0);
           av.DerivInit = true;
         }
@@ -169,7 +171,8 @@ template <typename T, int Idx, int TypeIdx, typename Trait> struct VarPointer {
     } else if constexpr (TypeIdx == 2) {
       if (av.varBorrowSEXPDerivs[Idx].size() != av.varBorrowSEXP[Idx].size()) {
         av.varBorrowSEXPDerivs[Idx].resize(av.varBorrowSEXP[Idx].size());
-        if ((Idx == av.IndepVarIdx) && !av.DerivInit) {
+        if ((Idx == av.IndepVarIdx) && (TypeIdx == av.IndepVarTypeIdx) &&
+            !av.DerivInit) {
           av.varBorrowSEXPDerivs[Idx].fill(1.0);
           av.DerivInit = true;
         }
diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index 4935412..28540ce 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -187,7 +187,8 @@ Vec &operator=(const Vec<T2, R2, Trait2> &otherVec) {
         d.setVal(d.AllVarsRef, i, otherVec.d[i]);
       }
       d.AllVarsRef.resizeDerivs(R::I, R::TIdx, otherVec.size());
-      if (d.AllVarsRef.IndepVarIdx == d.I) {
+      if (d.AllVarsRef.IndepVarIdx == d.I &&
+          d.AllVarsRef.IndepVarTypeIdx == R::TIdx) {
         for (std::size_t i = 0; i < otherVec.size(); i++) {
           d.setDeriv(d.AllVarsRef, i, 1.0);
         }
-- 
2.43.0


From 7284def51d6d3830822771e5f292968724031025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:20 +0000
Subject: [PATCH 29/34] fix: assigning a plain vector to an active variable
 kept old dimensions

---
 include/etr_bits/Vector/AssignmentOperator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index 28540ce..22ddd1e 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -241,6 +241,8 @@ Vec &operator=(const Vec<T2, R2, Trait2> &otherVec) {
   if constexpr (isVariableType::value) {
     if (otherVec.d.im()) {
       d.setMatrix(d.AllVarsRef, true, otherVec.d.nr(), otherVec.d.nc());
+    } else {
+      d.setMatrix(d.AllVarsRef, false, 0, 0);
     }
   } else {
     if (otherVec.d.im()) {
-- 
2.43.0


From 35cf3c2eeded8db22222925d0f85395bffe3a997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:33 +0000
Subject: [PATCH 30/34] fix: derivatives of nested expressions recycle their
 operands like the values

---
 include/etr_bits/Derivatives/DerivTypes.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/etr_bits/Derivatives/DerivTypes.hpp b/include/etr_bits/Derivatives/DerivTypes.hpp
index 54f30aa..eb0b953 100644
--- a/include/etr_bits/Derivatives/DerivTypes.hpp
+++ b/include/etr_bits/Derivatives/DerivTypes.hpp
@@ -23,12 +23,15 @@ struct QuarternyType {
   }
 
   template <typename AV> static auto getVal(AV &av, std::size_t idx) {
-    return Op::f(LDeriv::getVal(av, idx), RDeriv::getVal(av, idx));
+    return Op::f(LDeriv::getVal(av, idx % LDeriv::getSize(av)),
+                 RDeriv::getVal(av, idx % RDeriv::getSize(av)));
   }
 
   template <typename AV> static auto getDeriv(AV &av, std::size_t idx) {
-    return Op::fDeriv(LDeriv::getVal(av, idx), RDeriv::getVal(av, idx),
-                      LDeriv::getDeriv(av, idx), RDeriv::getDeriv(av, idx));
+    const std::size_t idxL = idx % LDeriv::getSize(av);
+    const std::size_t idxR = idx % RDeriv::getSize(av);
+    return Op::fDeriv(LDeriv::getVal(av, idxL), RDeriv::getVal(av, idxR),
+                      LDeriv::getDeriv(av, idxL), RDeriv::getDeriv(av, idxR));
   }
 };
 
@@ -50,10 +53,12 @@ struct BinaryType {
                                                      : RDeriv::getSize(av);
   }
   template <typename AV> static auto getVal(AV &av, std::size_t idx) {
-    return Op::f(LDeriv::getVal(av, idx), RDeriv::getVal(av, idx));
+    return Op::f(LDeriv::getVal(av, idx % LDeriv::getSize(av)),
+                 RDeriv::getVal(av, idx % RDeriv::getSize(av)));
   }
   template <typename AV> static auto getDeriv(AV &av, std::size_t idx) {
-    return Op::fDeriv(LDeriv::getDeriv(av, idx), RDeriv::getDeriv(av, idx));
+    return Op::fDeriv(LDeriv::getDeriv(av, idx % LDeriv::getSize(av)),
+                      RDeriv::getDeriv(av, idx % RDeriv::getSize(av)));
   }
 };
 
-- 
2.43.0


From c6f3aa404b26e595f591c571b7259f70503ac696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:51 +0000
Subject: [PATCH 31/34] fix: vectors created as derivative constants are zero

vector_numeric<Idx>(av, n) and the like only resized the constant of the
variable set, so it kept the values of the constant stored there before.
---
 .../etr_bits/Allocation/AllocationUtils.hpp   |  7 +++
 include/etr_bits/Allocation/Vector.hpp        | 54 +++++++++----------
 2 files changed, 31 insertions(+), 30 deletions(-)

diff --git a/include/etr_bits/Allocation/AllocationUtils.hpp b/include/etr_bits/Allocation/AllocationUtils.hpp
index 23aa7ab..d131de8 100644
--- a/include/etr_bits/Allocation/AllocationUtils.hpp
+++ b/include/etr_bits/Allocation/AllocationUtils.hpp
@@ -55,6 +55,13 @@ template <typename T, typename VecType = BaseType> inline auto createRVec(T s) {
       SI{size});
 }
 
+// NOTE: a constant stored in AllVars may hold the values of an earlier one
+template <int Idx, typename AV>
+inline void zeroConstant(AV &av, std::size_t size) {
+  av.varConstants[Idx].resize(size);
+  av.varConstants[Idx].fill(0.0);
+}
+
 } // namespace etr
 
 #endif
diff --git a/include/etr_bits/Allocation/Vector.hpp b/include/etr_bits/Allocation/Vector.hpp
index 841cd45..c000e1d 100644
--- a/include/etr_bits/Allocation/Vector.hpp
+++ b/include/etr_bits/Allocation/Vector.hpp
@@ -103,21 +103,20 @@ template <int Idx, typename AV, typename T>
 inline auto vector_integer(AV &av, const T &inp) {
   using VecType = int;
   if constexpr (std::is_same_v<T, std::size_t>) {
-    av.varConstants[Idx].resize(convertSize(inp));
+    zeroConstant<Idx>(av, convertSize(inp));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_floating_point_v<T>) {
-    av.varConstants[Idx].resize(convertSize(inp));
-    av.varConstants[Idx].resize(convertSize(inp));
+    zeroConstant<Idx>(av, convertSize(inp));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_integral_v<T>) {
-    av.varConstants[Idx].resize(convertSize(inp));
+    zeroConstant<Idx>(av, convertSize(inp));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
-    av.varConstants[Idx].resize(convertSize(inp[0]));
+    zeroConstant<Idx>(av, convertSize(inp[0]));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else {
@@ -129,21 +128,20 @@ template <int Idx, typename AV, typename T>
 inline auto vector_integer(AV &av, T &inp) {
   using VecType = int;
   if constexpr (std::is_same_v<T, std::size_t>) {
-    av.varConstants[Idx].resize(convertSize(inp));
+    zeroConstant<Idx>(av, convertSize(inp));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_floating_point_v<T>) {
-    av.varConstants[Idx].resize(convertSize(inp));
-    av.varConstants[Idx].resize(convertSize(inp));
+    zeroConstant<Idx>(av, convertSize(inp));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_integral_v<T>) {
-    av.varConstants[Idx].resize(convertSize(inp));
+    zeroConstant<Idx>(av, convertSize(inp));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
-    av.varConstants[Idx].resize(convertSize(inp[0]));
+    zeroConstant<Idx>(av, convertSize(inp[0]));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else {
@@ -155,21 +153,20 @@ template <int Idx, typename AV, typename T>
 inline auto vector_logical(AV &av, const T &inp) {
   using VecType = bool;
   if constexpr (std::is_same_v<T, std::size_t>) {
-    av.varConstants[Idx].resize(convertSize(inp));
+    zeroConstant<Idx>(av, convertSize(inp));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_floating_point_v<T>) {
-    av.varConstants[Idx].resize(convertSize(inp));
-    av.varConstants[Idx].resize(convertSize(inp));
+    zeroConstant<Idx>(av, convertSize(inp));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_integral_v<T>) {
-    av.varConstants[Idx].resize(convertSize(inp));
+    zeroConstant<Idx>(av, convertSize(inp));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
-    av.varConstants[Idx].resize(convertSize(inp[0]));
+    zeroConstant<Idx>(av, convertSize(inp[0]));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else {
@@ -181,21 +178,20 @@ template <int Idx, typename AV, typename T>
 inline auto vector_logical(AV &av, T &inp) {
   using VecType = bool;
   if constexpr (std::is_same_v<T, std::size_t>) {
-    av.varConstants[Idx].resize(convertSize(inp));
+    zeroConstant<Idx>(av, convertSize(inp));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_floating_point_v<T>) {
-    av.varConstants[Idx].resize(convertSize(inp));
-    av.varConstants[Idx].resize(convertSize(inp));
+    zeroConstant<Idx>(av, convertSize(inp));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_integral_v<T>) {
-    av.varConstants[Idx].resize(convertSize(inp));
+    zeroConstant<Idx>(av, convertSize(inp));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
-    av.varConstants[Idx].resize(convertSize(inp[0]));
+    zeroConstant<Idx>(av, convertSize(inp[0]));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else {
@@ -207,21 +203,20 @@ template <int Idx, typename AV, typename T>
 inline auto vector_numeric(AV &av, const T &inp) {
   using VecType = BaseType;
   if constexpr (std::is_same_v<T, std::size_t>) {
-    av.varConstants[Idx].resize(convertSize(inp));
+    zeroConstant<Idx>(av, convertSize(inp));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_floating_point_v<T>) {
-    av.varConstants[Idx].resize(convertSize(inp));
-    av.varConstants[Idx].resize(convertSize(inp));
+    zeroConstant<Idx>(av, convertSize(inp));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_integral_v<T>) {
-    av.varConstants[Idx].resize(convertSize(inp));
+    zeroConstant<Idx>(av, convertSize(inp));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
-    av.varConstants[Idx].resize(convertSize(inp[0]));
+    zeroConstant<Idx>(av, convertSize(inp[0]));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else {
@@ -233,21 +228,20 @@ template <int Idx, typename AV, typename T>
 inline auto vector_numeric(AV &av, T &inp) {
   using VecType = BaseType;
   if constexpr (std::is_same_v<T, std::size_t>) {
-    av.varConstants[Idx].resize(convertSize(inp));
+    zeroConstant<Idx>(av, convertSize(inp));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_floating_point_v<T>) {
-    av.varConstants[Idx].resize(convertSize(inp));
-    av.varConstants[Idx].resize(convertSize(inp));
+    zeroConstant<Idx>(av, convertSize(inp));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_integral_v<T>) {
-    av.varConstants[Idx].resize(convertSize(inp));
+    zeroConstant<Idx>(av, convertSize(inp));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
-    av.varConstants[Idx].resize(convertSize(inp[0]));
+    zeroConstant<Idx>(av, convertSize(inp[0]));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else {
-- 
2.43.0


From c58fb580d0fe518c8a944476ea5575b45f3a0448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:16 +0000
Subject: [PATCH 32/34] fix: a scalar assigned to an active variable kept old
 derivatives

After b = a * a; b = 3.0 the derivative of b was still the one of a * a,
and a matrix variable kept its dimensions. A scalar is now treated like a
constant.
---
 include/etr_bits/Vector/AssignmentOperator.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index 22ddd1e..27a2231 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -4,6 +4,15 @@
 #include "VectorClass.hpp"
 #include <type_traits>
 
+// NOTE: a scalar assigned to an active variable is treated like a constant
+void setScalarDeriv() {
+  d.AllVarsRef.resizeDerivs(R::I, R::TIdx, 1);
+  const bool indep = d.AllVarsRef.IndepVarIdx == R::I &&
+                     d.AllVarsRef.IndepVarTypeIdx == R::TIdx;
+  d.setDeriv(d.AllVarsRef, 0, indep ? 1.0 : 0.0);
+  d.setMatrix(d.AllVarsRef, false, 0, 0);
+}
+
 template <typename TD>
   requires std::is_arithmetic_v<TD>
 Vec &operator=(const TD inp) {
@@ -25,6 +34,8 @@ Vec &operator=(const TD inp) {
       d[0] = inp;
       if constexpr (isBuffer::value)
         d.setMatrix(false, 0, 0);
+      else if constexpr (isVariableType::value)
+        setScalarDeriv();
     }
     return *this;
   } else {
@@ -41,6 +52,8 @@ Vec &operator=(const TD inp) {
       d[0] = static_cast<T>(inp);
       if constexpr (isBuffer::value)
         d.setMatrix(false, 0, 0);
+      else if constexpr (isVariableType::value)
+        setScalarDeriv();
     }
     return *this;
   }
-- 
2.43.0


From 843a41a889b8a82d7ad55c3f62b65ebd5615115c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:20 +0000
Subject: [PATCH 33/34] fix: li read behind its knots and never computed a
 slope

Every call threw (timeVec[timeVec.size()] is out of bounds), scalars did
not compile, and the slope between two knots was never assigned.
---
 include/etr_bits/Interpolation.hpp | 86 +++++++++---------------------
 1 file changed, 24 insertions(+), 62 deletions(-)

diff --git a/include/etr_bits/Interpolation.hpp b/include/etr_bits/Interpolation.hpp
index dd943e8..9efc673 100644
--- a/include/etr_bits/Interpolation.hpp
+++ b/include/etr_bits/Interpolation.hpp
@@ -9,71 +9,33 @@ namespace etr {
 
 template <typename A, typename B, typename C>
 inline double li(const A &t_, const B &timeVec, const C &parVec) {
-  using typeTraitA = std::remove_reference<decltype(t_)>::type::TypeTrait;
-  using typeTraitB = std::remove_reference<decltype(timeVec)>::type::TypeTrait;
-  using typeTraitC = std::remove_reference<decltype(parVec)>::type::TypeTrait;
-  using isVecA = std::is_same<typeTraitA, VectorTrait>;
-  using isVecB = std::is_same<typeTraitB, VectorTrait>;
-  using isVecC = std::is_same<typeTraitC, VectorTrait>;
-
-  if constexpr (isVecA::value && isVecB::value && isVecC::value) {
+  static_assert((IsRVec<B> || IsSubVec<B> || OperationVec<B> || IsVec<B>) &&
+                    (IsRVec<C> || IsSubVec<C> || OperationVec<C> || IsVec<C>),
+                "Input for interpolation has to be scalar, vec, vec");
+  double t;
+  if constexpr (std::is_arithmetic_v<A>) {
+    t = static_cast<BaseType>(t_);
+  } else {
     ass(t_.size() == 1, "timepoint input has to have length == 1");
-    double t = t_[0];
-    double t0, t1;
-    double y0, y1, deltaPar, deltaT, m;
-    double ret;
-    ass(timeVec.size() == parVec.size(), "x and y differ in length");
-    // not in boundaries
-    if (t >= timeVec[timeVec.size()]) {
-      ret = parVec[parVec.size()];
-      return ret;
-    } else if (t <= timeVec[0]) {
-      ret = parVec[0];
-      return ret;
-    }
-    // in boundaries
-    for (std::size_t i = 0; i < timeVec.size(); i++) {
-      if (t >= timeVec[i] && t < timeVec[i + 1]) {
-        t0 = timeVec[i];
-        t1 = timeVec[i + 1];
-        y0 = parVec[i];
-        y1 = parVec[i + 1];
-        deltaPar = y1 - y0;
-        deltaT = t1 - t0;
-        ret = m * (t - t0) + y0;
-      }
-    }
-    return (ret);
-  } else if constexpr (!isVecA::value && isVecB::value && isVecC::value) {
-    double t = static_cast<BaseType>(t_);
-    double t0, t1;
-    double y0, y1, deltaPar, deltaT, m;
-    double ret;
-    ass(timeVec.size() == parVec.size(), "x and y differ in length");
-    // not in boundaries
-    if (t >= timeVec[timeVec.size()]) {
-      ret = parVec[parVec.size()];
-      return ret;
-    } else if (t <= timeVec[0]) {
-      ret = parVec[0];
-      return ret;
-    }
-    // in boundaries
-    for (std::size_t i = 0; i < timeVec.size(); i++) {
-      if (t >= timeVec[i] && t < timeVec[i + 1]) {
-        t0 = timeVec[i];
-        t1 = timeVec[i + 1];
-        y0 = parVec[i];
-        y1 = parVec[i + 1];
-        deltaPar = y1 - y0;
-        deltaT = t1 - t0;
-        ret = m * (t - t0) + y0;
-      }
+    t = t_[0];
+  }
+  ass(timeVec.size() == parVec.size(), "x and y differ in length");
+  ass(timeVec.size() >= 1, "time and parameter require at least 1 element");
+  // not in boundaries
+  const std::size_t last = timeVec.size() - 1;
+  if (t >= timeVec[last]) {
+    return parVec[last];
+  } else if (t <= timeVec[0]) {
+    return parVec[0];
+  }
+  // in boundaries
+  for (std::size_t i = 0; i < last; i++) {
+    if (t >= timeVec[i] && t < timeVec[i + 1]) {
+      double m = (parVec[i + 1] - parVec[i]) / (timeVec[i + 1] - timeVec[i]);
+      return m * (t - timeVec[i]) + parVec[i];
     }
-    return (ret);
-  } else {
-    ass(false, "Input for interpolation has to be scalar, vec, vec");
   }
+  return t; // NOTE: t is not a number
 }
 
 template <typename A, typename B, typename C>
-- 
2.43.0


From a7f03f5118ddd01fe7807b88b154890d2c9d4bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:01 +0000
Subject: [PATCH 34/34] fix: iterating over a subset visits its elements

---
 include/etr_bits/Core/Utils.hpp         | 14 ++++++++++++++
 include/etr_bits/Vector/VectorClass.hpp |  4 ++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/etr_bits/Core/Utils.hpp b/include/etr_bits/Core/Utils.hpp
index 5161f43..a438a0f 100644
--- a/include/etr_bits/Core/Utils.hpp
+++ b/include/etr_bits/Core/Utils.hpp
@@ -61,6 +61,20 @@ inline void ass(bool inp, std::string message) {
 #endif
 }
 
+// NOTE: visits the selected elements of a subset in order
+template <typename T, typename S> struct SubsetIt {
+  const S *s;
+  std::size_t i;
+  T &operator*() {
+    const std::size_t idx = s->ind[i];
+    ass(idx < s->p->size(),
+        "Error: out of boundaries --> value beyond size of vector");
+    return s->p->p[idx];
+  }
+  bool operator!=(const SubsetIt &rhs) { return i != rhs.i; }
+  void operator++() { ++i; }
+};
+
 inline void warn(bool inp, std::string message) {
 #ifdef STANDALONE_ETR
   if (!inp)
diff --git a/include/etr_bits/Vector/VectorClass.hpp b/include/etr_bits/Vector/VectorClass.hpp
index e7b6b42..cebd234 100644
--- a/include/etr_bits/Vector/VectorClass.hpp
+++ b/include/etr_bits/Vector/VectorClass.hpp
@@ -60,14 +60,14 @@ template <typename T, typename R, typename Trait> struct Vec {
 
   auto begin() const {
     if constexpr (isSubset::value) {
-      return It<T>{d.p->p};
+      return SubsetIt<T, R>{&d, 0};
     } else {
       return It<T>{d.p};
     }
   }
   auto end() const {
     if constexpr (isSubset::value) {
-      return It<T>{d.p->p + this->size()};
+      return SubsetIt<T, R>{&d, this->size()};
     } else {
       return It<T>{d.p + this->size()};
     }
-- 
2.43.0

