From 02f298ca31af4f3e07a89b977c0bb75185db8cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:44 +0000
Subject: [PATCH 01/89] fix: do not read past the dimensions array when
 reporting an out-of-bounds index

---
 include/vif/core/bits/access.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/core/bits/access.hpp b/include/vif/core/bits/access.hpp
index 857143b..f0b2ffb 100644
--- a/include/vif/core/bits/access.hpp
+++ b/include/vif/core/bits/access.hpp
@@ -298,7 +298,7 @@ namespace vec_access {
 
     template<std::size_t I, std::size_t D, typename T>
     uint_t to_idx_(std::array<uint_t,D> dims, T ui, meta::cte_t<false>) {
-        vif_check(ui < dims[I], "operator(): index out of bounds (", ui, " vs. ", dims[D], ")");
+        vif_check(ui < dims[I], "operator(): index out of bounds (", ui, " vs. ", dims[I], ")");
         return ui;
     }
 
-- 
2.43.0


From 9c3b1df893141b29d7904134398ea79906b9224c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:44 +0000
Subject: [PATCH 02/89] fix: negative indices of narrow integer types must not
 wrap around

---
 include/vif/core/bits/access.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/vif/core/bits/access.hpp b/include/vif/core/bits/access.hpp
index f0b2ffb..0ed19a5 100644
--- a/include/vif/core/bits/access.hpp
+++ b/include/vif/core/bits/access.hpp
@@ -288,7 +288,8 @@ namespace vec_access {
     }
 
     template<typename T>
-    uint_t to_idx_(uint_t size, T i, meta::cte_t<true>) {
+    uint_t to_idx_(uint_t size, T ti, meta::cte_t<true>) {
+        int_t i = ti; // avoid overflows below if T is smaller than int_t
         vif_check(size > 0, "operator[]: index out of bounds (", i, " vs. ", size, ")");
         while (i < 0) i += size;
         uint_t ui(i);
@@ -303,7 +304,8 @@ namespace vec_access {
     }
 
     template<std::size_t I, std::size_t D, typename T>
-    uint_t to_idx_(std::array<uint_t,D> dims, T i, meta::cte_t<true>) {
+    uint_t to_idx_(std::array<uint_t,D> dims, T ti, meta::cte_t<true>) {
+        int_t i = ti; // avoid overflows below if T is smaller than int_t
         vif_check(dims[I] > 0, "operator[]: index out of bounds (", i, " vs. ", dims[I], ")");
         while (i < 0) i += dims[I];
         uint_t ui(i);
-- 
2.43.0


From 00a1c7d6558c3449fa20477c3f3e78ea2fefaad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:29 +0000
Subject: [PATCH 03/89] fix: move assignment must leave the source vector empty
 with null dimensions

---
 include/vif/core/vec.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/vif/core/vec.hpp b/include/vif/core/vec.hpp
index 2551dc6..cc383a0 100644
--- a/include/vif/core/vec.hpp
+++ b/include/vif/core/vec.hpp
@@ -145,8 +145,11 @@ namespace vif {
         }
 
         vec& operator = (vec&& v) {
-            data = std::move(v.data);
-            dims = std::move(v.dims);
+            if (this != &v) {
+                data = std::move(v.data);
+                dims = v.dims;
+                v.clear();
+            }
             return *this;
         }
 
-- 
2.43.0


From 30159a142c638d7261778b29067a89c104ae0230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:29 +0000
Subject: [PATCH 04/89] fix: accept negative indices in index vectors given to
 operator()

---
 include/vif/core/bits/access.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vif/core/bits/access.hpp b/include/vif/core/bits/access.hpp
index 0ed19a5..8c3d0df 100644
--- a/include/vif/core/bits/access.hpp
+++ b/include/vif/core/bits/access.hpp
@@ -424,7 +424,7 @@ namespace vec_access {
         static void make_indices_(type& t, uint_t& itx, itype& v, uint_t ivx, meta::cte_t<Dim-1>,
             const std::array<uint_t, Dim>& pitch, const vec<1,T>& ids) {
 
-            for (uint_t j : ids) {
+            for (auto j : ids) {
                 t.data[itx] = impl::ptr<Type>(v.data[ivx+to_idx<Dim-1>(v,j)]);
                 ++itx;
             }
@@ -459,7 +459,7 @@ namespace vec_access {
         static void make_indices_(type& t, uint_t& itx, itype& v, uint_t ivx, meta::cte_t<IV>,
             const std::array<uint_t, Dim>& pitch, const vec<1,T>& ids, const Args2& ... i) {
 
-            for (uint_t j : ids) {
+            for (auto j : ids) {
                 make_indices_(t, itx, v, ivx + to_idx<IV>(v,j)*pitch[IV], meta::cte_t<IV+1>(),
                     pitch, i...
                 );
@@ -544,7 +544,7 @@ namespace vec_access {
             t.resize();
 
             uint_t itx = 0;
-            for (uint_t i : ids) {
+            for (auto i : ids) {
                 t.data[itx] = impl::ptr<Type>(v.data[to_idx(v,i)]);
                 ++itx;
             }
-- 
2.43.0


From a4aa0d6b9cd8bb717fb2e27ad841267db4f6cc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:29 +0000
Subject: [PATCH 05/89] fix: check the bounds of an index range before
 computing the size of the view

---
 include/vif/core/range.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/vif/core/range.hpp b/include/vif/core/range.hpp
index f354349..8c1e69b 100644
--- a/include/vif/core/range.hpp
+++ b/include/vif/core/range.hpp
@@ -160,12 +160,15 @@ namespace impl {
             return size;
         }
         inline uint_t range_size(left_range_t rng, uint_t size) {
+            check_bounds(rng, size);
             return rng.last+1;
         }
         inline uint_t range_size(right_range_t rng, uint_t size) {
+            check_bounds(rng, size);
             return size - rng.first;
         }
         inline uint_t range_size(left_right_range_t rng, uint_t size) {
+            check_bounds(rng, size);
             return (rng.last+1) - rng.first;
         }
     }
-- 
2.43.0


From 55850c8156ea48b790214b4bb10e2177f35d7bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:21 +0000
Subject: [PATCH 06/89] fix: a range view of a view must reference the vector,
 not the temporary view

The parent pointer is used to detect aliasing in assignments; with the address
of the intermediate view, 'v[1-_] = w[_-2]' (w a view of v) overwrote elements
before reading them.
---
 include/vif/core/bits/access.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/core/bits/access.hpp b/include/vif/core/bits/access.hpp
index 8c3d0df..e43ec80 100644
--- a/include/vif/core/bits/access.hpp
+++ b/include/vif/core/bits/access.hpp
@@ -645,7 +645,7 @@ namespace vec_access {
     template<typename V, typename T>
     auto bracket_access(V& parent, const T& rng) ->
         vec<1,meta::constify<typename V::rtype, V>*> {
-        vec<1,meta::constify<typename V::rtype, V>*> v(impl::vec_ref_tag, parent);
+        vec<1,meta::constify<typename V::rtype, V>*> v(impl::vec_ref_tag, get_parent(parent));
         v.dims[0] = impl::range_impl::range_size(rng, parent.size());
         v.data.resize(v.dims[0]);
 
-- 
2.43.0


From 2bcc03ce14c8f61087266d66df13acdf1c3925d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:21 +0000
Subject: [PATCH 07/89] fix: detect aliasing between a view and a const view of
 the same vector

With 'const auto& c = v', 'v[a] = c[b]' and 'v += c[b]' were not recognised as
aliasing and read elements that had already been overwritten.
---
 include/vif/core/vec.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/vif/core/vec.hpp b/include/vif/core/vec.hpp
index cc383a0..da28262 100644
--- a/include/vif/core/vec.hpp
+++ b/include/vif/core/vec.hpp
@@ -199,6 +199,11 @@ namespace vif {
             return v.view_same(*this);
         }
 
+        template<std::size_t D>
+        bool view_same(const vec<D,const Type*>& v) const {
+            return v.view_same(*this);
+        }
+
         bool empty() const {
             return data.empty();
         }
@@ -805,13 +810,18 @@ namespace vif {
         }
 
         template<std::size_t D>
-        bool view_same(const vec<D,Type*>& v) const {
+        bool view_same(const vec<D,rtype*>& v) const {
+            return v.parent == parent;
+        }
+
+        template<std::size_t D>
+        bool view_same(const vec<D,const rtype*>& v) const {
             return v.parent == parent;
         }
 
         template<std::size_t D>
-        bool view_same(const vec<D,Type>& v) const {
-            return static_cast<void*>(const_cast<vec<D,Type>*>(&v)) == parent;
+        bool view_same(const vec<D,rtype>& v) const {
+            return static_cast<void*>(const_cast<vec<D,rtype>*>(&v)) == parent;
         }
 
         bool empty() const {
-- 
2.43.0


From 3b103638b83d4e2edf9bffed6c1f1e4d98548b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:21 +0000
Subject: [PATCH 08/89] fix: compound assignment operators must take scalars by
 value

As documented; 'v += v[0]' modified v[0] first and then used the new value.
---
 include/vif/core/vec.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/core/vec.hpp b/include/vif/core/vec.hpp
index da28262..745f781 100644
--- a/include/vif/core/vec.hpp
+++ b/include/vif/core/vec.hpp
@@ -597,7 +597,7 @@ namespace vif {
             template<typename U, typename enable = typename std::enable_if< \
                 meta::is_scalar<U>::value \
             >::type> \
-            vec& operator op (const U& u) { \
+            vec& operator op (U u) { \
                 for (auto& v : data) { \
                     v op u; \
                 } \
-- 
2.43.0


From 003fdcc0ca987319fdb0f8d137c48739be67caa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:06 +0000
Subject: [PATCH 09/89] fix: shifting an empty vector must not divide by zero

---
 include/vif/utility/bits/generic-rearrange.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vif/utility/bits/generic-rearrange.hpp b/include/vif/utility/bits/generic-rearrange.hpp
index a1b6226..29d836e 100644
--- a/include/vif/utility/bits/generic-rearrange.hpp
+++ b/include/vif/utility/bits/generic-rearrange.hpp
@@ -12,6 +12,8 @@ namespace vif {
     template<typename Type,
         typename enable = typename std::enable_if<!std::is_pointer<Type>::value>::type>
     void inplace_shift(vec<1,Type>& v, int_t n) {
+        if (v.empty()) return;
+
         n = (-n) % int_t(v.size());
         if (n < 0) n = int_t(v.size())+n;
 
-- 
2.43.0


From 269c7f0ebd272e40da24f047384795c60f3ae3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:06 +0000
Subject: [PATCH 10/89] fix: replicating an empty vector must not divide by
 zero

---
 include/vif/utility/bits/generic-rearrange.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vif/utility/bits/generic-rearrange.hpp b/include/vif/utility/bits/generic-rearrange.hpp
index 29d836e..c183d0a 100644
--- a/include/vif/utility/bits/generic-rearrange.hpp
+++ b/include/vif/utility/bits/generic-rearrange.hpp
@@ -55,6 +55,8 @@ namespace vif {
         static const std::size_t FDim = Dim+meta::dim_total<Args...>::value;
         vec<FDim, meta::rtype_t<Type>> v(std::forward<Args>(args)..., t.dims);
 
+        if (t.empty()) return v;
+
         std::size_t pitch = t.size();
         std::size_t n = v.size()/pitch;
         for (uint_t i : range(n))
-- 
2.43.0


From 19b8b3f0511acf4b9d95971d5a0c9ebdf58b073a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:09 +0000
Subject: [PATCH 11/89] fix: is_sorted must accept equal elements and empty
 vectors

A vector with repeated values was reported as not sorted right after
inplace_sort(), and an empty vector was read out of bounds because range(1,0)
is a decreasing range of one element.
---
 include/vif/utility/bits/generic-rearrange.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/utility/bits/generic-rearrange.hpp b/include/vif/utility/bits/generic-rearrange.hpp
index c183d0a..772d5ef 100644
--- a/include/vif/utility/bits/generic-rearrange.hpp
+++ b/include/vif/utility/bits/generic-rearrange.hpp
@@ -112,8 +112,8 @@ namespace vif {
     // Check if a given array is sorted or not
     template<std::size_t Dim, typename Type>
     bool is_sorted(const vec<Dim,Type>& v) {
-        for (uint_t i : range(1, v.size())) {
-            if (!typename vec<Dim,Type>::comparator_less()(v.safe[i-1], v.safe[i])) return false;
+        for (uint_t i = 1; i < v.size(); ++i) {
+            if (typename vec<Dim,Type>::comparator_less()(v.safe[i], v.safe[i-1])) return false;
         }
 
         return true;
-- 
2.43.0


From 8cbe4cd83c0f3cfcaff6b3844158c444d9e0156e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:43 +0000
Subject: [PATCH 12/89] fix: remove() must check indices against the first
 dimension

For multi-dimensional vectors the indices were compared to the total number of
elements, so removing a row that does not exist erased past the end.
---
 include/vif/utility/bits/generic-rearrange.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/utility/bits/generic-rearrange.hpp b/include/vif/utility/bits/generic-rearrange.hpp
index 772d5ef..72c6a4c 100644
--- a/include/vif/utility/bits/generic-rearrange.hpp
+++ b/include/vif/utility/bits/generic-rearrange.hpp
@@ -126,7 +126,7 @@ namespace vif {
 
         uint_t i = 0;
         uint_t pitch = v.pitch(0);
-        uint_t osize = v.size();
+        uint_t osize = v.dims[0];
         while (i < ids.size()) {
             uint_t i1 = ids.safe[ids.size()-1-i];
             uint_t i0 = i1;
-- 
2.43.0


From 61c3f9b624ba19eca887ead542e27381f84320af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:43 +0000
Subject: [PATCH 13/89] fix: remove() must detect every duplicated index

Only duplicates of the largest index of a contiguous group were detected; with
others, e.g. {1,1,2}, the dimensions did not match the data any more.
---
 include/vif/utility/bits/generic-rearrange.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vif/utility/bits/generic-rearrange.hpp b/include/vif/utility/bits/generic-rearrange.hpp
index 72c6a4c..dda2b26 100644
--- a/include/vif/utility/bits/generic-rearrange.hpp
+++ b/include/vif/utility/bits/generic-rearrange.hpp
@@ -136,9 +136,10 @@ namespace vif {
 
             ++i;
             while (i < ids.size() && i0 - ids.safe[ids.size()-1-i] <= 1) {
+                vif_check(ids.safe[ids.size()-1-i] != i0, "remove indices contain duplicates");
+
                 i0 = ids.safe[ids.size()-1-i];
 
-                vif_check(i0 != i1, "remove indices contain duplicates");
                 vif_check(i0 < osize, "trying to erase value ", i0, " in vector of "
                     "dimensions ", v.dims);
 
-- 
2.43.0


From 20665d7abe1ad1af42468bf29efab6b7355f56b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:43 +0000
Subject: [PATCH 14/89] fix: append/prepend must require identical dimensions
 other than the appended one

Only the number of elements was compared, so (2,3,4) and (1,4,3) vectors were
combined into garbage.
---
 include/vif/utility/bits/generic-rearrange.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/vif/utility/bits/generic-rearrange.hpp b/include/vif/utility/bits/generic-rearrange.hpp
index dda2b26..a280587 100644
--- a/include/vif/utility/bits/generic-rearrange.hpp
+++ b/include/vif/utility/bits/generic-rearrange.hpp
@@ -170,8 +170,10 @@ namespace vif {
         if (t2.empty()) return;
 
         std::size_t n1 = t1.dims[N], n2 = t2.dims[N];
-        vif_check(t1.size()/n1 == t2.size()/n2, "cannot append dimension ", N, " in (", t1.dims,
-            ") and (", t2.dims, ")");
+        for (uint_t i : range(Dim)) {
+            vif_check(i == N || t1.dims[i] == t2.dims[i], "cannot append dimension ", N, " in (",
+                t1.dims, ") and (", t2.dims, ")");
+        }
 
         // TODO: (optimization) no need for this copy?
         auto tmp = t1;
@@ -193,8 +195,10 @@ namespace vif {
         if (t2.empty()) return;
 
         std::size_t n1 = t1.dims[N], n2 = t2.dims[N];
-        vif_check(t1.size()/n1 == t2.size()/n2, "cannot prepend dimension ", N, " in (", t1.dims,
-            ") and (", t2.dims, ")");
+        for (uint_t i : range(Dim)) {
+            vif_check(i == N || t1.dims[i] == t2.dims[i], "cannot prepend dimension ", N, " in (",
+                t1.dims, ") and (", t2.dims, ")");
+        }
 
         // TODO: (optimization) no need for this copy?
         auto tmp = t1;
-- 
2.43.0


From 392d3ba71699c81f1ded0bb61d48278a900c5005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:33 +0000
Subject: [PATCH 15/89] fix: append/prepend of a vector to itself or of a view
 on itself

The source was read after the destination had been resized (dangling iterators).
---
 .../vif/utility/bits/generic-rearrange.hpp    | 33 +++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/include/vif/utility/bits/generic-rearrange.hpp b/include/vif/utility/bits/generic-rearrange.hpp
index a280587..31e414b 100644
--- a/include/vif/utility/bits/generic-rearrange.hpp
+++ b/include/vif/utility/bits/generic-rearrange.hpp
@@ -159,6 +159,15 @@ namespace vif {
         return v;
     }
 
+    namespace impl {
+        // Check if 't2' is either 't1' itself or a view on it
+        template<std::size_t Dim, typename Type1, typename Type2>
+        bool is_aliased(const vec<Dim,Type1>& t1, const vec<Dim,Type2>& t2) {
+            return static_cast<const void*>(&t1) == static_cast<const void*>(&t2) ||
+                t1.view_same(t2);
+        }
+    }
+
     template<std::size_t N, std::size_t Dim, typename Type1, typename Type2 = Type1,
         typename enable = typename std::enable_if<(N < Dim) && !std::is_pointer<Type1>::value>::type>
     void append(vec<Dim,Type1>& t1, const vec<Dim,Type2>& t2) {
@@ -169,6 +178,12 @@ namespace vif {
 
         if (t2.empty()) return;
 
+        if (impl::is_aliased(t1, t2)) {
+            const vec<Dim,meta::rtype_t<Type2>> tmp2 = t2;
+            append<N>(t1, tmp2);
+            return;
+        }
+
         std::size_t n1 = t1.dims[N], n2 = t2.dims[N];
         for (uint_t i : range(Dim)) {
             vif_check(i == N || t1.dims[i] == t2.dims[i], "cannot append dimension ", N, " in (",
@@ -194,6 +209,12 @@ namespace vif {
 
         if (t2.empty()) return;
 
+        if (impl::is_aliased(t1, t2)) {
+            const vec<Dim,meta::rtype_t<Type2>> tmp2 = t2;
+            prepend<N>(t1, tmp2);
+            return;
+        }
+
         std::size_t n1 = t1.dims[N], n2 = t2.dims[N];
         for (uint_t i : range(Dim)) {
             vif_check(i == N || t1.dims[i] == t2.dims[i], "cannot prepend dimension ", N, " in (",
@@ -212,6 +233,12 @@ namespace vif {
     template<typename Type1, typename Type2 = Type1,
         typename enable = typename std::enable_if<!std::is_pointer<Type1>::value>::type>
     void append(vec<1,Type1>& t1, const vec<1,Type2>& t2) {
+        if (impl::is_aliased(t1, t2)) {
+            const vec<1,meta::rtype_t<Type2>> tmp2 = t2;
+            append(t1, tmp2);
+            return;
+        }
+
         t1.data.insert(t1.data.end(), t2.begin(), t2.end());
         t1.dims[0] += t2.dims[0];
     }
@@ -219,6 +246,12 @@ namespace vif {
     template<typename Type1, typename Type2 = Type1,
         typename enable = typename std::enable_if<!std::is_pointer<Type1>::value>::type>
     void prepend(vec<1,Type1>& t1, const vec<1,Type2>& t2) {
+        if (impl::is_aliased(t1, t2)) {
+            const vec<1,meta::rtype_t<Type2>> tmp2 = t2;
+            prepend(t1, tmp2);
+            return;
+        }
+
         t1.data.insert(t1.data.begin(), t2.begin(), t2.end());
         t1.dims[0] += t2.dims[0];
     }
-- 
2.43.0


From aa9f8ee49944702db8a4ada933e889895a1b3f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:14 +0000
Subject: [PATCH 16/89] fix: equal_range must return the first and last index,
 or npos if there is no match

As documented: equal_range({2,2,5,9,9,9,12,50}, 9) is {3,5}. It returned {3,6}, and
{2,2} rather than {npos,npos} for a value that is not in the vector.
---
 include/vif/utility/bits/generic-find.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/utility/bits/generic-find.hpp b/include/vif/utility/bits/generic-find.hpp
index 99e4769..6fbe1e0 100644
--- a/include/vif/utility/bits/generic-find.hpp
+++ b/include/vif/utility/bits/generic-find.hpp
@@ -421,9 +421,9 @@ namespace vif {
         auto tres = std::equal_range(v.data.begin(), v.data.end(), x,
             typename vec<Dim,Type>::comparator_less());
 
-        if (tres.first != v.data.end()) {
+        if (tres.first != tres.second) {
             res[0] = tres.first - v.data.begin();
-            res[1] = tres.second - v.data.begin();
+            res[1] = tres.second - v.data.begin() - 1;
         } else {
             res[0] = res[1] = npos;
         }
-- 
2.43.0


From c93511e72b8bad8959eab35452fe86e58372e3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:12 +0000
Subject: [PATCH 17/89] fix: match() must give the documented result for large
 vectors too

With 64 or more elements, repeated values of the first vector were matched at
most once per occurence in the second, NaN values were matched to anything, and
the pairs were ordered by value instead of following the first vector.
---
 include/vif/utility/bits/generic-find.hpp | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/include/vif/utility/bits/generic-find.hpp b/include/vif/utility/bits/generic-find.hpp
index 6fbe1e0..2f415dc 100644
--- a/include/vif/utility/bits/generic-find.hpp
+++ b/include/vif/utility/bits/generic-find.hpp
@@ -222,22 +222,17 @@ namespace vif {
             id1.dims[0] = id1.data.size();
             id2.dims[0] = id2.data.size();
         } else {
-            // Sort the two vectors and traverse
-            vec1u ids1 = sort(v1);
+            // Sort the second vector and look for the first occurence of each value
             vec1u ids2 = sort(v2);
+            for (uint_t i : range(n1)) {
+                auto iter = std::lower_bound(ids2.data.begin(), ids2.data.end(), i,
+                    [&](uint_t j, uint_t k) {
+                    return v2.safe[j] < v1.safe[k];
+                });
 
-            uint_t i1 = 0, i2 = 0;
-            while (i1 < n1 && i2 < n2) {
-                auto tv1 = v1.safe[ids1.safe[i1]];
-                auto tv2 = v2.safe[ids2.safe[i2]];
-                if (tv1 < tv2) {
-                    ++i1;
-                } else if (tv1 > tv2) {
-                    ++i2;
-                } else {
-                    id1.data.push_back(ids1.safe[i1]);
-                    id2.data.push_back(ids2.safe[i2]);
-                    ++i1; ++i2;
+                if (iter != ids2.data.end() && v2.safe[*iter] == v1.safe[i]) {
+                    id1.data.push_back(i);
+                    id2.data.push_back(*iter);
                 }
             }
 
-- 
2.43.0


From 0febc60236411da1e3662312604bc89a5fcead41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:43 +0000
Subject: [PATCH 18/89] fix: cumul_reverse must accumulate all the following
 elements

Each element was only summed with its immediate successor.
---
 include/vif/math/histogram.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/histogram.hpp b/include/vif/math/histogram.hpp
index 731d2a1..222d137 100644
--- a/include/vif/math/histogram.hpp
+++ b/include/vif/math/histogram.hpp
@@ -379,7 +379,7 @@ namespace vif {
         vec<1,meta::rtype_t<TypeY>> dr(y.dims);
         for (uint_t i : range(y)) {
             uint_t ri = y.size()-1-i;
-            if (i != 0) dr.safe[ri] = y.safe[ri+1];
+            if (i != 0) dr.safe[ri] = dr.safe[ri+1];
             dr.safe[ri] += y.safe[ri];
         }
 
-- 
2.43.0


From c9b5b623d6735af4237c1fbbad27136090321200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:43 +0000
Subject: [PATCH 19/89] fix: use the right interval width in the cubic spline
 coefficients

For unevenly spaced data the slope of the previous interval was computed with the
width of the next one, so that even a straight line was not reproduced.
---
 include/vif/math/interpolate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/interpolate.hpp b/include/vif/math/interpolate.hpp
index 8469068..16c3a2c 100644
--- a/include/vif/math/interpolate.hpp
+++ b/include/vif/math/interpolate.hpp
@@ -285,7 +285,7 @@ namespace vif {
             vec1d al(n);
             for (uint_t i : range(1, n)) {
                 al.safe[i] = 3.0*(y.safe[i+1] - y.safe[i])/h.safe[i]
-                           - 3.0*(y.safe[i] - y.safe[i-1])/h.safe[i];
+                           - 3.0*(y.safe[i] - y.safe[i-1])/h.safe[i-1];
             }
 
             vec1d l(n+1), mu(n+1), z(n+1);
-- 
2.43.0


From 98ffae489aa0766e9897f2b84062cd64ab995b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:43 +0000
Subject: [PATCH 20/89] fix: interpolation in maps that are too small read out
 of bounds

---
 include/vif/math/interpolate.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/vif/math/interpolate.hpp b/include/vif/math/interpolate.hpp
index 16c3a2c..86acf59 100644
--- a/include/vif/math/interpolate.hpp
+++ b/include/vif/math/interpolate.hpp
@@ -159,6 +159,9 @@ namespace vif {
 
     template<typename Type>
     meta::rtype_t<Type> bilinear(const vec<2,Type>& map, double x, double y) {
+        vif_check(map.dims[0] >= 2 && map.dims[1] >= 2, "bilinear: map must contain at least 2x2 "
+            "elements (got ", map.dims, ")");
+
         int_t tix = floor(x);
         int_t tiy = floor(y);
         double dx = x - tix;
@@ -232,7 +235,7 @@ namespace vif {
         int_t tix = floor(x);
         int_t tiy = floor(y);
 
-        if (tix < 0 || uint_t(tix) >= map.dims[0]-1 || tiy < 0 || uint_t(tiy) >= map.dims[1]-1) {
+        if (tix < 0 || uint_t(tix)+1 >= map.dims[0] || tiy < 0 || uint_t(tiy)+1 >= map.dims[1]) {
             return def;
         }
 
@@ -468,7 +471,7 @@ namespace vif {
         int_t tix = floor(x);
         int_t tiy = floor(y);
 
-        if (tix <= 0 || uint_t(tix) >= map.dims[0]-2 || tiy <= 0 || uint_t(tiy) >= map.dims[1]-2) {
+        if (tix <= 0 || uint_t(tix)+2 >= map.dims[0] || tiy <= 0 || uint_t(tiy)+2 >= map.dims[1]) {
             return def;
         }
 
-- 
2.43.0


From 32458d7fefd99ef0c0fc92d1745faa9625c768c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:43 +0000
Subject: [PATCH 21/89] fix: integrate and cumul read out of bounds for empty
 vectors

range(1,0) is a decreasing range of one element.
---
 include/vif/math/reduce.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/math/reduce.hpp b/include/vif/math/reduce.hpp
index fd1f59d..22d2c69 100644
--- a/include/vif/math/reduce.hpp
+++ b/include/vif/math/reduce.hpp
@@ -694,7 +694,7 @@ namespace vif {
             "incompatible x and y array dimensions (", x.size(), " vs ", y.size(), ")");
 
         decltype(0.5*y[0]*(x[1]-x[0])) r = 0;
-        for (uint_t i : range(1, x.size())) {
+        for (uint_t i = 1; i < x.size(); ++i) {
             r += 0.5*(y.safe[i]+y.safe[i-1])*(x.safe[i]-x.safe[i-1]);
         }
 
@@ -870,7 +870,7 @@ namespace vif {
             "incompatible x and y array dimensions (", x.size(), " vs ", y.size(), ")");
 
         decltype(0.5*y[0]*(x[1]-x[0])) r = 0;
-        for (uint_t i : range(1, x.size())) {
+        for (uint_t i = 1; i < x.size(); ++i) {
             r += 0.5*(y.safe[i]+y.safe[i-1])*(x.safe[i]-x.safe[i-1]);
             dr.safe[i] = r;
         }
-- 
2.43.0


From bd5d16fa3f81423922160a4e4f7d7aa92b6f6117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:43 +0000
Subject: [PATCH 22/89] fix: integrating from the last point of the array read
 out of bounds

upper_bound() returns npos in this case, which was used as an index.
---
 include/vif/math/reduce.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vif/math/reduce.hpp b/include/vif/math/reduce.hpp
index 22d2c69..30c45f9 100644
--- a/include/vif/math/reduce.hpp
+++ b/include/vif/math/reduce.hpp
@@ -734,6 +734,7 @@ namespace vif {
         vif_check(x.back()  >= x1, "x array does not cover x1 (", x.back(),  " vs. ", x1, ")");
 
         uint_t i0 = upper_bound(x, x0);
+        if (i0 == npos) i0 = x.size()-1;
         uint_t i1 = lower_bound(x, x1);
 
         if (i0 > i1) {
@@ -810,7 +811,7 @@ namespace vif {
             // No hint provided, look for solution the best way we can
             i0 = upper_bound(x, x0);
             if (i0 == npos) {
-                i1 = x.size()-1;
+                i0 = i1 = x.size()-1;
             } else {
                 i1 = i0-1;
                 while (i1 < x.size()-1 && x.safe[i1+1] <= x1) {
-- 
2.43.0


From 1101d8e108eadb29639455e6f02102d5b7359bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:43 +0000
Subject: [PATCH 23/89] fix: the first partial bin of a binned integral must
 use the value of that bin

The interval between x0 and the next bin edge was weighted with the value of the
next bin.
---
 include/vif/math/reduce.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/reduce.hpp b/include/vif/math/reduce.hpp
index 30c45f9..45ce451 100644
--- a/include/vif/math/reduce.hpp
+++ b/include/vif/math/reduce.hpp
@@ -786,7 +786,7 @@ namespace vif {
                 r += y.safe[i]*(x.safe[i+x.dims[1]]-x.safe[i]);
             }
 
-            r += y.safe[i0]*(x.safe[i0] - x0);
+            r += y.safe[i0-1]*(x.safe[i0] - x0);
             r += y.safe[i1]*(x1 - x.safe[i1]);
 
             return r;
-- 
2.43.0


From 3b1b46f0eba430ba31b80d8d0ae84b602f6ae07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:43 +0000
Subject: [PATCH 24/89] fix: percentiles must never pick a NaN when there are
 finite values

The rank was clamped to the total number of elements, so percentile(v,1.0) was
NaN as soon as one element was.
---
 include/vif/math/reduce.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/vif/math/reduce.hpp b/include/vif/math/reduce.hpp
index 45ce451..cd78bb3 100644
--- a/include/vif/math/reduce.hpp
+++ b/include/vif/math/reduce.hpp
@@ -213,7 +213,7 @@ namespace vif {
 
         uint_t nwrong = impl::count_nans_(v);
         if (nwrong == v.size()) return dnan;
-        return impl::nth_element_(v, clamp((v.size()-nwrong)*u, 0u, v.size()-1));
+        return impl::nth_element_(v, clamp((v.size()-nwrong)*u, 0u, v.size()-nwrong-1));
     }
 
     template<std::size_t Dim, typename Type, typename U, typename enable = typename std::enable_if<
@@ -231,7 +231,8 @@ namespace vif {
         void percentiles_(vec<1,meta::rtype_t<Type>>& r, uint_t i, vec<Dim,Type>& v, uint_t nwrong,
             const U& u, const Args& ... args) {
 
-            r.safe[i] = nth_element_(v, clamp((v.size()-nwrong)*u, 0u, v.size()-1));
+            uint_t nmax = (nwrong == v.size() ? 0 : v.size()-nwrong-1);
+            r.safe[i] = nth_element_(v, clamp((v.size()-nwrong)*u, 0u, nmax));
             ++i;
 
             percentiles_(r, i, v, nwrong, args...);
-- 
2.43.0


From 0e39e7c3046a7ea6e9041a5a42534011ec46c7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:43 +0000
Subject: [PATCH 25/89] fix: min/max of a scalar and a vector must have the
 type of the vector

max(0, v) truncated the elements of a floating point vector to integers, contrary
to max(v, 0).
---
 include/vif/math/reduce.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/vif/math/reduce.hpp b/include/vif/math/reduce.hpp
index cd78bb3..ae0edfc 100644
--- a/include/vif/math/reduce.hpp
+++ b/include/vif/math/reduce.hpp
@@ -432,8 +432,8 @@ namespace vif {
     }
 
     template<std::size_t Dim, typename Type1, typename Type2>
-    vec<Dim,meta::rtype_t<Type1>> min(const Type1& v1, const vec<Dim,Type2>& v2) {
-        vec<Dim,meta::rtype_t<Type1>> r(v2.dims);
+    vec<Dim,meta::rtype_t<Type2>> min(const Type1& v1, const vec<Dim,Type2>& v2) {
+        vec<Dim,meta::rtype_t<Type2>> r(v2.dims);
         for (uint_t i = 0; i < v2.size(); ++i) {
             r.safe[i] = std::min<decltype(v1*v2[0])>(v1, v2.safe[i]);
         }
@@ -441,8 +441,8 @@ namespace vif {
     }
 
     template<std::size_t Dim, typename Type1, typename Type2>
-    vec<Dim,meta::rtype_t<Type1>> max(const Type1& v1, const vec<Dim,Type2>& v2) {
-        vec<Dim,meta::rtype_t<Type1>> r(v2.dims);
+    vec<Dim,meta::rtype_t<Type2>> max(const Type1& v1, const vec<Dim,Type2>& v2) {
+        vec<Dim,meta::rtype_t<Type2>> r(v2.dims);
         for (uint_t i = 0; i < v2.size(); ++i) {
             r.safe[i] = std::max<decltype(v1*v2[0])>(v1, v2.safe[i]);
         }
-- 
2.43.0


From 1c37291d2c4d9f1713d661b6eccfce34deefe7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:17 +0000
Subject: [PATCH 26/89] fix: interpolate must check the size of the uncertainty
 array

---
 include/vif/math/interpolate.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vif/math/interpolate.hpp b/include/vif/math/interpolate.hpp
index 86acf59..da50eaa 100644
--- a/include/vif/math/interpolate.hpp
+++ b/include/vif/math/interpolate.hpp
@@ -116,6 +116,8 @@ namespace vif {
 
         vif_check(y.dims == x.dims, "incompatible dimensions between X and Y arrays (", x.dims,
             " vs. ", y.dims, ")");
+        vif_check(y.dims == e.dims, "incompatible dimensions between E and Y arrays (", e.dims,
+            " vs. ", y.dims, ")");
         vif_check(y.size() >= 2, "interpolated data must contain at least 2 elements");
 
         uint_t nmax = x.size();
-- 
2.43.0


From 5e44abbe4f148a1e7562b37068130c6007c91057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:17 +0000
Subject: [PATCH 27/89] fix: vectorized lambdas must receive the same arguments
 for all elements

---
 include/vif/core/bits/vectorize.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/vif/core/bits/vectorize.hpp b/include/vif/core/bits/vectorize.hpp
index 18b5fe7..ec8a0a5 100644
--- a/include/vif/core/bits/vectorize.hpp
+++ b/include/vif/core/bits/vectorize.hpp
@@ -156,11 +156,11 @@ namespace vif {
             template<typename T, std::size_t D, typename ... Args>
             auto operator()(const vec<D,T>& t, Args&& ... args) ->
                 vec<D,typename std::decay<decltype(lambda(std::declval<const meta::rtype_t<T>&>(),
-                    std::forward<Args>(args)...))>::type> {
+                    args...))>::type> {
                 vec<D,typename std::decay<decltype(lambda(std::declval<const meta::rtype_t<T>&>(),
-                    std::forward<Args>(args)...))>::type> ret(t.dims);
+                    args...))>::type> ret(t.dims);
                 for (uint_t i : range(t)) {
-                    ret.safe[i] = lambda(t.safe[i], std::forward<Args>(args)...);
+                    ret.safe[i] = lambda(t.safe[i], args...);
                 }
                 return ret;
             }
@@ -168,11 +168,11 @@ namespace vif {
             template<typename T, std::size_t D, typename ... Args>
             auto operator()(vec<D,T>&& t, Args&& ... args) ->
                 vec<D,typename std::decay<decltype(lambda(std::declval<meta::rtype_t<T>>(),
-                    std::forward<Args>(args)...))>::type> {
+                    args...))>::type> {
                 vec<D,typename std::decay<decltype(lambda(std::declval<meta::rtype_t<T>>(),
-                    std::forward<Args>(args)...))>::type> ret(t.dims);
+                    args...))>::type> ret(t.dims);
                 for (uint_t i : range(t)) {
-                    ret.safe[i] = lambda(std::move(t.safe[i]), std::forward<Args>(args)...);
+                    ret.safe[i] = lambda(std::move(t.safe[i]), args...);
                 }
                 return ret;
             }
-- 
2.43.0


From 69eebca41f19c812bf9d901575a87539ec0fe4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:17 +0000
Subject: [PATCH 28/89] fix: vectorized lambdas must not move from the elements
 of a view

---
 include/vif/core/bits/vectorize.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vif/core/bits/vectorize.hpp b/include/vif/core/bits/vectorize.hpp
index ec8a0a5..b8737df 100644
--- a/include/vif/core/bits/vectorize.hpp
+++ b/include/vif/core/bits/vectorize.hpp
@@ -165,7 +165,8 @@ namespace vif {
                 return ret;
             }
 
-            template<typename T, std::size_t D, typename ... Args>
+            template<typename T, std::size_t D, typename ... Args, typename enable =
+                typename std::enable_if<!std::is_pointer<T>::value>::type>
             auto operator()(vec<D,T>&& t, Args&& ... args) ->
                 vec<D,typename std::decay<decltype(lambda(std::declval<meta::rtype_t<T>>(),
                     args...))>::type> {
-- 
2.43.0


From 1f41ee53b803f6587596631238758a08d565d207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:50 +0000
Subject: [PATCH 29/89] fix: range() must not overflow for narrow or unsigned
 integer types

---
 include/vif/core/range.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/core/range.hpp b/include/vif/core/range.hpp
index 8c1e69b..354f541 100644
--- a/include/vif/core/range.hpp
+++ b/include/vif/core/range.hpp
@@ -27,7 +27,7 @@ namespace impl {
 
         template <typename T>
         struct dtype_impl<T,true> {
-            using type = typename std::make_signed<T>::type;
+            using type = int_t;
         };
 
         template <typename T>
-- 
2.43.0


From 177693177d2418c07c9db1c89f14baeef2ad773b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:50 +0000
Subject: [PATCH 30/89] fix: rgen must support decreasing ranges of unsigned
 integers

---
 include/vif/math/base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/base.hpp b/include/vif/math/base.hpp
index fa2da01..40eac7a 100644
--- a/include/vif/math/base.hpp
+++ b/include/vif/math/base.hpp
@@ -202,7 +202,7 @@ namespace vif {
             return vec1d({static_cast<double>(i)});
         } else {
             vec1d v(n);
-            double dx = (j-i)/double(n-1);
+            double dx = (double(j)-double(i))/double(n-1);
             for (uint_t k : range(uint_t(n))) {
                 v.safe[k] = i + k*dx;
             }
-- 
2.43.0


From 2b7bfbdb2ab7f7381de42f501381912cd7e3019d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:33 +0000
Subject: [PATCH 31/89] fix: replacing an empty pattern must not loop forever

---
 include/vif/utility/bits/string-find-replace.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vif/utility/bits/string-find-replace.hpp b/include/vif/utility/bits/string-find-replace.hpp
index 2aaad86..6eba884 100644
--- a/include/vif/utility/bits/string-find-replace.hpp
+++ b/include/vif/utility/bits/string-find-replace.hpp
@@ -13,6 +13,8 @@ namespace vif {
     }
 
     inline std::string replace(std::string s, const std::string& pattern, const std::string& rep) {
+        if (pattern.empty()) return s;
+
         auto p = s.find(pattern);
         while (p != s.npos) {
             s.replace(p, pattern.size(), rep);
-- 
2.43.0


From 935ae62b37b7678fb8a8a901afe905fa046fa831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:33 +0000
Subject: [PATCH 32/89] fix: get_word must return the first word of a string
 made of a single word

---
 include/vif/utility/bits/string-find-replace.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/vif/utility/bits/string-find-replace.hpp b/include/vif/utility/bits/string-find-replace.hpp
index 6eba884..4bd9834 100644
--- a/include/vif/utility/bits/string-find-replace.hpp
+++ b/include/vif/utility/bits/string-find-replace.hpp
@@ -131,8 +131,7 @@ namespace vif {
                 ++nw;
             }
 
-            p2 = (p2 == str.npos ? str.npos : p2-1);
-            return str.substr(p1, p2-p1+1);
+            return str.substr(p1, p2 == str.npos ? str.npos : p2-p1);
         }
     }
 
-- 
2.43.0


From b9cc8195910a0b26d97997a775601d558143f87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:33 +0000
Subject: [PATCH 33/89] fix: replace_blocks must not look for separators past
 the end of the block

---
 include/vif/utility/bits/string-find-replace.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/utility/bits/string-find-replace.hpp b/include/vif/utility/bits/string-find-replace.hpp
index 4bd9834..445b204 100644
--- a/include/vif/utility/bits/string-find-replace.hpp
+++ b/include/vif/utility/bits/string-find-replace.hpp
@@ -179,7 +179,7 @@ namespace vif {
             vec1s b;
 
             p0 = os.find(sep, p);
-            while (p0 != npos) {
+            while (p0 != npos && p0 <= os.find(end, p)) {
                 b.push_back(os.substr(p, p0-p));
                 p0 += sep.size();
                 p = p0;
-- 
2.43.0


From 27b95a728d90fe2598c2df3f42fc0ea3b5e6c67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:33 +0000
Subject: [PATCH 34/89] fix: splitting on an empty pattern must not loop
 forever

---
 include/vif/utility/bits/string-split.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/vif/utility/bits/string-split.hpp b/include/vif/utility/bits/string-split.hpp
index 10f75fa..90a3e5b 100644
--- a/include/vif/utility/bits/string-split.hpp
+++ b/include/vif/utility/bits/string-split.hpp
@@ -6,6 +6,11 @@ namespace vif {
     template<typename T>
     vec1s split(const std::string& ts, const T& pattern) {
         vec1s ret;
+        if (length(pattern) == 0) {
+            ret.push_back(ts);
+            return ret;
+        }
+
         std::size_t p = 0, op = 0;
         while ((p = ts.find(pattern, op)) != ts.npos) {
             ret.data.push_back(ts.substr(op, p - op));
-- 
2.43.0


From a138fa78534016fbb91429fd1ff6bed610aae7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:33 +0000
Subject: [PATCH 35/89] fix: cut must keep the last characters of the string

---
 include/vif/utility/bits/string-split.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vif/utility/bits/string-split.hpp b/include/vif/utility/bits/string-split.hpp
index 90a3e5b..814493b 100644
--- a/include/vif/utility/bits/string-split.hpp
+++ b/include/vif/utility/bits/string-split.hpp
@@ -43,7 +43,8 @@ namespace vif {
     }
 
     inline vec1s cut(const std::string& ts, uint_t size) {
-        uint_t ncut = floor(ts.size()/float(size));
+        vif_check(size > 0, "cannot cut a string into pieces of null size");
+        uint_t ncut = ts.size()/size + (ts.size() % size == 0 ? 0 : 1);
         vec1s res(ncut);
         for (uint_t i = 0; i < ncut; ++i) {
             res.safe[i] = ts.substr(i*size, std::min(size, ts.size() - i*size));
-- 
2.43.0


From de4c45a98ec2c943082644da66b088debabc05c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:49 +0000
Subject: [PATCH 36/89] fix: parallel_for must only visit the requested indices

---
 include/vif/utility/bits/thread-parallel-for.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/vif/utility/bits/thread-parallel-for.hpp b/include/vif/utility/bits/thread-parallel-for.hpp
index db00fc0..b398024 100644
--- a/include/vif/utility/bits/thread-parallel-for.hpp
+++ b/include/vif/utility/bits/thread-parallel-for.hpp
@@ -49,12 +49,12 @@ namespace thread {
         // Internal
         std::mutex query_mutex;
         std::atomic<uint_t> iter;
-        uint_t n, i0, i1, di;
+        uint_t n, i0, i1, di, iend;
 
         bool query_chunk(uint_t& oi0, uint_t& oi1) {
             std::unique_lock<std::mutex> l(query_mutex);
 
-            if (i0 == n) {
+            if (i0 >= iend) {
                 return false;
             }
 
@@ -63,8 +63,8 @@ namespace thread {
 
             i0 = i1;
             i1 += di;
-            if (i1 > n) {
-                i1 = n;
+            if (i1 > iend) {
+                i1 = iend;
             }
 
             return true;
@@ -103,7 +103,8 @@ namespace thread {
                 // Setup chunks
                 di = n/nchunk + 1;
                 i0 = ifirst;
-                i1 = ifirst + di;
+                i1 = std::min(ifirst + di, ilast);
+                iend = ilast;
                 iter = 0;
 
                 // Launch threads
-- 
2.43.0


From 1605bdfd4453b5de319a3a0e6bace55251b9865e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:49 +0000
Subject: [PATCH 37/89] fix: joining a worker_pool must not lose the jobs that
 are still queued

---
 include/vif/utility/bits/thread-worker-pool.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/utility/bits/thread-worker-pool.hpp b/include/vif/utility/bits/thread-worker-pool.hpp
index a5d4326..312d483 100644
--- a/include/vif/utility/bits/thread-worker-pool.hpp
+++ b/include/vif/utility/bits/thread-worker-pool.hpp
@@ -17,7 +17,7 @@ namespace thread_impl {
             shutdown(false), impl([this,f]() {
 
             T t;
-            while (!shutdown) {
+            while (!shutdown || !input.empty()) {
                 while (input.pop(t)) {
                     f(wsp, t);
                 }
@@ -50,7 +50,7 @@ namespace thread_impl {
             impl([this,f]() {
 
             T t;
-            while (!shutdown) {
+            while (!shutdown || !input.empty()) {
                 while (input.pop(t)) {
                     f(t);
                 }
-- 
2.43.0


From 20c1ae067bd150c71e6036c2c008837c9cc216a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:49 +0000
Subject: [PATCH 38/89] fix: thread.hpp must include the progress bar functions
 that parallel_for uses

---
 include/vif/utility/thread.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/vif/utility/thread.hpp b/include/vif/utility/thread.hpp
index b01f0d4..091d456 100644
--- a/include/vif/utility/thread.hpp
+++ b/include/vif/utility/thread.hpp
@@ -6,6 +6,7 @@
 #include <mutex>
 #include <functional>
 #include "vif/core/vec.hpp"
+#include "vif/utility/time.hpp"
 
 #define VIF_INCLUDING_THREAD_BITS
 #include "vif/utility/bits/thread-thread.hpp"
-- 
2.43.0


From 86269640c2ec42ec7b8ee055025375c7475514d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:55 +0000
Subject: [PATCH 39/89] fix: explorer must not close a directory twice

---
 include/vif/io/filesystem.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/vif/io/filesystem.hpp b/include/vif/io/filesystem.hpp
index fad8c8e..4855849 100644
--- a/include/vif/io/filesystem.hpp
+++ b/include/vif/io/filesystem.hpp
@@ -105,6 +105,7 @@ namespace file {
 
             if (dirfd) {
                 closedir(dirfd);
+                dirfd = nullptr;
             };
         }
 
-- 
2.43.0


From 64e56e40405c3bbf714e18d30ceb30614648cb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:55 +0000
Subject: [PATCH 40/89] fix: get_basename and get_directory of paths with
 trailing slashes

---
 include/vif/io/filesystem.hpp | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/include/vif/io/filesystem.hpp b/include/vif/io/filesystem.hpp
index 4855849..0905f32 100644
--- a/include/vif/io/filesystem.hpp
+++ b/include/vif/io/filesystem.hpp
@@ -209,22 +209,18 @@ namespace file {
         auto pos = path.find_last_of('/');
         if (pos == path.npos) {
             return path;
-        } else {
-            auto lpos = path.find_last_not_of(' ');
-            if (pos == lpos) {
-                if (pos == 0) {
-                    return "/";
-                } else {
-                    pos = path.find_last_of('/', pos-1);
-                    if (pos == path.npos) {
-                        return path.substr(lpos);
-                    } else {
-                        return path.substr(pos+1, lpos-pos-1);
-                    }
-                }
+        } else if (pos == path.find_last_not_of(' ')) {
+            // Ignore trailing slashes
+            auto lpos = path.find_last_not_of('/', pos);
+            if (lpos == path.npos) {
+                return "/";
             } else {
-                return path.substr(pos+1);
+                pos = path.find_last_of('/', lpos);
+                pos = (pos == path.npos ? 0 : pos+1);
+                return path.substr(pos, lpos-pos+1);
             }
+        } else {
+            return path.substr(pos+1);
         }
     }
 
@@ -252,10 +248,12 @@ namespace file {
         if (pos == path.npos) {
             return "./";
         } else if (pos == path.find_last_not_of(' ')) {
-            if (pos == 0) {
+            // Ignore trailing slashes
+            pos = path.find_last_not_of('/', pos);
+            if (pos == path.npos) {
                 return "/";
             } else {
-                pos = path.find_last_of('/', pos-1);
+                pos = path.find_last_of('/', pos);
                 if (pos == path.npos) {
                     return "./";
                 } else {
-- 
2.43.0


From ad59ad1f2094432f5d9d8284e15ccd6390156060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:55 +0000
Subject: [PATCH 41/89] fix: is_older must compare modification times

---
 include/vif/io/filesystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/io/filesystem.hpp b/include/vif/io/filesystem.hpp
index 0905f32..c57ddd4 100644
--- a/include/vif/io/filesystem.hpp
+++ b/include/vif/io/filesystem.hpp
@@ -31,7 +31,7 @@ namespace file {
         struct stat st1, st2;
         if (::stat(file1.c_str(), &st1) != 0) return false;
         if (::stat(file2.c_str(), &st2) != 0) return false;
-        return std::difftime(st1.st_ctime, st2.st_ctime) < 0.0;
+        return std::difftime(st1.st_mtime, st2.st_mtime) < 0.0;
     }
 
     inline bool is_absolute_path(const std::string& path) {
-- 
2.43.0


From 3e3a6f311aa9a5c4058ded7d0780a3a9ad313dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:20 +0000
Subject: [PATCH 42/89] fix: complement must check and use the indices even
 when there are as many as elements

---
 include/vif/utility/bits/generic-find.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/vif/utility/bits/generic-find.hpp b/include/vif/utility/bits/generic-find.hpp
index 2f415dc..fdd229f 100644
--- a/include/vif/utility/bits/generic-find.hpp
+++ b/include/vif/utility/bits/generic-find.hpp
@@ -55,8 +55,7 @@ namespace vif {
     // provided set.
     template<std::size_t Dim, typename Type>
     vec1u complement(const vec<Dim,Type>& v, const vec1u& ids) {
-        if (ids.size() == v.size()) return vec1u();
-        vif_check(ids.size() < v.size(), "incompatible size of ids (", ids.size(),
+        vif_check(ids.size() <= v.size(), "incompatible size of ids (", ids.size(),
             " vs. ", v.size(), ")");
 
         vec1b sel(v.size());
-- 
2.43.0


From 18883aecfde3f6a06b4dd983d2745bfaa45c0a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:20 +0000
Subject: [PATCH 43/89] fix: set_intersection and set_union of views did not
 compile (concretize -> concretise)

---
 include/vif/utility/bits/generic-find.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/utility/bits/generic-find.hpp b/include/vif/utility/bits/generic-find.hpp
index fdd229f..21a4f06 100644
--- a/include/vif/utility/bits/generic-find.hpp
+++ b/include/vif/utility/bits/generic-find.hpp
@@ -269,7 +269,7 @@ namespace vif {
 
         template<std::size_t D, typename T>
         vec<D,meta::rtype_t<T>> make_sorted_(vec<D,T*> v) {
-            auto tv = v.concretize();
+            auto tv = v.concretise();
             inplace_sort(tv);
             return std::move(tv);
         }
-- 
2.43.0


From 9eafeb29471bda61d99ef96a8a7175791dd600c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:36 +0000
Subject: [PATCH 44/89] fix: weighted histogram of 2-D data selected the
 callback overload

---
 include/vif/math/histogram.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vif/math/histogram.hpp b/include/vif/math/histogram.hpp
index 222d137..009ecdd 100644
--- a/include/vif/math/histogram.hpp
+++ b/include/vif/math/histogram.hpp
@@ -264,7 +264,8 @@ namespace vif {
         }
     }
 
-    template<std::size_t Dim, typename Type, typename TypeB, typename TypeF>
+    template<std::size_t Dim, typename Type, typename TypeB, typename TypeF, typename enable =
+        typename std::enable_if<!meta::is_vec<typename std::decay<TypeF>::type>::value>::type>
     void histogram(const vec<Dim,Type>& x, const vec<2,TypeB>& bins, TypeF&& func) {
         using iterator = vec1u::const_iterator;
         vec1u tids;
-- 
2.43.0


From f2ebdfe40c0235b952e812f372592c12c2882baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:58 +0000
Subject: [PATCH 45/89] fix: interpolate at multidimensional positions did not
 compile

---
 include/vif/math/interpolate.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/vif/math/interpolate.hpp b/include/vif/math/interpolate.hpp
index da50eaa..e7ef739 100644
--- a/include/vif/math/interpolate.hpp
+++ b/include/vif/math/interpolate.hpp
@@ -36,8 +36,9 @@ namespace vif {
             "interpolate: 'x' and 'y' arrays must contain at least 2 elements");
 
         uint_t nmax = x.size();
-        vec<DX,decltype(y[0]*x[0])> r; r.reserve(nx.size());
-        for (auto& tx : nx) {
+        vec<DX,decltype(y[0]*x[0])> r(nx.dims);
+        for (uint_t i : range(nx)) {
+            auto tx = nx.safe[i];
             uint_t low = lower_bound(x, tx);
 
             rtypey ylow, yup;
@@ -55,7 +56,7 @@ namespace vif {
                 xlow = x.safe[0]; xup = x.safe[1];
             }
 
-            r.push_back(ylow + (yup - ylow)*(tx - xlow)/(xup - xlow));
+            r.safe[i] = ylow + (yup - ylow)*(tx - xlow)/(xup - xlow);
         }
 
         return r;
@@ -122,9 +123,10 @@ namespace vif {
 
         uint_t nmax = x.size();
         std::pair<vec<DX,decltype(y[0]*x[0])>,vec<DX,decltype(y[0]*x[0])>> p;
-        p.first.reserve(nx.size());
-        p.second.reserve(nx.size());
-        for (auto& tx : nx) {
+        p.first.resize(nx.dims);
+        p.second.resize(nx.dims);
+        for (uint_t i : range(nx)) {
+            auto tx = nx.safe[i];
             uint_t low = lower_bound(x, tx);
 
             rtypey ylow, yup;
@@ -147,8 +149,8 @@ namespace vif {
             }
 
             double a = (tx - xlow)/(xup - xlow);
-            p.first.push_back(ylow + (yup - ylow)*a);
-            p.second.push_back(sqrt(sqr(elow*(1-a)) + sqr(eup*a)));
+            p.first.safe[i] = ylow + (yup - ylow)*a;
+            p.second.safe[i] = sqrt(sqr(elow*(1-a)) + sqr(eup*a));
         }
 
         return p;
-- 
2.43.0


From 165780b61448478502e23b5058621b88f7895fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:02 +0000
Subject: [PATCH 46/89] fix: restarting a running worker_pool must not wait
 forever

---
 include/vif/utility/bits/thread-worker-pool.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/vif/utility/bits/thread-worker-pool.hpp b/include/vif/utility/bits/thread-worker-pool.hpp
index 312d483..67a0e3c 100644
--- a/include/vif/utility/bits/thread-worker-pool.hpp
+++ b/include/vif/utility/bits/thread-worker-pool.hpp
@@ -100,6 +100,7 @@ namespace thread {
 
         template<typename F, typename ... Args>
         void start(uint_t nthread, const F& f, const Args&... args) {
+            join();
             workers.clear();
             workers.reserve(nthread);
             for (uint_t i = 0; i < nthread; ++i) {
-- 
2.43.0


From af590a60b1725a78bbb80f3e91129a288b7fb107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:54 +0000
Subject: [PATCH 47/89] fix: Cholesky decomposition used the dimensions of a
 moved-from matrix

---
 include/vif/math/bits/matrix-functions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/bits/matrix-functions.hpp b/include/vif/math/bits/matrix-functions.hpp
index 341c1b2..74f7888 100644
--- a/include/vif/math/bits/matrix-functions.hpp
+++ b/include/vif/math/bits/matrix-functions.hpp
@@ -307,7 +307,7 @@ namespace matrix {
             l = std::move(alpha);
 
         #ifdef NO_LAPACK
-            const uint_t n = alpha.dims[0];
+            const uint_t n = l.dims[0];
             for (uint_t i : range(n)) {
                 for (uint_t j : range(i+1)) {
                     double s = 0.0;
-- 
2.43.0


From 2320d204fae20b558ceeb5073dfef02a8e599a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:54 +0000
Subject: [PATCH 48/89] fix: decompose_lu::invert with no_pivot did not invert
 the matrix

---
 include/vif/math/bits/matrix-functions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/bits/matrix-functions.hpp b/include/vif/math/bits/matrix-functions.hpp
index 74f7888..6f99d0e 100644
--- a/include/vif/math/bits/matrix-functions.hpp
+++ b/include/vif/math/bits/matrix-functions.hpp
@@ -246,7 +246,7 @@ namespace matrix {
 
                         r.safe[k] = (i1 == k);
                     } else {
-                        r.safe[k] = 1.0;
+                        r.safe[k] = (k == c);
                     }
 
                     for (uint_t i : range(k)) {
-- 
2.43.0


From 9c503008f808c099d19f678129f148e90cee75ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:54 +0000
Subject: [PATCH 49/89] fix: matrix / scalar did not compile

---
 include/vif/math/bits/matrix-types.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/bits/matrix-types.hpp b/include/vif/math/bits/matrix-types.hpp
index d140138..a26376d 100644
--- a/include/vif/math/bits/matrix-types.hpp
+++ b/include/vif/math/bits/matrix-types.hpp
@@ -550,7 +550,7 @@ namespace matrix {
         meta::is_matrix<TypeA>::value && std::is_arithmetic<typename std::decay<TypeB>::type>::value
     >::type>
     auto operator / (const TypeA& a, const TypeB& b) -> mat<decltype(a(0,0)/b)> {
-        return mat<decltype(a(0,0)/b)>(std::forward<TypeA>(a).base/b);
+        return mat<decltype(a(0,0)/b)>(a.base/b);
     }
 
     // matrix + matrix
-- 
2.43.0


From 6fc1e0878e00fb3617ead139e697367b51e0151a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:54 +0000
Subject: [PATCH 50/89] fix: unary plus of wrapped matrices did not compile

---
 include/vif/math/bits/matrix-types.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/vif/math/bits/matrix-types.hpp b/include/vif/math/bits/matrix-types.hpp
index a26376d..b6d5f18 100644
--- a/include/vif/math/bits/matrix-types.hpp
+++ b/include/vif/math/bits/matrix-types.hpp
@@ -128,8 +128,8 @@ namespace matrix {
         }
 
         // Prefix operators
-        wrapper operator + () const {
-            return *this;
+        mat<Type> operator + () const {
+            return mat<Type>(base);
         }
 
         mat<Type> operator - () const {
@@ -225,8 +225,8 @@ namespace matrix {
         }
 
         // Prefix operators
-        const_wrapper operator + () const {
-            return *this;
+        mat<Type> operator + () const {
+            return mat<Type>(base);
         }
 
         mat<Type> operator - () const {
-- 
2.43.0


From 62d182951cc9be1e4ebf774b9664629190a8efb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:54 +0000
Subject: [PATCH 51/89] fix: determinant of wrapped matrices did not compile

---
 include/vif/math/bits/matrix-functions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/bits/matrix-functions.hpp b/include/vif/math/bits/matrix-functions.hpp
index 6f99d0e..9cd21a6 100644
--- a/include/vif/math/bits/matrix-functions.hpp
+++ b/include/vif/math/bits/matrix-functions.hpp
@@ -565,7 +565,7 @@ namespace matrix {
             v.dims, ")");
 
         decompose_lu d;
-        if (!d.decompose(v)) {
+        if (!d.decompose(mat2d(v.base))) {
             return 0.0;
         }
 
-- 
2.43.0


From 654f3b25ebb9afa79ecd63c9bd27d2486a07847a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:46 +0000
Subject: [PATCH 52/89] fix: diagonal of a constant matrix did not compile

---
 include/vif/math/bits/matrix-functions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/bits/matrix-functions.hpp b/include/vif/math/bits/matrix-functions.hpp
index 9cd21a6..c25d5fa 100644
--- a/include/vif/math/bits/matrix-functions.hpp
+++ b/include/vif/math/bits/matrix-functions.hpp
@@ -38,7 +38,7 @@ namespace matrix {
         d.dims[0] = v.dims[0];
         d.resize();
         for (uint_t i : range(d)) {
-            d.data[i] = impl::ptr<typename meta::data_type<Type>::type>(v.safe(i,i));
+            d.data[i] = impl::ptr<meta::data_type_t<typename std::decay<Type>::type>>(v.safe(i,i));
         }
 
         return d;
-- 
2.43.0


From 6609f022479d8525fd27bdb13269411c25521ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:05 +0000
Subject: [PATCH 53/89] fix: linfit_nn never reported a successful fit

---
 include/vif/math/linfit.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/vif/math/linfit.hpp b/include/vif/math/linfit.hpp
index a61d1d4..37890f3 100644
--- a/include/vif/math/linfit.hpp
+++ b/include/vif/math/linfit.hpp
@@ -158,9 +158,7 @@ namespace vif {
                 ++titer;
             } while (ta/tb > fit_tftol && titer < titermax);
 
-            if (titer == titermax) {
-                fr.success = false;
-            }
+            fr.success = titer < titermax;
 
             vec1d model(nm);
             for (uint_t m : range(nm)) {
-- 
2.43.0


From 417f5623c66dabab8089a9945f5598d62c077b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:05 +0000
Subject: [PATCH 54/89] fix: linfit_nn gave NaN parameters when no model
 correlates with the data

---
 include/vif/math/linfit.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/vif/math/linfit.hpp b/include/vif/math/linfit.hpp
index 37890f3..e3dad35 100644
--- a/include/vif/math/linfit.hpp
+++ b/include/vif/math/linfit.hpp
@@ -142,6 +142,9 @@ namespace vif {
             do {
                 ta = 0.0; tb = 0.0;
                 for (uint_t m0 : range(np)) {
+                    // Zero coefficients remain zero
+                    if (fr.params.safe[m0] == 0.0) continue;
+
                     double av = 0.0;
                     for (uint_t m1 : range(np)) {
                         av += alpha.safe(m0,m1)*fr.params.safe[m1];
-- 
2.43.0


From 755ca0808c496690a5ccac7a319cb8e3382212d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:05 +0000
Subject: [PATCH 55/89] fix: linfit_batch read outside of models with the wrong
 dimensions

---
 include/vif/math/linfit.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/vif/math/linfit.hpp b/include/vif/math/linfit.hpp
index e3dad35..810454a 100644
--- a/include/vif/math/linfit.hpp
+++ b/include/vif/math/linfit.hpp
@@ -348,6 +348,8 @@ namespace vif {
             uint_t nm = cache.dims[1];
 
             vif_check(i < np, "index goes beyond available models (", i, " vs. ", np, ")");
+            vif_check(x.dims == ye.dims, "incompatible dimensions between X and YE arrays (",
+                x.dims, " vs. ", ye.dims, ")");
 
             for (uint_t j : range(nm)) {
                 cache.safe(i,j) = x.safe[j]/ye.safe[j];
@@ -371,6 +373,17 @@ namespace vif {
 
         template<typename TypeX>
         linfit_batch_t(pack_tag, const TypeE& e, const TypeX& x) : ye(e) {
+            bool good = true;
+            for (uint_t i : range(ye.dims)) {
+                if (x.dims[i+1] != ye.dims[i]) {
+                    good = false;
+                    break;
+                }
+            }
+
+            vif_check(good, "incompatible dimensions between X and YE arrays (", x.dims,
+                " vs. ", ye.dims, ")");
+
             uint_t np = x.dims[0];
             uint_t nm = meta::size(ye);
 
-- 
2.43.0


From cce0bd604a7ffd88eeef4b1b2e4b605302d56b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:42 +0000
Subject: [PATCH 56/89] fix: build_convex_hull read out of bounds when given no
 point

---
 include/vif/math/convex_hull.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vif/math/convex_hull.hpp b/include/vif/math/convex_hull.hpp
index 6851971..970b2d9 100644
--- a/include/vif/math/convex_hull.hpp
+++ b/include/vif/math/convex_hull.hpp
@@ -133,9 +133,9 @@ namespace vif {
         }
 
         uint_t t = k+1;
-        for (uint_t i = npt-2; i != npos; --i) {
-            while (k >= t && cross(res.safe[k-2], res.safe[k-1], ids.safe[i]) <= 0) --k;
-            res.safe[k] = ids.safe[i];
+        for (uint_t i = npt; i > 1; --i) {
+            while (k >= t && cross(res.safe[k-2], res.safe[k-1], ids.safe[i-2]) <= 0) --k;
+            res.safe[k] = ids.safe[i-2];
             ++k;
         }
 
-- 
2.43.0


From b859220bbcd278e89342bb78808864a4bfb351a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:42 +0000
Subject: [PATCH 57/89] fix: every point was found inside of a hull built from
 less than two points

---
 include/vif/math/convex_hull.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/vif/math/convex_hull.hpp b/include/vif/math/convex_hull.hpp
index 970b2d9..f60f6a2 100644
--- a/include/vif/math/convex_hull.hpp
+++ b/include/vif/math/convex_hull.hpp
@@ -145,6 +145,7 @@ namespace vif {
         convex_hull<meta::rtype_t<T>> hull(x.safe[res], y.safe[res], convex_hull<>::no_check{});
         hull.orient = 1; // counter-clockwise by construction
         hull.closed = true; // closed by construction
+        hull.validated = hull.size() >= 3; // otherwise too few points to form a hull
 
         return hull;
     }
-- 
2.43.0


From e4531340cada9a17124449e7f09e6fffee688900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:42 +0000
Subject: [PATCH 58/89] fix: convex hulls with integer coordinates were never
 seen as closed

---
 include/vif/math/convex_hull.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/math/convex_hull.hpp b/include/vif/math/convex_hull.hpp
index f60f6a2..1e57d9d 100644
--- a/include/vif/math/convex_hull.hpp
+++ b/include/vif/math/convex_hull.hpp
@@ -48,8 +48,8 @@ namespace vif {
 
                 const auto eps = std::numeric_limits<T>::epsilon();
                 const uint_t hend = size()-1;
-                closed = (abs(x.safe[0] - x.safe[hend]) < eps &&
-                     abs(y.safe[0] - y.safe[hend]) < eps);
+                closed = (abs(x.safe[0] - x.safe[hend]) <= eps &&
+                     abs(y.safe[0] - y.safe[hend]) <= eps);
 
                 orient = ((x.safe[1] - x.safe[0])*(y.safe[2] - y.safe[1]) -
                          (y.safe[1] - y.safe[0])*(x.safe[2] - x.safe[1]) > 0) ? 1 : -1;
-- 
2.43.0


From f40f87a5c765cf80a96faa4c8e7fa92050f1e500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:42 +0000
Subject: [PATCH 59/89] fix: wrong orientation of a convex hull whose first
 vertices are aligned

---
 include/vif/math/convex_hull.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/vif/math/convex_hull.hpp b/include/vif/math/convex_hull.hpp
index 1e57d9d..af10308 100644
--- a/include/vif/math/convex_hull.hpp
+++ b/include/vif/math/convex_hull.hpp
@@ -51,8 +51,14 @@ namespace vif {
                 closed = (abs(x.safe[0] - x.safe[hend]) <= eps &&
                      abs(y.safe[0] - y.safe[hend]) <= eps);
 
-                orient = ((x.safe[1] - x.safe[0])*(y.safe[2] - y.safe[1]) -
-                         (y.safe[1] - y.safe[0])*(x.safe[2] - x.safe[1]) > 0) ? 1 : -1;
+                // Use the signed area, since the first vertices can be aligned
+                T area = 0;
+                for (uint_t i : range(1, hend)) {
+                    area += (x.safe[i] - x.safe[0])*(y.safe[i+1] - y.safe[0]) -
+                            (y.safe[i] - y.safe[0])*(x.safe[i+1] - x.safe[0]);
+                }
+
+                orient = area > 0 ? 1 : -1;
 
                 validated = true;
             }
-- 
2.43.0


From 769d2540320244067605084830716e375060b294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:13 +0000
Subject: [PATCH 60/89] fix: read_table repeating an empty first field with
 single delimiters

---
 include/vif/io/ascii.hpp | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/include/vif/io/ascii.hpp b/include/vif/io/ascii.hpp
index b5897e4..f635ebc 100644
--- a/include/vif/io/ascii.hpp
+++ b/include/vif/io/ascii.hpp
@@ -86,18 +86,12 @@ namespace impl {
                 if (delim_single) {
                     if (pos == line.npos) return false;
 
-                    if (pos != 0) {
-                        pos += delim.size();
-                    }
-
                     uint_t p1 = line.find(delim, pos);
                     if (p1 == line.npos) {
                         pos = p1;
                     } else {
                         pos = p1 + delim.size();
                     }
-
-                    pos = p1;
                 } else {
                     uint_t p0 = line.find_first_not_of(delim, pos);
                     if (p0 == line.npos) return false;
@@ -112,10 +106,6 @@ namespace impl {
                 if (delim_single) {
                     if (pos == line.npos) return false;
 
-                    if (pos != 0) {
-                        pos += delim.size();
-                    }
-
                     uint_t p1 = line.find(delim, pos);
                     if (p1 == line.npos) {
                         sub = line.substr(pos);
@@ -124,8 +114,6 @@ namespace impl {
                         sub = line.substr(pos, p1-pos);
                         pos = p1 + delim.size();
                     }
-
-                    pos = p1;
                 } else {
                     uint_t p0 = line.find_first_not_of(delim, pos);
                     if (p0 == line.npos) return false;
-- 
2.43.0


From 2cf6616b94d92a53c85157f48485c7a2093dfaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:13 +0000
Subject: [PATCH 61/89] fix: read_table skipping more lines than the file
 contains

---
 include/vif/io/ascii.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/io/ascii.hpp b/include/vif/io/ascii.hpp
index f635ebc..f50fdfa 100644
--- a/include/vif/io/ascii.hpp
+++ b/include/vif/io/ascii.hpp
@@ -331,7 +331,7 @@ namespace ascii {
                     ++n;
                 }
 
-                n -= opts.skip_first;
+                n = (n > opts.skip_first ? n - opts.skip_first : 0);
             }
 
             // Resize all vectors
-- 
2.43.0


From 06e4477fdb34069def1ab343707406e882dd883d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:13 +0000
Subject: [PATCH 62/89] fix: write_table letting its exception for mismatching
 columns escape

---
 include/vif/io/ascii.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/vif/io/ascii.hpp b/include/vif/io/ascii.hpp
index f50fdfa..8de86a9 100644
--- a/include/vif/io/ascii.hpp
+++ b/include/vif/io/ascii.hpp
@@ -624,7 +624,11 @@ namespace ascii {
 
         // Compute number of rows and check that all vectors have the same size
         uint_t r = 0, c = 0;
-        impl::ascii_impl::write_table_check_size_(r, c, args...);
+        try {
+            impl::ascii_impl::write_table_check_size_(r, c, args...);
+        } catch (ascii::exception& e) {
+            vif_check(false, std::string(e.what())+" (writing "+filename+")");
+        }
 
         if (!opts.header.empty()) {
             vif_check(opts.header.size() == c, "mismatch between dimensions of header and number "
-- 
2.43.0


From 52709daaf8943c1e4cf9699545566f855f21236b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:03 +0000
Subject: [PATCH 63/89] fix: write_table reading out of bounds when only the
 first columns are empty

---
 include/vif/io/ascii.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/vif/io/ascii.hpp b/include/vif/io/ascii.hpp
index 8de86a9..ef2c02e 100644
--- a/include/vif/io/ascii.hpp
+++ b/include/vif/io/ascii.hpp
@@ -457,7 +457,7 @@ namespace impl {
 
             static_assert(Dim <= 2, "cannot write vectors of more than two dimensions");
 
-            if (r == 0) {
+            if (r == npos) {
                 r = v.dims[0];
             }
 
@@ -623,9 +623,10 @@ namespace ascii {
         vif_check(file.out.is_open(), "could not open file "+filename+" to write data");
 
         // Compute number of rows and check that all vectors have the same size
-        uint_t r = 0, c = 0;
+        uint_t r = npos, c = 0;
         try {
             impl::ascii_impl::write_table_check_size_(r, c, args...);
+            if (r == npos) r = 0;
         } catch (ascii::exception& e) {
             vif_check(false, std::string(e.what())+" (writing "+filename+")");
         }
-- 
2.43.0


From 7a68294ddf577fd706ea72628f6eec988d9ce312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:03 +0000
Subject: [PATCH 64/89] fix: write_table reading out of bounds when
 ascii::columns() is given another number of columns

---
 include/vif/io/ascii.hpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/vif/io/ascii.hpp b/include/vif/io/ascii.hpp
index ef2c02e..1e4898a 100644
--- a/include/vif/io/ascii.hpp
+++ b/include/vif/io/ascii.hpp
@@ -475,10 +475,31 @@ namespace impl {
             write_table_check_size_(r, c, args...);
         }
 
+        inline void write_table_check_cols_(uint_t n) {}
+
+        template<typename F, typename ... Args>
+        void write_table_check_cols_(uint_t n, const F& f, const Args& ... args);
+
+        template<typename Type, typename ... Args>
+        void write_table_check_cols_(uint_t n, const vec<2,Type>& v, const Args& ... args) {
+            if (v.dims[1] != n && !v.empty()) {
+                throw ascii::exception("incorrect number of columns in 2D vector ("+
+                    to_string(v.dims[1])+" vs "+to_string(n)+")");
+            }
+
+            write_table_check_cols_(n, args...);
+        }
+
+        template<typename F, typename ... Args>
+        void write_table_check_cols_(uint_t n, const F& f, const Args& ... args) {
+            write_table_check_cols_(n, f.obj, args...);
+        }
+
         template<typename U, typename ... VArgs, uint_t ... S>
         void write_table_check_size_tuple_(uint_t& r, uint_t& c, const std::tuple<U,VArgs...>& v,
             meta::seq_t<S...>) {
 
+            write_table_check_cols_(std::get<0>(v), std::get<S>(v)...);
             write_table_check_size_(r, c, std::get<S>(v)...);
         }
 
-- 
2.43.0


From 2c9072c8361fd32880c6e4fb664a79e5eb722126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:03 +0000
Subject: [PATCH 65/89] fix: ftable() reading out of bounds for a 2D vector
 without columns

---
 include/vif/io/ascii.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vif/io/ascii.hpp b/include/vif/io/ascii.hpp
index 1e4898a..39b52e0 100644
--- a/include/vif/io/ascii.hpp
+++ b/include/vif/io/ascii.hpp
@@ -809,9 +809,9 @@ namespace impl {
             std::string base = vnames[i];
 
             vec1s ncols = base+"_"+to_string_vector(indgen<uint_t>(v.dims[1])+1);
-            vnames.data.insert(vnames.data.begin()+i+1, ncols.begin()+1, ncols.end());
-            vnames[i] = ncols[0];
-            vnames.dims[0] += v.dims[1]-1;
+            vnames.data.erase(vnames.data.begin()+i);
+            vnames.data.insert(vnames.data.begin()+i, ncols.begin(), ncols.end());
+            vnames.dims[0] = vnames.data.size();
 
             write_table_hdr_fix_2d_(vnames, i+v.dims[1], args...);
         }
-- 
2.43.0


From d63ce4fa4d1cfea0ccf81a26b8bf0772bfaf8f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:51 +0000
Subject: [PATCH 66/89] fix: read_args modifying a variable when its argument
 cannot be converted

---
 include/vif/utility/argv.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/vif/utility/argv.hpp b/include/vif/utility/argv.hpp
index 2ce9ebc..0a4960c 100644
--- a/include/vif/utility/argv.hpp
+++ b/include/vif/utility/argv.hpp
@@ -26,7 +26,11 @@ namespace vif {
         template<typename T,
             typename enable = typename std::enable_if<!std::is_same<T, vec<1,std::string>>::value>::type>
         bool read_args_n2T_(T& t, const std::string& s) {
-            return from_string(s, t);
+            // Leave the variable untouched if the conversion fails
+            T tmp = t;
+            if (!from_string(s, tmp)) return false;
+            t = tmp;
+            return true;
         }
 
         template<typename U>
-- 
2.43.0


From c93c00f82d5da583c8cc36836f0bb03f33edb451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:51 +0000
Subject: [PATCH 67/89] fix: read_args ignoring arguments written with two
 dashes

---
 include/vif/utility/argv.hpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/include/vif/utility/argv.hpp b/include/vif/utility/argv.hpp
index 0a4960c..ae9c5fe 100644
--- a/include/vif/utility/argv.hpp
+++ b/include/vif/utility/argv.hpp
@@ -56,22 +56,24 @@ namespace vif {
             return true;
         }
 
+        // Number of leading dashes: both "-name" and "--name" are allowed
+        inline uint_t read_args_dashes_(const std::string& arg) {
+            if (arg.empty() || arg[0] != '-') return 0;
+            return arg.size() > 1 && arg[1] == '-' ? 2 : 1;
+        }
+
         template<typename T, typename enable = typename std::enable_if<!meta::is_vec<T>::value>::type>
         bool read_args_impl_(const std::string& arg, bool& read, bool& valid, const std::string& name, T& t) {
             auto p = arg.find_first_of('=');
             if (p == arg.npos) {
-                if (arg[0] == '-') {
-                    if (arg.substr(1) != name) {
-                        return false;
-                    }
-                } else if (arg != name) {
+                if (arg.substr(read_args_dashes_(arg)) != name) {
                     return false;
                 }
 
                 read = true;
                 valid = read_args_n2T_(t, 1);
             } else {
-                int_t p0 = arg[0] == '-' ? 1 : 0;
+                uint_t p0 = read_args_dashes_(arg);
                 std::string aname = trim(arg.substr(p0, p - p0));
                 if (aname != name) {
                     return false;
@@ -89,18 +91,14 @@ namespace vif {
         bool read_args_impl_(const std::string& arg, bool& read, bool& valid, const std::string& name, vec<1,T>& t) {
             auto p = arg.find_first_of('=');
             if (p == arg.npos) {
-                if (arg[0] == '-') {
-                    if (arg.substr(1) != name) {
-                        return false;
-                    }
-                } else if (arg != name) {
+                if (arg.substr(read_args_dashes_(arg)) != name) {
                     return false;
                 }
 
                 read = true;
                 valid = read_args_n2T_(t, 1);
             } else {
-                int_t p0 = arg[0] == '-' ? 1 : 0;
+                uint_t p0 = read_args_dashes_(arg);
                 std::string aname = trim(arg.substr(p0, p - p0));
                 if (aname != name) {
                     return false;
-- 
2.43.0


From 0a45aaf15fac036571c8ef4961b89f4517ff03d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:51 +0000
Subject: [PATCH 68/89] fix: read_args ignoring arguments after an invalid one
 of another variable

---
 include/vif/utility/argv.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/vif/utility/argv.hpp b/include/vif/utility/argv.hpp
index ae9c5fe..26a5a1a 100644
--- a/include/vif/utility/argv.hpp
+++ b/include/vif/utility/argv.hpp
@@ -174,10 +174,12 @@ namespace vif {
             vec1u idm = where(find(argv, tname) != npos);
             bool found = false;
             for (auto& i : idm) {
-                if (read_args_impl_(argv[i], read[i], valid[i], tname, t)) {
+                bool is_valid = true;
+                if (read_args_impl_(argv[i], read[i], is_valid, tname, t)) {
                     found = true;
                 }
-                if (!valid[i]) {
+                if (!is_valid) {
+                    valid[i] = false;
                     warning("could not convert '", tname, "' argument to type ", pretty_type_t(T));
                     break;
                 }
@@ -209,10 +211,12 @@ namespace vif {
             vec1u idm = where(find(argv, t.name) != npos);
             bool found = false;
             for (auto& i : idm) {
-                if (read_args_impl_(argv[i], read[i], valid[i], t.name, t.obj)) {
+                bool is_valid = true;
+                if (read_args_impl_(argv[i], read[i], is_valid, t.name, t.obj)) {
                     found = true;
                 }
-                if (!valid[i]) {
+                if (!is_valid) {
+                    valid[i] = false;
                     warning("could not convert '", t.name, "' argument to type ", pretty_type_t(T));
                     break;
                 }
-- 
2.43.0


From 4de95f08e3c3dc86a781c23b7662e37b020d2100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:51 +0000
Subject: [PATCH 69/89] fix: program_arguments::write() reading the variables
 after a named one

---
 include/vif/utility/argv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/utility/argv.hpp b/include/vif/utility/argv.hpp
index 26a5a1a..bc5f0a5 100644
--- a/include/vif/utility/argv.hpp
+++ b/include/vif/utility/argv.hpp
@@ -273,7 +273,7 @@ namespace vif {
             valid.push_back(true);
 
             if (pos != names.npos && pos != names.size()) {
-                read_args_(argv, read, valid, names.substr(pos+1), std::forward<Args>(args)...);
+                write_args_(argv, read, valid, names.substr(pos+1), std::forward<Args>(args)...);
             }
         }
     }
-- 
2.43.0


From a547390ef135cf68ea4d8a98652f4361b4fec05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:05 +0000
Subject: [PATCH 70/89] fix: inplace_shift dividing by zero on an empty image

---
 include/vif/astro/image.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index dde16bf..4f1229e 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -260,6 +260,8 @@ namespace astro {
 
     template<typename T>
     void inplace_shift(vec<2,T>& v, int_t tsx, int_t tsy) {
+        if (v.empty()) return;
+
         tsx = (-tsx) % int_t(v.dims[0]);
         tsy = (-tsy) % int_t(v.dims[1]);
         if (tsx < 0) tsx = int_t(v.dims[0])+tsx;
-- 
2.43.0


From 237a9be140fe16add62c683227a5fa7ba7ac5e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:05 +0000
Subject: [PATCH 71/89] fix: inplace_translate_integer wrapping translations
 larger than the image

---
 include/vif/astro/image.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 4f1229e..0e7f7c8 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -292,8 +292,15 @@ namespace astro {
     void inplace_translate_integer(vec<2,T>& v, int_t tsx, int_t tsy, T def = 0) {
         static_assert(!std::is_pointer<T>::value, "this algorithm cannot work with views");
 
-        tsx = (-tsx) % int_t(v.dims[0]);
-        tsy = (-tsy) % int_t(v.dims[1]);
+        const int_t nx = v.dims[0], ny = v.dims[1];
+        if (tsx >= nx || tsx <= -nx || tsy >= ny || tsy <= -ny) {
+            // The whole image is moved out of the frame
+            std::fill(v.begin(), v.end(), def);
+            return;
+        }
+
+        tsx = -tsx;
+        tsy = -tsy;
 
         if (tsy > 0) {
             for (uint_t ix : range(v.dims[0])) {
-- 
2.43.0


From bac6de29dd956ff9b2e7bb4a878d32ecbb03bde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:05 +0000
Subject: [PATCH 72/89] fix: subregion creating an image of negative size for
 an empty region

---
 include/vif/astro/image.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 0e7f7c8..5ed215a 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -116,6 +116,8 @@ namespace astro {
         subregion(v, reg, rr, rs);
 
         int_t nx = reg(2)-reg(0)+1, ny = reg(3)-reg(1)+1;
+        if (nx < 0) nx = 0;
+        if (ny < 0) ny = 0;
         vec<2,meta::rtype_t<TypeV>> sub = replicate(meta::rtype_t<TypeV>(def), nx, ny);
 
         sub.safe[rs] = v.safe[rr];
-- 
2.43.0


From 20974d59eeb8526db36459e7b5fd1efc2a626a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:05 +0000
Subject: [PATCH 73/89] fix: boxcar reading out of bounds when the window is
 larger than the image

---
 include/vif/astro/image.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 5ed215a..b76ff14 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -767,9 +767,9 @@ namespace astro {
         for (uint_t x = 0; x < img.dims[0]; ++x)
         for (uint_t y = 0; y < img.dims[1]; ++y) {
             uint_t x0 = x >= hsize ? x - hsize : 0;
-            uint_t x1 = x < img.dims[0]-hsize ? x + hsize : img.dims[0]-1;
+            uint_t x1 = x+hsize < img.dims[0] ? x + hsize : img.dims[0]-1;
             uint_t y0 = y >= hsize ? y - hsize : 0;
-            uint_t y1 = y < img.dims[1]-hsize ? y + hsize : img.dims[1]-1;
+            uint_t y1 = y+hsize < img.dims[1] ? y + hsize : img.dims[1]-1;
 
             vec<1,meta::rtype_t<T>> tmp;
             tmp.reserve((x1-x0)*(y1-y0));
-- 
2.43.0


From c956ea1a2316279f5e78c81b49df1a70d40e9442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:05 +0000
Subject: [PATCH 74/89] fix: convolve2d_naive writing out of bounds when the
 kernel is larger than the map

---
 include/vif/astro/image.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index b76ff14..c25146b 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -453,6 +453,9 @@ namespace astro {
             const auto kw = kernel.safe(kx, ky);
             if (kw == 0.0) continue;
 
+            // Ignore the parts of the kernel which cannot reach the map
+            if (kx >= map.dims[0]+hxsize || ky >= map.dims[1]+hysize) continue;
+
             uint_t x0 = (kx >= hxsize ? 0 : hxsize-kx);
             uint_t xn = map.dims[0] - (kx >= hxsize ? kx-hxsize : 0);
             uint_t y0 = (ky >= hysize ? 0 : hysize-ky);
-- 
2.43.0


From 86051a7d8594ad008947bbc882b33606ab3bd5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:05 +0000
Subject: [PATCH 75/89] fix: circular_mask writing out of bounds for empty
 images, and ignoring the outer corners of the first pixels

---
 include/vif/astro/image.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index c25146b..22356ff 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -372,7 +372,7 @@ namespace astro {
         vif_check(radius >= 0, "radius must be a positive number");
 
         // Identify the needed region
-        if (x+radius > 0 && y+radius > 0) {
+        if (!m.empty() && x+radius >= -0.5 && y+radius >= -0.5) {
             uint_t x0 = floor(x - radius) > 0         ? floor(x - radius) : 0;
             uint_t y0 = floor(y - radius) > 0         ? floor(y - radius) : 0;
             uint_t x1 = ceil(x + radius)  < dims[0]-1 ? ceil(x + radius)  : dims[0]-1;
-- 
2.43.0


From 9dd7fc8230994a67cd3d8df0cd19c3e084d49914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:05 +0000
Subject: [PATCH 76/89] fix: radial_profile giving its arguments to
 circular_mask in the wrong order

---
 include/vif/astro/image.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 22356ff..ca13a51 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -405,8 +405,8 @@ namespace astro {
         uint_t hsy = img.dims[1]/2;
         res[0] = img(hsx,hsy);
         for (uint_t i : range(1u, npix)) {
-            vec2d mask = circular_mask(img.dims, double(hsx), double(hsy), i)*
-                (1.0 - circular_mask(img.dims, double(hsx), double(hsy), i-1));
+            vec2d mask = circular_mask(img.dims, i, double(hsx), double(hsy))*
+                (1.0 - circular_mask(img.dims, i-1, double(hsx), double(hsy)));
             res.safe[i] = total(mask*img)/total(mask);
         }
 
-- 
2.43.0


From f592c87bba45e1b38376d0aa6100fd0f9e4bcfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:43 +0000
Subject: [PATCH 77/89] fix: foreach_segment giving the first pixel of the
 segments twice

---
 include/vif/astro/image.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index ca13a51..1ff2391 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -851,11 +851,12 @@ namespace astro {
         vec1u sids;
         vec1u ox, oy;
         uint_t curseg = 0;
+        uint_t curvisit = 0;
 
         auto fetch_neighbors = [&](uint_t ty, uint_t tx) {
             auto check_add = [&](uint_t tty, uint_t ttx) {
-                if (visited(tty,ttx) != curseg) {
-                    visited(tty,ttx) = curseg;
+                if (visited(tty,ttx) != curvisit) {
+                    visited(tty,ttx) = curvisit;
                     ox.push_back(ttx);
                     oy.push_back(tty);
                 }
@@ -872,7 +873,9 @@ namespace astro {
             oy.clear(); ox.clear();
 
             curseg = seg[mids[s]];
+            curvisit = s+1;
 
+            visited[mids[s]] = curvisit;
             vec1u tmid = mult_ids(seg, mids[s]);
             oy.push_back(tmid[0]);
             ox.push_back(tmid[1]);
-- 
2.43.0


From 2d951d8c8007ab820a1b025c83f59b4fcfe302a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:43 +0000
Subject: [PATCH 78/89] fix: segment counting some pixels several times in the
 area and centre

---
 include/vif/astro/image.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 1ff2391..e66de0a 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -948,6 +948,9 @@ namespace astro {
 
                 auto check_add = [&ox,&oy,&map,&out](uint_t tty, uint_t ttx) {
                     if (map.safe(tty,ttx) != 0) {
+                        // Set to zero to avoid coming back to it
+                        map.safe(tty,ttx) = 0;
+
                         out.area.back() += 1u;
                         out.px.back() += ttx;
                         out.py.back() += tty;
-- 
2.43.0


From cffbddea607d9062b36b8195608c184b75d444dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:43 +0000
Subject: [PATCH 79/89] fix: segment and segment_deblend keeping the previous
 content of their output

---
 include/vif/astro/image.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index e66de0a..4a97ae4 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -922,6 +922,8 @@ namespace astro {
 
         vif_check(params.first_id > 0, "first ID must be > 0");
 
+        out = segment_output();
+
         uint_t id = params.first_id;
 
         std::vector<uint_t> oy, ox;
@@ -1072,8 +1074,7 @@ namespace astro {
             if (tx != img.dims[1]-1) check_add(ty,tx+1);
         };
 
-        out.area.clear();
-        out.origin.clear();
+        out = segment_deblend_output();
         out.id.data.reserve(0.1*sqrt(img.size()));
         out.area.data.reserve(0.1*sqrt(img.size()));
         out.origin.data.reserve(0.1*sqrt(img.size()));
-- 
2.43.0


From b59725168588dfcfc51c3afcf0f0b628d35e0a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:43 +0000
Subject: [PATCH 80/89] fix: segment_deblend ignoring the faintest pixel, and
 reading out of bounds on an empty image

---
 include/vif/astro/image.hpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 4a97ae4..94d7ecc 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -1050,15 +1050,12 @@ namespace astro {
         vec1u ox, oy;
 
         vec1u sid = sort(img);
-        uint_t ipos = sid.size()-1;
-        while (!is_finite(img.safe[sid.safe[ipos]])) {
-            if (ipos == 0) break;
-
+        // Number of pixels left to process, ignoring non-finite pixels
+        uint_t ipos = sid.size();
+        while (ipos > 0 && !is_finite(img.safe[sid.safe[ipos-1]])) {
             --ipos;
         }
 
-        uint_t mid = sid[ipos];
-
         auto explore_neighbors = [&](uint_t ty, uint_t tx) {
             auto check_add = [&](uint_t tty, uint_t ttx) {
                 if (visited.safe(tty,ttx) != ipos) {
@@ -1088,7 +1085,9 @@ namespace astro {
 
         uint_t id = params.first_id;
 
-        while (img[mid] >= params.detect_threshold && ipos > 0) {
+        while (ipos > 0 && img.safe[sid.safe[ipos-1]] >= params.detect_threshold) {
+            uint_t mid = sid.safe[ipos-1];
+
             // Check neighboring pixels within the deblend threshold if one of them
             // already has been segmented, and if so give this pixel to that segment
             vec1u tmid = mult_ids(img, mid);
@@ -1136,7 +1135,6 @@ namespace astro {
             }
 
             --ipos;
-            mid = sid[ipos];
         }
 
         // Erase islands
@@ -1182,7 +1180,7 @@ namespace astro {
                     ox.clear(); oy.clear();
                     for (uint_t i : range(tox)) {
                         if (old_seg.safe(toy.safe[i],tox.safe[i]) == curseg) {
-                            mid = flat_id(seg, toy[i], tox[i]);
+                            uint_t mid = flat_id(seg, toy[i], tox[i]);
                             seg[mid] = out.id[s];
                             out.area[s] += 1;
                             out.flux[s] += img[mid];
-- 
2.43.0


From 9cab51cd2b4c1f11239c06c3965a0942145959db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:43 +0000
Subject: [PATCH 81/89] fix: segment_deblend counting the peak of the segments
 twice

---
 include/vif/astro/image.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 94d7ecc..ea4b7fb 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -1174,6 +1174,7 @@ namespace astro {
                 oy.clear(); ox.clear();
                 oy.push_back(tmid[0]);
                 ox.push_back(tmid[1]);
+                visited[out.origin[s]] = curseg;
 
                 while (!ox.empty()) {
                     vec1u tox = std::move(ox), toy = std::move(oy);
@@ -1230,6 +1231,7 @@ namespace astro {
                 ox.clear(); oy.clear();
                 oy.push_back(tmid[0]);
                 ox.push_back(tmid[1]);
+                visited[out.origin[s]] = curseg;
 
                 vec1u sids;
                 sids.reserve(out.area[s]);
-- 
2.43.0


From a0804e6c33db8efbd94f7f28f582fde04749fd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:43 +0000
Subject: [PATCH 82/89] fix: segment_distance giving pixels to another segment
 than the nearest one

---
 include/vif/astro/image.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index ea4b7fb..04e32c8 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -1381,7 +1381,7 @@ namespace astro {
                         double nd = sqr(double(tty) - oy) + sqr(double(ttx) - ox);
 
                         if (dmap.safe(tty,ttx) > nd) {
-                            map.safe(tty,ttx) = state.id;
+                            map.safe(tty,ttx) = map.safe(ty,tx);
                             imap.safe(tty,ttx) = imap.safe(ty,tx);
                             dmap.safe(tty,ttx) = nd;
                             state.oy.push_back(tty);
-- 
2.43.0


From 84d0329b944007b301262938ca8fc4377ecb439d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:14 +0000
Subject: [PATCH 83/89] fix: regex_extract and regex_replace counting the
 literal parentheses as groups

---
 include/vif/utility/bits/string-regex.hpp | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/include/vif/utility/bits/string-regex.hpp b/include/vif/utility/bits/string-regex.hpp
index 34c4f3d..84f3cb4 100644
--- a/include/vif/utility/bits/string-regex.hpp
+++ b/include/vif/utility/bits/string-regex.hpp
@@ -37,19 +37,6 @@ namespace vif {
             return regexec(&re, ts.c_str(), std::size_t(0), nullptr, 0) == 0;
         }
 
-        inline uint_t regex_find_nmatch_(const std::string& regex) {
-            uint_t nmatch = 0;
-            uint_t p = regex.find_first_of('(');
-            while (p != npos) {
-                if (p == 0 || regex[p-1] != '\\') {
-                    ++nmatch;
-                }
-
-                p = regex.find_first_of('(', p+1);
-            }
-
-            return nmatch;
-        }
     }
     }
 
@@ -93,7 +80,7 @@ namespace vif {
         regex_t re;
         impl::regex::build_regex_(regex, re, REG_EXTENDED);
 
-        uint_t nmatch = impl::regex::regex_find_nmatch_(regex);
+        uint_t nmatch = re.re_nsub;
         if (nmatch == 0) return ret;
 
         std::vector<regmatch_t> m(nmatch+1);
@@ -127,7 +114,7 @@ namespace vif {
         regex_t re;
         impl::regex::build_regex_(regex, re, REG_EXTENDED);
 
-        uint_t nmatch = impl::regex::regex_find_nmatch_(regex);
+        uint_t nmatch = re.re_nsub;
 
         std::vector<regmatch_t> m(nmatch+1);
         uint_t offset = 0;
-- 
2.43.0


From 65aadc2f578ce923d9394b3227a320a5e83d24fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:14 +0000
Subject: [PATCH 84/89] fix: regex_extract and regex_replace not releasing the
 regular expression

---
 include/vif/utility/bits/string-regex.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/vif/utility/bits/string-regex.hpp b/include/vif/utility/bits/string-regex.hpp
index 84f3cb4..fc22e52 100644
--- a/include/vif/utility/bits/string-regex.hpp
+++ b/include/vif/utility/bits/string-regex.hpp
@@ -81,7 +81,10 @@ namespace vif {
         impl::regex::build_regex_(regex, re, REG_EXTENDED);
 
         uint_t nmatch = re.re_nsub;
-        if (nmatch == 0) return ret;
+        if (nmatch == 0) {
+            regfree(&re);
+            return ret;
+        }
 
         std::vector<regmatch_t> m(nmatch+1);
         uint_t offset = 0;
@@ -104,6 +107,8 @@ namespace vif {
             status = regexec(&re, ts.c_str() + offset, nmatch+1, m.data(), 0);
         }
 
+        regfree(&re);
+
         return ret;
     }
 
@@ -137,6 +142,8 @@ namespace vif {
 
         s += ts.substr(offset);
 
+        regfree(&re);
+
         return s;
     }
 }
-- 
2.43.0


From 241d9e73d32ee7596d91d173fb697146f8fc7939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:14 +0000
Subject: [PATCH 85/89] fix: regex_extract and regex_replace matching ^ after
 the beginning of the string

---
 include/vif/utility/bits/string-regex.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/utility/bits/string-regex.hpp b/include/vif/utility/bits/string-regex.hpp
index fc22e52..4d2df1f 100644
--- a/include/vif/utility/bits/string-regex.hpp
+++ b/include/vif/utility/bits/string-regex.hpp
@@ -104,7 +104,7 @@ namespace vif {
             append<0>(ret, reform(std::move(tret), 1, nmatch));
 
             offset += m[0].rm_eo;
-            status = regexec(&re, ts.c_str() + offset, nmatch+1, m.data(), 0);
+            status = regexec(&re, ts.c_str() + offset, nmatch+1, m.data(), REG_NOTBOL);
         }
 
         regfree(&re);
@@ -137,7 +137,7 @@ namespace vif {
             s += func(std::move(ext));
 
             offset += m[0].rm_eo;
-            status = regexec(&re, ts.c_str() + offset, nmatch+1, m.data(), 0);
+            status = regexec(&re, ts.c_str() + offset, nmatch+1, m.data(), REG_NOTBOL);
         }
 
         s += ts.substr(offset);
-- 
2.43.0


From 2fdc20aa66694af304fa28679ae045b55a922e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:14 +0000
Subject: [PATCH 86/89] fix: regex_extract and regex_replace not terminating on
 empty matches

---
 include/vif/utility/bits/string-regex.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/vif/utility/bits/string-regex.hpp b/include/vif/utility/bits/string-regex.hpp
index 4d2df1f..8e69450 100644
--- a/include/vif/utility/bits/string-regex.hpp
+++ b/include/vif/utility/bits/string-regex.hpp
@@ -104,6 +104,12 @@ namespace vif {
             append<0>(ret, reform(std::move(tret), 1, nmatch));
 
             offset += m[0].rm_eo;
+            if (m[0].rm_eo == m[0].rm_so) {
+                // Empty match, move to the next character
+                if (offset >= ts.size()) break;
+                ++offset;
+            }
+
             status = regexec(&re, ts.c_str() + offset, nmatch+1, m.data(), REG_NOTBOL);
         }
 
@@ -137,6 +143,13 @@ namespace vif {
             s += func(std::move(ext));
 
             offset += m[0].rm_eo;
+            if (m[0].rm_eo == m[0].rm_so) {
+                // Empty match, move to the next character
+                if (offset >= ts.size()) break;
+                s += ts[offset];
+                ++offset;
+            }
+
             status = regexec(&re, ts.c_str() + offset, nmatch+1, m.data(), REG_NOTBOL);
         }
 
-- 
2.43.0


From 022b1babbb8c93c4e492ab8faa22afae84e91428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:14 +0000
Subject: [PATCH 87/89] fix: regex_replace throwing when a group is not part of
 the match

---
 include/vif/utility/bits/string-regex.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/vif/utility/bits/string-regex.hpp b/include/vif/utility/bits/string-regex.hpp
index 8e69450..9cc56f0 100644
--- a/include/vif/utility/bits/string-regex.hpp
+++ b/include/vif/utility/bits/string-regex.hpp
@@ -137,7 +137,11 @@ namespace vif {
             vec1s ext;
             ext.reserve(nmatch);
             for (uint_t i : range(nmatch)) {
-                ext.push_back(ts.substr(offset+m[i+1].rm_so, m[i+1].rm_eo - m[i+1].rm_so));
+                if (m[i+1].rm_eo > m[i+1].rm_so) {
+                    ext.push_back(ts.substr(offset+m[i+1].rm_so, m[i+1].rm_eo - m[i+1].rm_so));
+                } else {
+                    ext.push_back("");
+                }
             }
 
             s += func(std::move(ext));
-- 
2.43.0


From b7fe597a62acbc21326d6acc5b260b90cc6ca7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:02 +0000
Subject: [PATCH 88/89] fix: randomi returning values out of the range because
 of the rounding

---
 include/vif/math/random.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/random.hpp b/include/vif/math/random.hpp
index 340be64..d3f4dec 100644
--- a/include/vif/math/random.hpp
+++ b/include/vif/math/random.hpp
@@ -60,7 +60,7 @@ namespace vif {
         vec<meta::dim_total<Args...>::value,decltype(mi+ma)> {
         auto v = randomu(seed, std::forward<Args>(args)...);
         using rtype = decltype(mi + ma);
-        return vec<meta::dim_total<Args...>::value,rtype>(v*(ma + 1 - mi) + mi);
+        return mi + vec<meta::dim_total<Args...>::value,rtype>(v*(ma + 1 - mi));
     }
 
     template<typename T, typename TypeX = double, typename TypeY = double, typename ... Args>
-- 
2.43.0


From afe96b37dde7954a3cf076b744b66620fd81713b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:02 +0000
Subject: [PATCH 89/89] fix: random_coin returning true with a probability of
 zero

---
 include/vif/math/random.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vif/math/random.hpp b/include/vif/math/random.hpp
index d3f4dec..91ee27d 100644
--- a/include/vif/math/random.hpp
+++ b/include/vif/math/random.hpp
@@ -106,7 +106,7 @@ namespace vif {
     template<typename TSeed>
     bool random_coin(TSeed& seed, double prob) {
         std::uniform_real_distribution<double> distribution(0.0, 1.0);
-        return distribution(seed) <= prob;
+        return distribution(seed) < prob;
     }
 
     template<typename TSeed, uint_t D, typename T>
@@ -116,7 +116,7 @@ namespace vif {
         std::uniform_real_distribution<double> distribution(0.0, 1.0);
 
         for (uint_t i : range(v)) {
-            v.safe[i] = distribution(seed) <= prob.safe[i];
+            v.safe[i] = distribution(seed) < prob.safe[i];
         }
 
         return v;
@@ -128,7 +128,7 @@ namespace vif {
         std::uniform_real_distribution<double> distribution(0.0, 1.0);
 
         for (uint_t i : range(v)) {
-            v.safe[i] = distribution(seed) <= prob;
+            v.safe[i] = distribution(seed) < prob;
         }
 
         return v;
-- 
2.43.0

