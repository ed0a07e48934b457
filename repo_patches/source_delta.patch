From bb4ac29e70e5cb993ba23d36fe63729f83643beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:07 +0000
Subject: [PATCH 01/71] fix: define the comparisons between complex tensors and
 complex numbers

operator== and operator!= (const CTensor &, cdouble) were declared but only
versions taking a double were defined, so that programs using them did not link.
---
 src/compare/ctensor_cdouble_e.cc  | 2 +-
 src/compare/ctensor_cdouble_ne.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compare/ctensor_cdouble_e.cc b/src/compare/ctensor_cdouble_e.cc
index 1dcdcb8..d6a1c5e 100644
--- a/src/compare/ctensor_cdouble_e.cc
+++ b/src/compare/ctensor_cdouble_e.cc
@@ -22,7 +22,7 @@
 
 namespace tensor {
 
-  const Booleans operator==(const CTensor &a, double b)
+  const Booleans operator==(const CTensor &a, cdouble b)
   {
     Booleans c(a.size());
     Booleans::iterator ic = c.begin();
diff --git a/src/compare/ctensor_cdouble_ne.cc b/src/compare/ctensor_cdouble_ne.cc
index 8503fdc..5273f2f 100644
--- a/src/compare/ctensor_cdouble_ne.cc
+++ b/src/compare/ctensor_cdouble_ne.cc
@@ -22,7 +22,7 @@
 
 namespace tensor {
 
-  const Booleans operator!=(const CTensor &a, double b)
+  const Booleans operator!=(const CTensor &a, cdouble b)
   {
     Booleans c(a.size());
     Booleans::iterator ic = c.begin();
-- 
2.43.0


From 4ac820b3b88982a8d818bb1cd7f708bb7db85fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:38 +0000
Subject: [PATCH 02/71] fix: check both ends of the ranges of a tensor view and
 allow empty and descending ones

---
 src/views/range.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/views/range.cc b/src/views/range.cc
index c927d4e..7669398 100644
--- a/src/views/range.cc
+++ b/src/views/range.cc
@@ -139,7 +139,7 @@ namespace tensor {
   void
   SingleRange::set_limit(index limit)
   {
-    assert(limit > ndx_);
+    assert(ndx_ >= 0 && ndx_ < limit);
     Range::set_limit(limit);
   }
 
@@ -162,12 +162,13 @@ namespace tensor {
   StepRange::StepRange(index start, index end, index step) :
     Range(), start_(start), end_(end), step_(step), ndx_(0)
   {
+    assert(step != 0);
   }
 
   index
   StepRange::pop()
   {
-    if (ndx_ > end_) {
+    if (step_ > 0 ? ndx_ > end_ : ndx_ < end_) {
       return nomore();
     } else {
       index output = ndx_;
@@ -189,13 +190,16 @@ namespace tensor {
   void
   StepRange::set_limit(index limit)
   {
-    assert(limit > end_);
+    assert(size() == 0 || (start_ >= 0 && start_ < limit &&
+                           end_ >= 0 && end_ < limit));
     Range::set_limit(limit);
   }
 
   index
   StepRange::size() const
   {
+    if (step_ > 0 ? start_ > end_ : start_ < end_)
+      return 0;
     return (end_ - start_) / step_ + 1;
   }
 
@@ -237,7 +241,7 @@ namespace tensor {
   {
 #ifndef NDEBUG
     for (Indices::const_iterator it = indices_.begin(); it != indices_.end(); it++) {
-      assert(*it <= limit);
+      assert(*it >= 0 && *it < limit);
     }
 #endif
     Range::set_limit(limit);
-- 
2.43.0


From c3b9d23eadd6093349906cfb21535e0873cc7814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:38 +0000
Subject: [PATCH 03/71] fix: slices of tensors with an empty dimension divided
 by zero

---
 src/views/range.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/views/range.cc b/src/views/range.cc
index 7669398..357ad53 100644
--- a/src/views/range.cc
+++ b/src/views/range.cc
@@ -262,9 +262,17 @@ namespace tensor {
   /************************************************************
    * TENSOR PRODUCT RANGE
    */
+
+  // A dimension of length zero selects nothing, but the other ranges
+  // still need a factor they can be divided by.
+  static inline index nonzero(index limit)
+  {
+    return limit? limit : 1;
+  }
+
   ProductRange::ProductRange(Range *r1, Range *r2) : r1_(r1), r2_(r2)
   {
-    r2_->set_factor(r1_->get_factor() * r1_->get_limit());
+    r2_->set_factor(r1_->get_factor() * nonzero(r1_->get_limit()));
   }
 
   ProductRange::~ProductRange()
@@ -300,7 +308,7 @@ namespace tensor {
   ProductRange::set_factor(index factor)
   {
     r1_->set_factor(factor);
-    r2_->set_factor(factor * r1_->get_limit());
+    r2_->set_factor(factor * nonzero(r1_->get_limit()));
   }
 
   void
-- 
2.43.0


From cef02c20b66eecf4dbc0253888346c6f45e68f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:59 +0000
Subject: [PATCH 04/71] fix: assigning a tensor to a slice of itself read
 elements already overwritten

---
 src/tensor/tensor_view.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tensor/tensor_view.hpp b/src/tensor/tensor_view.hpp
index 09437cf..7b62134 100644
--- a/src/tensor/tensor_view.hpp
+++ b/src/tensor/tensor_view.hpp
@@ -266,9 +266,11 @@ namespace tensor {
   {
     //assert(verify_tensor_dimensions_match(dims_, t.dimensions()));
     assert(dims_.total_size() == t.dims_.total_size());
+    // 't' may be the tensor we are writing to: keep its original data.
+    const Vector<elt_t> data(t.data_);
     ranges_->reset();
     for (index i = 0, j; (j = ranges_->pop()) != ranges_->nomore(); i++) {
-      data_.at(j) = t[i];
+      data_.at(j) = data[i];
     }
   }
 
-- 
2.43.0


From 98b778f7c4fc8ca4bc7baed31e3fa347147c15f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:28 +0000
Subject: [PATCH 05/71] fix: in-place operators with an element of the same
 tensor used the element after changing it

---
 include/tensor/detail/functional.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/tensor/detail/functional.h b/include/tensor/detail/functional.h
index 13d55e5..853f9a5 100644
--- a/include/tensor/detail/functional.h
+++ b/include/tensor/detail/functional.h
@@ -79,7 +79,7 @@ struct divided {
 //
 template<typename t1, typename t2>
 struct plus_constant {
-  const t2 &value;
+  const t2 value;
   plus_constant(const t2 &b) : value(b) {}
   typename Binop<t1,t2>::type operator()(const t1 &a) {
     return a + value;
@@ -88,7 +88,7 @@ struct plus_constant {
 
 template<typename t1, typename t2>
 struct minus_constant {
-  const t2 &value;
+  const t2 value;
   minus_constant(const t2 &b) : value(b) {}
   typename Binop<t1,t2>::type operator()(const t1 &a) {
     return a - value;
@@ -97,7 +97,7 @@ struct minus_constant {
 
 template<typename t1, typename t2>
 struct times_constant {
-  const t2 &value;
+  const t2 value;
   times_constant(const t2 &b) : value(b) {}
   typename Binop<t1,t2>::type operator()(const t1 &a) {
     return a * value;
@@ -106,7 +106,7 @@ struct times_constant {
 
 template<typename t1, typename t2>
 struct divided_constant {
-  const t2 &value;
+  const t2 value;
   divided_constant(const t2 &b) : value(b) {}
   typename Binop<t1,t2>::type operator()(const t1 &a) {
     return a / value;
-- 
2.43.0


From 81c47d12b43454071a945cc471aa6794c8cc1df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 06/71] fix: squeeze left dimensions undefined for empty
 tensors and aborted on single elements

---
 src/tensor/tensor_squeeze.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tensor/tensor_squeeze.cc b/src/tensor/tensor_squeeze.cc
index dad3232..3ba57ad 100644
--- a/src/tensor/tensor_squeeze.cc
+++ b/src/tensor/tensor_squeeze.cc
@@ -24,10 +24,15 @@ namespace tensor {
 
   const Indices squeeze_dimensions(const Indices &d)
   {
-    Indices output(d.size() - std::count(d.begin(), d.end(), 1));
+    index n = d.size() - std::count(d.begin(), d.end(), 1);
+    if (n == 0 && d.size()) {
+      // A single element still needs a dimension
+      return igen << 1;
+    }
+    Indices output(n);
     Indices::const_iterator b = d.begin();
     for (Indices::iterator a = output.begin(); a != output.end() && b != d.end(); b++) {
-      if (*b > 1)
+      if (*b != 1)
         *(a++) = *b;
     }
     return output;
-- 
2.43.0


From cf2858ffb09c6f226023fe02902cd68952cb62d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 07/71] fix: comparisons with a number on the left returned the
 opposite relation

---
 include/tensor/indices.h | 8 ++++----
 include/tensor/tensor.h  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/tensor/indices.h b/include/tensor/indices.h
index ad93c73..4493f2f 100644
--- a/include/tensor/indices.h
+++ b/include/tensor/indices.h
@@ -85,10 +85,10 @@ namespace tensor {
   const Booleans operator!=(const Indices &a, index b);
 
   inline const Booleans operator==(index a, const Indices &b) { return b == a; }
-  inline const Booleans operator<(index a, const Indices &b) { return b >= a; }
-  inline const Booleans operator>(index a, const Indices &b) { return b <= a; }
-  inline const Booleans operator<=(index a, const Indices &b) { return b > a; }
-  inline const Booleans operator>=(index a, const Indices &b) {  return b < a; }
+  inline const Booleans operator<(index a, const Indices &b) { return b > a; }
+  inline const Booleans operator>(index a, const Indices &b) { return b < a; }
+  inline const Booleans operator<=(index a, const Indices &b) { return b >= a; }
+  inline const Booleans operator>=(index a, const Indices &b) {  return b <= a; }
   inline const Booleans operator!=(index a, const Indices &b) { return b != a; }
 
   //////////////////////////////////////////////////////////////////////
diff --git a/include/tensor/tensor.h b/include/tensor/tensor.h
index a9c33ab..bb6b604 100644
--- a/include/tensor/tensor.h
+++ b/include/tensor/tensor.h
@@ -449,10 +449,10 @@ namespace tensor {
   const Booleans operator!=(const RTensor &a, double b);
 
   inline const Booleans operator==(double a, const RTensor &b) { return b == a; }
-  inline const Booleans operator<(double a, const RTensor &b) { return b >= a; }
-  inline const Booleans operator>(double a, const RTensor &b) { return b <= a; }
-  inline const Booleans operator<=(double a, const RTensor &b) { return b > a; }
-  inline const Booleans operator>=(double a, const RTensor &b) {  return b < a; }
+  inline const Booleans operator<(double a, const RTensor &b) { return b > a; }
+  inline const Booleans operator>(double a, const RTensor &b) { return b < a; }
+  inline const Booleans operator<=(double a, const RTensor &b) { return b >= a; }
+  inline const Booleans operator>=(double a, const RTensor &b) {  return b <= a; }
   inline const Booleans operator!=(double a, const RTensor &b) { return b != a; }
 
   const RTensor operator+(const RTensor &a, const RTensor &b);
-- 
2.43.0


From edc140029558fc6f658ac3b9e66e12b397676f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 08/71] fix: linspace aborted for tensors of rank above one

---
 src/indices/linspace.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/indices/linspace.hpp b/src/indices/linspace.hpp
index fe99c8d..8b5580f 100644
--- a/src/indices/linspace.hpp
+++ b/src/indices/linspace.hpp
@@ -33,10 +33,10 @@ namespace tensor {
     if (n == 1) {
       output = min;
     } else if (n) {
-      const Tensor<elt_t> base = reshape(max, d);
+      const Tensor<elt_t> base = reshape(min, d);
       const Tensor<elt_t> delta = reshape((max - min) / (n - 1.0), d);
       for (index i = 0; i < n; i++) {
-        output.at(range(), range(i)) = delta * (double)i + min;
+        output.at(range(), range(i)) = delta * (double)i + base;
       }
     }
     if (d == 1)
-- 
2.43.0


From eb2dd069b7b13a30d4b848272c818e51bc70f71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 09/71] fix: foldin of two vectors wrote outside of the
 dimensions of its result

---
 src/tensor/tensor_foldin.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/tensor_foldin.cc b/src/tensor/tensor_foldin.cc
index 0426e0b..f448c65 100644
--- a/src/tensor/tensor_foldin.cc
+++ b/src/tensor/tensor_foldin.cc
@@ -39,7 +39,7 @@ namespace tensor {
     const index rankb = b.rank();
     index ndx1 = normalize_index(_ndx1, ranka);
     index ndx2 = normalize_index(_ndx2, rankb);
-    Indices new_dims(ranka + rankb - 2);
+    Indices new_dims(std::max<index>(ranka + rankb - 2, 1));
     /*
      * Since we use row-major order, in which the first
      * index varies faster, we nest the loops beginning with the last index,
-- 
2.43.0


From a12a08600e837c107f97ffa3945a812675f9b540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 10/71] fix: trace rejected the first index given as a negative
 number

---
 src/tensor/tensor_trace.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tensor/tensor_trace.cc b/src/tensor/tensor_trace.cc
index ab198db..3332506 100644
--- a/src/tensor/tensor_trace.cc
+++ b/src/tensor/tensor_trace.cc
@@ -53,8 +53,8 @@ namespace tensor {
   template<typename elt_t>
   static const Tensor<elt_t> do_trace(const Tensor<elt_t> &D, index i1, index i2)
   {
-    assert(i1 < D.rank() && i1 > -D.rank());
-    assert(i2 < D.rank() && i2 > -D.rank());
+    assert(i1 < D.rank() && i1 >= -D.rank());
+    assert(i2 < D.rank() && i2 >= -D.rank());
     if (i1 < 0)
       i1 = i1 + D.rank();
     if (i2 < 0)
-- 
2.43.0


From ab2ec53f1a4eee6519b0c03f2f764ca8b485aa69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 11/71] fix: take_diag of a tensor used the wrong length for
 the second index

---
 src/tensor/tensor_take_diag.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/tensor_take_diag.cc b/src/tensor/tensor_take_diag.cc
index 4acd9a6..9feda7a 100644
--- a/src/tensor/tensor_take_diag.cc
+++ b/src/tensor/tensor_take_diag.cc
@@ -99,7 +99,7 @@ const tensor::Tensor<elt_t> do_take_diag(const tensor::Tensor<elt_t> &a, int whi
   tensor::Tensor<elt_t> output(new_dims);
   which = -which;
   if (a2b) {
-    do_diag<elt_t>(output.begin(), a.begin(), a1,a2,a2b,a3,a3,a5,which);
+    do_diag<elt_t>(output.begin(), a.begin(), a1,a2,a2b,a3,a4,a5,which);
   }
   return output;
 }
-- 
2.43.0


From 241ffc459d1327eb4c58977d23b0295b493ec656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 12/71] fix: to_complex read beyond an imaginary part shorter
 than the real one

---
 src/tensor/tensor_to_complex.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tensor/tensor_to_complex.cc b/src/tensor/tensor_to_complex.cc
index 997fd3b..663e072 100644
--- a/src/tensor/tensor_to_complex.cc
+++ b/src/tensor/tensor_to_complex.cc
@@ -34,6 +34,7 @@ namespace tensor {
 
   const CTensor to_complex(const RTensor &r, const RTensor &i)
   {
+    assert(r.size() == i.size());
     CTensor output(r.dimensions());
     RTensor::const_iterator ir = r.begin();
     RTensor::const_iterator ii = i.begin();
-- 
2.43.0


From 4b11bac9dfbf5c29bac851045af770cb032af580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 13/71] fix: mean over the last dimension wrote outside of the
 dimensions of its result

---
 src/tensor/tensor_mean_ndx.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tensor/tensor_mean_ndx.cc b/src/tensor/tensor_mean_ndx.cc
index 0e44f3f..eb58da2 100644
--- a/src/tensor/tensor_mean_ndx.cc
+++ b/src/tensor/tensor_mean_ndx.cc
@@ -37,15 +37,15 @@ namespace {
       tensor::index left = 1, middle, right = 1;
       for (int i = 0, j = 0; i < rank; i++) {
 	tensor::index d = t.dimension(i);
+	if (i == ndx) {
+	  middle = d;
+	  continue;
+	}
 	dimensions.at(j++) = d;
 	if (i < ndx)
 	  left *= d;
-	else if (i > ndx)
+	else
 	  right *= d;
-	else {
-	  middle = d;
-	  j--;
-	}
       }
       Tensor aux = reshape(t, left, middle, right);
       Tensor output = Tensor::zeros(left, right);
-- 
2.43.0


From e894c111dc0facda728d5c381260c2a544ab1e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 14/71] fix: matrix_norminf read the elements of matrices
 without columns

---
 src/tensor/matrix_norminf_d.cc | 6 +++---
 src/tensor/matrix_norminf_z.cc | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tensor/matrix_norminf_d.cc b/src/tensor/matrix_norminf_d.cc
index f280414..04d31ea 100644
--- a/src/tensor/matrix_norminf_d.cc
+++ b/src/tensor/matrix_norminf_d.cc
@@ -31,10 +31,10 @@ namespace tensor {
 
     double *aux = new double[r];
     RTensor::const_iterator p = m.begin_const();
-    for (size_t i = 0; i < r; i++, p++) {
-      aux[i] = abs(*p);
+    for (size_t i = 0; i < r; i++) {
+      aux[i] = 0.0;
     }
-    for (size_t j = 1; j < c; j++) {
+    for (size_t j = 0; j < c; j++) {
       for (size_t i = 0; i < r; i++, p++) {
 	aux[i] += abs(*p);
       }
diff --git a/src/tensor/matrix_norminf_z.cc b/src/tensor/matrix_norminf_z.cc
index 0499649..b1abd84 100644
--- a/src/tensor/matrix_norminf_z.cc
+++ b/src/tensor/matrix_norminf_z.cc
@@ -31,10 +31,10 @@ namespace tensor {
 
     double *aux = new double[r];
     CTensor::const_iterator p = m.begin_const();
-    for (size_t i = 0; i < r; i++, p++) {
-      aux[i] = abs(*p);
+    for (size_t i = 0; i < r; i++) {
+      aux[i] = 0.0;
     }
-    for (size_t j = 1; j < c; j++) {
+    for (size_t j = 0; j < c; j++) {
       for (size_t i = 0; i < r; i++, p++) {
 	aux[i] += abs(*p);
       }
-- 
2.43.0


From 7eac1bcc49d9e563a7dd97a9c24b42f408e73c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 15/71] fix: copies of a shared_ptr were not counted, so the
 object was deleted several times

---
 include/tensor/refcount.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/tensor/refcount.h b/include/tensor/refcount.h
index 8341d39..8aab1e8 100644
--- a/include/tensor/refcount.h
+++ b/include/tensor/refcount.h
@@ -104,6 +104,13 @@ private:
   class shared_ptr {
   public:
     shared_ptr(T *t) : _value(t), _ref(new int(1)) {}
+    shared_ptr(const shared_ptr &p) : _value(p._value), _ref(p._ref) { ++(*_ref); }
+    shared_ptr &operator=(const shared_ptr &p) {
+      shared_ptr other(p);
+      std::swap(_value, other._value);
+      std::swap(_ref, other._ref);
+      return *this;
+    }
     ~shared_ptr() { --(*_ref); if (!(*_ref)) { delete _value; delete _ref; }}
     T* operator->() const { return _value; }
     T& operator*() const { return *_value; }
-- 
2.43.0


From 2e3d5825cf0cffd19cfd07adac460487ffce9a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 16/71] fix: resizing a vector left it with released storage
 when the allocation failed

---
 include/tensor/detail/refcount.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/tensor/detail/refcount.hpp b/include/tensor/detail/refcount.hpp
index e427430..0f30e21 100644
--- a/include/tensor/detail/refcount.hpp
+++ b/include/tensor/detail/refcount.hpp
@@ -136,8 +136,9 @@ void RefPointer<elt_t>::appropriate() {
 
 template<class elt_t>
 void RefPointer<elt_t>::reallocate(size_t new_size) {
+  pointer *new_ref = new pointer(new elt_t[new_size], new_size);
   dereference();
-  ref_ = new pointer(new elt_t[new_size], new_size);
+  ref_ = new_ref;
 }
 
 template<class elt_t>
-- 
2.43.0


From 0d352af5ba89db2a3df227d367d5820cf38a8f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 17/71] fix: truncated or missing SDF files were read without
 noticing

---
 src/sdf/idata_file.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sdf/idata_file.cc b/src/sdf/idata_file.cc
index b3f02b7..20b2237 100644
--- a/src/sdf/idata_file.cc
+++ b/src/sdf/idata_file.cc
@@ -26,7 +26,7 @@ template <class number>
 void read_raw_with_endian(std::ifstream &s, number *data, size_t n)
 {
   s.read((char *)data, n * sizeof(number));
-  if (s.bad()) {
+  if (!s) {
     std::cerr << "I/O error when reading from SDF stream";
     abort();
   }
@@ -38,7 +38,7 @@ void read_raw_with_endian(std::ifstream &s, number *data, size_t n)
   const int size = sizeof(number);
   if (size == 1) {
     s.read((char *)data, n * sizeof(number));
-    if (s.bad()) {
+    if (!s) {
       std::cerr << "I/O error when reading from SDF stream";
       abort();
     }
@@ -52,7 +52,7 @@ void read_raw_with_endian(std::ifstream &s, number *data, size_t n)
   do {
     size_t now = min<size_t>(n*size, buffer_size);
     s.read(buffer, now);
-    if (s.bad()) {
+    if (!s) {
       std::cerr << "I/O error when reading from stream " << s;
       abort();
     }
-- 
2.43.0


From f5371a084afc6dc948702370bc0cbd536cb755b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 18/71] fix: names and headers of foreign SDF files were read
 beyond the end of the buffer

---
 src/sdf/idata_file.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sdf/idata_file.cc b/src/sdf/idata_file.cc
index 20b2237..eb57ca7 100644
--- a/src/sdf/idata_file.cc
+++ b/src/sdf/idata_file.cc
@@ -17,6 +17,7 @@
     51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 */
 
+#include <algorithm>
 #include <tensor/sdf.h>
 
 using namespace sdf;
@@ -146,7 +147,7 @@ InDataFile::read_variable_name()
 {
   char *buffer = new char[var_name_size];
   read_raw(buffer, var_name_size);
-  std::string output(buffer);
+  std::string output(buffer, std::find(buffer, buffer + var_name_size, 0));
   delete[] buffer;
   return output;
 }
@@ -265,7 +266,7 @@ InDataFile::read_header()
 {
   std::string var_name = read_variable_name();
 
-  if (var_name[0] != 's' || var_name[1] != 'd' || var_name[2] != 'f') {
+  if (var_name.size() < 6 || var_name[0] != 's' || var_name[1] != 'd' || var_name[2] != 'f') {
     std::cerr << "Bogus SDF file" << std::endl
               << "Wrong header: '" << var_name << "'" << std::endl;
     abort();
-- 
2.43.0


From 83db0150dc022e8b1264e955b5b792b3a6ee8a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 19/71] fix: unknown SDF record types indexed beyond the table
 of names

---
 src/sdf/data_file.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sdf/data_file.cc b/src/sdf/data_file.cc
index 9c6b34f..0e6786c 100644
--- a/src/sdf/data_file.cc
+++ b/src/sdf/data_file.cc
@@ -133,8 +133,9 @@ DataFile::tag_to_name(size_t tag)
 	"RTensor", "CTensor", "Real MPS", "Complex MPS"
     };
 
-    if (tag > 4 /* || tag < 0 */) {
+    if (tag >= 4 /* || tag < 0 */) {
 	std::cerr << "Not a valid tag code, " << tag << " found in " << _filename;
+	abort();
     }
     return names[tag];
 }
-- 
2.43.0


From 7e294d993ef1a5b1beee3202812f4f7605088918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 20/71] fix: loading a number from an SDF record with an empty
 tensor read beyond its end

---
 src/sdf/idata_file.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sdf/idata_file.cc b/src/sdf/idata_file.cc
index eb57ca7..f78703f 100644
--- a/src/sdf/idata_file.cc
+++ b/src/sdf/idata_file.cc
@@ -224,7 +224,7 @@ InDataFile::load(double *value, const std::string &name)
 {
   RTensor t;
   load(&t, name);
-  if (t.size() > 1) {
+  if (t.size() != 1) {
     std::cerr << "While reading file " << _filename << " found a tensor of size "
 	      << t.size() << " while a single value was expected.";
     abort();
@@ -237,7 +237,7 @@ InDataFile::load(cdouble *value, const std::string &name)
 {
   CTensor t;
   load(&t, name);
-  if (t.size() > 1) {
+  if (t.size() != 1) {
     std::cerr << "While reading file " << _filename << " found a tensor of size "
 	      << t.size() << " while a single value was expected.";
     abort();
-- 
2.43.0


From d1a41c393431cebb960375293b29f0085c1758e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 21/71] fix: SDF records with long names could not be loaded by
 name

---
 src/sdf/idata_file.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sdf/idata_file.cc b/src/sdf/idata_file.cc
index f78703f..02db132 100644
--- a/src/sdf/idata_file.cc
+++ b/src/sdf/idata_file.cc
@@ -156,7 +156,8 @@ void
 InDataFile::read_tag(const std::string &name, tensor::index type)
 {
   std::string other_name = read_variable_name();
-  if (name.size() && (name != other_name)) {
+  // Names are stored truncated to var_name_size - 1 characters
+  if (name.size() && (name.substr(0, var_name_size - 1) != other_name)) {
     std::cerr << "While reading file " << _filename << ", variable "
 	      << name << " was expected but found "
 	      << other_name << '\n';
-- 
2.43.0


From ebe9b22f5b89ba9ed3a184936d84188a8c0cfac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 22/71] fix: records that could not be written to an SDF file
 were dropped silently

---
 src/sdf/odata_file.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/sdf/odata_file.cc b/src/sdf/odata_file.cc
index a38e255..f1590b1 100644
--- a/src/sdf/odata_file.cc
+++ b/src/sdf/odata_file.cc
@@ -27,13 +27,13 @@ template <class number>
 void write_raw_with_endian(std::ofstream &s, const number *data, size_t n)
 {
   s.write((char *)data, n * sizeof(number));
-  if (s.bad()) {
-    std::cerr << "I/O error when writing to SDF stream";
-    abort();
-  }
   // Horrible hack to ensure icc flushes our buffers and does not
   // cause buffer overflow.
   s.flush();
+  if (!s) {
+    std::cerr << "I/O error when writing to SDF stream";
+    abort();
+  }
 }
 
 #else
@@ -44,11 +44,11 @@ void write_raw_with_endian(std::ofstream &s, const number *data, size_t n)
   const int size = sizeof(number);
   if (size == 1) {
     s.write((char *)data, n * sizeof(number));
-    if (s.bad()) {
+    s.flush();
+    if (!s) {
       std::cerr << "I/O error when writing to SDF stream";
       abort();
     }
-    s.flush();
     return;
   }
 
@@ -81,11 +81,11 @@ void write_raw_with_endian(std::ofstream &s, const number *data, size_t n)
       n--;
     }
     s.write(buffer, now);
-    if (s.bad()) {
-      std::cerr << "I/O error when reading from stream " << s;
+    s.flush();
+    if (!s) {
+      std::cerr << "I/O error when writing to SDF stream";
       abort();
     }
-    s.flush();
   } while (n);
 }
 
-- 
2.43.0


From 03161f6372b2d22f73bada492b215e36281d1ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:41 +0000
Subject: [PATCH 23/71] fix: loading an integer from an SDF record with another
 number returned a wrong value

---
 src/sdf/idata_file.cc | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/sdf/idata_file.cc b/src/sdf/idata_file.cc
index 02db132..cbda65c 100644
--- a/src/sdf/idata_file.cc
+++ b/src/sdf/idata_file.cc
@@ -18,6 +18,7 @@
 */
 
 #include <algorithm>
+#include <limits>
 #include <tensor/sdf.h>
 
 using namespace sdf;
@@ -246,12 +247,27 @@ InDataFile::load(cdouble *value, const std::string &name)
   *value = t[0];
 }
 
+template<typename integer>
+static integer
+to_integer(double value, const std::string &filename)
+{
+  // The limits are powers of two and thus exact. NaN fails both comparisons.
+  const double upper = 2.0 * (double)(std::numeric_limits<integer>::max() / 2 + 1);
+  const double lower = (double)std::numeric_limits<integer>::min();
+  if (!(value >= lower && value < upper) || value != (double)(integer)value) {
+    std::cerr << "While reading file " << filename << " found the number "
+	      << value << " while an integer was expected.";
+    abort();
+  }
+  return (integer)value;
+}
+
 void
 InDataFile::load(size_t *v, const std::string &name)
 {
   double aux;
   load(&aux, name);
-  *v = (size_t)aux;
+  *v = to_integer<size_t>(aux, _filename);
 }
 
 void
@@ -259,7 +275,7 @@ InDataFile::load(int *v, const std::string &name)
 {
   double aux;
   load(&aux, name);
-  *v = (int)aux;
+  *v = to_integer<int>(aux, _filename);
 }
 
 void
-- 
2.43.0


From c14be3c56770b1a05f975ff9806119962f6cb7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:41 +0000
Subject: [PATCH 24/71] fix: the lock of a data file was lost when it got
 descriptor 0

---
 include/tensor/sdf.h | 2 +-
 src/sdf/data_file.cc | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/tensor/sdf.h b/include/tensor/sdf.h
index dbc7f45..57b34d4 100644
--- a/include/tensor/sdf.h
+++ b/include/tensor/sdf.h
@@ -72,7 +72,7 @@ namespace sdf {
     const char *tag_to_name(size_t tag);
     void close();
     bool is_open() { return _open; }
-    bool is_locked() { return _lock; }
+    bool is_locked() { return _lock >= 0; }
     const std::string &actual_filename() { return _actual_filename; }
 
   };
diff --git a/src/sdf/data_file.cc b/src/sdf/data_file.cc
index 0e6786c..4d82bdd 100644
--- a/src/sdf/data_file.cc
+++ b/src/sdf/data_file.cc
@@ -57,7 +57,7 @@ static int get_lock(char const *lockName, bool wait)
 	  close(fd);
 	  fd = -1;
 	}
-      if (fd > 0 || !wait)
+      if (fd >= 0 || !wait)
 	return fd;
       sleep(1);
     } while (1);
@@ -81,7 +81,7 @@ DataFile::DataFile(const std::string &a_filename, int flags) :
   _actual_filename(a_filename),
   _filename(_actual_filename),
   _lock_filename(_actual_filename + ".lck"),
-  _lock((flags == SDF_SHARED) ? get_lock(_lock_filename.c_str(), true) : 0),
+  _lock((flags == SDF_SHARED) ? get_lock(_lock_filename.c_str(), true) : -1),
   _open(true)
 {
   switch (flags) {
-- 
2.43.0


From 31b961803c196230fe34246fd672417d184e7449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:41 +0000
Subject: [PATCH 25/71] fix: two processes could lock the same data file at the
 same time

---
 src/sdf/data_file.cc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/sdf/data_file.cc b/src/sdf/data_file.cc
index 4d82bdd..883b31e 100644
--- a/src/sdf/data_file.cc
+++ b/src/sdf/data_file.cc
@@ -57,7 +57,20 @@ static int get_lock(char const *lockName, bool wait)
 	  close(fd);
 	  fd = -1;
 	}
-      if (fd >= 0 || !wait)
+      if (fd >= 0)
+	{
+          // The previous owner may have removed the file between our open()
+          // and flock(), and then another process can lock a new one.
+          struct stat ours, current;
+          if (fstat(fd, &ours) == 0 && stat(lockName, &current) == 0 &&
+              ours.st_dev == current.st_dev && ours.st_ino == current.st_ino)
+            return fd;
+	  close(fd);
+	  if (wait)
+	    continue;
+	  return -1;
+	}
+      if (!wait)
 	return fd;
       sleep(1);
     } while (1);
-- 
2.43.0


From 466e7c5f1681b72346e610b87961880c6a2fdfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:41 +0000
Subject: [PATCH 26/71] fix: opening a data file in a missing directory waited
 forever

---
 src/sdf/data_file.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sdf/data_file.cc b/src/sdf/data_file.cc
index 883b31e..7f248ba 100644
--- a/src/sdf/data_file.cc
+++ b/src/sdf/data_file.cc
@@ -48,6 +48,11 @@ static int get_lock(char const *lockName, bool wait)
       mode_t m = umask(0);
       int fd = open(lockName, O_RDWR|O_CREAT, 0666);
       umask(m);
+      if( fd < 0 && (errno == ENOENT || errno == ENOTDIR) )
+	{
+          std::cerr << "Cannot create lock file " << lockName << std::endl;
+          abort();
+	}
       if( fd >= 0 && flock( fd, LOCK_EX | LOCK_NB ) < 0 )
 	{
           if (errno == ENOTSUP) {
-- 
2.43.0


From e6e0be66ddd6db94139a577f562c7a6eb02c6f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:41 +0000
Subject: [PATCH 27/71] fix: data files opened for reading released their lock
 before being closed

---
 src/sdf/idata_file.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/sdf/idata_file.cc b/src/sdf/idata_file.cc
index cbda65c..d457554 100644
--- a/src/sdf/idata_file.cc
+++ b/src/sdf/idata_file.cc
@@ -305,8 +305,7 @@ void
 InDataFile::close()
 {
   if (is_open()) {
-    DataFile::close();
-    _open = false;
     _stream.close();
+    DataFile::close();
   }
 }
-- 
2.43.0


From b62725ae68cabf18ee2f5215bcc2d0406c2ed92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:41 +0000
Subject: [PATCH 28/71] fix: renaming over an existing file deleted it first,
 leaving none if the process died

---
 src/sdf/rename_file.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/sdf/rename_file.cc b/src/sdf/rename_file.cc
index c937f53..c547f2a 100644
--- a/src/sdf/rename_file.cc
+++ b/src/sdf/rename_file.cc
@@ -24,12 +24,16 @@ namespace sdf {
 
   bool rename_file(const std::string &orig, const std::string &dest, bool overwrite)
   {
-    if (file_exists(dest)) {
-      if (!overwrite || !delete_file(dest)) {
-	std::cerr << "Unable to move file to destination " << dest
-		  << " because destination cannot be deleted." << std::endl;
-	abort();
-      }
+    // rename() replaces the destination atomically: deleting it first would
+    // leave a moment in which there is neither the old nor the new file.
+#if defined(_MSC_VER) || defined(__MINGW32__)
+    if (file_exists(dest) && (!overwrite || !delete_file(dest))) {
+#else
+    if (file_exists(dest) && !overwrite) {
+#endif
+      std::cerr << "Unable to move file to destination " << dest
+		<< " because destination cannot be deleted." << std::endl;
+      abort();
     }
     if (!file_exists(orig)) {
       std::cerr << "In rename_file(), original file " << dest
-- 
2.43.0


From 233b47589b723b7453df779ce5978d3c7ad73220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:17 +0000
Subject: [PATCH 29/71] fix: job files were never read

---
 src/tools/jobs.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/tools/jobs.cc b/src/tools/jobs.cc
index 72b86ff..173de24 100644
--- a/src/tools/jobs.cc
+++ b/src/tools/jobs.cc
@@ -89,15 +89,16 @@ Job::parse_line(const std::string &s)
 int
 Job::parse_file(std::istream &s, var_list &data)
 {
+  // Returns 0 if all lines are right, otherwise the number of the wrong one
   std::string buffer;
-  int line;
-  for (line = 0; 1; line++) {
+  for (int line = 1; std::getline(s, buffer); line++) {
+    if (split_string(buffer).size() == 0)
+      continue;
     const Variable v = parse_line(buffer);
     if (v.name().size() == 0)
       return line;
-    else
-      data.push_back(v);
-  } while(1);
+    data.push_back(v);
+  }
   return 0;
 }
 
-- 
2.43.0


From 325cb03d86c86233bd725f9f7df0bcd93d9bcb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:17 +0000
Subject: [PATCH 30/71] fix: missing job files were taken for empty ones

---
 src/tools/jobs.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools/jobs.cc b/src/tools/jobs.cc
index 173de24..344eee9 100644
--- a/src/tools/jobs.cc
+++ b/src/tools/jobs.cc
@@ -121,6 +121,10 @@ Job::Job(int argc, const char **argv) :
       }
       filename_ = std::string(argv[i]);
       std::ifstream s(argv[i]);
+      if (!s) {
+	std::cerr << "Cannot read job file " << filename_ << std::endl;
+	abort();
+      }
       int line = parse_file(s, variables_);
       if (line) {
 	std::cerr << "Syntax error in line " << line << " of job file " << filename_
-- 
2.43.0


From f2676b471e103803be6e412f0a22eb2a4eff261b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:17 +0000
Subject: [PATCH 31/71] fix: malformed numbers in job variables were read as
 zero

---
 src/tools/jobs.cc | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/tools/jobs.cc b/src/tools/jobs.cc
index 344eee9..f9a236c 100644
--- a/src/tools/jobs.cc
+++ b/src/tools/jobs.cc
@@ -18,6 +18,8 @@
 */
 
 #include <tensor/jobs.h>
+#include <cerrno>
+#include <cstdlib>
 #include <fstream>
 
 using namespace jobs;
@@ -48,6 +50,23 @@ split_string(const std::string &s)
   return output;
 }
 
+static bool
+parse_real(const std::string &s, double *value)
+{
+  char *end;
+  *value = strtod(s.c_str(), &end);
+  return s.size() && *end == 0;
+}
+
+static bool
+parse_integer(const std::string &s, tensor::index *value)
+{
+  char *end;
+  errno = 0;
+  *value = strtol(s.c_str(), &end, 10);
+  return s.size() && *end == 0 && errno == 0;
+}
+
 const Job::Variable Job::no_variable;
 
 const Job::Variable
@@ -59,7 +78,7 @@ Job::parse_line(const std::string &s)
   // where
   //  variable_name is any string
   //  min_value, max_value are real
-  //  n_steps is a non-negative integer, defaulting to 10
+  //  n_steps is a positive integer, defaulting to 10
   //  separator is any number of spaces, tabs, newlines, commas or semicolons
   if (data.size() == 0)
     return no_variable;
@@ -67,20 +86,28 @@ Job::parse_line(const std::string &s)
     std::cerr << "Missing minimum value for variable " << data[0] << std::endl;
     return no_variable;
   }
-  double max, min = atof(data[1].c_str());
+  double max, min;
+  if (!parse_real(data[1], &min)) {
+    std::cerr << "Wrong minimum value for variable " << data[0] << std::endl;
+    return no_variable;
+  }
   tensor::index nsteps;
   if (data.size() == 2) {
     max = min;
     nsteps = 1;
   } else {
-    max = atof(data[2].c_str());
+    if (!parse_real(data[2], &max)) {
+      std::cerr << "Wrong maximum value for variable " << data[0] << std::endl;
+      return no_variable;
+    }
     if (data.size() == 3) {
       nsteps = 10;
     } else if (data.size() > 4) {
       std::cerr << "Too many arguments for variable " << data[0] << std::endl;
       return no_variable;
-    } else {
-      nsteps = atoi(data[3].c_str());
+    } else if (!parse_integer(data[3], &nsteps) || nsteps <= 0) {
+      std::cerr << "Wrong number of steps for variable " << data[0] << std::endl;
+      return no_variable;
     }
   }
   return Variable(data[0], min, max, nsteps);
-- 
2.43.0


From 306ca4b3909b55664e85358d61729f535d3d7e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:17 +0000
Subject: [PATCH 32/71] fix: malformed numbers in job options were read as zero

---
 src/tools/jobs.cc | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/tools/jobs.cc b/src/tools/jobs.cc
index f9a236c..ef8e25d 100644
--- a/src/tools/jobs.cc
+++ b/src/tools/jobs.cc
@@ -165,14 +165,20 @@ Job::Job(int argc, const char **argv) :
 	std::cerr << "Missing argument to --this-job" << std::endl;
 	abort();
       }
-      current_job = atoi(argv[i]);
+      if (!parse_integer(argv[i], &current_job)) {
+	std::cerr << "Wrong argument " << argv[i] << " to " << argv[i-1] << std::endl;
+	abort();
+      }
       this_job_found = true;
     } else if (!strcmp(argv[i], "--job-blocks")) {
       if (++i == argc) {
 	std::cerr << "Missing argument to --job-blocks" << std::endl;
 	abort();
       }
-      blocks = atoi(argv[i]);
+      if (!parse_integer(argv[i], &blocks)) {
+	std::cerr << "Wrong argument " << argv[i] << " to " << argv[i-1] << std::endl;
+	abort();
+      }
       job_blocks_found = true;
     } else if (!strcmp(argv[i], "--first-job")) {
       if (this_job_found) {
@@ -183,7 +189,10 @@ Job::Job(int argc, const char **argv) :
 	std::cerr << "Missing argument to --first-job" << std::endl;
 	abort();
       }
-      first_job_ = atoi(argv[i]);
+      if (!parse_integer(argv[i], &first_job_)) {
+	std::cerr << "Wrong argument " << argv[i] << " to " << argv[i-1] << std::endl;
+	abort();
+      }
       first_job_found = true;
     } else if (!strcmp(argv[i], "--last-job")) {
       if (!first_job_found) {
@@ -194,7 +203,10 @@ Job::Job(int argc, const char **argv) :
 	std::cerr << "Missing argument to --last-job" << std::endl;
 	abort();
       }
-      last_job_ = atoi(argv[i]);
+      if (!parse_integer(argv[i], &last_job_)) {
+	std::cerr << "Wrong argument " << argv[i] << " to " << argv[i-1] << std::endl;
+	abort();
+      }
       last_job_found = true;
     } else if (!strcmp(argv[i], "--variable")) {
       if (++i == argc) {
-- 
2.43.0


From 83169a8310d1bce166f9e8088dd5666e02f4a788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:17 +0000
Subject: [PATCH 33/71] fix: --job-blocks without --this-job ran an arbitrary
 block

---
 src/tools/jobs.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/jobs.cc b/src/tools/jobs.cc
index ef8e25d..817aaa0 100644
--- a/src/tools/jobs.cc
+++ b/src/tools/jobs.cc
@@ -138,7 +138,7 @@ Job::Job(int argc, const char **argv) :
   bool job_blocks_found = false;
   bool this_job_found = false;
   tensor::index blocks;
-  tensor::index current_job;
+  tensor::index current_job = 0;
   int i;
   for (i = 0; i < argc; i++) {
     if (!strcmp(argv[i], "--job")) {
-- 
2.43.0


From 8a644bc87f9529d4fe813575bbcade9d040d8de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:17 +0000
Subject: [PATCH 34/71] fix: --first-job without --last-job ran up to an
 arbitrary job

---
 src/tools/jobs.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/jobs.cc b/src/tools/jobs.cc
index 817aaa0..28ed0c3 100644
--- a/src/tools/jobs.cc
+++ b/src/tools/jobs.cc
@@ -290,6 +290,8 @@ Job::Job(int argc, const char **argv) :
         std::cerr << "--last-job is smaller than --first-job" << std::endl;
         abort();
       }
+    } else {
+      last_job_ = number_of_jobs_ - 1;
     }
     current_job = first_job_;
   } else if (this_job_found) {
-- 
2.43.0


From ec3056ac774c101a4a5d063de06ac5f63c83f279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:17 +0000
Subject: [PATCH 35/71] fix: the checks of job options depended on their order

---
 src/tools/jobs.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/tools/jobs.cc b/src/tools/jobs.cc
index 28ed0c3..84fc060 100644
--- a/src/tools/jobs.cc
+++ b/src/tools/jobs.cc
@@ -181,10 +181,6 @@ Job::Job(int argc, const char **argv) :
       }
       job_blocks_found = true;
     } else if (!strcmp(argv[i], "--first-job")) {
-      if (this_job_found) {
-        std::cerr << "Cannot use --first-job and --this-job simultaneously." << std::endl;
-        abort();
-      }
       if (++i == argc) {
 	std::cerr << "Missing argument to --first-job" << std::endl;
 	abort();
@@ -195,10 +191,6 @@ Job::Job(int argc, const char **argv) :
       }
       first_job_found = true;
     } else if (!strcmp(argv[i], "--last-job")) {
-      if (!first_job_found) {
-        std::cerr << "--last-job without preceding --first-job" << std::endl;
-        abort();
-      }
       if (++i == argc) {
 	std::cerr << "Missing argument to --last-job" << std::endl;
 	abort();
@@ -248,6 +240,14 @@ Job::Job(int argc, const char **argv) :
       exit(0);
     }
   }
+  if (this_job_found && first_job_found) {
+    std::cerr << "Cannot use --first-job and --this-job simultaneously." << std::endl;
+    abort();
+  }
+  if (last_job_found && !first_job_found) {
+    std::cerr << "--last-job without --first-job" << std::endl;
+    abort();
+  }
   number_of_jobs_ = compute_number_of_jobs();
   if (print_jobs) {
     std::cout << number_of_jobs_;
-- 
2.43.0


From f7c41d67796374d317f4b4f73a2d7659bf471552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:17 +0000
Subject: [PATCH 36/71] fix: the help of jobs showed a wrong option name

---
 src/tools/jobs.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/jobs.cc b/src/tools/jobs.cc
index 84fc060..46e667b 100644
--- a/src/tools/jobs.cc
+++ b/src/tools/jobs.cc
@@ -222,7 +222,7 @@ Job::Job(int argc, const char **argv) :
         "\tRun this program completing the selected interval of jobs.\n"
 	"--this-job n\n"
 	"\tSelect to run one job or one job block.\n"
-        "--jobs-blocks n\n"
+        "--job-blocks n\n"
         "\tSplit the number of blocks into 'n' blocks and run the jobs in the\n"
         "\tblock selected by --this-job.\n"
 	"--variable name,min[,max[,nsteps]]\n"
-- 
2.43.0


From 2915709a0891effa3a75e058f4261fd6c6a954b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:17 +0000
Subject: [PATCH 37/71] fix: reading a flag that does not exist returned
 arbitrary memory

---
 src/tools/flags.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tools/flags.cc b/src/tools/flags.cc
index df09757..dc30fbe 100644
--- a/src/tools/flags.cc
+++ b/src/tools/flags.cc
@@ -33,7 +33,11 @@ namespace tensor {
 
   double Flags::get(unsigned int code) const
   {
-    return _values[code];  
+    if (code >= _values.size()) {
+      std::cerr << "Invalid flag code " << code << " into Flags array\n";
+      abort();
+    }
+    return _values[code];
   }
 
   class Flags &Flags::set(unsigned int code, double value)
-- 
2.43.0


From 9f37bd8c75647bac40110d2848e2ef97542050e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:51 +0000
Subject: [PATCH 38/71] fix: rand<long>(upper) returned negative numbers half
 of the time

---
 include/tensor/rand.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tensor/rand.h b/include/tensor/rand.h
index 2d77084..e230b86 100644
--- a/include/tensor/rand.h
+++ b/include/tensor/rand.h
@@ -72,7 +72,7 @@ template<> inline int rand<int>(int lower, int upper) {
 
 template<> inline long rand<long>(long upper) {
   if (upper)
-    return (long)rand<unsigned long>() % upper;
+    return rand<unsigned long>() % upper;
   return 0;
 }
 
-- 
2.43.0


From cd725334870b7d22b7037ffe64b95104445597d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:51 +0000
Subject: [PATCH 39/71] fix: rand<float>() could return 1, which is out of its
 range

---
 src/rand/rand.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rand/rand.cc b/src/rand/rand.cc
index 49616fa..46d1d7d 100644
--- a/src/rand/rand.cc
+++ b/src/rand/rand.cc
@@ -17,7 +17,9 @@
     51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 */
 
+#include <algorithm>
 #include <cstdlib>
+#include <limits>
 #if defined(_MSC_VER) || defined(__MINGW32__)
 #include <windows.h>
 #include <Wincrypt.h>
@@ -113,7 +115,8 @@ template<> unsigned long rand<unsigned long>() { return genrand_int32(); }
 #endif
 
 template<> float rand<float>() {
-  return (float)genrand_res53();
+  // The largest numbers would round to 1, which is out of range
+  return std::min((float)genrand_res53(), 1.0f - std::numeric_limits<float>::epsilon()/2);
 }
 
 template<> double rand<double>() {
-- 
2.43.0


From ee7ea3040e7d61da3a2669ab8f9f6367d13a74d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:05 +0000
Subject: [PATCH 40/71] fix: sparse matrices with inferred dimensions lost
 their last row and column

---
 include/tensor/detail/sparse_base.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tensor/detail/sparse_base.hpp b/include/tensor/detail/sparse_base.hpp
index d3f6389..0baa060 100644
--- a/include/tensor/detail/sparse_base.hpp
+++ b/include/tensor/detail/sparse_base.hpp
@@ -101,8 +101,8 @@ namespace tensor {
     for (i = 0; i < l; i++) {
       index r = rows[i];
       index c = cols[i];
-      nrows = std::max(nrows, r);
-      ncols = std::max(ncols, c);
+      nrows = std::max(nrows, r+1);
+      ncols = std::max(ncols, c+1);
       if (data[i] != number_zero<elt_t>()) {
         sorted_data.push_back(sparse_triplet<elt_t>(r, c, data[i]));
       }
-- 
2.43.0


From 773172f88aab442d768bbc116d5d016541f3565e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:05 +0000
Subject: [PATCH 41/71] fix: sparse matrices accepted negative coordinates,
 becoming corrupt

---
 include/tensor/detail/sparse_base.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tensor/detail/sparse_base.hpp b/include/tensor/detail/sparse_base.hpp
index 0baa060..d5001c9 100644
--- a/include/tensor/detail/sparse_base.hpp
+++ b/include/tensor/detail/sparse_base.hpp
@@ -101,6 +101,7 @@ namespace tensor {
     for (i = 0; i < l; i++) {
       index r = rows[i];
       index c = cols[i];
+      assert(r >= 0 && c >= 0);
       nrows = std::max(nrows, r+1);
       ncols = std::max(ncols, c+1);
       if (data[i] != number_zero<elt_t>()) {
-- 
2.43.0


From ae028a3e7b4c9f1aed70812fa565d12fd6d0817d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:05 +0000
Subject: [PATCH 42/71] fix: repeated coordinates were stored twice in a sparse
 matrix

---
 include/tensor/detail/sparse_base.hpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/include/tensor/detail/sparse_base.hpp b/include/tensor/detail/sparse_base.hpp
index d5001c9..0043a1a 100644
--- a/include/tensor/detail/sparse_base.hpp
+++ b/include/tensor/detail/sparse_base.hpp
@@ -74,6 +74,9 @@ namespace tensor {
         return col < other.col;
       return 0;
     }
+    bool operator==(const sparse_triplet &other) const {
+      return row == other.row && col == other.col;
+    }
   };
 
   template<typename elt_t>
@@ -89,7 +92,7 @@ namespace tensor {
                         index nrows, index ncols) :
     dims_(2), row_start_(), column_(), data_()
   {
-    index i, j, last_row, last_col, l = rows.size();
+    index i, j, last_row, l = rows.size();
     assert(cols.size() == l);
     assert(data.size() == l);
 
@@ -108,7 +111,11 @@ namespace tensor {
         sorted_data.push_back(sparse_triplet<elt_t>(r, c, data[i]));
       }
     }
-    std::sort(sorted_data.begin(), sorted_data.end());
+    std::stable_sort(sorted_data.begin(), sorted_data.end());
+    /* When some coordinates are repeated, the first value is kept.
+     */
+    sorted_data.erase(std::unique(sorted_data.begin(), sorted_data.end()),
+                      sorted_data.end());
     dims_.at(0) = nrows;
     dims_.at(1) = ncols;
     row_start_ = Indices(nrows+1);
@@ -118,15 +125,10 @@ namespace tensor {
     /* Fill in the Sparse structure.
      */
     std::fill(row_start_.begin(), row_start_.end(), 0);
-    for (last_col = 0, last_row = -1, j = i = 0; i < l; i++) {
+    for (last_row = -1, j = i = 0; i < l; i++) {
       const sparse_triplet<elt_t> &d = sorted_data[i];
-      if (d.row == last_row) {
-        if (d.col == last_col)
-          continue;
-      } else {
-        while(last_row < d.row) {
-          row_start_.at(++last_row) = j;
-        }
+      while(last_row < d.row) {
+        row_start_.at(++last_row) = j;
       }
       column_.at(j) = d.col;
       data_.at(j) = d.value;
-- 
2.43.0


From 166538a63f25f331d1de4cf365ccbd0c8b7f6858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:05 +0000
Subject: [PATCH 43/71] fix: sparse kron2_sum used identities of the wrong size

---
 src/sparse/sparse_kron_d.cc | 4 ++--
 src/sparse/sparse_kron_z.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sparse/sparse_kron_d.cc b/src/sparse/sparse_kron_d.cc
index e441eaf..363163c 100644
--- a/src/sparse/sparse_kron_d.cc
+++ b/src/sparse/sparse_kron_d.cc
@@ -35,8 +35,8 @@ namespace tensor {
 
   const Sparse<double> kron2_sum(const Sparse<double> &s2, const Sparse<double> &s1)
   {
-    return kron(s1, Sparse<double>::eye(s2.length())) +
-      kron(Sparse<double>::eye(s1.length()), s2);
+    return kron(s1, Sparse<double>::eye(s2.rows())) +
+      kron(Sparse<double>::eye(s1.rows()), s2);
   }
 
 } // namespace tensor
diff --git a/src/sparse/sparse_kron_z.cc b/src/sparse/sparse_kron_z.cc
index 1523f9e..f25052e 100644
--- a/src/sparse/sparse_kron_z.cc
+++ b/src/sparse/sparse_kron_z.cc
@@ -35,8 +35,8 @@ namespace tensor {
 
   const Sparse<cdouble> kron2_sum(const Sparse<cdouble> &s2, const Sparse<cdouble> &s1)
   {
-    return kron(s1, Sparse<cdouble>::eye(s2.length())) +
-      kron(Sparse<cdouble>::eye(s1.length()), s2);
+    return kron(s1, Sparse<cdouble>::eye(s2.rows())) +
+      kron(Sparse<cdouble>::eye(s1.rows()), s2);
   }
 
 } // namespace tensor
-- 
2.43.0


From d3d8942ae7a7efe305b441f16d6b3b2ffca1e96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:05 +0000
Subject: [PATCH 44/71] fix: mmult of tensor and sparse matrix always aborted

---
 src/sparse/mmult_tensor_sparse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse/mmult_tensor_sparse.h b/src/sparse/mmult_tensor_sparse.h
index eb8e7fc..f786dfc 100644
--- a/src/sparse/mmult_tensor_sparse.h
+++ b/src/sparse/mmult_tensor_sparse.h
@@ -63,7 +63,7 @@ do_mmult(const Tensor<elt_t> &m1, const Sparse<elt_t> &m2)
 	dims.at(k) = m1.dimension(k);
 	i_len *= dims[k];
     }
-    index j_len = m1.dimension(-1);
+    index j_len = m1.dimension(N-1);
     index l_len = dims.at(N-1) = m2.columns();
 
     if (j_len != m2.rows()) {
-- 
2.43.0


From 138902f8080104b8a203825ea9781c1dc2c56521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:12 +0000
Subject: [PATCH 45/71] fix: sparse matrices could be built from tensors that
 are no matrices

---
 include/tensor/detail/sparse_base.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tensor/detail/sparse_base.hpp b/include/tensor/detail/sparse_base.hpp
index 0043a1a..9e0a13d 100644
--- a/include/tensor/detail/sparse_base.hpp
+++ b/include/tensor/detail/sparse_base.hpp
@@ -179,6 +179,7 @@ namespace tensor {
     dims_(t.dimensions()), row_start_(t.rows()+1),
     column_(), data_()
   {
+    assert(t.rank() == 2);
     index nonzero = number_of_nonzero<elt_t>(t);
     column_ = Indices(nonzero);
     data_ = Tensor<elt_t>(nonzero);
-- 
2.43.0


From 27744c604dae2d1404d66f78bca8fa4209238558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 46/71] fix: the Fourier transform of an empty tensor crashed

---
 src/fftw/fftw_common.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fftw/fftw_common.cc b/src/fftw/fftw_common.cc
index d614b22..c87ef54 100644
--- a/src/fftw/fftw_common.cc
+++ b/src/fftw/fftw_common.cc
@@ -25,6 +25,8 @@ namespace tensor {
 // basic FFTW along all degrees of freedom
 void
 do_fftw(fftw_complex* pin, fftw_complex* pout, const Indices& dims, int direction) {
+  if (dims.total_size() == 0)
+    return; // FFTW makes no plan for an empty tensor
   fftw_plan plan;
   int d = dims.size();
 
@@ -44,6 +46,8 @@ do_fftw(fftw_complex* pin, fftw_complex* pout, const Indices& dims, int directio
 
 void
 do_fftw(fftw_complex* pin, fftw_complex* pout, index dim, const Indices& dims, int direction) {
+  if (dims.total_size() == 0)
+    return; // FFTW makes no plan for an empty tensor
   // Collect the dimensions for the transform
   fftw_iodim fft_dim;
   fftw_iodim loop_dims[dims.size()-1];
@@ -77,6 +81,8 @@ do_fftw(fftw_complex* pin, fftw_complex* pout, index dim, const Indices& dims, i
 
 void
 do_fftw(fftw_complex* pin, fftw_complex* pout, const Booleans& convert, const Indices& dims, int direction) {
+  if (dims.total_size() == 0)
+    return; // FFTW makes no plan for an empty tensor
   // Collect the dimensions for the transform
   fftw_iodim fft_dims[dims.size()];
   fftw_iodim loop_dims[dims.size()];
-- 
2.43.0


From cc204770d8b9015fe6a838bf030724858694d4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 47/71] fix: solve() accepted a tensor that is no matrix and
 used its first slice

---
 src/linalg/solve_d.cc | 2 +-
 src/linalg/solve_z.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linalg/solve_d.cc b/src/linalg/solve_d.cc
index a164dae..4446c30 100644
--- a/src/linalg/solve_d.cc
+++ b/src/linalg/solve_d.cc
@@ -43,7 +43,7 @@ namespace linalg {
     blas::integer nrhs;
 
     // Currently, we only solve square systems
-    if ((size_t)n != A.columns()) {
+    if (A.rank() != 2 || (size_t)n != A.columns()) {
       std::cerr << "Routine solve() can only operate on square systems of equations, i.e\n"
                 << "when the number of unknowns is equal to the number of equations.\n"
                 << "However, you have passed a matrix of size " << A.columns() << " by " << A.rows();
diff --git a/src/linalg/solve_z.cc b/src/linalg/solve_z.cc
index 0688578..3bdc4e3 100644
--- a/src/linalg/solve_z.cc
+++ b/src/linalg/solve_z.cc
@@ -37,7 +37,7 @@ namespace linalg {
     blas::integer nrhs;
 
     // Currently, we only solve square systems
-    if (n != (blas::integer)A.columns()) {
+    if (A.rank() != 2 || n != (blas::integer)A.columns()) {
       std::cerr << "Routine solve() can only operate on square systems of equations, i.e\n"
 		<< "when the number of unknowns is equal to the number of equations.\n"
 		<< "However, you have passed a matrix of size " << A.columns() << " by " << A.rows();
-- 
2.43.0


From 32fd481827bd6902f59e3315a930811038482029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 48/71] fix: complex conjugate gradient of sparse matrices was
 declared with a real matrix

---
 include/tensor/linalg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tensor/linalg.h b/include/tensor/linalg.h
index a2194f6..54fb757 100644
--- a/include/tensor/linalg.h
+++ b/include/tensor/linalg.h
@@ -56,7 +56,7 @@ namespace linalg {
   const RTensor cgs(const RSparse &A, const RTensor &b, const RTensor *x_start = 0,
                     int maxiter = 0, double tol = 0);
   /**Solve a real linear system of equations by the conjugate gradient method.*/
-  const CTensor cgs(const RSparse &A, const CTensor &b, const CTensor *x_start = 0,
+  const CTensor cgs(const CSparse &A, const CTensor &b, const CTensor *x_start = 0,
                     int maxiter = 0, double tol = 0);
 
   /**Solve a real linear system of equations by the conjugate gradient
-- 
2.43.0


From 08a1a3dc0c9fc10f68ff6bf3ee887f6f606f56cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 49/71] fix: eigs() of small matrices returned the left
 eigenvectors

---
 src/arpack/eigs_d.cc     | 2 +-
 src/arpack/eigs_map_d.cc | 2 +-
 src/arpack/eigs_map_z.cc | 2 +-
 src/arpack/eigs_z.cc     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arpack/eigs_d.cc b/src/arpack/eigs_d.cc
index a9abd54..0d76025 100644
--- a/src/arpack/eigs_d.cc
+++ b/src/arpack/eigs_d.cc
@@ -49,7 +49,7 @@ namespace linalg {
        * using the full routine.
        */
       CTensor vectors;
-      CTensor values = eig(A, NULL, eigenvectors? &vectors : 0);
+      CTensor values = eig(A, eigenvectors? &vectors : 0);
       Indices ndx = RArpack::sort_values(values, t);
       Indices ndx_out(neig);
       std::copy(ndx.begin(), ndx.begin() + neig, ndx_out.begin());
diff --git a/src/arpack/eigs_map_d.cc b/src/arpack/eigs_map_d.cc
index 2019e6b..5ff4b8e 100644
--- a/src/arpack/eigs_map_d.cc
+++ b/src/arpack/eigs_map_d.cc
@@ -49,7 +49,7 @@ namespace linalg {
         M.at(range(),range(i)) = (*A)(v);
       }
       CTensor vectors;
-      CTensor values = eig(M, NULL, eigenvectors? &vectors : 0);
+      CTensor values = eig(M, eigenvectors? &vectors : 0);
       Indices ndx = RArpack::sort_values(values, t);
       Indices ndx_out(neig);
       std::copy(ndx.begin(), ndx.begin() + neig, ndx_out.begin());
diff --git a/src/arpack/eigs_map_z.cc b/src/arpack/eigs_map_z.cc
index aa7a178..d4e8cca 100644
--- a/src/arpack/eigs_map_z.cc
+++ b/src/arpack/eigs_map_z.cc
@@ -48,7 +48,7 @@ namespace linalg {
         M.at(range(),range(i)) = (*A)(v);
       }
       CTensor vectors;
-      CTensor values = eig(M, NULL, eigenvectors? &vectors : 0);
+      CTensor values = eig(M, eigenvectors? &vectors : 0);
       Indices ndx = CArpack::sort_values(values, t);
       Indices ndx_out(neig);
       std::copy(ndx.begin(), ndx.begin() + neig, ndx_out.begin());
diff --git a/src/arpack/eigs_z.cc b/src/arpack/eigs_z.cc
index b53d49c..0d278e8 100644
--- a/src/arpack/eigs_z.cc
+++ b/src/arpack/eigs_z.cc
@@ -53,7 +53,7 @@ namespace linalg {
        * using the full routine.
        */
       CTensor vectors;
-      CTensor values = eig(A, NULL, eigenvectors? &vectors : 0);
+      CTensor values = eig(A, eigenvectors? &vectors : 0);
       Indices ndx = CArpack::sort_values(values, t);
       Indices ndx_out(neig);
       std::copy(ndx.begin(), ndx.begin() + neig, ndx_out.begin());
-- 
2.43.0


From e9996a406dbd37e9e40b2f4f28c4a7e3731f9f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 50/71] fix: block_svd left singular vectors zero or aborted
 with empty rows, columns or rectangular blocks

---
 src/linalg/block_svd.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/linalg/block_svd.hpp b/src/linalg/block_svd.hpp
index 1183b45..4f578ed 100644
--- a/src/linalg/block_svd.hpp
+++ b/src/linalg/block_svd.hpp
@@ -42,9 +42,16 @@ namespace linalg {
       return svd(A, pU, pVT, economic);
     }
 
-    if ((nblocks == 1) &&
+    // Empty rows or columns and rectangular blocks may leave singular values
+    // without singular vectors. These cases are left to the dense routine.
+    index nvalues = 0;
+    for (index b = 0; b < nblocks; b++) {
+      nvalues += std::min<index>(block_rows[b].size(), block_cols[b].size());
+    }
+    if ((nvalues < minrc) ||
+        ((nblocks == 1) &&
 	(block_rows[0].size() >= rows/2) &&
-	(block_cols[0].size() >= cols/2)) {
+	(block_cols[0].size() >= cols/2))) {
       RTensor s = svd(A, pU, pVT, economic);
       delete[] block_rows;
       delete[] block_cols;
-- 
2.43.0


From dd3afbda368821297ebfef8f2aaba7280637607e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 51/71] fix: the power method returned the conjugate of a
 complex eigenvalue

---
 src/linalg/eig_power.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg/eig_power.hpp b/src/linalg/eig_power.hpp
index 224d965..0c8247f 100644
--- a/src/linalg/eig_power.hpp
+++ b/src/linalg/eig_power.hpp
@@ -52,7 +52,7 @@ namespace linalg {
     //
     for (size_t i = 0; i <= iter; i++) {
       Tensor<elt_t> v_new = (*A)(v);
-      eig = scprod(v, v_new);
+      eig = scprod(v_new, v);
       double err = norm0(v_new - eig * v);
       v = (v_new /= norm2(v_new));
       // Stop if the vector is sufficiently close to an eigenstate
-- 
2.43.0


From dbbcb893499702e5946c2d15fc49fc093a909e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 52/71] fix: eigs() of sparse matrices accepted matrices that
 are not square

---
 src/arpack/eigs_sp_d.cc | 4 ++++
 src/arpack/eigs_sp_z.cc | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/arpack/eigs_sp_d.cc b/src/arpack/eigs_sp_d.cc
index ce3f849..19b43c3 100644
--- a/src/arpack/eigs_sp_d.cc
+++ b/src/arpack/eigs_sp_d.cc
@@ -29,6 +29,10 @@ namespace linalg {
   eigs(const RSparse &A, int eig_type, size_t neig, RTensor *eigenvectors,
        bool *converged)
   {
+    if (A.rows() != A.columns()) {
+      std::cerr << "In eigs(): Can only compute eigenvalues of square matrices.";
+      abort();
+    }
     return do_eigs(new tensor::MatrixMap<RSparse>(A), A.columns(), eig_type, neig,
                    eigenvectors, converged);
   }
diff --git a/src/arpack/eigs_sp_z.cc b/src/arpack/eigs_sp_z.cc
index c8b39e2..aab1a65 100644
--- a/src/arpack/eigs_sp_z.cc
+++ b/src/arpack/eigs_sp_z.cc
@@ -29,6 +29,10 @@ namespace linalg {
   eigs(const CSparse &A, int eig_type, size_t neig, CTensor *eigenvectors,
        bool *converged)
   {
+    if (A.rows() != A.columns()) {
+      std::cerr << "In eigs(): Can only compute eigenvalues of square matrices.";
+      abort();
+    }
     return do_eigs(new tensor::MatrixMap<CSparse>(A), A.columns(), eig_type, neig,
                    eigenvectors, converged);
   }
-- 
2.43.0


From 896d1c91dd4eb044bc31e42b43cda7e1fcbc645a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:00 +0000
Subject: [PATCH 53/71] fix: sorting of Indices compared them as floating point
 numbers

---
 src/tensor/tensor_sort_i.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tensor/tensor_sort_i.cc b/src/tensor/tensor_sort_i.cc
index 85a512c..883bfb1 100644
--- a/src/tensor/tensor_sort_i.cc
+++ b/src/tensor/tensor_sort_i.cc
@@ -28,9 +28,9 @@ namespace tensor {
   {
     Indices output(v);
     if (reverse) {
-      std::sort(output.begin(), output.end(), std::greater<double>());
+      std::sort(output.begin(), output.end(), std::greater<index>());
     } else {
-      std::sort(output.begin(), output.end(), std::less<double>());
+      std::sort(output.begin(), output.end(), std::less<index>());
     }
     return output;
   }
-- 
2.43.0


From b6c938f59671a7e1737066a9b391e344132cda15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 54/71] fix: eigs() and Arpack accepted selectors of
 eigenvalues that do not exist

---
 src/arpack/arpack_t.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/arpack/arpack_t.cc b/src/arpack/arpack_t.cc
index 83f6507..dcb0fba 100644
--- a/src/arpack/arpack_t.cc
+++ b/src/arpack/arpack_t.cc
@@ -39,7 +39,7 @@ ARPACK::ARPACK(size_t _n, enum EigType _t, size_t _nev)
     abort();
   }
 #endif
-  if (_t < 0 || _t > 6) {
+  if (_t < 0 || _t > 5) {
     std::cerr << "Invalid argument EigType passed to Arpack constructor"
               << std::endl;
     abort();
@@ -328,6 +328,10 @@ ARPACK::sort_values(const CTensor &values, EigType t)
   case SmallestReal:
     aux = tensor::real(values);
     break;
+  default:
+    std::cerr << "Invalid argument EigType passed to Arpack"
+              << std::endl;
+    abort();
   }
   return sort_indices(aux);
 }
-- 
2.43.0


From 125cf9625f319b4a8cd30f4df26f51203f5b3579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:34 +0000
Subject: [PATCH 55/71] fix: fold_into, foldin_into and mmult_into lost an
 operand that is also the output

---
 src/tensor/tensor_fold.cc   | 3 ++-
 src/tensor/tensor_foldin.cc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tensor/tensor_fold.cc b/src/tensor/tensor_fold.cc
index c6e8ed6..39eac47 100644
--- a/src/tensor/tensor_fold.cc
+++ b/src/tensor/tensor_fold.cc
@@ -31,7 +31,8 @@ namespace tensor {
   template<typename elt_t, bool do_conj>
   void
   do_fold(Tensor<elt_t> &output,
-          const Tensor<elt_t> &a, int _ndx1, const Tensor<elt_t> &b, int _ndx2)
+          // By value: the output may be one of these tensors.
+          const Tensor<elt_t> a, int _ndx1, const Tensor<elt_t> b, int _ndx2)
   {
     index i_len,j_len,k_len,l_len,m_len;
     index rank, i;
diff --git a/src/tensor/tensor_foldin.cc b/src/tensor/tensor_foldin.cc
index f448c65..d161a94 100644
--- a/src/tensor/tensor_foldin.cc
+++ b/src/tensor/tensor_foldin.cc
@@ -31,7 +31,8 @@ namespace tensor {
   template<typename elt_t>
   void
   do_foldin_into(Tensor<elt_t> &output,
-                 const Tensor<elt_t> &a, int _ndx1, const Tensor<elt_t> &b, int _ndx2)
+                 // By value: the output may be one of these tensors.
+                 const Tensor<elt_t> a, int _ndx1, const Tensor<elt_t> b, int _ndx2)
   {
     index i_len,j_len,k_len,l_len,m_len;
     index rank, i;
-- 
2.43.0


From be13c96529c82c6ac4a5ea4838d2accae90f5647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:34 +0000
Subject: [PATCH 56/71] fix: matrix_form() of empty matrices and vectors lacked
 the opening bracket

---
 src/views/matrix_form.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/views/matrix_form.cc b/src/views/matrix_form.cc
index 6e2bd0c..12bc1d1 100644
--- a/src/views/matrix_form.cc
+++ b/src/views/matrix_form.cc
@@ -31,10 +31,9 @@ namespace tensor {
     } else if (data.rank() == 2) {
       index rows = data.rows();
       index cols = data.columns();
+      s << "[";
       for (index i = 0; i < rows; i++) {
-	if (i == 0)
-	  s << "[";
-	else
+	if (i)
 	  s << "\n ";
 	for (index j = 0; j < cols; j++) {
 	  if (j) s << ", ";
@@ -43,11 +42,10 @@ namespace tensor {
       }
       s << "]";
     } else if (data.rank() == 1) {
+      s << "[";
       for (index i = 0; i < data.size(); i++) {
 	if (i)
 	  s << ", ";
-	else
-	  s << "[";
 	s << data[i];
       }
       s << "]";
-- 
2.43.0


From 4ee008b1a9fa001d723a54fb001ec96a10216af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:05 +0000
Subject: [PATCH 57/71] fix: the size of a tensor was silently wrong when a
 dimension was negative or the product overflowed

---
 src/indices/indices.cc | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/indices/indices.cc b/src/indices/indices.cc
index 051ef69..0103bf8 100644
--- a/src/indices/indices.cc
+++ b/src/indices/indices.cc
@@ -17,6 +17,8 @@
     51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 */
 
+#include <cstdlib>
+#include <limits>
 #include <numeric>
 #include <functional>
 #include <tensor/io.h>
@@ -38,15 +40,32 @@ namespace tensor {
   index Indices::total_size() const {
     if (size()) {
       index aux = 1;
+      bool fits = true;
       for (const_iterator it = begin_const(); it != end_const(); ++it) {
         if (*it < 0) {
           std::cerr << "Negative dimension in tensor's dimension #"
                     << (it - begin_const()) << std::endl
                     << "All dimensions:" << std::endl
                     << *this << std::endl;
-          return false;
+          abort();
         }
-        aux *= *it;
+        // A tensor with an empty dimension has no elements, however
+        // large the other ones are.
+        if (*it == 0) {
+          aux = 0;
+          fits = true;
+        } else if (aux > std::numeric_limits<index>::max() / *it) {
+          fits = false;
+        } else {
+          aux *= *it;
+        }
+      }
+      if (!fits) {
+        std::cerr << "Tensor with more elements than an index can count"
+                  << std::endl
+                  << "All dimensions:" << std::endl
+                  << *this << std::endl;
+        abort();
       }
       return aux;
     } else {
-- 
2.43.0


From aeddb6acc965a638361428323431de659413570b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:05 +0000
Subject: [PATCH 58/71] fix: tensors created with negative or overflowing
 dimensions were not refused

---
 include/tensor/detail/tensor_base.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/tensor/detail/tensor_base.hpp b/include/tensor/detail/tensor_base.hpp
index ee9836d..f94cdfc 100644
--- a/include/tensor/detail/tensor_base.hpp
+++ b/include/tensor/detail/tensor_base.hpp
@@ -61,14 +61,14 @@ Tensor<elt_t>::~Tensor()
 
 template<typename elt_t>
 Tensor<elt_t>::Tensor(index length) :
-  data_(length), dims_(1)
+  data_(Indices(igen << length).total_size()), dims_(1)
 {
   dims_.at(0) = length;
 }
 
 template<typename elt_t>
 Tensor<elt_t>::Tensor(index rows, index cols) :
-  data_(rows * cols), dims_(2)
+  data_(Indices(igen << rows << cols).total_size()), dims_(2)
 {
   dims_.at(0) = rows;
   dims_.at(1) = cols;
@@ -76,7 +76,7 @@ Tensor<elt_t>::Tensor(index rows, index cols) :
 
 template<typename elt_t>
 Tensor<elt_t>::Tensor(index d1, index d2, index d3) :
-  data_(d1 * d2 * d3), dims_(3)
+  data_(Indices(igen << d1 << d2 << d3).total_size()), dims_(3)
 {
   dims_.at(0) = d1;
   dims_.at(1) = d2;
@@ -85,7 +85,7 @@ Tensor<elt_t>::Tensor(index d1, index d2, index d3) :
 
 template<typename elt_t>
 Tensor<elt_t>::Tensor(index d1, index d2, index d3, index d4) :
-  data_(d1 * d2 * d3 * d4), dims_(4)
+  data_(Indices(igen << d1 << d2 << d3 << d4).total_size()), dims_(4)
 {
   dims_.at(0) = d1;
   dims_.at(1) = d2;
@@ -95,7 +95,7 @@ Tensor<elt_t>::Tensor(index d1, index d2, index d3, index d4) :
 
 template<typename elt_t>
 Tensor<elt_t>::Tensor(index d1, index d2, index d3, index d4, index d5) :
-  data_(d1 * d2 * d3 * d4 * d5), dims_(5)
+  data_(Indices(igen << d1 << d2 << d3 << d4 << d5).total_size()), dims_(5)
 {
   dims_.at(0) = d1;
   dims_.at(1) = d2;
@@ -107,7 +107,7 @@ Tensor<elt_t>::Tensor(index d1, index d2, index d3, index d4, index d5) :
 template<typename elt_t>
 Tensor<elt_t>::Tensor(index d1, index d2, index d3, index d4, index d5,
                       index d6) :
-  data_(d1 * d2 * d3 * d4 * d5 * d6), dims_(6)
+  data_(Indices(igen << d1 << d2 << d3 << d4 << d5 << d6).total_size()), dims_(6)
 {
   dims_.at(0) = d1;
   dims_.at(1) = d2;
-- 
2.43.0


From 638fc546f95d57195958fe51669f482a90619aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:05 +0000
Subject: [PATCH 59/71] fix: ranges with a very large step overflowed and
 selected elements out of the tensor

---
 src/views/range.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/views/range.cc b/src/views/range.cc
index 357ad53..ea7e132 100644
--- a/src/views/range.cc
+++ b/src/views/range.cc
@@ -17,6 +17,7 @@
     51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 */
 
+#include <algorithm>
 #include <cassert>
 #include <iostream>
 #include <tensor/indices.h>
@@ -163,6 +164,17 @@ namespace tensor {
     Range(), start_(start), end_(end), step_(step), ndx_(0)
   {
     assert(step != 0);
+    if (step > 0 ? start > end : start < end) {
+      // All empty ranges are the same one, so that we can safely multiply
+      // its limits by the factor of a dimension.
+      start_ = 0;
+      end_ = -1;
+      step_ = 1;
+    } else if (start >= 0 && end >= 0) {
+      // Likewise, a step that leaves the range need not be larger than it.
+      step_ = (step > 0) ? std::min(step, end - start + 1)
+                         : std::max(step, end - start - 1);
+    }
   }
 
   index
-- 
2.43.0


From 7e6cb33f1ed243db82e924fe5c30175ed73d3857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:08 +0000
Subject: [PATCH 60/71] fix: eigs() of sparse matrices and functions leaked the
 matrix or the function object

---
 src/arpack/eigs_map_d.cc | 2 ++
 src/arpack/eigs_map_z.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/arpack/eigs_map_d.cc b/src/arpack/eigs_map_d.cc
index 5ff4b8e..ea74f6f 100644
--- a/src/arpack/eigs_map_d.cc
+++ b/src/arpack/eigs_map_d.cc
@@ -29,6 +29,8 @@ namespace linalg {
   do_eigs(const Map<RTensor>  *A, size_t n, int eig_type, size_t neig,
           RTensor *eigenvectors, bool *converged)
   {
+    // Like do_cgs() and do_eig_power(), we own the map
+    tensor::shared_ptr<const Map<RTensor> > owner(A);
     EigType t = (EigType)eig_type;
 
     if (neig > n || neig == 0) {
diff --git a/src/arpack/eigs_map_z.cc b/src/arpack/eigs_map_z.cc
index d4e8cca..04c424a 100644
--- a/src/arpack/eigs_map_z.cc
+++ b/src/arpack/eigs_map_z.cc
@@ -28,6 +28,8 @@ namespace linalg {
   do_eigs(const Map<CTensor>  *A, size_t n, int eig_type, size_t neig,
           CTensor *eigenvectors, bool *converged)
   {
+    // Like do_cgs() and do_eig_power(), we own the map
+    tensor::shared_ptr<const Map<CTensor> > owner(A);
     EigType t = (EigType)eig_type;
 
     if (neig > n || neig == 0) {
-- 
2.43.0


From de795086878ed8e2b1d2a499959b44408d9e47d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:08 +0000
Subject: [PATCH 61/71] fix: error_message() of an Arpack object without errors
 read an uninitialised pointer

---
 src/arpack/arpack_t.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/arpack/arpack_t.cc b/src/arpack/arpack_t.cc
index dcb0fba..369cb45 100644
--- a/src/arpack/arpack_t.cc
+++ b/src/arpack/arpack_t.cc
@@ -111,6 +111,8 @@ ARPACK::ARPACK(size_t _n, enum EigType _t, size_t _nev)
   for (size_t i = 0; i < 15; i++)
     ipntr[i] = 0;
 
+  error = "";
+
   // We have initialized this structure
   status = Initialized;
 }
-- 
2.43.0


From 4a89efa7a5458577a6702d6ad2cdc1c89a2ac984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:08 +0000
Subject: [PATCH 62/71] fix: Arpack read beyond the end of vectors that are
 shorter than the problem

---
 src/arpack/arpack_t.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/arpack/arpack_t.cc b/src/arpack/arpack_t.cc
index 369cb45..3744690 100644
--- a/src/arpack/arpack_t.cc
+++ b/src/arpack/arpack_t.cc
@@ -304,6 +304,11 @@ Tensor<ELT_T> ARPACK::get_y()
 
 void ARPACK::set_y(const Tensor<ELT_T> &y)
 {
+  if (y.size() != n) {
+    std::cerr << "ARPACK:: set_y() expects a vector of size " << n << " but got one of size "
+              << y.size() << std::endl;
+    abort();
+  }
   memcpy(get_y_vector(), y.begin(), sizeof(Tensor<ELT_T>::elt_t)*n);
 }
 
-- 
2.43.0


From fe3abfe28c3d4cd2b26d751949a231d85af7fb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:08 +0000
Subject: [PATCH 63/71] fix: get_data() of an Arpack object that had not
 finished returned uninitialised memory

---
 src/arpack/arpack_t.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/arpack/arpack_t.cc b/src/arpack/arpack_t.cc
index 3744690..58219c5 100644
--- a/src/arpack/arpack_t.cc
+++ b/src/arpack/arpack_t.cc
@@ -186,6 +186,11 @@ Tensor<ELT_T> ARPACK::get_data(Tensor<ELT_T> *vectors) {
 }
 
 Tensor<ELT_T> ARPACK::get_data(Tensor<ELT_T>::elt_t *z) {
+  if (status < Finished) {
+    std::cerr << "ARPACK:: get_data() invoked before the algorithm is finished\n";
+    abort();
+  }
+
   // Do we want eigenvectors?
   bool rvec;
   int ldz;
-- 
2.43.0


From 0af75d79a0a0d0322efaeeae9a51da1d239fb70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:18 +0000
Subject: [PATCH 64/71] fix: scprod() of tensors with different numbers of
 elements read out of bounds

---
 src/tensor/tensor_norm2_d.cc | 2 ++
 src/tensor/tensor_norm2_z.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/tensor/tensor_norm2_d.cc b/src/tensor/tensor_norm2_d.cc
index d83433d..c1fbe07 100644
--- a/src/tensor/tensor_norm2_d.cc
+++ b/src/tensor/tensor_norm2_d.cc
@@ -17,6 +17,7 @@
 */
 
 #define TENSOR_LOAD_IMPL
+#include <cassert>
 #include <tensor/tensor.h>
 
 namespace tensor {
@@ -28,6 +29,7 @@ namespace tensor {
 
   double scprod(const RTensor &a, const RTensor &b)
   {
+    assert(a.size() == b.size());
     double output = 0;
     for (RTensor::const_iterator ia = a.begin(), ib = b.begin();
 	 ia != a.end(); ia++, ib++)
diff --git a/src/tensor/tensor_norm2_z.cc b/src/tensor/tensor_norm2_z.cc
index 18522dd..5df9632 100644
--- a/src/tensor/tensor_norm2_z.cc
+++ b/src/tensor/tensor_norm2_z.cc
@@ -17,6 +17,7 @@
 */
 
 #define TENSOR_LOAD_IMPL
+#include <cassert>
 #include <tensor/tensor.h>
 
 namespace tensor {
@@ -28,6 +29,7 @@ namespace tensor {
 
   cdouble scprod(const CTensor &a, const CTensor &b)
   {
+    assert(a.size() == b.size());
     cdouble output = 0;
     for (CTensor::const_iterator ia = a.begin(), ib = b.begin();
 	 ia != a.end(); ia++, ib++)
-- 
2.43.0


From 067c1da446451aef84400492d8b87ac2b00d3812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:19 +0000
Subject: [PATCH 65/71] fix: take_diag() with twice the same index took the
 diagonal of other indices

---
 src/tensor/tensor_take_diag.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tensor/tensor_take_diag.cc b/src/tensor/tensor_take_diag.cc
index 9feda7a..c5ce8e4 100644
--- a/src/tensor/tensor_take_diag.cc
+++ b/src/tensor/tensor_take_diag.cc
@@ -57,6 +57,10 @@ const tensor::Tensor<elt_t> do_take_diag(const tensor::Tensor<elt_t> &a, int whi
   if (ndx2 < 0)
     ndx2 += a.rank();
   assert((ndx2 < a.rank()) && (ndx2 >= 0));
+  if (ndx1 == ndx2) {
+    std::cerr << "In take_diag(M, which, i, j), indices 'i' and 'j' are the same." << std::endl;
+    abort();
+  }
 
   tensor::Indices new_dims(std::max((int)a.rank()-1,(int)1));
   size_t rank = 0;
-- 
2.43.0


From 942150a983649c73bfb25addd67f4f6e52bd8cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:25 +0000
Subject: [PATCH 66/71] fix: transpose and adjoint of sparse matrices with
 preallocated elements aborted

---
 include/tensor/detail/sparse_base.hpp | 2 ++
 src/sparse/sparse_rows.cc             | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/include/tensor/detail/sparse_base.hpp b/include/tensor/detail/sparse_base.hpp
index 9e0a13d..def4efe 100644
--- a/include/tensor/detail/sparse_base.hpp
+++ b/include/tensor/detail/sparse_base.hpp
@@ -59,6 +59,8 @@ namespace tensor {
     dims_.at(0) = rows;
     dims_.at(1) = cols;
     std::fill(row_start_.begin(), row_start_.end(), 0);
+    std::fill(column_.begin(), column_.end(), 0);
+    std::fill(data_.begin(), data_.end(), number_zero<elt_t>());
   }
 
   template<typename elt_t>
diff --git a/src/sparse/sparse_rows.cc b/src/sparse/sparse_rows.cc
index 9ddeb85..e59d88a 100644
--- a/src/sparse/sparse_rows.cc
+++ b/src/sparse/sparse_rows.cc
@@ -17,6 +17,7 @@
     51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 */
 
+#include <algorithm>
 #include <tensor/sparse.h>
 
 namespace tensor {
@@ -25,6 +26,8 @@ namespace tensor {
   sparse_rows(const Indices &row_start, const Indices &column)
   {
     Indices output(column.size());
+    /* Preallocated elements that are not used yet belong to no row */
+    std::fill(output.begin(), output.end(), 0);
     for (index n = 0, i = 0, rows = row_start.size()-1; i < rows; i++) {
       for (index j = row_start[i], j_end = row_start[i+1]; j < j_end; j++) {
 	output.at(n++) = i;
-- 
2.43.0


From ad9ab4f19339166bc09a7ff715858dc298451435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:25 +0000
Subject: [PATCH 67/71] fix: sparse matrices could be built from inconsistent
 row starts and columns, and read out of bounds

---
 include/tensor/detail/sparse_base.hpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/include/tensor/detail/sparse_base.hpp b/include/tensor/detail/sparse_base.hpp
index def4efe..91be7d2 100644
--- a/include/tensor/detail/sparse_base.hpp
+++ b/include/tensor/detail/sparse_base.hpp
@@ -81,12 +81,35 @@ namespace tensor {
     }
   };
 
+  /* The rows must lie one after another within the stored elements, and the
+     columns within the matrix. */
+  static inline bool
+  valid_sparse_structure(const Indices &dims, const Indices &row_start,
+                         const Indices &column, index length)
+  {
+    if (dims.size() != 2 || dims[0] < 0 || dims[1] < 0 ||
+        row_start.size() != dims[0]+1 || row_start[0] != 0 ||
+        column.size() != length)
+      return false;
+    for (index i = 0; i < dims[0]; i++) {
+      if (row_start[i+1] < row_start[i])
+        return false;
+    }
+    if (row_start[dims[0]] > length)
+      return false;
+    for (index j = 0; j < row_start[dims[0]]; j++) {
+      if (column[j] < 0 || column[j] >= dims[1])
+        return false;
+    }
+    return true;
+  }
+
   template<typename elt_t>
   Sparse<elt_t>::Sparse(const Indices &dims, const Indices &row_start,
                         const Indices &column, const Tensor<elt_t> &data) :
     dims_(dims), row_start_(row_start), column_(column), data_(data)
   {
-	  assert(row_start.size() == dims[0]+1);
+    assert(valid_sparse_structure(dims, row_start, column, data.size()));
   }
 
   template<typename elt_t>
-- 
2.43.0


From 50f30039797f689ddd9fbeefd88110b7b95ecd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:01 +0000
Subject: [PATCH 68/71] fix: sparse matrices with a negative number of rows or
 columns were not refused

---
 include/tensor/detail/sparse_base.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tensor/detail/sparse_base.hpp b/include/tensor/detail/sparse_base.hpp
index 91be7d2..f82ffe7 100644
--- a/include/tensor/detail/sparse_base.hpp
+++ b/include/tensor/detail/sparse_base.hpp
@@ -36,6 +36,7 @@ namespace tensor {
   static inline index
   safe_size(index nonzero, index rows, index cols)
   {
+    assert(rows >= 0 && cols >= 0);
     /* The product rows*cols might overflow the word size of this machine */
     if (rows == 0 || cols == 0) {
       return 0;
-- 
2.43.0


From fc29535d836375aaceb83fd43a2a2b742def862e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:46 +0000
Subject: [PATCH 69/71] fix: solve_with_svd() aborted when no singular value
 exceeds the tolerance

---
 src/linalg/solve_with_svd_d.cc | 7 +++++++
 src/linalg/solve_with_svd_z.cc | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/linalg/solve_with_svd_d.cc b/src/linalg/solve_with_svd_d.cc
index d71afe6..bc64930 100644
--- a/src/linalg/solve_with_svd_d.cc
+++ b/src/linalg/solve_with_svd_d.cc
@@ -43,6 +43,13 @@ namespace linalg {
     }
     for (tensor::index i = 0; i < s.size(); i++) {
       if (s[i] <= tol) {
+        if (i == 0) {
+          // No singular value is left, the pseudoinverse is zero
+          assert(B.rank() > 0 && B.dimension(0) == A.rows());
+          Indices d(B.dimensions());
+          d.at(0) = A.columns();
+          return RTensor::zeros(d);
+        }
 	U = U(range(), range(0,i-1));
 	s = s(range(0,i-1));
 	VT = VT(range(0,i-1), range());
diff --git a/src/linalg/solve_with_svd_z.cc b/src/linalg/solve_with_svd_z.cc
index 79b6a68..830cd8c 100644
--- a/src/linalg/solve_with_svd_z.cc
+++ b/src/linalg/solve_with_svd_z.cc
@@ -43,6 +43,13 @@ namespace linalg {
     }
     for (tensor::index i = 0; i < s.size(); i++) {
       if (s[i] <= tol) {
+        if (i == 0) {
+          // No singular value is left, the pseudoinverse is zero
+          assert(B.rank() > 0 && B.dimension(0) == A.rows());
+          Indices d(B.dimensions());
+          d.at(0) = A.columns();
+          return CTensor::zeros(d);
+        }
 	U = U(range(), range(0,i-1));
 	s = s(range(0,i-1));
 	VT = VT(range(0,i-1), range());
-- 
2.43.0


From e7d10aa8df27e6112f718e9b6a189f0af5b69bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:48 +0000
Subject: [PATCH 70/71] fix: isdir() took sockets and block devices for
 directories

S_IFDIR is not one bit of its own: other file types share it.
---
 src/sdf/isdir.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sdf/isdir.cc b/src/sdf/isdir.cc
index b1b3b5e..9a1df82 100644
--- a/src/sdf/isdir.cc
+++ b/src/sdf/isdir.cc
@@ -28,7 +28,7 @@ namespace sdf {
     struct stat s[1];
     if (stat(filename.c_str(), s))
       return false;
-    return s->st_mode & S_IFDIR;
+    return (s->st_mode & S_IFMT) == S_IFDIR;
   }
 
 }
-- 
2.43.0


From 694a66f696501ec8a6fbb102c3f9d91cb83cac2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:44 +0000
Subject: [PATCH 71/71] fix: the data set records of jobs beyond 2^31 - 1 had
 the names of other jobs

---
 src/tools/jobs_dataset.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/jobs_dataset.cc b/src/tools/jobs_dataset.cc
index 1d2029e..4af1477 100644
--- a/src/tools/jobs_dataset.cc
+++ b/src/tools/jobs_dataset.cc
@@ -42,7 +42,7 @@ namespace jobs {
   }
 
   static std::string
-  dataset_name(const std::string &base, int jobid)
+  dataset_name(const std::string &base, tensor::index jobid)
   {
     return base + "/" + NumberToString(jobid);
   }
-- 
2.43.0

