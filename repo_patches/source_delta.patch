From d13259cc153641b3a221831ce4a4aba3349f9db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:49 +0000
Subject: [PATCH 01/19] fix: multiply a hyper-dual number by itself in place

---
 include/hyperjet/hyperjet.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 250d204..05c3b40 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -1139,6 +1139,11 @@ namespace hyperjet
         {
             check_equal_size(size(), b.size());
 
+            if (&b == this)
+            {
+                return operator*=(Type(b));
+            }
+
             const Data a_m_data = m_data;
 
             const Scalar da = b.f();
-- 
2.43.0


From f61371fbba0703c17d0d8c14e297501abef524d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:49 +0000
Subject: [PATCH 02/19] fix: do not form a reference past the last entry in
 operator*= of size 0

---
 include/hyperjet/hyperjet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 05c3b40..c4cb4c8 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -1159,7 +1159,7 @@ namespace hyperjet
             if constexpr (order() == 1)
                 return *this;
 
-            auto *it = &m_data[1 + size()];
+            auto it = m_data.begin() + (1 + size());
 
             for (index i = 0; i < size(); i++)
             {
-- 
2.43.0


From 6c4d76cbbfe5592b548918f3390116b478709fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:49 +0000
Subject: [PATCH 03/19] fix: scale a hyper-dual number by one of its own
 entries

---
 include/hyperjet/hyperjet.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index c4cb4c8..32b99a9 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -1174,9 +1174,12 @@ namespace hyperjet
 
         Type &operator*=(const Scalar &b)
         {
+            // b might refer to an entry of m_data
+            const Scalar s = b;
+
             for (index i = 0; i < length(m_data); i++)
             {
-                m_data[i] = m_data[i] * b;
+                m_data[i] = m_data[i] * s;
             }
 
             return *this;
-- 
2.43.0


From 193975b35641e2cb427ed6bda18ac0540f23602c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:49 +0000
Subject: [PATCH 04/19] fix: multiply and divide a sparse scalar by itself in
 place

---
 include/hyperjet/hyperjet.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 32b99a9..4d13ab9 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -2260,6 +2260,11 @@ namespace hyperjet
 
         Type &operator*=(const Type &b)
         {
+            if (&b == this)
+            {
+                return operator*=(Type(b));
+            }
+
             const Scalar da = b.m_f;
             const Scalar db = m_f;
 
@@ -2318,6 +2323,11 @@ namespace hyperjet
         {
             using std::pow;
 
+            if (&b == this)
+            {
+                return operator/=(Type(b));
+            }
+
             const auto da = 1 / b.m_f;
             const auto db = -m_f / pow(b.m_f, 2);
 
-- 
2.43.0


From 41fcd334cbf65de73ec0324b8fd8a568899ec9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:49 +0000
Subject: [PATCH 05/19] fix: pow with exponent 0 or 1 has finite derivatives at
 zero

---
 include/hyperjet/hyperjet.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 4d13ab9..4ec0cde 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -1265,8 +1265,8 @@ namespace hyperjet
             Type result = Type::empty(size());
 
             const auto f = pow(this->f(), b);
-            const auto da = b * pow(this->f(), b - 1);
-            const auto daa = (b - 1) * b * pow(this->f(), b - 2);
+            const Scalar da = b == 0 ? Scalar(0) : b * pow(this->f(), b - 1);
+            const Scalar daa = b == 0 || b == 1 ? Scalar(0) : (b - 1) * b * pow(this->f(), b - 2);
 
             unary<false>(m_data, f, da, daa, result.m_data);
 
@@ -2356,7 +2356,7 @@ namespace hyperjet
             using std::pow;
 
             const auto f = pow(m_f, b);
-            const auto da = b * pow(m_f, b - Scalar(1));
+            const Scalar da = b == 0 ? Scalar(0) : b * pow(m_f, b - Scalar(1));
 
             return Type(f, unary(m_d, da));
         }
-- 
2.43.0


From 8ea68ad62141c872b651419f16753e0e20772ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:49 +0000
Subject: [PATCH 06/19] fix: default constructed run-time sized numbers have
 size 0

---
 include/hyperjet/hyperjet.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 4ec0cde..e9e7f96 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -318,7 +318,7 @@ namespace hyperjet
 
             if constexpr (is_dynamic())
             {
-                m_size = 1;
+                m_size = 0;
                 m_data = Data(1);
             }
             else
@@ -333,7 +333,7 @@ namespace hyperjet
 
             if constexpr (is_dynamic())
             {
-                m_size = 1;
+                m_size = 0;
                 m_data = Data(1);
             }
             else
-- 
2.43.0


From 3a8184dbe6918ec03045e2e7e8a4e0d6e383c655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:49 +0000
Subject: [PATCH 07/19] fix: allocate and check the length in construction from
 an initializer list

---
 include/hyperjet/hyperjet.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index e9e7f96..0b45825 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -362,6 +362,13 @@ namespace hyperjet
         {
             static_assert(0 < order() && order() <= 2);
 
+            check_valid_size(m_size);
+
+            if constexpr (is_dynamic())
+            {
+                m_data.resize(length(data));
+            }
+
             std::copy(data.begin(), data.end(), m_data.begin());
         }
 
-- 
2.43.0


From 3f4269a51c0f9fc9fe06d9f8ea71bf1b1da5c420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:49 +0000
Subject: [PATCH 08/19] fix: reject data lengths below one

---
 include/hyperjet/hyperjet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 0b45825..e4f0a15 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -69,7 +69,7 @@ namespace hyperjet
 
             if constexpr (throw_exceptions())
             {
-                if (data_length_from_size(s) != n)
+                if (s < 0 || data_length_from_size(s) != n)
                 {
                     throw std::runtime_error("Invalid length");
                 }
-- 
2.43.0


From f001add4b8a5048e791e2b23f61a0f8ba2a458a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:49 +0000
Subject: [PATCH 09/19] fix: correct the inverted data length assertion without
 exceptions

---
 include/hyperjet/hyperjet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index e4f0a15..2446821 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -76,7 +76,7 @@ namespace hyperjet
             }
             else
             {
-                assert(data_length_from_size(s) == n == 0 && "Invalid length");
+                assert(s >= 0 && data_length_from_size(s) == n && "Invalid length");
             }
 
             return s;
-- 
2.43.0


From cf7ef59fc473c6ea57bc5325ddfda7594904b3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:49 +0000
Subject: [PATCH 10/19] fix: reject negative sizes of run-time sized numbers

---
 include/hyperjet/hyperjet.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 2446821..7a60ba4 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -429,6 +429,7 @@ namespace hyperjet
         void resize(const index size)
         {
             static_assert(is_dynamic());
+            check_valid_size(size);
             m_size = size;
             const index n = data_length_from_size(size);
             m_data.resize(n);
@@ -573,6 +574,7 @@ namespace hyperjet
         {
             if constexpr (is_dynamic())
             {
+                check_valid_size(size);
                 const index n = data_length_from_size(size);
                 const Data data(n);
                 Type result(data, size);
@@ -606,6 +608,7 @@ namespace hyperjet
         {
             if constexpr (is_dynamic())
             {
+                check_valid_size(size);
                 const Data data(data_length_from_size(size), 0);
                 Type result(data, size);
                 return result;
-- 
2.43.0


From e71ac2e15a3f779ef5d7cbc2694c4071416c7142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:49 +0000
Subject: [PATCH 11/19] fix: check operand sizes in atan2 and three-argument
 hypot

---
 include/hyperjet/hyperjet.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 7a60ba4..74f7f24 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -1431,6 +1431,8 @@ namespace hyperjet
         {
             using std::atan2;
 
+            check_equal_size(size(), b.size());
+
             Type result = Type::empty(size());
 
             const Scalar tmp = this->f() * this->f() + b.f() * b.f();
@@ -1473,6 +1475,7 @@ namespace hyperjet
             using std::hypot;
 
             check_equal_size(a.size(), b.size());
+            check_equal_size(a.size(), c.size());
 
             Type result = Type::empty(a.size());
 
-- 
2.43.0


From d8eeddad9978f18199c8be03a79d15a8432f5d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:49 +0000
Subject: [PATCH 12/19] fix: reject padding to a smaller size

---
 include/hyperjet/hyperjet.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 74f7f24..ec8b189 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -439,10 +439,12 @@ namespace hyperjet
         {
             static_assert(is_dynamic());
 
-            Type result = empty(new_size);
-
             const index head = new_size - size();
 
+            check_valid_size(head);
+
+            Type result = empty(new_size);
+
             auto source = m_data.cbegin();
             auto target = result.m_data.begin();
 
@@ -486,10 +488,12 @@ namespace hyperjet
         {
             static_assert(is_dynamic());
 
-            Type result = empty(new_size);
-
             const index tail = new_size - size();
 
+            check_valid_size(tail);
+
+            Type result = empty(new_size);
+
             auto source = m_data.cbegin();
             auto target = result.m_data.begin();
 
-- 
2.43.0


From 68f7acae81fd93b026dfb5ac445e4b65752cb874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:49 +0000
Subject: [PATCH 13/19] fix: reject an increment of the wrong length in eval

---
 include/hyperjet/hyperjet.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index ec8b189..64aef1f 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -920,6 +920,8 @@ namespace hyperjet
 
         Scalar eval(typename std::conditional < TSize == Dynamic, std::vector<Scalar>, std::array<Scalar, TSize<0 ? 0 : TSize>>::type d) const
         {
+            check_equal_size(size(), length(d));
+
             Scalar result = f();
 
             for (index i = 0; i < size(); i++)
-- 
2.43.0


From 97bcda2caa112da4ca20a38d4628c20a9efce361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:49 +0000
Subject: [PATCH 14/19] fix: reject arrays of the wrong shape in set_hm, hm,
 set_adata and from_arrays

---
 include/hyperjet/hyperjet.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 64aef1f..1c06e5a 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -832,6 +832,9 @@ namespace hyperjet
 
         void hm(const std::string mode, Eigen::Ref<Matrix> out) const
         {
+            check_equal_size(size(), out.rows());
+            check_equal_size(size(), out.cols());
+
             index it = 0;
 
             for (index i = 0; i < size(); i++)
@@ -870,6 +873,9 @@ namespace hyperjet
 
         void set_hm(const Eigen::Ref<const Matrix> &value)
         {
+            check_equal_size(size(), value.rows());
+            check_equal_size(size(), value.cols());
+
             index it = 0;
 
             for (index i = 0; i < size(); i++)
@@ -888,6 +894,8 @@ namespace hyperjet
 
         void set_adata(const Eigen::Ref<DataVector> value)
         {
+            check_equal_size(data_length(), length(value));
+
             Eigen::Map<DataVector>(ptr(), length(m_data)) = value;
         }
 
@@ -907,7 +915,8 @@ namespace hyperjet
         {
             static_assert(order() == 2);
 
-            assert(g.size() == hm.rows() && g.size() == hm.cols());
+            check_equal_size(length(g), hm.rows());
+            check_equal_size(length(g), hm.cols());
 
             Type result = empty(length(g));
 
-- 
2.43.0


From d758d2f81928bbc3bbab7ef392b7cf5872751bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:49 +0000
Subject: [PATCH 15/19] fix: reject a wrong number of values in variables of
 fixed-size numbers

---
 include/hyperjet/hyperjet.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 1c06e5a..8192842 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -675,10 +675,7 @@ namespace hyperjet
         {
             const index s = length(values);
 
-            if constexpr (!is_dynamic())
-            {
-                assert(s == TSize);
-            }
+            check_valid_size(s);
 
             std::vector<Type> vars(s);
             for (index i = 0; i < s; i++)
-- 
2.43.0


From fcc2935d00cfa949cc53f07a98aa4393e04dfbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:08 +0000
Subject: [PATCH 16/19] fix: bind Hessian accessors for second-order numbers
 only

---
 python/src/common.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/python/src/common.h b/python/src/common.h
index 81b1193..1504567 100644
--- a/python/src/common.h
+++ b/python/src/common.h
@@ -91,11 +91,17 @@ auto bind(py::module &m, const std::string &name)
         .def("__pow__", &T::pow)
         .def("__repr__", &T::to_string)
         .def("abs", &T::abs)
-        .def("eval", &T::eval, "d"_a)
-        .def("h", py::overload_cast<hj::index, hj::index>(&T::h), "row"_a, "col"_a)
-        .def("set_h", py::overload_cast<hj::index, hj::index, typename T::Scalar>(&T::set_h), "row"_a, "col"_a, "value"_a)
-        .def("hm", py::overload_cast<std::string>(&T::hm, py::const_), "mode"_a = "full")
-        .def("set_hm", &T::set_hm, "value"_a);
+        .def("eval", &T::eval, "d"_a);
+
+    // methods: second derivatives
+    if constexpr (T::order() == 2)
+    {
+        cls
+            .def("h", py::overload_cast<hj::index, hj::index>(&T::h), "row"_a, "col"_a)
+            .def("set_h", py::overload_cast<hj::index, hj::index, typename T::Scalar>(&T::set_h), "row"_a, "col"_a, "value"_a)
+            .def("hm", py::overload_cast<std::string>(&T::hm, py::const_), "mode"_a = "full")
+            .def("set_hm", &T::set_hm, "value"_a);
+    }
 
     if constexpr (T::is_dynamic())
     {
-- 
2.43.0


From 81189a77ae3db847ea1bd6e858645b4978ee3d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:08 +0000
Subject: [PATCH 17/19] fix: return a two-dimensional Hessian from hm for a
 single variable

---
 python/src/common.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/src/common.h b/python/src/common.h
index 1504567..26a5dcb 100644
--- a/python/src/common.h
+++ b/python/src/common.h
@@ -99,7 +99,10 @@ auto bind(py::module &m, const std::string &name)
         cls
             .def("h", py::overload_cast<hj::index, hj::index>(&T::h), "row"_a, "col"_a)
             .def("set_h", py::overload_cast<hj::index, hj::index, typename T::Scalar>(&T::set_h), "row"_a, "col"_a, "value"_a)
-            .def("hm", py::overload_cast<std::string>(&T::hm, py::const_), "mode"_a = "full")
+            .def(
+                "hm", [](const T &self, const std::string &mode) -> Eigen::Matrix<typename T::Scalar, Eigen::Dynamic, Eigen::Dynamic>
+                { return self.hm(mode); }, // two-dimensional for a single variable as well
+                "mode"_a = "full")
             .def("set_hm", &T::set_hm, "value"_a);
     }
 
-- 
2.43.0


From 2be3bdfba564f64eee510f1147438946b0ba6cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:08 +0000
Subject: [PATCH 18/19] fix: do not truncate values in f when an array starts
 with an integer

---
 python/src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/main.cpp b/python/src/main.cpp
index 9eb058d..9bf9e8c 100644
--- a/python/src/main.cpp
+++ b/python/src/main.cpp
@@ -62,7 +62,7 @@ PYBIND11_MODULE(hyperjet, m)
         auto global = py::dict();
         global["np"] = numpy;
 
-        m.attr("f") = py::eval("np.vectorize(lambda v: v.f if hasattr(v, 'f') else v)", global);
+        m.attr("f") = py::eval("np.vectorize(lambda v: v.f if hasattr(v, 'f') else v, otypes='d')", global);
         m.attr("d") = py::eval("np.vectorize(lambda v: v.g if hasattr(v, 'g') else np.zeros((0)), signature='()->(n)')", global);
         m.attr("dd") = py::eval("np.vectorize(lambda v: v.hm() if hasattr(v, 'hm') else np.zeros((0, 0)), signature='()->(n,m)')", global);
 
-- 
2.43.0


From 254798717c10ee375454c56b1d0baec1e4d6a074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:32 +0000
Subject: [PATCH 19/19] fix: numeric_limits of hyper-dual numbers are those of
 the scalar

Eigen's LDLT and Householder QR compare with numeric_limits<Scalar>::min(), which
was an uninitialized number.
---
 include/hyperjet/hyperjet.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 8192842..cd5f425 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -5,6 +5,7 @@
 #include <cmath>            // acos, acosh, asin, asinh, atan, atanh, atan2, cbrt, cos, cosh, exp, hypot, log, log2, log10, pow, sin, sinh, sqrt, tan, tanh
 #include <cstddef>          // ptrdiff_t
 #include <initializer_list> // initializer_list
+#include <limits>           // numeric_limits
 #include <ostream>          // ostream
 #include <sstream>          // stringstream
 #include <string>           // string
@@ -2938,6 +2939,17 @@ namespace hyperjet
 
 } // namespace hyperjet
 
+namespace std
+{
+
+    // as for the scalar: the unspecialized template would return uninitialized numbers
+    template <hyperjet::index TOrder, typename TScalar, hyperjet::index TSize>
+    class numeric_limits<hyperjet::DDScalar<TOrder, TScalar, TSize>> : public numeric_limits<TScalar>
+    {
+    };
+
+} // namespace std
+
 #if defined EIGEN_WORLD_VERSION
 
 namespace Eigen
-- 
2.43.0

