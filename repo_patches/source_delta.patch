From 5fa043857f166b818ac4373cefb54768ddfda9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:04 +0000
Subject: [PATCH 01/56] fix: determinant must be the product of the pivots, not
 of their reciprocals

---
 include/nil/crypto3/algebra/matrix/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index 619dc04..f1bd796 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -214,7 +214,7 @@ namespace nil {
                         auto s = m[i][j];
                         for (std::size_t jp = 0; jp < N; ++jp)
                             m[i][jp] /= s;
-                        det /= s;
+                        det *= s;
 
                         // Eliminate other values in the column
                         for (std::size_t ip = 0; ip < M; ++ip) {
-- 
2.43.0


From 8d4ceeebf7f00e8125b3da7a820c9dc1b51746d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:16 +0000
Subject: [PATCH 02/56] fix: Gauss-Jordan must not settle for a negligible
 pivot when the column has a better one

---
 include/nil/crypto3/algebra/matrix/math.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index f1bd796..1cba937 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -204,7 +204,8 @@ namespace nil {
                                 m[i][jp] = tmp;
                             }
                             det = -det;
-                            break;
+                            if (!negligible(m[i][j]))
+                                break;
                         }
                     }
 
-- 
2.43.0


From db3e4a0b6a38a794ec63b807ec72485c304892c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:11 +0000
Subject: [PATCH 03/56] fix: Gauss-Jordan must treat a zero pivot as negligible
 when the tolerance is zero

---
 include/nil/crypto3/algebra/matrix/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index 1cba937..5b12b65 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -189,7 +189,7 @@ namespace nil {
                 // CRYPTO3_DETAIL_ASSERT_REAL(T)
 
                 // Define function for determining if an element is negligible
-                auto negligible = [&tolerance](const T &v) { return abs(v) < tolerance; };
+                auto negligible = [&tolerance](const T &v) { return abs(v) <= tolerance; };
 
                 T det = 1;
                 std::size_t rank = 0;
-- 
2.43.0


From 24f67205084beb7daee36fc21e0d20c91222e305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:15 +0000
Subject: [PATCH 04/56] fix: rref with an explicit tolerance must compile and
 use that tolerance

---
 include/nil/crypto3/algebra/matrix/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index 5b12b65..055c272 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -276,7 +276,7 @@ namespace nil {
              */
             template<typename T, std::size_t M, std::size_t N>
             constexpr matrix<T, M, N> rref(const matrix<T, M, N> &m, T tolerance) {
-                return std::get<0>(gauss_jordan_impl(m), tolerance);
+                return std::get<0>(gauss_jordan_impl(m, tolerance));
             }
 
             /** @brief Compute the rank
-- 
2.43.0


From 229296aaa36bb5f6952fd29db490e243eebbdb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:18 +0000
Subject: [PATCH 05/56] fix: matrix inverse must eliminate with the tolerance
 of the matrix itself

---
 include/nil/crypto3/algebra/matrix/math.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index 055c272..7afdab1 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -311,9 +311,11 @@ namespace nil {
              */
             template<typename T, std::size_t M>
             constexpr matrix<T, M, M> inverse(const matrix<T, M, M> &m) {
-                if (rank(m) < M)
+                // the identity block must not change which elements of m count as negligible
+                T tol = T(M) * std::numeric_limits<T>::epsilon() * mars(m);
+                if (std::get<1>(gauss_jordan_impl(m, tol)) < M)
                     throw "matrix is not invertible";
-                return submat<M, M>(rref(horzcat(m, get_identity<T, M>())), 0, M);
+                return submat<M, M>(rref(horzcat(m, get_identity<T, M>()), tol), 0, M);
             }
 
             /** @brief computes the trace
-- 
2.43.0


From c69c3af02a08641a0d5dbc1cd634e9724b9a5932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:24 +0000
Subject: [PATCH 06/56] fix: swapcol must visit every row of a non-square
 matrix

---
 include/nil/crypto3/algebra/matrix/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/utility.hpp b/include/nil/crypto3/algebra/matrix/utility.hpp
index fa461df..b0f42b1 100644
--- a/include/nil/crypto3/algebra/matrix/utility.hpp
+++ b/include/nil/crypto3/algebra/matrix/utility.hpp
@@ -165,7 +165,7 @@ namespace nil {
              */
             template<std::size_t M, std::size_t N, typename T>
             constexpr matrix<T, M, N> swapcol(matrix<T, M, N> m, std::size_t a, std::size_t b) {
-                for (int i = 0; i < N; i++) {
+                for (int i = 0; i < M; i++) {
                     T tmp = m[i][a];
                     m[i][a] = m[i][b];
                     m[i][b] = tmp;
-- 
2.43.0


From 42b77b9f46c8c08c5dd1e8b6894e387700a588d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:28 +0000
Subject: [PATCH 07/56] fix: submat range check must not wrap around for huge
 offsets

---
 include/nil/crypto3/algebra/matrix/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/utility.hpp b/include/nil/crypto3/algebra/matrix/utility.hpp
index b0f42b1..e502eaa 100644
--- a/include/nil/crypto3/algebra/matrix/utility.hpp
+++ b/include/nil/crypto3/algebra/matrix/utility.hpp
@@ -215,7 +215,7 @@ namespace nil {
              */
             template<std::size_t P, std::size_t Q, std::size_t M, std::size_t N, typename T>
             constexpr matrix<T, P, Q> submat(const matrix<T, M, N> &m, std::size_t a, std::size_t b) {
-                if ((a + P > M) || (b + Q > N))
+                if ((P > M) || (a > M - P) || (Q > N) || (b > N - Q))
                     throw "index out of range";
                 return generate<P, Q>([&m, &a, &b](std::size_t i, std::size_t j) { return m[a + i][b + j]; });
             }
-- 
2.43.0


From 6f76e1958d6d940a57428c85fe2efdeca79f9bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:33 +0000
Subject: [PATCH 08/56] fix: sqrt must terminate for zero, infinity and NaN

---
 include/nil/crypto3/algebra/scalar/math.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/nil/crypto3/algebra/scalar/math.hpp b/include/nil/crypto3/algebra/scalar/math.hpp
index 0946310..884276e 100644
--- a/include/nil/crypto3/algebra/scalar/math.hpp
+++ b/include/nil/crypto3/algebra/scalar/math.hpp
@@ -27,6 +27,8 @@
 #ifndef CRYPTO3_ALGEBRA_SCALAR_MATH_HPP
 #define CRYPTO3_ALGEBRA_SCALAR_MATH_HPP
 
+#include <limits>
+
 #include <nil/crypto3/algebra/type_traits.hpp>
 #include <nil/crypto3/detail/assert.hpp>
 
@@ -47,6 +49,9 @@ namespace nil {
             constexpr double sqrt(double x) {
                 if (x < 0)
                     throw "sqrt argument must be positive";
+                // zero, infinity and NaN are their own roots, the iteration below never ends on them
+                if (x == 0 || !(x <= std::numeric_limits<double>::max()))
+                    return x;
                 double prev = 0;
                 double est = (1 + x) / 2;
                 while (prev != est) {
-- 
2.43.0


From cd508f656982e836d4c75397cd22e8ff53155517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:37 +0000
Subject: [PATCH 09/56] fix: nthroot must terminate when the iteration does not
 reach a fixed point

---
 include/nil/crypto3/algebra/scalar/math.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/nil/crypto3/algebra/scalar/math.hpp b/include/nil/crypto3/algebra/scalar/math.hpp
index 884276e..4716942 100644
--- a/include/nil/crypto3/algebra/scalar/math.hpp
+++ b/include/nil/crypto3/algebra/scalar/math.hpp
@@ -123,14 +123,17 @@ namespace nil {
             constexpr double nthroot(double x, int n) {
                 if (x < 0)
                     throw "nth root argument must be positive";
-                double prev = -1;
-                double est = 1;
-                while (prev != est) {
+                if (n == 1 || x == 0 || !(x <= std::numeric_limits<double>::max()))
+                    return x;
+                // the first Newton step never lands below the root, the following ones decrease towards it
+                double est = 1. + (x - 1.) / n;
+                double prev = 0;
+                do {
                     prev = est;
                     double dxk = 1. / n * (x / exponentiate(prev, n - 1) - prev);
                     est = prev + dxk;
-                }
-                return est;
+                } while (est < prev);
+                return prev;
             }
 
             /** @brief computes the complex conjugate
-- 
2.43.0


From 909de36cd59f2737d596324f3263f882fed308c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:40 +0000
Subject: [PATCH 10/56] fix: exponentiate must not overflow negating the
 smallest exponent

---
 include/nil/crypto3/algebra/scalar/math.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/nil/crypto3/algebra/scalar/math.hpp b/include/nil/crypto3/algebra/scalar/math.hpp
index 4716942..ff3df79 100644
--- a/include/nil/crypto3/algebra/scalar/math.hpp
+++ b/include/nil/crypto3/algebra/scalar/math.hpp
@@ -96,17 +96,18 @@ namespace nil {
             constexpr double exponentiate(double x, int n) {
                 if (n == 0)
                     return 1;
-                if (n < 0) {
+                long long k = n;    // -n does not fit an int for the smallest int
+                if (k < 0) {
                     x = 1. / x;
-                    n = -n;
+                    k = -k;
                 }
                 double y = 1.;
-                while (n > 1) {
-                    if (n % 2 == 0) {
-                        n = n / 2.;
+                while (k > 1) {
+                    if (k % 2 == 0) {
+                        k = k / 2;
                     } else {
                         y *= x;
-                        n = (n - 1.) / 2.;
+                        k = (k - 1) / 2;
                     }
                     x *= x;
                 }
-- 
2.43.0


From d59016d484aa15d9e61451422853adc89fb5dbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:45 +0000
Subject: [PATCH 11/56] fix: linspace of a single element must not divide by
 zero

---
 include/nil/crypto3/algebra/vector/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/vector/utility.hpp b/include/nil/crypto3/algebra/vector/utility.hpp
index 6c1e5e9..1b1545f 100644
--- a/include/nil/crypto3/algebra/vector/utility.hpp
+++ b/include/nil/crypto3/algebra/vector/utility.hpp
@@ -110,7 +110,7 @@ namespace nil {
              */
             template<std::size_t N, typename T>
             constexpr vector<T, N> linspace(T min, T max) {
-                return ((max - min) / (N - 1)) * iota<N, T>() + min;
+                return (N == 1 ? T() : (max - min) / (N - 1)) * iota<N, T>() + min;
             }
 
             /** @brief generates a vector containing a single value
-- 
2.43.0


From 29ac209f6b3201a5e9cca80f08218230b07a66c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:30 +0000
Subject: [PATCH 12/56] fix: Gauss-Jordan must eliminate every element of a
 pivot column

---
 include/nil/crypto3/algebra/matrix/math.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index 7afdab1..282427f 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -221,13 +221,12 @@ namespace nil {
                         for (std::size_t ip = 0; ip < M; ++ip) {
                             if (ip == i)
                                 continue;
-                            if (!negligible(m[ip][j])) {
-                                auto s = m[ip][j];
-                                [&]() {    // wrap this in a lambda to get around a gcc bug
-                                    for (std::size_t jp = 0; jp < N; ++jp)
-                                        m[ip][jp] -= s * m[i][jp];
-                                }();
-                            }
+                            // the rows above are already scaled, so the tolerance does not apply to their elements
+                            auto s = m[ip][j];
+                            [&]() {    // wrap this in a lambda to get around a gcc bug
+                                for (std::size_t jp = 0; jp < N; ++jp)
+                                    m[ip][jp] -= s * m[i][jp];
+                            }();
                         }
 
                         // Increment rank
-- 
2.43.0


From d8e7154008b02fc00d2bba89c0de3dafa6aab890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:58 +0000
Subject: [PATCH 13/56] fix: strxor must return the output iterator and include
 the range concepts it checks

---
 include/nil/crypto3/algebra/algorithms/strxor.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nil/crypto3/algebra/algorithms/strxor.hpp b/include/nil/crypto3/algebra/algorithms/strxor.hpp
index ebd3180..8e95eb5 100644
--- a/include/nil/crypto3/algebra/algorithms/strxor.hpp
+++ b/include/nil/crypto3/algebra/algorithms/strxor.hpp
@@ -28,8 +28,10 @@
 
 #include <boost/concept/assert.hpp>
 #include <boost/assert.hpp>
+#include <boost/range/concepts.hpp>
 
 #include <iterator>
+#include <type_traits>
 
 namespace nil {
     namespace crypto3 {
@@ -46,6 +48,7 @@ namespace nil {
                 while (first1 != last1 && first2 != last2) {
                     *out++ = *first1++ ^ *first2++;
                 }
+                return out;
             }
 
             template<typename InputType, typename OutputType>
-- 
2.43.0


From 4ae704cd2e8927064fb3aa45233366ccd0791cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:02 +0000
Subject: [PATCH 14/56] fix: state_adder must compile

---
 include/nil/crypto3/detail/state_adder.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nil/crypto3/detail/state_adder.hpp b/include/nil/crypto3/detail/state_adder.hpp
index d8f9c86..3d47b36 100644
--- a/include/nil/crypto3/detail/state_adder.hpp
+++ b/include/nil/crypto3/detail/state_adder.hpp
@@ -31,9 +31,9 @@ namespace nil {
             struct state_adder {
                 template<typename T>
                 void operator()(T &s1, T const &s2) {
-                    typedef typename T::size_type std::size_type;
-                    std::size_type n = (s2.size() < s1.size() ? s2.size() : s1.size());
-                    for (typename T::size_type i = 0; i < n; ++i) {
+                    typedef typename T::size_type size_type;
+                    size_type n = (s2.size() < s1.size() ? s2.size() : s1.size());
+                    for (size_type i = 0; i < n; ++i) {
                         s1[i] += s2[i];
                     }
                 }
-- 
2.43.0


From 1ad1117b0a41a6915c0d28e9e58b8d43d8813d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:06 +0000
Subject: [PATCH 15/56] fix: unbounded_shl by the width of the type or more
 must give zero

---
 include/nil/crypto3/detail/unbounded_shift.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/nil/crypto3/detail/unbounded_shift.hpp b/include/nil/crypto3/detail/unbounded_shift.hpp
index 1faa0a6..2b4ad20 100644
--- a/include/nil/crypto3/detail/unbounded_shift.hpp
+++ b/include/nil/crypto3/detail/unbounded_shift.hpp
@@ -27,6 +27,9 @@
 #ifndef CRYPTO3_DETAIL_UNBOUNDED_SHIFT_HPP
 #define CRYPTO3_DETAIL_UNBOUNDED_SHIFT_HPP
 
+#include <climits>
+#include <cstddef>
+
 #include <boost/assert.hpp>
 
 namespace nil {
@@ -68,7 +71,7 @@ namespace nil {
             template<typename T>
             T unbounded_shl(T x, std::size_t n) {
                 if (sizeof(T) * CHAR_BIT <= n)
-                    n %= sizeof(T) * CHAR_BIT;
+                    return 0;
                 return x << n;
             }
 
-- 
2.43.0


From a7cbd46559046b84970cabf11983b35be1fe78e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:58 +0000
Subject: [PATCH 16/56] fix: the square root of zero in fp2 and fp3 must
 terminate

---
 include/nil/crypto3/algebra/fields/detail/element/fp2.hpp | 2 ++
 include/nil/crypto3/algebra/fields/detail/element/fp3.hpp | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp b/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
index 0afe2c1..0e22610 100644
--- a/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
@@ -196,6 +196,8 @@ namespace nil {
                         }
 
                         constexpr element_fp2 sqrt() const {
+                            if (this->is_zero())
+                                return zero();
 
                             element_fp2 one = this->one();
 
diff --git a/include/nil/crypto3/algebra/fields/detail/element/fp3.hpp b/include/nil/crypto3/algebra/fields/detail/element/fp3.hpp
index aa90cb5..a3e84ea 100644
--- a/include/nil/crypto3/algebra/fields/detail/element/fp3.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/element/fp3.hpp
@@ -162,6 +162,9 @@ namespace nil {
                         }
 
                         constexpr element_fp3 sqrt() const {
+                            if (this->is_zero())
+                                return zero();
+
                             std::size_t v = policy_type::s;
                             element_fp3 z(policy_type::nqr_to_t[0], policy_type::nqr_to_t[1], policy_type::nqr_to_t[2]);
                             element_fp3 w = this->pow(policy_type::t_minus_1_over_2);
-- 
2.43.0


From 9afe79c7c50cfeb8c13d97bd4f565c321c76ea14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:20 +0000
Subject: [PATCH 17/56] fix: std::hash of an fp2 element must compile

---
 include/nil/crypto3/algebra/fields/detail/element/fp2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp b/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
index 0e22610..0534d03 100644
--- a/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
@@ -348,7 +348,7 @@ namespace nil {
 template<typename FieldParams>
 struct std::hash<typename nil::crypto3::algebra::fields::detail::element_fp2<FieldParams>>
 {
-    std::hash<typename nil::crypto3::algebra::fields::detail::element_fp2<FieldParams>::modular_type> hasher;
+    std::hash<typename nil::crypto3::algebra::fields::detail::element_fp2<FieldParams>::underlying_type> hasher;
     size_t operator()(const nil::crypto3::algebra::fields::detail::element_fp2<FieldParams>& elem) const
     {
         std::size_t result = hasher(elem.data[0]);
-- 
2.43.0


From b60c67aac814262e8e24b19eba92795085c96965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:07 +0000
Subject: [PATCH 18/56] fix: is_square in the Edwards fp3 must use half the
 order of fp3, not of the base field

---
 .../algebra/fields/detail/extension_params/edwards/fp3.hpp    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/fields/detail/extension_params/edwards/fp3.hpp b/include/nil/crypto3/algebra/fields/detail/extension_params/edwards/fp3.hpp
index b36d267..dfeff10 100644
--- a/include/nil/crypto3/algebra/fields/detail/extension_params/edwards/fp3.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/extension_params/edwards/fp3.hpp
@@ -72,7 +72,7 @@ namespace nil {
                         constexpr static const std::array<integral_type, 3> nqr_to_t = {
                             0x118228ECB464A2F6EB8DACC18FA757E45B3989330150C_cppui_modular177, 0x00, 0x00};
 
-                        constexpr static const extended_integral_type group_order =
+                        constexpr static const extended_integral_type group_order_minus_one_half =
                             0x214530CDE421990256A87901DDC6307E4ED27FAF4F877968EFCA129EF23243B915EF074F565027DAA0127ECF4EC788245754250524EA78AD2C1A16B28F2611D9140000000_cppui_modular546;
 
                         /*constexpr static const std::array<non_residue_type, 3> Frobenius_coeffs_c1 =
@@ -121,7 +121,7 @@ namespace nil {
 
                     template<std::size_t Version>
                     constexpr typename fp3_extension_params<edwards_base_field<Version>>::extended_integral_type const
-                        fp3_extension_params<edwards_base_field<Version>>::group_order;
+                        fp3_extension_params<edwards_base_field<Version>>::group_order_minus_one_half;
 
                     template<std::size_t Version>
                     constexpr typename fp3_extension_params<edwards_base_field<Version>>::integral_type const
-- 
2.43.0


From 0ffc089ff823fd337689f17d924882e8d880a132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:11 +0000
Subject: [PATCH 19/56] fix: the fifth Frobenius coefficient of the MNT6 fp6
 was off by one

---
 .../algebra/fields/detail/extension_params/mnt6/fp6_2over3.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/fields/detail/extension_params/mnt6/fp6_2over3.hpp b/include/nil/crypto3/algebra/fields/detail/extension_params/mnt6/fp6_2over3.hpp
index 16a8769..235ec33 100644
--- a/include/nil/crypto3/algebra/fields/detail/extension_params/mnt6/fp6_2over3.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/extension_params/mnt6/fp6_2over3.hpp
@@ -74,7 +74,7 @@ namespace nil {
                             0x3B48E50A1662E26F0E834E15FAF68204A9845655F46B277A6D05B75068AD3F6801655344BEC_cppui_modular298,
                             0x3BCF7BCD473A266249DA7B0548ECAEEC9635CF44194FB494C07925D6AD3BB4334A400000000_cppui_modular298,
                             0x8696C330D743F33B572CEF4DF62CE7ECB178EE24E48D1A53736E86448E74CB48DAACBB414_cppui_modular292,
-                            0x8696C330D743F33B572CEF4DF62CE7ECB178EE24E48D1A53736E86448E74CB48DAACBB414_cppui_modular293};
+                            0x8696C330D743F33B572CEF4DF62CE7ECB178EE24E48D1A53736E86448E74CB48DAACBB415_cppui_modular292};
 
                         constexpr static const non_residue_type non_residue = non_residue_type(0x05u);
                     };
-- 
2.43.0


From 7673320b618f9f97335aa06a70c8fd29be763d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:50 +0000
Subject: [PATCH 20/56] fix: the Frobenius coefficients of the bn128 extensions
 were all zero

---
 .../bn128/fp12_2over3over2.hpp                | 38 ++++++++++++-------
 .../detail/extension_params/bn128/fp2.hpp     |  5 +--
 .../extension_params/bn128/fp6_3over2.hpp     | 38 ++++++++++++-------
 3 files changed, 50 insertions(+), 31 deletions(-)

diff --git a/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp12_2over3over2.hpp b/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp12_2over3over2.hpp
index 8f82ecc..46a3a12 100644
--- a/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp12_2over3over2.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp12_2over3over2.hpp
@@ -66,21 +66,31 @@ namespace nil {
                         typedef fields::fp6_3over2<base_field_type> underlying_field_type;
                         typedef typename underlying_field_type::value_type underlying_type;
 
-                        /*constexpr static const std::array<non_residue_type, 12> Frobenius_coeffs_c1 =
-                           {non_residue_type(0x00, 0x00), non_residue_type(0x00, 0x00), non_residue_type(0x00, 0x00),
-                            non_residue_type(0x00, 0x00),
-                            non_residue_type(0x00, 0x00),
-                            non_residue_type(0x00, 0x00),
-                            non_residue_type(0x00, 0x00),
-                            non_residue_type(0x00, 0x00),
-                            non_residue_type(0x00, 0x00),
-                            non_residue_type(0x00, 0x00),
-                            non_residue_type(0x00, 0x00),
-                            non_residue_type(0x00, 0x00)};*/
-
                         constexpr static const std::array<integral_type, 12 * 2> Frobenius_coeffs_c1 = {
-                            0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
-                            0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00};
+                            0x01,
+                            0x00,
+                            0x1284B71C2865A7DFE8B99FDD76E68B605C521E08292F2176D60B35DADCC9E470_cppui_modular253,
+                            0x246996F3B4FAE7E6A6327CFE12150B8E747992778EEEC7E5CA5CF05F80F362AC_cppui_modular254,
+                            0x30644E72E131A0295E6DD9E7E0ACCCB0C28F069FBB966E3DE4BD44E5607CFD49_cppui_modular254,
+                            0x00,
+                            0x19DC81CFCC82E4BBEFE9608CD0ACAA90894CB38DBE55D24AE86F7D391ED4A67F_cppui_modular253,
+                            0xABF8B60BE77D7306CBEEE33576139D7F03A5E397D439EC7694AA2BF4C0C101_cppui_modular248,
+                            0x30644E72E131A0295E6DD9E7E0ACCCB0C28F069FBB966E3DE4BD44E5607CFD48_cppui_modular254,
+                            0x00,
+                            0x757CAB3A41D3CDC072FC0AF59C61F302CFA95859526B0D41264475E420AC20F_cppui_modular251,
+                            0xCA6B035381E35B618E9B79BA4E2606CA20B7DFD71573C93E85845E34C4A5B9C_cppui_modular252,
+                            0x30644E72E131A029B85045B68181585D97816A916871CA8D3C208C16D87CFD46_cppui_modular254,
+                            0x00,
+                            0x1DDF9756B8CBF849CF96A5D90A9ACCFD3B2F4C893F42A9166615563BFBB318D7_cppui_modular253,
+                            0xBFAB77F2C36B843121DC8B86F6C4CCF2307D819D98302A771C39BB757899A9B_cppui_modular252,
+                            0x59E26BCEA0D48BACD4F263F1ACDB5C4F5763473177FFFFFE_cppui_modular191,
+                            0x00,
+                            0x1687CCA314AEBB6DC866E529B0D4ADCD0E34B703AA1BF84253B10EDDB9A856C8_cppui_modular253,
+                            0x2FB855BCD54A22B6B18456D34C0B44C0187DC4ADD09D90A0C58BE1EAE3BC3C46_cppui_modular254,
+                            0x59E26BCEA0D48BACD4F263F1ACDB5C4F5763473177FFFFFF_cppui_modular191,
+                            0x00,
+                            0x290C83BF3D14634DB120850727BB392D6A86D50BD34B19B929BC44B896723B38_cppui_modular254,
+                            0x23BD9E3DA9136A739F668E1ADC9EF7F0F575EC93F71A8DF953C846338C32A1AB_cppui_modular254};
 
                         constexpr static const non_residue_type non_residue = non_residue_type(0x09u, 0x01u);
                     };
diff --git a/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp2.hpp b/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp2.hpp
index 61cc058..c6d61ad 100644
--- a/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp2.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp2.hpp
@@ -78,10 +78,9 @@ namespace nil {
                         constexpr static const extended_integral_type group_order_minus_one_half =
                             0x492E25C3B1E5FCE2CCD37BE01A4690E5805C2A88B1BAB031376FD2E1A6359C682344F4ABD09216425280C4E36CB656E5301039684F560809DAA2C5113AEB4D8_cppui_modular507;
 
-                        /*constexpr static const std::array<non_residue_type, 2> Frobenius_coeffs_c1 =
-                           {non_residue_type(0x00), non_residue_type(0x00)};*/
 
-                        constexpr static const std::array<integral_type, 2> Frobenius_coeffs_c1 = {0x00, 0x00};
+                        constexpr static const std::array<integral_type, 2> Frobenius_coeffs_c1 = {
+                            0x01, 0x30644E72E131A029B85045B68181585D97816A916871CA8D3C208C16D87CFD46_cppui_modular254};
 
                         constexpr static const non_residue_type non_residue = non_residue_type(
                             0x30644E72E131A029B85045B68181585D97816A916871CA8D3C208C16D87CFD46_cppui_modular254);
diff --git a/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp6_3over2.hpp b/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp6_3over2.hpp
index c634fea..27f8058 100644
--- a/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp6_3over2.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp6_3over2.hpp
@@ -64,23 +64,33 @@ namespace nil {
                         typedef fields::fp2<base_field_type> underlying_field_type;
                         typedef typename underlying_field_type::value_type underlying_type;
 
-                        /*constexpr static const std::array<non_residue_type, 6> Frobenius_coeffs_c1 =
-                        {non_residue_type(0x00, 0x00), non_residue_type(0x00, 0x00), non_residue_type(0x00, 0x00),
-                            non_residue_type(0x00, 0x00),
-                            non_residue_type(0x00, 0x00),
-                            non_residue_type(0x00, 0x00)};
-
-                        constexpr static const std::array<non_residue_type, 6> Frobenius_coeffs_c2 =
-                        {non_residue_type(0x00, 0x00), non_residue_type(0x00, 0x00), non_residue_type(0x00, 0x00),
-                            non_residue_type(0x00, 0x00),
-                            non_residue_type(0x00, 0x00),
-                            non_residue_type(0x00, 0x00)};*/
-
                         constexpr static const std::array<integral_type, 6 * 2> Frobenius_coeffs_c1 = {
-                            0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00};
+                            0x01,
+                            0x00,
+                            0x2FB347984F7911F74C0BEC3CF559B143B78CC310C2C3330C99E39557176F553D_cppui_modular254,
+                            0x16C9E55061EBAE204BA4CC8BD75A079432AE2A1D0B7C9DCE1665D51C640FCBA2_cppui_modular253,
+                            0x30644E72E131A0295E6DD9E7E0ACCCB0C28F069FBB966E3DE4BD44E5607CFD48_cppui_modular254,
+                            0x00,
+                            0x856E078B755EF0ABAFF1C77959F25AC805FFD3D5D6942D37B746EE87BDCFB6D_cppui_modular252,
+                            0x4F1DE41B3D1766FA9F30E6DEC26094F0FDF31BF98FF2631380CAB2BAAA586DE_cppui_modular251,
+                            0x59E26BCEA0D48BACD4F263F1ACDB5C4F5763473177FFFFFE_cppui_modular191,
+                            0x00,
+                            0x28BE74D4BB943F51699582B87809D9CAF71614D4B0B71F3A62E913EE1DADA9E4_cppui_modular254,
+                            0x14A88AE0CB747B99C2B86ABCBE01477A54F40EB4C3F6068DEDAE0BCEC9C7AAC7_cppui_modular253};
 
                         constexpr static const std::array<integral_type, 6 * 2> Frobenius_coeffs_c2 = {
-                            0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00};
+                            0x01,
+                            0x00,
+                            0x5B54F5E64EEA80180F3C0B75A181E84D33365F7BE94EC72848A1F55921EA762_cppui_modular251,
+                            0x2C145EDBE7FD8AEE9F3A80B03B0B1C923685D2EA1BDEC763C13B4711CD2B8126_cppui_modular254,
+                            0x59E26BCEA0D48BACD4F263F1ACDB5C4F5763473177FFFFFE_cppui_modular191,
+                            0x00,
+                            0xBC58C6611C08DAB19BEE0F7B5B2444EE633094575B06BCB0E1A92BC3CCBF066_cppui_modular252,
+                            0x23D5E999E1910A12FEB0F6EF0CD21D04A44A9E08737F96E55FE3ED9D730C239F_cppui_modular254,
+                            0x30644E72E131A0295E6DD9E7E0ACCCB0C28F069FBB966E3DE4BD44E5607CFD48_cppui_modular254,
+                            0x00,
+                            0x1EE972AE6A826A7D1D9DA40771B6F589DE1AFB54342C724FA97BDA050992657F_cppui_modular253,
+                            0x10DE546FF8D4AB51D2B513CDBB25772454326430418536D15721E37E70C255C9_cppui_modular253};
 
                         constexpr static const non_residue_type non_residue = non_residue_type(0x09u, 0x01u);
                     };
-- 
2.43.0


From fe74abefcd74ad1689015406874219975075349e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:50 +0000
Subject: [PATCH 21/56] fix: extension element types must name their own field
 (is_square of the Edwards fp3 did not compile)

---
 .../fields/detail/extension_params/bls12/fp12_2over3over2.hpp  | 1 +
 .../fields/detail/extension_params/bls12/fp6_3over2.hpp        | 1 +
 .../algebra/fields/detail/extension_params/edwards/fp3.hpp     | 1 +
 .../fields/detail/extension_params/edwards/fp6_2over3.hpp      | 3 +++
 .../algebra/fields/detail/extension_params/mnt4/fp4.hpp        | 3 +++
 .../algebra/fields/detail/extension_params/mnt6/fp6_2over3.hpp | 3 +++
 6 files changed, 12 insertions(+)

diff --git a/include/nil/crypto3/algebra/fields/detail/extension_params/bls12/fp12_2over3over2.hpp b/include/nil/crypto3/algebra/fields/detail/extension_params/bls12/fp12_2over3over2.hpp
index fe59936..6360077 100644
--- a/include/nil/crypto3/algebra/fields/detail/extension_params/bls12/fp12_2over3over2.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/extension_params/bls12/fp12_2over3over2.hpp
@@ -131,6 +131,7 @@ namespace nil {
                         typedef params<base_field_type> policy_type;
 
                     public:
+                        using field_type = fields::fp12_2over3over2<base_field_type>;
                         typedef typename policy_type::integral_type integral_type;
 
                         constexpr static const integral_type modulus = policy_type::modulus;
diff --git a/include/nil/crypto3/algebra/fields/detail/extension_params/bls12/fp6_3over2.hpp b/include/nil/crypto3/algebra/fields/detail/extension_params/bls12/fp6_3over2.hpp
index cb473fa..55f248c 100644
--- a/include/nil/crypto3/algebra/fields/detail/extension_params/bls12/fp6_3over2.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/extension_params/bls12/fp6_3over2.hpp
@@ -127,6 +127,7 @@ namespace nil {
                         typedef params<base_field_type> policy_type;
 
                     public:
+                        using field_type = fields::fp6_3over2<base_field_type>;
                         typedef typename policy_type::integral_type integral_type;
 
                         constexpr static const integral_type modulus = policy_type::modulus;
diff --git a/include/nil/crypto3/algebra/fields/detail/extension_params/edwards/fp3.hpp b/include/nil/crypto3/algebra/fields/detail/extension_params/edwards/fp3.hpp
index dfeff10..5395a8a 100644
--- a/include/nil/crypto3/algebra/fields/detail/extension_params/edwards/fp3.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/extension_params/edwards/fp3.hpp
@@ -53,6 +53,7 @@ namespace nil {
                         typedef params<base_field_type> policy_type;
 
                     public:
+                        using field_type = fields::fp3<base_field_type>;
                         typedef typename policy_type::integral_type integral_type;
                         typedef typename policy_type::extended_integral_type extended_integral_type;
 
diff --git a/include/nil/crypto3/algebra/fields/detail/extension_params/edwards/fp6_2over3.hpp b/include/nil/crypto3/algebra/fields/detail/extension_params/edwards/fp6_2over3.hpp
index fa964fd..a01a990 100644
--- a/include/nil/crypto3/algebra/fields/detail/extension_params/edwards/fp6_2over3.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/extension_params/edwards/fp6_2over3.hpp
@@ -36,6 +36,8 @@ namespace nil {
     namespace crypto3 {
         namespace algebra {
             namespace fields {
+                template<typename BaseField>
+                class fp6_2over3;
                 namespace detail {
 
                     template<typename BaseField>
@@ -51,6 +53,7 @@ namespace nil {
                         typedef params<base_field_type> policy_type;
 
                     public:
+                        using field_type = fields::fp6_2over3<base_field_type>;
                         typedef typename policy_type::integral_type integral_type;
 
                         constexpr static const integral_type modulus = policy_type::modulus;
diff --git a/include/nil/crypto3/algebra/fields/detail/extension_params/mnt4/fp4.hpp b/include/nil/crypto3/algebra/fields/detail/extension_params/mnt4/fp4.hpp
index 1681f2a..2c8d5b9 100644
--- a/include/nil/crypto3/algebra/fields/detail/extension_params/mnt4/fp4.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/extension_params/mnt4/fp4.hpp
@@ -36,6 +36,8 @@ namespace nil {
     namespace crypto3 {
         namespace algebra {
             namespace fields {
+                template<typename BaseField>
+                class fp4;
                 namespace detail {
 
                     template<typename BaseField>
@@ -51,6 +53,7 @@ namespace nil {
                         typedef params<base_field_type> policy_type;
 
                     public:
+                        using field_type = fields::fp4<base_field_type>;
                         typedef typename policy_type::integral_type integral_type;
 
                         constexpr static const integral_type modulus = policy_type::modulus;
diff --git a/include/nil/crypto3/algebra/fields/detail/extension_params/mnt6/fp6_2over3.hpp b/include/nil/crypto3/algebra/fields/detail/extension_params/mnt6/fp6_2over3.hpp
index 235ec33..60b1699 100644
--- a/include/nil/crypto3/algebra/fields/detail/extension_params/mnt6/fp6_2over3.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/extension_params/mnt6/fp6_2over3.hpp
@@ -36,6 +36,8 @@ namespace nil {
     namespace crypto3 {
         namespace algebra {
             namespace fields {
+                template<typename BaseField>
+                class fp6_2over3;
                 namespace detail {
 
                     template<typename BaseField>
@@ -51,6 +53,7 @@ namespace nil {
                         typedef params<base_field_type> policy_type;
 
                     public:
+                        using field_type = fields::fp6_2over3<base_field_type>;
                         typedef typename policy_type::integral_type integral_type;
 
                         constexpr static const integral_type modulus = policy_type::modulus;
-- 
2.43.0


From 5995f81adb9239bd98686d42c53c64c0b8ecd919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:16 +0000
Subject: [PATCH 22/56] fix: the size_t scalar multiplications of curve points
 are offered to field elements too, doubling an affine point over an extension
 field does not compile

---
 .../nil/crypto3/algebra/curves/detail/scalar_mul.hpp   | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/scalar_mul.hpp b/include/nil/crypto3/algebra/curves/detail/scalar_mul.hpp
index 3e1ff61..dca36fb 100644
--- a/include/nil/crypto3/algebra/curves/detail/scalar_mul.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/scalar_mul.hpp
@@ -220,13 +220,19 @@ namespace nil {
                     }
 
                     template<typename GroupValueType>
-                    constexpr GroupValueType operator*(const GroupValueType &left, const std::size_t &right) {
+                    typename std::enable_if<is_curve_group<typename GroupValueType::group_type>::value &&
+                                                !is_field<typename GroupValueType::group_type>::value,
+                                            GroupValueType>::type
+                    constexpr operator*(const GroupValueType &left, const std::size_t &right) {
 
                         return scalar_mul(left, typename GroupValueType::field_type::integral_type::value_type(right));
                     }
 
                     template<typename GroupValueType>
-                    constexpr GroupValueType operator*(const std::size_t &left, const GroupValueType &right) {
+                    typename std::enable_if<is_curve_group<typename GroupValueType::group_type>::value &&
+                                                !is_field<typename GroupValueType::group_type>::value,
+                                            GroupValueType>::type
+                    constexpr operator*(const std::size_t &left, const GroupValueType &right) {
 
                         return right * left;
                     }
-- 
2.43.0


From 411bc63ef270d159b80246ded5cb4fc875da285e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:20 +0000
Subject: [PATCH 23/56] fix: mixed_add of a Jacobian point to itself yields
 infinity instead of the doubled point

---
 .../detail/forms/short_weierstrass/jacobian/element_g1.hpp  | 6 ++++++
 .../short_weierstrass/jacobian_with_a4_0/element_g1.hpp     | 6 ++++++
 .../jacobian_with_a4_minus_3/element_g1.hpp                 | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp
index e5a2be3..bc999db 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp
@@ -321,6 +321,12 @@ namespace nil {
                                 return;
                             }
 
+                            // the mixed addition formulas do not cover doubling
+                            if (*this == other) {
+                                this->double_inplace();
+                                return;
+                            }
+
                             mixed_addition_processor::process(*this, other);
                         }
 
diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp
index 3dc7d59..9236025 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp
@@ -325,6 +325,12 @@ namespace nil {
                                 return;
                             }
 
+                            // the mixed addition formulas do not cover doubling
+                            if (*this == other) {
+                                this->double_inplace();
+                                return;
+                            }
+
                             mixed_addition_processor::process(*this, other);
                         }
 
diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
index b9fa259..96a79af 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
@@ -329,6 +329,12 @@ namespace nil {
                                 return;
                             }
 
+                            // the mixed addition formulas do not cover doubling
+                            if (*this == other) {
+                                this->double_inplace();
+                                return;
+                            }
+
                             mixed_addition_processor::process(*this, other);
                         }
 
-- 
2.43.0


From 5777a65974fe1877074a548b3a78121348e7ef7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:25 +0000
Subject: [PATCH 24/56] fix: missing quotes in the text form of
 jacobian_with_a4_0 and jacobian_with_a4_minus_3 points

---
 .../forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp   | 2 +-
 .../short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp
index 9236025..ec8ac63 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp
@@ -336,7 +336,7 @@ namespace nil {
 
                         friend std::ostream& operator<<(std::ostream& os, curve_element const& e)
                         {
-                            os << "{\"X\":" << e.X << ",Y\":" << e.Y << ",Z\":" << e.Z << "}";
+                            os << "{\"X\":" << e.X << ",\"Y\":" << e.Y << ",\"Z\":" << e.Z << "}";
                             return os;
                         }
                     };
diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
index 96a79af..b0a8386 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
@@ -340,7 +340,7 @@ namespace nil {
 
                         friend std::ostream& operator<<(std::ostream& os, curve_element const& e)
                         {
-                            os << "{\"X\":" << e.X << ",Y\":" << e.Y << ",Z\":" << e.Z << "}";
+                            os << "{\"X\":" << e.X << ",\"Y\":" << e.Y << ",\"Z\":" << e.Z << "}";
                             return os;
                         }
                     };
-- 
2.43.0


From 70a239356f073d4729dc1f0e1e302fd2b0dacd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:29 +0000
Subject: [PATCH 25/56] fix: jacobian_with_a4_minus_3 to_affine divides Y by
 Z^2 instead of Z^3

---
 .../short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
index b0a8386..126d5d6 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
@@ -216,7 +216,7 @@ namespace nil {
 
                             auto Zi = Z.inversed();
 
-                            return result_type(X * Zi * Zi, Y * Zi * Zi);    //  x=X/Z^2, y=Y/Z^3
+                            return result_type(X * Zi * Zi, Y * Zi * Zi * Zi);    //  x=X/Z^2, y=Y/Z^3
                         }
 
                         /** @brief
-- 
2.43.0


From cecd0d610e77e16af8779e82dbf86426aee4ba6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:33 +0000
Subject: [PATCH 26/56] fix: projective_with_a4_minus_3 is_well_formed checks
 y^2 = x^3 - x + b instead of y^2 = x^3 - 3x + b

---
 .../projective_with_a4_minus_3/element_g1.hpp                 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp
index 53b95a5..05351b0 100755
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp
@@ -165,13 +165,13 @@ namespace nil {
                                   z y^2 = x^3  + a z^2 x + b z^3
                                   z (y^2 - b z^2) = x ( x^2 + a z^2)
 
-                                  z (y^2 - b z^2) = x ( x^2 - z^2)
+                                  z (y^2 - b z^2) = x ( x^2 - 3 z^2)
                                 */
                                 const field_value_type X2 = this->X.squared();
                                 const field_value_type Y2 = this->Y.squared();
                                 const field_value_type Z2 = this->Z.squared();
 
-                                return (this->Z * (Y2 - params_type::b * Z2) == this->X * (X2 - Z2));
+                                return (this->Z * (Y2 - params_type::b * Z2) == this->X * (X2 - Z2.doubled() - Z2));
                             }
                         }
 
-- 
2.43.0


From 744f1abde3ec67abac8086ae48b4c060fb08fe7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:37 +0000
Subject: [PATCH 27/56] fix: doubling an affine short Weierstrass point of
 order 2 inverts zero instead of yielding infinity

---
 .../detail/forms/short_weierstrass/element_g1_affine.hpp     | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
index 6b18de7..b101c7a 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
@@ -237,7 +237,10 @@ namespace nil {
                          */
                         constexpr void double_inplace() {
 
-                            if (!this->is_zero()) {
+                            if (Y.is_zero()) {
+                                // a point of order 2, the tangent is vertical
+                                *this = zero();
+                            } else if (!this->is_zero()) {
                                 field_value_type Xsquared3pa = 3u * X.squared() + params_type::a;
                                 field_value_type Y2squared = Y.doubled().squared();
                                 field_value_type Y2i = Y.doubled().inversed();
-- 
2.43.0


From 16839fc56e7e6e403009bb9b8b1d1c2699841d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:32 +0000
Subject: [PATCH 28/56] fix: negating the affine infinity marker (0, 1) yields
 (0, -1), which is not infinity

---
 .../detail/forms/short_weierstrass/element_g1_affine.hpp      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
index b101c7a..607884d 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
@@ -218,6 +218,10 @@ namespace nil {
 
 
                         constexpr curve_element operator-() const {
+                            if (this->is_zero()) {
+                                return *this;
+                            }
+
                             return curve_element(this->X, -this->Y);
                         }
 
-- 
2.43.0


From a0f6719707748eb2b36f86694404886346ba4b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:12 +0000
Subject: [PATCH 29/56] fix: negating the Montgomery point at infinity yields a
 finite point

---
 .../curves/detail/forms/montgomery/element_g1_affine.hpp      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp b/include/nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp
index 8cd3d7b..60a57be 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp
@@ -251,6 +251,10 @@ namespace nil {
                          * @return negative element from group G1
                          */
                         constexpr curve_element operator-() const {
+                            if (this->is_zero()) {
+                                return *this;
+                            }
+
                             return curve_element(this->X, -(this->Y));
                         }
 
-- 
2.43.0


From 140286aa0185b6916536acae0203ae0bfd246d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:15 +0000
Subject: [PATCH 30/56] fix: to_inverted of the neutral twisted Edwards point
 inverts zero instead of yielding the neutral point

---
 .../curves/detail/forms/twisted_edwards/element_g1_affine.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp b/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp
index 2bbbbde..411d5f3 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp
@@ -194,6 +194,10 @@ namespace nil {
                             using result_type =
                                 curve_element<params_type, form, typename curves::coordinates::inverted>;
 
+                            if (this->is_zero()) {
+                                return result_type::zero();
+                            }
+
                             return result_type(
                                 X.inversed(), Y.inversed(),
                                 result_type::field_type::value_type::one());    // X = x^(-1), Y = y^(-1), Z = 1
-- 
2.43.0


From 3e6e1c02923ac8c1132ea62a0e5de5683495ec30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:19 +0000
Subject: [PATCH 31/56] fix: mixed_add of extended twisted Edwards points
 yields an invalid point when the points are equal or differ by a point of
 order 2 or 4

---
 .../extended_with_a_minus_1/element_g1.hpp                | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp
index 935dcb9..bdfad20 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp
@@ -302,7 +302,15 @@ namespace nil {
                                 return;
                             }
 
+                            const curve_element summand = *this;
                             mixed_addition_processor::process(*this, other);
+
+                            // the dedicated mixed addition formulas do not cover doubling and sums of points that differ
+                            // by a point of order 2 or 4
+                            if (this->Z.is_zero()) {
+                                *this = summand;
+                                *this += other;
+                            }
                         }
 
                         friend std::ostream& operator<<(std::ostream& os, curve_element const& e)
-- 
2.43.0


From 4a6e67b873efb56602763d567eb957cfc9ec2ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:40 +0000
Subject: [PATCH 32/56] fix: give the Fp2 groups of bls12 and alt_bn128 an Fp2
 coefficient a

---
 .../curves/detail/alt_bn128/254/short_weierstrass_params.hpp     | 1 +
 .../algebra/curves/detail/bls12/377/short_weierstrass_params.hpp | 1 +
 .../algebra/curves/detail/bls12/381/short_weierstrass_params.hpp | 1 +
 3 files changed, 3 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/alt_bn128/254/short_weierstrass_params.hpp b/include/nil/crypto3/algebra/curves/detail/alt_bn128/254/short_weierstrass_params.hpp
index 182890a..7eb4e4e 100644
--- a/include/nil/crypto3/algebra/curves/detail/alt_bn128/254/short_weierstrass_params.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/alt_bn128/254/short_weierstrass_params.hpp
@@ -83,6 +83,7 @@ namespace nil {
 
                         constexpr static const typename field_type::value_type twist =
                             typename field_type::value_type(0x09u, 0x01u);
+                        constexpr static const typename field_type::value_type a = field_type::value_type::zero();
                         constexpr static const typename field_type::value_type::underlying_type g1_b =
                             typename field_type::value_type::underlying_type(b);
                         constexpr static const typename field_type::value_type b = g1_b * twist.inversed();
diff --git a/include/nil/crypto3/algebra/curves/detail/bls12/377/short_weierstrass_params.hpp b/include/nil/crypto3/algebra/curves/detail/bls12/377/short_weierstrass_params.hpp
index 3decc06..66f3eb4 100644
--- a/include/nil/crypto3/algebra/curves/detail/bls12/377/short_weierstrass_params.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/bls12/377/short_weierstrass_params.hpp
@@ -87,6 +87,7 @@ namespace nil {
                         constexpr static const typename field_type::value_type twist =
                             typename field_type::value_type(field_type::value_type::underlying_type::zero(),
                                                             field_type::value_type::underlying_type::one());
+                        constexpr static const typename field_type::value_type a = field_type::value_type::zero();
                         constexpr static const typename field_type::value_type::underlying_type g1_b =
                             typename field_type::value_type::underlying_type(b);
                         constexpr static const typename field_type::value_type b = g1_b * twist.inversed();
diff --git a/include/nil/crypto3/algebra/curves/detail/bls12/381/short_weierstrass_params.hpp b/include/nil/crypto3/algebra/curves/detail/bls12/381/short_weierstrass_params.hpp
index 3a79fd3..4eefb46 100644
--- a/include/nil/crypto3/algebra/curves/detail/bls12/381/short_weierstrass_params.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/bls12/381/short_weierstrass_params.hpp
@@ -84,6 +84,7 @@ namespace nil {
                         constexpr static const typename field_type::value_type twist =
                             typename field_type::value_type(field_type::value_type::underlying_type::one(),
                                                             field_type::value_type::underlying_type::one());
+                        constexpr static const typename field_type::value_type a = field_type::value_type::zero();
                         constexpr static const typename field_type::value_type::underlying_type g1_b =
                             typename field_type::value_type::underlying_type(b);
                         constexpr static const typename field_type::value_type b = g1_b * twist;
-- 
2.43.0


From 17f1d428aee7e3f10f08d34d3092c5f646c4aee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:16 +0000
Subject: [PATCH 33/56] fix: check the twisted equation in Edwards G2
 is_well_formed

---
 .../nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp b/include/nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp
index 27b8893..ee8bbf2 100644
--- a/include/nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp
@@ -119,7 +119,7 @@ namespace nil {
                         /** @brief
                          *
                          * @return true if element from group G2 lies on the elliptic curve
-                         * a*x^2 + y^2 = 1 + d*x^2*y^2
+                         * a*x^2 + y^2 = 1 + d*x^2*y^2, where a and d are the coefficients of the twist
                          * x = Z/X, y = Z/Y
                          * a * Z^2/X^2 + Z^2/Y^2 == 1 + d * Z^4 / X^2 / Y^2
                          * a * Z^2 * Y^2 + Z^2 * X^2 == X^2 * Y^2 + d * Z^4
@@ -133,7 +133,7 @@ namespace nil {
                                 const auto Y2 = this->Y.squared();
                                 const auto Z2 = this->Z.squared();
 
-                                return (policy_type::a * Z2*Y2 + Z2*X2 == X2*Y2 + policy_type::d * Z2*Z2);
+                                return (mul_by_a(Z2*Y2) + Z2*X2 == X2*Y2 + mul_by_d(Z2*Z2));
                             }
                         }
 
-- 
2.43.0


From 29820e6df96f2e39e18231e923257ebf2fbc1fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:10 +0000
Subject: [PATCH 34/56] fix: secp_r1 scalar field of version 160 named a
 missing field in its element type

---
 .../nil/crypto3/algebra/fields/secp/secp_r1/scalar_field.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/fields/secp/secp_r1/scalar_field.hpp b/include/nil/crypto3/algebra/fields/secp/secp_r1/scalar_field.hpp
index 8ca3869..2fcb92f 100644
--- a/include/nil/crypto3/algebra/fields/secp/secp_r1/scalar_field.hpp
+++ b/include/nil/crypto3/algebra/fields/secp/secp_r1/scalar_field.hpp
@@ -68,7 +68,7 @@ namespace nil {
                             boost::multiprecision::backends::modular_params_ct<modular_backend, modulus_params>>>
                         modular_type;
 
-                    typedef typename detail::element_fp<params<secp_r1_scalar_field<161>>> value_type;
+                    typedef typename detail::element_fp<params<secp_r1_scalar_field<160>>> value_type;
 
                     constexpr static const std::size_t value_bits = modulus_bits;
                     constexpr static const std::size_t arity = 1;
-- 
2.43.0


From 9c66eebdeeba450d99c719021de2085fb997b556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:31 +0000
Subject: [PATCH 35/56] fix: arithmetic_params of edwards and bn128 did not
 compile (definitions without their template)

---
 .../fields/arithmetic_params/bn128.hpp        | 18 ++++++++---------
 .../fields/arithmetic_params/edwards.hpp      | 20 +++++++++----------
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/include/nil/crypto3/algebra/fields/arithmetic_params/bn128.hpp b/include/nil/crypto3/algebra/fields/arithmetic_params/bn128.hpp
index 17a1939..b288aef 100644
--- a/include/nil/crypto3/algebra/fields/arithmetic_params/bn128.hpp
+++ b/include/nil/crypto3/algebra/fields/arithmetic_params/bn128.hpp
@@ -39,10 +39,10 @@ namespace nil {
         namespace algebra {
             namespace fields {
 
-                template<std::size_t Version>
-                struct arithmetic_params<bn128_base_field<Version>> : public params<bn128_base_field<Version>> {
+                template<>
+                struct arithmetic_params<bn128_base_field<254>> : public params<bn128_base_field<254>> {
                 private:
-                    typedef params<bn128_base_field<Version>> policy_type;
+                    typedef params<bn128_base_field<254>> policy_type;
 
                 public:
                     typedef typename policy_type::modular_type modular_type;
@@ -72,10 +72,10 @@ namespace nil {
                         0x183227397098D014DC2822DB40C0AC2ECBC0B548B438E5469E10460B6C3E7EA3_cppui_modular254;
                 };
 
-                template<std::size_t Version>
-                struct arithmetic_params<fp2<bn128_base_field<Version>>> : public params<bn128_base_field<Version>> {
+                template<>
+                struct arithmetic_params<fp2<bn128_base_field<254>>> : public params<bn128_base_field<254>> {
                 private:
-                    typedef params<bn128_base_field<Version>> policy_type;
+                    typedef params<bn128_base_field<254>> policy_type;
 
                 public:
                     typedef typename policy_type::modular_type modular_type;
@@ -98,10 +98,10 @@ namespace nil {
                         0x492E25C3B1E5FCE2CCD37BE01A4690E5805C2A88B1BAB031376FD2E1A6359C682344F4ABD09216425280C4E36CB656E5301039684F560809DAA2C5113AEB4D8_cppui_modular507;
                 };
 
-                template<std::size_t Version>
-                struct arithmetic_params<bn128_scalar_field<Version>> : public params<bn128_scalar_field<Version>> {
+                template<>
+                struct arithmetic_params<bn128_scalar_field<254>> : public params<bn128_scalar_field<254>> {
                 private:
-                    typedef params<bn128_scalar_field<Version>> policy_type;
+                    typedef params<bn128_scalar_field<254>> policy_type;
 
                 public:
                     typedef typename policy_type::modular_type modular_type;
diff --git a/include/nil/crypto3/algebra/fields/arithmetic_params/edwards.hpp b/include/nil/crypto3/algebra/fields/arithmetic_params/edwards.hpp
index 9144052..f560b9b 100644
--- a/include/nil/crypto3/algebra/fields/arithmetic_params/edwards.hpp
+++ b/include/nil/crypto3/algebra/fields/arithmetic_params/edwards.hpp
@@ -39,10 +39,10 @@ namespace nil {
         namespace algebra {
             namespace fields {
 
-                template<std::size_t Version>
-                struct arithmetic_params<edwards_base_field<Version>> : public params<edwards_base_field<Version>> {
+                template<>
+                struct arithmetic_params<edwards_base_field<183>> : public params<edwards_base_field<183>> {
                 private:
-                    typedef params<edwards_base_field<Version>> policy_type;
+                    typedef params<edwards_base_field<183>> policy_type;
 
                 public:
                     typedef typename policy_type::modular_type modular_type;
@@ -71,11 +71,11 @@ namespace nil {
                         0x206AFE4E951CAD89C5C9276B1A16A0DB75B485C0000000_cppui_modular182;
                 };
 
-                template<std::size_t Version>
-                struct arithmetic_params<fp3<edwards_base_field<Version>>>
-                    : public params<edwards_base_field<Version>> {
+                template<>
+                struct arithmetic_params<fp3<edwards_base_field<183>>>
+                    : public params<edwards_base_field<183>> {
                 private:
-                    typedef params<edwards_base_field<Version>> policy_type;
+                    typedef params<edwards_base_field<183>> policy_type;
 
                 public:
                     typedef typename policy_type::modular_type modular_type;
@@ -97,10 +97,10 @@ namespace nil {
                         0x214530CDE421990256A87901DDC6307E4ED27FAF4F877968EFCA129EF23243B915EF074F565027DAA0127ECF4EC788245754250524EA78AD2C1A16B28F2611D9140000000_cppui_modular546;
                 };
 
-                template<std::size_t Version>
-                struct arithmetic_params<edwards_scalar_field<Version>> : public params<edwards_scalar_field<Version>> {
+                template<>
+                struct arithmetic_params<edwards_scalar_field<183>> : public params<edwards_scalar_field<183>> {
                 private:
-                    typedef params<edwards_scalar_field<Version>> policy_type;
+                    typedef params<edwards_scalar_field<183>> policy_type;
 
                 public:
                     typedef typename policy_type::modular_type modular_type;
-- 
2.43.0


From df2af54aa923636b4d352881efc071d92a10bc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:10 +0000
Subject: [PATCH 36/56] fix: get_exp_window_size read outside the table for
 fewer scalars than its first threshold

---
 include/nil/crypto3/algebra/multiexp/multiexp.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/multiexp/multiexp.hpp b/include/nil/crypto3/algebra/multiexp/multiexp.hpp
index 281b954..73a0429 100644
--- a/include/nil/crypto3/algebra/multiexp/multiexp.hpp
+++ b/include/nil/crypto3/algebra/multiexp/multiexp.hpp
@@ -126,8 +126,7 @@ namespace nil {
 
                 std::size_t window = 1;
 
-                for (std::size_t i = curves::multiexp_params<GroupType>::fixed_base_exp_window_table.size() - 1; i >= 0;
-                     --i) {
+                for (long i = curves::multiexp_params<GroupType>::fixed_base_exp_window_table.size() - 1; i >= 0; --i) {
                     if (curves::multiexp_params<GroupType>::fixed_base_exp_window_table[i] != 0 &&
                         num_scalars >= curves::multiexp_params<GroupType>::fixed_base_exp_window_table[i]) {
                         window = i + 1;
-- 
2.43.0


From a640ccc621a185e6959cd176aa1d3ea9ac15fbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:21 +0000
Subject: [PATCH 37/56] fix: bos_coster multiexp of two or more zero scalars
 threw instead of returning zero

---
 include/nil/crypto3/algebra/multiexp/policies.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/nil/crypto3/algebra/multiexp/policies.hpp b/include/nil/crypto3/algebra/multiexp/policies.hpp
index 03bba5a..9dd4c15 100644
--- a/include/nil/crypto3/algebra/multiexp/policies.hpp
+++ b/include/nil/crypto3/algebra/multiexp/policies.hpp
@@ -269,6 +269,11 @@ namespace nil {
                             detail::ordered_exponent<non_fixed_precision_number_type> &b =
                                 (opt_q[1] < opt_q[2] ? opt_q[2] : opt_q[1]);
 
+                            if (a.r.is_zero()) {
+                                // all scalars are zero, and msb doesn't work for a zero value
+                                break;
+                            }
+
                             const std::size_t abits = boost::multiprecision::msb(a.r) + 1;
 
                             if (b.r.is_zero()) {
-- 
2.43.0


From 910a8c9206e3ea64e71e5c55f6f5efe9fde606a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:44 +0000
Subject: [PATCH 38/56] fix: pairing with the point at infinity of G2 is one

---
 .../pairing/edwards/183/ate_double_miller_loop.hpp       | 9 +++++++++
 .../algebra/pairing/edwards/183/ate_miller_loop.hpp      | 5 +++++
 .../algebra/pairing/edwards/183/ate_precompute_g2.hpp    | 5 +++++
 .../jacobian_with_a4_0/ate_double_miller_loop.hpp        | 9 +++++++++
 .../jacobian_with_a4_0/ate_miller_loop.hpp               | 5 +++++
 .../jacobian_with_a4_0/ate_precompute_g2.hpp             | 5 +++++
 .../short_weierstrass/projective/ate_precompute_g2.hpp   | 5 +++++
 .../algebra/pairing/mnt4/298/ate_double_miller_loop.hpp  | 9 +++++++++
 .../crypto3/algebra/pairing/mnt4/298/ate_miller_loop.hpp | 5 +++++
 .../algebra/pairing/mnt6/298/ate_double_miller_loop.hpp  | 9 +++++++++
 .../crypto3/algebra/pairing/mnt6/298/ate_miller_loop.hpp | 5 +++++
 11 files changed, 71 insertions(+)

diff --git a/include/nil/crypto3/algebra/pairing/edwards/183/ate_double_miller_loop.hpp b/include/nil/crypto3/algebra/pairing/edwards/183/ate_double_miller_loop.hpp
index 8506292..9a7d6d7 100644
--- a/include/nil/crypto3/algebra/pairing/edwards/183/ate_double_miller_loop.hpp
+++ b/include/nil/crypto3/algebra/pairing/edwards/183/ate_double_miller_loop.hpp
@@ -32,6 +32,7 @@
 #include <nil/crypto3/algebra/curves/edwards.hpp>
 #include <nil/crypto3/algebra/pairing/detail/edwards/183/params.hpp>
 #include <nil/crypto3/algebra/pairing/detail/edwards/183/types.hpp>
+#include <nil/crypto3/algebra/pairing/edwards/183/ate_miller_loop.hpp>
 
 namespace nil {
     namespace crypto3 {
@@ -56,6 +57,14 @@ namespace nil {
                                 const typename policy_type::ate_g1_precomputed_type &prec_P2,
                                 const typename policy_type::ate_g2_precomputed_type &prec_Q2) {
 
+                        // pairing with the neutral element of G2 contributes nothing
+                        if (prec_Q1.empty()) {
+                            return edwards_ate_miller_loop<183>::process(prec_P2, prec_Q2);
+                        }
+                        if (prec_Q2.empty()) {
+                            return edwards_ate_miller_loop<183>::process(prec_P1, prec_Q1);
+                        }
+
                         typename gt_type::value_type f = gt_type::value_type::one();
 
                         bool found_one = false;
diff --git a/include/nil/crypto3/algebra/pairing/edwards/183/ate_miller_loop.hpp b/include/nil/crypto3/algebra/pairing/edwards/183/ate_miller_loop.hpp
index 0333c9c..4234b76 100644
--- a/include/nil/crypto3/algebra/pairing/edwards/183/ate_miller_loop.hpp
+++ b/include/nil/crypto3/algebra/pairing/edwards/183/ate_miller_loop.hpp
@@ -53,6 +53,11 @@ namespace nil {
                     static typename gt_type::value_type process(const policy_type::ate_g1_precomputed_type &prec_P,
                                                                 const policy_type::ate_g2_precomputed_type &prec_Q) {
 
+                        if (prec_Q.empty()) {
+                            // pairing with the neutral element of G2
+                            return gt_type::value_type::one();
+                        }
+
                         typename gt_type::value_type f = gt_type::value_type::one();
 
                         bool found_one = false;
diff --git a/include/nil/crypto3/algebra/pairing/edwards/183/ate_precompute_g2.hpp b/include/nil/crypto3/algebra/pairing/edwards/183/ate_precompute_g2.hpp
index b9ec6cc..e0b3c2b 100644
--- a/include/nil/crypto3/algebra/pairing/edwards/183/ate_precompute_g2.hpp
+++ b/include/nil/crypto3/algebra/pairing/edwards/183/ate_precompute_g2.hpp
@@ -165,6 +165,11 @@ namespace nil {
                     static g2_precomputed_type process(const typename g2_type::value_type &Q) {
 
                         g2_precomputed_type result;
+                        if (Q.is_zero()) {
+                            // no line coefficients stand for the neutral element
+                            return result;
+                        }
+
                         typename g2_affine_type::value_type Qcopy = Q.to_affine();
                         extended_g2_projective Q_ext;
                         Q_ext.X = Qcopy.X;
diff --git a/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/jacobian_with_a4_0/ate_double_miller_loop.hpp b/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/jacobian_with_a4_0/ate_double_miller_loop.hpp
index bde1c27..340bfb6 100644
--- a/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/jacobian_with_a4_0/ate_double_miller_loop.hpp
+++ b/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/jacobian_with_a4_0/ate_double_miller_loop.hpp
@@ -30,6 +30,7 @@
 #include <nil/crypto3/multiprecision/cpp_int_modular.hpp>
 
 #include <nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/jacobian_with_a4_0/types.hpp>
+#include <nil/crypto3/algebra/pairing/forms/short_weierstrass/jacobian_with_a4_0/ate_miller_loop.hpp>
 
 namespace nil {
     namespace crypto3 {
@@ -52,6 +53,14 @@ namespace nil {
                                 const typename policy_type::ate_g1_precomputed_type &prec_P2,
                                 const typename policy_type::ate_g2_precomputed_type &prec_Q2) {
 
+                        // pairing with the neutral element of G2 contributes nothing
+                        if (prec_Q1.coeffs.empty()) {
+                            return short_weierstrass_jacobian_with_a4_0_ate_miller_loop<curve_type>::process(prec_P2, prec_Q2);
+                        }
+                        if (prec_Q2.coeffs.empty()) {
+                            return short_weierstrass_jacobian_with_a4_0_ate_miller_loop<curve_type>::process(prec_P1, prec_Q1);
+                        }
+
                         typename gt_type::value_type f = gt_type::value_type::one();
 
                         bool found_one = false;
diff --git a/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/jacobian_with_a4_0/ate_miller_loop.hpp b/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/jacobian_with_a4_0/ate_miller_loop.hpp
index 4a8cdba..ffea35d 100644
--- a/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/jacobian_with_a4_0/ate_miller_loop.hpp
+++ b/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/jacobian_with_a4_0/ate_miller_loop.hpp
@@ -50,6 +50,11 @@ namespace nil {
                         process(const typename policy_type::ate_g1_precomputed_type &prec_P,
                                 const typename policy_type::ate_g2_precomputed_type &prec_Q) {
 
+                        if (prec_Q.coeffs.empty()) {
+                            // pairing with the neutral element of G2
+                            return gt_type::value_type::one();
+                        }
+
                         typename gt_type::value_type f = gt_type::value_type::one();
 
                         bool found_one = false;
diff --git a/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/jacobian_with_a4_0/ate_precompute_g2.hpp b/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/jacobian_with_a4_0/ate_precompute_g2.hpp
index 4aa8568..279184f 100644
--- a/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/jacobian_with_a4_0/ate_precompute_g2.hpp
+++ b/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/jacobian_with_a4_0/ate_precompute_g2.hpp
@@ -104,6 +104,11 @@ namespace nil {
 
                     static g2_precomputed_type process(const typename g2_type::value_type &Q) {
 
+                        if (Q.is_zero()) {
+                            // no line coefficients stand for the point at infinity
+                            return g2_precomputed_type();
+                        }
+
                         typename g2_affine_type::value_type Qcopy = Q.to_affine();
 
                         typename base_field_type::value_type two_inv =
diff --git a/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/projective/ate_precompute_g2.hpp b/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/projective/ate_precompute_g2.hpp
index 10a892c..197d86c 100644
--- a/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/projective/ate_precompute_g2.hpp
+++ b/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/projective/ate_precompute_g2.hpp
@@ -115,6 +115,11 @@ namespace nil {
 
                     static g2_precomputed_type process(const typename g2_type::value_type &Q) {
 
+                        if (Q.is_zero()) {
+                            // no line coefficients stand for the point at infinity
+                            return g2_precomputed_type();
+                        }
+
                         typename g2_affine_type::value_type Qcopy = Q.to_affine();
 
                         g2_field_type_value twist_inv =
diff --git a/include/nil/crypto3/algebra/pairing/mnt4/298/ate_double_miller_loop.hpp b/include/nil/crypto3/algebra/pairing/mnt4/298/ate_double_miller_loop.hpp
index ab82064..aa49005 100644
--- a/include/nil/crypto3/algebra/pairing/mnt4/298/ate_double_miller_loop.hpp
+++ b/include/nil/crypto3/algebra/pairing/mnt4/298/ate_double_miller_loop.hpp
@@ -32,6 +32,7 @@
 #include <nil/crypto3/algebra/curves/mnt4.hpp>
 #include <nil/crypto3/algebra/pairing/detail/mnt4/298/params.hpp>
 #include <nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/projective/types.hpp>
+#include <nil/crypto3/algebra/pairing/mnt4/298/ate_miller_loop.hpp>
 
 namespace nil {
     namespace crypto3 {
@@ -63,6 +64,14 @@ namespace nil {
                                 const typename policy_type::ate_g1_precomputed_type &prec_P2,
                                 const typename policy_type::ate_g2_precomputed_type &prec_Q2) {
 
+                        // pairing with the neutral element of G2 contributes nothing
+                        if (prec_Q1.dbl_coeffs.empty()) {
+                            return mnt4_ate_miller_loop<298>::process(prec_P2, prec_Q2);
+                        }
+                        if (prec_Q2.dbl_coeffs.empty()) {
+                            return mnt4_ate_miller_loop<298>::process(prec_P1, prec_Q1);
+                        }
+
                         g2_field_type_value L1_coeff1 =
                             g2_field_type_value(prec_P1.PX, g1_field_type_value::zero()) - prec_Q1.QX_over_twist;
                         g2_field_type_value L1_coeff2 =
diff --git a/include/nil/crypto3/algebra/pairing/mnt4/298/ate_miller_loop.hpp b/include/nil/crypto3/algebra/pairing/mnt4/298/ate_miller_loop.hpp
index df5d2b6..0003ee9 100644
--- a/include/nil/crypto3/algebra/pairing/mnt4/298/ate_miller_loop.hpp
+++ b/include/nil/crypto3/algebra/pairing/mnt4/298/ate_miller_loop.hpp
@@ -60,6 +60,11 @@ namespace nil {
                     static typename gt_type::value_type process(const policy_type::ate_g1_precomputed_type &prec_P,
                                                                 const policy_type::ate_g2_precomputed_type &prec_Q) {
 
+                        if (prec_Q.dbl_coeffs.empty()) {
+                            // pairing with the neutral element of G2
+                            return gt_type::value_type::one();
+                        }
+
                         g2_field_type_value L1_coeff =
                             g2_field_type_value(prec_P.PX, g1_field_type_value::zero()) -
                             prec_Q.QX_over_twist;
diff --git a/include/nil/crypto3/algebra/pairing/mnt6/298/ate_double_miller_loop.hpp b/include/nil/crypto3/algebra/pairing/mnt6/298/ate_double_miller_loop.hpp
index 1d3b223..73c9321 100644
--- a/include/nil/crypto3/algebra/pairing/mnt6/298/ate_double_miller_loop.hpp
+++ b/include/nil/crypto3/algebra/pairing/mnt6/298/ate_double_miller_loop.hpp
@@ -32,6 +32,7 @@
 #include <nil/crypto3/algebra/curves/mnt6.hpp>
 #include <nil/crypto3/algebra/pairing/detail/mnt6/298/params.hpp>
 #include <nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/projective/types.hpp>
+#include <nil/crypto3/algebra/pairing/mnt6/298/ate_miller_loop.hpp>
 
 namespace nil {
     namespace crypto3 {
@@ -63,6 +64,14 @@ namespace nil {
                                 const typename policy_type::ate_g1_precomputed_type &prec_P2,
                                 const typename policy_type::ate_g2_precomputed_type &prec_Q2) {
 
+                        // pairing with the neutral element of G2 contributes nothing
+                        if (prec_Q1.dbl_coeffs.empty()) {
+                            return mnt6_ate_miller_loop<298>::process(prec_P2, prec_Q2);
+                        }
+                        if (prec_Q2.dbl_coeffs.empty()) {
+                            return mnt6_ate_miller_loop<298>::process(prec_P1, prec_Q1);
+                        }
+
                         g2_field_type_value L1_coeff1 =
                             g2_field_type_value(prec_P1.PX, g1_field_type_value::zero(), g1_field_type_value::zero()) -
                             prec_Q1.QX_over_twist;
diff --git a/include/nil/crypto3/algebra/pairing/mnt6/298/ate_miller_loop.hpp b/include/nil/crypto3/algebra/pairing/mnt6/298/ate_miller_loop.hpp
index 52b7f1a..46d5bb9 100644
--- a/include/nil/crypto3/algebra/pairing/mnt6/298/ate_miller_loop.hpp
+++ b/include/nil/crypto3/algebra/pairing/mnt6/298/ate_miller_loop.hpp
@@ -69,6 +69,11 @@ namespace nil {
                             const policy_type::ate_g1_precomputed_type &prec_P,
                             const policy_type::ate_g2_precomputed_type &prec_Q) {
 
+                        if (prec_Q.dbl_coeffs.empty()) {
+                            // pairing with the neutral element of G2
+                            return gt_type::value_type::one();
+                        }
+
                         g2_field_type_value L1_coeff =
                             g2_field_type_value(prec_P.PX, g1_field_type_value::zero(), g1_field_type_value::zero()) -
                             prec_Q.QX_over_twist;
-- 
2.43.0


From 78204f82505ee9fc4ce20bcb2dc56a6bf4f8dbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:32 +0000
Subject: [PATCH 39/56] fix: the text form of precomputed G2 points ended its
 coefficient lists with a comma

---
 .../forms/short_weierstrass/jacobian_with_a4_0/types.hpp      | 2 +-
 .../detail/forms/short_weierstrass/projective/types.hpp       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/jacobian_with_a4_0/types.hpp b/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/jacobian_with_a4_0/types.hpp
index fdf3d17..2846f14 100644
--- a/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/jacobian_with_a4_0/types.hpp
+++ b/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/jacobian_with_a4_0/types.hpp
@@ -99,7 +99,7 @@ namespace nil {
                                 << "\"coeffs\":[" << std::endl;
                             for(auto d = p.coeffs.begin(); d != p.coeffs.end(); ++d) {
                                 os << "[" << d->ell_0 << "," << d->ell_VW << "," << d->ell_VV << "]";
-                                if (d != p.coeffs.end()) {
+                                if (d + 1 != p.coeffs.end()) {
                                     os << "," << std::endl;
                                 }
                             }
diff --git a/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/projective/types.hpp b/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/projective/types.hpp
index d798a13..8bb13ae 100644
--- a/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/projective/types.hpp
+++ b/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/projective/types.hpp
@@ -150,14 +150,14 @@ namespace nil {
                                 << "\"dbl_coeffs\":[" << std::endl;
                             for(auto d = p.dbl_coeffs.begin(); d != p.dbl_coeffs.end(); ++d) {
                                 os << "[" << d->c_H << "," << d->c_4C << "," << d->c_J << "," << d->c_L << "]";
-                                if (d != p.dbl_coeffs.end()) {
+                                if (d + 1 != p.dbl_coeffs.end()) {
                                     os << "," << std::endl;
                                 }
                             }
                             os << "]," << std::endl << "\"add_coeffs\":[" << std::endl;
                             for(auto a = p.add_coeffs.begin(); a != p.add_coeffs.end(); ++a) {
                                 os << "[" << a->c_L1 << "," << a->c_RZ << "]";
-                                if (a != p.add_coeffs.end()) {
+                                if (a + 1 != p.add_coeffs.end()) {
                                     os << "," << std::endl;;
                                 }
                             }
-- 
2.43.0


From b2cd1d041be87e6fb5c165bf5ad2bc3fc7bc7a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:00 +0000
Subject: [PATCH 40/56] fix: random field elements were drawn from [0, p],
 making zero twice as likely

---
 include/nil/crypto3/algebra/random_element.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/random_element.hpp b/include/nil/crypto3/algebra/random_element.hpp
index a22b67c..6ca1657 100644
--- a/include/nil/crypto3/algebra/random_element.hpp
+++ b/include/nil/crypto3/algebra/random_element.hpp
@@ -60,7 +60,7 @@ namespace nil {
                 using field_type = FieldType;
                 using distribution_type = DistributionType;
 
-                distribution_type d(0, field_type::modulus);
+                distribution_type d(0, field_type::modulus - 1);
 
                 // boost::random_device rd;
                 // rd.seed(time(0));
-- 
2.43.0


From f8eb0be8a972eae333098150d2ccf559099574f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:05 +0000
Subject: [PATCH 41/56] fix: is_curve was false for every shipped curve,
 is_group_element for the Edwards G2 elements

---
 include/nil/crypto3/algebra/type_traits.hpp | 26 ++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/type_traits.hpp b/include/nil/crypto3/algebra/type_traits.hpp
index 303fcca..94e39df 100644
--- a/include/nil/crypto3/algebra/type_traits.hpp
+++ b/include/nil/crypto3/algebra/type_traits.hpp
@@ -27,6 +27,7 @@
 #define CRYPTO3_ALGEBRA_TYPE_TRAITS_HPP
 
 #include <complex>
+#include <type_traits>
 
 #include <boost/type_traits.hpp>
 #include <boost/tti/tti.hpp>
@@ -75,10 +76,25 @@ namespace nil {
             BOOST_TTI_HAS_FUNCTION(double_inplace)
             BOOST_TTI_HAS_FUNCTION(mixed_add)
 
+            // the group types of a curve may be templates over coordinates and form
+            template<template<typename...> class GroupType>
+            struct group_template;
+
+            template<typename T, typename = void>
+            struct has_template_g1_type : std::false_type { };
+            template<typename T>
+            struct has_template_g1_type<T, std::void_t<group_template<T::template g1_type>>> : std::true_type { };
+
+            template<typename T, typename = void>
+            struct has_template_g2_type : std::false_type { };
+            template<typename T>
+            struct has_template_g2_type<T, std::void_t<group_template<T::template g2_type>>> : std::true_type { };
+
             template<typename T>
             struct is_curve {
                 static const bool value = has_type_base_field_type<T>::value && has_type_scalar_field_type<T>::value &&
-                                          has_type_g1_type<T>::value && has_type_g2_type<T>::value &&
+                                          (has_type_g1_type<T>::value || has_template_g1_type<T>::value) &&
+                                          (has_type_g2_type<T>::value || has_template_g2_type<T>::value) &&
                                           has_type_gt_type<T>::value;
                 typedef T type;
             };
@@ -131,6 +147,9 @@ namespace nil {
                 namespace detail {
                     template<typename CurveParams, typename Form, typename Coordinates>
                     class curve_element;
+
+                    template<std::size_t Version>
+                    class element_edwards_g2;
                 }    // namespace detail
             }        // namespace curves
 
@@ -139,6 +158,11 @@ namespace nil {
                 static const bool value = true;
             };
 
+            template<std::size_t Version>
+            struct is_group_element<curves::detail::element_edwards_g2<Version>> {
+                static const bool value = true;
+            };
+
             namespace fields {
                 namespace detail {
                     template<typename FieldParams>
-- 
2.43.0


From f01a4bb068b51fa5899847a5ef1a707692650fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:09 +0000
Subject: [PATCH 42/56] fix: has_generate and has_check never looked at the
 type, so is_passhash was always false

---
 include/nil/crypto3/detail/type_traits.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/detail/type_traits.hpp b/include/nil/crypto3/detail/type_traits.hpp
index a6662e7..05c2aae 100644
--- a/include/nil/crypto3/detail/type_traits.hpp
+++ b/include/nil/crypto3/detail/type_traits.hpp
@@ -99,7 +99,10 @@
             void Function(##__VA_ARGS__);                                            \
         };                                                                           \
                                                                                      \
-        struct Derived : Fallback { };                                               \
+        struct Dummy { };                                                            \
+        typedef typename std::conditional<std::is_class<T>::value, T, Dummy>::type TType; \
+                                                                                     \
+        struct Derived : TType, Fallback { };                                        \
                                                                                      \
         template<typename C, C>                                                      \
         struct ChT;                                                                  \
@@ -121,7 +124,10 @@
             void Function(##__VA_ARGS__) const;                                            \
         };                                                                                 \
                                                                                            \
-        struct Derived : Fallback { };                                                     \
+        struct Dummy { };                                                                  \
+        typedef typename std::conditional<std::is_class<T>::value, T, Dummy>::type TType;  \
+                                                                                           \
+        struct Derived : TType, Fallback { };                                              \
                                                                                            \
         template<typename C, C>                                                            \
         struct ChT;                                                                        \
-- 
2.43.0


From c62a04786637f557ca3a832583ecec227b6eba42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:26 +0000
Subject: [PATCH 43/56] fix: iso_map sent the kernel of the isogeny to the
 generator instead of infinity

---
 include/nil/crypto3/algebra/curves/detail/h2c/h2c_iso_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/h2c/h2c_iso_map.hpp b/include/nil/crypto3/algebra/curves/detail/h2c/h2c_iso_map.hpp
index 559116c..fee4cda 100644
--- a/include/nil/crypto3/algebra/curves/detail/h2c/h2c_iso_map.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/h2c/h2c_iso_map.hpp
@@ -139,7 +139,7 @@ namespace nil {
                             y_den += xi_powers[k_y_den.size()];
 
                             if (x_den.is_zero() || y_den.is_zero()) {
-                                return group_value_type::one();
+                                return group_value_type::zero();
                             }
 
                             for (std::size_t i = 0; i < k_x_num.size(); i++) {
@@ -226,7 +226,7 @@ namespace nil {
                             y_den += xi_powers[k_y_den.size()];
 
                             if (x_den.is_zero() || y_den.is_zero()) {
-                                return group_value_type::one();
+                                return group_value_type::zero();
                             }
 
                             for (std::size_t i = 0; i < k_x_num.size(); i++) {
-- 
2.43.0


From dfd32be04a2491e9f897205c3f4eac5a6682b456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:31 +0000
Subject: [PATCH 44/56] fix: reading a G2 point from a vector wrote through an
 empty vector

---
 include/nil/crypto3/algebra/curves/detail/marshalling.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/marshalling.hpp b/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
index 644dbea..8a27f5b 100644
--- a/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
@@ -173,8 +173,7 @@ namespace nil {
                 const std::uint8_t m_byte = *octets.begin() & 0xE0;
                 BOOST_ASSERT(m_byte != 0x20 && m_byte != 0x60 && m_byte != 0xE0);
 
-                PointOctetsRange point_octets;
-                std::copy(octets.begin(), octets.end(), point_octets.begin());
+                PointOctetsRange point_octets = octets;
                 *point_octets.begin() &= 0x1F;
 
                 if (m_byte & C_bit) {
-- 
2.43.0


From 0b9e5cd576b533915a58e0c4fbe3413f7062b3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:36 +0000
Subject: [PATCH 45/56] fix: octets with bits beyond the width of the modulus
 were read as a valid field element

---
 include/nil/crypto3/algebra/marshalling.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/marshalling.hpp b/include/nil/crypto3/algebra/marshalling.hpp
index 2687482..8c2bba4 100644
--- a/include/nil/crypto3/algebra/marshalling.hpp
+++ b/include/nil/crypto3/algebra/marshalling.hpp
@@ -66,10 +66,16 @@ namespace nil {
                     field_element_from_bytes(InputFieldValueIterator first, InputFieldValueIterator last) {
                     BOOST_ASSERT(field_octets_num == std::distance(first, last));
 
+                    // integral_type keeps no more than modulus_bits bits, so bits beyond them have to be refused here
+                    bool is_in_width = true;
+                    if (field_type::modulus_bits % chunk_size) {
+                        is_in_width = !(*std::prev(last) >> (field_type::modulus_bits % chunk_size));
+                    }
+
                     typename FieldType::integral_type result;
                     ::boost::multiprecision::import_bits(result, first, last, chunk_size, false);
 
-                    return std::make_pair(result < FieldType::modulus, field_value_type(result));
+                    return std::make_pair(is_in_width && result < FieldType::modulus, field_value_type(result));
                 }
 
                 template<typename InputFieldValueIterator>
-- 
2.43.0


From 390f72b53be7026a210256cf2d16da7cacab6710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:41 +0000
Subject: [PATCH 46/56] fix: writing a field element left the unused octets of
 a reused buffer as they were

---
 include/nil/crypto3/algebra/marshalling.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nil/crypto3/algebra/marshalling.hpp b/include/nil/crypto3/algebra/marshalling.hpp
index 8c2bba4..d5e7206 100644
--- a/include/nil/crypto3/algebra/marshalling.hpp
+++ b/include/nil/crypto3/algebra/marshalling.hpp
@@ -111,6 +111,8 @@ namespace nil {
                                            OutputIterator out_last) {
                     BOOST_ASSERT(field_octets_num == std::distance(out_first, out_last));
 
+                    // export_bits writes the significant octets only
+                    std::fill(out_first, out_last, 0);
                     ::boost::multiprecision::export_bits(
                         element.data.template convert_to<typename FieldType::integral_type>(), out_first, chunk_size,
                         false);
-- 
2.43.0


From a69434532801ca8587bb0fe188d27e5a6be44703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:46 +0000
Subject: [PATCH 47/56] fix: pollard_rho_factorization returned zero or no
 proper factor

---
 include/nil/crypto3/algebra/primes.hpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/nil/crypto3/algebra/primes.hpp b/include/nil/crypto3/algebra/primes.hpp
index 416e077..eea2479 100644
--- a/include/nil/crypto3/algebra/primes.hpp
+++ b/include/nil/crypto3/algebra/primes.hpp
@@ -52,15 +52,21 @@ namespace nil {
                 }
 
                 boost::random::independent_bits_engine<std::mt19937, 256, number<Backend, ExpressionTemplates>> rng;
-                number<backends::modular_adaptor<Backend, backends::modular_params_rt<Backend>>, ExpressionTemplates> divisor,
-                        c(rng(), n), x(rng(), n), nn(n, n), xx = x;
+                number<Backend, ExpressionTemplates> divisor;
                 do {
-                    x = x * x + c;
-                    xx = xx * xx + c;
-                    xx = xx * xx + c;
-                    divisor = boost::multiprecision::gcd((x > xx) ? x - xx : xx - x, nn);
-                } while (static_cast<int>(divisor) == 1);
-                return static_cast<boost::multiprecision::number<Backend, ExpressionTemplates>>(divisor);
+                    // a walk which only finds n itself is retried with another polynomial
+                    number<backends::modular_adaptor<Backend, backends::modular_params_rt<Backend>>, ExpressionTemplates>
+                            difference, c(rng(), n), x(rng(), n), xx = x;
+                    do {
+                        x = x * x + c;
+                        xx = xx * xx + c;
+                        xx = xx * xx + c;
+                        difference = (x > xx) ? x - xx : xx - x;
+                        divisor = boost::multiprecision::gcd(
+                                static_cast<number<Backend, ExpressionTemplates>>(difference), n);
+                    } while (divisor == 1);
+                } while (divisor == n);
+                return divisor;
             }
 
             /*
-- 
2.43.0


From 5919fa3ccdea0ed2842c9c49e429cc7e49513ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:52 +0000
Subject: [PATCH 48/56] fix: totient_list left out 1 for n = 1

---
 include/nil/crypto3/algebra/totient.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/totient.hpp b/include/nil/crypto3/algebra/totient.hpp
index 663b848..60bc1ed 100644
--- a/include/nil/crypto3/algebra/totient.hpp
+++ b/include/nil/crypto3/algebra/totient.hpp
@@ -65,7 +65,7 @@ namespace nil {
                 std::vector<IntegerType> result;
                 IntegerType one = 1;
 
-                for (IntegerType i = 1; i < n; i++) {
+                for (IntegerType i = 1; i <= n; i++) {
                     if (boost::multiprecision::gcd(i, n) == one)
                         result.push_back(i);
                 }
-- 
2.43.0


From e89928403e0b7cbdb0bfb21d36608355626afb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:57 +0000
Subject: [PATCH 49/56] fix: octets after an encoded point at infinity were
 checked for the value one only

---
 .../algebra/curves/detail/marshalling.hpp        | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/marshalling.hpp b/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
index 8a27f5b..7826349 100644
--- a/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
@@ -196,7 +196,9 @@ namespace nil {
                 BOOST_ASSERT(std::distance(point_octets.begin(), point_octets.end()) == sizeof_field_element);
 
                 if (m_byte & I_bit) {
-                    BOOST_ASSERT(point_octets.end() == std::find(point_octets.begin(), point_octets.end(), true));
+                    BOOST_ASSERT(point_octets.end() ==
+                                 std::find_if(point_octets.begin(), point_octets.end(),
+                                              [](std::uint8_t octet) { return octet != 0; }));
                     return g1_value_type();    // point at infinity
                 }
 
@@ -224,7 +226,9 @@ namespace nil {
                 BOOST_ASSERT(std::distance(point_octets.begin(), point_octets.end()) == 2 * sizeof_field_element);
 
                 if (m_byte & I_bit) {
-                    BOOST_ASSERT(point_octets.end() == std::find(point_octets.begin(), point_octets.end(), true));
+                    BOOST_ASSERT(point_octets.end() ==
+                                 std::find_if(point_octets.begin(), point_octets.end(),
+                                              [](std::uint8_t octet) { return octet != 0; }));
                     return g1_value_type();    // point at infinity
                 }
 
@@ -245,7 +249,9 @@ namespace nil {
                 BOOST_ASSERT(std::distance(point_octets.begin(), point_octets.end()) == 2 * sizeof_field_element);
 
                 if (m_byte & I_bit) {
-                    BOOST_ASSERT(point_octets.end() == std::find(point_octets.begin(), point_octets.end(), true));
+                    BOOST_ASSERT(point_octets.end() ==
+                                 std::find_if(point_octets.begin(), point_octets.end(),
+                                              [](std::uint8_t octet) { return octet != 0; }));
                     return g2_value_type();    // point at infinity
                 }
 
@@ -276,7 +282,9 @@ namespace nil {
                 BOOST_ASSERT(std::distance(point_octets.begin(), point_octets.end()) == 4 * sizeof_field_element);
 
                 if (m_byte & I_bit) {
-                    BOOST_ASSERT(point_octets.end() == std::find(point_octets.begin(), point_octets.end(), true));
+                    BOOST_ASSERT(point_octets.end() ==
+                                 std::find_if(point_octets.begin(), point_octets.end(),
+                                              [](std::uint8_t octet) { return octet != 0; }));
                     return g2_value_type();    // point at infinity
                 }
 
-- 
2.43.0


From 3a8088ca109be05bdc79b7225baabff68ee34891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:01 +0000
Subject: [PATCH 50/56] fix: decoding a point took coordinates that are not
 reduced modulo the field's prime

---
 include/nil/crypto3/algebra/curves/detail/marshalling.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/marshalling.hpp b/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
index 7826349..0d26dbe 100644
--- a/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
@@ -204,6 +204,7 @@ namespace nil {
 
                 integral_type x;
                 boost::multiprecision::import_bits(x, point_octets.rbegin(), point_octets.rend(), 8, false);
+                BOOST_ASSERT(x < g1_field_value_type::modulus);
                 g1_field_value_type x_mod(x);
                 g1_field_value_type y2_mod = x_mod.pow(3u) + g1_field_value_type(4u);
                 BOOST_ASSERT(y2_mod.is_square());
@@ -237,6 +238,7 @@ namespace nil {
                     y, point_octets.rbegin(), point_octets.rbegin() + sizeof_field_element, 8, false);
                 boost::multiprecision::import_bits(
                     x, point_octets.rbegin() + sizeof_field_element, point_octets.rend(), 8, false);
+                BOOST_ASSERT(x < g1_field_value_type::modulus && y < g1_field_value_type::modulus);
                 g1_value_type result(g1_field_value_type(x), g1_field_value_type(y), g1_field_value_type::one());
                 BOOST_ASSERT(result.is_well_formed());
                 return result;
@@ -260,6 +262,7 @@ namespace nil {
                     x_0, point_octets.rbegin(), point_octets.rbegin() + sizeof_field_element, 8, false);
                 boost::multiprecision::import_bits(
                     x_1, point_octets.rbegin() + sizeof_field_element, point_octets.rend(), 8, false);
+                BOOST_ASSERT(x_0 < g1_field_value_type::modulus && x_1 < g1_field_value_type::modulus);
                 g2_field_value_type x_mod(x_0, x_1);
                 g2_field_value_type y2_mod = x_mod.pow(3u) + g2_field_value_type(4u, 4u);
                 BOOST_ASSERT(y2_mod.is_square());
@@ -303,6 +306,8 @@ namespace nil {
                                             false);
                 boost::multiprecision::import_bits(
                     x_1, point_octets.rbegin() + 3 * sizeof_field_element, point_octets.rend(), 8, false);
+                BOOST_ASSERT(x_0 < g1_field_value_type::modulus && x_1 < g1_field_value_type::modulus);
+                BOOST_ASSERT(y_0 < g1_field_value_type::modulus && y_1 < g1_field_value_type::modulus);
                 g2_value_type result(g2_field_value_type(g1_field_value_type(x_0), g1_field_value_type(x_1)),
                                      g2_field_value_type(g1_field_value_type(y_0), g1_field_value_type(y_1)),
                                      g2_field_value_type::one());
-- 
2.43.0


From 72c417294a7c6a82baecd98e0b4d0071630038ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:21 +0000
Subject: [PATCH 51/56] fix: low_bits returned too many bits of a word narrower
 than its type

---
 include/nil/crypto3/detail/unbounded_shift.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/detail/unbounded_shift.hpp b/include/nil/crypto3/detail/unbounded_shift.hpp
index 2b4ad20..6dee491 100644
--- a/include/nil/crypto3/detail/unbounded_shift.hpp
+++ b/include/nil/crypto3/detail/unbounded_shift.hpp
@@ -92,7 +92,7 @@ namespace nil {
 
             template<size_t Shift, std::size_t TypeBits, typename T>
             T low_bits(T x) {
-                constexpr std::size_t real_shift = TypeBits - Shift;
+                constexpr std::size_t real_shift = sizeof(T) * CHAR_BIT - Shift;
                 T lowmask = ((bool)Shift) * unbounded_shr<real_shift, T>(~T());
                 return x & lowmask;
             }
@@ -101,7 +101,7 @@ namespace nil {
             T low_bits(T x, std::size_t shift) {
                 if (sizeof(T) * CHAR_BIT <= shift)
                     return x;
-                T lowmask = ((bool)shift) * unbounded_shr<T>(~T(), type_bits - shift);
+                T lowmask = ((bool)shift) * unbounded_shr<T>(~T(), sizeof(T) * CHAR_BIT - shift);
                 return x & lowmask;
             }
 
-- 
2.43.0


From b33c9a694afd6b6cf486ada8f8c18bdd10cb60ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:31 +0000
Subject: [PATCH 52/56] fix: the Montgomery form of curve25519 could not be
 instantiated

---
 include/nil/crypto3/algebra/curves/curve25519.hpp             | 2 +-
 include/nil/crypto3/algebra/curves/detail/curve25519/g1.hpp   | 2 ++
 .../nil/crypto3/algebra/curves/detail/curve25519/params.hpp   | 4 ++++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/curves/curve25519.hpp b/include/nil/crypto3/algebra/curves/curve25519.hpp
index 38395ff..46635bd 100644
--- a/include/nil/crypto3/algebra/curves/curve25519.hpp
+++ b/include/nil/crypto3/algebra/curves/curve25519.hpp
@@ -45,7 +45,7 @@ namespace nil {
                     typedef typename policy_type::base_field_type base_field_type;
                     typedef typename policy_type::scalar_field_type scalar_field_type;
 
-                    template<typename Coordinates = coordinates::extended_with_a_minus_1,
+                    template<typename Coordinates = coordinates::affine,
                              typename Form = forms::montgomery>
                     using g1_type = typename detail::curve25519_g1<Form, Coordinates>;
                 };
diff --git a/include/nil/crypto3/algebra/curves/detail/curve25519/g1.hpp b/include/nil/crypto3/algebra/curves/detail/curve25519/g1.hpp
index b445a24..6158bd4 100644
--- a/include/nil/crypto3/algebra/curves/detail/curve25519/g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/curve25519/g1.hpp
@@ -32,6 +32,8 @@
 #ifdef __ZKLLVM__
 #else
 // #include <nil/crypto3/algebra/curves/detail/forms/montgomery/xz/element_g1.hpp>
+#include <nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp>
+#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp>
 #include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp>
 #endif
 
diff --git a/include/nil/crypto3/algebra/curves/detail/curve25519/params.hpp b/include/nil/crypto3/algebra/curves/detail/curve25519/params.hpp
index 6f4e5f9..af317af 100644
--- a/include/nil/crypto3/algebra/curves/detail/curve25519/params.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/curve25519/params.hpp
@@ -51,6 +51,10 @@ namespace nil {
                         constexpr static typename curve25519_types::integral_type b =
                             typename curve25519_types::integral_type(
                                 0x01);    ///< coefficient of Montgomery curve $b*y^2=x^3+a*x^2+x$
+
+                        // Montgomery representation constants A and B
+                        constexpr static typename curve25519_types::integral_type A = a;
+                        constexpr static typename curve25519_types::integral_type B = b;
                     };
 
                     template<>
-- 
2.43.0


From f629d8728405d690bd45d60c11142d00956e4010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:20 +0000
Subject: [PATCH 53/56] fix: the brainpool, frp_v1 and x962_p field headers did
 not compile

---
 .../fields/brainpool_r1/base_field.hpp        | 24 -------------------
 .../fields/brainpool_r1/scalar_field.hpp      | 12 ----------
 .../algebra/fields/frp_v1/base_field.hpp      | 10 ++++----
 .../algebra/fields/x962_p/base_field.hpp      |  8 -------
 .../algebra/fields/x962_p/scalar_field.hpp    | 10 +++-----
 5 files changed, 8 insertions(+), 56 deletions(-)

diff --git a/include/nil/crypto3/algebra/fields/brainpool_r1/base_field.hpp b/include/nil/crypto3/algebra/fields/brainpool_r1/base_field.hpp
index 2a83a08..bc50fe8 100644
--- a/include/nil/crypto3/algebra/fields/brainpool_r1/base_field.hpp
+++ b/include/nil/crypto3/algebra/fields/brainpool_r1/base_field.hpp
@@ -260,33 +260,9 @@ namespace nil {
 
                 template<std::size_t Version = 160>
                 using brainpool_r1_fq = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 192>
-                using brainpool_r1_fq = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 224>
-                using brainpool_r1_fq = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 256>
-                using brainpool_r1_fq = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 320>
-                using brainpool_r1_fq = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 384>
-                using brainpool_r1_fq = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 512>
-                using brainpool_r1_fq = brainpool_r1_base_field<Version>;
 
                 template<std::size_t Version = 160>
                 using brainpool_r1 = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 192>
-                using brainpool_r1 = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 224>
-                using brainpool_r1 = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 256>
-                using brainpool_r1 = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 320>
-                using brainpool_r1 = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 384>
-                using brainpool_r1 = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 512>
-                using brainpool_r1 = brainpool_r1_base_field<Version>;
 
             }    // namespace fields
         }        // namespace algebra
diff --git a/include/nil/crypto3/algebra/fields/brainpool_r1/scalar_field.hpp b/include/nil/crypto3/algebra/fields/brainpool_r1/scalar_field.hpp
index cd93801..35760a6 100644
--- a/include/nil/crypto3/algebra/fields/brainpool_r1/scalar_field.hpp
+++ b/include/nil/crypto3/algebra/fields/brainpool_r1/scalar_field.hpp
@@ -246,18 +246,6 @@ namespace nil {
 
                 template<std::size_t Version = 160>
                 using brainpool_r1_fr = brainpool_r1_scalar_field<Version>;
-                template<std::size_t Version = 192>
-                using brainpool_r1_fr = brainpool_r1_scalar_field<Version>;
-                template<std::size_t Version = 224>
-                using brainpool_r1_fr = brainpool_r1_scalar_field<Version>;
-                template<std::size_t Version = 256>
-                using brainpool_r1_fr = brainpool_r1_scalar_field<Version>;
-                template<std::size_t Version = 320>
-                using brainpool_r1_fr = brainpool_r1_scalar_field<Version>;
-                template<std::size_t Version = 384>
-                using brainpool_r1_fr = brainpool_r1_scalar_field<Version>;
-                template<std::size_t Version = 512>
-                using brainpool_r1_fr = brainpool_r1_scalar_field<Version>;
 
             }    // namespace fields
         }        // namespace algebra
diff --git a/include/nil/crypto3/algebra/fields/frp_v1/base_field.hpp b/include/nil/crypto3/algebra/fields/frp_v1/base_field.hpp
index b4360e9..754f59f 100644
--- a/include/nil/crypto3/algebra/fields/frp_v1/base_field.hpp
+++ b/include/nil/crypto3/algebra/fields/frp_v1/base_field.hpp
@@ -43,10 +43,10 @@ namespace nil {
                  * @tparam Version
                  */
                 template<std::size_t Version>
-                struct frp_v1_base_fields : public field<Version> { };
+                struct frp_v1_base_field : public field<Version> { };
 
                 template<>
-                struct frp_v1_base_fields<256> : public field<256> {
+                struct frp_v1_base_field<256> : public field<256> {
                     typedef field<256> policy_type;
 
                     constexpr static const std::size_t modulus_bits = policy_type::modulus_bits;
@@ -67,16 +67,16 @@ namespace nil {
                             boost::multiprecision::backends::modular_params_ct<modular_backend, modulus_params>>>
                         modular_type;
 
-                    typedef typename detail::element_fp<params<frp_v1_base_fields<256>>> value_type;
+                    typedef typename detail::element_fp<params<frp_v1_base_field<256>>> value_type;
 
                     constexpr static const std::size_t value_bits = modulus_bits;
                     constexpr static const std::size_t arity = 1;
                 };
 
-                constexpr typename frp_v1_base_fields<256>::integral_type const frp_v1_base_fields<256>::modulus;
+                constexpr typename frp_v1_base_field<256>::integral_type const frp_v1_base_field<256>::modulus;
 
                 constexpr
-                    typename frp_v1_base_fields<256>::modular_params_type const frp_v1_base_fields<256>::modulus_params;
+                    typename frp_v1_base_field<256>::modular_params_type const frp_v1_base_field<256>::modulus_params;
 
                 template<std::size_t Version = 256>
                 using frp_v1_fq = frp_v1_base_field<Version>;
diff --git a/include/nil/crypto3/algebra/fields/x962_p/base_field.hpp b/include/nil/crypto3/algebra/fields/x962_p/base_field.hpp
index 88e623e..bab7ec2 100644
--- a/include/nil/crypto3/algebra/fields/x962_p/base_field.hpp
+++ b/include/nil/crypto3/algebra/fields/x962_p/base_field.hpp
@@ -206,10 +206,6 @@ namespace nil {
                 using x962_p_v3_fq = x962_p_v3_base_field<Version>;
                 template<std::size_t Version = 239>
                 using x962_p_v1_fq = x962_p_v1_base_field<Version>;
-                template<std::size_t Version = 239>
-                using x962_p_v2_fq = x962_p_v2_base_field<Version>;
-                template<std::size_t Version = 239>
-                using x962_p_v3_fq = x962_p_v3_base_field<Version>;
 
                 template<std::size_t Version = 192>
                 using x962_p_v2 = x962_p_v2_base_field<Version>;
@@ -217,10 +213,6 @@ namespace nil {
                 using x962_p_v3 = x962_p_v3_base_field<Version>;
                 template<std::size_t Version = 239>
                 using x962_p_v1 = x962_p_v1_base_field<Version>;
-                template<std::size_t Version = 239>
-                using x962_p_v2 = x962_p_v2_base_field<Version>;
-                template<std::size_t Version = 239>
-                using x962_p_v3 = x962_p_v3_base_field<Version>;
 
             }    // namespace fields
         }        // namespace algebra
diff --git a/include/nil/crypto3/algebra/fields/x962_p/scalar_field.hpp b/include/nil/crypto3/algebra/fields/x962_p/scalar_field.hpp
index 34aa9df..88641c7 100644
--- a/include/nil/crypto3/algebra/fields/x962_p/scalar_field.hpp
+++ b/include/nil/crypto3/algebra/fields/x962_p/scalar_field.hpp
@@ -206,15 +206,11 @@ namespace nil {
                     x962_p_v3_scalar_field<239>::modulus_params;
 
                 template<std::size_t Version = 192>
-                using x962_p_v2_fr = x962_p_v2_scalar_field_field<Version>;
+                using x962_p_v2_fr = x962_p_v2_scalar_field<Version>;
                 template<std::size_t Version = 192>
-                using x962_p_v3_fr = x962_p_v3_scalar_field_field<Version>;
+                using x962_p_v3_fr = x962_p_v3_scalar_field<Version>;
                 template<std::size_t Version = 239>
-                using x962_p_v1_fr = x962_p_v1_scalar_field_field<Version>;
-                template<std::size_t Version = 239>
-                using x962_p_v2_fr = x962_p_v2_scalar_field_field<Version>;
-                template<std::size_t Version = 239>
-                using x962_p_v3_fr = x962_p_v3_scalar_field_field<Version>;
+                using x962_p_v1_fr = x962_p_v1_scalar_field<Version>;
 
             }    // namespace fields
         }        // namespace algebra
-- 
2.43.0


From e549eff1e4903a1b77dabed0cfd13aaa5d2f8850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:04 +0000
Subject: [PATCH 54/56] fix: scalar operators and kron over scalars narrower
 than int (the promoted result did not convert back)

---
 include/nil/crypto3/algebra/matrix/math.hpp      |  2 +-
 include/nil/crypto3/algebra/matrix/operators.hpp | 10 +++++-----
 include/nil/crypto3/algebra/vector/operators.hpp | 10 +++++-----
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index 282427f..2d403e2 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -153,7 +153,7 @@ namespace nil {
              */
             template<typename T, std::size_t M, std::size_t N, std::size_t P, std::size_t Q>
             constexpr matrix<T, M * P, N * Q> kron(const matrix<T, M, N> &a, const matrix<T, P, Q> &b) {
-                return generate<M * P, N * Q>([&a, &b](auto i, auto j) { return a[i / P][j / Q] * b[i % P][j % Q]; });
+                return generate<M * P, N * Q>([&a, &b](auto i, auto j) -> T { return a[i / P][j / Q] * b[i % P][j % Q]; });
             }
 
             /** @brief Computes the maximum absolute column sum norm
diff --git a/include/nil/crypto3/algebra/matrix/operators.hpp b/include/nil/crypto3/algebra/matrix/operators.hpp
index e5fe7cd..a77409f 100644
--- a/include/nil/crypto3/algebra/matrix/operators.hpp
+++ b/include/nil/crypto3/algebra/matrix/operators.hpp
@@ -76,7 +76,7 @@ namespace nil {
              */
             template<typename T, std::size_t N, std::size_t M>
             constexpr matrix<T, N, M> operator+(const matrix<T, N, M> &m, T a) {
-                return elementwise([a](T x) { return x + a; }, m);
+                return elementwise([a](T x) -> T { return x + a; }, m);
             }
 
             /** @brief computes the sum of a matrix and a scalar
@@ -88,7 +88,7 @@ namespace nil {
              */
             template<typename T, std::size_t N, std::size_t M>
             constexpr matrix<T, N, M> operator+(T a, const matrix<T, N, M> &m) {
-                return elementwise([a](T x) { return a + x; }, m);
+                return elementwise([a](T x) -> T { return a + x; }, m);
             }
 
             /** @brief computes the matrix sum
@@ -113,7 +113,7 @@ namespace nil {
              */
             template<typename T, std::size_t N, std::size_t M>
             constexpr matrix<T, N, M> operator*(const matrix<T, N, M> &m, T a) {
-                return elementwise([a](T x) { return x * a; }, m);
+                return elementwise([a](T x) -> T { return x * a; }, m);
             }
 
             /** @brief computes the product of a matrix and a scalar
@@ -125,7 +125,7 @@ namespace nil {
              */
             template<typename T, std::size_t N, std::size_t M>
             constexpr matrix<T, N, M> operator*(T a, const matrix<T, N, M> &m) {
-                return elementwise([a](T x) { return a * x; }, m);
+                return elementwise([a](T x) -> T { return a * x; }, m);
             }
 
             /** @brief computes the Hadamard product
@@ -151,7 +151,7 @@ namespace nil {
              */
             template<typename T, std::size_t N, std::size_t M>
             constexpr matrix<T, N, M> operator/(T a, const matrix<T, N, M> &m) {
-                return elementwise([a](T x) { return a / x; }, m);
+                return elementwise([a](T x) -> T { return a / x; }, m);
             }
 
             /** @brief computes the elementwise matrix quotient
diff --git a/include/nil/crypto3/algebra/vector/operators.hpp b/include/nil/crypto3/algebra/vector/operators.hpp
index cc85398..21e2abb 100644
--- a/include/nil/crypto3/algebra/vector/operators.hpp
+++ b/include/nil/crypto3/algebra/vector/operators.hpp
@@ -74,7 +74,7 @@ namespace nil {
              */
             template<typename T, std::size_t N>
             constexpr vector<T, N> operator+(const vector<T, N> &v, T a) {
-                return elementwise([a](T x) { return x + a; }, v);
+                return elementwise([a](T x) -> T { return x + a; }, v);
             }
 
             /** @brief computes the sum of a vector and a scalar
@@ -86,7 +86,7 @@ namespace nil {
              */
             template<typename T, std::size_t N>
             constexpr vector<T, N> operator+(T a, const vector<T, N> &v) {
-                return elementwise([a](T x) { return a + x; }, v);
+                return elementwise([a](T x) -> T { return a + x; }, v);
             }
 
             /** @brief computes the vector sum
@@ -112,7 +112,7 @@ namespace nil {
              */
             template<typename T, std::size_t N>
             constexpr vector<T, N> operator*(const vector<T, N> &v, T a) {
-                return elementwise([a](T x) { return x * a; }, v);
+                return elementwise([a](T x) -> T { return x * a; }, v);
             }
 
             /** @brief computes the product of a vector and a scalar
@@ -124,7 +124,7 @@ namespace nil {
              */
             template<typename T, std::size_t N>
             constexpr vector<T, N> operator*(T a, const vector<T, N> &v) {
-                return elementwise([a](T x) { return a * x; }, v);
+                return elementwise([a](T x) -> T { return a * x; }, v);
             }
 
             /** @brief computes the Hadamard product
@@ -149,7 +149,7 @@ namespace nil {
              */
             template<typename T, std::size_t N>
             constexpr vector<T, N> operator/(T a, const vector<T, N> &v) {
-                return elementwise([a](T x) { return a / x; }, v);
+                return elementwise([a](T x) -> T { return a / x; }, v);
             }
 
             /** @brief computes the elementwise vector quotient
-- 
2.43.0


From fdb5a9e761d73aaa115e22796706f73be7e6eb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:11 +0000
Subject: [PATCH 55/56] fix: fields/modp_ietf.hpp did not compile (out-of-class
 definitions of members the primary template does not have)

---
 include/nil/crypto3/algebra/fields/modp_ietf.hpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/include/nil/crypto3/algebra/fields/modp_ietf.hpp b/include/nil/crypto3/algebra/fields/modp_ietf.hpp
index b8465bf..364530c 100644
--- a/include/nil/crypto3/algebra/fields/modp_ietf.hpp
+++ b/include/nil/crypto3/algebra/fields/modp_ietf.hpp
@@ -230,12 +230,6 @@ namespace nil {
                     constexpr static const std::size_t arity = 1;
                 };
 
-                template<std::size_t Version>
-                constexpr typename modp_ietf<Version>::integral_type const modp_ietf<Version>::modulus;
-
-                template<std::size_t Version>
-                constexpr typename modp_ietf<Version>::integral_type const modp_ietf<Version>::mul_generator;
-
                 constexpr typename modp_ietf<1024>::integral_type const modp_ietf<1024>::modulus;
                 constexpr typename modp_ietf<1536>::integral_type const modp_ietf<1536>::modulus;
                 constexpr typename modp_ietf<2048>::integral_type const modp_ietf<2048>::modulus;
-- 
2.43.0


From b8c94d43fff3530eb7d88161e2520f72ef8d5766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:40 +0000
Subject: [PATCH 56/56] fix: decrement of prime field elements needed a (value,
 modulus) constructor of number; subtract one() as increment adds it

---
 include/nil/crypto3/algebra/fields/detail/element/fp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/fields/detail/element/fp.hpp b/include/nil/crypto3/algebra/fields/detail/element/fp.hpp
index f439077..990c2d1 100644
--- a/include/nil/crypto3/algebra/fields/detail/element/fp.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/element/fp.hpp
@@ -178,7 +178,7 @@ namespace nil {
                         }
 
                         constexpr element_fp &operator--() {
-                            data = data - data_type(1, modulus_params);
+                            data = data - one().data;
                             return *this;
                         }
 
-- 
2.43.0

