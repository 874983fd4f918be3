From f230b6130a4df91f3e406f9f61318e1e01ec978d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:46 +0000
Subject: [PATCH 01/59] fix: swapcol iterates over the rows of the matrix

The loop ran over the number of columns, reading and writing past the end of
matrices with more columns than rows and leaving rows unswapped otherwise.
---
 include/nil/crypto3/algebra/matrix/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/utility.hpp b/include/nil/crypto3/algebra/matrix/utility.hpp
index fa461df..b0f42b1 100644
--- a/include/nil/crypto3/algebra/matrix/utility.hpp
+++ b/include/nil/crypto3/algebra/matrix/utility.hpp
@@ -165,7 +165,7 @@ namespace nil {
              */
             template<std::size_t M, std::size_t N, typename T>
             constexpr matrix<T, M, N> swapcol(matrix<T, M, N> m, std::size_t a, std::size_t b) {
-                for (int i = 0; i < N; i++) {
+                for (int i = 0; i < M; i++) {
                     T tmp = m[i][a];
                     m[i][a] = m[i][b];
                     m[i][b] = tmp;
-- 
2.43.0


From 02adb410ce07b15796e4e3a8be12946ec7eeb470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:46 +0000
Subject: [PATCH 02/59] fix: submat bounds check does not wrap around for huge
 indices

---
 include/nil/crypto3/algebra/matrix/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/utility.hpp b/include/nil/crypto3/algebra/matrix/utility.hpp
index b0f42b1..105fe4a 100644
--- a/include/nil/crypto3/algebra/matrix/utility.hpp
+++ b/include/nil/crypto3/algebra/matrix/utility.hpp
@@ -215,7 +215,7 @@ namespace nil {
              */
             template<std::size_t P, std::size_t Q, std::size_t M, std::size_t N, typename T>
             constexpr matrix<T, P, Q> submat(const matrix<T, M, N> &m, std::size_t a, std::size_t b) {
-                if ((a + P > M) || (b + Q > N))
+                if (P > M || a > M - P || Q > N || b > N - Q)
                     throw "index out of range";
                 return generate<P, Q>([&m, &a, &b](std::size_t i, std::size_t j) { return m[a + i][b + j]; });
             }
-- 
2.43.0


From 73c292729171d51fe4f0167c93a3ae45eac7e761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:21 +0000
Subject: [PATCH 03/59] fix: det multiplies the pivots

Each pivot row is divided by its pivot, so the determinant is the product of
the pivots; dividing returned its reciprocal.
---
 include/nil/crypto3/algebra/matrix/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index 619dc04..f1bd796 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -214,7 +214,7 @@ namespace nil {
                         auto s = m[i][j];
                         for (std::size_t jp = 0; jp < N; ++jp)
                             m[i][jp] /= s;
-                        det /= s;
+                        det *= s;
 
                         // Eliminate other values in the column
                         for (std::size_t ip = 0; ip < M; ++ip) {
-- 
2.43.0


From c39511a74f5b9451f86baf2b9ecb63ff5b20bdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:24 +0000
Subject: [PATCH 04/59] fix: pivot search does not stop at a negligible entry

Taking the first larger entry could settle on rounding residue although a
usable pivot was further down, which made rank too small.
---
 include/nil/crypto3/algebra/matrix/math.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index f1bd796..0691940 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -204,7 +204,9 @@ namespace nil {
                                 m[i][jp] = tmp;
                             }
                             det = -det;
-                            break;
+                            // a larger but still negligible pivot must not hide a usable one below
+                            if (!negligible(m[i][j]))
+                                break;
                         }
                     }
 
-- 
2.43.0


From eff6d514cbc4fb12b12e3ba26d5b607018b24614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:28 +0000
Subject: [PATCH 05/59] fix: a zero matrix has rank zero

Its tolerance is 0, so no entry was below it and rows were divided by zero.
---
 include/nil/crypto3/algebra/matrix/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index 0691940..511aa1b 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -189,7 +189,7 @@ namespace nil {
                 // CRYPTO3_DETAIL_ASSERT_REAL(T)
 
                 // Define function for determining if an element is negligible
-                auto negligible = [&tolerance](const T &v) { return abs(v) < tolerance; };
+                auto negligible = [&tolerance](const T &v) { return abs(v) <= tolerance; };
 
                 T det = 1;
                 std::size_t rank = 0;
-- 
2.43.0


From 2013881c37da186d48dd0c6e07018aa638d74b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:31 +0000
Subject: [PATCH 06/59] fix: gauss-jordan eliminates small entries too

The tolerance is relative to the input's scale, but pivot rows are normalised
to 1: in large-scale matrices entries that matter were left in place.
---
 include/nil/crypto3/algebra/matrix/math.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index 511aa1b..f57eb98 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -222,13 +222,11 @@ namespace nil {
                         for (std::size_t ip = 0; ip < M; ++ip) {
                             if (ip == i)
                                 continue;
-                            if (!negligible(m[ip][j])) {
-                                auto s = m[ip][j];
-                                [&]() {    // wrap this in a lambda to get around a gcc bug
-                                    for (std::size_t jp = 0; jp < N; ++jp)
-                                        m[ip][jp] -= s * m[i][jp];
-                                }();
-                            }
+                            auto s = m[ip][j];
+                            [&]() {    // wrap this in a lambda to get around a gcc bug
+                                for (std::size_t jp = 0; jp < N; ++jp)
+                                    m[ip][jp] -= s * m[i][jp];
+                            }();
                         }
 
                         // Increment rank
-- 
2.43.0


From d8333f579b17cec586ac37d6f72cd90de947fe54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:35 +0000
Subject: [PATCH 07/59] fix: rref with explicit tolerance compiles and uses it

---
 include/nil/crypto3/algebra/matrix/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index f57eb98..791414e 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -275,7 +275,7 @@ namespace nil {
              */
             template<typename T, std::size_t M, std::size_t N>
             constexpr matrix<T, M, N> rref(const matrix<T, M, N> &m, T tolerance) {
-                return std::get<0>(gauss_jordan_impl(m), tolerance);
+                return std::get<0>(gauss_jordan_impl(m, tolerance));
             }
 
             /** @brief Compute the rank
-- 
2.43.0


From 78eed4b0cc835a9a76efb74224e5608d99ccfb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:38 +0000
Subject: [PATCH 08/59] fix: inverse of matrices with small entries

The augmented matrix [m I] has a tolerance near epsilon, so the entries of a
matrix scaled below that were taken for zero.
---
 include/nil/crypto3/algebra/matrix/math.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index 791414e..aff6edb 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -312,7 +312,9 @@ namespace nil {
             constexpr matrix<T, M, M> inverse(const matrix<T, M, M> &m) {
                 if (rank(m) < M)
                     throw "matrix is not invertible";
-                return submat<M, M>(rref(horzcat(m, get_identity<T, M>())), 0, M);
+                // negligible relative to m, as in rank(m), not to the augmented matrix
+                T tolerance = T(M) * std::numeric_limits<T>::epsilon() * mars(m);
+                return submat<M, M>(rref(horzcat(m, get_identity<T, M>()), tolerance), 0, M);
             }
 
             /** @brief computes the trace
-- 
2.43.0


From c29434d46d630443a7624097d6a7a0f63bd99082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:17 +0000
Subject: [PATCH 09/59] fix: sqrt terminates on zero and always stops at the
 root

---
 include/nil/crypto3/algebra/scalar/math.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/nil/crypto3/algebra/scalar/math.hpp b/include/nil/crypto3/algebra/scalar/math.hpp
index 0946310..3f74e61 100644
--- a/include/nil/crypto3/algebra/scalar/math.hpp
+++ b/include/nil/crypto3/algebra/scalar/math.hpp
@@ -27,6 +27,8 @@
 #ifndef CRYPTO3_ALGEBRA_SCALAR_MATH_HPP
 #define CRYPTO3_ALGEBRA_SCALAR_MATH_HPP
 
+#include <limits>
+
 #include <nil/crypto3/algebra/type_traits.hpp>
 #include <nil/crypto3/detail/assert.hpp>
 
@@ -47,9 +49,13 @@ namespace nil {
             constexpr double sqrt(double x) {
                 if (x < 0)
                     throw "sqrt argument must be positive";
-                double prev = 0;
-                double est = (1 + x) / 2;
-                while (prev != est) {
+                // zero, infinity and NaN are their own square roots
+                if (x == 0 || !(x <= std::numeric_limits<double>::max()))
+                    return x;
+                // the estimates decrease towards the root: stop as soon as they do not
+                double prev = x > 1 ? x : 1;
+                double est = prev / 2 + x / prev / 2;
+                while (est < prev) {
                     prev = est;
                     est = (est + x / est) / 2;
                 }
-- 
2.43.0


From b6ba8faf91d9a51b57f11e97d7ead987ce61c437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:37 +0000
Subject: [PATCH 10/59] fix: nthroot terminates on zero and always stops at the
 root

---
 include/nil/crypto3/algebra/scalar/math.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/nil/crypto3/algebra/scalar/math.hpp b/include/nil/crypto3/algebra/scalar/math.hpp
index 3f74e61..3fb76f6 100644
--- a/include/nil/crypto3/algebra/scalar/math.hpp
+++ b/include/nil/crypto3/algebra/scalar/math.hpp
@@ -124,13 +124,17 @@ namespace nil {
             constexpr double nthroot(double x, int n) {
                 if (x < 0)
                     throw "nth root argument must be positive";
-                double prev = -1;
-                double est = 1;
-                while (prev != est) {
+                // zero, infinity and NaN are their own roots
+                if (x == 0 || !(x <= std::numeric_limits<double>::max()))
+                    return x;
+                // from an upper bound of the root, the estimates decrease towards it: stop as soon as they do not
+                double prev = 0;
+                double est = 1 + (x - 1) / n;
+                do {
                     prev = est;
                     double dxk = 1. / n * (x / exponentiate(prev, n - 1) - prev);
                     est = prev + dxk;
-                }
+                } while (est < prev);
                 return est;
             }
 
-- 
2.43.0


From ae31cade8c7d2caf8508a60c15aee331ec3f0806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:50 +0000
Subject: [PATCH 11/59] fix: exponentiate does not negate INT_MIN

---
 include/nil/crypto3/algebra/scalar/math.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/nil/crypto3/algebra/scalar/math.hpp b/include/nil/crypto3/algebra/scalar/math.hpp
index 3fb76f6..9fe8d2f 100644
--- a/include/nil/crypto3/algebra/scalar/math.hpp
+++ b/include/nil/crypto3/algebra/scalar/math.hpp
@@ -97,17 +97,19 @@ namespace nil {
             constexpr double exponentiate(double x, int n) {
                 if (n == 0)
                     return 1;
+                // the absolute value of the exponent, which int need not represent
+                unsigned int k = n;
                 if (n < 0) {
                     x = 1. / x;
-                    n = -n;
+                    k = -k;
                 }
                 double y = 1.;
-                while (n > 1) {
-                    if (n % 2 == 0) {
-                        n = n / 2.;
+                while (k > 1) {
+                    if (k % 2 == 0) {
+                        k = k / 2;
                     } else {
                         y *= x;
-                        n = (n - 1.) / 2.;
+                        k = (k - 1) / 2;
                     }
                     x *= x;
                 }
-- 
2.43.0


From 8722cbb51194519cf0c3d05a91a1d50ae9c375c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:19 +0000
Subject: [PATCH 12/59] fix: params derive (p-1)/2 from the modulus

Most fields do not define group_order_minus_one_half, so their elements could
not be instantiated.
---
 include/nil/crypto3/algebra/fields/params.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/fields/params.hpp b/include/nil/crypto3/algebra/fields/params.hpp
index e3ac8b4..6732fa7 100644
--- a/include/nil/crypto3/algebra/fields/params.hpp
+++ b/include/nil/crypto3/algebra/fields/params.hpp
@@ -46,7 +46,7 @@ namespace nil {
                     typedef typename field_type::extended_integral_type extended_integral_type;
 
                     constexpr static const integral_type modulus = field_type::modulus;
-                    constexpr static const integral_type group_order_minus_one_half = field_type::group_order_minus_one_half;
+                    constexpr static const integral_type group_order_minus_one_half = (modulus - 1u) / 2u;
 
                     constexpr static const modular_params_type modulus_params = field_type::modulus_params;
                 };
-- 
2.43.0


From 2f2d9c3956a9fe02383bc967e048e118eedc90c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:19 +0000
Subject: [PATCH 13/59] fix: secp160r1 scalars name their own field

---
 .../nil/crypto3/algebra/fields/secp/secp_r1/scalar_field.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/fields/secp/secp_r1/scalar_field.hpp b/include/nil/crypto3/algebra/fields/secp/secp_r1/scalar_field.hpp
index 8ca3869..2fcb92f 100644
--- a/include/nil/crypto3/algebra/fields/secp/secp_r1/scalar_field.hpp
+++ b/include/nil/crypto3/algebra/fields/secp/secp_r1/scalar_field.hpp
@@ -68,7 +68,7 @@ namespace nil {
                             boost::multiprecision::backends::modular_params_ct<modular_backend, modulus_params>>>
                         modular_type;
 
-                    typedef typename detail::element_fp<params<secp_r1_scalar_field<161>>> value_type;
+                    typedef typename detail::element_fp<params<secp_r1_scalar_field<160>>> value_type;
 
                     constexpr static const std::size_t value_bits = modulus_bits;
                     constexpr static const std::size_t arity = 1;
-- 
2.43.0


From 7f961912e6021dc8de409ac6aded9da6eef7b5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:46 +0000
Subject: [PATCH 14/59] fix: sqrt of zero terminates in fp2 and fp3

---
 include/nil/crypto3/algebra/fields/detail/element/fp2.hpp | 4 ++++
 include/nil/crypto3/algebra/fields/detail/element/fp3.hpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp b/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
index 0afe2c1..ff713f8 100644
--- a/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
@@ -197,6 +197,10 @@ namespace nil {
 
                         constexpr element_fp2 sqrt() const {
 
+                            if (this->is_zero()) {
+                                return zero();
+                            }
+
                             element_fp2 one = this->one();
 
                             std::size_t v = policy_type::s;
diff --git a/include/nil/crypto3/algebra/fields/detail/element/fp3.hpp b/include/nil/crypto3/algebra/fields/detail/element/fp3.hpp
index aa90cb5..710a81f 100644
--- a/include/nil/crypto3/algebra/fields/detail/element/fp3.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/element/fp3.hpp
@@ -162,6 +162,10 @@ namespace nil {
                         }
 
                         constexpr element_fp3 sqrt() const {
+                            if (this->is_zero()) {
+                                return zero();
+                            }
+
                             std::size_t v = policy_type::s;
                             element_fp3 z(policy_type::nqr_to_t[0], policy_type::nqr_to_t[1], policy_type::nqr_to_t[2]);
                             element_fp3 w = this->pow(policy_type::t_minus_1_over_2);
-- 
2.43.0


From 7507161e946961d20ae5d144e770eec69e982b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:06 +0000
Subject: [PATCH 15/59] fix: fp3 over the edwards base field can tell squares

---
 .../algebra/fields/detail/extension_params/edwards/fp3.hpp  | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/fields/detail/extension_params/edwards/fp3.hpp b/include/nil/crypto3/algebra/fields/detail/extension_params/edwards/fp3.hpp
index b36d267..8b24d03 100644
--- a/include/nil/crypto3/algebra/fields/detail/extension_params/edwards/fp3.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/extension_params/edwards/fp3.hpp
@@ -53,6 +53,8 @@ namespace nil {
                         typedef params<base_field_type> policy_type;
 
                     public:
+                        using field_type = fields::fp3<base_field_type>;
+
                         typedef typename policy_type::integral_type integral_type;
                         typedef typename policy_type::extended_integral_type extended_integral_type;
 
@@ -72,7 +74,7 @@ namespace nil {
                         constexpr static const std::array<integral_type, 3> nqr_to_t = {
                             0x118228ECB464A2F6EB8DACC18FA757E45B3989330150C_cppui_modular177, 0x00, 0x00};
 
-                        constexpr static const extended_integral_type group_order =
+                        constexpr static const extended_integral_type group_order_minus_one_half =
                             0x214530CDE421990256A87901DDC6307E4ED27FAF4F877968EFCA129EF23243B915EF074F565027DAA0127ECF4EC788245754250524EA78AD2C1A16B28F2611D9140000000_cppui_modular546;
 
                         /*constexpr static const std::array<non_residue_type, 3> Frobenius_coeffs_c1 =
@@ -121,7 +123,7 @@ namespace nil {
 
                     template<std::size_t Version>
                     constexpr typename fp3_extension_params<edwards_base_field<Version>>::extended_integral_type const
-                        fp3_extension_params<edwards_base_field<Version>>::group_order;
+                        fp3_extension_params<edwards_base_field<Version>>::group_order_minus_one_half;
 
                     template<std::size_t Version>
                     constexpr typename fp3_extension_params<edwards_base_field<Version>>::integral_type const
-- 
2.43.0


From 1671636186ec6a60837b49b75a93b363d475e78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:35 +0000
Subject: [PATCH 16/59] fix: Frobenius coefficients of the bn128 tower

---
 .../bn128/fp12_2over3over2.hpp                | 26 +++++++++++++++++--
 .../detail/extension_params/bn128/fp2.hpp     |  3 ++-
 .../extension_params/bn128/fp6_3over2.hpp     | 26 +++++++++++++++++--
 3 files changed, 50 insertions(+), 5 deletions(-)

diff --git a/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp12_2over3over2.hpp b/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp12_2over3over2.hpp
index 8f82ecc..3d8b897 100644
--- a/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp12_2over3over2.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp12_2over3over2.hpp
@@ -79,8 +79,30 @@ namespace nil {
                             non_residue_type(0x00, 0x00)};*/
 
                         constexpr static const std::array<integral_type, 12 * 2> Frobenius_coeffs_c1 = {
-                            0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
-                            0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00};
+                            0x01,
+                            0x00,
+                            0x1284B71C2865A7DFE8B99FDD76E68B605C521E08292F2176D60B35DADCC9E470_cppui_modular253,
+                            0x246996F3B4FAE7E6A6327CFE12150B8E747992778EEEC7E5CA5CF05F80F362AC_cppui_modular254,
+                            0x30644E72E131A0295E6DD9E7E0ACCCB0C28F069FBB966E3DE4BD44E5607CFD49_cppui_modular254,
+                            0x00,
+                            0x19DC81CFCC82E4BBEFE9608CD0ACAA90894CB38DBE55D24AE86F7D391ED4A67F_cppui_modular253,
+                            0xABF8B60BE77D7306CBEEE33576139D7F03A5E397D439EC7694AA2BF4C0C101_cppui_modular248,
+                            0x30644E72E131A0295E6DD9E7E0ACCCB0C28F069FBB966E3DE4BD44E5607CFD48_cppui_modular254,
+                            0x00,
+                            0x757CAB3A41D3CDC072FC0AF59C61F302CFA95859526B0D41264475E420AC20F_cppui_modular251,
+                            0xCA6B035381E35B618E9B79BA4E2606CA20B7DFD71573C93E85845E34C4A5B9C_cppui_modular252,
+                            0x30644E72E131A029B85045B68181585D97816A916871CA8D3C208C16D87CFD46_cppui_modular254,
+                            0x00,
+                            0x1DDF9756B8CBF849CF96A5D90A9ACCFD3B2F4C893F42A9166615563BFBB318D7_cppui_modular253,
+                            0xBFAB77F2C36B843121DC8B86F6C4CCF2307D819D98302A771C39BB757899A9B_cppui_modular252,
+                            0x59E26BCEA0D48BACD4F263F1ACDB5C4F5763473177FFFFFE_cppui_modular191,
+                            0x00,
+                            0x1687CCA314AEBB6DC866E529B0D4ADCD0E34B703AA1BF84253B10EDDB9A856C8_cppui_modular253,
+                            0x2FB855BCD54A22B6B18456D34C0B44C0187DC4ADD09D90A0C58BE1EAE3BC3C46_cppui_modular254,
+                            0x59E26BCEA0D48BACD4F263F1ACDB5C4F5763473177FFFFFF_cppui_modular191,
+                            0x00,
+                            0x290C83BF3D14634DB120850727BB392D6A86D50BD34B19B929BC44B896723B38_cppui_modular254,
+                            0x23BD9E3DA9136A739F668E1ADC9EF7F0F575EC93F71A8DF953C846338C32A1AB_cppui_modular254};
 
                         constexpr static const non_residue_type non_residue = non_residue_type(0x09u, 0x01u);
                     };
diff --git a/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp2.hpp b/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp2.hpp
index 61cc058..137a42d 100644
--- a/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp2.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp2.hpp
@@ -81,7 +81,8 @@ namespace nil {
                         /*constexpr static const std::array<non_residue_type, 2> Frobenius_coeffs_c1 =
                            {non_residue_type(0x00), non_residue_type(0x00)};*/
 
-                        constexpr static const std::array<integral_type, 2> Frobenius_coeffs_c1 = {0x00, 0x00};
+                        constexpr static const std::array<integral_type, 2> Frobenius_coeffs_c1 = {
+                            0x01, 0x30644E72E131A029B85045B68181585D97816A916871CA8D3C208C16D87CFD46_cppui_modular254};
 
                         constexpr static const non_residue_type non_residue = non_residue_type(
                             0x30644E72E131A029B85045B68181585D97816A916871CA8D3C208C16D87CFD46_cppui_modular254);
diff --git a/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp6_3over2.hpp b/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp6_3over2.hpp
index c634fea..3685378 100644
--- a/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp6_3over2.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp6_3over2.hpp
@@ -77,10 +77,32 @@ namespace nil {
                             non_residue_type(0x00, 0x00)};*/
 
                         constexpr static const std::array<integral_type, 6 * 2> Frobenius_coeffs_c1 = {
-                            0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00};
+                            0x01,
+                            0x00,
+                            0x2FB347984F7911F74C0BEC3CF559B143B78CC310C2C3330C99E39557176F553D_cppui_modular254,
+                            0x16C9E55061EBAE204BA4CC8BD75A079432AE2A1D0B7C9DCE1665D51C640FCBA2_cppui_modular253,
+                            0x30644E72E131A0295E6DD9E7E0ACCCB0C28F069FBB966E3DE4BD44E5607CFD48_cppui_modular254,
+                            0x00,
+                            0x856E078B755EF0ABAFF1C77959F25AC805FFD3D5D6942D37B746EE87BDCFB6D_cppui_modular252,
+                            0x4F1DE41B3D1766FA9F30E6DEC26094F0FDF31BF98FF2631380CAB2BAAA586DE_cppui_modular251,
+                            0x59E26BCEA0D48BACD4F263F1ACDB5C4F5763473177FFFFFE_cppui_modular191,
+                            0x00,
+                            0x28BE74D4BB943F51699582B87809D9CAF71614D4B0B71F3A62E913EE1DADA9E4_cppui_modular254,
+                            0x14A88AE0CB747B99C2B86ABCBE01477A54F40EB4C3F6068DEDAE0BCEC9C7AAC7_cppui_modular253};
 
                         constexpr static const std::array<integral_type, 6 * 2> Frobenius_coeffs_c2 = {
-                            0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00};
+                            0x01,
+                            0x00,
+                            0x5B54F5E64EEA80180F3C0B75A181E84D33365F7BE94EC72848A1F55921EA762_cppui_modular251,
+                            0x2C145EDBE7FD8AEE9F3A80B03B0B1C923685D2EA1BDEC763C13B4711CD2B8126_cppui_modular254,
+                            0x59E26BCEA0D48BACD4F263F1ACDB5C4F5763473177FFFFFE_cppui_modular191,
+                            0x00,
+                            0xBC58C6611C08DAB19BEE0F7B5B2444EE633094575B06BCB0E1A92BC3CCBF066_cppui_modular252,
+                            0x23D5E999E1910A12FEB0F6EF0CD21D04A44A9E08737F96E55FE3ED9D730C239F_cppui_modular254,
+                            0x30644E72E131A0295E6DD9E7E0ACCCB0C28F069FBB966E3DE4BD44E5607CFD48_cppui_modular254,
+                            0x00,
+                            0x1EE972AE6A826A7D1D9DA40771B6F589DE1AFB54342C724FA97BDA050992657F_cppui_modular253,
+                            0x10DE546FF8D4AB51D2B513CDBB25772454326430418536D15721E37E70C255C9_cppui_modular253};
 
                         constexpr static const non_residue_type non_residue = non_residue_type(0x09u, 0x01u);
                     };
-- 
2.43.0


From db68bdd55fc35d87719f678ac7c0308970a050e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:15 +0000
Subject: [PATCH 17/59] fix: last Frobenius coefficient of the mnt6 sextic
 extension

---
 .../algebra/fields/detail/extension_params/mnt6/fp6_2over3.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/fields/detail/extension_params/mnt6/fp6_2over3.hpp b/include/nil/crypto3/algebra/fields/detail/extension_params/mnt6/fp6_2over3.hpp
index 16a8769..235ec33 100644
--- a/include/nil/crypto3/algebra/fields/detail/extension_params/mnt6/fp6_2over3.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/extension_params/mnt6/fp6_2over3.hpp
@@ -74,7 +74,7 @@ namespace nil {
                             0x3B48E50A1662E26F0E834E15FAF68204A9845655F46B277A6D05B75068AD3F6801655344BEC_cppui_modular298,
                             0x3BCF7BCD473A266249DA7B0548ECAEEC9635CF44194FB494C07925D6AD3BB4334A400000000_cppui_modular298,
                             0x8696C330D743F33B572CEF4DF62CE7ECB178EE24E48D1A53736E86448E74CB48DAACBB414_cppui_modular292,
-                            0x8696C330D743F33B572CEF4DF62CE7ECB178EE24E48D1A53736E86448E74CB48DAACBB414_cppui_modular293};
+                            0x8696C330D743F33B572CEF4DF62CE7ECB178EE24E48D1A53736E86448E74CB48DAACBB415_cppui_modular292};
 
                         constexpr static const non_residue_type non_residue = non_residue_type(0x05u);
                     };
-- 
2.43.0


From 073dc5e7a8fae8cdc898280d025d4f53fd6d53af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:13 +0000
Subject: [PATCH 18/59] fix: jacobian mixed addition doubles equal points

---
 .../detail/forms/short_weierstrass/jacobian/element_g1.hpp  | 6 ++++++
 .../short_weierstrass/jacobian_with_a4_0/element_g1.hpp     | 6 ++++++
 .../jacobian_with_a4_minus_3/element_g1.hpp                 | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp
index e5a2be3..e478438 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp
@@ -321,6 +321,12 @@ namespace nil {
                                 return;
                             }
 
+                            // the addition formulas are of no use for doubling
+                            if (*this == other) {
+                                double_inplace();
+                                return;
+                            }
+
                             mixed_addition_processor::process(*this, other);
                         }
 
diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp
index 3dc7d59..4409a62 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp
@@ -325,6 +325,12 @@ namespace nil {
                                 return;
                             }
 
+                            // the addition formulas are of no use for doubling
+                            if (*this == other) {
+                                double_inplace();
+                                return;
+                            }
+
                             mixed_addition_processor::process(*this, other);
                         }
 
diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
index b9fa259..7f0e838 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
@@ -329,6 +329,12 @@ namespace nil {
                                 return;
                             }
 
+                            // the addition formulas are of no use for doubling
+                            if (*this == other) {
+                                double_inplace();
+                                return;
+                            }
+
                             mixed_addition_processor::process(*this, other);
                         }
 
-- 
2.43.0


From eb68e21728f09966bc36137205277a15bec9bd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:13 +0000
Subject: [PATCH 19/59] fix: affine negation of zero and doubling of a point of
 order two

---
 .../detail/forms/short_weierstrass/element_g1_affine.hpp  | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
index 6b18de7..93a99e3 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
@@ -218,6 +218,9 @@ namespace nil {
 
 
                         constexpr curve_element operator-() const {
+                            if (this->is_zero()) {
+                                return zero();
+                            }
                             return curve_element(this->X, -this->Y);
                         }
 
@@ -237,7 +240,10 @@ namespace nil {
                          */
                         constexpr void double_inplace() {
 
-                            if (!this->is_zero()) {
+                            if (Y.is_zero()) {
+                                // a point of order two
+                                *this = zero();
+                            } else if (!this->is_zero()) {
                                 field_value_type Xsquared3pa = 3u * X.squared() + params_type::a;
                                 field_value_type Y2squared = Y.doubled().squared();
                                 field_value_type Y2i = Y.doubled().inversed();
-- 
2.43.0


From 7215e1f17b6c2f60d620d835140136b684db0438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:18 +0000
Subject: [PATCH 20/59] fix: extended twisted edwards mixed addition of points
 differing by a small-order point

---
 .../extended_with_a_minus_1/element_g1.hpp               | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp
index 935dcb9..27b7009 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp
@@ -302,7 +302,14 @@ namespace nil {
                                 return;
                             }
 
-                            mixed_addition_processor::process(*this, other);
+                            curve_element sum = *this;
+                            mixed_addition_processor::process(sum, other);
+                            if (sum.Z.is_zero()) {
+                                // the mixed formulas fail on points which differ by a point of small order
+                                common_addition_processor::process(*this, other);
+                                return;
+                            }
+                            *this = sum;
                         }
 
                         friend std::ostream& operator<<(std::ostream& os, curve_element const& e)
-- 
2.43.0


From a9e1c6f31fad262da9e779ad33482365fff6bead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:18 +0000
Subject: [PATCH 21/59] fix: montgomery negation of the point at infinity

---
 .../curves/detail/forms/montgomery/element_g1_affine.hpp       | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp b/include/nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp
index 8cd3d7b..9306f54 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp
@@ -251,6 +251,9 @@ namespace nil {
                          * @return negative element from group G1
                          */
                         constexpr curve_element operator-() const {
+                            if (this->is_zero()) {
+                                return curve_element();
+                            }
                             return curve_element(this->X, -(this->Y));
                         }
 
-- 
2.43.0


From 4045e9555bb78c1d0f7cd1206cc7d6523387b059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:36 +0000
Subject: [PATCH 22/59] fix: edwards inverted mixed addition keeps the other
 operand

---
 .../algebra/curves/detail/forms/edwards/inverted/element_g1.hpp  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/edwards/inverted/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/edwards/inverted/element_g1.hpp
index c40d572..435213f 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/edwards/inverted/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/edwards/inverted/element_g1.hpp
@@ -276,6 +276,7 @@ namespace nil {
                         constexpr void mixed_add(const curve_element &other) {
                             // handle special cases having to do with O
                             if (this->is_zero()) {
+                                *this = other;
                                 return;
                             }
                             if (other.is_zero()) {
-- 
2.43.0


From 30cb1e3a32836f5f82ecebe258f1992fcc263ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:50 +0000
Subject: [PATCH 23/59] fix: edwards inverted doubling multiplies its constants
 in the field

---
 .../curves/detail/forms/edwards/inverted/dbl_2007_bl.hpp     | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/edwards/inverted/dbl_2007_bl.hpp b/include/nil/crypto3/algebra/curves/detail/forms/edwards/inverted/dbl_2007_bl.hpp
index 7a3f927..56b861d 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/edwards/inverted/dbl_2007_bl.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/edwards/inverted/dbl_2007_bl.hpp
@@ -53,8 +53,9 @@ namespace nil {
                                 field_value_type D = A - B;                                // D = A-B
                                 field_value_type E = (first.X + first.Y).squared() - C;    // E = (X1+Y1)^2-C
                                 first.X = C * D;                               // X3 = C*D
-                                field_value_type dZZ = ElementType::params_type::c * ElementType::params_type::c *
-                                                       ElementType::params_type::d * first.Z.squared();
+                                // every product is one in the field: c*c*d need not fit the integral type
+                                field_value_type dZZ = ElementType::params_type::c * (ElementType::params_type::c *
+                                                       (ElementType::params_type::d * first.Z.squared()));
                                 first.Y = E * (C - dZZ - dZZ);                    // Y3 = E*(C-c*c*2*d*Z1^2)
                                 first.Z = ElementType::params_type::c * D * E;    // Z3 = c*D*E
                             }
-- 
2.43.0


From 0ecdde7f52f556bc3549a663f9423ad145bb7ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:36 +0000
Subject: [PATCH 24/59] fix: jacobian (a=-3) to affine divides y by the cube of
 z

---
 .../short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
index 7f0e838..d2e8efd 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
@@ -216,7 +216,7 @@ namespace nil {
 
                             auto Zi = Z.inversed();
 
-                            return result_type(X * Zi * Zi, Y * Zi * Zi);    //  x=X/Z^2, y=Y/Z^3
+                            return result_type(X * Zi * Zi, Y * Zi * Zi * Zi);    //  x=X/Z^2, y=Y/Z^3
                         }
 
                         /** @brief
-- 
2.43.0


From 7168f046e6d41e10e358089f2740507931571551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:36 +0000
Subject: [PATCH 25/59] fix: projective (a=-3) validity test checks the curve
 equation

---
 .../projective_with_a4_minus_3/element_g1.hpp                 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp
index 53b95a5..05351b0 100755
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp
@@ -165,13 +165,13 @@ namespace nil {
                                   z y^2 = x^3  + a z^2 x + b z^3
                                   z (y^2 - b z^2) = x ( x^2 + a z^2)
 
-                                  z (y^2 - b z^2) = x ( x^2 - z^2)
+                                  z (y^2 - b z^2) = x ( x^2 - 3 z^2)
                                 */
                                 const field_value_type X2 = this->X.squared();
                                 const field_value_type Y2 = this->Y.squared();
                                 const field_value_type Z2 = this->Z.squared();
 
-                                return (this->Z * (Y2 - params_type::b * Z2) == this->X * (X2 - Z2));
+                                return (this->Z * (Y2 - params_type::b * Z2) == this->X * (X2 - Z2.doubled() - Z2));
                             }
                         }
 
-- 
2.43.0


From 36a633fd08b1f850e1b42a83b2f93307841c9081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:12 +0000
Subject: [PATCH 26/59] fix: twisted edwards zero converts to inverted and
 extended zero

---
 .../detail/forms/twisted_edwards/element_g1_affine.hpp    | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp b/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp
index 2bbbbde..32ff340 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp
@@ -194,6 +194,10 @@ namespace nil {
                             using result_type =
                                 curve_element<params_type, form, typename curves::coordinates::inverted>;
 
+                            if (is_zero()) {
+                                return result_type::zero();
+                            }
+
                             return result_type(
                                 X.inversed(), Y.inversed(),
                                 result_type::field_type::value_type::one());    // X = x^(-1), Y = y^(-1), Z = 1
@@ -211,6 +215,10 @@ namespace nil {
                             using result_type =
                                 curve_element<params_type, form, typename curves::coordinates::extended_with_a_minus_1>;
 
+                            if (is_zero()) {
+                                return result_type::zero();
+                            }
+
                             return result_type(X, Y, X * Y,
                                                result_type::field_type::value_type::one());    // x=X/Z, y=Y/Z, x*y=T/Z
                         }
-- 
2.43.0


From b4ad9df3aa5195e8cea12346723f351d07df2b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:41 +0000
Subject: [PATCH 27/59] fix: curve25519 montgomery coefficients carry the names
 their group reads

---
 .../algebra/curves/detail/curve25519/params.hpp      | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/curve25519/params.hpp b/include/nil/crypto3/algebra/curves/detail/curve25519/params.hpp
index 6f4e5f9..eed7c80 100644
--- a/include/nil/crypto3/algebra/curves/detail/curve25519/params.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/curve25519/params.hpp
@@ -45,12 +45,12 @@ namespace nil {
                         using base_field_type = typename curve25519_types::base_field_type;
                         using scalar_field_type = typename curve25519_types::scalar_field_type;
 
-                        constexpr static typename curve25519_types::integral_type a =
+                        constexpr static typename curve25519_types::integral_type A =
                             typename curve25519_types::integral_type(
-                                0x76d06);    ///< coefficient of Montgomery curve $b*y^2=x^3+a*x^2+x$
-                        constexpr static typename curve25519_types::integral_type b =
+                                0x76d06);    ///< coefficient of Montgomery curve $B*y^2=x^3+A*x^2+x$
+                        constexpr static typename curve25519_types::integral_type B =
                             typename curve25519_types::integral_type(
-                                0x01);    ///< coefficient of Montgomery curve $b*y^2=x^3+a*x^2+x$
+                                0x01);    ///< coefficient of Montgomery curve $B*y^2=x^3+A*x^2+x$
                     };
 
                     template<>
@@ -128,8 +128,8 @@ namespace nil {
                     };
 #ifdef __ZKLLVM__
 #else
-                    constexpr typename curve25519_types::integral_type curve25519_params<forms::montgomery>::a;
-                    constexpr typename curve25519_types::integral_type curve25519_params<forms::montgomery>::b;
+                    constexpr typename curve25519_types::integral_type curve25519_params<forms::montgomery>::A;
+                    constexpr typename curve25519_types::integral_type curve25519_params<forms::montgomery>::B;
 
                     constexpr std::array<typename curve25519_g1_params<forms::montgomery>::field_type::value_type, 2>
                         curve25519_g1_params<forms::montgomery>::zero_fill;
-- 
2.43.0


From d8ae074818aca1eb8b5965bc62b25e5f9039ab3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:30 +0000
Subject: [PATCH 28/59] fix: twisted edwards inverted doubling doubles d in the
 field

---
 .../detail/forms/twisted_edwards/inverted/dbl_2008_bbjlp.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/inverted/dbl_2008_bbjlp.hpp b/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/inverted/dbl_2008_bbjlp.hpp
index 2985022..cc79a9c 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/inverted/dbl_2008_bbjlp.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/inverted/dbl_2008_bbjlp.hpp
@@ -52,10 +52,9 @@ namespace nil {
                                 field_value_type C = A + U;                                    // C = A+U
                                 field_value_type D = A - U;                                    // D = A-U
                                 field_value_type E = (first.X + first.Y).squared() - A - B;    // E = (X1+Y1)^2-A-B
-                                field_value_type d2 =
-                                    ElementType::params_type::d + ElementType::params_type::d;    // d2=2*d
+                                field_value_type dZZ = ElementType::params_type::d * first.Z.squared();    // d*Z1^2
                                 first.X = C * D;                                   // X3 = C*D
-                                first.Y = E * (C - d2 * first.Z.squared());           // Y3 = E*(C-d2*Z1^2)
+                                first.Y = E * (C - dZZ - dZZ);                      // Y3 = E*(C-2*d*Z1^2)
                                 first.Z = D * E;                                      // Z3 = D*E
                             }
                         }
-- 
2.43.0


From 2177cde29e70ac93e088eb000c8d6480b6efaff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:52 +0000
Subject: [PATCH 29/59] fix: Bos-Coster multiexp of all-zero scalars is zero

---
 include/nil/crypto3/algebra/multiexp/policies.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/nil/crypto3/algebra/multiexp/policies.hpp b/include/nil/crypto3/algebra/multiexp/policies.hpp
index 03bba5a..245b478 100644
--- a/include/nil/crypto3/algebra/multiexp/policies.hpp
+++ b/include/nil/crypto3/algebra/multiexp/policies.hpp
@@ -264,6 +264,11 @@ namespace nil {
 
                         base_value_type opt_result = base_value_type::zero();
 
+                        // every scalar is zero
+                        if (opt_q[0].r.is_zero()) {
+                            return opt_result;
+                        }
+
                         while (true) {
                             detail::ordered_exponent<non_fixed_precision_number_type> &a = opt_q[0];
                             detail::ordered_exponent<non_fixed_precision_number_type> &b =
-- 
2.43.0


From ebb07c021fca2109f59abd920eae721d0a2c4199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:52 +0000
Subject: [PATCH 30/59] fix: BDLO12 multiexp of an empty range is zero

---
 include/nil/crypto3/algebra/multiexp/policies.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nil/crypto3/algebra/multiexp/policies.hpp b/include/nil/crypto3/algebra/multiexp/policies.hpp
index 245b478..e6d5a8d 100644
--- a/include/nil/crypto3/algebra/multiexp/policies.hpp
+++ b/include/nil/crypto3/algebra/multiexp/policies.hpp
@@ -110,6 +110,10 @@ namespace nil {
                         std::size_t length = std::distance(bases, bases_end);
                         assert(length == std::distance(exponents, exponents_end));
 
+                        if (length == 0) {
+                            return base_value_type::zero();
+                        }
+
                         // empirically, this seems to be a decent estimate of the optimal value of c
                         std::size_t log2_length = std::log2(length);
                         std::size_t c = log2_length - (log2_length / 3 - 2);
-- 
2.43.0


From 8ff5ab30985130d763cbd77f6c637e548c0d04b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:52 +0000
Subject: [PATCH 31/59] fix: window size for fewer scalars than the smallest
 table entry

---
 include/nil/crypto3/algebra/multiexp/multiexp.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/multiexp/multiexp.hpp b/include/nil/crypto3/algebra/multiexp/multiexp.hpp
index 281b954..1d23cd9 100644
--- a/include/nil/crypto3/algebra/multiexp/multiexp.hpp
+++ b/include/nil/crypto3/algebra/multiexp/multiexp.hpp
@@ -126,8 +126,7 @@ namespace nil {
 
                 std::size_t window = 1;
 
-                for (std::size_t i = curves::multiexp_params<GroupType>::fixed_base_exp_window_table.size() - 1; i >= 0;
-                     --i) {
+                for (std::size_t i = curves::multiexp_params<GroupType>::fixed_base_exp_window_table.size(); i-- > 0;) {
                     if (curves::multiexp_params<GroupType>::fixed_base_exp_window_table[i] != 0 &&
                         num_scalars >= curves::multiexp_params<GroupType>::fixed_base_exp_window_table[i]) {
                         window = i + 1;
-- 
2.43.0


From 56e48f1df6389cc83bc1a7e18a54841b357124a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:01 +0000
Subject: [PATCH 32/59] fix: pairing with the point at infinity of G2 is one

---
 .../pairing/edwards/183/ate_double_miller_loop.hpp        | 8 ++++++++
 .../algebra/pairing/edwards/183/ate_miller_loop.hpp       | 4 ++++
 .../algebra/pairing/edwards/183/ate_precompute_g2.hpp     | 5 +++++
 .../jacobian_with_a4_0/ate_double_miller_loop.hpp         | 8 ++++++++
 .../jacobian_with_a4_0/ate_miller_loop.hpp                | 4 ++++
 .../jacobian_with_a4_0/ate_precompute_g2.hpp              | 5 +++++
 .../short_weierstrass/projective/ate_precompute_g2.hpp    | 5 +++++
 .../algebra/pairing/mnt4/298/ate_double_miller_loop.hpp   | 8 ++++++++
 .../crypto3/algebra/pairing/mnt4/298/ate_miller_loop.hpp  | 4 ++++
 .../algebra/pairing/mnt6/298/ate_double_miller_loop.hpp   | 8 ++++++++
 .../crypto3/algebra/pairing/mnt6/298/ate_miller_loop.hpp  | 4 ++++
 11 files changed, 63 insertions(+)

diff --git a/include/nil/crypto3/algebra/pairing/edwards/183/ate_double_miller_loop.hpp b/include/nil/crypto3/algebra/pairing/edwards/183/ate_double_miller_loop.hpp
index 8506292..68c3a32 100644
--- a/include/nil/crypto3/algebra/pairing/edwards/183/ate_double_miller_loop.hpp
+++ b/include/nil/crypto3/algebra/pairing/edwards/183/ate_double_miller_loop.hpp
@@ -32,6 +32,7 @@
 #include <nil/crypto3/algebra/curves/edwards.hpp>
 #include <nil/crypto3/algebra/pairing/detail/edwards/183/params.hpp>
 #include <nil/crypto3/algebra/pairing/detail/edwards/183/types.hpp>
+#include <nil/crypto3/algebra/pairing/edwards/183/ate_miller_loop.hpp>
 
 namespace nil {
     namespace crypto3 {
@@ -56,6 +57,13 @@ namespace nil {
                                 const typename policy_type::ate_g1_precomputed_type &prec_P2,
                                 const typename policy_type::ate_g2_precomputed_type &prec_Q2) {
 
+                        if (prec_Q1.empty()) {
+                            return edwards_ate_miller_loop<183>::process(prec_P2, prec_Q2);
+                        }
+                        if (prec_Q2.empty()) {
+                            return edwards_ate_miller_loop<183>::process(prec_P1, prec_Q1);
+                        }
+
                         typename gt_type::value_type f = gt_type::value_type::one();
 
                         bool found_one = false;
diff --git a/include/nil/crypto3/algebra/pairing/edwards/183/ate_miller_loop.hpp b/include/nil/crypto3/algebra/pairing/edwards/183/ate_miller_loop.hpp
index 0333c9c..28b7b11 100644
--- a/include/nil/crypto3/algebra/pairing/edwards/183/ate_miller_loop.hpp
+++ b/include/nil/crypto3/algebra/pairing/edwards/183/ate_miller_loop.hpp
@@ -53,6 +53,10 @@ namespace nil {
                     static typename gt_type::value_type process(const policy_type::ate_g1_precomputed_type &prec_P,
                                                                 const policy_type::ate_g2_precomputed_type &prec_Q) {
 
+                        if (prec_Q.empty()) {
+                            return gt_type::value_type::one();
+                        }
+
                         typename gt_type::value_type f = gt_type::value_type::one();
 
                         bool found_one = false;
diff --git a/include/nil/crypto3/algebra/pairing/edwards/183/ate_precompute_g2.hpp b/include/nil/crypto3/algebra/pairing/edwards/183/ate_precompute_g2.hpp
index b9ec6cc..08aecd6 100644
--- a/include/nil/crypto3/algebra/pairing/edwards/183/ate_precompute_g2.hpp
+++ b/include/nil/crypto3/algebra/pairing/edwards/183/ate_precompute_g2.hpp
@@ -165,6 +165,11 @@ namespace nil {
                     static g2_precomputed_type process(const typename g2_type::value_type &Q) {
 
                         g2_precomputed_type result;
+                        if (Q.is_zero()) {
+                            /* the point at infinity has no lines to evaluate */
+                            return result;
+                        }
+
                         typename g2_affine_type::value_type Qcopy = Q.to_affine();
                         extended_g2_projective Q_ext;
                         Q_ext.X = Qcopy.X;
diff --git a/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/jacobian_with_a4_0/ate_double_miller_loop.hpp b/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/jacobian_with_a4_0/ate_double_miller_loop.hpp
index bde1c27..0ad918a 100644
--- a/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/jacobian_with_a4_0/ate_double_miller_loop.hpp
+++ b/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/jacobian_with_a4_0/ate_double_miller_loop.hpp
@@ -30,6 +30,7 @@
 #include <nil/crypto3/multiprecision/cpp_int_modular.hpp>
 
 #include <nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/jacobian_with_a4_0/types.hpp>
+#include <nil/crypto3/algebra/pairing/forms/short_weierstrass/jacobian_with_a4_0/ate_miller_loop.hpp>
 
 namespace nil {
     namespace crypto3 {
@@ -52,6 +53,13 @@ namespace nil {
                                 const typename policy_type::ate_g1_precomputed_type &prec_P2,
                                 const typename policy_type::ate_g2_precomputed_type &prec_Q2) {
 
+                        if (prec_Q1.coeffs.empty()) {
+                            return short_weierstrass_jacobian_with_a4_0_ate_miller_loop<curve_type>::process(prec_P2, prec_Q2);
+                        }
+                        if (prec_Q2.coeffs.empty()) {
+                            return short_weierstrass_jacobian_with_a4_0_ate_miller_loop<curve_type>::process(prec_P1, prec_Q1);
+                        }
+
                         typename gt_type::value_type f = gt_type::value_type::one();
 
                         bool found_one = false;
diff --git a/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/jacobian_with_a4_0/ate_miller_loop.hpp b/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/jacobian_with_a4_0/ate_miller_loop.hpp
index 4a8cdba..36c1bc5 100644
--- a/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/jacobian_with_a4_0/ate_miller_loop.hpp
+++ b/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/jacobian_with_a4_0/ate_miller_loop.hpp
@@ -50,6 +50,10 @@ namespace nil {
                         process(const typename policy_type::ate_g1_precomputed_type &prec_P,
                                 const typename policy_type::ate_g2_precomputed_type &prec_Q) {
 
+                        if (prec_Q.coeffs.empty()) {
+                            return gt_type::value_type::one();
+                        }
+
                         typename gt_type::value_type f = gt_type::value_type::one();
 
                         bool found_one = false;
diff --git a/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/jacobian_with_a4_0/ate_precompute_g2.hpp b/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/jacobian_with_a4_0/ate_precompute_g2.hpp
index 4aa8568..3bed2e1 100644
--- a/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/jacobian_with_a4_0/ate_precompute_g2.hpp
+++ b/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/jacobian_with_a4_0/ate_precompute_g2.hpp
@@ -113,6 +113,11 @@ namespace nil {
                         result.QX = Qcopy.X;
                         result.QY = Qcopy.Y;
 
+                        if (Q.is_zero()) {
+                            /* the point at infinity has no lines to evaluate */
+                            return result;
+                        }
+
                         typename g2_type::value_type R;
                         R.X = Qcopy.X;
                         R.Y = Qcopy.Y;
diff --git a/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/projective/ate_precompute_g2.hpp b/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/projective/ate_precompute_g2.hpp
index 10a892c..4163fe9 100644
--- a/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/projective/ate_precompute_g2.hpp
+++ b/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/projective/ate_precompute_g2.hpp
@@ -127,6 +127,11 @@ namespace nil {
                         result.QX_over_twist = Qcopy.X * twist_inv;
                         result.QY_over_twist = Qcopy.Y * twist_inv;
 
+                        if (Q.is_zero()) {
+                            /* the point at infinity has no lines to evaluate */
+                            return result;
+                        }
+
                         extended_g2_projective R;
                         R.X = Qcopy.X;
                         R.Y = Qcopy.Y;
diff --git a/include/nil/crypto3/algebra/pairing/mnt4/298/ate_double_miller_loop.hpp b/include/nil/crypto3/algebra/pairing/mnt4/298/ate_double_miller_loop.hpp
index ab82064..bd3d611 100644
--- a/include/nil/crypto3/algebra/pairing/mnt4/298/ate_double_miller_loop.hpp
+++ b/include/nil/crypto3/algebra/pairing/mnt4/298/ate_double_miller_loop.hpp
@@ -31,6 +31,7 @@
 
 #include <nil/crypto3/algebra/curves/mnt4.hpp>
 #include <nil/crypto3/algebra/pairing/detail/mnt4/298/params.hpp>
+#include <nil/crypto3/algebra/pairing/mnt4/298/ate_miller_loop.hpp>
 #include <nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/projective/types.hpp>
 
 namespace nil {
@@ -63,6 +64,13 @@ namespace nil {
                                 const typename policy_type::ate_g1_precomputed_type &prec_P2,
                                 const typename policy_type::ate_g2_precomputed_type &prec_Q2) {
 
+                        if (prec_Q1.dbl_coeffs.empty()) {
+                            return mnt4_ate_miller_loop<298>::process(prec_P2, prec_Q2);
+                        }
+                        if (prec_Q2.dbl_coeffs.empty()) {
+                            return mnt4_ate_miller_loop<298>::process(prec_P1, prec_Q1);
+                        }
+
                         g2_field_type_value L1_coeff1 =
                             g2_field_type_value(prec_P1.PX, g1_field_type_value::zero()) - prec_Q1.QX_over_twist;
                         g2_field_type_value L1_coeff2 =
diff --git a/include/nil/crypto3/algebra/pairing/mnt4/298/ate_miller_loop.hpp b/include/nil/crypto3/algebra/pairing/mnt4/298/ate_miller_loop.hpp
index df5d2b6..50302eb 100644
--- a/include/nil/crypto3/algebra/pairing/mnt4/298/ate_miller_loop.hpp
+++ b/include/nil/crypto3/algebra/pairing/mnt4/298/ate_miller_loop.hpp
@@ -60,6 +60,10 @@ namespace nil {
                     static typename gt_type::value_type process(const policy_type::ate_g1_precomputed_type &prec_P,
                                                                 const policy_type::ate_g2_precomputed_type &prec_Q) {
 
+                        if (prec_Q.dbl_coeffs.empty()) {
+                            return gt_type::value_type::one();
+                        }
+
                         g2_field_type_value L1_coeff =
                             g2_field_type_value(prec_P.PX, g1_field_type_value::zero()) -
                             prec_Q.QX_over_twist;
diff --git a/include/nil/crypto3/algebra/pairing/mnt6/298/ate_double_miller_loop.hpp b/include/nil/crypto3/algebra/pairing/mnt6/298/ate_double_miller_loop.hpp
index 1d3b223..142503e 100644
--- a/include/nil/crypto3/algebra/pairing/mnt6/298/ate_double_miller_loop.hpp
+++ b/include/nil/crypto3/algebra/pairing/mnt6/298/ate_double_miller_loop.hpp
@@ -31,6 +31,7 @@
 
 #include <nil/crypto3/algebra/curves/mnt6.hpp>
 #include <nil/crypto3/algebra/pairing/detail/mnt6/298/params.hpp>
+#include <nil/crypto3/algebra/pairing/mnt6/298/ate_miller_loop.hpp>
 #include <nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/projective/types.hpp>
 
 namespace nil {
@@ -63,6 +64,13 @@ namespace nil {
                                 const typename policy_type::ate_g1_precomputed_type &prec_P2,
                                 const typename policy_type::ate_g2_precomputed_type &prec_Q2) {
 
+                        if (prec_Q1.dbl_coeffs.empty()) {
+                            return mnt6_ate_miller_loop<298>::process(prec_P2, prec_Q2);
+                        }
+                        if (prec_Q2.dbl_coeffs.empty()) {
+                            return mnt6_ate_miller_loop<298>::process(prec_P1, prec_Q1);
+                        }
+
                         g2_field_type_value L1_coeff1 =
                             g2_field_type_value(prec_P1.PX, g1_field_type_value::zero(), g1_field_type_value::zero()) -
                             prec_Q1.QX_over_twist;
diff --git a/include/nil/crypto3/algebra/pairing/mnt6/298/ate_miller_loop.hpp b/include/nil/crypto3/algebra/pairing/mnt6/298/ate_miller_loop.hpp
index 52b7f1a..ca2b8c7 100644
--- a/include/nil/crypto3/algebra/pairing/mnt6/298/ate_miller_loop.hpp
+++ b/include/nil/crypto3/algebra/pairing/mnt6/298/ate_miller_loop.hpp
@@ -69,6 +69,10 @@ namespace nil {
                             const policy_type::ate_g1_precomputed_type &prec_P,
                             const policy_type::ate_g2_precomputed_type &prec_Q) {
 
+                        if (prec_Q.dbl_coeffs.empty()) {
+                            return gt_type::value_type::one();
+                        }
+
                         g2_field_type_value L1_coeff =
                             g2_field_type_value(prec_P.PX, g1_field_type_value::zero(), g1_field_type_value::zero()) -
                             prec_Q.QX_over_twist;
-- 
2.43.0


From c6f52891280195b9840cf2245d521cd6e01fd909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:01 +0000
Subject: [PATCH 33/59] fix: the isogeny maps its kernel to the identity

---
 include/nil/crypto3/algebra/curves/detail/h2c/h2c_iso_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/h2c/h2c_iso_map.hpp b/include/nil/crypto3/algebra/curves/detail/h2c/h2c_iso_map.hpp
index 559116c..fee4cda 100644
--- a/include/nil/crypto3/algebra/curves/detail/h2c/h2c_iso_map.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/h2c/h2c_iso_map.hpp
@@ -139,7 +139,7 @@ namespace nil {
                             y_den += xi_powers[k_y_den.size()];
 
                             if (x_den.is_zero() || y_den.is_zero()) {
-                                return group_value_type::one();
+                                return group_value_type::zero();
                             }
 
                             for (std::size_t i = 0; i < k_x_num.size(); i++) {
@@ -226,7 +226,7 @@ namespace nil {
                             y_den += xi_powers[k_y_den.size()];
 
                             if (x_den.is_zero() || y_den.is_zero()) {
-                                return group_value_type::one();
+                                return group_value_type::zero();
                             }
 
                             for (std::size_t i = 0; i < k_x_num.size(); i++) {
-- 
2.43.0


From 57e807e0ddc48770d30b5f87067645da49314f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:59 +0000
Subject: [PATCH 34/59] fix: arithmetic parameters of edwards and bn128 fields
 compile

---
 .../fields/arithmetic_params/bn128.hpp        | 18 ++++++++---------
 .../fields/arithmetic_params/edwards.hpp      | 20 +++++++++----------
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/include/nil/crypto3/algebra/fields/arithmetic_params/bn128.hpp b/include/nil/crypto3/algebra/fields/arithmetic_params/bn128.hpp
index 17a1939..b288aef 100644
--- a/include/nil/crypto3/algebra/fields/arithmetic_params/bn128.hpp
+++ b/include/nil/crypto3/algebra/fields/arithmetic_params/bn128.hpp
@@ -39,10 +39,10 @@ namespace nil {
         namespace algebra {
             namespace fields {
 
-                template<std::size_t Version>
-                struct arithmetic_params<bn128_base_field<Version>> : public params<bn128_base_field<Version>> {
+                template<>
+                struct arithmetic_params<bn128_base_field<254>> : public params<bn128_base_field<254>> {
                 private:
-                    typedef params<bn128_base_field<Version>> policy_type;
+                    typedef params<bn128_base_field<254>> policy_type;
 
                 public:
                     typedef typename policy_type::modular_type modular_type;
@@ -72,10 +72,10 @@ namespace nil {
                         0x183227397098D014DC2822DB40C0AC2ECBC0B548B438E5469E10460B6C3E7EA3_cppui_modular254;
                 };
 
-                template<std::size_t Version>
-                struct arithmetic_params<fp2<bn128_base_field<Version>>> : public params<bn128_base_field<Version>> {
+                template<>
+                struct arithmetic_params<fp2<bn128_base_field<254>>> : public params<bn128_base_field<254>> {
                 private:
-                    typedef params<bn128_base_field<Version>> policy_type;
+                    typedef params<bn128_base_field<254>> policy_type;
 
                 public:
                     typedef typename policy_type::modular_type modular_type;
@@ -98,10 +98,10 @@ namespace nil {
                         0x492E25C3B1E5FCE2CCD37BE01A4690E5805C2A88B1BAB031376FD2E1A6359C682344F4ABD09216425280C4E36CB656E5301039684F560809DAA2C5113AEB4D8_cppui_modular507;
                 };
 
-                template<std::size_t Version>
-                struct arithmetic_params<bn128_scalar_field<Version>> : public params<bn128_scalar_field<Version>> {
+                template<>
+                struct arithmetic_params<bn128_scalar_field<254>> : public params<bn128_scalar_field<254>> {
                 private:
-                    typedef params<bn128_scalar_field<Version>> policy_type;
+                    typedef params<bn128_scalar_field<254>> policy_type;
 
                 public:
                     typedef typename policy_type::modular_type modular_type;
diff --git a/include/nil/crypto3/algebra/fields/arithmetic_params/edwards.hpp b/include/nil/crypto3/algebra/fields/arithmetic_params/edwards.hpp
index 9144052..f560b9b 100644
--- a/include/nil/crypto3/algebra/fields/arithmetic_params/edwards.hpp
+++ b/include/nil/crypto3/algebra/fields/arithmetic_params/edwards.hpp
@@ -39,10 +39,10 @@ namespace nil {
         namespace algebra {
             namespace fields {
 
-                template<std::size_t Version>
-                struct arithmetic_params<edwards_base_field<Version>> : public params<edwards_base_field<Version>> {
+                template<>
+                struct arithmetic_params<edwards_base_field<183>> : public params<edwards_base_field<183>> {
                 private:
-                    typedef params<edwards_base_field<Version>> policy_type;
+                    typedef params<edwards_base_field<183>> policy_type;
 
                 public:
                     typedef typename policy_type::modular_type modular_type;
@@ -71,11 +71,11 @@ namespace nil {
                         0x206AFE4E951CAD89C5C9276B1A16A0DB75B485C0000000_cppui_modular182;
                 };
 
-                template<std::size_t Version>
-                struct arithmetic_params<fp3<edwards_base_field<Version>>>
-                    : public params<edwards_base_field<Version>> {
+                template<>
+                struct arithmetic_params<fp3<edwards_base_field<183>>>
+                    : public params<edwards_base_field<183>> {
                 private:
-                    typedef params<edwards_base_field<Version>> policy_type;
+                    typedef params<edwards_base_field<183>> policy_type;
 
                 public:
                     typedef typename policy_type::modular_type modular_type;
@@ -97,10 +97,10 @@ namespace nil {
                         0x214530CDE421990256A87901DDC6307E4ED27FAF4F877968EFCA129EF23243B915EF074F565027DAA0127ECF4EC788245754250524EA78AD2C1A16B28F2611D9140000000_cppui_modular546;
                 };
 
-                template<std::size_t Version>
-                struct arithmetic_params<edwards_scalar_field<Version>> : public params<edwards_scalar_field<Version>> {
+                template<>
+                struct arithmetic_params<edwards_scalar_field<183>> : public params<edwards_scalar_field<183>> {
                 private:
-                    typedef params<edwards_scalar_field<Version>> policy_type;
+                    typedef params<edwards_scalar_field<183>> policy_type;
 
                 public:
                     typedef typename policy_type::modular_type modular_type;
-- 
2.43.0


From 7903e7c4765ff66de014dde485a3c83a0b5be033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:59 +0000
Subject: [PATCH 35/59] fix: the IETF modp fields compile

---
 include/nil/crypto3/algebra/fields/modp_ietf.hpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/include/nil/crypto3/algebra/fields/modp_ietf.hpp b/include/nil/crypto3/algebra/fields/modp_ietf.hpp
index b8465bf..364530c 100644
--- a/include/nil/crypto3/algebra/fields/modp_ietf.hpp
+++ b/include/nil/crypto3/algebra/fields/modp_ietf.hpp
@@ -230,12 +230,6 @@ namespace nil {
                     constexpr static const std::size_t arity = 1;
                 };
 
-                template<std::size_t Version>
-                constexpr typename modp_ietf<Version>::integral_type const modp_ietf<Version>::modulus;
-
-                template<std::size_t Version>
-                constexpr typename modp_ietf<Version>::integral_type const modp_ietf<Version>::mul_generator;
-
                 constexpr typename modp_ietf<1024>::integral_type const modp_ietf<1024>::modulus;
                 constexpr typename modp_ietf<1536>::integral_type const modp_ietf<1536>::modulus;
                 constexpr typename modp_ietf<2048>::integral_type const modp_ietf<2048>::modulus;
-- 
2.43.0


From 9de58543a01a293c65044dfdb3ed1fafc6988736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:47 +0000
Subject: [PATCH 36/59] fix: infinity with any other bit set is malformed

std::find for true compares octets with 1, so only octets 0x01 were noticed.
---
 .../crypto3/algebra/curves/detail/marshalling.hpp   | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/marshalling.hpp b/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
index 644dbea..291c4e7 100644
--- a/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
@@ -32,6 +32,7 @@
 
 #include <boost/concept/assert.hpp>
 
+#include <algorithm>
 #include <iterator>
 
 namespace nil {
@@ -197,7 +198,8 @@ namespace nil {
                 BOOST_ASSERT(std::distance(point_octets.begin(), point_octets.end()) == sizeof_field_element);
 
                 if (m_byte & I_bit) {
-                    BOOST_ASSERT(point_octets.end() == std::find(point_octets.begin(), point_octets.end(), true));
+                    BOOST_ASSERT(std::all_of(point_octets.begin(), point_octets.end(),
+                                             [](std::uint8_t octet) { return octet == 0; }));
                     return g1_value_type();    // point at infinity
                 }
 
@@ -225,7 +227,8 @@ namespace nil {
                 BOOST_ASSERT(std::distance(point_octets.begin(), point_octets.end()) == 2 * sizeof_field_element);
 
                 if (m_byte & I_bit) {
-                    BOOST_ASSERT(point_octets.end() == std::find(point_octets.begin(), point_octets.end(), true));
+                    BOOST_ASSERT(std::all_of(point_octets.begin(), point_octets.end(),
+                                             [](std::uint8_t octet) { return octet == 0; }));
                     return g1_value_type();    // point at infinity
                 }
 
@@ -246,7 +249,8 @@ namespace nil {
                 BOOST_ASSERT(std::distance(point_octets.begin(), point_octets.end()) == 2 * sizeof_field_element);
 
                 if (m_byte & I_bit) {
-                    BOOST_ASSERT(point_octets.end() == std::find(point_octets.begin(), point_octets.end(), true));
+                    BOOST_ASSERT(std::all_of(point_octets.begin(), point_octets.end(),
+                                             [](std::uint8_t octet) { return octet == 0; }));
                     return g2_value_type();    // point at infinity
                 }
 
@@ -277,7 +281,8 @@ namespace nil {
                 BOOST_ASSERT(std::distance(point_octets.begin(), point_octets.end()) == 4 * sizeof_field_element);
 
                 if (m_byte & I_bit) {
-                    BOOST_ASSERT(point_octets.end() == std::find(point_octets.begin(), point_octets.end(), true));
+                    BOOST_ASSERT(std::all_of(point_octets.begin(), point_octets.end(),
+                                             [](std::uint8_t octet) { return octet == 0; }));
                     return g2_value_type();    // point at infinity
                 }
 
-- 
2.43.0


From 0f0221f6607d54f0aec993731c744984d3afaef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:47 +0000
Subject: [PATCH 37/59] fix: octets_to_g2_point accepts ranges other than
 arrays

It copied into a default-constructed range, which is empty for a vector.
---
 include/nil/crypto3/algebra/curves/detail/marshalling.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/marshalling.hpp b/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
index 291c4e7..d6d2108 100644
--- a/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
@@ -174,8 +174,7 @@ namespace nil {
                 const std::uint8_t m_byte = *octets.begin() & 0xE0;
                 BOOST_ASSERT(m_byte != 0x20 && m_byte != 0x60 && m_byte != 0xE0);
 
-                PointOctetsRange point_octets;
-                std::copy(octets.begin(), octets.end(), point_octets.begin());
+                PointOctetsRange point_octets = octets;
                 *point_octets.begin() &= 0x1F;
 
                 if (m_byte & C_bit) {
-- 
2.43.0


From a890ec572ff5c8e85cafffdfbc307858a292f3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:47 +0000
Subject: [PATCH 38/59] fix: coordinates not below the modulus are malformed

---
 include/nil/crypto3/algebra/curves/detail/marshalling.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/marshalling.hpp b/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
index d6d2108..0bb7166 100644
--- a/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
@@ -204,6 +204,7 @@ namespace nil {
 
                 integral_type x;
                 boost::multiprecision::import_bits(x, point_octets.rbegin(), point_octets.rend(), 8, false);
+                BOOST_ASSERT(x < g1_field_value_type::modulus);
                 g1_field_value_type x_mod(x);
                 g1_field_value_type y2_mod = x_mod.pow(3u) + g1_field_value_type(4u);
                 BOOST_ASSERT(y2_mod.is_square());
@@ -236,6 +237,7 @@ namespace nil {
                     y, point_octets.rbegin(), point_octets.rbegin() + sizeof_field_element, 8, false);
                 boost::multiprecision::import_bits(
                     x, point_octets.rbegin() + sizeof_field_element, point_octets.rend(), 8, false);
+                BOOST_ASSERT(x < g1_field_value_type::modulus && y < g1_field_value_type::modulus);
                 g1_value_type result(g1_field_value_type(x), g1_field_value_type(y), g1_field_value_type::one());
                 BOOST_ASSERT(result.is_well_formed());
                 return result;
@@ -258,6 +260,7 @@ namespace nil {
                     x_0, point_octets.rbegin(), point_octets.rbegin() + sizeof_field_element, 8, false);
                 boost::multiprecision::import_bits(
                     x_1, point_octets.rbegin() + sizeof_field_element, point_octets.rend(), 8, false);
+                BOOST_ASSERT(x_0 < g1_field_value_type::modulus && x_1 < g1_field_value_type::modulus);
                 g2_field_value_type x_mod(x_0, x_1);
                 g2_field_value_type y2_mod = x_mod.pow(3u) + g2_field_value_type(4u, 4u);
                 BOOST_ASSERT(y2_mod.is_square());
@@ -300,6 +303,8 @@ namespace nil {
                                             false);
                 boost::multiprecision::import_bits(
                     x_1, point_octets.rbegin() + 3 * sizeof_field_element, point_octets.rend(), 8, false);
+                BOOST_ASSERT(x_0 < g1_field_value_type::modulus && x_1 < g1_field_value_type::modulus);
+                BOOST_ASSERT(y_0 < g1_field_value_type::modulus && y_1 < g1_field_value_type::modulus);
                 g2_value_type result(g2_field_value_type(g1_field_value_type(x_0), g1_field_value_type(x_1)),
                                      g2_field_value_type(g1_field_value_type(y_0), g1_field_value_type(y_1)),
                                      g2_field_value_type::one());
-- 
2.43.0


From fd7b7dbcdeda3120ed19b1834fdd346db9a34b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:47 +0000
Subject: [PATCH 39/59] fix: field_element_to_bytes clears the octets above the
 value

export_bits writes significant octets only; the rest kept what the buffer held.
---
 include/nil/crypto3/algebra/marshalling.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nil/crypto3/algebra/marshalling.hpp b/include/nil/crypto3/algebra/marshalling.hpp
index 2687482..21921e5 100644
--- a/include/nil/crypto3/algebra/marshalling.hpp
+++ b/include/nil/crypto3/algebra/marshalling.hpp
@@ -27,6 +27,7 @@
 #ifndef CRYPTO3_ALGEBRA_MARSHALLING_HPP
 #define CRYPTO3_ALGEBRA_MARSHALLING_HPP
 
+#include <algorithm>
 #include <vector>
 #include <tuple>
 
@@ -105,6 +106,8 @@ namespace nil {
                                            OutputIterator out_last) {
                     BOOST_ASSERT(field_octets_num == std::distance(out_first, out_last));
 
+                    // export_bits writes only the significant octets
+                    std::fill(out_first, out_last, 0);
                     ::boost::multiprecision::export_bits(
                         element.data.template convert_to<typename FieldType::integral_type>(), out_first, chunk_size,
                         false);
-- 
2.43.0


From 452e13388e1c5ee7740ffb3ee6e1324f53419589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:47 +0000
Subject: [PATCH 40/59] fix: random_element draws zero as often as any other
 element

The range included the modulus, which is zero again.
---
 include/nil/crypto3/algebra/random_element.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/random_element.hpp b/include/nil/crypto3/algebra/random_element.hpp
index a22b67c..6ca1657 100644
--- a/include/nil/crypto3/algebra/random_element.hpp
+++ b/include/nil/crypto3/algebra/random_element.hpp
@@ -60,7 +60,7 @@ namespace nil {
                 using field_type = FieldType;
                 using distribution_type = DistributionType;
 
-                distribution_type d(0, field_type::modulus);
+                distribution_type d(0, field_type::modulus - 1);
 
                 // boost::random_device rd;
                 // rd.seed(time(0));
-- 
2.43.0


From a4acee99709dbfb161038870515d1c2a48ab2c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:47 +0000
Subject: [PATCH 41/59] fix: Pollard rho starts over when it finds no proper
 divisor

It returned n itself (or 0), and prime_factorize recursed for ever, for 9 for example.
---
 include/nil/crypto3/algebra/primes.hpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/nil/crypto3/algebra/primes.hpp b/include/nil/crypto3/algebra/primes.hpp
index 416e077..69bcf9d 100644
--- a/include/nil/crypto3/algebra/primes.hpp
+++ b/include/nil/crypto3/algebra/primes.hpp
@@ -52,15 +52,20 @@ namespace nil {
                 }
 
                 boost::random::independent_bits_engine<std::mt19937, 256, number<Backend, ExpressionTemplates>> rng;
-                number<backends::modular_adaptor<Backend, backends::modular_params_rt<Backend>>, ExpressionTemplates> divisor,
-                        c(rng(), n), x(rng(), n), nn(n, n), xx = x;
+                number<Backend, ExpressionTemplates> result;
                 do {
-                    x = x * x + c;
-                    xx = xx * xx + c;
-                    xx = xx * xx + c;
-                    divisor = boost::multiprecision::gcd((x > xx) ? x - xx : xx - x, nn);
-                } while (static_cast<int>(divisor) == 1);
-                return static_cast<boost::multiprecision::number<Backend, ExpressionTemplates>>(divisor);
+                    number<backends::modular_adaptor<Backend, backends::modular_params_rt<Backend>>, ExpressionTemplates>
+                            divisor, c(rng(), n), x(rng(), n), nn(n, n), xx = x;
+                    do {
+                        x = x * x + c;
+                        xx = xx * xx + c;
+                        xx = xx * xx + c;
+                        divisor = boost::multiprecision::gcd((x > xx) ? x - xx : xx - x, nn);
+                    } while (static_cast<int>(divisor) == 1);
+                    result = static_cast<boost::multiprecision::number<Backend, ExpressionTemplates>>(divisor);
+                    // the sequence may close modulo every factor at once; start another one then
+                } while ((result == 0 || result == n) && !miller_rabin_test(n, 100));
+                return result;
             }
 
             /*
-- 
2.43.0


From 558b9eacfcaf8e6a374911b1a0b79d07c9733e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:47 +0000
Subject: [PATCH 42/59] fix: totient_list of 1 is 1

---
 include/nil/crypto3/algebra/totient.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/totient.hpp b/include/nil/crypto3/algebra/totient.hpp
index 663b848..60bc1ed 100644
--- a/include/nil/crypto3/algebra/totient.hpp
+++ b/include/nil/crypto3/algebra/totient.hpp
@@ -65,7 +65,7 @@ namespace nil {
                 std::vector<IntegerType> result;
                 IntegerType one = 1;
 
-                for (IntegerType i = 1; i < n; i++) {
+                for (IntegerType i = 1; i <= n; i++) {
                     if (boost::multiprecision::gcd(i, n) == one)
                         result.push_back(i);
                 }
-- 
2.43.0


From f4c9fb00ffd80923ec3dd31b9f97a92c5c3ac132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:22 +0000
Subject: [PATCH 43/59] fix: state_adder compiles

---
 include/nil/crypto3/detail/state_adder.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nil/crypto3/detail/state_adder.hpp b/include/nil/crypto3/detail/state_adder.hpp
index d8f9c86..3d47b36 100644
--- a/include/nil/crypto3/detail/state_adder.hpp
+++ b/include/nil/crypto3/detail/state_adder.hpp
@@ -31,9 +31,9 @@ namespace nil {
             struct state_adder {
                 template<typename T>
                 void operator()(T &s1, T const &s2) {
-                    typedef typename T::size_type std::size_type;
-                    std::size_type n = (s2.size() < s1.size() ? s2.size() : s1.size());
-                    for (typename T::size_type i = 0; i < n; ++i) {
+                    typedef typename T::size_type size_type;
+                    size_type n = (s2.size() < s1.size() ? s2.size() : s1.size());
+                    for (size_type i = 0; i < n; ++i) {
                         s1[i] += s2[i];
                     }
                 }
-- 
2.43.0


From 8b5fbc199acf37c8cc41250f0d57eaf5ff4d7839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:22 +0000
Subject: [PATCH 44/59] fix: unbounded_shl by the width or more gives zero

---
 include/nil/crypto3/detail/unbounded_shift.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/nil/crypto3/detail/unbounded_shift.hpp b/include/nil/crypto3/detail/unbounded_shift.hpp
index 1faa0a6..2b4ad20 100644
--- a/include/nil/crypto3/detail/unbounded_shift.hpp
+++ b/include/nil/crypto3/detail/unbounded_shift.hpp
@@ -27,6 +27,9 @@
 #ifndef CRYPTO3_DETAIL_UNBOUNDED_SHIFT_HPP
 #define CRYPTO3_DETAIL_UNBOUNDED_SHIFT_HPP
 
+#include <climits>
+#include <cstddef>
+
 #include <boost/assert.hpp>
 
 namespace nil {
@@ -68,7 +71,7 @@ namespace nil {
             template<typename T>
             T unbounded_shl(T x, std::size_t n) {
                 if (sizeof(T) * CHAR_BIT <= n)
-                    n %= sizeof(T) * CHAR_BIT;
+                    return 0;
                 return x << n;
             }
 
-- 
2.43.0


From af264eb4369a7b2fd8f965010e39eff91b414417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:55 +0000
Subject: [PATCH 45/59] fix: make_uint_t of a single whole word does not shift
 by its width

---
 include/nil/crypto3/detail/make_uint_t.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/nil/crypto3/detail/make_uint_t.hpp b/include/nil/crypto3/detail/make_uint_t.hpp
index d0d29a9..d0dc2f4 100644
--- a/include/nil/crypto3/detail/make_uint_t.hpp
+++ b/include/nil/crypto3/detail/make_uint_t.hpp
@@ -25,6 +25,9 @@
 #ifndef CRYPTO3_MAKE_UINT_T_HPP
 #define CRYPTO3_MAKE_UINT_T_HPP
 
+#include <cstddef>
+#include <initializer_list>
+#include <limits>
 #include <tuple>
 
 #include <boost/integer.hpp>
@@ -41,11 +44,13 @@ namespace nil {
             template<std::size_t Size, typename T>
             static inline typename boost::uint_t<Size>::exact make_uint_t(const std::initializer_list<T> &args) {
                 typedef typename std::initializer_list<T>::value_type value_type;
-                typename boost::uint_t<Size>::exact result = 0;
+                typedef typename boost::uint_t<Size>::exact result_type;
+                constexpr std::size_t digits = std::numeric_limits<value_type>::digits;
+                result_type result = 0;
 
                 for (const value_type &itr : args) {
-                    result = static_cast<typename boost::uint_t<Size>::exact>(
-                        (result << std::numeric_limits<value_type>::digits) | itr);
+                    // shifting a word by its whole width is undefined
+                    result = static_cast<result_type>((digits < Size ? result << (digits % Size) : 0) | itr);
                 }
 
                 return result;
-- 
2.43.0


From 4501d7be57b2048acb96f2594e4ce55402bb4bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:55 +0000
Subject: [PATCH 46/59] fix: strxor returns the end of its output and includes
 what it uses

---
 include/nil/crypto3/algebra/algorithms/strxor.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nil/crypto3/algebra/algorithms/strxor.hpp b/include/nil/crypto3/algebra/algorithms/strxor.hpp
index ebd3180..bb265be 100644
--- a/include/nil/crypto3/algebra/algorithms/strxor.hpp
+++ b/include/nil/crypto3/algebra/algorithms/strxor.hpp
@@ -28,8 +28,10 @@
 
 #include <boost/concept/assert.hpp>
 #include <boost/assert.hpp>
+#include <boost/range/concepts.hpp>
 
 #include <iterator>
+#include <type_traits>
 
 namespace nil {
     namespace crypto3 {
@@ -46,6 +48,8 @@ namespace nil {
                 while (first1 != last1 && first2 != last2) {
                     *out++ = *first1++ ^ *first2++;
                 }
+
+                return out;
             }
 
             template<typename InputType, typename OutputType>
-- 
2.43.0


From 0b163ae093b63d94b604525679de0a53570ac4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:46 +0000
Subject: [PATCH 47/59] fix: is_curve recognises curves whose groups are
 templates

---
 include/nil/crypto3/algebra/type_traits.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/type_traits.hpp b/include/nil/crypto3/algebra/type_traits.hpp
index 303fcca..c33b426 100644
--- a/include/nil/crypto3/algebra/type_traits.hpp
+++ b/include/nil/crypto3/algebra/type_traits.hpp
@@ -54,6 +54,10 @@ namespace nil {
             BOOST_TTI_HAS_TYPE(g2_type)
             BOOST_TTI_HAS_TYPE(gt_type)
 
+            // the curves provide their groups as alias templates over coordinates and forms
+            BOOST_TTI_HAS_TEMPLATE(g1_type)
+            BOOST_TTI_HAS_TEMPLATE(g2_type)
+
             BOOST_TTI_HAS_TYPE(group_type)
 
             BOOST_TTI_HAS_STATIC_MEMBER_DATA(value_bits)
@@ -78,7 +82,8 @@ namespace nil {
             template<typename T>
             struct is_curve {
                 static const bool value = has_type_base_field_type<T>::value && has_type_scalar_field_type<T>::value &&
-                                          has_type_g1_type<T>::value && has_type_g2_type<T>::value &&
+                                          (has_type_g1_type<T>::value || has_template_g1_type<T>::value) &&
+                                          (has_type_g2_type<T>::value || has_template_g2_type<T>::value) &&
                                           has_type_gt_type<T>::value;
                 typedef T type;
             };
-- 
2.43.0


From 380cc65a9e439361e5cbb127d524f87e2f50d32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:03 +0000
Subject: [PATCH 48/59] fix: is_passhash looks for generate and check in the
 type itself

---
 include/nil/crypto3/detail/type_traits.hpp | 48 ++++++++++++----------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/include/nil/crypto3/detail/type_traits.hpp b/include/nil/crypto3/detail/type_traits.hpp
index a6662e7..c01ba41 100644
--- a/include/nil/crypto3/detail/type_traits.hpp
+++ b/include/nil/crypto3/detail/type_traits.hpp
@@ -91,37 +91,43 @@
     template<class T>                                                                                                \
     struct has_##member : public std::integral_constant<bool, HasMember_##member<T>::RESULT> { };
 
-#define GENERATE_HAS_MEMBER_FUNCTION(Function, ...)                                  \
-                                                                                     \
-    template<typename T>                                                             \
-    struct has_##Function {                                                          \
-        struct Fallback {                                                            \
-            void Function(##__VA_ARGS__);                                            \
-        };                                                                           \
-                                                                                     \
-        struct Derived : Fallback { };                                               \
-                                                                                     \
-        template<typename C, C>                                                      \
-        struct ChT;                                                                  \
-                                                                                     \
-        template<typename C>                                                         \
-        static char (&f(ChT<void (Fallback::*)(##__VA_ARGS__), &C::Function> *))[1]; \
-                                                                                     \
-        template<typename C>                                                         \
-        static char (&f(...))[2];                                                    \
-                                                                                     \
-        static bool const value = sizeof(f<Derived>(0)) == 2;                        \
+#define GENERATE_HAS_MEMBER_FUNCTION(Function, ...)                                       \
+                                                                                          \
+    template<typename T>                                                                  \
+    struct has_##Function {                                                               \
+        struct Dummy { };                                                                 \
+        typedef typename std::conditional<std::is_class<T>::value, T, Dummy>::type TType; \
+                                                                                          \
+        struct Fallback {                                                                 \
+            void Function(##__VA_ARGS__);                                                 \
+        };                                                                                \
+                                                                                          \
+        struct Derived : TType, Fallback { };                                             \
+                                                                                          \
+        template<typename C, C>                                                           \
+        struct ChT;                                                                       \
+                                                                                          \
+        template<typename C>                                                              \
+        static char (&f(ChT<void (Fallback::*)(##__VA_ARGS__), &C::Function> *))[1];      \
+                                                                                          \
+        template<typename C>                                                              \
+        static char (&f(...))[2];                                                         \
+                                                                                          \
+        static bool const value = sizeof(f<Derived>(0)) == 2;                             \
     };
 
 #define GENERATE_HAS_MEMBER_CONST_FUNCTION(Function, ...)                                  \
                                                                                            \
     template<typename T>                                                                   \
     struct has_##Function {                                                                \
+        struct Dummy { };                                                                  \
+        typedef typename std::conditional<std::is_class<T>::value, T, Dummy>::type TType;  \
+                                                                                           \
         struct Fallback {                                                                  \
             void Function(##__VA_ARGS__) const;                                            \
         };                                                                                 \
                                                                                            \
-        struct Derived : Fallback { };                                                     \
+        struct Derived : TType, Fallback { };                                              \
                                                                                            \
         template<typename C, C>                                                            \
         struct ChT;                                                                        \
-- 
2.43.0


From ffebeacf1bbf3a99d9658d5fe0a1c61bd8fcadf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:19 +0000
Subject: [PATCH 49/59] fix: jacobian points print their coordinate names
 quoted

---
 .../forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp   | 2 +-
 .../short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp
index 4409a62..335bb26 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp
@@ -336,7 +336,7 @@ namespace nil {
 
                         friend std::ostream& operator<<(std::ostream& os, curve_element const& e)
                         {
-                            os << "{\"X\":" << e.X << ",Y\":" << e.Y << ",Z\":" << e.Z << "}";
+                            os << "{\"X\":" << e.X << ",\"Y\":" << e.Y << ",\"Z\":" << e.Z << "}";
                             return os;
                         }
                     };
diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
index d2e8efd..196f98c 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
@@ -340,7 +340,7 @@ namespace nil {
 
                         friend std::ostream& operator<<(std::ostream& os, curve_element const& e)
                         {
-                            os << "{\"X\":" << e.X << ",Y\":" << e.Y << ",Z\":" << e.Z << "}";
+                            os << "{\"X\":" << e.X << ",\"Y\":" << e.Y << ",\"Z\":" << e.Z << "}";
                             return os;
                         }
                     };
-- 
2.43.0


From e0e7b8da0fe4b9998e80966f9b96d05a47499a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:19 +0000
Subject: [PATCH 50/59] fix: no comma after the last printed pairing
 coefficient

---
 .../forms/short_weierstrass/jacobian_with_a4_0/types.hpp      | 2 +-
 .../detail/forms/short_weierstrass/projective/types.hpp       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/jacobian_with_a4_0/types.hpp b/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/jacobian_with_a4_0/types.hpp
index fdf3d17..2846f14 100644
--- a/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/jacobian_with_a4_0/types.hpp
+++ b/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/jacobian_with_a4_0/types.hpp
@@ -99,7 +99,7 @@ namespace nil {
                                 << "\"coeffs\":[" << std::endl;
                             for(auto d = p.coeffs.begin(); d != p.coeffs.end(); ++d) {
                                 os << "[" << d->ell_0 << "," << d->ell_VW << "," << d->ell_VV << "]";
-                                if (d != p.coeffs.end()) {
+                                if (d + 1 != p.coeffs.end()) {
                                     os << "," << std::endl;
                                 }
                             }
diff --git a/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/projective/types.hpp b/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/projective/types.hpp
index d798a13..8bb13ae 100644
--- a/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/projective/types.hpp
+++ b/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/projective/types.hpp
@@ -150,14 +150,14 @@ namespace nil {
                                 << "\"dbl_coeffs\":[" << std::endl;
                             for(auto d = p.dbl_coeffs.begin(); d != p.dbl_coeffs.end(); ++d) {
                                 os << "[" << d->c_H << "," << d->c_4C << "," << d->c_J << "," << d->c_L << "]";
-                                if (d != p.dbl_coeffs.end()) {
+                                if (d + 1 != p.dbl_coeffs.end()) {
                                     os << "," << std::endl;
                                 }
                             }
                             os << "]," << std::endl << "\"add_coeffs\":[" << std::endl;
                             for(auto a = p.add_coeffs.begin(); a != p.add_coeffs.end(); ++a) {
                                 os << "[" << a->c_L1 << "," << a->c_RZ << "]";
-                                if (a != p.add_coeffs.end()) {
+                                if (a + 1 != p.add_coeffs.end()) {
                                     os << "," << std::endl;;
                                 }
                             }
-- 
2.43.0


From 26bcd0d91d2717232ee8da97b082ef549891a22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:19 +0000
Subject: [PATCH 51/59] fix: std::hash of fp2 elements compiles

---
 include/nil/crypto3/algebra/fields/detail/element/fp2.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp b/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
index ff713f8..95cfce2 100644
--- a/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
@@ -26,8 +26,11 @@
 #ifndef CRYPTO3_ALGEBRA_FIELDS_ELEMENT_FP2_HPP
 #define CRYPTO3_ALGEBRA_FIELDS_ELEMENT_FP2_HPP
 
+#include <functional>
 #include <type_traits>
 
+#include <boost/functional/hash.hpp>
+
 #include <nil/crypto3/algebra/fields/detail/exponentiation.hpp>
 #include <nil/crypto3/algebra/fields/detail/element/operations.hpp>
 
@@ -350,7 +353,7 @@ namespace nil {
 template<typename FieldParams>
 struct std::hash<typename nil::crypto3::algebra::fields::detail::element_fp2<FieldParams>>
 {
-    std::hash<typename nil::crypto3::algebra::fields::detail::element_fp2<FieldParams>::modular_type> hasher;
+    std::hash<typename nil::crypto3::algebra::fields::detail::element_fp2<FieldParams>::underlying_type> hasher;
     size_t operator()(const nil::crypto3::algebra::fields::detail::element_fp2<FieldParams>& elem) const
     {
         std::size_t result = hasher(elem.data[0]);
-- 
2.43.0


From e222978cd5c4b12bb69f42b0821eeeb387c98d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:05 +0000
Subject: [PATCH 52/59] fix: primality tests do not share a hidden generator
 between threads

---
 include/nil/crypto3/algebra/primes.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/nil/crypto3/algebra/primes.hpp b/include/nil/crypto3/algebra/primes.hpp
index 69bcf9d..3249d37 100644
--- a/include/nil/crypto3/algebra/primes.hpp
+++ b/include/nil/crypto3/algebra/primes.hpp
@@ -27,6 +27,7 @@
 
 #include <cassert>
 
+#include <random>
 #include <set>
 
 #include <boost/multiprecision/miller_rabin.hpp>
@@ -52,6 +53,7 @@ namespace nil {
                 }
 
                 boost::random::independent_bits_engine<std::mt19937, 256, number<Backend, ExpressionTemplates>> rng;
+                std::mt19937 test_rng;
                 number<Backend, ExpressionTemplates> result;
                 do {
                     number<backends::modular_adaptor<Backend, backends::modular_params_rt<Backend>>, ExpressionTemplates>
@@ -64,7 +66,7 @@ namespace nil {
                     } while (static_cast<int>(divisor) == 1);
                     result = static_cast<boost::multiprecision::number<Backend, ExpressionTemplates>>(divisor);
                     // the sequence may close modulo every factor at once; start another one then
-                } while ((result == 0 || result == n) && !miller_rabin_test(n, 100));
+                } while ((result == 0 || result == n) && !miller_rabin_test(n, 100, test_rng));
                 return result;
             }
 
@@ -77,7 +79,8 @@ namespace nil {
             void prime_factorize(IntegerType n, std::set<IntegerType> &prime_factors) {
                 if (n == 0 || n == 1)
                     return;
-                if (boost::multiprecision::miller_rabin_test(n, 100)) {
+                std::mt19937 test_rng;
+                if (boost::multiprecision::miller_rabin_test(n, 100, test_rng)) {
                     prime_factors.insert(n);
                     return;
                 }
@@ -97,7 +100,8 @@ namespace nil {
                 if (r > IntegerType(0))
                     qNew2 += (mi - r);
                 BOOST_ASSERT_MSG(qNew2 >= qNew, "FirstPrime parameters overflow this integer implementation");
-                while (!boost::multiprecision::miller_rabin_test((qNew = qNew2), 100)) {
+                std::mt19937 test_rng;
+                while (!boost::multiprecision::miller_rabin_test((qNew = qNew2), 100, test_rng)) {
                     qNew2 = qNew + mi;
                     BOOST_ASSERT_MSG(qNew2 >= qNew, "FirstPrime overflow growing candidate");
                 }
@@ -107,7 +111,8 @@ namespace nil {
             template<typename IntegerType>
             IntegerType next_prime(const IntegerType &q, uint64_t m) {
                 IntegerType M(m), qNew(q + M);
-                while (!boost::multiprecision::miller_rabin_test(qNew, 100)) {
+                std::mt19937 test_rng;
+                while (!boost::multiprecision::miller_rabin_test(qNew, 100, test_rng)) {
                     BOOST_VERIFY_MSG((qNew += M) >= q, "NextPrime overflow growing candidate");
                 }
                 return qNew;
@@ -116,7 +121,8 @@ namespace nil {
             template<typename IntegerType>
             IntegerType previous_prime(const IntegerType &q, uint64_t m) {
                 IntegerType M(m), qNew(q - M);
-                while (!boost::multiprecision::miller_rabin_test(qNew, 100)) {
+                std::mt19937 test_rng;
+                while (!boost::multiprecision::miller_rabin_test(qNew, 100, test_rng)) {
                     BOOST_VERIFY_MSG((qNew -= M) <= q, "Moduli size is not sufficient! Must be increased.");
                 }
                 return qNew;
-- 
2.43.0


From 3be2f005a16b55df6f4520a1301b4fc2c9c84b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:11 +0000
Subject: [PATCH 53/59] fix: affine additions, twisted Edwards mixed additions
 and affine constants are usable in constant expressions

---
 .../curves/detail/forms/montgomery/element_g1_affine.hpp    | 4 ++--
 .../detail/forms/short_weierstrass/element_g1_affine.hpp    | 2 +-
 .../detail/forms/twisted_edwards/element_g1_affine.hpp      | 6 +++---
 .../twisted_edwards/extended_with_a_minus_1/element_g1.hpp  | 2 +-
 .../detail/forms/twisted_edwards/inverted/element_g1.hpp    | 2 +-
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp b/include/nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp
index 9306f54..b4241b5 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp
@@ -97,14 +97,14 @@ namespace nil {
                         /**
                          * @brief Get the point at infinity
                          */
-                        static curve_element zero() {
+                        constexpr static curve_element zero() {
                             return curve_element();
                         }
 
                         /**
                          * @brief Get the generator of group G1
                          */
-                        static curve_element one() {
+                        constexpr static curve_element one() {
                             return curve_element(params_type::one_fill[0], params_type::one_fill[1]);
                         }
 
diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
index 93a99e3..7e2bb58 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
@@ -266,7 +266,7 @@ namespace nil {
                          * x3 = (y2-y1)2/(x2-x1)2-x1-x2
                          * y3 = (2*x1+x2)*(y2-y1)/(x2-x1)-(y2-y1)3/(x2-x1)3-y1
                          */
-                        void add(const curve_element &other) {
+                        constexpr void add(const curve_element &other) {
                             field_value_type Y2mY1 = other.Y - Y;
                             field_value_type X2mX1i = other.X - X;
                             if (X2mX1i == field_value_type::zero()) {
diff --git a/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp b/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp
index 32ff340..f2f54b8 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp
@@ -96,13 +96,13 @@ namespace nil {
                         /** @brief Get the point at infinity
                          *
                          */
-                        static curve_element zero() {
+                        constexpr static curve_element zero() {
                             return curve_element();
                         }
                         /** @brief Get the generator of group G1
                          *
                          */
-                        static curve_element one() {
+                        constexpr static curve_element one() {
                             return curve_element(params_type::one_fill[0], params_type::one_fill[1]);
                         }
 
@@ -314,7 +314,7 @@ namespace nil {
                          *   x3 = (x1*y2+y1*x2)/(1+d*x1*x2*y1*y2)
                          *   y3 = (y1*y2-a*x1*x2)/(1-d*x1*x2*y1*y2)
                          */
-                        void add(const curve_element &other) {
+                        constexpr void add(const curve_element &other) {
                             field_value_type XX = (this->X) * (other.X);
                             field_value_type YY = (this->Y) * (other.Y);
                             field_value_type XY = (this->X) * (other.Y);
diff --git a/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp
index 27b7009..dba88b3 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp
@@ -290,7 +290,7 @@ namespace nil {
                          * “Mixed addition” refers to the case Z2 known to be 1.
                          * @return addition of two elements from group G1
                          */
-                        void mixed_add(const curve_element &other) {
+                        constexpr void mixed_add(const curve_element &other) {
 
                             // handle special cases having to do with O
                             if (this->is_zero()) {
diff --git a/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/inverted/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/inverted/element_g1.hpp
index 102339e..40c1121 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/inverted/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/inverted/element_g1.hpp
@@ -284,7 +284,7 @@ namespace nil {
                          * “Mixed addition” refers to the case Z2 known to be 1.
                          * @return addition of two elements from group G1
                          */
-                        void mixed_add(const curve_element &other) {
+                        constexpr void mixed_add(const curve_element &other) {
 
                             // handle special cases having to do with O
                             if (this->is_zero()) {
-- 
2.43.0


From 2b904657a869e1fa52ddc3e809356615cd19c6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:12 +0000
Subject: [PATCH 54/59] fix: points of the edwards G2 group are checked against
 the twisted coefficients

---
 .../nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp b/include/nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp
index 27b8893..3b138fc 100644
--- a/include/nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp
@@ -133,7 +133,8 @@ namespace nil {
                                 const auto Y2 = this->Y.squared();
                                 const auto Z2 = this->Z.squared();
 
-                                return (policy_type::a * Z2*Y2 + Z2*X2 == X2*Y2 + policy_type::d * Z2*Z2);
+                                // the coefficients of G2 are those of the twist
+                                return (mul_by_a(Y2) * Z2 + Z2 * X2 == X2 * Y2 + mul_by_d(Z2) * Z2);
                             }
                         }
 
-- 
2.43.0


From c439f31a914d39ddbc7de6dd910678d0494133fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:35 +0000
Subject: [PATCH 55/59] fix: the edwards G2 element names its field, so machine
 integers multiply it

---
 include/nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp b/include/nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp
index 3b138fc..4638f86 100644
--- a/include/nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp
@@ -62,6 +62,7 @@ namespace nil {
                         typedef typename policy_type::g1_field_type::value_type g1_field_type_value;
                         typedef typename policy_type::g2_field_type::value_type g2_field_type_value;
 
+                        using field_type = typename policy_type::g2_field_type;
                         using underlying_field_value_type = g2_field_type_value;
 
                         underlying_field_value_type X;
-- 
2.43.0


From 469204a8417be09e2aaae137965a29d7bd5732bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:29 +0000
Subject: [PATCH 56/59] fix: the pivot search settles for no entry that is tiny
 next to the rest of its column

Eliminating with rounding residue that exceeds the tolerance, although the
column has a proper entry further down, made inverse and det of
well-conditioned matrices wrong.
---
 include/nil/crypto3/algebra/matrix/math.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index aff6edb..249fefc 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -196,6 +196,9 @@ namespace nil {
                 std::size_t i = 0, j = 0;
                 while (i < M && j < N) {
                     // Choose largest magnitude as pivot to avoid adding different magnitudes
+                    T largest = 0;
+                    for (std::size_t ip = i; ip < M; ++ip)
+                        largest = std::max(largest, T(abs(m[ip][j])));
                     for (std::size_t ip = i + 1; ip < M; ++ip) {
                         if (abs(m[ip][j]) > abs(m[i][j])) {
                             for (std::size_t jp = 0; jp < N; ++jp) {
@@ -204,8 +207,8 @@ namespace nil {
                                 m[i][jp] = tmp;
                             }
                             det = -det;
-                            // a larger but still negligible pivot must not hide a usable one below
-                            if (!negligible(m[i][j]))
+                            // a larger but still negligible or comparatively tiny pivot must not hide a usable one below
+                            if (!negligible(m[i][j]) && 16 * abs(m[i][j]) >= largest)
                                 break;
                         }
                     }
-- 
2.43.0


From e521ca265bd7735b22b34aec5bc4ec85109ce9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:35 +0000
Subject: [PATCH 57/59] fix: field_element_from_bytes does not ignore bits
 above the length of the modulus

---
 include/nil/crypto3/algebra/marshalling.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/marshalling.hpp b/include/nil/crypto3/algebra/marshalling.hpp
index 21921e5..86e8459 100644
--- a/include/nil/crypto3/algebra/marshalling.hpp
+++ b/include/nil/crypto3/algebra/marshalling.hpp
@@ -67,10 +67,13 @@ namespace nil {
                     field_element_from_bytes(InputFieldValueIterator first, InputFieldValueIterator last) {
                     BOOST_ASSERT(field_octets_num == std::distance(first, last));
 
-                    typename FieldType::integral_type result;
+                    // integral_type would drop the bits of the last octet above the length of the modulus
+                    typename FieldType::extended_integral_type result;
                     ::boost::multiprecision::import_bits(result, first, last, chunk_size, false);
 
-                    return std::make_pair(result < FieldType::modulus, field_value_type(result));
+                    return std::make_pair(
+                        result < typename FieldType::extended_integral_type(FieldType::modulus),
+                        field_value_type(static_cast<typename FieldType::integral_type>(result)));
                 }
 
                 template<typename InputFieldValueIterator>
-- 
2.43.0


From d274cbe8f181ad15d30012abf537cbfaec644c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:16 +0000
Subject: [PATCH 58/59] fix: bls12-381 points with octets beyond the modulus'
 length in a later coordinate are rejected

---
 .../crypto3/algebra/curves/detail/marshalling.hpp  | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/marshalling.hpp b/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
index 0bb7166..601a21f 100644
--- a/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
@@ -190,6 +190,17 @@ namespace nil {
             // constexpr static const typename g1_field_value_type::integral_type half_p =
             //     (g1_field_value_type::modulus - integral_type(1)) / integral_type(2);
 
+            // The octets of a coordinate hold more bits than integral_type, which drops what does not fit
+            template<typename PointOctetsRange>
+            static inline bool coordinates_fit(const PointOctetsRange &point_octets) {
+                for (auto it = point_octets.begin(); it != point_octets.end(); it += sizeof_field_element) {
+                    if (*it & 0xE0) {
+                        return false;
+                    }
+                }
+                return true;
+            }
+
             template<typename PointOctetsRange,
                      typename = typename std::enable_if<
                          std::is_same<std::uint8_t, typename PointOctetsRange::value_type>::value>::type>
@@ -232,6 +243,7 @@ namespace nil {
                     return g1_value_type();    // point at infinity
                 }
 
+                BOOST_ASSERT(coordinates_fit(point_octets));
                 integral_type x, y;
                 boost::multiprecision::import_bits(
                     y, point_octets.rbegin(), point_octets.rbegin() + sizeof_field_element, 8, false);
@@ -255,6 +267,7 @@ namespace nil {
                     return g2_value_type();    // point at infinity
                 }
 
+                BOOST_ASSERT(coordinates_fit(point_octets));
                 integral_type x_0, x_1;
                 boost::multiprecision::import_bits(
                     x_0, point_octets.rbegin(), point_octets.rbegin() + sizeof_field_element, 8, false);
@@ -288,6 +301,7 @@ namespace nil {
                     return g2_value_type();    // point at infinity
                 }
 
+                BOOST_ASSERT(coordinates_fit(point_octets));
                 integral_type x_0, x_1, y_0, y_1;
                 boost::multiprecision::import_bits(
                     y_0, point_octets.rbegin(), point_octets.rbegin() + sizeof_field_element, 8, false);
-- 
2.43.0


From 3cc87e0da65c0bad7e06267a26ddd73f5d386da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:44:14 +0000
Subject: [PATCH 59/59] fix: the modulus of a complex number does not overflow
 or vanish with the squares of its parts

---
 include/nil/crypto3/algebra/scalar/math.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/scalar/math.hpp b/include/nil/crypto3/algebra/scalar/math.hpp
index 9fe8d2f..bd695f4 100644
--- a/include/nil/crypto3/algebra/scalar/math.hpp
+++ b/include/nil/crypto3/algebra/scalar/math.hpp
@@ -81,9 +81,18 @@ namespace nil {
             template<typename T>
             constexpr nil::crypto3::algebra::remove_complex_t<T> abs(T x) {
                 // CRYPTO3_DETAIL_ASSERT_ARITHMETIC(T);
-                if constexpr (algebra::is_complex_v<T>)
+                if constexpr (algebra::is_complex_v<T>) {
+                    using R = algebra::remove_complex_t<T>;
+                    constexpr R unit = sqrt(std::numeric_limits<R>::min());
+                    constexpr R tiny = unit / std::numeric_limits<R>::epsilon(), huge = 1 / unit / 4;
+                    const R re = abs(x.real()), im = abs(x.imag()), larger = re > im ? re : im;
+                    // scale parts whose squares would vanish or overflow, by a power of two
+                    if (larger < tiny || larger > huge) {
+                        const R scale = larger < tiny ? tiny / unit / unit : unit / tiny * unit;
+                        return sqrt(re * scale * (re * scale) + im * scale * (im * scale)) / scale;
+                    }
                     return sqrt(x.real() * x.real() + x.imag() * x.imag());
-                else
+                } else
                     return x > 0 ? x : -x;
             }
 
-- 
2.43.0

