From 89c402da17941b012039ecbff2c48c544289f8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:15 +0000
Subject: [PATCH 01/17] fix: cutting_plane_q asks for an alternative cut after
 a cut without effect

The loop-local status was never set to noeffect, so 'retry' was always false
and the oracle was queried with the same arguments again and again until the
iteration limit.
---
 lib/include/ellcpp/cutting_plane.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/include/ellcpp/cutting_plane.hpp b/lib/include/ellcpp/cutting_plane.hpp
index 56d5bc9..2742c53 100644
--- a/lib/include/ellcpp/cutting_plane.hpp
+++ b/lib/include/ellcpp/cutting_plane.hpp
@@ -141,11 +141,11 @@ auto cutting_plane_q(
     const auto t_orig = t;
     decltype(S.xc()) x_best;
     auto status = CUTStatus::nosoln; // note!!!
+    auto retry = false; // ask for an alternative cut?
 
     auto niter = 0U;
     while (++niter != options.max_it)
     {
-        auto retry = (status == CUTStatus::noeffect);
         const auto [cut, x0, shrunk, more_alt] = Omega(S.xc(), t, retry);
         if (shrunk)
         { // best t obtained
@@ -153,6 +153,7 @@ auto cutting_plane_q(
             x_best = x0;
         }
         const auto [cutstatus, tsq] = S.update(cut);
+        retry = (cutstatus == CUTStatus::noeffect);
         if (cutstatus == CUTStatus::noeffect)
         {
             if (!more_alt)
-- 
2.43.0


From a40028b33172139197506cb2bf40f412ef94346d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:15 +0000
Subject: [PATCH 02/17] fix: keep Fraction denominators positive

normalize() returned early when the gcd is 1, and reciprocal() and
operator/=(Z) never looked at the sign; ordering with a negative denominator
gave the wrong answer.
---
 lib/include/py2cpp/fractions.hpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/lib/include/py2cpp/fractions.hpp b/lib/include/py2cpp/fractions.hpp
index c3686e5..c6ad911 100644
--- a/lib/include/py2cpp/fractions.hpp
+++ b/lib/include/py2cpp/fractions.hpp
@@ -79,15 +79,15 @@ struct Fraction : boost::totally_ordered<Fraction<Z>,
     constexpr void normalize()
     {
         auto common = gcd(this->_numerator, this->_denominator);
-        if (common == Z(1))
-        {
-            return;
-        }
         // if (common == Z(0)) [[unlikely]] return; // both num and den are zero
         if (this->_denominator < Z(0))
         {
             common = -common;
         }
+        if (common == Z(1))
+        {
+            return;
+        }
         this->_numerator /= common;
         this->_denominator /= common;
     }
@@ -151,6 +151,20 @@ struct Fraction : boost::totally_ordered<Fraction<Z>,
     constexpr void reciprocal()
     {
         std::swap(_numerator, _denominator);
+        this->keep_denominator_positive();
+    }
+
+    /*!
+     * @brief
+     *
+     */
+    constexpr void keep_denominator_positive()
+    {
+        if (_denominator < Z(0))
+        {
+            _numerator = -_numerator;
+            _denominator = -_denominator;
+        }
     }
 
     /*!
@@ -379,6 +393,7 @@ struct Fraction : boost::totally_ordered<Fraction<Z>,
             this->_denominator *= (i / common);
             this->_numerator /= common;
         }
+        this->keep_denominator_positive();
         return *this;
     }
 
-- 
2.43.0


From 547c9d6f1b3d77e865a829c4e2c3ab29310d99c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:15 +0000
Subject: [PATCH 03/17] fix: fun::gcd and fun::lcm must not truncate to int

The unqualified abs() found ::abs(int), so wide values were truncated (and
Fraction<long long>(3LL << 40, 5LL << 40) divided by zero).
---
 lib/include/py2cpp/fractions.hpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/lib/include/py2cpp/fractions.hpp b/lib/include/py2cpp/fractions.hpp
index c6ad911..7fa4e00 100644
--- a/lib/include/py2cpp/fractions.hpp
+++ b/lib/include/py2cpp/fractions.hpp
@@ -13,6 +13,19 @@
 namespace fun
 {
 
+/*!
+ * @brief Absolute value (in any integral type, not just `int`)
+ *
+ * @tparam Mn
+ * @param[in] _n
+ * @return Mn
+ */
+template <typename Mn>
+constexpr auto abs_value(const Mn& _n) -> Mn
+{
+    return _n < Mn(0) ? Mn(-_n) : _n;
+}
+
 /*!
  * @brief Greatest common divider
  *
@@ -24,7 +37,8 @@ namespace fun
 template <typename Mn>
 constexpr auto gcd(Mn _m, Mn _n) -> Mn
 {
-    return _m == 0 ? abs(_n) : _n == 0 ? abs(_m) : gcd(_n, _m % _n);
+    return _m == 0 ? abs_value(_n)
+                   : _n == 0 ? abs_value(_m) : gcd(_n, _m % _n);
 }
 
 /*!
@@ -38,7 +52,9 @@ constexpr auto gcd(Mn _m, Mn _n) -> Mn
 template <typename Mn>
 constexpr auto lcm(Mn _m, Mn _n) -> Mn
 {
-    return (_m != 0 && _n != 0) ? (abs(_m) / gcd(_m, _n)) * abs(_n) : 0;
+    return (_m != 0 && _n != 0)
+        ? (abs_value(_m) / gcd(_m, _n)) * abs_value(_n)
+        : 0;
 }
 
 template <typename Z>
-- 
2.43.0


From 1f42580013805a3dc2e1469aba7350dd2f4d2c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:15 +0000
Subject: [PATCH 04/17] fix: parallel cut no longer divides by zero when beta0
 == -beta1

sigma was computed as 0/0 for a symmetric slab and lost all accuracy near it.
Use the algebraically equal form without the cancellation.
---
 lib/src/ell.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/ell.cpp b/lib/src/ell.cpp
index 7f57f1f..11aec5b 100644
--- a/lib/src/ell.cpp
+++ b/lib/src/ell.cpp
@@ -50,8 +50,9 @@ auto ell::_calc_ll_core(const double& b0, const double& b1) -> CUTStatus
     const auto bav = bsum / 2.;
     const auto tempn = this->_halfN * bsumn * bdiff;
     const auto xi = std::sqrt(t0n * t1n + tempn * tempn);
-    this->_sigma =
-        this->_c3 + (1. + b0b1n - xi) / (bsumn * bav) / this->_nPlus1;
+    // Note: (1 + b0b1n)^2 - xi^2 = (bsumn * bav) * 2 * h
+    const auto h = 1. - this->_nSq / 4. * bdiff * (bdiff / this->_tsq);
+    this->_sigma = this->_c3 + this->_c2 * h / (1. + b0b1n + xi);
     this->_rho = this->_sigma * bav;
     this->_delta = this->_c1 * ((t0n + t1n) / 2. + xi / this->_nFloat);
     return CUTStatus::success;
-- 
2.43.0


From 153d4a1838f5899f17a47c32fa2a484be6128392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:15 +0000
Subject: [PATCH 05/17] fix: to_csd and to_csdfixed for 2/3 < |num| < 1 and for
 exact values

The leading digit of values in (2/3, 1) was lost (non-canonical and inaccurate
strings), and to_csdfixed never stopped once num was represented exactly with
fewer than nnz digits (or with nnz = 0).
---
 lib/src/csd.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/lib/src/csd.cpp b/lib/src/csd.cpp
index 86f9775..d47f56f 100644
--- a/lib/src/csd.cpp
+++ b/lib/src/csd.cpp
@@ -22,8 +22,9 @@ auto to_csd(double num, int places = 0) noexcept -> string
         return "0";
     }
     auto absnum = fabs(num);
-    auto n = absnum < 1. ? 0 : int(ceil(log2(absnum * 1.5)));
-    auto csd_str = string {absnum < 1. ? "0" : ""};
+    auto n = int(ceil(log2(absnum * 1.5)));
+    n = n < 0 ? 0 : n;
+    auto csd_str = string {n == 0 ? "0" : ""};
     auto limit = pow(2., n) / 3.;
     while (n > -places)
     {
@@ -108,10 +109,15 @@ auto to_csdfixed(double num, unsigned int nnz = 4) noexcept -> string
         return "0";
     }
     auto an = fabs(num);
-    auto n = an < 1. ? 0 : int(ceil(log2(an * 1.5)));
-    auto csd_str = string {an < 1. ? "0" : ""};
+    auto n = int(ceil(log2(an * 1.5)));
+    n = n < 0 ? 0 : n;
+    auto csd_str = string {n == 0 ? "0" : ""};
     auto limit = pow(2., n) / 3.;
-    while (n > 0 || nnz > 0)
+    if (nnz == 0)
+    {
+        num = 0;
+    }
+    while (n > 0 || (nnz > 0 && num != 0.))
     {
         if (n == 0)
         {
-- 
2.43.0


From 2b6015f8a6e9540581d240f752b12a175829ad8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:15 +0000
Subject: [PATCH 06/17] fix: qmi_oracle gradient uses the columns of F[k]

F(x)'F(x) is formed from columns, but the gradient took the rows: wrong for a
non-symmetric F[k] and a dimension mismatch for a rectangular one.
---
 lib/src/qmi_oracle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/qmi_oracle.cpp b/lib/src/qmi_oracle.cpp
index 79b7285..3bffbb4 100644
--- a/lib/src/qmi_oracle.cpp
+++ b/lib/src/qmi_oracle.cpp
@@ -53,8 +53,8 @@ std::optional<Cut> qmi_oracle::operator()(const Arr& x)
     auto g = zeros({this->_nx});
     for (auto k = 0U; k != this->_nx; ++k)
     {
-        const auto Fkp = ROW(this->_F[k], xt::range(start, stop));
-        g(k) = -2 * dot(dot(v, Fkp), Av)();
+        const auto Fkp = Arr {COLUMN(this->_F[k], xt::range(start, stop))};
+        g(k) = -2 * dot(dot(Fkp, v), Av)();
     }
     return {{std::move(g), ep}};
 }
-- 
2.43.0


From 7cff2d5512109a2ce022d504653930669b9f37a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:39 +0000
Subject: [PATCH 07/17] fix: ell_stable no longer divides by zero when a cut
 leaves the shape's direction alone (sigma == 0)

---
 lib/src/ell_stable.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/ell_stable.cpp b/lib/src/ell_stable.cpp
index 8ba9199..8068a65 100644
--- a/lib/src/ell_stable.cpp
+++ b/lib/src/ell_stable.cpp
@@ -72,16 +72,16 @@ auto ell_stable::update(const std::tuple<Arr, T>& cut) -> std::tuple<CUTStatus,
     // rank-one update: 3*n + (n-1)*n/2
     // const auto r = this->_sigma / omega;
     const auto mu = this->_sigma / (1. - this->_sigma);
-    auto oldt = omega / mu; // initially
+    auto oldt = omega; // initially
     const auto m = this->_n - 1;
     for (auto j = 0; j != m; ++j)
     {
         // p=sqrt(k)*vv(j);
         // const auto p = invLg(j);
         // const auto mup = mu * p;
-        const auto t = oldt + gQg(j);
+        const auto t = oldt + mu * gQg(j);
         // this->_Q(j, j) /= t; // update invD
-        const auto beta2 = invDinvLg(j) / t;
+        const auto beta2 = mu * invDinvLg(j) / t;
         this->_Q(j, j) *= oldt / t; // update invD
         for (auto l = j + 1; l != this->_n; ++l)
         {
@@ -93,7 +93,7 @@ auto ell_stable::update(const std::tuple<Arr, T>& cut) -> std::tuple<CUTStatus,
 
     // const auto p = invLg(n1);
     // const auto mup = mu * p;
-    const auto t = oldt + gQg(m);
+    const auto t = oldt + mu * gQg(m);
     this->_Q(m, m) *= oldt / t; // update invD
 
 
-- 
2.43.0


From 76ec466942ed5bf0f72b285e290ca5e83a20ed5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:40 +0000
Subject: [PATCH 08/17] fix: digit count of CSD conversions next to 2^n/3

log2(1.5*|num|) is rounded: just above 2^n/3 it came out as an integer, one
digit too few were made and the leading one was wrong.
---
 lib/src/csd.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/src/csd.cpp b/lib/src/csd.cpp
index d47f56f..09ac81f 100644
--- a/lib/src/csd.cpp
+++ b/lib/src/csd.cpp
@@ -24,6 +24,10 @@ auto to_csd(double num, int places = 0) noexcept -> string
     auto absnum = fabs(num);
     auto n = int(ceil(log2(absnum * 1.5)));
     n = n < 0 ? 0 : n;
+    if (absnum > pow(2., n + 1) / 3.)
+    {
+        n += 1; // log2 was rounded down to an integer
+    }
     auto csd_str = string {n == 0 ? "0" : ""};
     auto limit = pow(2., n) / 3.;
     while (n > -places)
@@ -111,6 +115,10 @@ auto to_csdfixed(double num, unsigned int nnz = 4) noexcept -> string
     auto an = fabs(num);
     auto n = int(ceil(log2(an * 1.5)));
     n = n < 0 ? 0 : n;
+    if (an > pow(2., n + 1) / 3.)
+    {
+        n += 1; // log2 was rounded down to an integer
+    }
     auto csd_str = string {n == 0 ? "0" : ""};
     auto limit = pow(2., n) / 3.;
     if (nnz == 0)
-- 
2.43.0


From eb949b5d397af62a1296663fdfa5173ca29dcd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:24 +0000
Subject: [PATCH 09/17] fix: create_2d_isotropic evaluates each noise sample
 once, so the covariance is symmetric

---
 lib/src/lsq_corr_ell.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/lsq_corr_ell.cpp b/lib/src/lsq_corr_ell.cpp
index 995339c..404d3ee 100644
--- a/lib/src/lsq_corr_ell.cpp
+++ b/lib/src/lsq_corr_ell.cpp
@@ -69,8 +69,8 @@ Arr create_2d_isotropic(const Arr& s, size_t N = 3000U)
     auto Y = zeros({n, n});
     for (auto k = 0U; k != N; ++k)
     {
-        auto x = var * xt::random::randn<double>({n});
-        auto y = dot(A, x) + tau * xt::random::randn<double>({n});
+        const auto x = Arr {var * xt::random::randn<double>({n})};
+        const auto y = Arr {dot(A, x) + tau * xt::random::randn<double>({n})};
         // Arr y = dot(A, x);
         Y += xt::linalg::outer(y, y);
     }
-- 
2.43.0


From 0ea0bccd49a89116b28d93c580a587d8fee0489b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:56 +0000
Subject: [PATCH 10/17] fix: posynomial's log_exp_gradient and
 log_exp_fvalue_with_gradient did not compile

---
 lib/include/ellip/posynomial.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/ellip/posynomial.hpp b/lib/include/ellip/posynomial.hpp
index 63cb9e6..2ecf8ab 100644
--- a/lib/include/ellip/posynomial.hpp
+++ b/lib/include/ellip/posynomial.hpp
@@ -164,7 +164,7 @@ class posynomial
 
         if (N == 1)
         { // monomial
-            const Vec& gt = _M[0].gradient(y);
+            const Vec& gt = _M[0].lse_gradient(y);
             for (auto i = 0; i != n; ++i)
             {
                 g[i] = gt[i];
@@ -215,7 +215,7 @@ class posynomial
 
         if (N == 1)
         { // i.e. monomial
-            const Vec& gt = _M[0].gradient(y);
+            const Vec& gt = _M[0].lse_gradient(y);
             for (auto i = 0; i != n; ++i)
             {
                 g[i] = gt[i];
-- 
2.43.0


From 608361f53fea6bce128678e7766257a12cc8c4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:56 +0000
Subject: [PATCH 11/17] fix: adding a posynomial to itself never ended

---
 lib/include/ellip/posynomial.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/include/ellip/posynomial.hpp b/lib/include/ellip/posynomial.hpp
index 2ecf8ab..6e34997 100644
--- a/lib/include/ellip/posynomial.hpp
+++ b/lib/include/ellip/posynomial.hpp
@@ -73,7 +73,8 @@ class posynomial
     /** Add and assign */
     _Self& operator+=(const _Self& P)
     {
-        for (auto i = 0; i != P._M.size(); ++i)
+        const auto N = P._M.size(); // P may be *this
+        for (size_t i = 0; i != N; ++i)
             _M.push_back(P._M[i]);
         return *this;
     }
-- 
2.43.0


From 4211ddcf2785d0fbb85b19dd0f685b87394c09dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:18 +0000
Subject: [PATCH 12/17] fix: number_of_edges counts an arc that is added again
 only once

---
 lib/include/xnetwork/classes/digraphs.hpp | 6 +++---
 lib/include/xnetwork/classes/graph.hpp    | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/include/xnetwork/classes/digraphs.hpp b/lib/include/xnetwork/classes/digraphs.hpp
index ddd3260..8688575 100644
--- a/lib/include/xnetwork/classes/digraphs.hpp
+++ b/lib/include/xnetwork/classes/digraphs.hpp
@@ -343,9 +343,9 @@ class DiGraphS : public Graph<nodeview_t, adjlist_t>
         // add the edge
         // datadict = this->_adj[u].get(v, this->edge_attr_dict_factory());
         // datadict.update(attr);
+        this->_num_of_edges += this->_succ[u].contains(v) ? 0 : 1;
         this->_succ[u].insert(v);
         // this->_prev[v].insert(u);
-        this->_num_of_edges += 1;
     }
 
     template <typename U = key_type>
@@ -361,9 +361,9 @@ class DiGraphS : public Graph<nodeview_t, adjlist_t>
         // datadict.update(attr);
         using T = typename adjlist_t::mapped_type;
         auto data = this->_adj[u].get(v, T {});
+        this->_num_of_edges += this->_succ[u].contains(v) ? 0 : 1;
         this->_succ[u][v] = data;
         // this->_prev[v][u] = data;
-        this->_num_of_edges += 1;
     }
 
     template <typename T>
@@ -371,8 +371,8 @@ class DiGraphS : public Graph<nodeview_t, adjlist_t>
     {
         assert(this->_node.contains(u));
         assert(this->_node.contains(v));
+        this->_num_of_edges += this->_succ[u].contains(v) ? 0 : 1;
         this->_succ[u][v] = data;
-        this->_num_of_edges += 1;
     }
 
     template <typename C1, typename C2>
diff --git a/lib/include/xnetwork/classes/graph.hpp b/lib/include/xnetwork/classes/graph.hpp
index d3eb9db..d4411f2 100644
--- a/lib/include/xnetwork/classes/graph.hpp
+++ b/lib/include/xnetwork/classes/graph.hpp
@@ -625,9 +625,9 @@ class Graph : public object
         // datadict = this->_adj[u].get(v, this->edge_attr_dict_factory());
         // datadict.update(attr);
         // set
+        this->_num_of_edges += this->_adj[u].contains(v) ? 0 : 1;
         this->_adj[u].insert(v);
         this->_adj[v].insert(u);
-        this->_num_of_edges += 1;
     }
 
     template <typename U = key_type>
@@ -643,9 +643,9 @@ class Graph : public object
         // datadict.update(attr);
         using T = typename adjlist_t::mapped_type;
         auto data = this->_adj[u].get(v, T {});
+        this->_num_of_edges += this->_adj[u].contains(v) ? 0 : 1;
         this->_adj[u][v] = data;
         this->_adj[v][u] = data; // ???
-        this->_num_of_edges += 1;
     }
 
     template <typename T>
@@ -653,9 +653,9 @@ class Graph : public object
     {
         assert(this->_node.contains(u));
         assert(this->_node.contains(v));
+        this->_num_of_edges += this->_adj[u].contains(v) ? 0 : 1;
         this->_adj[u][v] = data;
         this->_adj[v][u] = data;
-        this->_num_of_edges += 1;
     }
 
     template <typename C1, typename C2>
-- 
2.43.0


From e77afcb805844914cefa8b872e493a52acd39994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:18 +0000
Subject: [PATCH 13/17] fix: a moved DiGraphS referred to the adjacency of the
 graph it was moved from

---
 lib/include/xnetwork/classes/digraphs.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/include/xnetwork/classes/digraphs.hpp b/lib/include/xnetwork/classes/digraphs.hpp
index 8688575..1f99ca0 100644
--- a/lib/include/xnetwork/classes/digraphs.hpp
+++ b/lib/include/xnetwork/classes/digraphs.hpp
@@ -242,6 +242,12 @@ class DiGraphS : public Graph<nodeview_t, adjlist_t>
     {
     }
 
+    DiGraphS(DiGraphS&& other) noexcept
+        : _Base {std::move(other)}
+        , _succ {_Base::_adj} // not the one of other
+    {
+    }
+
     /// @property
     /*! DiGraphS adjacency object holding the neighbors of each node.
 
-- 
2.43.0


From 1d90bc46cac39ab01ff605cda6e4aa8b65c8f1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 14/17] fix: a slab with one plane through the centre lost its
 width to cancellation when thin

---
 lib/src/ell.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/ell.cpp b/lib/src/ell.cpp
index 11aec5b..49b93fb 100644
--- a/lib/src/ell.cpp
+++ b/lib/src/ell.cpp
@@ -69,7 +69,9 @@ void ell::_calc_ll_cc(const double& b1, const double& b1sqn)
 {
     const auto temp = this->_halfN * b1sqn;
     const auto xi = std::sqrt(1. - b1sqn + temp * temp);
-    this->_sigma = this->_c3 + this->_c2 * (1. - xi) / b1sqn;
+    // Note: 1 - xi^2 = b1sqn * h
+    const auto h = 1. - this->_halfN * temp;
+    this->_sigma = this->_c3 + this->_c2 * h / (1. + xi);
     this->_rho = this->_sigma * b1 / 2;
     this->_delta = this->_c1 * (1. - b1sqn / 2. + xi / this->_nFloat);
 }
-- 
2.43.0


From 39104bb4269263a70ad3e64107fa2698ebd06780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 15/17] fix: multiplying or dividing a posynomial by one of its
 own terms changed the factor on the way

---
 lib/include/ellip/posynomial.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/include/ellip/posynomial.hpp b/lib/include/ellip/posynomial.hpp
index 6e34997..65553e7 100644
--- a/lib/include/ellip/posynomial.hpp
+++ b/lib/include/ellip/posynomial.hpp
@@ -82,16 +82,18 @@ class posynomial
     /** Multiply and assign */
     _Self& operator*=(const monomial<_Tp>& m)
     {
+        const auto c = m; // m may be one of the terms
         for (auto i = 0; i != _M.size(); ++i)
-            _M[i] *= m;
+            _M[i] *= c;
         return *this;
     }
 
     /** Divide and assign */
     _Self& operator/=(const monomial<_Tp>& m)
     {
+        const auto c = m; // m may be one of the terms
         for (auto i = 0; i != _M.size(); ++i)
-            _M[i] /= m;
+            _M[i] /= c;
         return *this;
     }
 
-- 
2.43.0


From ebf3075ecff95a8b5b86dc70a0f23ff143d8c199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:56 +0000
Subject: [PATCH 16/17] fix: Graph::clear and DiGraphS::clear keep the nodes
 usable and reset the edge count

---
 lib/include/xnetwork/classes/digraphs.hpp | 6 +++++-
 lib/include/xnetwork/classes/graph.hpp    | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/include/xnetwork/classes/digraphs.hpp b/lib/include/xnetwork/classes/digraphs.hpp
index 1f99ca0..22e2b1a 100644
--- a/lib/include/xnetwork/classes/digraphs.hpp
+++ b/lib/include/xnetwork/classes/digraphs.hpp
@@ -543,7 +543,11 @@ class DiGraphS : public Graph<nodeview_t, adjlist_t>
     */
     auto clear()
     {
-        this->_succ.clear();
+        for (auto& nbrs : this->_succ) // the nodes stay
+        {
+            nbrs.clear();
+        }
+        this->_num_of_edges = 0;
         // this->_pred.clear()
         // this->_node.clear();
         this->graph.clear();
diff --git a/lib/include/xnetwork/classes/graph.hpp b/lib/include/xnetwork/classes/graph.hpp
index d4411f2..58c4d22 100644
--- a/lib/include/xnetwork/classes/graph.hpp
+++ b/lib/include/xnetwork/classes/graph.hpp
@@ -835,7 +835,11 @@ class Graph : public object
         [];
 
          */
-        this->_adj.clear();
+        for (auto& nbrs : this->_adj) // the nodes stay
+        {
+            nbrs.clear();
+        }
+        this->_num_of_edges = 0;
         // this->_node.clear();
         this->graph.clear();
     }
-- 
2.43.0


From 6386e19f20ffb7e497000510e98ff9dd48e9ca86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:57 +0000
Subject: [PATCH 17/17] fix: Graph::get_name after set_name

---
 lib/include/xnetwork/classes/graph.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/include/xnetwork/classes/graph.hpp b/lib/include/xnetwork/classes/graph.hpp
index 58c4d22..0173e46 100644
--- a/lib/include/xnetwork/classes/graph.hpp
+++ b/lib/include/xnetwork/classes/graph.hpp
@@ -4,6 +4,7 @@
 #include <boost/utility/string_view.hpp>
 #include <cassert>
 #include <py2cpp/py2cpp.hpp>
+#include <string>
 #include <type_traits>
 #include <vector>
 #include <xnetwork/classes/coreviews.hpp> // import AtlasView, AdjacencyView
@@ -346,13 +347,14 @@ class Graph : public object
         {
             return "";
         }
-        return boost::any_cast<const char*>(this->graph["name"]);
+        return boost::any_cast<const std::string&>(this->graph["name"])
+            .c_str();
     }
 
     // @name.setter
     auto set_name(boost::string_view s)
     {
-        this->graph["name"] = boost::any(s);
+        this->graph["name"] = boost::any(std::string(s));
     }
 
     /*! Iterate over the nodes. Use: "for (auto&& n : G)".
-- 
2.43.0

