// C13: linear matrix inequality oracles.
#include "mats.hpp"
#include <ellcpp/oracles/lmi0_oracle.hpp>
#include <ellcpp/oracles/lmi_old_oracle.hpp>
#include <ellcpp/oracles/lmi_oracle.hpp>

using Cut = std::tuple<Arr, double>;
struct Ans
{
    bool cut = false;
    DV g;
    double b = 0;
    explicit Ans(const std::optional<Cut>& k)
    {
        if (!k) return;
        cut = true;
        g = toDV(std::get<0>(*k));
        b = std::get<1>(*k);
    }
    bool operator==(const Ans& o) const { return cut == o.cut && g == o.g && b == o.b; }
    std::string show() const { return cut ? pbt::str("cut g=", ::show(g), " beta=", b) : "no cut"; }
};
struct Family // F0 - sum x_k F_k, feasible at z
{
    size_t m, n;
    std::vector<Mat> F;
    Mat F0;
    Vec z;
    Mat at(const Vec& x) const
    {
        Mat A = F0;
        for (size_t k = 0; k < n; ++k)
            for (size_t i = 0; i < A.a.size(); ++i) A.a[i] -= x[k] * F[k].a[i];
        return A;
    }
};
static Family gen(pbt::Ctx& c, size_t mmax, size_t nmax)
{
    Family f;
    f.m = size_t(c.many(1, int64_t(mmax), 2 * int64_t(mmax), 4));
    f.n = size_t(c.many(1, int64_t(nmax), 3 * int64_t(nmax), 4));
    for (size_t k = 0; k < f.n; ++k) f.F.push_back(gen_sym(c, f.m, 3.));
    for (size_t k = 0; k < f.n; ++k) f.z.push_back(c.num(3.));
    // F(z) = B'B + d I
    Mat B(f.m, f.m);
    for (auto& v : B.a) v = c.num(2.);
    f.F0 = la::mul(la::tr(B), B);
    const double d = c.real(.01, 2.);
    for (size_t i = 0; i < f.m; ++i) f.F0(i, i) += d;
    for (size_t k = 0; k < f.n; ++k)
        for (size_t i = 0; i < f.F0.a.size(); ++i) f.F0.a[i] += f.z[k] * f.F[k].a[i];
    for (auto& v : f.F0.a) v = double(v);
    return f;
}
static R lmin_rel(const Mat& A) { return la::lambda_min(A) / (A.maxabs() + 1e-300L); }
static void judge(pbt::Ctx& c, const char* what, const Ans& a, const Mat& A, const Vec& x, const std::vector<Vec>& starts,
    const std::function<bool(const Vec&)>& ok, bool& hard)
{
    const R l = lmin_rel(A);
    if (std::fabs(l) > 1e-8L)
        c.check(a.cut == (l < 0), pbt::str(what, l < 0 ? ": no cut although the matrix is not positive definite" : ": a cut although the matrix is positive definite"));
    if (!a.cut || !clear_pivots(A)) return;
    c.check(std::isfinite(a.b) && a.b >= 0, pbt::str(what, ": offset ", a.b, " is negative"));
    for (auto v : a.g) c.check(std::isfinite(v), pbt::str(what, ": gradient not finite"));
    if (l < -1e-8L)
        c.check(std::any_of(a.g.begin(), a.g.end(), [](double q) { return q != 0; }), pbt::str(what, ": the cut says nothing (zero gradient) although feasible points exist"));
    const auto [v, y] = attack(c, x, a.g, a.b, starts, ok, 6);
    if (v > 1e-8L)
        c.fail(pbt::str(what, ": the cut removes the feasible point ", show(DV(y.begin(), y.end())), " (by ", double(v), " relative)"));
    hard = true;
}

static void run_queries(pbt::Ctx& c, size_t mmax, size_t nmax, int64_t longest)
{
    const auto f = gen(c, mmax, nmax);
    // the code sees each coordinate in units of its own; powers of two change no digit
    DV unit(f.n, 1.);
    if (c.chance(40))
        for (auto& u : unit) u = std::ldexp(1., c.sym(c.pick(std::vector<int> {4, 30, 60})));
    std::vector<Arr> F, H;
    H.push_back(toArr(f.F0));
    for (size_t k = 0; k < f.n; ++k)
    {
        Mat M = f.F[k], N = M;
        for (auto& v : M.a) v = v * unit[k];
        for (auto& v : N.a) v = -v * unit[k];
        F.push_back(toArr(M));
        H.push_back(toArr(N));
    }
    lmi_oracle lazy(F, toArr(f.F0));
    lmi_old_oracle dense(F, toArr(f.F0));
    lmi0_oracle hom(H);
    c.note("F0=", show(f.F0));
    for (auto& M : f.F) c.note("F=", show(M));
    c.note("units ", show(unit));
    auto ok = [&](const Vec& y) { return bool(la::chol(f.at(y))); };
    const auto len = c.many(1, std::min<int64_t>(8, longest), longest, 3);
    const bool eager = c.chance(50); // fresh objects in between or at the end
    std::vector<std::pair<Vec, Ans>> past;
    bool hard = false;
    int feas = 0;
    for (int i = 0; i < len; ++i)
    {
        const bool again = !past.empty() && c.chance(25);
        const std::function<bool(const Vec&)> inside = ok;
        const auto x = again ? past[c.draw(past.size())].first : gen_query(c, f.z, past.empty() ? nullptr : &past.back().first, &inside);
        DV xd(x.begin(), x.end());
        for (size_t k = 0; k < f.n; ++k) xd[k] /= unit[k];
        DV hd {1.};
        hd.insert(hd.end(), xd.begin(), xd.end());
        auto plain = [&](Ans q, size_t off = 0) { // back to the common unit
            for (size_t k = 0; k + off < q.g.size(); ++k) q.g[k + off] /= unit[k];
            return q;
        };
        const Ans a = plain(Ans(lazy(toArr(xd)))), b = plain(Ans(dense(toArr(xd)))), h = plain(Ans(hom(toArr(hd))), 1);
        c.note("x=", show(DV(x.begin(), x.end())), " -> ", a.show());
        if (again)
            for (auto& [px, pa] : past)
                if (px == x) c.check(pa == a, "the same query got another answer: " + pa.show() + " then " + a.show());
        past.push_back({x, a});
        if (eager)
        {
            lmi_oracle fresh(F, toArr(f.F0));
            c.check(plain(Ans(fresh(toArr(xd)))) == a, "a fresh oracle answers differently");
        }
        const auto A = f.at(x);
        judge(c, "lmi_oracle", a, A, x, {f.z}, ok, hard);
        if (std::fabs(lmin_rel(A)) > 1e-8L && clear_pivots(A))
        {
            c.check(a.cut == b.cut && a.cut == h.cut, "lazy, dense and homogeneous oracles disagree");
            if (a.cut)
            {
                R gs = std::fabs(a.b);
                for (auto v : a.g) gs += std::fabs(v);
                for (auto v : h.g) gs += std::fabs(v);
                c.check(std::fabs(a.b - b.b) <= 1e-7L * gs && std::fabs(a.b - h.b) <= 1e-7L * gs, pbt::str("offsets differ: ", a.b, ", ", b.b, ", ", h.b));
                for (size_t k = 0; k < f.n; ++k)
                    c.check(std::fabs(a.g[k] - b.g[k]) <= 1e-7L * gs && std::fabs(a.g[k] - h.g[k + 1]) <= 1e-7L * gs,
                        pbt::str("gradients differ in ", k, ": ", a.g[k], ", ", b.g[k], ", ", h.g[k + 1]));
            }
        }
        feas += !a.cut;
    }
    if (!eager)
        for (auto& [px, pa] : past)
        {
            DV xd(px.begin(), px.end());
            for (size_t k = 0; k < f.n; ++k) xd[k] /= unit[k];
            lmi_oracle fresh(F, toArr(f.F0));
            auto q = Ans(fresh(toArr(xd)));
            for (size_t k = 0; k < q.g.size(); ++k) q.g[k] /= unit[k];
            c.check(q == pa, "a fresh oracle answers differently");
        }
    if (hard && f.m >= 2) c.nontrivial();
    c.label(feas ? "with accepted points" : "all cut");
}
PROP(queries, 25000, 150000) { run_queries(c, 6, 5, 40); }
PROP(wide, 1500, 12000) { run_queries(c, 18, 4, 3); }
// the homogeneous oracle on its own: sum x_k F_k
PROP(homogeneous, 12000, 120000)
{
    auto f = gen(c, 6, 5);
    // make sum z_k F_k positive definite: adjust one matrix
    size_t p = 0;
    for (size_t k = 0; k < f.n; ++k)
        if (std::fabs(f.z[k]) > std::fabs(f.z[p])) p = k;
    if (std::fabs(f.z[p]) < .05L) f.z[p] = 1;
    {
        Mat B(f.m, f.m);
        for (auto& v : B.a) v = c.num(2.);
        Mat S = la::mul(la::tr(B), B);
        const double d = c.real(.01, 2.);
        for (size_t i = 0; i < f.m; ++i) S(i, i) += d;
        for (size_t k = 0; k < f.n; ++k)
            if (k != p)
                for (size_t i = 0; i < S.a.size(); ++i) S.a[i] -= f.z[k] * f.F[k].a[i];
        for (size_t i = 0; i < S.a.size(); ++i) f.F[p].a[i] = double(S.a[i] / f.z[p]);
    }
    auto at = [&](const Vec& x) {
        Mat A(f.m, f.m);
        for (size_t k = 0; k < f.n; ++k)
            for (size_t i = 0; i < A.a.size(); ++i) A.a[i] += x[k] * f.F[k].a[i];
        return A;
    };
    std::vector<Arr> F;
    for (auto& M : f.F) { F.push_back(toArr(M)); c.note("F=", show(M)); }
    lmi0_oracle hom(F);
    auto ok = [&](const Vec& y) { return bool(la::chol(at(y))); };
    bool hard = false;
    const bool eager = c.chance(50);
    Vec last;
    const auto len = c.many(1, 5, 30, 3);
    for (int i = 0; i < len; ++i)
    {
        const std::function<bool(const Vec&)> inside = ok;
        const auto x = last = gen_query(c, f.z, last.empty() ? nullptr : &last, &inside);
        const DV xd(x.begin(), x.end());
        const Ans a(hom(toArr(xd)));
        c.note("x=", show(xd), " -> ", a.show());
        if (eager)
        {
            lmi0_oracle fresh(F);
            c.check(Ans(fresh(toArr(xd))) == a, "a fresh oracle answers differently");
        }
        Vec far = f.z;
        for (auto& v : far) v *= 20;
        judge(c, "lmi0_oracle", a, at(x), x, {f.z, far}, ok, hard);
    }
    if (hard && f.m >= 2) c.nontrivial();
}
// exactly singular matrices: small integers; never accepted, and cut validly
PROP(singular, 15000, 150000)
{
    const auto m = size_t(c.many(1, 4, 8)), n = size_t(c.many(1, 3, 8));
    std::vector<Arr> F;
    std::vector<Mat> FM;
    Mat F0(m, m);
    Vec x;
    // F(x) = L D L' with a zero pivot, exact in double
    Mat L = Mat::eye(m);
    Vec D;
    const auto zero = c.draw(m);
    for (size_t i = 0; i < m; ++i)
    {
        D.push_back(i == zero ? R(0) : std::ldexp(R(1), int(c.in(0, 2))));
        for (size_t j = 0; j < i; ++j) L(i, j) = R(c.sym(2));
    }
    for (size_t i = 0; i < m; ++i)
        for (size_t j = 0; j < m; ++j)
            for (size_t k = 0; k <= std::min(i, j); ++k) F0(i, j) += L(i, k) * D[k] * L(j, k);
    for (size_t k = 0; k < n; ++k)
    {
        Mat M(m, m);
        for (size_t i = 0; i < m; ++i)
            for (size_t j = 0; j <= i; ++j) M(i, j) = M(j, i) = R(c.sym(3));
        x.push_back(R(c.sym(4)));
        for (size_t i = 0; i < M.a.size(); ++i) F0.a[i] += x[k] * M.a[i];
        FM.push_back(M);
        F.push_back(toArr(M));
    }
    const DV xd(x.begin(), x.end());
    lmi_oracle lazy(F, toArr(F0));
    lmi_old_oracle dense(F, toArr(F0));
    const Ans a(lazy(toArr(xd))), b(dense(toArr(xd)));
    c.note("F0=", show(F0), " x=", show(xd), " -> ", a.show());
    c.check(a.cut && b.cut, "a singular matrix was accepted");
    c.check(a == b, "lazy and dense oracles disagree");
    c.check(a.b == 0, pbt::str("the offset is ", a.b, " for a zero pivot"));
    auto at = [&](const Vec& y) {
        Mat A = F0;
        for (size_t k = 0; k < n; ++k)
            for (size_t i = 0; i < A.a.size(); ++i) A.a[i] -= y[k] * FM[k].a[i];
        return A;
    };
    std::vector<Vec> starts {x};
    for (int k = 0; k < 6; ++k)
    {
        Vec y = x;
        for (auto& v : y) v += R(c.gauss());
        starts.push_back(y);
    }
    const auto [v, y] = attack(c, x, a.g, a.b, starts, [&](const Vec& w) { return bool(la::chol(at(w))); }, 4);
    if (v > 1e-8L) c.fail(pbt::str("the cut removes the feasible point ", show(DV(y.begin(), y.end()))));
    if (m >= 2) c.nontrivial();
    if (std::isfinite(double(v))) c.label("with feasible points");
}
