// C29: the library's oracles, driven by its own solvers, solve the problems they stand for.
#include "ellref.hpp"
#include "profit.hpp"
#include <ellcpp/cutting_plane.hpp>
#include <ellcpp/ell.hpp>
#include <ellcpp/ell_stable.hpp>
#include <ellcpp/oracles/lmi0_oracle.hpp>
#include <ellcpp/oracles/lmi_old_oracle.hpp>
#include <ellcpp/oracles/lmi_oracle.hpp>
#include <ellcpp/oracles/qmi_oracle.hpp>
#include <memory>

using ArrCut = std::tuple<Arr, double>;
static R normV(const Vec& v) { return la::norm(v); }
static R norm2(const Mat& A) // spectral norm of a symmetric matrix
{
    const auto e = la::eig(A);
    return std::max(std::fabs(e.front()), std::fabs(e.back()));
}
static Mat gen_psd(pbt::Ctx& c, size_t m, size_t rank, R floor)
{
    Mat A(m, m);
    for (size_t k = 0; k < rank; ++k)
    {
        Vec v(m);
        for (auto& x : v) x = c.num(2.);
        for (size_t i = 0; i < m; ++i)
            for (size_t j = 0; j < m; ++j) A(i, j) += v[i] * v[j];
    }
    for (size_t i = 0; i < m; ++i) A(i, i) += floor;
    return A;
}
static R inner(const Mat& A, const Mat& B)
{
    R s = 0;
    for (size_t i = 0; i < A.a.size(); ++i) s += A.a[i] * B.a[i];
    return s;
}
static void add(Mat& A, R s, const Mat& B)
{
    for (size_t i = 0; i < A.a.size(); ++i) A.a[i] += s * B.a[i];
}
// an orthonormal basis by Gram-Schmidt on random vectors
static Mat gen_orth(pbt::Ctx& c, size_t m)
{
    Mat Q(m, m);
    for (size_t j = 0; j < m; ++j)
        for (int t = 0;; ++t)
        {
            Vec v(m);
            for (size_t i = 0; i < m; ++i) v[i] = t > 3 ? R(i == (j + size_t(t)) % m) : c.gauss();
            for (size_t k = 0; k < j; ++k)
            {
                R s = 0;
                for (size_t i = 0; i < m; ++i) s += Q(i, k) * v[i];
                for (size_t i = 0; i < m; ++i) v[i] -= s * Q(i, k);
            }
            const R n = normV(v);
            if (n < .05L) continue;
            for (size_t i = 0; i < m; ++i) Q(i, j) = v[i] / n;
            break;
        }
    return Q;
}
static Mat spectral(const Mat& Q, const Vec& d)
{
    const auto m = Q.r;
    Mat A(m, m);
    for (size_t i = 0; i < m; ++i)
        for (size_t j = 0; j < m; ++j)
            for (size_t k = 0; k < m; ++k) A(i, j) += Q(i, k) * d[k] * Q(j, k);
    return A;
}
static void round_(Mat& A)
{
    for (size_t i = 0; i < A.r; ++i)
        for (size_t j = 0; j <= i; ++j) A(i, j) = A(j, i) = double(A(i, j));
}
// F0 - sum x_k F_k >= 0 for each block
struct Block
{
    std::vector<Mat> F;
    Mat F0;
    std::vector<Arr> aF;
    Arr aF0;
    void finish()
    {
        aF.clear();
        for (auto& f : F) aF.push_back(toArr(f));
        aF0 = toArr(F0);
    }
    Mat at(const DV& x) const
    {
        Mat A = F0;
        for (size_t k = 0; k < F.size(); ++k) add(A, -R(x[k]), F[k]);
        return A;
    }
    R scale(const DV& x) const
    {
        R s = norm2(F0);
        for (size_t k = 0; k < F.size(); ++k) s += std::fabs(R(x[k])) * norm2(F[k]);
        return s;
    }
    R lip() const // |F(x) - F(y)| <= lip |x - y|
    {
        R s = 0;
        for (auto& f : F) { const R n = norm2(f); s += n * n; }
        return std::sqrt(s);
    }
};
struct SDP
{
    size_t n {};
    std::vector<Block> B;
    DV xs, z, c;
    R rho {};
    R f(const DV& x) const
    {
        R s = 0;
        for (size_t i = 0; i < n; ++i) s += R(c[i]) * x[i];
        return s;
    }
    R fabs_(const DV& x) const
    {
        R s = 0;
        for (size_t i = 0; i < n; ++i) s += std::fabs(R(c[i]) * x[i]);
        return s;
    }
    R worst(const DV& x) const // smallest eigenvalue relative to the size of the terms
    {
        R w = INFINITY;
        for (auto& b : B) w = std::min(w, la::lambda_min(b.at(x)) / b.scale(x));
        return w;
    }
};
// with an optimum by complementary slackness and an inner ball about z
static SDP gen_sdp(pbt::Ctx& c, size_t n, size_t mmax)
{
    SDP p;
    p.n = n;
    p.xs.resize(n);
    for (auto& v : p.xs) v = c.num(3.);
    DV D(n);
    for (auto& v : D) v = c.num(1.);
    const auto k0 = size_t(c.draw(n));
    D[k0] = (c.chance(50) ? 1. : -1.) * c.real(.4, 1.);
    p.z = p.xs;
    for (size_t i = 0; i < n; ++i) p.z[i] += D[i];
    Vec cc(n, 0.L);
    const auto nb = size_t(c.in(1, 2));
    p.rho = INFINITY;
    for (size_t b = 0; b < nb; ++b)
    {
        const auto m = size_t(c.in(1, int64_t(mmax)));
        Block k;
        for (size_t i = 0; i < n; ++i) k.F.push_back(gen_sym(c, m, 2.));
        auto G = gen_psd(c, m, 1, c.real(.3, 2.));
        Mat S = G;
        for (size_t i = 0; i < n; ++i)
            if (i != k0) add(S, D[i], k.F[i]);
        for (auto& v : S.a) v *= -1 / R(D[k0]);
        round_(S);
        k.F[k0] = S;
        const auto Q = gen_orth(c, m);
        const bool active = b == 0 || c.chance(50);
        const size_t rank = active ? c.draw(m) : m; // of F(x*)
        Vec a(m), zz(m);
        for (size_t i = 0; i < m; ++i) (i < rank ? a[i] : zz[i]) = c.real(.2, 3.);
        k.F0 = spectral(Q, a);
        for (size_t i = 0; i < n; ++i) add(k.F0, p.xs[i], k.F[i]);
        round_(k.F0);
        if (active)
        {
            const auto Z = spectral(Q, zz);
            for (size_t i = 0; i < n; ++i) cc[i] -= inner(Z, k.F[i]);
        }
        k.finish();
        p.rho = std::min(p.rho, la::lambda_min(k.at(p.z)) / k.lip());
        p.B.push_back(std::move(k));
    }
    for (auto v : cc) p.c.push_back(double(v));
    return p;
}
static std::string describe(const SDP& p)
{
    std::string s = pbt::str("minimise ", show(p.c), "'x; ");
    for (auto& b : p.B)
    {
        s += "F0=" + show(b.F0);
        for (auto& f : b.F) s += " F=" + show(f);
        s += "; ";
    }
    return s + pbt::str("optimum at ", show(p.xs), ", inner ball of radius ", double(p.rho), " at ", show(p.z));
}
static Start gen_outer(pbt::Ctx& c, const DV& z, const DV& xs, R rho)
{
    Start s;
    s.n = z.size();
    s.ball = !c.chance(30);
    s.x = z;
    const double d0 = c.chance(30) ? c.real(5., 50.) : c.real(0., 5.);
    for (auto& v : s.x) v += c.chance(80) ? d0 * c.gauss() / 2 : 0.;
    double r = 0, a = 0;
    for (size_t i = 0; i < s.n; ++i)
    {
        r += (s.x[i] - z[i]) * (s.x[i] - z[i]);
        a += (s.x[i] - xs[i]) * (s.x[i] - xs[i]);
    }
    r = std::max(std::sqrt(r) + double(rho), std::sqrt(a)) * c.real(1.01, 4.);
    s.alpha = r * r;
    if (!s.ball)
        for (size_t i = 0; i < s.n; ++i) s.val.push_back(s.alpha * c.real(1., 3.));
    return s;
}
static double radius2(const Start& s) { return s.ball ? s.alpha : *std::max_element(s.val.begin(), s.val.end()); }
static double extent(const ell& e, const Start& s) { return std::max(radius2(s), double(la::lambda_max(shape(e, s.n)))); }

// one oracle per block, of either class
struct Feas
{
    std::vector<std::unique_ptr<lmi_oracle>> a;
    std::vector<std::unique_ptr<lmi_old_oracle>> b;
    std::vector<bool> old;
    size_t cuts = 0;
    Feas(pbt::Ctx& c, const SDP& p)
    {
        for (auto& k : p.B)
        {
            old.push_back(c.chance(40));
            a.push_back(std::make_unique<lmi_oracle>(k.aF, k.aF0));
            b.push_back(std::make_unique<lmi_old_oracle>(k.aF, k.aF0));
        }
    }
    std::optional<ArrCut> operator()(const Arr& x)
    {
        for (size_t i = 0; i < a.size(); ++i)
            if (auto k = old[i] ? (*b[i])(x) : (*a[i])(x))
            {
                ++cuts;
                return k;
            }
        return {};
    }
};
static double norm_arr(const Arr& g)
{
    double s = 0;
    for (auto v : g) s += v * v;
    return std::sqrt(s);
}

PROP(lmi_optimum, 20000, 200000)
{
    const auto n = size_t(c.many(2, 5, 9, 3));
    auto p = gen_sdp(c, n, n > 5 ? 8 : 4);
    R cn = 0;
    for (auto v : p.c) cn += R(v) * v;
    cn = std::sqrt(cn);
    if (cn < 1e-3L || p.rho < 1e-3L) c.discard();
    const auto s = gen_outer(c, p.z, p.xs, p.rho);
    auto e = s.make<ell>();
    Wear wear;
    c.note(describe(p), "; ", s.show());
    Feas feas(c, p);
    const auto ac = toArr(p.c);
    Options o;
    o.max_it = 20000;
    o.tol = std::ldexp(1., -int(c.in(10, 30)));
    const double fx = double(p.f(p.xs)), fz = double(p.f(p.z));
    double t = c.chance(60) ? 1e100 : fz + c.real(1e-3, 3.);
    const double t0 = t;
    double glast = 0, gmax = 0;
    bool deep = c.chance(70);
    size_t cuts = 0;
    auto om = [&](const Arr& x, double& tt) -> std::tuple<ArrCut, bool> {
        if (wear(e, n, gmax, o.tol)) c.discard();
        ++cuts;
        auto answer = [&](ArrCut k, bool b) -> std::tuple<ArrCut, bool> {
            glast = norm_arr(std::get<0>(k));
            gmax = std::max(gmax, glast);
            return {std::move(k), b};
        };
        if (auto k = feas(x)) return answer(*k, false);
        double f0 = 0;
        for (size_t i = 0; i < n; ++i) f0 += p.c[i] * x(i);
        if (f0 - tt > 0) return answer({ac, deep ? f0 - tt : 0.}, false);
        tt = f0;
        return answer({ac, 0.}, true);
    };
    const auto [xb, info] = cutting_plane_dc(om, e, t, o);
    c.note("-> t=", t, " (optimum ", fx, ") feasible ", info.feasible, " iterations ", info.num_iters, " ", name(info.status));
    const R size = 1e-9L * (1 + p.fabs_(p.xs) + cn);
    if (info.feasible)
    {
        const auto x = toDV(xb);
        c.check(x.size() == n, "no best point");
        c.check(p.worst(x) >= -1e-9L, "the reported solution violates a matrix inequality");
        c.check(std::fabs(p.f(x) - t) <= 1e-12L * p.fabs_(x), pbt::str("the returned value is ", t, " but the best point has ", double(p.f(x))));
        c.check(t >= fx - size - 1e-6L * std::fabs(fx), pbt::str("a value below the optimum: ", t));
        c.check(t <= t0, "the value got worse");
    }
    c.label(info.num_iters >= o.max_it ? "limit" : name(info.status));
    if (info.num_iters >= o.max_it) return;
    // x* + eps (ball - x*) is feasible, its values are at most f* + eps (f(z) + |c| rho - f*)
    const R ext = extent(e, s);
    const R tau = std::sqrt(R(o.tol) + 1e-13L * ext * glast * glast);
    const R eps = tau / (p.rho * glast) * 1.05L + 1e-9L, rise = fz + cn * p.rho - fx;
    if (eps < .7L && (t0 > 1e50 || fx + eps * rise + size < t0))
    {
        c.check(info.feasible, pbt::str("a problem with an inner ball of radius ", double(p.rho), " was reported infeasible: ", name(info.status)));
        c.check(t <= fx + eps * rise + size, pbt::str("ended with ", t, ", the optimum is ", fx, "; within the tolerance is ", double(eps * rise), " above (", name(info.status), ", iterations ", info.num_iters, ")"));
        if (feas.cuts >= 3) c.nontrivial();
    }
    else c.label("tolerance too coarse for the problem");
}

// the same for searches, which work on copies of the space: each cut stretches the
// ellipsoid by at most n^2/(n^2-1)
static bool worn(const Arr& x, const Start& s, size_t cuts, double gmax, double tol)
{
    for (auto v : x)
        if (!std::isfinite(v))
        {
            const R n = R(s.n), grow = n * n / (n * n - 1);
            return 1e-14L * radius2(s) * std::pow(grow, R(cuts)) * gmax * gmax > tol;
        }
    return false;
}
// the same by a binary search over the objective
struct Level
{
    Feas& feas;
    const SDP& p;
    Arr ac;
    R box;
    pbt::Ctx& c;
    const Start& s;
    double tol;
    double t = 0, gmax = 1;
    size_t count = 0;
    ArrCut last;
    struct Rec { double t; size_t count; double g; };
    std::vector<Rec> rec;
    void update(double v)
    {
        done();
        t = v;
        count = 0;
    }
    void done()
    {
        if (count) rec.push_back({t, count, norm_arr(std::get<0>(last))});
    }
    std::optional<ArrCut> operator()(const Arr& x)
    {
        if (worn(x, s, count, gmax, tol)) c.discard(); // works on a copy of the space
        ++count;
        for (size_t i = 0; i < p.n; ++i)
            if (const double d = x(i) - p.z[i]; std::fabs(d) > box)
            {
                Arr g = xt::zeros<double>({p.n});
                g(i) = d > 0 ? 1. : -1.;
                last = {g, std::fabs(d) - double(box)};
                return last;
            }
        if (auto k = feas(x))
        {
            last = *k;
            gmax = std::max(gmax, norm_arr(std::get<0>(last)));
            return last;
        }
        gmax = std::max(gmax, norm_arr(ac));
        double f0 = -t;
        for (size_t i = 0; i < p.n; ++i) f0 += p.c[i] * x(i);
        if (f0 > 0)
        {
            last = {ac, f0};
            return last;
        }
        return {};
    }
};
PROP(lmi_search, 6000, 60000)
{
    const auto n = size_t(c.many(2, 4, 6, 3));
    auto p = gen_sdp(c, n, 3);
    R cn = 0, dist = 0;
    for (auto v : p.c) cn += R(v) * v;
    cn = std::sqrt(cn);
    if (cn < 1e-3L || p.rho < 1e-3L) c.discard();
    for (size_t i = 0; i < n; ++i) dist = std::max(dist, std::fabs(R(p.z[i]) - p.xs[i]));
    const R box = std::max(dist, p.rho) + c.real(.1, 3.);
    Start s;
    s.n = n;
    s.ball = true;
    s.x = p.z;
    for (auto& v : s.x) v += double(box) * c.real(-.9, .9);
    // contains the box from any of its points
    s.alpha = 4.1 * double(box * box) * double(n);
    auto e = s.make<ell>();
    Feas feas(c, p);
    Options oi, o;
    oi.max_it = 5000;
    oi.tol = std::ldexp(1., -int(c.in(12, 26)));
    o.max_it = 200;
    o.tol = std::ldexp(1., -int(c.in(6, 16)));
    Level lev {feas, p, toArr(p.c), box, c, s, oi.tol};
    c.note(describe(p), "; ", s.show());
    const double fx = double(p.f(p.xs)), fz = double(p.f(p.z));
    const double lo = fx - c.real(.1, 5.), hi = fz + c.real(0., 3.);
    bsearch_adaptor Q(lev, e, oi);
    const auto [up, info] = [&] {
        auto I = std::make_pair(lo, hi);
        const auto r = bsearch(Q, I, o);
        return std::make_pair(I.second, r);
    }();
    lev.done();
    c.note("-> level ", up, " (optimum ", fx, ") feasible ", info.feasible, " ", name(info.status), " ", info.num_iters);
    const R size = 1e-9L * (1 + p.fabs_(p.xs) + cn);
    c.check(up >= fx - size, pbt::str("the level ", up, " is below the optimum ", fx));
    R bound = fx + size + 2.05L * o.tol; // the bracket ends up at most two tolerances wide
    if (info.feasible)
    {
        const auto x = toDV(Q.x_best());
        c.check(p.worst(x) >= -1e-9L, "the best point violates a matrix inequality");
        c.check(p.f(x) <= up + size, pbt::str("the best point has ", double(p.f(x)), ", the level is ", up));
    }
    // a level that was given up has no ball in it that the tolerance cannot miss
    bool limit = false, coarse = false;
    for (auto& r : lev.rec)
        if (r.t < up)
        {
            if (r.count + 2 >= oi.max_it) { limit = true; continue; }
            const R tau = std::sqrt(R(oi.tol) + 1e-13L * s.alpha * r.g * r.g);
            const R eps = tau / (p.rho * r.g) * 1.05L + 1e-9L;
            const R rise = fz + cn * p.rho - fx;
            if (eps >= .7L) { coarse = true; continue; }
            c.check(r.t <= fx + eps * rise + size, pbt::str("level ", r.t, " was given up after ", r.count, " cuts, although a ball of radius ",
                double(std::min(R(1), (r.t - fx) / rise) * p.rho), " is feasible"));
            bound = std::max(bound, fx + eps * rise + size + 2.05L * o.tol);
        }
    if (limit || coarse) { c.label(limit ? "limit" : "tolerance too coarse for the problem"); return; }
    if (hi > bound)
    {
        c.check(info.feasible, "no level was found feasible");
        c.check(up <= bound, pbt::str("ended at level ", up, ", the optimum is ", fx, " and the tolerances allow ", double(bound)));
        if (feas.cuts >= 3) c.nontrivial();
    }
}
// points of matrix inequalities, and none where a certificate excludes them
template <typename Orc>
static void point(pbt::Ctx& c, const SDP& p, Orc& om, size_t& cuts)
{
    const auto s = gen_outer(c, p.z, p.z, p.rho);
    const bool st = s.ball && c.chance(25); // only while the recorded defect of ell_stable cannot show
    auto e = s.make<ell>();
    c.note("; ", s.show());
    const double R0 = std::sqrt(radius2(s));
    Options o;
    o.max_it = unsigned(2. * double(p.n + 1) * double(p.n) * std::log(R0 / double(p.rho)) + 12.) + 2;
    o.tol = 0.; // the volume decides
    if (st)
    {
        auto e2 = s.make<ell_stable>();
        const auto info = cutting_plane_feas(om, e2, o);
        if (info.feasible) c.check(p.worst(toDV(e2.xc())) >= -1e-9L, "reported feasible, but the centre violates a matrix inequality");
    }
    const auto info = cutting_plane_feas(om, e, o);
    c.note("-> feasible ", info.feasible, " ", name(info.status), " ", info.num_iters, " of ", o.max_it);
    if (!info.feasible && p.rho < 1e-5L * R0) { c.label("rounding dominates"); return; }
    c.check(info.feasible, pbt::str("a set with a ball of radius ", double(p.rho), " was missed: ", name(info.status), " after ", info.num_iters, " of ", o.max_it));
    c.check(p.worst(toDV(e.xc())) >= -1e-9L, "reported feasible, but the centre violates a matrix inequality");
    if (cuts >= 2) c.nontrivial();
}
PROP(lmi_point, 24000, 240000)
{
    const auto n = size_t(c.many(2, 6, 10, 3));
    auto p = gen_sdp(c, n, n > 6 ? 8 : 5);
    if (p.rho < 1e-4L) c.discard();
    c.note(describe(p));
    if (c.chance(40)) // x1 F1 + x2 F2 + ... >= 0
    {
        auto& k = p.B[0];
        p.B.resize(1);
        std::vector<Arr> neg;
        k.F0 = Mat(k.F0.r, k.F0.r);
        // make F(z) positive definite: choose the last term
        auto G = gen_psd(c, k.F0.r, 1, c.real(.3, 2.));
        size_t k0 = 0;
        for (size_t i = 0; i < n; ++i)
            if (std::fabs(p.z[i]) > std::fabs(p.z[k0])) k0 = i;
        if (std::fabs(p.z[k0]) < .1) c.discard();
        for (size_t i = 0; i < n; ++i)
            if (i != k0) add(G, p.z[i], k.F[i]);
        for (auto& v : G.a) v *= -1 / R(p.z[k0]);
        round_(G);
        k.F[k0] = G;
        k.finish();
        p.rho = la::lambda_min(k.at(p.z)) / k.lip();
        if (!(p.rho > 1e-4L)) c.discard();
        for (auto& f : k.F)
        {
            auto g = toArr(f);
            g *= -1.;
            neg.push_back(g);
        }
        lmi0_oracle lmi0(neg);
        size_t cuts = 0;
        auto om = [&](const Arr& x) {
            auto r = lmi0(x);
            if (r) ++cuts;
            return r;
        };
        c.note("homogeneous, F0 = 0, last term replaced: ", show(k.F[k0]));
        point(c, p, om, cuts);
        return;
    }
    Feas f(c, p);
    auto om = [&](const Arr& x) { return f(x); };
    point(c, p, om, f.cuts);
}
PROP(lmi_infeasible, 16000, 160000)
{
    const auto n = size_t(c.many(2, 5, 9, 3)), m = size_t(c.in(1, 5));
    SDP p;
    p.n = n;
    // Z >= 0 with <Z, F_k> = 0 and <Z, F0> < 0: no point
    const auto Z = gen_psd(c, m, c.in(1, int64_t(m)), c.chance(50) ? .1L : 0.L);
    const R zz = inner(Z, Z);
    if (zz < 1e-2L) c.discard();
    Block k;
    for (size_t i = 0; i < n; ++i)
    {
        auto F = gen_sym(c, m, 2.);
        add(F, -inner(Z, F) / zz, Z);
        round_(F);
        k.F.push_back(F);
    }
    k.F0 = gen_sym(c, m, 3.);
    add(k.F0, -(inner(Z, k.F0) + R(c.real(.05, 2.)) * std::sqrt(zz)) / zz, Z);
    round_(k.F0);
    k.finish();
    p.B.push_back(std::move(k));
    p.z = p.xs = p.c = DV(n, 0.);
    Start s;
    s.n = n;
    s.ball = true;
    for (size_t i = 0; i < n; ++i) s.x.push_back(c.num(4.));
    s.alpha = std::ldexp(1., int(c.in(-4, 10)));
    auto e = s.make<ell>();
    c.note(describe(p), "; certificate ", show(Z), "; ", s.show());
    Feas f(c, p);
    auto om = [&](const Arr& x) {
        for (auto v : x)
            if (!(std::fabs(v) < 1e6)) c.discard();
        return f(x); };
    Options o;
    o.max_it = 3000;
    o.tol = c.chance(50) ? 1e-8 : 1e-4;
    const auto info = cutting_plane_feas(om, e, o);
    c.note("-> ", info.feasible, " ", name(info.status), " ", info.num_iters);
    c.check(!info.feasible, "an infeasible matrix inequality was reported feasible");
    c.check(info.status != CUTStatus::noeffect, "ended by a cut without effect, although every cut removes the centre");
    c.label(info.num_iters >= o.max_it ? "limit" : name(info.status));
    if (info.num_iters >= 2) c.nontrivial();
}

// min |F0 - sum x_k F_k|^2 (spectral norm)
PROP(matrix_norm, 4000, 40000)
{
    const auto n = size_t(c.many(2, 4, 6, 3)), r = size_t(c.in(1, 4)), q = size_t(c.in(1, 4)), w = std::min(r, q);
    const auto U = gen_orth(c, r), V = gen_orth(c, q);
    Vec sv(w);
    sv[0] = c.real(.3, 3.);
    for (size_t i = 1; i < w; ++i) sv[i] = sv[0] * R(c.real(0., 1.));
    DV xs(n);
    for (auto& v : xs) v = c.num(3.);
    std::vector<Mat> F;
    Mat F0(r, q);
    for (size_t i = 0; i < r; ++i)
        for (size_t j = 0; j < q; ++j)
            for (size_t k = 0; k < w; ++k) F0(i, j) += U(i, k) * sv[k] * V(j, k);
    Mat G(n, n);
    for (size_t k = 0; k < n; ++k)
    {
        Mat A(r, q);
        for (auto& v : A.a) v = c.num(2.);
        // no component along the leading singular pair: x* is a minimiser
        R d = 0;
        for (size_t i = 0; i < r; ++i)
            for (size_t j = 0; j < q; ++j) d += U(i, 0) * A(i, j) * V(j, 0);
        for (size_t i = 0; i < r; ++i)
            for (size_t j = 0; j < q; ++j) A(i, j) = double(A(i, j) - d * U(i, 0) * V(j, 0));
        for (size_t i = 0; i < A.a.size(); ++i) F0.a[i] += xs[k] * A.a[i];
        F.push_back(A);
    }
    for (auto& v : F0.a) v = double(v);
    R lip = 0;
    for (auto& A : F) lip += inner(A, A);
    lip = std::sqrt(lip);
    if (lip < 1e-2L) c.discard();
    for (size_t k = 0; k < n; ++k)
        for (size_t l = 0; l < n; ++l) G(k, l) = inner(F[k], F[l]);
    auto norm = [&](const DV& x) {
        Mat A = F0;
        for (size_t k = 0; k < n; ++k) add(A, -R(x[k]), F[k]);
        return std::sqrt(std::max(R(0), la::lambda_max(la::mul(la::tr(A), A)))); };
    std::vector<Arr> aF;
    for (auto& A : F) aF.push_back(toArr(A));
    Start s;
    s.n = n;
    s.ball = true;
    s.x = xs;
    R d2 = 0;
    for (auto& v : s.x)
    {
        const double d = c.num(3.);
        v += d;
        d2 += R(d) * d;
    }
    const R n0 = norm(s.x);
    const double lo = c.chance(50) ? 0. : double(sv[0] * sv[0] * .9L), hi = double(n0 * n0) + c.real(.01, 2.);
    // x* stays within reach of every point that can become the centre
    const R lam = la::lambda_min(G);
    R reach = std::sqrt(d2) + 1;
    if (lam > 1e-4L * la::lambda_max(G)) reach = std::max(reach, 2 * std::sqrt(R(hi) * R(w)) / std::sqrt(lam)) * R(c.real(1.1, 2.));
    else c.discard();
    s.alpha = double(reach * reach);
    auto e = s.make<ell>();
    std::string fs;
    for (auto& A : F) fs += show(A) + " ";
    c.note("F0=", show(F0), " F=", fs, " minimiser ", show(xs), " of norm ", double(sv[0]), "; ", s.show());
    qmi_oracle qmi(aF, toArr(F0));
    Options oi, o;
    oi.max_it = 5000;
    oi.tol = std::ldexp(1., -int(c.in(14, 30)));
    o.max_it = 200;
    o.tol = std::ldexp(1., -int(c.in(6, 16)));
    struct Wrap
    {
        qmi_oracle& q;
        pbt::Ctx& c;
        const Start& s;
        double tol;
        double t = 0, g = 0, gmax = 1;
        size_t count = 0, cuts = 0;
        std::vector<Level::Rec> rec;
        void done() { if (count) rec.push_back({t, count, g}); }
        void update(double v) { done(); q.update(v); t = v; count = 0; }
        std::optional<ArrCut> operator()(const Arr& x)
        {
            if (worn(x, s, count, gmax, tol)) c.discard(); // works on a copy of the space
            ++count;
            auto k = q(x);
            if (k) { ++cuts; g = norm_arr(std::get<0>(*k)); gmax = std::max(gmax, g); }
            return k;
        }
    } om {qmi, c, s, oi.tol};
    bsearch_adaptor Q(om, e, oi);
    auto I = std::make_pair(lo, hi);
    const auto info = bsearch(Q, I, o);
    om.done();
    const double up = I.second;
    const R best = sv[0] * sv[0];
    c.note("-> level ", up, " (optimum ", double(best), ") feasible ", info.feasible, " ", name(info.status), " ", info.num_iters);
    const R size = 1e-9L * (1 + best + lip * lip * (1 + d2));
    c.check(up >= best - size, pbt::str("the level ", up, " is below the optimum ", double(best)));
    if (info.feasible)
    {
        const R v = norm(toDV(Q.x_best()));
        c.check(v * v <= up + size, pbt::str("the best point has ", double(v * v), ", the level is ", up));
    }
    R bound = best + size + 2.05L * o.tol;
    for (auto& k : om.rec)
        if (k.t < up)
        {
            if (k.count + 2 >= oi.max_it) { c.label("limit"); return; }
            // the ball of radius (sqrt t - sigma)/lip about x* is feasible at level t
            const R tau = std::sqrt(R(oi.tol) + 1e-13L * s.alpha * k.g * k.g) / k.g * 1.05L + 1e-8L;
            const R b = sv[0] + tau * lip;
            c.check(k.t <= b * b + size, pbt::str("level ", k.t, " was given up after ", k.count, " cuts, although a ball of radius ",
                double((std::sqrt(R(k.t)) - sv[0]) / lip), " is feasible"));
            bound = std::max(bound, b * b + size + 2.05L * o.tol);
        }
    if (hi > bound)
    {
        c.check(info.feasible, "no level was found feasible");
        c.check(up <= bound, pbt::str("ended at level ", up, ", the optimum is ", double(best), " and the tolerances allow ", double(bound)));
        if (om.cuts >= 3) c.nontrivial();
    }
}

// the profit models
static Vec climb(const Model& m, Vec y, bool grid)
{
    R step = 1, f = m.profit(y);
    for (int i = 0; i < 400 && step > (grid ? .9L : 1e-9L); ++i)
    {
        bool up = false;
        for (int d = 0; d < 8 && !up; ++d)
        {
            static const R dx[] {1, -1, 0, 0, 1, 1, -1, -1}, dy[] {0, 0, 1, -1, 1, -1, 1, -1};
            Vec w {std::min(y[0] + step * dx[d], m.limit()), y[1] + step * dy[d]};
            if (std::fabs(w[1]) > 40 || w[0] < -40) continue;
            const R q = m.profit(w);
            if (q > f) { f = q; y = w; up = true; }
        }
        if (!up) step /= 2;
    }
    return y;
}
PROP(profit_optimum, 16000, 160000)
{
    const bool robust = c.chance(60);
    const auto m = gen_model(c, robust);
    if (m.k - m.e3 < 1.05 || m.p - m.e3 < .1) c.discard();
    // constant or increasing returns need not have an optimum
    if (m.a[0] + m.a[1] + m.e[0] + m.e[1] > .93 || m.a[0] - m.e[0] < .02 || m.a[1] - m.e[1] < .02) c.discard();
    c.note(m.show(), robust ? " robust" : " nominal");
    Vec best {std::min(R(0), m.limit()), 0};
    for (int k = 0; k < 3; ++k)
    {
        const auto y = climb(m, {std::min(R(c.real(-6., 5.)), m.limit()), R(c.real(-6., 5.))}, false);
        if (m.profit(y) > m.profit(best)) best = y;
    }
    const R top = m.profit(best);
    Start s;
    s.n = 2;
    s.ball = true;
    s.x = {double(best[0]) + 3 * c.gauss(), double(best[1]) + 3 * c.gauss()};
    const R far = std::hypot(R(s.x[0]) - best[0], R(s.x[1]) - best[1]) + 1;
    s.alpha = double(far * far) * c.real(1.05, 6.);
    auto e = s.make<ell>();
    Options o;
    o.max_it = 3000;
    o.tol = std::ldexp(1., -int(c.in(10, 34)));
    Wear wear;
    const double t0 = c.chance(50) || !(top > 0) ? 0. : double(top) * c.real(0., .999);
    double t = t0, glast = 1, gmax = 1;
    size_t cuts = 0;
    CInfo info {};
    Arr xb;
    auto run = [&](auto& P) {
        auto om = [&](const Arr& y, double& tt) {
            if (wear(e, 2, gmax, o.tol)) c.discard();
            ++cuts;
            auto r = P(y, tt);
            glast = norm_arr(std::get<0>(std::get<0>(r)));
            gmax = std::max(gmax, glast);
            return r;
        };
        const auto [x, i] = cutting_plane_dc(om, e, t, o);
        xb = x;
        info = i;
    };
    if (robust)
    {
        profit_rb_oracle P(m.p, m.A, m.k, pair(m.a), pair(m.v), pair(m.e), m.e3);
        run(P);
    }
    else
    {
        profit_oracle P(m.p, m.A, m.k, pair(m.a), pair(m.v));
        run(P);
    }
    c.note("start ", s.show(), " tolerance ", o.tol, " initial t ", t0, " -> t=", t, " (", double(top), " at ", double(best[0]), ",", double(best[1]), ") feasible ",
        info.feasible, " ", name(info.status), " ", info.num_iters);
    if (info.feasible)
    {
        const auto x = toDV(xb);
        c.check(x.size() == 2, "no best point");
        const Vec y {x[0], x[1]};
        c.check(y[0] <= m.limit() + 1e-12L * (1 + std::fabs(m.limit())), "the best point exceeds the limit");
        const R sc = m.revenue(y) + m.cost(y);
        c.check(std::fabs(m.profit(y) - t) <= 1e-9L * sc, pbt::str("the returned value is ", t, " but the best point has ", double(m.profit(y))));
        c.check(t >= t0, "the value got worse");
    }
    else c.check(t == t0, "the value changed without a feasible point");
    c.label(info.num_iters >= o.max_it ? "limit" : name(info.status));
    if (info.num_iters >= o.max_it) return;
    if (!(top > t0 + 1e-6L)) { c.label("nothing to gain"); return; }
    // a disc of points that are better than t cannot be missed
    const R rmin = std::sqrt(R(o.tol) + 1e-12L * s.alpha * glast * glast) / glast * 1.05L / std::cos(R(3.14159265358979L) / 16) + 1e-7L;
    bool disc = true;
    const Vec at {std::min(best[0], m.limit() - 1.0001L * rmin), best[1]};
    for (int k = 0; k < 16 && disc; ++k)
    {
        const R an = R(3.14159265358979L) / 8 * k;
        const Vec y {at[0] + rmin * std::cos(an), at[1] + rmin * std::sin(an)};
        disc = m.admissible(y) && m.profit(y) > t + 1e-9L * (m.revenue(y) + m.cost(y));
    }
    // the disc is within the start
    if (rmin > .5L) { c.label("tolerance too coarse for the problem"); return; }
    c.check(!disc, pbt::str("ended with ", t, ", but a disc of radius ", double(rmin), " has better points (up to ", double(top), ")"));
    if (cuts >= 4 && top - t < 1e-2L * (1 + top)) c.nontrivial();
}
PROP(profit_discrete, 16000, 160000)
{
    auto m = gen_model(c, false);
    if (m.k < 2) c.discard();
    if (m.a[0] + m.a[1] > .93) c.discard();
    c.note(m.show(), " discrete");
    Start s;
    s.n = 2;
    s.ball = true;
    s.x = {c.real(-2., 4.), c.real(-2., 4.)};
    s.alpha = c.real(4., 100.);
    auto e = s.make<ell>();
    Options o;
    o.max_it = 2000;
    o.tol = std::ldexp(1., -int(c.in(8, 30)));
    const double t0 = 0.;
    double t = t0;
    size_t cuts = 0;
    profit_q_oracle P(m.p, m.A, m.k, pair(m.a), pair(m.v));
    auto om = [&](const Arr& y, double& tt, bool retry) { ++cuts; return P(y, tt, retry); };
    const auto [xb, info] = cutting_plane_q(om, e, t, o);
    c.note("start ", s.show(), " -> t=", t, " feasible ", info.feasible, " ", name(info.status), " ", info.num_iters);
    if (!info.feasible)
    {
        c.check(t == t0, "the value changed without a feasible point");
        return;
    }
    const auto x = toDV(xb);
    c.check(x.size() == 2, "no best point");
    const Vec y {x[0], x[1]};
    c.note("best point ", x[0], " ", x[1]);
    c.check(y[0] <= m.limit() + 1e-12L * (1 + std::fabs(m.limit())), "the best point exceeds the limit");
    for (int i = 0; i < 2; ++i)
    {
        const R v = std::exp(y[i]);
        c.check(std::fabs(v - std::round(v)) <= 1e-9L * (1 + v) && v > .5L, pbt::str("quantity ", double(v), " is not a positive integer"));
    }
    c.check(std::fabs(m.profit(y) - t) <= 1e-9L * (m.revenue(y) + m.cost(y)), pbt::str("the returned value is ", t, " but the best point has ", double(m.profit(y))));
    if (cuts >= 4) c.nontrivial();
}
