// C11: the solvers on convex problems with a known answer.
#include "ellref.hpp"
#include <ellcpp/cutting_plane.hpp>
#include <ellcpp/ell1d.hpp>

struct Row
{
    DV a;
    double lo, hi;
};
static double dotd(const DV& a, const DV& b)
{
    double s = 0;
    for (size_t i = 0; i < a.size(); ++i) s += a[i] * b[i];
    return s;
}
static double normd(const DV& a) { return std::sqrt(dotd(a, a)); }
struct Problem
{
    size_t n {};
    std::vector<Row> rows;
    DV z, xs; // centre of an inner ball, a minimiser
    double rho {}, q {};
    DV c; // f(x) = c'(x - xs) + q/2 |x - xs|^2, minimum 0 at xs
    double f(const DV& x, DV* g = nullptr) const
    {
        double s = 0;
        if (g) *g = c;
        for (size_t i = 0; i < n; ++i)
        {
            const double d = x[i] - xs[i];
            s += c[i] * d + q / 2 * d * d;
            if (g) (*g)[i] += q * d;
        }
        return s;
    }
    double worst(const DV& x) const // largest violation, relative to |a|
    {
        double m = 0;
        for (auto& r : rows)
        {
            const double v = dotd(r.a, x);
            m = std::max({m, (v - r.hi) / normd(r.a), (r.lo - v) / normd(r.a)});
        }
        return m;
    }
};
static DV rnd(pbt::Ctx& c, size_t n, double m)
{
    DV v(n);
    for (auto& x : v) x = c.num(m);
    return v;
}
static Problem gen_problem(pbt::Ctx& c, size_t n)
{
    Problem p;
    p.n = n;
    p.z = rnd(c, n, 4.);
    p.rho = c.real(.05, .5);
    DV D(n);
    for (auto& v : D) v = c.gauss();
    if (normd(D) < .1) D[0] += 1.;
    const double len = p.rho * c.real(1.2, 6.) / normd(D);
    for (auto& v : D) v *= len;
    p.xs = p.z;
    for (size_t i = 0; i < n; ++i) p.xs[i] += D[i];
    const auto act = size_t(c.in(0, int64_t(n) + 2)), in = size_t(c.in(0, 6));
    p.c = DV(n, 0.);
    auto dir = [&] {
        auto a = rnd(c, n, 3.);
        if (normd(a) < .2) a[c.draw(n)] += c.chance(50) ? -1. : 1.;
        if (normd(a) < .2) { a.assign(n, 0.); a[0] = 1.; }
        return a;
    };
    for (size_t k = 0; k < act; ++k)
    {
        auto a = dir();
        if (dotd(a, D) < 0) for (auto& v : a) v = -v;
        // a'D >= 1.1 rho |a|, so that the inner ball satisfies it
        for (int t = 0; t < 60 && dotd(a, D) < 1.1 * p.rho * normd(a); ++t)
            for (size_t i = 0; i < n; ++i) a[i] += .3 * D[i] / p.rho;
        Row r {a, -INFINITY, dotd(a, p.xs)};
        if (dotd(a, D) < 1.1 * p.rho * normd(a)) continue;
        if (c.chance(40)) r.lo = dotd(a, p.z) - normd(a) * (p.rho + c.real(0., 2.));
        const double lam = c.real(.1, 2.);
        for (size_t i = 0; i < n; ++i) p.c[i] -= lam * a[i];
        p.rows.push_back(r);
    }
    for (size_t k = 0; k < in; ++k)
    {
        Row r {dir(), -INFINITY, INFINITY};
        const double v = dotd(r.a, p.z), w = dotd(r.a, p.xs), s = normd(r.a) * p.rho;
        const bool slab = c.chance(40);
        r.hi = std::max(v + s, w) + normd(r.a) * c.real(.01, 2.);
        if (slab) r.lo = std::min(v - s, w) - normd(r.a) * c.real(.01, 2.);
        p.rows.push_back(r);
    }
    p.q = (c.chance(50) || p.rows.empty() || normd(p.c) < 1e-9) ? c.real(.1, 3.) : 0.;
    // shuffle: the rows are scanned in order
    for (size_t i = p.rows.size(); i-- > 1;) std::swap(p.rows[i], p.rows[c.draw(i + 1)]);
    return p;
}
struct Policy
{
    bool deep, par, rr; // deep cuts, parallel cuts for slabs, round robin
};
// the first (or next) violated row as a cut
static std::optional<Cut> violated(const Problem& p, const Policy& pol, size_t& at, const DV& x)
{
    if (!pol.rr) at = p.rows.size() - 1;
    for (size_t k = 0; k < p.rows.size(); ++k)
    {
        if (++at >= p.rows.size()) at = 0;
        const auto& r = p.rows[at];
        const double v = dotd(r.a, x);
        Cut q;
        if (v > r.hi)
        {
            q.g = r.a;
            q.b0 = v - r.hi;
            q.b1 = v - r.lo;
        }
        else if (v < r.lo)
        {
            q.g = r.a;
            for (auto& g : q.g) g = -g;
            q.b0 = r.lo - v;
            q.b1 = r.hi - v;
        }
        else continue;
        q.par = pol.par && std::isfinite(q.b1);
        if (!pol.deep) q.b0 = 0.;
        return q;
    }
    return {};
}
using ArrCut = std::tuple<Arr, Arr>;
// The same problem in other units: coordinates times 2^u, cuts times 2^s. All
// factors are powers of two, so that the run is the same bit for bit.
struct Units
{
    int u {}, s {};
    explicit Units(pbt::Ctx& c)
    {
        if (!c.chance(35)) return;
        u = int(c.sym(60));
        s = int(c.sym(60));
        c.note("coordinates times 2^", u, ", cuts times 2^", s);
        c.label("other units");
    }
    DV point(const Arr& a) const
    {
        auto x = toDV(a);
        for (auto& v : x) v = std::ldexp(v, -u);
        return x;
    }
    ArrCut cut(Cut k) const
    {
        for (auto& v : k.g) v = std::ldexp(v, s - u);
        k.b0 = std::ldexp(k.b0, s);
        if (k.par) k.b1 = std::ldexp(k.b1, s);
        return {toArr(k.g), k.par ? two(k.b0, k.b1) : one(k.b0)};
    }
    double tol(double t) const { return std::ldexp(t, 2 * s); }
    double gmax(double g) const { return std::ldexp(g, s - u); }
    ell start(Start p) const
    {
        p.alpha = std::ldexp(p.alpha, 2 * u);
        for (auto& v : p.val) v = std::ldexp(v, 2 * u);
        for (auto& v : p.x) v = std::ldexp(v, u);
        return p.make<ell>();
    }
};

static Start gen_outer(pbt::Ctx& c, const Problem& p)
{
    Start s;
    s.n = p.n;
    s.ball = !c.chance(30);
    s.x = p.z;
    double d0 = c.chance(30) ? c.real(5., 100.) : c.real(0., 5.);
    for (auto& v : s.x) v += c.chance(80) ? d0 * c.gauss() / 2 : 0.;
    double r = 0, a = 0;
    for (size_t i = 0; i < p.n; ++i)
    {
        r += (s.x[i] - p.z[i]) * (s.x[i] - p.z[i]);
        a += (s.x[i] - p.xs[i]) * (s.x[i] - p.xs[i]);
    }
    r = std::max(std::sqrt(r) + p.rho, std::sqrt(a)) * c.real(1.01, 4.);
    s.alpha = r * r;
    if (!s.ball)
        for (size_t i = 0; i < p.n; ++i) s.val.push_back(s.alpha * c.real(1., 3.));
    return s;
}
static double volume_bound(const Problem& p, const Start& s)
{
    // iterations after which the ellipsoid is smaller than the inner ball
    const double R = s.ball ? std::sqrt(s.alpha) : std::sqrt(*std::max_element(s.val.begin(), s.val.end()));
    return 2. * double(p.n + 1) * double(p.n) * std::log(R / p.rho) + 12.;
}
static double extent(const ell& e, const Start& s, const Units& w)
{
    const double a = s.ball ? s.alpha : *std::max_element(s.val.begin(), s.val.end());
    return std::max(a, std::ldexp(double(la::lambda_max(shape(e, s.n))), -2 * w.u));
}
static std::string describe(const Problem& p, const Start& s)
{
    std::string o = pbt::str(s.show(), "; inner ball ", p.rho, " rows:");
    for (auto& r : p.rows)
    {
        o += " [";
        for (auto v : r.a) o += pbt::str(v, " ");
        o += pbt::str("] in ", r.lo, "..", r.hi, ";");
    }
    return o;
}

PROP(find_point, 15000, 150000)
{
    const auto p = gen_problem(c, size_t(c.many(2, 7, 14)));
    const auto s = gen_outer(c, p);
    const Units w(c);
    auto e = w.start(s);
    e.no_defer_trick = c.chance(30);
    Policy pol {c.chance(70), c.chance(60), c.chance(50)};
    c.note(describe(p, s), pol.deep ? " deep" : " central", pol.par ? " parallel" : "");
    size_t at = 0, cuts = 0;
    Options o;
    o.max_it = unsigned(volume_bound(p, s)) + 2;
    o.tol = w.tol(1e-12);
    auto om = [&](const Arr& x) -> std::optional<ArrCut> {
        const auto k = violated(p, pol, at, w.point(x));
        if (!k) return {};
        ++cuts;
        return w.cut(*k);
    };
    const auto info = cutting_plane_feas(om, e, o);
    c.note("feasible ", info.feasible, " iterations ", info.num_iters, " status ", name(info.status), " bound ", o.max_it);
    if (!info.feasible && 1e-12 * extent(e, s, w) > p.rho * p.rho)
    {
        c.label("rounding dominates");
        return;
    }
    c.check(info.feasible, pbt::str("a problem with an inner ball of radius ", p.rho, " was not solved: ", name(info.status),
        " after ", info.num_iters, " iterations (a ball of that volume cannot be missed for ", o.max_it, ")"));
    c.check(p.worst(w.point(e.xc())) <= 1e-12, "reported feasible, but the centre violates a constraint");
    if (cuts >= 3) c.nontrivial();
}

static void optimise(pbt::Ctx& c, size_t nmax, bool parallel)
{
    const auto p = gen_problem(c, size_t(c.many(2, int64_t(nmax), 9, 3)));
    const auto s = gen_outer(c, p);
    const Units w(c);
    auto e = w.start(s);
    e.no_defer_trick = c.chance(30);
    Policy pol {c.chance(70), parallel, c.chance(50)};
    if (parallel && c.chance(15)) e.use_parallel_cut = false;
    c.note(describe(p, s), pol.deep ? " deep" : " central", pol.par ? " parallel" : "", " q=", p.q, " c=", p.c, " optimum at ", p.xs);
    size_t at = 0, cuts = 0;
    Options o;
    o.max_it = 20000;
    const double tol = std::ldexp(1., -int(c.in(10, 24)));
    o.tol = w.tol(tol);
    double t = c.chance(50) ? 1e100 : p.f(p.z) + c.real(1e-3, 3.); // above the optimum
    const double t0 = t;
    bool obj_last = false;
    Wear wear;
    double gmax = normd(p.c) + p.q;
    for (auto& r : p.rows) gmax = std::max(gmax, normd(r.a));
    auto om = [&](const Arr& xa, double& tt) -> std::tuple<ArrCut, bool> {
        if (wear(e, p.n, w.gmax(gmax), o.tol)) { c.label("worn out"); c.discard(); }
        const auto x = w.point(xa);
        ++cuts;
        if (const auto k = violated(p, pol, at, x)) { obj_last = false; return {w.cut(*k), false}; }
        Cut k;
        const double v = p.f(x, &k.g);
        obj_last = true;
        if (v < tt) { tt = v; return {w.cut(k), true}; }
        if (pol.deep) k.b0 = v - tt;
        return {w.cut(k), false};
    };
    const auto [xb, info] = cutting_plane_dc(om, e, t, o);
    c.note("t=", t, " feasible ", info.feasible, " iterations ", info.num_iters, " status ", name(info.status));
    double amin = INFINITY, fmax = 0;
    for (auto& r : p.rows) amin = std::min(amin, normd(r.a));
    { // an upper bound of f over the inner ball
        DV g;
        const double v = p.f(p.z, &g);
        fmax = v + normd(g) * p.rho + p.q / 2 * p.rho * p.rho;
    }
    if (info.feasible)
    {
        const auto x = w.point(xb);
        c.check(x.size() == p.n, "no best point");
        c.check(p.worst(x) <= 1e-12, "the reported solution violates a constraint");
        c.check(std::fabs(p.f(x) - t) <= 1e-9 * (1 + std::fabs(t)), pbt::str("the returned value is ", t, " but the best point has ", p.f(x)));
        c.check(t >= -1e-9 * (1 + normd(p.c)), pbt::str("a value below the optimum: ", t));
        c.check(t <= t0, "the value got worse");
    }
    c.label(info.num_iters >= o.max_it ? "limit" : name(info.status));
    c.label(p.q > 0 ? "quadratic" : "linear");
    if (info.num_iters >= o.max_it) return;
    // rounding of the shape: eps times its largest extent
    double amax = normd(p.c) + p.q;
    for (auto& r : p.rows) amax = std::max(amax, normd(r.a));
    const double tau = std::sqrt(tol + 1e-13 * extent(e, s, w) * amax * amax);
    if (tau > 2 * std::sqrt(tol)) c.label("rounding dominates");
    // points x* + eps (ball - x*) are feasible and their value is at most eps fmax
    const double gap = std::max(tau, std::isfinite(amin) ? tau / (p.rho * amin) * fmax : 0.);
    if (tau < p.rho * amin * .5 && (t0 > 1e50 || gap < t0))
    {
        c.check(info.feasible, pbt::str("a problem with an inner ball of radius ", p.rho, " was reported infeasible: ", name(info.status)));
        c.check(t <= gap * 1.05 + 1e-7, pbt::str("ended with ", t, " above the optimum; within the tolerance is ", gap, " (", name(info.status), ", iterations ", info.num_iters, ")"));
        if (cuts >= 5 && !p.rows.empty()) c.nontrivial();
    }
    else c.label("tolerance too coarse for the problem");
}
PROP(optimise_single, 8000, 80000) { optimise(c, 6, false); }
PROP(optimise_parallel, 8000, 80000) { optimise(c, 6, true); }

// infeasible by construction: sum lam_i a_i = 0 and sum lam_i hi_i < 0
PROP(infeasible, 8000, 80000)
{
    const auto n = size_t(c.many(2, 6, 12));
    Problem p;
    p.n = n;
    p.xs = DV(n, 0.);
    p.c = rnd(c, n, 2.);
    p.q = .5;
    const auto m = size_t(c.in(2, int64_t(n) + 1));
    DV sum(n, 0.);
    double rest = 0;
    for (size_t k = 0; k + 1 < m; ++k)
    {
        Row r {rnd(c, n, 3.), -INFINITY, c.num(4.)};
        if (normd(r.a) < .1) r.a[0] = 1.;
        const double lam = c.real(.2, 2.);
        for (size_t i = 0; i < n; ++i) sum[i] -= lam * r.a[i];
        rest -= lam * r.hi;
        p.rows.push_back(r);
    }
    if (normd(sum) < .1) c.discard();
    const double margin = c.real(.01, 2.);
    p.rows.push_back({sum, -INFINITY, rest - margin});
    for (size_t k = 0, in = size_t(c.in(0, 4)); k < in; ++k)
    {
        Row r {rnd(c, n, 3.), -INFINITY, c.num(4.)};
        if (normd(r.a) < .1) r.a[0] = 1.;
        if (c.chance(50)) r.lo = r.hi - c.real(.1, 4.);
        p.rows.push_back(r);
    }
    for (size_t i = p.rows.size(); i-- > 1;) std::swap(p.rows[i], p.rows[c.draw(i + 1)]);
    Start s;
    s.n = n; s.ball = true; s.x = rnd(c, n, 4.); s.alpha = std::ldexp(1., int(c.in(0, 10)));
    const Units w(c);
    auto e = w.start(s);
    Policy pol {c.chance(70), c.chance(60), c.chance(50)};
    c.note(describe(p, s));
    size_t at = 0;
    Options o;
    o.max_it = 3000;
    o.tol = w.tol(c.chance(50) ? 1e-8 : 1e-4);
    CInfo info {};
    if (c.chance(50))
    {
        auto om = [&](const Arr& x) -> std::optional<ArrCut> {
            // far out the rows differ by less than rounding
            if (normd(w.point(x)) > 1e7) c.discard();
            const auto k = violated(p, pol, at, w.point(x));
            if (!k) return {};
            return w.cut(*k);
        };
        info = cutting_plane_feas(om, e, o);
    }
    else
    {
        double t = 1e100;
        auto om = [&](const Arr& xa, double& tt) -> std::tuple<ArrCut, bool> {
            const auto x = w.point(xa);
            if (normd(x) > 1e7) c.discard();
            if (const auto k = violated(p, pol, at, x)) return {w.cut(*k), false};
            Cut k;
            tt = p.f(x, &k.g);
            return {w.cut(k), true};
        };
        const auto [xb, inf] = cutting_plane_dc(om, e, t, o);
        info = inf;
        c.check(t == 1e100, "the best value changed although nothing is feasible");
    }
    c.note("-> ", info.feasible, " ", name(info.status), " ", info.num_iters);
    c.check(!info.feasible, "an infeasible problem was reported feasible");
    c.check(info.status != CUTStatus::noeffect, "ended by a cut without effect, although every cut removes the centre");
    c.label(info.num_iters >= o.max_it ? "limit" : name(info.status));
    if (info.num_iters >= 2) c.nontrivial();
}

// one dimension
PROP(one_dimension, 80000, 800000)
{
    // f = w1 (x - m) for x > m, w2 (m - x) below, plus curvature; l <= x <= u
    const double m = c.num(4.), w1 = c.real(.1, 3.), w2 = c.real(.1, 3.), q = c.chance(50) ? 0. : c.real(.1, 2.);
    double l = c.num(5.), u = l + c.real(.05, 4.);
    auto f = [&](double x, double* g) {
        const double d = x - m;
        const double v = (d >= 0 ? w1 : -w2) * d + q / 2 * d * d;
        if (g) *g = (d >= 0 ? w1 : -w2) + q * d;
        return v;
    };
    const double opt = f(std::min(std::max(m, l), u), nullptr);
    const double A = std::min(l, m) - c.real(0., 9.), B = std::max(u, m) + c.real(0., 9.);
    ell1d e(A, B);
    Options o;
    o.max_it = 500;
    o.tol = std::ldexp(1., -int(c.in(8, 50)));
    const bool deep = c.chance(70);
    double t = 1e100;
    int it = 0;
    auto om = [&](const double& x, double& tt) -> std::tuple<std::tuple<double, double>, bool> {
        ++it;
        if (x > u) return {{1., deep ? x - u : 0.}, false};
        if (x < l) return {{-1., deep ? l - x : 0.}, false};
        double g;
        const double v = f(x, &g);
        if (v < tt) { tt = v; return {{g, 0.}, true}; }
        return {{g, deep ? v - tt : 0.}, false};
    };
    const auto [xb, info] = cutting_plane_dc(om, e, t, o);
    c.note("[", A, ", ", B, "] constraint [", l, ", ", u, "] minimiser ", m, " tol ", o.tol, " -> t=", t, " optimum ", opt, " ", info.num_iters, " ", name(info.status));
    if (std::sqrt(o.tol) < (u - l) / 4)
        c.check(info.feasible, "a feasible problem was reported infeasible");
    if (!info.feasible) return;
    c.check(xb >= l && xb <= u, "the reported solution violates a constraint");
    c.check(std::fabs(f(xb, nullptr) - t) <= 1e-12 * (1 + std::fabs(t)), "the returned value is not that of the best point");
    c.check(t >= opt - 1e-12 * (1 + std::fabs(opt)), "a value below the optimum");
    c.check(info.num_iters < 500, "no end after 500 halvings");
    const double slope = std::max(w1, w2) + q * (std::fabs(B - A));
    if (std::sqrt(o.tol) < (u - l) / 4)
        c.check(t - opt <= std::sqrt(o.tol) * (1 + slope) * 2 + 1e-9, pbt::str("ended with ", t, ", the optimum is ", opt));
    if (it >= 4) c.nontrivial();
}
