// C18: the network oracles.
#include "graphs.hpp"
#include "mats.hpp"
#include <ellcpp/cutting_plane.hpp>
#include <ellcpp/ell.hpp>
#include <ellcpp/ell1d.hpp>
#include <ellcpp/oracles/cycle_ratio_oracle.hpp>
#include <ellcpp/oracles/network_oracle.hpp>
#include <ellcpp/oracles/optscaling_oracle.hpp>
#include <py2cpp/py2cpp.hpp>
#include <valarray>

// All numbers are multiples of 1/64 of moderate size: exact in double.
static double dy(pbt::Ctx& c, int m, int bits = 6) { return std::ldexp(double(c.sym(int64_t(m) << bits)), -bits); }

static std::vector<std::vector<int>> some_cycles(pbt::Ctx& c, const DG& g)
{
    std::vector<std::vector<int>> r;
    if (!cycles(g, r, 3000)) c.discard();
    return r;
}

// --- the parametric oracle -----------------------------------------------
// h(e, x) = a_e - b_e'x - t d_e
template <typename X> struct Par;
template <> struct Par<double>
{
    static double make(const DV& v) { return v[0]; }
    static DV back(const double& x) { return {x}; }
};
template <> struct Par<Arr>
{
    static Arr make(const DV& v) { return toArr(v); }
    static DV back(const Arr& x) { return toDV(x); }
};
template <typename G, typename X>
struct Affine
{
    using edge_t = typename G::edge_t;
    const G* g;
    const std::vector<double>*a, *d;
    const std::vector<DV>* b;
    double t = 0;
    size_t id(const edge_t& e) const { return size_t(arc_id(*g, e)); }
    double eval(const edge_t& e, const X& x) const
    {
        const auto k = id(e);
        const auto v = Par<X>::back(x);
        double s = (*a)[k] - t * (*d)[k];
        for (size_t i = 0; i < v.size(); ++i) s -= (*b)[k][i] * v[i];
        return s;
    }
    X grad(const edge_t& e, const X&) const
    {
        auto m = (*b)[id(e)];
        for (auto& v : m) v = -v;
        return Par<X>::make(m);
    }
    void update(double tt) { t = tt; }
};

template <typename X, typename Cont>
static void parametric(pbt::Ctx& c, size_t dim)
{
    const auto g = c.chance(5) ? gen_ring(c, 20) : gen_graph(c, c.chance(3) ? 11 : 6, c.chance(3) ? 18 : 10);
    const auto G = adapt<>(g);
    using Gr = std::decay_t<decltype(G)>;
    const auto m = g.arcs.size();
    // feasible at z (for t = 0) with many tight arcs
    DV z(dim);
    for (auto& v : z) v = dy(c, 3, 2);
    DV pot(size_t(g.n));
    for (auto& v : pot) v = dy(c, 8, 2);
    std::vector<double> a(m), d(m);
    std::vector<DV> b(m, DV(dim));
    const bool feasible = c.chance(85);
    for (size_t k = 0; k < m; ++k)
    {
        for (auto& v : b[k]) v = double(c.sym(3));
        d[k] = c.chance(50) ? 0. : double(c.in(0, 3));
        a[k] = feasible ? pot[size_t(g.arcs[k].second)] - pot[size_t(g.arcs[k].first)] + (c.chance(60) ? 0. : double(c.in(0, 16)) / 4) : dy(c, 4, 2);
        for (size_t i = 0; i < dim; ++i) a[k] += b[k][i] * z[i];
    }
    Cont u;
    if constexpr (std::is_same_v<Cont, std::vector<double>>) u.resize(size_t(g.n), 0.);
    else for (int v = 0; v < g.n; ++v) u.emplace(size_t(v), 0.);
    auto U = [&](int v) -> double& { return u[size_t(v)]; };
    if (c.chance(50)) for (int v = 0; v < g.n; ++v) U(v) = dy(c, 20, 2);
    network_oracle<Gr, Cont, Affine<Gr, X>> O(G, u, Affine<Gr, X> {&G, &a, &d, &b});
    c.note(g.show(), " a feasible point ", feasible ? show(z) : "is not known");
    for (size_t k = 0; k < m; ++k) c.note("  arc ", k, ": ", a[k], " - ", show(b[k]), "'x - t ", d[k]);
    double t = 0;
    auto weights = [&](const DV& x) {
        std::vector<double> w(m);
        for (size_t k = 0; k < m; ++k)
        {
            w[k] = a[k] - t * d[k];
            for (size_t i = 0; i < dim; ++i) w[k] -= b[k][i] * x[i];
        }
        return w;
    };
    std::vector<DV> pool {z};
    int cuts = 0, oks = 0, attacked = 0;
    for (int64_t i = 0, q = c.many(1, 10, 60, 3); i < q; ++i)
    {
        if (c.chance(15)) { t = c.chance(40) ? 0. : dy(c, 2, 2); O.update(t); c.note("t=", t); }
        DV x(dim);
        const bool near = c.chance(50);
        const auto& p = pool[c.draw(pool.size())];
        for (size_t k = 0; k < dim; ++k) x[k] = near ? p[k] + dy(c, 1, 4) : dy(c, 4);
        if (c.chance(15)) for (int v = 0; v < g.n; ++v) U(v) = dy(c, 20, 2);
        const auto cut = O(Par<X>::make(x));
        const auto w = weights(x);
        const bool can = potentials(g, w);
        c.note("x=", show(x), cut ? " cut" : " no cut");
        c.check(bool(cut) != can, can ? "a cut was returned although potentials exist" : "no cut was returned although no potentials exist");
        if (!cut)
        {
            ++oks;
            pool.push_back(x);
            for (size_t k = 0; k < m; ++k)
                c.check(U(g.arcs[k].second) - U(g.arcs[k].first) <= w[k], pbt::str("no cut, but the potentials violate arc ", k));
            continue;
        }
        ++cuts;
        const auto gr = Par<X>::back(std::get<0>(*cut));
        const double f = std::get<1>(*cut);
        c.note("   g=", show(gr), " beta=", f);
        c.check(gr.size() == dim, "gradient of another size");
        c.check(f > 0, pbt::str("the cut is not violated at the query: offset ", f));
        auto value = [&](const DV& y) { double s = f; for (size_t k = 0; k < dim; ++k) s += gr[k] * (y[k] - x[k]); return s; };
        for (auto y : pool)
        {
            if (!potentials(g, weights(y))) continue;
            ++attacked;
            c.check(value(y) <= 0, pbt::str("the cut removes ", show(y), " where potentials exist, by ", value(y)));
            // as far as possible into the cut
            for (int64_t step = 256; step >= 1; step /= 2)
            {
                auto y2 = y;
                for (size_t k = 0; k < dim; ++k) y2[k] += double(step) / 64 * (gr[k] > 0 ? 1 : gr[k] < 0 ? -1 : 0);
                if (potentials(g, weights(y2))) y = y2;
            }
            c.check(value(y) <= 0, pbt::str("the cut removes ", show(y), " where potentials exist, by ", value(y)));
        }
    }
    if (cuts) c.label("cut");
    if (oks) c.label("potentials");
    if (cuts && attacked) c.nontrivial();
}
PROP(network_scalar, 100000, 1000000) { parametric<double, std::vector<double>>(c, 1); }
PROP(network_vector, 60000, 600000) { parametric<Arr, std::vector<double>>(c, size_t(c.in(1, 3))); }
PROP(network_dict, 60000, 600000) { parametric<Arr, py::dict<size_t, double>>(c, size_t(c.in(1, 3))); }

// --- cycle ratio ---------------------------------------------------------
struct Ratio
{
    DG g;
    std::vector<double> cost, time;
    double lo = -INFINITY, hi = INFINITY; // the feasible parameters
    std::vector<double> ratios;
    bool empty = false;
    bool null = false; // a cycle of no cost and no time: always too close to call in rounded arithmetic
};
static Ratio gen_ratio(pbt::Ctx& c)
{
    Ratio r;
    r.g = c.chance(5) ? gen_ring(c, 20) : gen_graph(c, c.chance(3) ? 11 : 6, c.chance(3) ? 18 : 10);
    const auto m = r.g.arcs.size();
    const bool neg = c.chance(30);
    for (size_t k = 0; k < m; ++k)
    {
        r.cost.push_back(double(c.sym(10)) + (c.chance(30) ? .5 : 0.));
        r.time.push_back(neg ? double(c.sym(4)) : double(c.in(1, 4)));
    }
    for (auto& y : some_cycles(c, r.g))
    {
        double a = 0, b = 0;
        for (int k : y) { a += r.cost[size_t(k)]; b += r.time[size_t(k)]; }
        if (b != 0) r.ratios.push_back(a / b);
        if (b > 0) r.hi = std::min(r.hi, a / b);
        else if (b < 0) r.lo = std::max(r.lo, a / b);
        else if (a < 0) r.empty = true;
        else if (a == 0) r.null = true;
    }
    if (r.lo > r.hi) r.empty = true;
    return r;
}
static void describe(pbt::Ctx& c, const Ratio& r)
{
    c.note(r.g.show());
    for (size_t k = 0; k < r.cost.size(); ++k) c.note("  arc ", k, " cost ", r.cost[k], " time ", r.time[k]);
    c.note("feasible: ", r.empty ? "nothing" : pbt::str(r.lo, " .. ", r.hi));
}
PROP(cycle_ratio, 200000, 2000000)
{
    const auto r = gen_ratio(c);
    describe(c, r);
    const auto G = adapt<boost::listS>(r.g);
    using edge_t = typename std::decay_t<decltype(G)>::edge_t;
    std::vector<double> u(size_t(r.g.n), 0.);
    auto cost = [&](const edge_t& e) -> double { return r.cost[size_t(arc_id(G, e))]; };
    auto time = [&](const edge_t& e) -> double { return r.time[size_t(arc_id(G, e))]; };
    cycle_ratio_oracle<std::decay_t<decltype(G)>, std::vector<double>, decltype(cost), decltype(time)> O(G, u, cost, time);
    double t = c.chance(50) ? -1e100 : dy(c, 8, 3);
    int improved = 0, cuts = 0;
    for (int64_t i = 0, q = c.many(1, 12, 60, 3); i < q; ++i)
    {
        double x = dy(c, 10);
        if (c.chance(30) && std::isfinite(r.hi)) x = std::ldexp(std::floor(std::ldexp(r.hi, 6)), -6) + double(c.sym(2)) / 64;
        if (c.chance(15) && t > -1e99) x = t + double(c.sym(2)) / 64;
        const double before = t;
        std::vector<double> w(r.cost.size());
        for (size_t k = 0; k < w.size(); ++k) w[k] = r.cost[k] - r.time[k] * x;
        const bool can = potentials(r.g, w);
        const auto [cut, shrunk] = O(x, t);
        const auto [g, f] = cut;
        c.note("x=", x, " t=", before, shrunk ? pbt::str(" improved to ", t) : "", " cut ", g, ", ", f);
        c.check(shrunk == (can && x > before), shrunk ? "an improvement was reported for an infeasible or no better parameter" : "a feasible and better parameter was not taken");
        if (shrunk)
        {
            ++improved;
            c.check(t == x, "the best value is not that of the query");
            for (size_t k = 0; k < w.size(); ++k)
                c.check(u[size_t(r.g.arcs[k].second)] - u[size_t(r.g.arcs[k].first)] <= w[k], "the potentials violate an arc at the new best value");
        }
        else { ++cuts; c.check(t == before, "the best value changed without an improvement"); }
        c.check(f >= 0, "the cut keeps the query strictly inside");
        // nothing feasible and better is removed: the better parameters form an interval
        if (!r.empty && t < r.hi)
        {
            const double lo = std::max(r.lo, t);
            const double far = std::min(r.hi, 1e6);
            for (double y : {lo, far, (lo + far) / 2})
                if (std::isfinite(y) && y > -1e50)
                    c.check(g * (y - x) + f <= 1e-9 * (1 + std::fabs(g) * (std::fabs(y) + std::fabs(x))), pbt::str("the cut removes the feasible better parameter ", y));
        }
    }
    if (improved && cuts && !r.empty && std::isfinite(r.hi)) c.nontrivial();
}
PROP(cycle_ratio_optimum, 100000, 1000000)
{
    const auto r = gen_ratio(c);
    if (r.null) c.discard();
    describe(c, r);
    const auto G = adapt<>(r.g);
    using edge_t = typename std::decay_t<decltype(G)>::edge_t;
    std::vector<double> u(size_t(r.g.n), 0.);
    auto cost = [&](const edge_t& e) -> double { return r.cost[size_t(arc_id(G, e))]; };
    auto time = [&](const edge_t& e) -> double { return r.time[size_t(arc_id(G, e))]; };
    cycle_ratio_oracle<std::decay_t<decltype(G)>, std::vector<double>, decltype(cost), decltype(time)> O(G, u, cost, time);
    const double lo = -64 - 32 * c.unit(), hi = 64 + 32 * c.unit();
    ell1d E(lo, hi);
    double t = -1e100;
    Options o;
    o.max_it = 500;
    if (!r.empty && std::fabs(std::min(hi, r.hi) - std::max(lo, r.lo)) < 1e-3) c.discard();
    auto W = [&](const double& y, double& tt) {
        for (auto q : r.ratios)
            if (std::fabs(y - q) < 1e-9) c.discard(); // too close to call
        return O(y, tt);
    };
    const auto [x, info] = cutting_plane_dc(W, E, t, o);
    c.note("-> t=", t, " ", info.num_iters, info.feasible ? " feasible" : " not feasible");
    const double a = std::max(lo, r.lo), b = std::min(hi, r.hi);
    if (r.empty || a > b)
    {
        c.check(!info.feasible && t == -1e100, "a parameter was found although none is feasible");
        return;
    }
    c.check(info.num_iters < 500, "no end after 500 iterations");
    c.check(info.feasible, "nothing was found although there are feasible parameters");
    c.check(x == t, "the best value is not that of the best point");
    c.check(t <= b + 1e-12 * (1 + std::fabs(b)), "a value above the optimum");
    c.check(t >= b - 2e-4, pbt::str("ended with ", t, ", the optimum is ", b));
    if (info.num_iters > 4 && b == r.hi) c.nontrivial();
}

// --- matrix scaling ------------------------------------------------------
struct Scaling
{
    DG g;
    std::vector<double> cost;
    // every cycle: f pi - b phi >= s
    std::vector<std::array<double, 3>> rows;
    bool ok(double pi, double phi) const
    {
        std::vector<double> w(cost.size());
        for (size_t k = 0; k < w.size(); ++k) w[k] = g.arcs[k].first < g.arcs[k].second ? pi - cost[k] : cost[k] - phi;
        return potentials(g, w);
    }
};
static Scaling gen_scaling(pbt::Ctx& c, bool paired, int bits)
{
    Scaling s;
    if (c.chance(4)) // long rings
    {
        s.g = gen_ring(c, 16, 3);
        for (size_t k = 0; k < s.g.arcs.size();)
            if (s.g.arcs[k].first == s.g.arcs[k].second) s.g.arcs.erase(s.g.arcs.begin() + long(k));
            else ++k;
        for (size_t k = 0, m = s.g.arcs.size(); k < m; ++k)
            s.cost.push_back(dy(c, 4, bits));
        if (paired)
            for (size_t k = 0, m = s.g.arcs.size(); k < m; ++k)
            {
                s.g.arcs.emplace_back(s.g.arcs[k].second, s.g.arcs[k].first);
                s.cost.push_back(s.cost[k]);
            }
    }
    else
    {
    s.g.n = int(c.many(2, 6, 12, 4));
    for (int64_t k = 0, m = c.many(1, 7, 16, 4); k < m; ++k)
    {
        const int u = int(c.draw(uint64_t(s.g.n)));
        int v = int(c.draw(uint64_t(s.g.n - 1)));
        if (v >= u) ++v;
        const double w = dy(c, 4, bits);
        s.g.arcs.emplace_back(u, v);
        s.cost.push_back(w);
        if (paired || c.chance(50)) { s.g.arcs.emplace_back(v, u); s.cost.push_back(w); }
    }
    }
    for (auto& y : some_cycles(c, s.g))
    {
        std::array<double, 3> r {0, 0, 0};
        for (int k : y)
            if (s.g.arcs[size_t(k)].first < s.g.arcs[size_t(k)].second) { ++r[0]; r[2] += s.cost[size_t(k)]; }
            else { ++r[1]; r[2] -= s.cost[size_t(k)]; }
        s.rows.push_back(r);
    }
    return s;
}
template <typename Fn>
static void with_oracle(const Scaling& s, Fn&& fn)
{
    const auto G = adapt<>(s.g);
    using edge_t = typename std::decay_t<decltype(G)>::edge_t;
    std::vector<double> u(size_t(s.g.n), 0.);
    auto cost = [&](const edge_t& e) -> double { return s.cost[size_t(arc_id(G, e))]; };
    optscaling_oracle<std::decay_t<decltype(G)>, std::vector<double>, decltype(cost)> O(G, u, cost);
    fn(O, u);
}
static void describe(pbt::Ctx& c, const Scaling& s)
{
    c.note(s.g.n, " nodes");
    for (size_t k = 0; k < s.cost.size(); ++k) c.note("  ", s.g.arcs[k].first, ">", s.g.arcs[k].second, " cost ", s.cost[k]);
}
PROP(scaling, 200000, 2000000)
{
    const auto s = gen_scaling(c, c.chance(70), 4);
    describe(c, s);
    with_oracle(s, [&](auto& O, auto& u) {
        double t = c.chance(50) ? 1e100 : dy(c, 8, 3);
        std::vector<std::array<double, 2>> pool {{64., -64.}};
        int improved = 0, cuts = 0;
        for (int64_t i = 0, q = c.many(1, 12, 60, 3); i < q; ++i)
        {
            const auto& p = pool[c.draw(pool.size())];
            double pi, phi;
            if (c.chance(40)) { pi = p[0] + dy(c, 1, 4); phi = p[1] + dy(c, 1, 4); }
            else { pi = dy(c, 6); phi = dy(c, 6); }
            const double before = t;
            const bool can = s.ok(pi, phi);
            const auto [cut, shrunk] = O(Arr {pi, phi}, t);
            const auto g = toDV(std::get<0>(cut));
            const double f = std::get<1>(cut);
            c.note("pi=", pi, " phi=", phi, " t=", before, shrunk ? pbt::str(" improved to ", t) : "", " cut g=", show(g), " beta=", f);
            c.check(shrunk == (can && pi - phi < before), shrunk ? "an improvement was reported for an infeasible or no better scaling" : "a feasible and better scaling was not taken");
            if (shrunk)
            {
                ++improved;
                c.check(t == pi - phi, "the best value is not that of the query");
                for (size_t k = 0; k < s.cost.size(); ++k)
                {
                    const auto [a, b] = s.g.arcs[k];
                    const double v = u[size_t(b)] - u[size_t(a)];
                    c.check(a < b ? v + s.cost[k] <= pi : v <= s.cost[k] - phi, "the potentials violate an arc at the new best value");
                }
            }
            else { ++cuts; c.check(t == before, "the best value changed without an improvement"); }
            c.check(g.size() == 2 && f >= 0, "the cut keeps the query strictly inside");
            if (can) pool.push_back({pi, phi});
            for (auto y : pool)
            {
                auto keep = [&](double a, double b) { return s.ok(a, b) && a - b < t; };
                if (!keep(y[0], y[1])) continue;
                for (int64_t step = 256; step >= 1; step /= 2)
                {
                    const double h = double(step) / 16;
                    const double a = g[0] > 0 ? h : g[0] < 0 ? -h : 0, b = g[1] > 0 ? h : g[1] < 0 ? -h : 0;
                    if (keep(y[0] + a, y[1] + b)) { y[0] += a; y[1] += b; }
                    else if (keep(y[0] + a, y[1])) y[0] += a;
                    else if (keep(y[0], y[1] + b)) y[1] += b;
                }
                c.check(f + g[0] * (y[0] - pi) + g[1] * (y[1] - phi) <= 0, pbt::str("the cut removes the feasible better scaling ", y[0], ", ", y[1]));
            }
        }
        if (improved && cuts && !s.rows.empty()) c.nontrivial();
    });
}
PROP(scaling_optimum, 40000, 400000)
{
    const auto s = gen_scaling(c, true, 20);
    describe(c, s);
    // the optimum: min pi - phi subject to the rows; at most two rows are tight
    double best = -INFINITY;
    const auto& R_ = s.rows;
    for (auto& p : R_)
    {
        if (p[0] == p[1]) best = std::max(best, p[2] / p[0]);
        for (auto& q : R_)
        {
            // (1, -1) = l (p0, -p1) + m (q0, -q1)
            const double det = p[0] * q[1] - p[1] * q[0];
            if (std::fabs(det) < .5) continue;
            const double l = (q[1] - q[0]) / det, m = (p[0] - p[1]) / det;
            if (l >= 0 && m >= 0) best = std::max(best, l * p[2] + m * q[2]);
        }
    }
    const double cmin = *std::min_element(s.cost.begin(), s.cost.end()), cmax = *std::max_element(s.cost.begin(), s.cost.end());
    with_oracle(s, [&](auto& O, auto& u) {
        const double spread = cmax - cmin + .01 + c.real(0., 1.);
        // u = 0 is feasible at (cmax, cmin).  An optimum is within 15 spreads:
        // F = phi - middle: every cycle bounds it by at most 9 spreads, and a ball of
        // radius spread around (cmax + spread, cmin - spread) is feasible
        ell E(225 * spread * spread, Arr {cmax, cmin});
        double t = 1e100;
        Options o;
        o.max_it = 3000;
        o.tol = 1e-5; // the optima form a line: long before 1e-8 the ellipsoid is too elongated for double
        auto W = [&](const Arr& y, double& tt) {
            if (!(std::fabs(y(0)) + std::fabs(y(1)) < 1e6)) c.discard();
            return O(y, tt);
        };
        const auto [x, info] = cutting_plane_dc(W, E, t, o);
        c.note("-> t=", t, " ", info.num_iters, " optimum ", best);
        c.check(info.feasible, "nothing was found although the unscaled matrix is feasible");
        c.check(std::fabs(x(0) - x(1) - t) <= 1e-12 * (1 + std::fabs(t)), "the best value is not that of the best point");
        c.check(s.ok(x(0) + 1e-12, x(1) - 1e-12), "the best point is not feasible");
        c.check(t >= best - 1e-9, "a value below the optimum");
        if (info.num_iters < 3000) c.check(t <= best + 3e-2, pbt::str("ended with ", t, ", the optimum is ", best));
        else c.label("limit");
        if (info.num_iters > 5 && R_.size() > s.g.arcs.size() / 2) c.nontrivial();
        (void)u;
    });
}
