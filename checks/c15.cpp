// C15: the lowpass-filter oracle.
#include "mats.hpp"
#include <ellcpp/oracles/lowpass_oracle.hpp>

struct Spec
{
    size_t n;
    std::vector<DV> P, S, N;
    double L, U;
};
static double dotd(const DV& a, const DV& b)
{
    double s = 0;
    for (size_t i = 0; i < a.size(); ++i) s += a[i] * b[i];
    return s;
}
static Arr rows(const std::vector<DV>& r)
{
    Arr a = Arr::from_shape({r.size(), r[0].size()});
    for (size_t i = 0; i < r.size(); ++i)
        for (size_t j = 0; j < r[0].size(); ++j) a(i, j) = r[i][j];
    return a;
}
// smallest slack over all constraints for a stop-band level (negative: violated)
static double slack(const Spec& s, const DV& x, double level)
{
    double m = x[0];
    for (auto& r : s.P) { const double v = dotd(r, x); m = std::min({m, s.U - v, v - s.L}); }
    for (auto& r : s.S) { const double v = dotd(r, x); m = std::min({m, level - v, v}); }
    for (auto& r : s.N) m = std::min(m, dotd(r, x));
    return m;
}
static double size_of(const Spec& s, const DV& x)
{
    double m = 1;
    auto see = [&](const DV& r) { double q = 0; for (size_t i = 0; i < x.size(); ++i) q += std::fabs(r[i] * x[i]); m = std::max(m, q); };
    for (auto* b : {&s.P, &s.S, &s.N}) for (auto& r : *b) see(r);
    return m;
}
// the same up to the rounding of each constraint by itself
static bool meets(const Spec& s, const DV& x, double level)
{
    const double e = 1e-14;
    bool ok = x[0] >= 0;
    auto see = [&](const DV& r, double lo, double hi) {
        double v = 0, q = 0;
        for (size_t i = 0; i < x.size(); ++i) { v += r[i] * x[i]; q += std::fabs(r[i] * x[i]); }
        ok &= v >= lo - e * (q + std::fabs(lo));
        ok &= !(v > hi + e * (q + std::fabs(hi)));
    };
    for (auto& r : s.P) see(r, s.L, s.U);
    for (auto& r : s.S) see(r, 0, level);
    for (auto& r : s.N) see(r, 0, 1e300);
    return ok;
}
static bool parallel(const DV& g, const DV& r, double sign, double& f)
{
    size_t k = 0;
    for (size_t i = 0; i < r.size(); ++i) if (std::fabs(r[i]) > std::fabs(r[k])) k = i;
    if (r[k] == 0) { f = 1; return std::all_of(g.begin(), g.end(), [](double v) { return v == 0; }); }
    f = sign * g[k] / r[k];
    if (!(f > 0)) return false;
    for (size_t i = 0; i < r.size(); ++i)
        if (std::fabs(g[i] - sign * f * r[i]) > 1e-9 * f * std::fabs(r[k])) return false;
    return true;
}

static void history(pbt::Ctx& c, bool integral)
{
    Spec s;
    s.n = size_t(c.many(2, 6, c.chance(6) ? 48 : 20));
    const auto n = s.n;
    DV z(n);
    for (auto& v : z) v = integral ? double(c.sym(4)) : c.num(3.);
    z[0] = std::fabs(z[0]) + (integral ? 1. : .1);
    if (integral) z[1] = c.chance(50) ? -1. : 1.; // rows are adjusted where z is a unit
    s.L = integral ? double(c.in(1, 6)) : c.real(.1, 2.);
    s.U = s.L + (integral ? double(c.in(1, 6)) : c.real(.05, 2.));
    double top = 0; // the level of z
    auto row = [&](double lo, double hi) { // a row with lo <= r'z <= hi
        DV r(n);
        for (auto& v : r) v = integral ? double(c.sym(3)) : c.num(2.);
        const double have = dotd(r, z), want = integral ? double(c.in(int64_t(lo), int64_t(hi))) : c.real(lo, hi);
        if (integral)
        {
            // one unit coefficient takes up the difference
            const size_t k = std::fabs(z[0]) == 1. && c.chance(50) ? 0 : 1;
            r[k] += (want - have) * z[k];
        }
        else r[0] += (want - have) / z[0];
        return r;
    };
    auto fill = [&](std::vector<DV>& b, double lo, double hi) {
        for (size_t k = 0, m = size_t(c.many(1, 6, c.chance(20) ? 130 : 40)); k < m; ++k)
        {
            b.push_back(row(lo, hi));
        }
    };
    fill(s.P, s.L, s.U);
    fill(s.S, 0., integral ? 6. : 2.);
    fill(s.N, 0., 5.);
    // the stop band in small units (decibels below the pass band)
    const double unit = c.chance(35) ? std::ldexp(1., -int(c.in(1, 24))) : 1.;
    for (auto& r : s.S)
        for (auto& v : r) v *= unit;
    for (auto& r : s.S) top = std::max(top, dotd(r, z));
    const auto Ap = rows(s.P), As = rows(s.S), An = rows(s.N);
    const lowpass_oracle O(Ap, As, An, s.L, s.U);
    double level = c.chance(30) ? 1e100 : top + unit * (integral ? double(c.in(0, 6)) : c.real(0., 3.));
    c.note("pass in ", s.L, "..", s.U, ", start level ", level, ", a design: ", show(z), " of level ", top);
    for (auto& r : s.P) c.note("  pass ", show(r));
    for (auto& r : s.S) c.note("  stop ", show(r));
    for (auto& r : s.N) c.note("  nonneg ", show(r));
    std::vector<Vec> pool {Vec(z.begin(), z.end())};
    const auto len = c.many(1, 25, 150, 4);
    int improved = 0, cuts = 0, attacked = 0;
    for (int i = 0; i < len; ++i)
    {
        DV x = z;
        const auto how = c.draw(integral ? 4 : 6);
        if (how == 0) // near a good design
            for (size_t k = 0; k < n; ++k) x[k] = double(pool.back()[k]) + (integral ? double(c.sym(1)) : .1 * c.gauss());
        else if (how == 1)
            for (auto& v : x) v = integral ? double(c.sym(5)) : c.num(4.);
        else if (how == 2) // a design itself
            for (size_t k = 0; k < n; ++k) x[k] = double(pool[c.draw(pool.size())][k]);
        else if (how >= 4) // just outside: mostly one constraint is violated
        {
            const auto& a = pool[c.draw(pool.size())];
            const DV z0(a.begin(), a.end());
            DV d(n);
            for (auto& v : d) v = c.gauss();
            auto at = [&](double q) {
                DV y = z0;
                for (size_t k = 0; k < n; ++k) y[k] += q * d[k];
                return y;
            };
            double lo = 0, hi = 1;
            while (hi < 1e3 && slack(s, at(hi), level) >= 0) hi *= 2;
            for (int k = 0; k < 40; ++k) (slack(s, at((lo + hi) / 2), level) >= 0 ? lo : hi) = (lo + hi) / 2;
            x = at(hi + (c.chance(20) ? 0. : std::pow(10., -c.real(1., 12.))) * (1 + hi));
        }
        else // between two
        {
            const auto& a = pool[c.draw(pool.size())];
            const double w = integral ? 0. : c.real(0., 1.2);
            for (size_t k = 0; k < n; ++k) x[k] = double(a[k] + w * (pool.back()[k] - a[k]));
        }
        const double before = level;
        const auto [cut, shrunk] = O(toArr(x), level);
        const auto g = toDV(std::get<0>(cut)), b = toDV(std::get<1>(cut));
        c.note("query ", show(x), " at level ", before, shrunk ? pbt::str(" -> improved to ", level) : " ->", " cut g=", show(g), " beta=", show(b));
        const double eps = integral ? 0 : 1e-12 * size_of(s, x);
        const double sl = slack(s, x, before);
        c.check(g.size() == n && (b.size() == 1 || b.size() == 2), "malformed cut");
        for (auto v : g) c.check(std::isfinite(v), "gradient not finite");
        if (std::fabs(sl) > eps || integral)
            c.check(shrunk == (sl >= 0), sl >= 0 ? "a design that meets the specification was not taken" : "a design that violates a constraint was taken");
        if (shrunk)
        {
            double mx = -1e300;
            for (auto& r : s.S) mx = std::max(mx, dotd(r, x));
            c.check(std::fabs(level - mx) <= eps, pbt::str("the level was set to ", level, ", the design's is ", mx));
            c.check(b[0] >= 0, "the cut keeps only points beyond the improved one");
            ++improved;
            pool.push_back(Vec(x.begin(), x.end()));
        }
        else
        {
            c.check(level == before, "the level changed without an improvement");
            c.check(b[0] > 0, pbt::str("the cut does not exclude the queried vector: offset ", b[0]));
            ++cuts;
            // from a violated constraint
            bool found = false;
            double f;
            DV e(n, 0.);
            e[0] = 1.;
            if (x[0] < 0 && parallel(g, e, -1, f)) found = true;
            for (auto& r : s.P)
            {
                if (dotd(r, x) > s.U - eps && parallel(g, r, 1, f)) found = true;
                if (dotd(r, x) < s.L + eps && parallel(g, r, -1, f)) found = true;
            }
            for (auto& r : s.S)
            {
                if (dotd(r, x) > before - eps && parallel(g, r, 1, f)) found = true;
                if (dotd(r, x) < eps && parallel(g, r, -1, f)) found = true;
            }
            for (auto& r : s.N)
                if (dotd(r, x) < eps && parallel(g, r, -1, f)) found = true;
            c.check(found, "the cut does not come from a constraint the vector violates");
        }
        // no design that meets the current level is cut off
        auto ok = [&](const Vec& y) { const DV d(y.begin(), y.end()); return meets(s, d, level); };
        const Vec xv(x.begin(), x.end());
        const auto [v0, y0] = attack(c, xv, g, b[0], pool, ok, 3, 1);
        if (v0 > 1e-8L) c.fail(pbt::str("the cut removes the design ", show(DV(y0.begin(), y0.end())), " that meets the specification at level ", level));
        if (std::isfinite(double(v0))) ++attacked;
        if (b.size() == 2)
        {
            auto m = g;
            for (auto& v : m) v = -v;
            const auto [v1, y1] = attack(c, xv, m, -b[1], pool, ok, 3, 1);
            if (v1 > 1e-8L) c.fail(pbt::str("the far side of the cut removes the design ", show(DV(y1.begin(), y1.end())), " that meets the specification at level ", level));
        }
        if (pool.size() > 6) pool.erase(pool.begin() + 1);
    }
    if (improved) c.label("improved");
    if (cuts && improved && attacked) c.nontrivial();
}
PROP(real_specs, 4000, 80000) { history(c, false); }
PROP(integer_specs, 4000, 80000) { history(c, true); }
