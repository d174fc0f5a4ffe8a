// C26: monomials and posynomials against a direct evaluation.
#include "pbt.hpp"
#include <cmath>
#include <ellip/posynomial.hpp>

using R = long double;
using Mono = monomial<double>;
using Posy = posynomial<double>;
using VA = std::valarray<double>;
using pbt::str;

struct Term
{
    R c;
    std::vector<R> a;
};
using Model = std::vector<Term>;

static R logf(const Model& m, const std::vector<double>& y, std::vector<R>* grad, R* largest)
{
    std::vector<R> e;
    R top = -1e30L;
    for (auto& t : m)
    {
        R v = std::log(t.c);
        for (size_t i = 0; i < y.size(); ++i) v += t.a[i] * R(y[i]);
        e.push_back(v);
        top = std::max(top, v);
    }
    R s = 0;
    for (R v : e) s += std::exp(v - top);
    if (grad)
    {
        grad->assign(y.size(), 0);
        for (size_t l = 0; l < m.size(); ++l)
            for (size_t i = 0; i < y.size(); ++i) (*grad)[i] += m[l].a[i] * std::exp(e[l] - top) / s;
    }
    if (largest)
    {
        *largest = 0;
        for (R v : e) *largest = std::max(*largest, std::fabs(v));
    }
    return top + std::log(s);
}

struct World
{
    pbt::Ctx& c;
    size_t n;
    std::vector<Mono> m;
    std::vector<Model> mm;
    std::vector<Posy> p;
    std::vector<Model> pm;

    std::vector<double> point()
    {
        std::vector<double> y(n);
        for (auto& v : y) v = c.num(3.);
        return y;
    }
    double coeff() { return c.chance(30) ? double(c.in(1, 5)) : std::exp(c.num(c.chance(5) ? 60. : 3.)); }
    double scale(const Model& m)
    {
        double s = 1;
        for (auto& t : m)
        {
            s += std::fabs(double(std::log(t.c)));
            for (R a : t.a) s += 4 * std::fabs(double(a));
        }
        return s;
    }
    template <typename X> void same(const X& x, const Model& mod, const std::vector<double>& y, const char* what, size_t k)
    {
        std::vector<R> g;
        R big;
        const R f = logf(mod, y, &g, &big);
        VA v(y.data(), y.size());
        if (big > 600)
        {
            // the recorded defect: the exponentials themselves over- or underflow
            if (mod.size() < 2 || !(f > 720 || f < -760)) return;
            double fv = 0;
            VA g1 = x.lse_gradient(v, fv);
            const double h = x.lse(v);
            if (std::isfinite(h)) c.check(std::fabs(R(h) - f) <= 1e-11L * (scale(mod) + std::fabs(f)), str(what, " ", k, ": lse gives ", h, ", should be ", double(f)));
            if (std::isfinite(fv)) c.check(std::fabs(R(fv) - f) <= 1e-11L * (scale(mod) + std::fabs(f)), str(what, " ", k, ": value from lse_gradient ", fv, ", should be ", double(f)));
            if (!std::isfinite(h) || !std::isfinite(fv)) c.known("lse-overflow", str("log f = ", double(f), ": lse gives ", h));
            return;
        }
        const double tol = 1e-11 * scale(mod);
        auto ok = [&](double a, R b, const char* fn) {
            if (!(std::fabs(R(a) - b) <= tol)) c.fail(str(what, " ", k, ": ", fn, " gives ", a, ", should be ", double(b)));
        };
        auto okv = [&](const VA& a, const char* fn) {
            if (a.size() != n) c.fail(str(what, " ", k, ": ", fn, " has size ", a.size()));
            for (size_t i = 0; i < n; ++i) ok(a[i], g[i], fn);
        };
        ok(x.lse(v), f, "lse");
        double fv = -1;
        okv(x.lse_gradient(v, fv), "lse_gradient");
        ok(fv, f, "value from lse_gradient");
        // whatever the array held before
        VA gv(k % 2 ? std::numeric_limits<double>::quiet_NaN() : 7., n);
        ok(x.log_exp_fvalue_with_gradient(v, gv), f, "log_exp_fvalue_with_gradient");
        okv(gv, "gradient from log_exp_fvalue_with_gradient");
        if constexpr (std::is_same_v<X, Mono>) okv(x.lse_gradient(v), "lse_gradient(y)");
        else okv(x.log_exp_gradient(v), "log_exp_gradient");
    }
    void verify()
    {
        const auto y = point();
        for (size_t k = 0; k < m.size(); ++k) same(m[k], mm[k], y, "monomial", k);
        for (size_t k = 0; k < p.size(); ++k) same(p[k], pm[k], y, "posynomial", k);
    }
    static bool moderate(const Model& mod)
    {
        for (auto& t : mod)
        {
            if (t.c < 1e-60L || t.c > 1e60L) return false;
            for (R a : t.a) if (std::fabs(a) > 200) return false;
        }
        return true;
    }
    void put(const Mono& x, const Model& mod)
    {
        if (!moderate(mod)) return;
        if (m.size() < 4) { m.push_back(x); mm.push_back(mod); }
        else { const size_t k = c.draw(4); m[k] = x; mm[k] = mod; }
    }
    void put(const Posy& x, const Model& mod)
    {
        if (mod.size() > 40 || !moderate(mod)) return;
        if (p.size() < 4) { p.push_back(x); pm.push_back(mod); }
        else { const size_t k = c.draw(4); p[k] = x; pm[k] = mod; }
    }
    void fresh()
    {
        const double co = coeff();
        std::vector<double> a(n);
        for (auto& v : a) v = c.chance(30) ? 0. : c.num(3.);
        Model mod {{R(co), std::vector<R>(a.begin(), a.end())}};
        switch (c.draw(6))
        {
            case 0: put(Mono(co, VA(a.data(), n)), mod); break;
            case 1:
            {
                std::vector<double> ar {co};
                ar.insert(ar.end(), a.begin(), a.end());
                put(Mono(n, ar.data()), mod);
                break;
            }
            case 2: mod[0].a.assign(n, 0); put(Mono(n, co), mod); break;
            case 3: mod[0].a.assign(n, 0); mod[0].c = 1; put(Mono(n), mod); break;
            case 4:
                if (n == 2) put(Mono(co, {a[0], a[1]}), mod);
                else put(Mono(co, VA(a.data(), n)), mod);
                break;
            default:
            {
                const size_t N = size_t(c.in(1, 3));
                Model q(N, {R(1), std::vector<R>(n, 0)});
                put(Posy(n, N), q);
            }
        }
    }
};
static Model times(const Model& x, const Model& y, R sign = 1)
{
    Model r;
    for (auto& t : x)
        for (auto& u : y)
        {
            Term w {sign > 0 ? t.c * u.c : t.c / u.c, t.a};
            for (size_t i = 0; i < w.a.size(); ++i) w.a[i] += sign * u.a[i];
            r.push_back(w);
        }
    return r;
}
static Model plus(Model x, const Model& y)
{
    x.insert(x.end(), y.begin(), y.end());
    return x;
}
static Model by(Model x, R f)
{
    for (auto& t : x) t.c *= f;
    return x;
}

PROP(expressions, 4000, 150000)
{
    World w {c, size_t(c.many(1, 4, 12)), {}, {}, {}, {}};
    w.fresh();
    if (w.m.empty()) { w.m.emplace_back(w.n); w.mm.push_back({{R(1), std::vector<R>(w.n, 0)}}); }
    if (w.p.empty()) { w.p.emplace_back(w.m[0]); w.pm.push_back(w.mm[0]); }
    std::set<uint64_t> kinds;
    for (int64_t o = c.many(1, 15, 40); o > 0; --o)
    {
        const size_t i = c.draw(w.m.size()), j = c.draw(w.m.size());
        const size_t k = c.draw(w.p.size()), l = c.draw(w.p.size());
        const auto op = c.draw(26);
        const double f = w.coeff();
        const Model &mi = w.mm[i], &mj = w.mm[j], &pk = w.pm[k], &pl = w.pm[l];
        c.note("operation ", op, " on monomials ", i, ", ", j, ", posynomials ", k, ", ", l, ", factor ", f);
        kinds.insert(op);
        switch (op)
        {
            case 0: w.fresh(); break;
            case 1: w.put(w.m[i] * w.m[j], Model(times(mi, mj))); break;
            case 2: w.put(w.m[i] / w.m[j], Model(times(mi, mj, -1))); break;
            case 3: w.put(w.m[i] * f, by(mi, R(f))); break;
            case 4: w.put(w.m[i] / f, by(mi, 1 / R(f))); break;
            case 5: w.put(f * w.m[i], by(mi, R(f))); break;
            case 6: w.put(f / w.m[i], by(times({{R(1), std::vector<R>(w.n, 0)}}, mi, -1), R(f))); break;
            case 7: w.put(3 * w.m[i], by(mi, 3)); break;
            case 8:
            {
                Model r = mi;
                r[0].c = std::sqrt(r[0].c);
                for (auto& a : r[0].a) a /= 2;
                w.put(sqrt(w.m[i]), r);
                break;
            }
            case 9: { Mono t = w.m[i]; t *= w.m[j]; w.put(t, Model(times(mi, mj))); break; }
            case 10: { Mono t = w.m[i]; t /= w.m[j]; w.put(t, Model(times(mi, mj, -1))); break; }
            case 11: { Mono t = w.m[i]; t *= f; t.set_coeff(f); Model r = mi; r[0].c = R(f); w.put(t, r); break; }
            case 12: w.put(Posy(w.m[i]), Model(mi)); break;
            case 13: w.put(w.m[i] + w.m[j], plus(mi, mj)); break;
            case 14: w.put(w.p[k] + w.m[i], plus(pk, mi)); break;
            case 15: w.put(w.p[k] * w.m[i], times(pk, mi)); break;
            case 16: w.put(w.p[k] / w.m[i], times(pk, mi, -1)); break;
            case 17: w.put(w.p[k] * f, by(pk, R(f))); break;
            case 18: w.put(w.p[k] / f, by(pk, 1 / R(f))); break;
            case 19: w.put(w.p[k] * w.p[l], times(pk, pl)); break;
            case 20: { Posy t = w.p[k]; t += w.p[l]; w.put(t, plus(pk, pl)); break; }
            case 21: // in place, possibly with itself
            {
                if (pk.size() + pl.size() > 40) break;
                const Model r = plus(pk, pl);
                w.p[k] += w.p[l];
                w.pm[k] = r;
                break;
            }
            case 24: // in place by one of its own terms
            case 25:
            {
                const size_t h = c.draw(pk.size());
                const Model r = times(pk, {pk[h]}, op == 24 ? 1 : -1);
                if (!World::moderate(r)) break;
                if (op == 24) w.p[k] *= w.p[k]._M[h];
                else w.p[k] /= w.p[k]._M[h];
                w.pm[k] = r;
                break;
            }
            case 22: { Posy t(w.n, 1); t = w.p[k]; t *= w.m[i]; w.put(t, times(pk, mi)); break; }
            default: { Posy t = w.p[k]; t /= w.m[i]; t *= f; w.put(t, by(times(pk, mi, -1), R(f))); }
        }
        w.verify();
    }
    bool many = false;
    for (auto& q : w.pm) many = many || q.size() >= 3;
    if (kinds.size() >= 4 && many) c.nontrivial();
}
// convexity in the logarithm: the reason the form exists
PROP(convexity, 3000, 80000)
{
    const size_t n = size_t(c.many(1, 4, 12));
    World w {c, n, {}, {}, {}, {}};
    Posy p(n, 1);
    const size_t N = size_t(c.many(1, 5, 100));
    for (size_t k = 0; k < N; ++k)
    {
        std::vector<double> a(n);
        for (auto& v : a) v = c.num(2.);
        p += Mono(w.coeff(), VA(a.data(), n));
    }
    const auto y = w.point(), z = w.point();
    VA Y(y.data(), n), Z(z.data(), n);
    const VA M = (Y + Z) / 2.;
    const double fy = p.lse(Y), fz = p.lse(Z), fm = p.lse(M);
    const double tol = 1e-11 * (1 + std::fabs(fy) + std::fabs(fz));
    c.check(fm <= (fy + fz) / 2 + tol, str("not convex: ", fm, " between ", fy, " and ", fz));
    double f;
    const VA g = p.lse_gradient(Y, f);
    c.check(fz >= fy + (g * (Z - Y)).sum() - tol, "the gradient is not a subgradient");
    if (N > 1) c.nontrivial();
}

// far from y = 0: the recorded defect, and what is right next to it
PROP(far_out, 1000, 20000)
{
    const size_t n = size_t(c.in(1, 4)), N = size_t(c.in(1, 5));
    World w {c, n, {}, {}, {}, {}};
    Posy p(n, N);
    Model mod;
    for (size_t k = 0; k < N; ++k)
    {
        std::vector<double> a(n);
        for (auto& v : a) v = c.num(20.);
        const double co = w.coeff();
        p._M[k] = Mono(co, VA(a.data(), n));
        mod.push_back({R(co), std::vector<R>(a.begin(), a.end())});
    }
    auto y = w.point();
    const double s = c.pick(std::vector<double> {1., 5., 20., 100.});
    for (auto& v : y) v *= s;
    c.note("n ", n, " terms ", N, " y=", y);
    w.same(p, mod, y, "posynomial", 0);
    if (N > 1) c.nontrivial();
}

// many variables, many terms: sums built one term at a time, products, and back
PROP(large, 800, 20000)
{
    const size_t n = size_t(c.in(1, 30));
    World w {c, n, {}, {}, {}, {}};
    auto term = [&] {
        std::vector<double> a(n);
        for (auto& v : a) v = c.chance(40) ? 0. : c.num(1.);
        const double co = w.coeff();
        return std::make_pair(Mono(co, VA(a.data(), n)), Term {R(co), std::vector<R>(a.begin(), a.end())});
    };
    auto sum = [&](int64_t N) {
        auto [m, t] = term();
        Posy p(m);
        Model mod {t};
        for (int64_t k = 1; k < N; ++k)
        {
            auto [q, u] = term();
            p += q;
            mod.push_back(u);
        }
        return std::make_pair(p, mod);
    };
    auto [p, mod] = sum(c.in(1, 150));
    w.same(p, mod, w.point(), "posynomial", 0);
    if (c.chance(60))
    {
        auto [q, qm] = sum(c.in(1, 12));
        if (c.chance(50) || mod.size() > 20) { p += q; mod = plus(mod, qm); }
        else { p = p * q; mod = times(mod, qm); }
        w.same(p, mod, w.point(), "posynomial", 0);
    }
    if (c.chance(60))
    {
        auto [m, t] = term();
        if (c.chance(50)) { p *= m; mod = times(mod, {t}); }
        else { p = p / m; mod = times(mod, {t}, -1); }
        w.same(p, mod, w.point(), "posynomial", 1);
    }
    c.note("variables ", n, " terms ", mod.size());
    if (mod.size() > 10) c.nontrivial();
}
