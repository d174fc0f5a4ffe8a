// C01: an accepted cut keeps every point of the ellipsoid that satisfies it.
#include "ellref.hpp"

static void contained(pbt::Ctx& c, const State& o, const State& w, const Cut& k)
{
    const auto n = o.P.r;
    for (auto v : w.x) c.check(std::isfinite(double(v)), "centre not finite after " + show(k));
    for (auto v : w.P.a) c.check(std::isfinite(double(v)), "shape not finite after " + show(k));
    const auto L = la::chol(o.P);
    if (!L) c.fail("shape lost positive definiteness before " + show(k));
    // whitened coordinates of the old ellipsoid: x = xc + L u
    const auto g = toV(k.g);
    auto d = la::mul(la::tr(*L), g);
    const R tau = la::norm(d);
    for (auto& v : d) v /= tau;
    Vec cw(n);
    for (size_t i = 0; i < n; ++i) cw[i] = w.x[i] - o.x[i];
    cw = la::fsub(*L, cw);
    Mat S = w.P; // L^-1 P' L^-T
    for (int rep = 0; rep < 2; ++rep)
    {
        for (size_t j = 0; j < n; ++j)
        {
            Vec col(n);
            for (size_t i = 0; i < n; ++i) col[i] = S(i, j);
            col = la::fsub(*L, col);
            for (size_t i = 0; i < n; ++i) S(i, j) = col[i];
        }
        S = la::tr(S);
    }
    const auto LS = la::chol(S);
    if (!LS) c.fail("shape is not positive definite after " + show(k));
    const R lo = k.par ? std::max<R>(-1, -R(k.b1) / tau) : -1, hi = std::min<R>(1, -R(k.b0) / tau);
    if (!(lo < hi)) return;
    // rounding of the shape and of the centre, seen in the thinnest direction
    R big = 0;
    for (auto v : w.x) big = std::max(big, std::fabs(v));
    const R thin = la::lambda_min(w.P);
    if (!(thin > 0)) { c.label("too thin to tell"); return; }
    const R tol = 1e-7 + 4e-16L * R(n) * cond(w.P) + 1e-15L * big / std::sqrt(thin);
    auto f = [&](const Vec& u) {
        Vec e(n);
        for (size_t i = 0; i < n; ++i) e[i] = u[i] - cw[i];
        return la::invquad(*LS, e);
    };
    // points on the boundary of what the cut leaves
    R worst = 0;
    auto at = [&](R h, Vec p) {
        const R q = la::dot(p, d);
        for (size_t i = 0; i < n; ++i) p[i] -= q * d[i];
        const R m = la::norm(p);
        if (!(m > 1e-6)) return;
        const R rad = std::sqrt(std::max<R>(0, 1 - h * h));
        for (size_t i = 0; i < n; ++i) p[i] = h * d[i] + rad * p[i] / m;
        worst = std::max(worst, f(p));
    };
    for (int t = 0; t < 6; ++t)
    {
        Vec p(n);
        uint64_t r = pbt::mix(uint64_t(t) * 77 + n);
        for (auto& v : p) { r = pbt::mix(r); v = R(double(r >> 11)) / R(1ULL << 53) - R(.5); }
        at(lo, p);
        at(hi, p);
        at(lo + (hi - lo) * (t + R(.5)) / 6, p);
    }
    // exact when the new ellipsoid is axisymmetric about the cut
    const R par = la::quad(S, d);
    const R q = (S.trace() - par) / R(n - 1);
    const R cc = la::dot(cw, d);
    R res = 0;
    for (size_t i = 0; i < n; ++i)
    {
        res = std::max(res, std::fabs(cw[i] - cc * d[i]));
        for (size_t j = 0; j < n; ++j)
            res = std::max(res, std::fabs(S(i, j) - par * d[i] * d[j] - q * ((i == j ? 1 : 0) - d[i] * d[j])));
    }
    if (res < 1e-6)
    {
        auto h = [&](R u) { return (u - cc) * (u - cc) / par + (1 - u * u) / q; };
        worst = std::max({worst, h(lo), h(hi)});
        const R A = 1 / par, B = 1 / q;
        if (A != B)
        {
            const R us = A * cc / (A - B);
            if (us > lo && us < hi) worst = std::max(worst, h(us));
        }
        c.label("axisymmetric");
    }
    else
    {
        c.label("general shape");
        for (int t = 0; t < 200; ++t)
        {
            Vec p(n);
            uint64_t r = pbt::mix(uint64_t(t) * 131 + n);
            for (auto& v : p) { r = pbt::mix(r); v = R(double(r >> 11)) / R(1ULL << 53) - R(.5); }
            at(lo, p);
            at(hi, p);
            at(lo + (hi - lo) * (t % 20 + R(.5)) / 20, p);
        }
    }
    if (!(worst <= 1 + tol))
        c.fail(pbt::str("a point that satisfies the cut is outside the new ellipsoid: (x-xc)'P^-1(x-xc) = ",
            double(worst), " for n=", n, " ", show(k), " tau=", double(tau)));
}

static void history(pbt::Ctx& c, int par, bool accepted, size_t nmax, int steps)
{
    const auto s0 = gen_start(c, nmax);
    c.note(s0.show());
    auto e = s0.make<ell>();
    if (c.chance(25)) e.no_defer_trick = true;
    State o = s0.state();
    int acc = 0, slab = 0, deep = 0;
    const auto len = steps == 1 ? 1 : c.many(1, steps, 60, 4);
    for (int i = 0; i < len; ++i)
    {
        o.x = toV(toDV(e.xc()));
        o.P = shape(e, s0.n);
        if (cond(o.P) > 1e6L || too_small(o.x, o.P, 1e-6L)) { c.label("stopped: ill-conditioned"); break; }
        const auto k = gen_cut(c, o.P, par, accepted);
        const auto [st, tsq] = apply(e, k);
        c.note(show(k), " -> ", name(st), " tsq=", tsq);
        c.label(std::string(k.par ? "slab " : "single ") + name(st));
        if (st != CUTStatus::success) continue;
        ++acc;
        slab += k.par;
        deep += k.b0 != 0.;
        State w;
        w.x = toV(toDV(e.xc()));
        w.P = shape(e, s0.n);
        contained(c, o, w, k);
    }
    if (acc >= (steps == 1 ? 1 : 2) && (par == 0 || slab) && (deep || steps == 1)) c.nontrivial();
}

PROP(single_cuts, 3000, 60000) { history(c, 0, true, 8, 25); }
PROP(slabs_and_cuts, 5000, 90000) { history(c, 60, true, 8, 20); }
PROP(all_classes, 3000, 40000) { history(c, 50, false, 6, 20); }
PROP(first_slab, 12000, 120000) { history(c, 100, true, 8, 1); }
