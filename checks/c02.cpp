// C02: an accepted cut yields the minimum-volume enclosing ellipsoid.
#include "ellref.hpp"

// log volume ratio (new/old) of the best ellipsoid of the pencil
// u^2 + |p|^2 - 1 + lambda (u + a)(u + b) <= 0, by one-dimensional search
static R best_logvol(R n, R a, R b)
{
    auto f = [&](R s) {
        const R l = s / (1 - s);
        const R rhs = 1 - l * a * b + l * l * (a + b) * (a + b) / (4 * (1 + l));
        if (!(rhs > 0)) return R(INFINITY);
        return n / 2 * std::log(rhs) - std::log1p(l) / 2;
    };
    const int N = 400;
    int bi = 0;
    R bf = f(0);
    for (int i = 1; i < N; ++i)
    {
        const R v = f(R(i) / N);
        if (v < bf) { bf = v; bi = i; }
    }
    R lo = R(std::max(0, bi - 1)) / N, hi = R(std::min(N * 1.0L - 1e-9L, bi + 1.0L)) / N;
    const R gr = (std::sqrt(R(5)) - 1) / 2;
    R x1 = hi - gr * (hi - lo), x2 = lo + gr * (hi - lo), f1 = f(x1), f2 = f(x2);
    for (int i = 0; i < 80; ++i)
    {
        if (f1 < f2) { hi = x2; x2 = x1; f2 = f1; x1 = hi - gr * (hi - lo); f1 = f(x1); }
        else { lo = x1; x1 = x2; f1 = f2; x2 = lo + gr * (hi - lo); f2 = f(x2); }
    }
    return std::min({bf, f1, f2});
}

static void history(pbt::Ctx& c, int par, size_t nmax, int steps)
{
    const auto s0 = gen_start(c, nmax);
    c.note(s0.show());
    auto e = s0.make<ell>();
    if (c.chance(40)) e.no_defer_trick = true;
    const bool usepar = !c.chance(10);
    e.use_parallel_cut = usepar;
    c.note("no_defer_trick=", e.no_defer_trick, " use_parallel_cut=", usepar);
    const auto len = steps == 1 ? 1 : c.many(1, steps, 60, 4);
    int acc = 0;
    for (int i = 0; i < len; ++i)
    {
        const auto P = shape(e, s0.n);
        if (cond(P) > 1e7L) { c.label("stopped: ill-conditioned"); break; }
        auto k = gen_cut(c, P, par, true);
        const R tau = std::sqrt(la::quad(P, toV(k.g)));
        const R a = k.b0 / tau;
        R b = k.par && usepar ? k.b1 / tau : R(1);
        if (b > 1) b = 1;
        const auto [st, tsq] = apply(e, k);
        c.note(show(k), " -> ", name(st), " tsq=", tsq, " (alpha0=", double(a), " alpha1=", double(b), ")");
        if (st != CUTStatus::success) { c.label("rejected"); continue; }
        const auto L = la::chol(P);
        const auto P1 = shape(e, s0.n);
        const auto L1 = la::chol(P1);
        if (!L || !L1) c.fail("shape is not positive definite after " + show(k));
        const R got = (la::logdet(*L1) - la::logdet(*L)) / 2;
        const R tol = 1e-7 + 4e-16L * R(s0.n) * cond(P1); // rounding of the shape
        if (!(got <= tol)) c.fail(pbt::str("the volume grew: log ratio ", double(got), " after ", show(k)));
        if (a < -1 || b < -1)
        {
            c.label("near plane outside");
            continue;
        }
        const R want = best_logvol(R(s0.n), a, b);
        ++acc;
        c.label(!k.par ? (a > 0 ? "deep" : a < 0 ? "shallow" : "central")
                       : (b == 1 ? "slab, far plane outside" : a == 0 ? "slab, central" : a > 0 ? "slab, deep" : "slab, shallow"));
        if (!(std::fabs(got - want) <= tol))
            c.fail(pbt::str("log volume ratio ", double(got), " but the smallest ellipsoid has ", double(want),
                " n=", s0.n, " ", show(k), " tau=", double(tau)));
        // the classical guarantees
        if (a >= 0 && !(got <= -1 / (2 * (R(s0.n) + 1)) + tol))
            c.fail(pbt::str("a cut through or beyond the centre shrank the volume by a log ratio of only ", double(got)));
    }
    if (acc >= (steps == 1 ? 1 : 2)) c.nontrivial();
}

PROP(single_cuts, 3000, 60000) { history(c, 0, 8, 20); }
PROP(slabs_and_cuts, 5000, 80000) { history(c, 65, 8, 16); }
PROP(one_slab, 15000, 200000) { history(c, 100, 8, 1); }
