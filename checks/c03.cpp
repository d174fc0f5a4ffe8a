// C03: classification of cuts; rejected cuts change nothing; tsq.
#include "ellref.hpp"

// offsets concentrated at the class boundaries
static double near(pbt::Ctx& c, double at)
{
    const double d = c.pick(std::vector<double> {1e-6, 1e-4, 1e-2, .2});
    return at + (c.chance(50) ? d : -d);
}
static Cut boundary_cut(pbt::Ctx& c, const Mat& P)
{
    Cut k;
    const double n = double(P.r);
    k.g = gen_dir(c, P);
    const auto tau = double(std::sqrt(la::quad(P, toV(k.g))));
    double a = 0, b = 0;
    switch (c.draw(9))
    {
        case 0: a = near(c, 1.); break;
        case 1: a = near(c, -1. / n); break;
        case 2: a = near(c, 0.); break;
        case 3: k.par = true; b = near(c, 1.); a = c.chance(50) ? near(c, -1. / n) : c.real(-1.2, .95); break;
        case 4: k.par = true; b = near(c, -1.); a = c.real(-1.5, 1.2); break;
        case 5: k.par = true; a = c.real(-.95, .95); b = near(c, a); break;
        case 6: // n a b = -1
            k.par = true;
            b = c.real(1. / n, 1.);
            a = near(c, -1. / (n * b));
            break;
        case 7: k.par = true; a = near(c, 1.); b = a + c.real(0., 1.); break;
        default: k.par = true; a = c.chance(50) ? 0. : c.real(-1.6, 1.6); b = c.real(-1.6, 1.6); break;
    }
    k.b0 = a * tau;
    k.b1 = b * tau;
    return k;
}

static void history(pbt::Ctx& c, int boundary, size_t nmax, int steps)
{
    const auto s0 = gen_start(c, nmax);
    c.note(s0.show());
    auto e = s0.make<ell>();
    auto twin = s0.make<ell>(); // never sees the rejected cuts
    e.no_defer_trick = twin.no_defer_trick = c.chance(25);
    const bool usepar = !c.chance(15);
    e.use_parallel_cut = twin.use_parallel_cut = usepar;
    const auto len = steps == 1 ? 1 : c.many(1, steps, 60, 4);
    int rej = 0, acc = 0;
    bool after = false;
    for (int i = 0; i < len; ++i)
    {
        const auto P = shape(e, s0.n);
        if (cond(P) > 1e7L) { c.label("stopped: ill-conditioned"); break; }
        const auto k = c.chance(boundary) ? boundary_cut(c, P) : gen_cut(c, P, 50, false);
        State s;
        s.x = Vec(s0.n, 0);
        s.P = P;
        R tsq0;
        const auto want = ref_update(s, k, tsq0, usepar);
        const auto before = fingerprint(e, s0.n);
        const auto [st, tsq] = c.chance(50) ? apply(e, k) : apply1(e, k);
        c.note(show(k), " -> ", name(st), " tsq=", tsq);
        c.check(std::fabs(R(tsq) - tsq0) <= 1e-9L * tsq0 * std::max<R>(1, cond(P) * 1e-4L),
            pbt::str("tsq = ", tsq, " but kappa g'Qg = ", double(tsq0), " for ", show(k), " (", name(st), ")"));
        const R tau = std::sqrt(tsq0);
        const R a = k.b0 / tau, b = k.b1 / tau;
        // what must hold whatever the closed form
        if (want.margin > 1e-8L)
        {
            if (st == CUTStatus::nosoln && (a < 1 && (!k.par || !usepar || (b > a && b > -1))))
                c.fail("reported no solution, but the cut leaves part of the ellipsoid: " + show(k));
            if (st == CUTStatus::smallenough) c.fail("impossible status for " + show(k));
            c.check(st == want.st, pbt::str("status ", name(st), " instead of ", name(want.st), " for n=", s0.n,
                " use_parallel_cut=", usepar, " ", show(k), " tau=", double(tau)));
            c.label(std::string(k.par ? "slab " : "single ") + name(st));
        }
        else c.label("on a boundary");
        if (st != CUTStatus::success)
        {
            ++rej;
            c.check(same_bits(before, fingerprint(e, s0.n)), std::string("a rejected cut (") + name(st) + ") changed the ellipsoid: " + show(k));
        }
        else
        {
            ++acc;
            after |= rej > 0;
            apply(twin, k);
            c.check(same_bits(fingerprint(twin, s0.n), fingerprint(e, s0.n)),
                "an object that saw rejected cuts before behaves differently from one that did not: " + show(k));
        }
    }
    if (rej && acc && after) c.nontrivial();
}

PROP(boundaries, 9000, 100000) { history(c, 85, 8, 12); }
PROP(mixed, 6000, 60000) { history(c, 15, 8, 20); }
// exact boundaries that floating point represents: a unit ball
PROP(exact_boundaries, 6000, 60000)
{
    const auto n = size_t(c.in(2, 8));
    DV x(n);
    for (auto& v : x) v = double(c.sym(8));
    const int sc = int(c.sym(10));
    const double tau = std::ldexp(1., sc);
    auto e = c.chance(50) ? ell(std::ldexp(1., 2 * sc), toArr(x)) : [&] {
        DV d(n, std::ldexp(1., 2 * sc));
        return ell(toArr(d), toArr(x));
    }();
    Cut k;
    k.g = DV(n, 0.);
    k.g[c.draw(n)] = c.chance(50) ? -1. : 1.;
    k.par = c.chance(70);
    const double a = double(c.in(-32, 32)) / 16., b = double(c.in(-32, 32)) / 16.;
    k.b0 = a * tau;
    k.b1 = b * tau;
    const auto before = fingerprint(e, n);
    const auto [st, tsq] = c.chance(50) ? apply(e, k) : apply1(e, k);
    c.note("ball of radius ", tau, " n=", n, " ", show(k), " -> ", name(st));
    c.check(tsq == tau * tau, pbt::str("tsq = ", tsq, " instead of ", tau * tau));
    CUTStatus want;
    const double N = double(n);
    if (!k.par || std::fabs(b) > 1)
        want = a > 1 ? CUTStatus::nosoln : 1 + N * a < 0 ? CUTStatus::noeffect : CUTStatus::success;
    else
        want = b < a ? CUTStatus::nosoln : 1 + N * a * b < 0 ? CUTStatus::noeffect : CUTStatus::success;
    // where the smallest ellipsoid is exactly the old one, both answers are right
    const bool either = want == CUTStatus::success && st == CUTStatus::noeffect &&
        (!k.par || std::fabs(b) > 1 ? 1 + N * a == 0 : 1 + N * a * b == 0);
    c.check(st == want || either, pbt::str("status ", name(st), " instead of ", name(want)));
    if (st != CUTStatus::success)
        c.check(same_bits(before, fingerprint(e, n)), "a rejected cut changed the ellipsoid");
    c.label(std::string(k.par ? "slab " : "single ") + name(st));
    if (a == 1 || a == b || b == 1 || b == -1 || 1 + N * a == 0 || 1 + N * a * b == 0 || a == 0)
    {
        c.label("exactly on a boundary");
        c.nontrivial();
    }
}
