// C06: the one-dimensional space against exact interval arithmetic.
#include "pbt.hpp"
#include <ellcpp/cut_config.hpp>
#include <ellcpp/ell1d.hpp>
#include <tuple>

using Q = long double;
static const char* name(CUTStatus s)
{
    return s == CUTStatus::success ? "success" : s == CUTStatus::nosoln ? "nosoln"
        : s == CUTStatus::noeffect ? "noeffect" : "smallenough";
}
// the half-width, from the public interface: the tsq a rejected cut reports,
// and the step of a central cut on a copy
static double half_step(const ell1d& e, double g)
{
    ell1d k(e);
    k.update(std::make_tuple(g, 0.));
    return g > 0 ? e.xc() - k.xc() : k.xc() - e.xc();
}
static double probe(const ell1d& e)
{
    ell1d k(e);
    return std::get<1>(k.update(std::make_tuple(1., 1e300)));
}
static bool close(double a, Q b, Q tol) { return std::fabs(Q(a) - b) <= tol; }

static void history(pbt::Ctx& c, bool exact, int steps)
{
    // [l, u] on the grid 2^-8
    double l0, u0;
    if (exact)
    {
        l0 = double(c.sym(2048)) / 256.;
        u0 = l0 + double(c.in(c.chance(5) ? 0 : 1, 4096)) / 256.;
    }
    else
    {
        l0 = c.num(20.);
        u0 = l0 + std::ldexp(c.real(1., 2.), int(c.sym(10)));
    }
    const double unit = c.chance(15) ? std::ldexp(1., int(c.sym(300))) : 1.; // powers of two change no digit
    l0 *= unit;
    u0 *= unit;
    ell1d e(l0, u0);
    Q l = l0, u = u0;
    int bits = 9; // fractional bits in use
    const Q rel = exact ? 0 : 1e-11L;
    const Q scale = std::max<Q>(std::fabs(l), std::fabs(u)) + (u - l);
    c.note("[", l0, ", ", u0, "] ", exact ? "exact" : "");
    int acc = 0, rej = 0;
    bool neg = false, deep = false;
    const auto len = c.many(1, steps, 100, 3);
    for (int i = 0; i < len; ++i)
    {
        const Q xc = (l + u) / 2, r = (u - l) / 2, tol = rel * scale;
        c.check(close(e.xc(), xc, tol), pbt::str("centre ", e.xc(), ", should be ", double(xc)));
        c.check(close(probe(e), r * r, exact ? r * r * 1e-15L : tol * (r + tol) * 4), pbt::str("half-width squared ", probe(e), ", should be ", double(r * r)));
        c.check(close(half_step(e, 1.), r / 2, tol) && close(half_step(e, -1.), r / 2, tol), "the step of a central cut is not half the half-width");
        if (!exact && r < 1e-6L * scale) break;
        // the cut: offset as a fraction of tau
        double g;
        if (exact) g = (c.chance(50) ? -1. : 1.) * std::ldexp(double(c.pick(std::vector<int> {1, 3, 5, 7})), int(c.sym(3)));
        else g = (c.chance(50) ? -1. : 1.) * std::ldexp(c.real(1., 2.), int(c.sym(20)));
        double a;
        int ab = 0; // extra bits
        switch (c.draw(9))
        {
            case 0: a = 0; break;
            case 1: a = double(c.in(1, 7)) / 8.; ab = 3; break;
            case 2: a = -double(c.in(1, 7)) / 8.; ab = 3; break;
            case 3: a = 1.; break;
            case 4: a = -1.; break;
            case 5: a = 1. + double(c.in(1, 16)) / 8.; ab = 3; break;
            case 6: a = -1. - double(c.in(1, 16)) / 8.; ab = 3; break;
            case 7: a = double(c.sym(1)) * 1.0009765625; ab = 10; break;
            default: a = double(c.sym(1)) * .9990234375; ab = 10; break;
        }
        if (!exact && std::fabs(a) == 1.) a *= 1 + 1e-3;
        if (!exact && c.chance(50)) a = c.real(-2., 2.);
        const Q off = Q(a) * r; // beta / g, in units of x
        if (!exact && (std::fabs(std::fabs(off) - r) < 1e-6L * scale)) continue;
        const double beta = double(off * std::fabs(g));
        const Q bound = exact ? xc - off * (g > 0 ? 1 : -1) : Q(e.xc()) - Q(beta) / g;
        bits += 1 + ab;
        if (exact && bits > 36) break;
        const auto [st, tsq] = e.update(std::make_tuple(g, beta));
        c.note("g=", g, " beta=", beta, " (", a, " tau) -> ", name(st));
        const Q tau = r * std::fabs(Q(g));
        c.check(close(tsq, tau * tau, 1e-11L * std::fabs(tau * tau) + 4 * tol * tau * std::fabs(Q(g))), pbt::str("tsq = ", tsq, ", should be ", double(tau * tau)));
        c.label(name(st));
        if (Q(beta) > tau) c.check(st == CUTStatus::nosoln, "the cut misses the interval but is not reported as such");
        else if (Q(beta) < -tau) c.check(st == CUTStatus::noeffect, "the cut contains the interval but is not reported as such");
        else if (beta == -tau) c.check(st == CUTStatus::noeffect || st == CUTStatus::success, "wrong status for a cut that touches the interval's end");
        else c.check(st == CUTStatus::success, "the cut leaves part of the interval but is rejected");
        if (st != CUTStatus::success) { ++rej; continue; }
        ++acc;
        neg |= g < 0;
        deep |= a != 0;
        if (g > 0) u = std::min(u, bound);
        else l = std::max(l, bound);
        if (c.chance(10)) // moving the centre keeps the width
        {
            const double y = double(c.sym(64)) / 8. * unit;
            const Q half = (u - l) / 2;
            e.set_xc(y);
            l = Q(y) - half;
            u = Q(y) + half;
            c.note("set_xc ", y);
            if (std::max(std::fabs(l), std::fabs(u)) > 4 * scale) break;
        }
        if (c.chance(10)) // copies are independent
        {
            ell1d k(e);
            k.set_xc(99.);
            k.update(std::make_tuple(1., 0.));
        }
    }
    c.check(close(e.xc(), (l + u) / 2, rel * scale * 4), pbt::str("centre ", e.xc(), ", should be ", double((l + u) / 2)));
    if (acc >= 2 && neg && deep) c.nontrivial();
    if (rej) c.label("with rejected cuts");
}

PROP(exact_histories, 200000, 2000000) { history(c, true, 12); }
PROP(real_histories, 150000, 1500000) { history(c, false, 30); }
