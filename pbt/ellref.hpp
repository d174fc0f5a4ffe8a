// Reference computations and generators for the ellipsoid search spaces.
#pragma once
#include "arr.hpp"
#include "la.hpp"
#include "pbt.hpp"
#include <ellcpp/cut_config.hpp>
#include <ellcpp/ell.hpp>
#include <memory>
#include <tuple>

using Arr = xt::xarray<double, xt::layout_type::row_major>;
using la::Mat;
using la::R;
using la::Vec;
using DV = std::vector<double>;

inline Vec toV(const DV& v) { return Vec(v.begin(), v.end()); }
inline Arr one(double b) { Arr a = Arr::from_shape({1}); a(0) = b; return a; }
inline Arr two(double b0, double b1) { Arr a = Arr::from_shape({2}); a(0) = b0; a(1) = b1; return a; }
inline const char* name(CUTStatus s)
{
    switch (s)
    {
        case CUTStatus::success: return "success";
        case CUTStatus::nosoln: return "nosoln";
        case CUTStatus::smallenough: return "smallenough";
        case CUTStatus::noeffect: return "noeffect";
    }
    return "?";
}

// tsq for the direction g, without touching the object
template <typename E>
double probe(const E& e, const DV& g)
{
    auto k = e.copy();
    const auto [st, tsq] = k.update(std::make_tuple(toArr(g), 1e300));
    return tsq;
}
// the shape matrix P = kappa * Q by polarisation
template <typename E>
Mat shape(const E& e, size_t n)
{
    Mat P(n, n);
    DV d(n);
    for (size_t i = 0; i < n; ++i)
    {
        DV g(n, 0.);
        g[i] = 1.;
        P(i, i) = d[i] = probe(e, g);
    }
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < i; ++j)
        {
            DV g(n, 0.);
            g[i] = g[j] = 1.;
            P(i, j) = P(j, i) = (R(probe(e, g)) - d[i] - d[j]) / 2;
        }
    return P;
}
// Cuts in one direction make an ellipsoid flat and long. Once the rounding of its
// longest axis reaches the tolerance, tsq is noise, can be negative, and the next
// centre is not a number. Call before every query.
struct Wear
{
    std::unique_ptr<ell> last;
    // true: the centre broke down where rounding explains it
    bool operator()(const ell& e, size_t n, double gmax, double tol)
    {
        for (auto v : e.xc())
            if (!std::isfinite(v))
                return last && 1e-14L * la::lambda_max(shape(*last, n)) * gmax * gmax > tol;
        last = std::make_unique<ell>(e.copy());
        return false;
    }
};
// several probes for exact comparisons
template <typename E>
DV fingerprint(const E& e, size_t n)
{
    DV f = toDV(e.xc());
    for (size_t i = 0; i < n; ++i)
    {
        DV g(n, 0.);
        g[i] = 1.;
        f.push_back(probe(e, g));
        g[(i + 1) % n] = 0.75;
        f.push_back(probe(e, g));
    }
    return f;
}
inline bool same_bits(const DV& a, const DV& b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i)
        if (!(a[i] == b[i]) && !(std::isnan(a[i]) && std::isnan(b[i]))) return false;
    return true;
}

// a cut: g'(x - xc) + b0 <= 0 and, if par, g'(x - xc) + b1 >= 0
struct Cut
{
    DV g;
    bool par {};
    double b0 {}, b1 {};
};
template <typename E>
std::tuple<CUTStatus, double> apply(E& e, const Cut& k)
{
    if (k.par) return e.update(std::make_tuple(toArr(k.g), two(k.b0, k.b1)));
    return e.update(std::make_tuple(toArr(k.g), k.b0));
}
template <typename E> // the single cut as a one-element array
std::tuple<CUTStatus, double> apply1(E& e, const Cut& k)
{
    if (k.par) return apply(e, k);
    return e.update(std::make_tuple(toArr(k.g), one(k.b0)));
}
inline std::string show(const Cut& k)
{
    std::string s = "g=[";
    for (auto v : k.g) s += pbt::str(v, " ");
    return s + pbt::str("] beta=", k.b0, k.par ? pbt::str(" .. ", k.b1) : "");
}

// The exact answer in the coordinate u = g'(x - xc)/tau in [-1, 1], where the
// cut leaves -b <= u <= -a  (a = b0/tau, b = b1/tau).
// new centre u = -rho, P' = delta (P - sigma (Pg)(Pg)'/tau^2)
struct Ans
{
    CUTStatus st;
    R rho {}, sigma {}, delta {};
    R margin {}; // distance to the nearest class boundary
};
inline Ans ref_single(R n, R a)
{
    Ans r;
    r.margin = std::min(std::fabs(1 - a), std::fabs(1 + n * a));
    if (a > 1) { r.st = CUTStatus::nosoln; return r; }
    if (1 + n * a < 0) { r.st = CUTStatus::noeffect; return r; }
    r.st = CUTStatus::success;
    r.rho = (1 + n * a) / (n + 1);
    r.sigma = 2 * (1 + n * a) / ((n + 1) * (1 + a));
    r.delta = n * n / (n * n - 1) * (1 - a * a);
    if (a == 0) r.margin = 1;
    return r;
}
inline Ans ref_par(R n, R a, R b, bool use_parallel = true)
{
    if (!use_parallel || std::fabs(b) > 1)
    {
        auto r = ref_single(n, a);
        if (use_parallel) r.margin = std::min(r.margin, std::fabs(std::fabs(b) - 1));
        return r;
    }
    Ans r;
    r.margin = std::min({std::fabs(std::fabs(b) - 1), std::fabs(b - a), std::fabs(1 + n * a * b)});
    if (b < a) { r.st = CUTStatus::nosoln; return r; }
    if (1 + n * a * b < 0) { r.st = CUTStatus::noeffect; return r; }
    r.st = CUTStatus::success;
    const R t0 = 1 - a * a, t1 = 1 - b * b, tmp = n / 2 * (b * b - a * a);
    const R xi = std::sqrt(t0 * t1 + tmp * tmp);
    r.sigma = n / (n + 1) + 2 * (1 - n * n * (b - a) * (b - a) / 4) / ((n + 1) * (1 + a * b + xi));
    r.rho = r.sigma * (a + b) / 2;
    r.delta = n * n / (n * n - 1) * ((t0 + t1) / 2 + xi / n);
    return r;
}
struct State
{
    Vec x;
    Mat P;
};
inline Ans ref_update(State& s, const Cut& k, R& tsq, bool use_parallel = true)
{
    const auto g = toV(k.g);
    const auto n = R(g.size());
    const auto Pg = la::mul(s.P, g);
    tsq = la::dot(g, Pg);
    const R tau = std::sqrt(tsq);
    const auto r = k.par ? ref_par(n, k.b0 / tau, k.b1 / tau, use_parallel)
                         : ref_single(n, k.b0 / tau);
    if (r.st != CUTStatus::success) return r;
    for (size_t i = 0; i < g.size(); ++i) s.x[i] -= r.rho * Pg[i] / tau;
    for (size_t i = 0; i < g.size(); ++i)
        for (size_t j = 0; j < g.size(); ++j)
            s.P(i, j) = r.delta * (s.P(i, j) - r.sigma * Pg[i] * Pg[j] / tsq);
    return r;
}

// ---------------------------------------------------------------- generators
inline DV gen_dir(pbt::Ctx& c, const Mat& P)
{
    const auto n = P.r;
    DV g(n, 0.);
    const auto kind = c.draw(5);
    if (kind == 0) // a coordinate direction
    {
        g[c.draw(n)] = c.chance(50) ? -1. : 1.;
    }
    else if (kind == 1) // sparse
    {
        for (int i = 0; i < 2; ++i) g[c.draw(n)] = c.num(3.);
    }
    else if (kind == 2) // isotropic in the coordinates of the current ellipsoid
    {
        Vec u(n);
        for (auto& v : u) v = c.gauss();
        const auto L = la::chol(P);
        if (L)
        {
            u = la::bsub(*L, u);
            for (size_t i = 0; i < n; ++i) g[i] = double(u[i]);
        }
    }
    else
    {
        for (auto& v : g) v = c.num(4.);
    }
    double m = 0;
    for (auto v : g) m = std::max(m, std::fabs(v));
    if (!(m > 1e-3))
    {
        g.assign(n, 0.);
        g[0] = 1.;
    }
    if (c.chance(15)) // unnormalised gradients
    {
        const double s = std::ldexp(1., int(c.sym(20)));
        for (auto& v : g) v *= s;
    }
    return g;
}
inline double gen_alpha(pbt::Ctx& c, double n, bool accepted)
{
    switch (c.draw(accepted ? 4 : 6))
    {
        case 0: return 0.;
        case 1: return c.real(0., .9);
        case 2: return -c.real(0., .98) / n; // shallow, accepted
        case 3:
            switch (c.draw(4))
            {
                case 0: return c.pick(std::vector<double> {.5, .25, .9, .1, -.5 / n});
                case 1: return std::pow(10., -c.real(2., 12.)); // nearly central
                case 2: return -std::pow(10., -c.real(2., 12.)) / n;
                default: return 1. - std::pow(10., -c.real(1., 3.)); // nearly all
            }
        case 4: return -1. / n * (1. + c.real(.01, 3.)); // no effect
        default: return 1.01 + c.real(0., 2.);           // no solution
    }
}
// a slab; both planes and their position relative to the ellipsoid vary
inline void gen_slab(pbt::Ctx& c, double n, bool accepted, double& a, double& b)
{
    switch (c.draw(accepted ? 6 : 9))
    {
        case 0: // central, at times thin
            a = 0;
            b = c.chance(25) ? std::pow(10., -c.real(1.3, 3.)) : c.real(.05, 1.3);
            break;
        case 1: // deep, at times thin
            a = c.real(0., .8);
            b = a + (c.chance(20) ? std::pow(10., -c.real(1., 3.)) : c.real(.05, 1.));
            break;
        case 2: // shallow near plane, accepted
            a = -c.real(.01, .95) / n;
            b = a + c.real(.05, 1.2);
            if (c.chance(15)) // thin, the centre within
            {
                a = -std::pow(10., -c.real(1.3, 3.));
                b = std::pow(10., -c.real(1.3, 3.));
            }
            break;
        case 3: // (nearly) symmetric about the centre
        {
            const double w = c.real(.05, .99) / std::sqrt(n);
            a = -w;
            b = c.chance(50) ? w : w * (1. + (c.chance(50) ? 1 : -1) * std::pow(10., -c.real(1., 13.)));
            break;
        }
        case 4: // near plane misses the ellipsoid, far plane cuts
            a = -1. - c.real(.01, 1.5);
            b = -c.real(0., .9);
            break;
        case 5: // both beyond the centre on the far side
            b = -c.real(0., .8);
            a = b - c.real(.05, 1.);
            break;
        case 6: a = c.real(-.9, .9); b = a - c.real(.01, 1.); break;  // swapped
        case 7: a = 1.01 + c.real(0., 1.); b = a + c.real(0., 1.); break;
        default: a = -c.real(0., 1.6); b = c.real(-1.6, 1.6); break;
    }
}
inline Cut gen_cut(pbt::Ctx& c, const Mat& P, int par_pct, bool accepted = true)
{
    Cut k;
    const auto n = double(P.r);
    k.g = gen_dir(c, P);
    const auto tau = double(std::sqrt(la::quad(P, toV(k.g))));
    k.par = c.chance(par_pct);
    if (k.par)
    {
        double a, b;
        gen_slab(c, n, accepted, a, b);
        k.b0 = a * tau;
        k.b1 = b * tau;
        if (b == -a) k.b1 = -k.b0;
    }
    else
    {
        k.b0 = gen_alpha(c, n, accepted) * tau;
    }
    return k;
}
struct Start
{
    size_t n {};
    bool ball {};
    double alpha {};
    DV val, x;
    template <typename E>
    E make() const
    {
        if (ball) return E(alpha, toArr(x));
        return E(toArr(val), toArr(x));
    }
    State state() const
    {
        State s;
        s.x = toV(x);
        s.P = Mat(n, n);
        for (size_t i = 0; i < n; ++i) s.P(i, i) = ball ? alpha : val[i];
        return s;
    }
    std::string show() const
    {
        std::string s = pbt::str("n=", n, ball ? pbt::str(" ball alpha=", alpha) : " diag=");
        if (!ball) for (auto v : val) s += pbt::str(v, " ");
        s += " xc=";
        for (auto v : x) s += pbt::str(v, " ");
        return s;
    }
};
inline Start gen_start(pbt::Ctx& c, size_t nmax = 8, size_t big = 24, bool up = true)
{
    Start s;
    if (big >= 24 && c.chance(5)) big = 40;
    s.n = size_t(c.many(2, int64_t(nmax), int64_t(big), 4));
    s.ball = !c.chance(40);
    s.alpha = c.chance(50) ? 1. : std::ldexp(c.real(1., 2.), int(c.sym(12)));
    if (!s.ball)
        for (size_t i = 0; i < s.n; ++i) s.val.push_back(std::ldexp(c.real(1., 2.), int(c.sym(4))));
    for (size_t i = 0; i < s.n; ++i) s.x.push_back(c.num(8.));
    if (c.chance(12)) // other units
    {
        const int k = up ? int(c.sym(60)) : -int(c.in(1, 60));
        s.alpha = std::ldexp(s.alpha, 2 * k);
        for (auto& v : s.val) v = std::ldexp(v, 2 * k);
        for (auto& v : s.x) v = std::ldexp(v, k);
    }
    return s;
}
inline R cond(const Mat& P)
{
    const auto e = la::eig(P);
    if (!(e.front() > 0)) return INFINITY;
    return e.back() / e.front();
}
// is the ellipsoid so small that its centre, a double, is not where it should be?
inline bool too_small(const Vec& x, const Mat& P, R rel)
{
    R m = 0;
    for (auto v : x) m = std::max(m, std::fabs(v));
    return !(std::sqrt(la::lambda_min(P)) > rel * m);
}
inline R scale_of(const State& s) { return std::sqrt(std::max<R>(s.P.trace(), 0)); }
