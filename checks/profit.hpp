// The profit model, evaluated directly.
#pragma once
#include "mats.hpp"
#include <ellcpp/oracles/profit_oracle.hpp>

struct Model
{
    double p, A, k, a[2], v[2];
    double e[2] {0, 0}, e3 = 0; // uncertainties
    R profit1(const Vec& y, const R* al, R price, R dv) const
    {
        return price * A * std::exp(al[0] * y[0] + al[1] * y[1]) - (v[0] + dv) * std::exp(y[0]) - (v[1] + dv) * std::exp(y[1]);
    }
    // worst case over the box: the corners, found by trying them all
    R profit(const Vec& y) const
    {
        R w = INFINITY;
        for (int m = 0; m < 4; ++m)
        {
            const R al[2] {a[0] + ((m & 1) ? R(e[0]) : -R(e[0])), a[1] + ((m & 2) ? R(e[1]) : -R(e[1]))};
            for (R s : {R(-e3), R(e3)})
                for (R d : {R(-e3), R(e3)}) w = std::min(w, profit1(y, al, p + s, d));
        }
        return w;
    }
    R limit() const { return std::log(R(k) - e3); }
    bool admissible(const Vec& y) const { return y[0] <= limit(); }
    R revenue(const Vec& y) const // of the worst case
    {
        R w = INFINITY;
        for (int m = 0; m < 4; ++m)
            w = std::min(w, (a[0] + ((m & 1) ? R(e[0]) : -R(e[0]))) * y[0] + (a[1] + ((m & 2) ? R(e[1]) : -R(e[1]))) * y[1]);
        return (R(p) - e3) * A * std::exp(w);
    }
    R cost(const Vec& y) const { return (v[0] + R(e3)) * std::exp(y[0]) + (v[1] + R(e3)) * std::exp(y[1]); }
    std::string show() const
    {
        return pbt::str("price ", p, " scale ", A, " limit ", k, " elasticities ", a[0], ",", a[1], " costs ", v[0], ",", v[1],
            " uncertainties ", e[0], ",", e[1], ",", e3);
    }
};
inline Arr pair(const double* x) { return toArr(DV {x[0], x[1]}); }
inline Model gen_model(pbt::Ctx& c, bool robust)
{
    Model m;
    m.p = c.real(2., 30.);
    m.A = c.real(.5, 50.);
    m.k = c.chance(30) ? double(c.in(2, 60)) : c.real(1.5, 60.);
    for (int i = 0; i < 2; ++i)
    {
        m.a[i] = c.chance(80) ? c.real(.05, .55) : c.real(.3, .95);
        m.v[i] = c.real(.2, 40.);
        m.e[i] = robust ? c.real(0., .2) * (c.chance(20) ? 0. : 1.) : 0.;
    }
    if (robust) m.e3 = c.chance(20) ? 0. : c.real(0., 1.2);
    return m;
}
inline Vec gen_y(pbt::Ctx& c, const Model& m)
{
    Vec y(2);
    for (auto& v : y) v = c.chance(15) ? double(c.sym(2)) : c.real(-3., 5.);
    if (c.chance(25)) y[0] = double(m.limit()) + (c.chance(50) ? c.pick(DV {-.1, .1, 1., 5., 12., 30.}) : (c.chance(50) ? 1 : -1) * std::pow(10., -c.real(2., 11.)));
    else if (c.chance(10)) y[c.draw(2)] = c.real(-30., 30.); // far away
    for (auto& v : y) v = double(v);
    return y;
}
// admissible points with a profit above t, to attack cuts with
inline std::vector<Vec> good_points(pbt::Ctx& c, const Model& m, R t, int tries)
{
    std::vector<Vec> r;
    // climb from a few places
    for (int k = 0; k < tries; ++k)
    {
        Vec y {R(c.real(-3., 5.)), R(c.real(-3., 5.))};
        y[0] = std::min(y[0], m.limit());
        R step = 1;
        R f = m.profit(y);
        for (int i = 0; i < 60 && step > 1e-6L; ++i)
        {
            bool up = false;
            for (int d = 0; d < 4; ++d)
            {
                Vec w = y;
                w[d / 2] += (d % 2 ? step : -step);
                w[0] = std::min(w[0], m.limit());
                if (std::fabs(w[0]) > 9 || std::fabs(w[1]) > 9) continue;
                const R q = m.profit(w);
                if (q > f) { f = q; y = w; up = true; break; }
            }
            if (!up) step /= 2;
        }
        if (f > t) r.push_back(y);
    }
    return r;
}
// by how much a cut removes a point
inline R removed(const DV& g, double b, const Vec& y, const Vec& w)
{
    return w.empty() ? -INFINITY : R(b) + g[0] * (w[0] - y[0]) + g[1] * (w[1] - y[1]);
}
