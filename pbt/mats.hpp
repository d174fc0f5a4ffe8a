// Helpers shared by the matrix-inequality checks.
#pragma once
#include "arr.hpp"
#include "la.hpp"
#include "pbt.hpp"
#include <xtensor/xarray.hpp>

using Arr = xt::xarray<double, xt::layout_type::row_major>;
using la::Mat;
using la::R;
using la::Vec;
using DV = std::vector<double>;

inline Arr toArr(const Mat& m)
{
    Arr a = Arr::from_shape({m.r, m.c});
    for (size_t i = 0; i < m.r; ++i)
        for (size_t j = 0; j < m.c; ++j) a(i, j) = double(m(i, j));
    return a;
}
inline Mat toMat(const Arr& a)
{
    Mat m(a.shape()[0], a.shape()[1]);
    for (size_t i = 0; i < m.r; ++i)
        for (size_t j = 0; j < m.c; ++j) m(i, j) = a(i, j);
    return m;
}
inline std::string show(const Mat& m)
{
    std::string s = "[";
    for (size_t i = 0; i < m.r; ++i)
    {
        for (size_t j = 0; j < m.c; ++j) s += pbt::str(j ? " " : "", double(m(i, j)));
        s += i + 1 < m.r ? "; " : "]";
    }
    return s;
}
inline std::string show(const DV& v)
{
    std::string s = "(";
    for (auto x : v) s += pbt::str(s.size() > 1 ? " " : "", x);
    return s + ")";
}
// a symmetric matrix of doubles
inline Mat gen_sym(pbt::Ctx& c, size_t n, double m)
{
    Mat A(n, n);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j <= i; ++j) A(i, j) = A(j, i) = c.num(m);
    return A;
}

// are the pivots of A, up to the first non-positive one, clear of rounding?
inline bool clear_pivots(const Mat& A, R eps = 1e-6L)
{
    const auto n = A.r;
    Mat T(n, n);
    Vec D(n);
    for (size_t i = 0; i < n; ++i)
    {
        R sc = std::fabs(A(i, i));
        for (size_t j = 0; j <= i; ++j)
        {
            R d = A(i, j);
            for (size_t q = 0; q < j; ++q) d -= T(i, q) * T(j, q) * D[q];
            if (j < i) { T(i, j) = d / D[j]; sc += std::fabs(T(i, j) * d); }
            else D[i] = d;
        }
        if (!(std::fabs(D[i]) > eps * sc)) return false;
        if (D[i] < 0) return true;
    }
    return true;
}
// pushes a feasible point as far as it goes along a direction
template <typename Ok>
Vec push(const Vec& z, const Vec& d, R far, Ok&& ok)
{
    auto at = [&](R s) {
        Vec y = z;
        for (size_t i = 0; i < y.size(); ++i) y[i] += s * d[i];
        return y;
    };
    R lo = 0, hi = far;
    if (ok(at(far))) return at(far);
    for (int k = 0; k < 30; ++k)
    {
        const R m = (lo + hi) / 2;
        (ok(at(m)) ? lo : hi) = m;
    }
    return at(lo);
}
// looks for a feasible point that a cut g'(z - x) + b <= 0 removes; returns the
// largest value found of g'(z - x) + b, relative to its rounding (and to points of
// size floor), and the point
template <typename Ok>
std::pair<R, Vec> attack(pbt::Ctx& c, const Vec& x, const DV& g, R b, const std::vector<Vec>& starts, Ok&& ok, int tries, R floor = 0)
{
    const auto n = x.size();
    Vec gg(g.begin(), g.end());
    const R gn = la::norm(gg);
    auto value = [&](const Vec& z) {
        R s = b, m = std::fabs(b) + floor * gn + 1e-300L;
        for (size_t i = 0; i < n; ++i) { s += gg[i] * (z[i] - x[i]); m += std::fabs(gg[i]) * (std::fabs(z[i]) + std::fabs(x[i])); }
        return s / m;
    };
    std::pair<R, Vec> best {-INFINITY, {}};
    for (auto z : starts)
    {
        if (!ok(z)) continue;
        auto see = [&](const Vec& y) {
            const R v = value(y);
            if (v > best.first) best = {v, y};
        };
        see(z);
        if (!(gn > 0)) continue;
        for (int t = 0; t < tries; ++t)
        {
            Vec d(n);
            const bool plain = t == 0;
            for (size_t i = 0; i < n; ++i) d[i] = gg[i] / gn + (plain ? 0 : R(c.gauss()));
            if (la::dot(d, gg) < 0) for (auto& v : d) v = -v;
            const auto y = push(z, d, 8, ok);
            see(y);
            if (t % 2) for (size_t i = 0; i < n; ++i) z[i] += .9L * (y[i] - z[i]); // climb
            if (!ok(z)) break;
        }
    }
    return best;
}
// previous: the last query; near-duplicates of it tell caching oracles apart
inline Vec gen_query(pbt::Ctx& c, const Vec& z, const Vec* previous = nullptr, const std::function<bool(const Vec&)>* ok = nullptr)
{
    if (previous && c.chance(20)) // the same point, rounded or slightly moved
    {
        Vec x = *previous;
        const double parts = std::pow(10., double(c.in(1, 9)));
        const auto how = c.draw(4);
        for (auto& v : x)
        {
            const auto d = double(v);
            v = how == 0 ? std::floor(d * parts) / parts : how == 1 ? std::round(d * parts) / parts : how == 2 ? d * (1 + 1 / parts) : d + double(c.sym(2)) / parts;
        }
        return x;
    }
    if (ok && c.chance(25)) // a point next to the boundary, on either side
    {
        Vec d(z.size());
        for (auto& v : d) v = c.gauss();
        if (previous && (*ok)(*previous) && c.chance(50)) d = *previous;
        R lo = 0, hi = 8;
        auto at = [&](R s) {
            Vec y = z;
            for (size_t i = 0; i < y.size(); ++i) y[i] = double(y[i] + s * d[i]);
            return y;
        };
        if (!(*ok)(at(hi)))
        {
            for (int k = 0; k < 50; ++k) ((*ok)(at((lo + hi) / 2)) ? lo : hi) = (lo + hi) / 2;
            return at(lo + (c.chance(50) ? 1 : -1) * std::pow(R(10), R(-int(c.in(2, 8)))));
        }
    }
    Vec x = z;
    const double s = c.pick(DV {0., .01, .1, .3, 1., 3., 10.});
    for (auto& v : x) v = double(v + s * (c.chance(20) ? R(c.sym(2)) : R(c.gauss())));
    return x;
}
