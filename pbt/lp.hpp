// Small linear programs, solved by the simplex method on the dual (few rows,
// many columns); every answer comes with a certificate that is checked.
#pragma once
#include "la.hpp"
#include <optional>

namespace lp
{
using la::R;
using la::Vec;

struct Row
{
    Vec a;
    R b; // a'x <= b
};
struct Sol
{
    Vec x;
    R value;
};

// max c'x subject to the rows; the optimum must exist.  Nothing if the method
// breaks down numerically (the certificate does not check).
inline std::optional<Sol> maximize(const Vec& c, const std::vector<Row>& rows)
{
    // dual: min b'y, A'y = c, y >= 0
    const size_t k = c.size(), m = rows.size();
    const size_t W = m + k; // columns, artificial ones last
    std::vector<Vec> T(k, Vec(W + 1, 0)); // tableau B^-1 [A' I c]
    std::vector<size_t> base(k);
    std::vector<R> sgn(k, 1);
    for (size_t i = 0; i < k; ++i)
    {
        sgn[i] = c[i] < 0 ? -1 : 1;
        for (size_t j = 0; j < m; ++j) T[i][j] = sgn[i] * rows[j].a[i];
        T[i][m + i] = 1;
        T[i][W] = sgn[i] * c[i];
        base[i] = m + i;
    }
    auto run = [&](const std::vector<R>& cost, size_t cols) -> bool {
        for (int it = 0; it < 4000; ++it)
        {
            size_t in = cols;
            R best = -1e-12L;
            for (size_t j = 0; j < cols; ++j)
            {
                R d = cost[j];
                for (size_t i = 0; i < k; ++i) d -= cost[base[i]] * T[i][j];
                if (it > 300 ? (d < -1e-12L && in == cols) : d < best) { best = d; in = j; }
            }
            if (in == cols) return true;
            size_t out = k;
            R ratio = 0;
            for (size_t i = 0; i < k; ++i)
                if (T[i][in] > 1e-11L)
                {
                    const R q = T[i][W] / T[i][in];
                    if (out == k || q < ratio - 1e-15L || (q <= ratio + 1e-15L && (it > 300 ? base[i] < base[out] : T[i][in] > T[out][in])))
                    {
                        out = i;
                        ratio = q;
                    }
                }
            if (out == k) return false; // dual unbounded
            const R p = T[out][in];
            for (auto& v : T[out]) v /= p;
            for (size_t i = 0; i < k; ++i)
                if (i != out && T[i][in] != 0)
                {
                    const R f = T[i][in];
                    for (size_t j = 0; j <= W; ++j) T[i][j] -= f * T[out][j];
                }
            base[out] = in;
        }
        return false;
    };
    std::vector<R> c1(W, 0), c2(W, 0);
    for (size_t j = m; j < W; ++j) c1[j] = 1;
    if (!run(c1, W)) return {};
    R infeas = 0;
    for (size_t i = 0; i < k; ++i) if (base[i] >= m) infeas += T[i][W];
    if (infeas > 1e-10L) return {};
    for (size_t j = 0; j < m; ++j) c2[j] = rows[j].b;
    for (size_t j = m; j < W; ++j) c2[j] = 1e9L; // keeps left-over artificials at zero
    if (!run(c2, m)) return {};
    // multipliers: x_i = cost_B' B^-1 e_i, read off the artificial columns
    Sol s {Vec(k, 0), 0};
    for (size_t i = 0; i < k; ++i)
    {
        for (size_t r = 0; r < k; ++r) s.x[i] += c2[base[r]] * T[r][m + i];
        s.x[i] *= sgn[i];
    }
    // certificates: x feasible, y feasible, equal values
    R size = 1;
    for (auto v : s.x) size = std::max(size, std::fabs(v));
    if (size > 1e7L) return {};
    for (auto& r : rows)
        if (la::dot(r.a, s.x) > r.b + 1e-10L * size * (1 + la::norm(r.a))) return {};
    Vec y(m, 0);
    for (size_t i = 0; i < k; ++i)
    {
        if (base[i] < m) y[base[i]] = T[i][W];
        if (T[i][W] < -1e-10L) return {};
    }
    R dual = 0;
    Vec back(k, 0);
    for (size_t j = 0; j < m; ++j)
    {
        dual += rows[j].b * y[j];
        for (size_t i = 0; i < k; ++i) back[i] += y[j] * rows[j].a[i];
    }
    for (size_t i = 0; i < k; ++i) if (std::fabs(back[i] - c[i]) > 1e-9L * (1 + std::fabs(c[i]))) return {};
    s.value = la::dot(c, s.x);
    if (std::fabs(dual - s.value) > 1e-9L * (1 + std::fabs(dual))) return {};
    return s;
}
}
