// Small dense linear algebra in long double for the reference computations.
#pragma once
#include <algorithm>
#include <cmath>
#include <optional>
#include <vector>

namespace la
{
using R = long double;
using Vec = std::vector<R>;
struct Mat
{
    size_t r {}, c {};
    std::vector<R> a;
    Mat() = default;
    Mat(size_t r_, size_t c_) : r {r_}, c {c_}, a(r_ * c_, 0) {}
    R& operator()(size_t i, size_t j) { return a[i * c + j]; }
    R operator()(size_t i, size_t j) const { return a[i * c + j]; }
    static Mat eye(size_t n)
    {
        Mat m(n, n);
        for (size_t i = 0; i < n; ++i) m(i, i) = 1;
        return m;
    }
    R trace() const
    {
        R s = 0;
        for (size_t i = 0; i < r; ++i) s += (*this)(i, i);
        return s;
    }
    R maxabs() const
    {
        R s = 0;
        for (auto v : a) s = std::max(s, std::fabs(v));
        return s;
    }
};
inline R dot(const Vec& x, const Vec& y)
{
    R s = 0;
    for (size_t i = 0; i < x.size(); ++i) s += x[i] * y[i];
    return s;
}
inline R norm(const Vec& x) { return std::sqrt(dot(x, x)); }
inline Vec mul(const Mat& m, const Vec& x)
{
    Vec y(m.r, 0);
    for (size_t i = 0; i < m.r; ++i)
        for (size_t j = 0; j < m.c; ++j) y[i] += m(i, j) * x[j];
    return y;
}
inline Mat mul(const Mat& x, const Mat& y)
{
    Mat z(x.r, y.c);
    for (size_t i = 0; i < x.r; ++i)
        for (size_t k = 0; k < x.c; ++k)
            for (size_t j = 0; j < y.c; ++j) z(i, j) += x(i, k) * y(k, j);
    return z;
}
inline Mat tr(const Mat& x)
{
    Mat z(x.c, x.r);
    for (size_t i = 0; i < x.r; ++i)
        for (size_t j = 0; j < x.c; ++j) z(j, i) = x(i, j);
    return z;
}
inline R quad(const Mat& m, const Vec& x) { return dot(x, mul(m, x)); }
// lower Cholesky factor, if positive definite
inline std::optional<Mat> chol(const Mat& A)
{
    const auto n = A.r;
    Mat L(n, n);
    for (size_t j = 0; j < n; ++j)
    {
        R d = A(j, j);
        for (size_t k = 0; k < j; ++k) d -= L(j, k) * L(j, k);
        if (!(d > 0)) return {};
        L(j, j) = std::sqrt(d);
        for (size_t i = j + 1; i < n; ++i)
        {
            R s = A(i, j);
            for (size_t k = 0; k < j; ++k) s -= L(i, k) * L(j, k);
            L(i, j) = s / L(j, j);
        }
    }
    return L;
}
inline Vec fsub(const Mat& L, Vec b) // L x = b
{
    for (size_t i = 0; i < b.size(); ++i)
    {
        for (size_t k = 0; k < i; ++k) b[i] -= L(i, k) * b[k];
        b[i] /= L(i, i);
    }
    return b;
}
inline Vec bsub(const Mat& L, Vec b) // L' x = b
{
    for (size_t i = b.size(); i-- > 0;)
    {
        for (size_t k = i + 1; k < b.size(); ++k) b[i] -= L(k, i) * b[k];
        b[i] /= L(i, i);
    }
    return b;
}
// x' A^-1 x for A = L L'
inline R invquad(const Mat& L, const Vec& x)
{
    const auto y = fsub(L, x);
    return dot(y, y);
}
inline R logdet(const Mat& L)
{
    R s = 0;
    for (size_t i = 0; i < L.r; ++i) s += std::log(L(i, i));
    return 2 * s;
}
// eigenvalues of a symmetric matrix (cyclic Jacobi), ascending
inline Vec eig(Mat A)
{
    const auto n = A.r;
    for (int sweep = 0; sweep < 60; ++sweep)
    {
        R off = 0, all = 0;
        for (auto v : A.a) all += v * v;
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < i; ++j) off += A(i, j) * A(i, j);
        if (!(off > 1e-44L * all)) break;
        for (size_t p = 0; p < n; ++p)
            for (size_t q = p + 1; q < n; ++q)
            {
                if (A(p, q) == 0) continue;
                const R th = (A(q, q) - A(p, p)) / (2 * A(p, q));
                const R t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1));
                const R c = 1 / std::sqrt(t * t + 1), s = t * c;
                for (size_t k = 0; k < n; ++k)
                {
                    const R x = A(k, p), y = A(k, q);
                    A(k, p) = c * x - s * y;
                    A(k, q) = s * x + c * y;
                }
                for (size_t k = 0; k < n; ++k)
                {
                    const R x = A(p, k), y = A(q, k);
                    A(p, k) = c * x - s * y;
                    A(q, k) = s * x + c * y;
                }
            }
    }
    Vec e(n);
    for (size_t i = 0; i < n; ++i) e[i] = A(i, i);
    std::sort(e.begin(), e.end());
    return e;
}
inline R lambda_min(const Mat& A) { return A.r ? eig(A).front() : 0; }
inline R lambda_max(const Mat& A) { return A.r ? eig(A).back() : 0; }
} // namespace la
