// C12: LDLT factorisation.
#include "mats.hpp"
#include <ellcpp/oracles/ldlt_ext.hpp>

// A = L D L' in integers (L unit lower triangular, D powers of two up to the
// first non-positive entry), so that every quotient and product is exact
struct Exact
{
    Mat A, L;
    Vec D;
    size_t stop = 0; // 1 + index of the first non-positive pivot, 0 if none
};
static Exact gen_exact(pbt::Ctx& c, size_t n, int bad_pct, bool psd)
{
    Exact e;
    e.L = Mat::eye(n);
    const bool blocks = psd && c.chance(60); // zero pivots end a diagonal block
    size_t begin = 0;
    for (size_t i = 0; i < n; ++i)
    {
        R d = std::ldexp(R(1), int(c.in(0, 4)) * (c.chance(80) ? 1 : -1));
        if (c.chance(bad_pct)) d = psd || c.chance(40) ? 0 : -std::ldexp(R(c.in(1, 7)), int(c.sym(3)));
        e.D.push_back(d);
        for (size_t j = begin; j < i; ++j) e.L(i, j) = R(c.sym(3));
        if (d <= 0 && !e.stop) e.stop = i + 1;
        if (d == 0 && blocks) begin = i + 1;
    }
    e.A = Mat(n, n);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j)
            for (size_t k = 0; k <= std::min(i, j); ++k) e.A(i, j) += e.L(i, k) * e.D[k] * e.L(j, k);
    return e;
}
static R quad_block(const Mat& A, const ldlt_ext& Q)
{
    const auto [a, b] = Q.p;
    R s = 0;
    for (size_t i = a; i < b; ++i)
        for (size_t j = a; j < b; ++j) s += A(i, j) * Q.v(i) * Q.v(j);
    return s;
}
static R abs_block(const Mat& A, const ldlt_ext& Q)
{
    const auto [a, b] = Q.p;
    R s = 0;
    for (size_t i = a; i < b; ++i)
        for (size_t j = a; j < b; ++j) s += std::fabs(A(i, j) * Q.v(i) * Q.v(j));
    return s;
}
static void check_root(pbt::Ctx& c, ldlt_ext& Q, const Mat& A, R tol)
{
    const auto n = A.r;
    const auto Ra = Q.sqrt();
    const auto Rm = toMat(Ra);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < i; ++j) c.check(Rm(i, j) == 0, "the square root is not upper triangular");
    const auto B = la::mul(la::tr(Rm), Rm);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j)
            c.check(std::fabs(B(i, j) - A(i, j)) <= tol * std::sqrt(std::fabs(A(i, i) * A(j, j))), pbt::str("R'R differs from A at ", i, ",", j));
}
static void check_sym_quad(pbt::Ctx& c, const ldlt_ext& Q, size_t n)
{
    const auto B = gen_sym(c, n, 4.);
    const double q = Q.sym_quad(toArr(B));
    const R want = quad_block(B, Q);
    c.check(std::fabs(q - want) <= 1e-11L * (abs_block(B, Q) + 1e-300L), pbt::str("v'Bv is ", double(want), " but sym_quad gives ", q));
}
// runs one matrix through an object, checks what it says about it
struct Seen
{
    bool spd;
    std::pair<size_t, size_t> p;
    double ep = 0;
    DV v;
    bool operator==(const Seen& o) const { return spd == o.spd && p == o.p && (spd || (ep == o.ep && v == o.v)); }
};
static Seen summary(ldlt_ext& Q, bool spd)
{
    Seen s {spd, Q.p};
    if (!spd)
    {
        s.ep = Q.witness();
        for (size_t i = Q.p.first; i < Q.p.second; ++i) s.v.push_back(Q.v(i));
    }
    return s;
}
static Seen lazy(pbt::Ctx& c, ldlt_ext& Q, const Mat& A)
{
    size_t maxrow = 0;
    const auto n = A.r;
    const bool ok = Q.factor([&](size_t i, size_t j) -> double {
        c.check(i < n && j <= i, pbt::str("asked for entry ", i, ",", j, " above the diagonal or outside the matrix"));
        maxrow = std::max(maxrow, i);
        return double(A(i, j)); });
    if (!ok) c.check(maxrow < Q.p.second, pbt::str("asked for row ", maxrow, " although the block ends at ", Q.p.second));
    c.check(ok == Q.is_spd(), "is_spd() does not repeat the verdict");
    return summary(Q, ok);
}
static Seen dense(pbt::Ctx& c, ldlt_ext& Q, const Mat& A)
{
    auto a = toArr(A);
    for (size_t i = 0; i < A.r; ++i)
        for (size_t j = i + 1; j < A.r; ++j) a(i, j) = NAN; // not needed
    const bool ok = Q.factorize(a);
    c.check(ok == Q.is_spd(), "is_spd() does not repeat the verdict");
    return summary(Q, ok);
}
static void verify(pbt::Ctx& c, ldlt_ext& Q, const Mat& A, const Seen& s, bool exact)
{
    if (s.spd) return;
    c.check(s.p.first == 0 && s.p.second >= 1 && s.p.second <= A.r, "wrong block");
    const R q = quad_block(A, Q), m = abs_block(A, Q);
    c.check(std::fabs(q + s.ep) <= (exact ? 0.L : 1e-7L * m), pbt::str("v'Av is ", double(q), " but witness() returned ", s.ep));
    c.check(s.ep >= 0, pbt::str("witness() returned ", s.ep, ", not a violation"));
    bool nz = false;
    for (auto v : s.v) nz |= v != 0 && std::isfinite(v);
    c.check(nz, "the witness vector is zero");
}

PROP(exact, 60000, 500000)
{
    const auto n = size_t(c.many(1, 10, 40, 3));
    ldlt_ext Q(n), Z(n);
    const auto len = c.many(1, 5, 20, 3);
    int spd = 0, not_ = 0;
    for (int k = 0; k < len; ++k)
    {
        const auto e = gen_exact(c, n, c.chance(30) ? 0 : 15, false);
        const bool use_lazy = c.chance(50);
        c.note("A=", show(e.A), " pivots ", show(DV(e.D.begin(), e.D.end())), use_lazy ? " lazy" : " dense");
        const auto s = use_lazy ? lazy(c, Q, e.A) : dense(c, Q, e.A);
        c.note("  -> ", s.spd ? "positive definite" : "not", " block ", s.p.first, "..", s.p.second, " ", s.ep);
        c.check(s.spd == (e.stop == 0), e.stop ? "accepted a matrix that is not positive definite" : "rejected a positive definite matrix");
        if (e.stop)
        {
            c.check(s.p.second == e.stop, pbt::str("stopped at ", s.p.second, ", the first non-positive leading minor is ", e.stop));
            c.check(R(s.ep) == -e.D[e.stop - 1], pbt::str("returned ", s.ep, ", the pivot is ", double(e.D[e.stop - 1])));
        }
        verify(c, Q, e.A, s, n <= 10); // the witness grows like 4^n
        if (!s.spd) { check_sym_quad(c, Q, n); ++not_; }
        else { check_root(c, Q, e.A, 1e-12L); ++spd; }
        // the same by the other route, and with a fresh object
        ldlt_ext F(n);
        c.check((use_lazy ? dense(c, F, e.A) : lazy(c, F, e.A)) == s, "lazy and dense factorisation, or a fresh and a used object, differ");
        if (c.chance(20))
        {
            ldlt_ext M(std::move(F));
            c.check(M.is_spd() == s.spd, "a moved object lost its verdict");
        }
    }
    if (n >= 2 && (spd + not_ >= 2)) c.nontrivial();
    c.label(spd && not_ ? "both verdicts" : spd ? "positive definite" : "not positive definite");
}
PROP(real, 40000, 300000)
{
    const auto n = size_t(c.many(1, 9, 36, 3));
    ldlt_ext Q(n);
    const auto len = c.many(1, 4, 20, 3);
    int did = 0;
    for (int k = 0; k < len; ++k)
    {
        Mat A = gen_sym(c, n, 3.);
        switch (c.draw(4))
        {
            case 0: break; // most are indefinite
            case 1: // a shifted one around the boundary of definiteness
            {
                const R l = la::lambda_min(A), s = la::lambda_max(A) - l + 1;
                const R d = (c.chance(50) ? 1 : -1) * s * R(c.pick(DV {1e-3, 1e-2, .1, .5}));
                for (size_t i = 0; i < n; ++i) A(i, i) = double(A(i, i) - l + d);
                break;
            }
            default: // Gram matrix
            {
                Mat B(n + 1, n);
                for (auto& v : B.a) v = c.num(2.);
                A = la::mul(la::tr(B), B);
                for (auto& v : A.a) v = double(v);
            }
        }
        if (c.chance(30)) // badly scaled
        {
            DV s(n);
            for (auto& v : s) v = std::ldexp(1., int(c.sym(20)));
            for (size_t i = 0; i < n; ++i)
                for (size_t j = 0; j < n; ++j) A(i, j) *= R(s[i]) * s[j];
        }
        // reference pivots
        Mat T(n, n);
        Vec D(n);
        size_t stop = 0;
        bool clear = true;
        for (size_t i = 0; i < n && !stop && clear; ++i)
        {
            for (size_t j = 0; j <= i; ++j)
            {
                R d = A(i, j);
                for (size_t q = 0; q < j; ++q) d -= T(i, q) * T(j, q) * D[q];
                if (j < i) T(i, j) = d / D[j];
                else D[i] = d;
            }
            R sc = std::fabs(A(i, i));
            for (size_t q = 0; q < i; ++q) sc += std::fabs(T(i, q) * T(i, q) * D[q]);
            if (std::fabs(D[i]) <= 1e-6L * sc) clear = false;
            if (D[i] <= 0) stop = i + 1;
        }
        c.note("A=", show(A));
        const auto s = c.chance(50) ? lazy(c, Q, A) : dense(c, Q, A);
        if (!clear) { c.label("too close to call"); continue; }
        ++did;
        c.check(s.spd == (stop == 0), stop ? "accepted a matrix that is not positive definite" : "rejected a positive definite matrix");
        if (stop) c.check(s.p.second == stop, pbt::str("stopped at ", s.p.second, ", the first non-positive leading minor is ", stop));
        verify(c, Q, A, s, false);
        if (!s.spd) check_sym_quad(c, Q, n);
        else check_root(c, Q, A, 1e-9L);
        c.label(s.spd ? "positive definite" : "not positive definite");
    }
    if (n >= 2 && did) c.nontrivial();
}
// semidefinite mode; used alternately with the strict one on one object
PROP(semidefinite, 60000, 500000)
{
    const auto n = size_t(c.many(1, 8, 32, 3));
    ldlt_ext Q(n);
    const auto len = c.many(1, 4, 20, 3);
    bool zero = false;
    for (int k = 0; k < len; ++k)
    {
        const bool psd = c.chance(70);
        const auto e = gen_exact(c, n, 25, psd);
        // pivots with a restart behind each zero pivot, in long double
        bool clear = true, rejects = false, zeros = false;
        {
            size_t start = 0;
            Mat T(n, n);
            Vec D(n);
            for (size_t i = 0; i < n && !rejects; ++i)
            {
                R sc = std::fabs(e.A(i, i));
                for (size_t j = start; j <= i; ++j)
                {
                    R d = e.A(i, j);
                    for (size_t q = start; q < j; ++q) d -= T(i, q) * T(j, q) * D[q];
                    if (j < i) { T(i, j) = d / D[j]; sc += std::fabs(T(i, j) * d); }
                    else D[i] = d;
                }
                if (D[i] != 0 && std::fabs(D[i]) <= 1e-6L * sc) clear = false;
                if (D[i] == 0) // must be exact in double, too
                    for (size_t q = start; q < i; ++q)
                    {
                        int ex;
                        if (std::frexp(std::fabs(D[q]), &ex) != .5L) clear = false;
                    }
                if (D[i] < 0) rejects = true;
                if (D[i] == 0) { start = i + 1; zeros = true; }
            }
        }
        c.note("A=", show(e.A), psd ? " semidefinite" : "");
        if (c.chance(30)) // a strict run in between
        {
            const auto s = lazy(c, Q, e.A);
            c.check(s.spd == (e.stop == 0), "wrong verdict of the strict mode");
        }
        auto get = [&](size_t i, size_t j) -> double {
            c.check(i < n && j < n, "asked for an entry outside the matrix");
            c.check(j <= i || (zeros && j == i + 1), "asked for an entry above the diagonal");
            return double(e.A(i, j)); };
        const bool ok = Q.factor<decltype(get)&, true>(get);
        c.note("  -> ", ok);
        if (!clear) { c.label("too close to call"); continue; }
        c.label(ok ? "accepted" : "rejected");
        if (psd) c.check(ok, "rejected a positive semidefinite matrix");
        if (!ok)
        {
            const auto s = summary(Q, false);
            const R q = quad_block(e.A, Q);
            c.check(q < 0 && std::fabs(q + s.ep) <= 1e-9L * abs_block(e.A, Q), pbt::str("v'Av is ", double(q), ", witness() returned ", s.ep));
            check_sym_quad(c, Q, n);
        }
        else if (!zeros) c.check(!rejects, "accepted an indefinite matrix");
        zero |= zeros;
    }
    if (n >= 2 && zero) c.nontrivial();
}
