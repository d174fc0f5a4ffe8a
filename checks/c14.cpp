// C14: the quadratic matrix inequality oracle.
#include "mats.hpp"
#include <ellcpp/oracles/qmi_oracle.hpp>

using Cut = std::tuple<Arr, double>;
static void history(pbt::Ctx& c, size_t rows, size_t cols, size_t n, bool thin = false)
{
    std::vector<Mat> F;
    std::vector<Arr> Fa;
    Vec z;
    // thin: columns that hardly meet, some of them small
    DV scale(cols, 1.);
    if (thin) for (auto& v : scale) v = c.pick(DV {1e-3, .1, 1., 1., 3.});
    auto thinned = [&](Mat& M) {
        if (!thin) return;
        for (size_t i = 0; i < rows; ++i)
            for (size_t j = 0; j < cols; ++j) M(i, j) = i % cols == j || c.chance(6) ? double(M(i, j) * scale[j]) : 0.;
    };
    Mat F0(rows, cols);
    for (auto& v : F0.a) v = c.num(1.);
    thinned(F0);
    for (size_t k = 0; k < n; ++k)
    {
        Mat M(rows, cols);
        for (auto& v : M.a) v = c.num(3.);
        thinned(M);
        if (!thin && rows == cols && c.chance(20)) // symmetric
            for (size_t i = 0; i < rows; ++i)
                for (size_t j = 0; j < i; ++j) M(i, j) = M(j, i);
        z.push_back(c.num(2.));
        for (size_t i = 0; i < M.a.size(); ++i) F0.a[i] += z[k] * M.a[i];
        F.push_back(M);
        Fa.push_back(toArr(M));
    }
    for (auto& v : F0.a) v = double(v);
    c.note("F0=", show(F0));
    for (auto& M : F) c.note("F=", show(M));
    auto Fat = [&](const Vec& x) {
        Mat A = F0;
        for (size_t k = 0; k < n; ++k)
            for (size_t i = 0; i < A.a.size(); ++i) A.a[i] -= x[k] * F[k].a[i];
        return A;
    };
    auto at = [&](const Vec& x, R t) { // t I - F'F
        const auto M = Fat(x);
        auto A = la::mul(la::tr(M), M);
        for (auto& v : A.a) v = -v;
        for (size_t i = 0; i < cols; ++i) A(i, i) += t;
        return A;
    };
    const R base = -la::lambda_min(at(z, 0)); // largest eigenvalue of F(z)'F(z)
    qmi_oracle Q(Fa, toArr(F0));
    double t = 0;
    const auto len = c.many(1, 8, 40, 3);
    bool hard = false, moved = false;
    int acc = 0;
    Vec last;
    const bool eager = c.chance(50); // fresh objects in between or at the end
    struct Asked { DV x; double t; bool cut; DV g; double b; };
    std::vector<Asked> past;
    auto again = [&](const Asked& a) {
        qmi_oracle fresh(Fa, toArr(F0));
        fresh.update(a.t);
        const auto q = fresh(toArr(a.x));
        c.check(bool(q) == a.cut, pbt::str("a fresh oracle answers differently at ", show(a.x)));
        if (q) c.check(toDV(std::get<0>(*q)) == a.g && std::get<1>(*q) == a.b, pbt::str("a fresh oracle gives another cut at ", show(a.x)));
    };
    for (int i = 0; i < len; ++i)
    {
        if (i == 0 ? c.chance(95) : c.chance(40))
        {
            t = double(base * R(c.pick(DV {.5, 1.2, 2., 5.})) + c.real(0., 3.));
            if (c.chance(8)) t = -t; // no point has such a level
            Q.update(t);
            c.note("t=", t);
            moved |= i > 0;
        }
        Vec x = z;
        if (c.chance(40)) // next to the last one, or next to the boundary
        {
            const std::function<bool(const Vec&)> inside = [&](const Vec& y) { return bool(la::chol(at(y, t))); };
            x = gen_query(c, z, last.empty() ? nullptr : &last, &inside);
        }
        else
        {
            const double s = c.pick(DV {0., .05, .3, 1., 3.});
            for (auto& v : x) v = double(v + s * R(c.gauss()));
        }
        last = x;
        const DV xd(x.begin(), x.end());
        const auto k = Q(toArr(xd));
        DV g;
        double b = 0;
        if (k) { g = toDV(std::get<0>(*k)); b = std::get<1>(*k); }
        c.note("x=", show(xd), k ? pbt::str(" -> cut g=", show(g), " beta=", b) : " -> no cut");
        past.push_back({xd, t, bool(k), g, b});
        if (eager) again(past.back());
        const auto A = at(x, t);
        R sc = std::fabs(R(t)) + 1e-300L;
        for (size_t j = 0; j < cols; ++j) sc = std::max(sc, std::fabs(R(t) - A(j, j)));
        const R l = la::lambda_min(A) / sc;
        if (std::fabs(l) > 1e-8L)
            c.check(bool(k) == (l < 0), l < 0 ? "no cut although t I - F'F is not positive definite" : "a cut although t I - F'F is positive definite");
        if (!k) { ++acc; continue; }
        if (!clear_pivots(A) || std::fabs(l) < 1e-8L) continue;
        c.check(g.size() == n, "wrong size of the gradient");
        c.check(std::isfinite(b) && b >= 0, pbt::str("offset ", b, " is negative"));
        auto ok = [&](const Vec& y) { return bool(la::chol(at(y, t))); };
        // a start that is feasible for this t, if z is not
        std::vector<Vec> starts {z};
        for (int q = 0; q < 3; ++q)
        {
            Vec y = z;
            for (auto& v : y) v += .3L * R(c.gauss());
            starts.push_back(y);
        }
        const auto [v, y] = attack(c, x, g, b, starts, ok, 6);
        if (v > 1e-8L) c.fail(pbt::str("the cut removes the feasible point ", show(DV(y.begin(), y.end())), " (by ", double(v), " relative)"));
        if (std::isfinite(double(v))) hard = true;
        else c.label("no feasible point known");
    }
    if (!eager)
        for (auto& a : past) again(a);
    c.label(rows == cols ? "square" : rows > cols ? "tall" : "wide");
    if (moved) c.label("t changed between queries");
    if (acc) c.label("with accepted points");
    if (hard && cols >= 2) c.nontrivial();
}
PROP(queries, 10000, 100000)
{
    const auto rows = size_t(c.many(1, 5, 12)), cols = size_t(c.many(1, 5, 12)), n = size_t(c.many(1, 4, 12));
    history(c, rows, cols, n);
}
PROP(larger, 800, 15000)
{
    const auto rows = size_t(c.in(5, 14)), cols = size_t(c.in(6, 14)), n = size_t(c.in(1, 6));
    history(c, rows, cols, n);
}
PROP(thin, 2000, 30000)
{
    const auto rows = size_t(c.in(3, 14)), cols = size_t(c.in(3, 14)), n = size_t(c.in(1, 6));
    history(c, rows, cols, n, true);
}
// the gradient at the query: f(x) = largest violation seen by the cut is exact
PROP(tangent, 20000, 200000)
{
    // one column: t - |f(x)|^2, where the cut is determined: g = -2 F'f, beta = |f|^2 - t
    const auto rows = size_t(c.many(1, 5, 12)), n = size_t(c.many(1, 4, 12));
    std::vector<Arr> Fa;
    std::vector<DV> F;
    DV f(rows), x(n);
    for (auto& v : f) v = c.num(3.);
    Arr F0 = Arr::from_shape({rows, 1});
    for (size_t i = 0; i < rows; ++i) F0(i, 0) = f[i];
    for (size_t k = 0; k < n; ++k)
    {
        DV m(rows);
        Arr a = Arr::from_shape({rows, 1});
        for (size_t i = 0; i < rows; ++i) a(i, 0) = m[i] = c.num(3.);
        Fa.push_back(a);
        F.push_back(m);
        x[k] = c.num(2.);
        for (size_t i = 0; i < rows; ++i) f[i] -= m[i] * x[k];
    }
    double s = 0;
    for (auto v : f) s += v * v;
    if (s < 1e-6) c.discard();
    const double t = s * c.real(0., 1.6);
    qmi_oracle Q(Fa, F0);
    Q.update(t);
    const auto k = Q(toArr(x));
    c.note("rows ", rows, " n ", n, " |f|^2=", s, " t=", t, k ? " cut" : " no cut");
    if (std::fabs(t - s) > 1e-9 * s) c.check(bool(k) == (s > t), "wrong verdict");
    if (!k || std::fabs(t - s) <= 1e-9 * s) return;
    const auto g = toDV(std::get<0>(*k));
    // any positive multiple of the cut is as good
    const double b = std::get<1>(*k);
    DV want(n);
    double gn = 0, wn = 0;
    for (size_t j = 0; j < n; ++j)
    {
        for (size_t i = 0; i < rows; ++i) want[j] -= 2 * F[j][i] * f[i];
        gn += g[j] * g[j];
        wn += want[j] * want[j];
    }
    const double sc = wn > 0 ? std::sqrt(gn / wn) : b / (s - t);
    c.check(sc > 0 && std::isfinite(sc), "the gradient vanishes");
    for (size_t j = 0; j < n; ++j)
        c.check(std::fabs(g[j] - sc * want[j]) <= 1e-8 * (std::sqrt(gn) + 1e-12), pbt::str("gradient ", j, " is ", g[j], ", should be ", sc * want[j]));
    c.check(std::fabs(b - sc * (s - t)) <= 1e-8 * sc * (s + t), pbt::str("offset ", b, ", should be ", sc * (s - t)));
    if (rows >= 2) c.nontrivial();
}
