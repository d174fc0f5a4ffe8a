// C24: correlation fitting - basis matrices, and optimality of the fits
// against every admissible point a local search finds.
#include "mats.hpp"
#include <tuple>

extern Arr create_2d_sites(size_t, size_t);
extern Arr create_2d_isotropic(const Arr&, size_t);
extern Arr construct_distance_matrix(const Arr&);
extern std::vector<Arr> construct_poly_matrix(const Arr&, size_t);
extern std::tuple<Arr, size_t, bool> lsq_corr_poly(const Arr&, const Arr&, size_t);
extern std::tuple<Arr, size_t, bool> lsq_corr_poly2(const Arr&, const Arr&, size_t);
extern std::tuple<Arr, size_t, bool> mle_corr_poly(const Arr&, const Arr&, size_t);

using pbt::str;

static Arr gen_sites(pbt::Ctx& c, size_t n, double size)
{
    const bool grid = c.chance(30);
    const size_t dim = c.chance(70) ? 2 : size_t(c.in(n > 6 ? 2 : 1, 4));
    std::vector<DV> s;
    for (size_t i = 0; i < n;)
    {
        DV p(dim);
        for (auto& v : p) v = grid ? double(c.in(0, 6)) * size / 6. : c.real(0., size);
        bool near = false;
        for (auto& q : s)
        {
            double d = 0;
            for (size_t k = 0; k < dim; ++k) d += (p[k] - q[k]) * (p[k] - q[k]);
            near = near || d < size * size / 400.;
        }
        if (near)
        {
            if (c.shm->n > 2000) c.discard();
            if (c.replay && c.shm->n > 300) c.discard();
            continue;
        }
        s.push_back(p);
        ++i;
    }
    Arr a = Arr::from_shape({n, dim});
    for (size_t i = 0; i < n; ++i)
        for (size_t k = 0; k < dim; ++k) a(i, k) = s[i][k];
    return a;
}
static std::vector<Mat> basis(const Arr& s, size_t m)
{
    const size_t n = s.shape()[0];
    std::vector<Mat> F(m, Mat(n, n));
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j)
        {
            R d = 0;
            for (size_t k = 0; k < s.shape()[1]; ++k) d += (R(s(i, k)) - R(s(j, k))) * (R(s(i, k)) - R(s(j, k)));
            d = std::sqrt(d);
            R v = 1;
            for (size_t k = 0; k < m; ++k, v *= d) F[k](i, j) = v;
        }
    return F;
}
static Mat comb(const std::vector<Mat>& F, const Vec& p)
{
    Mat S(F[0].r, F[0].c);
    for (size_t k = 0; k < F.size(); ++k)
        for (size_t i = 0; i < S.r * S.c; ++i) S.a[i] += F[k].a[i] * p[k];
    return S;
}
static Mat sub(const Mat& a, const Mat& b, R fa = 1)
{
    Mat d = a;
    for (size_t i = 0; i < d.a.size(); ++i) d.a[i] = fa * a.a[i] - b.a[i];
    return d;
}
static R specnorm(const Mat& a) // symmetric
{
    const auto e = la::eig(a);
    return std::max(std::fabs(e.front()), std::fabs(e.back()));
}
static Vec toVec(const Arr& a) { return Vec(a.begin(), a.end()); }
static std::string showv(const Vec& v)
{
    DV d(v.begin(), v.end());
    return show(d);
}

// ------------------------------------------------------------ basis matrices
PROP(matrices, 2500, 60000)
{
    const size_t n = size_t(c.many(1, 7, 30, 3)), m = size_t(c.many(1, 6, 14, 20));
    const auto s = gen_sites(c, n, c.pick(std::vector<double> {1., 4., 12.}));
    const auto D = construct_distance_matrix(s);
    const auto F = construct_poly_matrix(s, m);
    const auto B = basis(s, std::max<size_t>(m, 2));
    c.check(D.dimension() == 2 && D.shape()[0] == n && D.shape()[1] == n, "size of the distance matrix");
    c.check(F.size() == m, str(F.size(), " basis matrices instead of ", m));
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j)
        {
            c.check(std::fabs(D(i, j) - double(B[1](i, j))) <= 1e-13 * (1 + D(i, j)), str("distance (", i, ",", j, ") is ", D(i, j)));
            c.check(D(i, j) == D(j, i) && (i != j || D(i, j) == 0.), "a distance matrix is symmetric with zero diagonal");
            for (size_t k = 0; k < m; ++k)
                c.check(std::fabs(F[k](i, j) - double(B[k](i, j))) <= 1e-12 * (1 + std::fabs(double(B[k](i, j)))),
                    str("basis ", k, " (", i, ",", j, ") is ", F[k](i, j), ", should be ", double(B[k](i, j))));
        }
    if (n > 2 && m > 2) c.nontrivial();
}
PROP(sites, 300, 3000)
{
    const size_t nx = size_t(c.in(2, 12)), ny = size_t(c.in(2, 12));
    const auto s = create_2d_sites(nx, ny);
    c.check(s.dimension() == 2 && s.shape()[0] == nx * ny && s.shape()[1] == 2, "size of the site list");
    std::vector<char> seen(nx * ny, 0); // in whatever order
    for (size_t k = 0; k < nx * ny; ++k)
    {
        const double i = s(k, 0) / 10. * double(nx - 1), j = s(k, 1) / 8. * double(ny - 1);
        c.check(i > -0.5 && j > -0.5 && i < double(nx) - 0.5 && j < double(ny) - 0.5 && std::fabs(i - std::round(i)) < 1e-9 && std::fabs(j - std::round(j)) < 1e-9,
            str("site ", k, " at (", s(k, 0), ", ", s(k, 1), ") is not on the grid"));
        const size_t id = size_t(std::round(j)) * nx + size_t(std::round(i));
        c.check(!seen[id], str("two sites at (", s(k, 0), ", ", s(k, 1), ")"));
        seen[id] = 1;
    }
    if (nx != ny) c.nontrivial();
}
PROP(samples, 60, 600)
{
    const size_t n = size_t(c.in(1, 6));
    const size_t N = c.chance(50) ? size_t(c.in(1, 8)) : size_t(c.in(1500, 3000));
    const auto s = gen_sites(c, n, 8.);
    const auto Y = create_2d_isotropic(s, N);
    const auto Y2 = create_2d_isotropic(s, N);
    c.check(Y.shape()[0] == n && Y.shape()[1] == n && Y == Y2, "the sample covariance is reproducible");
    const auto B = basis(s, 2);
    const Mat M = toMat(Y);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j)
        {
            c.check(std::fabs(Y(i, j) - Y(j, i)) <= 1e-12 * (1 + std::fabs(Y(i, j))), "the sample covariance is symmetric");
            if (N < 1000) continue;
            const double rho = std::exp(-0.3 * double(B[1](i, j)));
            const double sd = 4. * std::sqrt((1. + rho * rho) / double(N));
            c.check(std::fabs(Y(i, j) - 4. * rho) < 7. * sd, str("covariance (", i, ",", j, ") is ", Y(i, j), ", expected about ", 4. * rho));
        }
    const auto e = la::eig(M);
    c.check(e.front() > -1e-10L * (1 + e.back()), str("the sample covariance has the eigenvalue ", double(e.front())));
    size_t rank = 0;
    for (R x : e) rank += x > 1e-9L * (1 + e.back());
    c.check(rank <= N, "the sample covariance of N samples has rank at most N");
    if (n > 1) c.nontrivial();
}

PROP(far_samples, 8, 60) // small covariances need many samples
{
    const size_t N = size_t(c.in(50000, 90000));
    Arr s = Arr::from_shape({2, 2});
    const double d = c.real(5., 14.), w = c.real(0., 1.5);
    s(0, 0) = c.num(3.);
    s(0, 1) = c.num(3.);
    s(1, 0) = s(0, 0) + d * std::cos(w);
    s(1, 1) = s(0, 1) + d * std::sin(w);
    const auto Y = create_2d_isotropic(s, N);
    const double rho = std::exp(-0.3 * d), sd = 4. * std::sqrt((1. + rho * rho) / double(N));
    c.note("distance ", d, " N=", N, " covariance ", Y(0, 1));
    c.check(std::fabs(Y(0, 1) - 4. * rho) < 6. * sd && Y(0, 1) == Y(1, 0), str("covariance is ", Y(0, 1), ", expected about ", 4. * rho));
    c.nontrivial();
}

// ------------------------------------------------------------ the fits
struct Fit
{
    std::vector<Mat> F;
    Mat Y;
    bool mle = false, pd = true; // pd: Sigma(p) must be positive definite
    Vec centre;
    R radius = 0;
    // admissible: how far inside; negative outside
    R inside(const Vec& p) const
    {
        if (!pd) return 1;
        const Mat S = comb(F, p);
        R l = la::lambda_min(S);
        if (mle) l = std::min(l, la::lambda_min(sub(Y, S, 2)));
        return l;
    }
    R value(const Vec& p) const
    {
        const Mat S = comb(F, p);
        if (!mle)
        {
            const R v = specnorm(sub(Y, S));
            return v * v;
        }
        const auto L = la::chol(S);
        if (!L) return 1e30L;
        R t = la::logdet(*L);
        for (size_t k = 0; k < Y.c; ++k)
        {
            Vec y(Y.r);
            for (size_t i = 0; i < Y.r; ++i) y[i] = Y(i, k);
            t += la::bsub(*L, la::fsub(*L, y))[k];
        }
        return t;
    }
    R away(const Vec& p) const
    {
        R s = 0;
        for (size_t i = 0; i < p.size(); ++i) s += (p[i] - centre[i]) * (p[i] - centre[i]);
        return std::sqrt(s);
    }
    R merit(const Vec& p) const // 1e30 outside
    {
        if (away(p) > 0.98L * radius || inside(p) <= 1e-6L) return 1e30L;
        return value(p);
    }
};

// the largest r (on a grid) such that f <= bound and the constraints hold on
// the cross-polytope of radius r around p: all of it then lies in the convex
// set of admissible points with value <= bound
template <typename OK> R reach(const Vec& p, OK ok)
{
    for (R r = 2; r > 1e-9L; r /= 1.5L)
    {
        bool all = true;
        for (size_t i = 0; i < p.size() && all; ++i)
            for (int s = -1; s <= 1 && all; s += 2)
            {
                Vec q = p;
                q[i] += R(s) * r;
                all = ok(q, r);
            }
        if (all) return r;
    }
    return 0;
}
static Vec search(pbt::Ctx& c, const Fit& f, Vec p, int rounds)
{
    R best = f.merit(p), step = 0.5L;
    for (int k = 0; k < rounds; ++k)
    {
        Vec q = p;
        if (c.draw(3) == 0) q[c.draw(p.size())] += (c.chance(50) ? 1 : -1) * step;
        else
            for (auto& x : q) x += step * R(c.gauss());
        const R v = f.merit(q);
        if (v < best) { best = v; p = q; step *= 1.7L; }
        else step = std::max<R>(step * 0.8L, 1e-7L);
    }
    return p;
}

struct Made
{
    Arr s;
    Fit f;
    Vec p0;
    bool exact = false;
};
static Made make(pbt::Ctx& c, bool mle, size_t m, double scale)
{
    Made r;
    const size_t n = c.chance(92) ? size_t(c.in(2, 6)) : size_t(c.in(7, 12));
    r.s = gen_sites(c, n, c.pick(std::vector<double> {1., 2.}));
    r.f.F = basis(r.s, m);
    r.f.mle = mle;
    r.p0.assign(m, 0);
    r.p0[0] = R(c.real(0.5, 6.) * scale);
    if (m > 1) r.p0[1] = -r.p0[0] * R(c.real(0.1, 0.5));
    for (size_t k = 2; k < m; ++k) r.p0[k] = R(c.sym(16)) / 64 * R(scale);
    r.exact = c.chance(30);
    Mat E = gen_sym(c, n, 1.);
    const R level = r.exact ? 0 : R(c.real(0., 0.5) * scale);
    const Mat S0 = comb(r.f.F, r.p0);
    r.f.Y = S0;
    for (size_t i = 0; i < E.a.size(); ++i) r.f.Y.a[i] = R(double(S0.a[i] + level * E.a[i]));
    c.note(n, " sites, ", m, " terms, p0 = ", showv(r.p0), ", Y = ", show(r.f.Y));
    return r;
}

template <typename Solve>
static void best_fit(pbt::Ctx& c, Made& P, size_t m, Solve solve)
{
    Fit& f = P.f;
    f.centre.assign(m, 0);
    f.centre[0] = 4;
    f.radius = f.mle ? std::sqrt(500.L) : 16;
    const R in0 = f.inside(P.p0);
    if (in0 < 0.02L || f.away(P.p0) > 0.9L * f.radius) c.discard();
    const auto [a, iters, ok] = solve(toArr(f.Y), P.s, m);
    c.note("result ", ok ? "feasible" : "infeasible", " after ", iters);
    const bool limit = iters >= 2000;
    if (limit) c.label("iteration limit");
    if (!ok)
    {
        // is there enough room for the search to be bound to find a point?
        R gmin = 1, np = std::max<R>(la::norm(P.p0), 1e-9L);
        gmin = std::min(gmin, in0 / np);
        if (f.mle) gmin = std::min(gmin, in0 / (2 * f.radius));
        const R r = reach(P.p0, [&](const Vec& q, R) { return f.away(q) < f.radius && f.inside(q) > 0; });
        if (!limit && r / std::sqrt(R(m + 1)) * gmin > 1.5e-4L)
            c.fail(str("reported infeasible although ", showv(P.p0), " is well inside (margin ", double(in0), ")"));
        c.label("infeasible, too little room to tell");
        return;
    }
    c.check(a.dimension() == 1 && a.size() == m, "number of coefficients");
    const Vec x = toVec(a);
    for (R v : x) c.check(std::isfinite(v), "a coefficient is not finite");
    const R in = f.inside(x), fx = f.value(x);
    c.note("a = ", show(toDV(a)), ", value ", double(fx), ", margin ", double(in));
    c.check(in > -1e-9L * (1 + specnorm(f.Y) + la::norm(x)), str("the result is not admissible: margin ", double(in)));
    if (limit) return;
    // any admissible point that is better by more than the tolerance?
    std::vector<Vec> cand {P.p0, search(c, f, P.p0, 60), search(c, f, f.merit(x) < 1e29L ? x : P.p0, 60)};
    const size_t base = cand.size();
    for (size_t i = 1; i < base; ++i)
        for (R th : {0.03L, 0.2L, 0.5L})
        {
            Vec q(m);
            for (size_t k = 0; k < m; ++k) q[k] = (1 - th) * cand[i][k] + th * P.p0[k];
            cand.push_back(q);
        }
    R worst = 0;
    for (auto& q : cand)
    {
        const R fq = f.merit(q), lam = f.inside(q);
        if (!(fq < fx)) continue;
        R r, gmin;
        if (f.mle)
        {
            // an objective cut ends the search within 1e-4 of the optimum
            if (fx - fq < 3e-4L) continue;
            r = reach(q, [&](const Vec& z, R) { return f.away(z) < f.radius && f.inside(z) > 0 && f.value(z) <= fx - 2e-4L; });
            gmin = std::min<R>(lam / std::max<R>(la::norm(q), 1e-9L), lam / (2 * f.radius));
            r /= std::sqrt(R(m));
        }
        else
        {
            r = reach(q, [&](const Vec& z, R rr) {
                return f.away(z) < f.radius && f.inside(z) > 0 && f.value(z) <= fx - rr && fq + 2 * rr <= fx;
            });
            gmin = std::min<R>(1, lam / std::max<R>(la::norm(q), 1e-9L));
            r /= std::sqrt(R(m + 1));
        }
        worst = std::max(worst, r * gmin);
        if (r * gmin > 1.5e-4L)
            c.fail(str("value ", double(fx), " at ", show(toDV(a)), ", but ", showv(q), " has ", double(fq), " and lies well inside"));
    }
    c.label(worst < 1e-6L ? "nothing better found" : worst < 1e-5L ? "better by a hair" : "better within the tolerance");
    if (P.exact && !f.mle) c.label(fx < 1e-3L ? "data recovered" : "data not recovered");
    if (m >= 2 && iters > 10) c.nontrivial();
}
PROP(least_squares_definite, 1500, 30000)
{
    const size_t m = size_t(c.in(2, 4));
    Made P = make(c, false, m, 1.);
    best_fit(c, P, m, [](const Arr& Y, const Arr& s, size_t k) { return lsq_corr_poly2(Y, s, k); });
}
PROP(maximum_likelihood, 1500, 30000)
{
    const size_t m = size_t(c.in(2, 4));
    Made P = make(c, true, m, 1.);
    best_fit(c, P, m, [](const Arr& Y, const Arr& s, size_t k) { return mle_corr_poly(Y, s, k); });
}
// one basis term: a multiple of the all-ones matrix is never definite
PROP(no_definite_fit, 60, 600)
{
    Made P = make(c, false, 1, 1.);
    const auto [a, iters, ok] = lsq_corr_poly2(toArr(P.f.Y), P.s, 1);
    c.check(!ok, "a singular fit was reported as positive definite");
    c.nontrivial();
}
PROP(least_squares, 800, 15000)
{
    const size_t m = size_t(c.in(2, 3)); // the ellipsoid needs two dimensions
    Made P = make(c, false, m, c.pick(std::vector<double> {0.12, 0.12, 0.12, 1., 4.}));
    Fit& f = P.f;
    if (specnorm(f.Y) > 90) c.discard(); // the search takes the squared norm up to 100^2
    f.pd = false;
    f.centre.assign(m, 0);
    f.radius = std::sqrt(10.L);
    // all centres the search can visit lie within R of each other
    Mat G(m, m);
    for (size_t i = 0; i < m; ++i)
        for (size_t j = 0; j < m; ++j) G(i, j) = la::dot(Vec(f.F[i].a.begin(), f.F[i].a.end()), Vec(f.F[j].a.begin(), f.F[j].a.end()));
    const R smin = std::sqrt(std::max<R>(la::lambda_min(G), 1e-18L) / R(f.Y.r));
    const R spread = 2 * specnorm(f.Y) / smin;
    const auto [a, iters, ok] = lsq_corr_poly(toArr(f.Y), P.s, m);
    c.note("result ", ok ? "feasible" : "infeasible", " after ", iters);
    c.check(ok, "no fit although zero coefficients are admissible");
    c.check(a.size() == m, "number of coefficients");
    const Vec x = toVec(a);
    const R fx = f.value(x);
    c.note("a = ", show(toDV(a)), ", value ", double(fx), ", spread ", double(spread));
    c.check(fx <= specnorm(f.Y) * specnorm(f.Y) * (1 + 1e-9L) + 1e-7L, "worse than zero coefficients");
    if (spread > 0.9L * f.radius)
    {
        c.label("spread too large to bound the search");
        return;
    }
    R worst = 0;
    std::vector<Vec> cand {P.p0, search(c, f, P.p0, 60), search(c, f, x, 60)};
    for (auto& q : cand)
    {
        const R t = fx - 1e-7L, fq = f.value(q);
        if (!(fq < t)) continue;
        const R tm = (fq + t) / 2;
        const R r = reach(q, [&](const Vec& z, R rr) { return la::norm(q) + rr + spread < f.radius && f.value(z) <= tm; }) / std::sqrt(R(m));
        const R w = r * (t - tm) / (2 * f.radius);
        worst = std::max(worst, w);
        if (w > 1.5e-4L) c.fail(str("value ", double(fx), " at ", show(toDV(a)), ", but ", showv(q), " has ", double(fq)));
    }
    c.label(worst < 1e-6L ? "nothing better found" : worst < 1e-5L ? "better by a hair" : "better within the tolerance");
    if (iters > 10) c.nontrivial();
}
