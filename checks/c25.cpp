// C25: filter design end to end, against linear programming.
#include "lp.hpp"
#include "ellref.hpp"
#include "mats.hpp"
#include <ellcpp/cutting_plane.hpp>
#include <ellcpp/ell.hpp>
#include <ellcpp/oracles/lowpass_oracle.hpp>

using pbt::str;
struct Design
{
    size_t n = 0;
    std::vector<Vec> P, S, N;
    R L = 0, U = 0;
    // all constraints on (r, extra); extra is the level (ball = false) or the radius of an inscribed ball
    std::vector<lp::Row> rows(bool ball, R level) const
    {
        std::vector<lp::Row> out;
        auto add = [&](const Vec& a, R sign, R b, R lv) {
            lp::Row r {Vec(n + 1, 0), b};
            for (size_t i = 0; i < n; ++i) r.a[i] = sign * a[i];
            r.a[n] = ball ? la::norm(a) : lv;
            out.push_back(r);
        };
        for (auto& a : P) { add(a, 1, U, 0); add(a, -1, -L, 0); }
        for (auto& a : S)
        {
            add(a, 1, ball ? level : R(0), -1);
            add(a, -1, 0, 0);
        }
        for (auto& a : N) add(a, -1, 0, 0);
        Vec e(n, 0);
        e[0] = 1;
        add(e, -1, 0, 0);
        return out;
    }
    std::optional<R> optimum() const
    {
        Vec c(n + 1, 0);
        c[n] = -1;
        const auto s = lp::maximize(c, rows(false, 0));
        if (!s) return {};
        return -s->value;
    }
    // the largest ball of designs within the level, its centre and radius
    std::optional<lp::Sol> inner(R level) const
    {
        Vec c(n + 1, 0);
        c[n] = 1;
        return lp::maximize(c, rows(true, level));
    }
};
static Arr arr(const std::vector<Vec>& r, size_t n)
{
    Arr a = Arr::from_shape({r.size(), n});
    for (size_t i = 0; i < r.size(); ++i)
        for (size_t j = 0; j < n; ++j) a(i, j) = double(r[i][j]);
    return a;
}

static void design(pbt::Ctx& c, size_t max_n, int dens)
{
    Design d;
    d.n = size_t(c.in(2, int64_t(max_n)));
    const size_t m = d.n * size_t(c.in(3, dens));
    const double pi = std::acos(-1.);
    const double wp = c.real(0.05, 0.6) * pi, ws = std::min(0.97 * pi, wp + c.real(0.02, 0.4) * pi);
    for (size_t i = 0; i < m; ++i)
    {
        const double w = pi * double(i) / double(m - 1);
        Vec a(d.n, 1);
        for (size_t k = 1; k < d.n; ++k) a[k] = R(2. * std::cos(double(k) * w));
        (w <= wp ? d.P : w >= ws ? d.S : d.N).push_back(a);
    }
    if (d.P.empty() || d.S.empty()) c.discard();
    const double ripple = c.real(0.02, 0.5), gain = c.chance(30) ? c.pick(std::vector<double> {0.01, 0.1, 4., 25.}) : 1.;
    d.L = R(gain / ((1 + ripple) * (1 + ripple)));
    d.U = R(gain * (1 + ripple) * (1 + ripple));
    const auto best = d.optimum();
    if (!best) { c.label("no reference"); c.discard(); }
    const int how = int(c.draw(4));
    double start = 1e100;
    if (how == 1) start = double(*best) * c.real(1.05, 3.) + 1e-3 * gain;
    if (how == 2) start = double(d.U);
    if (how == 3 && *best > 1e-6L * R(gain)) start = double(*best) * c.real(0., 0.95); // out of reach
    const double tol = c.pick(std::vector<double> {1e-8, 1e-8, 1e-6, 1e-10});
    const double R2 = 4. * double(d.U * d.U) * double(d.n) * c.pick(std::vector<double> {1., 4., 25.}) + 0.1;
    c.note(d.n, " coefficients, ", d.P.size(), "+", d.N.size(), "+", d.S.size(), " frequencies, pass ", double(d.L), "..", double(d.U),
        ", best level ", double(*best), ", start level ", start, ", tolerance ", tol, ", radius^2 ", R2);
    const Arr Ap = arr(d.P, d.n), As = arr(d.S, d.n), An = arr(d.N, d.n);
    for (int par = 0; par < 2; ++par)
    {
        Arr r0 = xt::zeros<double>({d.n});
        ell E(R2, r0);
        E.use_parallel_cut = par == 1;
        lowpass_oracle O(Ap, As, An, double(d.L), double(d.U));
        Options opt;
        opt.max_it = 20000;
        opt.tol = tol;
        double t = start;
        Wear wear;
        auto om = [&](const Arr& r, double& tt) {
            if (wear(E, d.n, 2 * std::sqrt(double(d.n)), tol)) { c.label("worn out"); c.discard(); }
            return O(r, tt);
        };
        const auto [x, info] = cutting_plane_dc(om, E, t, opt);
        const char* mode = par ? "with parallel cuts: " : "without parallel cuts: ";
        c.note(mode, info.feasible ? "level " : "infeasible ", t, " after ", info.num_iters, ", status ", int(info.status));
        const bool limit = info.num_iters >= opt.max_it;
        if (limit) c.label("iteration limit");
        R level = R(start);
        if (info.feasible)
        {
            c.check(x.dimension() == 1 && x.size() == d.n, str(mode, "size of the design"));
            const Vec r = Vec(x.begin(), x.end());
            R size = 0;
            for (R v : r) size += 2 * std::fabs(v);
            const R eps = 1e-12L * (1 + size);
            R top = -1;
            c.check(r[0] >= 0, str(mode, "r[0] is negative"));
            for (auto& a : d.P) { const R v = la::dot(a, r); c.check(v <= d.U + eps && v >= d.L - eps, str(mode, "pass band violated: ", double(v))); }
            for (auto& a : d.N) c.check(la::dot(a, r) >= -eps, str(mode, "negative response"));
            for (auto& a : d.S)
            {
                const R v = la::dot(a, r);
                c.check(v >= -eps, str(mode, "negative response in the stop band"));
                top = std::max(top, v);
            }
            c.check(std::fabs(top - R(t)) <= eps, str(mode, "reported level ", t, ", the design has ", double(top)));
            c.check(R(t) <= R(start) && R(t) >= *best - 1e-7L * (1 + size), str(mode, "level ", t, " is below the optimum"));
            c.check(start == 1e100 || R(start) > 0.97L * *best, "solved although out of reach");
            level = R(t);
        }
        else
            c.check(t == start, str(mode, "level changed but reported infeasible"));
        if (!limit && R(start) > 0.97L * *best)
        {
            const auto in = d.inner(std::min<R>(level, 100 * d.U));
            if (!in) { c.label("no reference ball"); continue; }
            const R rho = in->x[d.n];
            Vec ctr(in->x.begin(), in->x.end() - 1);
            // tsq is rounded at the scale of the longest axis the ellipsoid had
            const R long2 = std::max(R(R2), la::lambda_max(shape(E, d.n))), a2 = 4 * R(d.n);
            const R thin = 1.5L * std::sqrt(R(tol) + 5e-14L * long2 * a2) + 1e-9L;
            if (rho > thin)
            {
                // the ball must also lie in the initial one
                const R Rad = std::sqrt(R(R2));
                if (la::norm(ctr) + thin > Rad)
                {
                    c.label("reference outside the initial ball");
                    continue;
                }
                c.fail(str(mode, info.feasible ? "stopped at level " : "found nothing at level ", double(level), " although designs within ", double(rho), " of ",
                    show(DV(ctr.begin(), ctr.end())), " are better"));
            }
            c.label(info.feasible ? "optimal" : "too thin to find");
        }
        if (info.num_iters > 5 && d.n > 2) c.nontrivial();
    }
}
PROP(small_designs, 12000, 300000) { design(c, 5, 8); }
PROP(larger_designs, 3000, 60000) { design(c, 9, 12); }
