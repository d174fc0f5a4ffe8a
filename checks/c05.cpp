// C05: the LDLT-stored ellipsoid against exact updates of its own shape.
#include "ellref.hpp"
#include <ellcpp/ell_stable.hpp>

// The recorded defect, exactly: the factor L stays the identity, so the shape
// stays diagonal (P = kappa * diag(d)), and the back substitution that gives the
// step of the centre subtracts d_i q_i from q_{i-1}.
struct Faulty
{
    bool on = true; // this model has explained everything so far
    R kappa = 1;
    Vec d, x;
    Vec step; // magnitude of what the last step was summed from
    explicit Faulty(const Start& s) : d(s.n, 1), x(toV(s.x))
    {
        if (s.ball) kappa = s.alpha;
        else d = toV(s.val);
    }
    void update(const Cut& k, const Ans& a)
    {
        const auto n = d.size();
        const auto g = toV(k.g);
        Vec q(n), w(n);
        R omega = 0;
        for (size_t i = 0; i < n; ++i) { q[i] = d[i] * g[i]; w[i] = q[i] * g[i]; omega += w[i]; }
        step = Vec(n);
        for (size_t i = 0; i < n; ++i) step[i] = std::fabs(q[i]);
        for (size_t i = n - 1; i > 0; --i)
        {
            q[i - 1] -= d[i] * q[i];
            step[i - 1] += d[i] * step[i];
        }
        const R tau = std::sqrt(kappa * omega);
        for (auto& v : step) v *= std::fabs(a.rho) * tau / omega;
        for (size_t i = 0; i < n; ++i) x[i] -= a.rho * tau / omega * q[i];
        const R mu = a.sigma / (1 - a.sigma);
        R oldt = omega;
        for (size_t i = 0; i < n; ++i)
        {
            const R t = oldt + mu * w[i];
            d[i] *= oldt / t;
            oldt = t;
        }
        kappa *= a.delta;
    }
};
static R xdiff(const Vec& a, const DV& b, const Mat& P, const Vec& step = {})
{
    R m = 0;
    for (size_t i = 0; i < a.size(); ++i)
    {
        const R e = std::fabs(a[i] - b[i]) / (std::sqrt(P(i, i)) + 1e-9L * std::fabs(a[i]) + (step.empty() ? 0 : step[i]));
        if (!(e <= m)) m = e;
    }
    return m;
}
static R Pdiff(const Mat& A, const Mat& B)
{
    R m = 0;
    for (size_t i = 0; i < A.r; ++i)
        for (size_t j = 0; j < A.r; ++j)
        {
            const R e = std::fabs(A(i, j) - B(i, j)) / std::sqrt(std::fabs(A(i, i) * A(j, j)));
            if (!(e <= m)) m = e;
        }
    return m;
}

static void history(pbt::Ctx& c, int par_pct, int accepted_pct, int steps, bool first_axis)
{
    const auto s0 = gen_start(c, 6, 16, false); // in large units the recorded defect multiplies rounding
    c.note(s0.show());
    auto e = s0.make<ell_stable>();
    const bool usepar = !c.chance(15);
    e.use_parallel_cut = usepar;
    Faulty f(s0);
    const auto n = s0.n;
    const auto len = steps == 1 ? 1 : c.many(1, steps, 60, 4);
    int acc = 0, rej = 0;
    for (int i = 0; i < len; ++i)
    {
        State s;
        s.x = toV(toDV(e.xc()));
        s.P = shape(e, n);
        for (size_t j = 0; j < n; ++j)
            c.check(std::isfinite(double(s.x[j])) && std::isfinite(double(s.P(j, j))), "centre or shape not finite");
        if (cond(s.P) > 1e6L || too_small(s.x, s.P, 1e-6L)) { c.label("stopped: ill-conditioned"); break; }
        auto k = gen_cut(c, s.P, par_pct, c.chance(accepted_pct));
        if (first_axis) // where the recorded defect has no effect
        {
            const R t0 = std::sqrt(la::quad(s.P, toV(k.g)));
            k.g.assign(n, 0.);
            k.g[0] = (c.chance(50) ? -1. : 1.) * std::ldexp(c.real(1., 2.), int(c.sym(8)));
            const R f1 = std::sqrt(la::quad(s.P, toV(k.g))) / t0;
            k.b0 = double(k.b0 * f1);
            k.b1 = double(k.b1 * f1);
        }
        R tsq0;
        State t = s;
        const auto want = ref_update(t, k, tsq0, usepar);
        const auto before = fingerprint(e, n);
        auto twin = e.copy();
        const auto [st, tsq] = apply(e, k);
        const auto [st1, tsq1] = apply1(twin, k);
        c.note(show(k), " -> ", name(st), " tsq ", tsq);
        c.label(std::string(k.par ? "slab " : "single ") + name(st));
        c.check(st1 == st && tsq1 == tsq && same_bits(fingerprint(twin, n), fingerprint(e, n)),
            "number and one-element array, or a copy and its origin, differ");
        c.check(std::fabs(tsq - tsq0) <= 1e-8L * tsq0, pbt::str("tsq is ", tsq, ", should be ", double(tsq0)));
        if (want.margin > 1e-8L)
            c.check(st == want.st, pbt::str("status ", name(st), ", should be ", name(want.st), " for ", show(k)));
        if (st != CUTStatus::success)
        {
            c.check(same_bits(before, fingerprint(e, n)), "a rejected cut changed the ellipsoid");
            ++rej;
            continue;
        }
        if (want.st != CUTStatus::success) { c.label("stopped: boundary"); break; }
        ++acc;
        const auto x1 = toDV(e.xc());
        const auto P1 = shape(e, n);
        f.update(k, want);
        Mat Pf(n, n);
        for (size_t j = 0; j < n; ++j) Pf(j, j) = f.kappa * f.d[j];
        const R tol = 1e-7L;
        const bool xt = xdiff(t.x, x1, t.P) <= tol, Pt = Pdiff(t.P, P1) <= tol;
        const bool xf = f.on && xdiff(f.x, x1, t.P, f.step) <= tol, Pf_ = f.on && Pdiff(Pf, P1) <= tol;
        if (first_axis)
        {
            c.check(xt, "the centre differs from the plain ellipsoid's (cuts along the first axis only)");
            c.check(Pt, "the shape differs from the plain ellipsoid's (cuts along the first axis only)");
        }
        if (!xt)
        {
            c.check(xf, pbt::str("the centre is neither the plain ellipsoid's nor the one of the recorded defect after ", show(k)));
            c.known("ell-stable-centre", pbt::str("n=", n, " cut ", show(k)));
        }
        if (!Pt)
        {
            c.check(Pf_, pbt::str("the shape is neither the plain ellipsoid's nor the one of the recorded defect after ", show(k)));
            c.known("ell-stable-shape", pbt::str("n=", n, " cut ", show(k)));
        }
        if (!(xf && Pf_)) f.on = false;
        if (f.on) // no drift between model and object
        {
            f.x = toV(x1);
            for (size_t j = 0; j < n; ++j) f.d[j] = P1(j, j) / f.kappa;
        }
    }
    if (acc >= 1 && (acc + rej >= 2 || len == 1)) c.nontrivial();
}

PROP(first_cut, 5000, 60000) { history(c, 50, 70, 1, false); }
PROP(cut_histories, 4000, 60000) { history(c, 45, 75, 12, false); }
PROP(first_axis, 3000, 40000) { history(c, 50, 75, 10, true); }

// class boundaries that are exact in binary: alpha = 0, +-1/2, n a b = -1 ...
PROP(exact_boundaries, 2000, 20000)
{
    const auto n = size_t(c.in(2, 6));
    const double r = std::ldexp(1., int(c.sym(6)));
    Start s0;
    s0.n = n; s0.ball = true; s0.alpha = r * r; s0.x = DV(n, 0.);
    auto e = s0.make<ell_stable>();
    auto p = s0.make<ell>();
    Cut k;
    k.g = DV(n, 0.);
    k.g[0] = c.chance(50) ? 1. : -1.; // tau == r exactly
    k.par = c.chance(50);
    const DV as {0., .5, -.5, 1., -1., .25, -.25, -.125, 2., -2., 1. / double(n), -1. / double(n)};
    k.b0 = r * c.pick(as);
    k.b1 = r * c.pick(as);
    if (k.par && k.b0 == k.b1) c.discard(); // a slab of width zero
    if (k.b0 == r && !k.par) c.discard();   // a single point is left
    const auto [st, q] = apply(e, k);
    const auto [st0, q0] = apply(p, k);
    c.note("n=", n, " r=", r, " ", show(k), " -> ", name(st), " ", name(st0));
    c.check(st == st0 && q == q0, pbt::str("statuses or tsq of the two classes differ for ", show(k), ": ", name(st), " ", name(st0)));
    const auto x = toDV(e.xc()), y = toDV(p.xc());
    const auto P = shape(e, n), Q = shape(p, n);
    if (cond(Q) > 1e8L) { c.label("degenerate"); return; }
    c.check(xdiff(toV(y), x, Q) <= 1e-9L, pbt::str("centres differ for ", show(k)));
    c.check(Pdiff(Q, P) <= 1e-9L, pbt::str("shapes differ for ", show(k)));
    if (st == CUTStatus::success) c.nontrivial();
}
