// C04: equivalent descriptions give the same ellipsoid.
#include "ellref.hpp"

// compares two objects whose coordinates are related by x2 = M x1 + t, with M
// a scaled permutation: x2[p[i]] = d[i] * x1[i] + t[i]
struct Map
{
    std::vector<size_t> p;
    DV d, t;
};
static void agree(pbt::Ctx& c, const ell& e1, const ell& e2, const Map& m, R tol, const std::string& what)
{
    const auto n = m.p.size();
    const auto x1 = toDV(e1.xc()), x2 = toDV(e2.xc());
    const auto P1 = shape(e1, n), P2 = shape(e2, n);
    for (size_t i = 0; i < n; ++i)
    {
        const R want = R(m.d[i]) * x1[i] + m.t[i];
        const R s = std::sqrt(P2(m.p[i], m.p[i])) + R(1e-3) * std::fabs(want);
        if (!(std::fabs(want - x2[m.p[i]]) <= tol * s))
            c.fail(pbt::str("centres differ (", what, "): ", double(want), " and ", x2[m.p[i]], " in coordinate ", i));
        for (size_t j = 0; j <= i; ++j)
        {
            const R w = P1(i, j) * m.d[i] * m.d[j];
            const R sc = std::sqrt(P2(m.p[i], m.p[i]) * P2(m.p[j], m.p[j]));
            if (!(std::fabs(w - P2(m.p[i], m.p[j])) <= tol * sc))
                c.fail(pbt::str("shapes differ (", what, "): ", double(w), " and ", double(P2(m.p[i], m.p[j])), " at ", i, ",", j));
        }
    }
}
static Map identity(size_t n)
{
    Map m;
    for (size_t i = 0; i < n; ++i) m.p.push_back(i);
    m.d = DV(n, 1.);
    m.t = DV(n, 0.);
    return m;
}

static void lockstep(pbt::Ctx& c, int mode, int steps)
{
    const auto s0 = gen_start(c, 7);
    const auto n = s0.n;
    auto e1 = s0.make<ell>();
    auto m = identity(n);
    std::string what;
    Start s1 = s0;
    if (mode == 0)
    {
        what = "ball by radius and by diagonal";
        s1.ball = !s0.ball;
        if (s0.ball) s1.val = DV(n, s0.alpha);
        else
        {
            what = "same diagonal";
            s1.ball = false;
        }
    }
    if (mode == 4)
    {
        what = "scaled, permuted and translated coordinates";
        for (size_t i = n; i-- > 1;) std::swap(m.p[i], m.p[c.draw(i + 1)]);
        for (auto& v : m.d) v = (c.chance(30) ? -1. : 1.) * std::ldexp(c.real(1., 2.), int(c.sym(3)));
        for (auto& v : m.t) v = c.num(8.);
        s1.ball = false;
        s1.val = DV(n);
        for (size_t i = 0; i < n; ++i)
        {
            s1.val[m.p[i]] = (s0.ball ? s0.alpha : s0.val[i]) * m.d[i] * m.d[i];
            s1.x[m.p[i]] = m.d[i] * s0.x[i] + m.t[i];
        }
    }
    auto e2 = s1.make<ell>();
    if (mode == 1) { what = "deferred scaling on and off"; e2.no_defer_trick = true; }
    if (mode == 5) { what = "parallel cuts off"; e2.use_parallel_cut = false; }
    c.note("mode: ", what, " ", s0.show());
    const auto len = steps == 1 ? 1 : c.many(1, steps, 60, 4);
    int acc = 0, used = 0;
    for (int i = 0; i < len; ++i)
    {
        State s;
        s.x = Vec(n, 0);
        s.P = shape(e1, n);
        if (cond(s.P) > 1e5L || too_small(toV(toDV(e1.xc())), s.P, 1e-6L) || too_small(toV(toDV(e2.xc())), shape(e2, n), 1e-6L)) { c.label("stopped: ill-conditioned"); break; }
        auto k = gen_cut(c, s.P, mode == 2 ? 20 : 50, c.chance(70));
        R t;
        const R tau = std::sqrt(la::quad(s.P, toV(k.g)));
        Cut k1 = k, k2 = k;
        if (mode == 3)
        {
            what = "positive multiple of the cut";
            const double f = c.chance(50) ? std::ldexp(1., int(c.sym(30))) : c.real(.01, 30.);
            for (auto& v : k2.g) v *= f;
            k2.b0 *= f;
            k2.b1 *= f;
            ++used;
        }
        if (mode == 4)
        {
            for (size_t j = 0; j < n; ++j) k2.g[m.p[j]] = k.g[j] / m.d[j];
            ++used;
        }
        if (mode == 5)
        {
            // single cut == slab with parallel cuts off == slab with a far plane outside
            k1.par = c.chance(40);
            if (k1.par) k1.b1 = double(tau) * c.real(1.02, 4.);
            k2.par = true;
            if (c.chance(50)) k2.b1 = double(tau) * c.real(-1.5, 1.5);
            ++used;
        }
        if (mode == 6)
        {
            what = "slab written from its other side";
            if (k.par && std::fabs(k.b0) < .999 * double(tau) && std::fabs(k.b1) < .999 * double(tau))
            {
                for (auto& v : k2.g) v = -v;
                k2.b0 = -k.b1;
                k2.b1 = -k.b0;
                ++used;
            }
        }
        if (mode == 0 || mode == 1 || mode == 2) ++used;
        // stay off the class boundaries: the two sides may round differently
        State tmp = s;
        const auto ans = ref_update(tmp, k1, t, e1.use_parallel_cut);
        if (ans.margin < 1e-9L) { c.label("skipped: boundary"); continue; }
        if (mode == 2) what = "number and one-element array";
        const auto [st1, q1] = apply(e1, k1);
        const auto [st2, q2] = mode == 2 ? apply1(e2, k2) : apply(e2, k2);
        c.note(show(k1), " | ", show(k2), " -> ", name(st1), " ", name(st2));
        c.check(st1 == st2, pbt::str("statuses differ (", what, "): ", name(st1), " and ", name(st2), " for ", show(k1), " | ", show(k2)));
        if (mode != 3)
            c.check(std::fabs(q1 - q2) <= 1e-7 * std::fabs(q1), pbt::str("tsq differ (", what, "): ", q1, " and ", q2));
        if (mode == 2 && st1 == CUTStatus::success)
            c.check(same_bits(fingerprint(e1, n), fingerprint(e2, n)), "scalar and one-element cut differ");
        agree(c, e1, e2, m, 1e-6, what);
        if (st1 == CUTStatus::success) ++acc;
        c.label(std::string(k1.par ? "slab " : "single ") + name(st1));
    }
    if (acc >= 1 && used >= 1) c.nontrivial();
}

PROP(radius_or_diagonal, 2000, 20000) { lockstep(c, 0, 12); }
PROP(deferred_scaling, 3000, 30000) { lockstep(c, 1, 15); }
PROP(scalar_or_array, 2000, 20000) { lockstep(c, 2, 12); }
PROP(scaled_cut, 2500, 25000) { lockstep(c, 3, 12); }
PROP(change_of_coordinates, 3000, 30000) { lockstep(c, 4, 12); }
PROP(parallel_off, 2500, 25000) { lockstep(c, 5, 12); }
PROP(other_side, 2500, 25000) { lockstep(c, 6, 12); }

// copies are independent, moved objects keep their value, set_xc moves only the centre
PROP(copies, 2500, 25000)
{
    const auto s0 = gen_start(c, 6);
    const auto n = s0.n;
    auto e = s0.make<ell>();
    e.no_defer_trick = c.chance(30);
    c.note(s0.show());
    const auto len = c.in(1, 10);
    int did = 0;
    for (int i = 0; i < len; ++i)
    {
        const auto P = shape(e, n);
        if (cond(P) > 1e6L) break;
        const auto k = gen_cut(c, P, 50, true);
        const auto f0 = fingerprint(e, n);
        switch (c.draw(4))
        {
            case 0:
            {
                c.note("copy, then ", show(k), " on the copy");
                auto d = e.copy();
                c.check(same_bits(fingerprint(d, n), f0), "a copy differs from its origin");
                c.check(d.no_defer_trick == e.no_defer_trick && d.use_parallel_cut == e.use_parallel_cut, "a copy lost an option");
                apply(d, k);
                DV y(n, 3.);
                d.set_xc(toArr(y));
                c.check(same_bits(fingerprint(e, n), f0), "updating a copy changed its origin");
                ++did;
                break;
            }
            case 1:
            {
                c.note("copy, then ", show(k), " on the origin");
                const auto d = e.copy();
                apply(e, k);
                c.check(same_bits(fingerprint(d, n), f0), "updating the origin changed a copy");
                ++did;
                break;
            }
            case 2:
            {
                DV y(n);
                for (auto& v : y) v = c.num(5.);
                c.note("set_xc ", y);
                auto x = e.xc();
                x(0) += 1.; // a returned centre is a copy
                c.check(same_bits(fingerprint(e, n), f0), "changing the array returned by xc() changed the ellipsoid");
                e.set_xc(toArr(y));
                auto f1 = fingerprint(e, n);
                c.check(same_bits(DV(f1.begin(), f1.begin() + long(n)), y), "set_xc did not set the centre");
                c.check(same_bits(DV(f1.begin() + long(n), f1.end()), DV(f0.begin() + long(n), f0.end())), "set_xc changed the shape");
                ++did;
                break;
            }
            default:
            {
                c.note("move, then ", show(k));
                auto d = ell(std::move(e));
                c.check(same_bits(fingerprint(d, n), f0), "a moved ellipsoid differs from its origin");
                apply(d, k);
                const auto nd = d.copy();
                // continue with the moved object by restarting from it
                new (&e) ell(nd.copy());
                break;
            }
        }
    }
    if (did >= 2) c.nontrivial();
}
