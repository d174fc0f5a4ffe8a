// C07: the feasibility loop.
#include "loops.hpp"

struct Query
{
    Point x;
    std::optional<long> cut;
};
PROP(scripted, 300000, 4000000)
{
    const auto opt = gen_options(c);
    const bool dflt = c.chance(10);
    const Options used = dflt ? Options() : opt;
    std::vector<Upd> upd;
    std::vector<Query> qs;
    const int stop = opt.max_it > 100 ? 20 : int(c.in(0, 12));
    const int accept = opt.max_it > 100 ? 10 : int(c.in(0, 12));
    Space s {&c, {0, 7}, used.tol, dflt ? 20 : stop, 0, used.max_it, &upd};
    auto oracle = [&](const Point& x) -> std::optional<long> {
        if (qs.size() > size_t(used.max_it) + 4) c.fail("the loop goes on after its iteration limit");
        std::optional<long> r;
        if (!c.chance(dflt ? 15 : accept)) r = long(qs.size()) * 10 + long(c.draw(10));
        qs.push_back({x, r});
        return r;
    };
    const auto info = dflt ? cutting_plane_feas(oracle, s) : cutting_plane_feas(oracle, s, opt);
    c.note("max_it=", used.max_it, " tol=", used.tol, " -> feasible=", info.feasible, " iterations=", info.num_iters,
        " status=", name(info.status), " queries=", qs.size(), " updates=", upd.size());
    for (size_t i = 0; i < qs.size(); ++i)
    {
        c.note("  query at ", qs[i].x.id, qs[i].cut ? " cut " : " accepted", qs[i].cut.value_or(0));
        if (i < upd.size()) c.note("  update by ", upd[i].cut, " -> ", name(upd[i].st), " tsq=", upd[i].tsq);
    }
    // the documented loop over the recorded answers
    bool feas = false, ended = false;
    CUTStatus st = CUTStatus::success;
    size_t i = 0;
    for (; i < qs.size(); ++i)
    {
        c.check(!ended, "the oracle was queried after the search should have ended");
        c.check(qs[i].x.id == long(i), "the oracle was not queried at the space's current centre");
        if (!qs[i].cut)
        {
            feas = ended = true;
            c.check(upd.size() == i, "the space was cut although the oracle accepted the point");
            continue;
        }
        c.check(i < upd.size(), "a cut was not applied");
        c.check(upd[i].cut == *qs[i].cut, "the space got another cut than the oracle gave");
        if (upd[i].st != CUTStatus::success) { st = upd[i].st; ended = true; }
        else if (upd[i].tsq < used.tol) { st = CUTStatus::smallenough; ended = true; }
    }
    c.check(upd.size() == i - (feas ? 1 : 0), "the space was updated without a cut of its own");
    c.check(info.feasible == feas, feas ? "a point was accepted but the search is reported infeasible" : "reported feasible without an accepted point");
    c.check(info.status == st, pbt::str("status is ", name(info.status), ", should be ", name(st)));
    if (ended) c.check(info.num_iters == qs.size(), pbt::str("iteration count is ", info.num_iters, " after ", qs.size(), " queries"));
    else
    {
        c.check(info.num_iters == used.max_it, pbt::str("iteration count is ", info.num_iters, ", the limit is ", used.max_it));
        c.check(qs.size() <= used.max_it && qs.size() + 1 >= used.max_it, pbt::str(qs.size(), " queries for a limit of ", used.max_it));
    }
    if (feas) c.check(s.xc() == qs.back().x, "the space no longer has the accepted point as its centre");
    c.label(feas ? "accepted" : ended ? name(st) : "limit");
    if (!qs.empty() && (qs.size() >= 2 || ended)) c.nontrivial();
}

// with the real ellipsoid: the loop written out by hand, bit by bit
struct Lin
{
    std::vector<DV> A;
    DV b;
    std::vector<int> kind; // slab if 1
    size_t at = 0;
    bool arr = false;
    std::optional<Cut> find(const DV& x)
    {
        for (size_t k = 0; k < A.size(); ++k)
        {
            at = (at + 1) % A.size();
            double f = -b[at];
            for (size_t i = 0; i < x.size(); ++i) f += A[at][i] * x[i];
            if (f > 0.) { Cut q; q.g = A[at]; q.b0 = f; q.par = kind[at]; q.b1 = f + 1.; return q; }
        }
        return {};
    }
};
PROP(real_space, 3000, 40000)
{
    const auto s0 = gen_start(c, 5, 8);
    Lin L;
    const auto m = size_t(c.in(1, 8));
    const bool par = c.chance(50);
    for (size_t k = 0; k < m; ++k)
    {
        DV a(s0.n);
        for (auto& v : a) v = c.num(3.);
        if (std::all_of(a.begin(), a.end(), [](double v) { return v == 0.; })) a[0] = 1.;
        double at = 0;
        for (size_t i = 0; i < s0.n; ++i) at += a[i] * s0.x[i];
        L.A.push_back(a);
        L.b.push_back(at + c.real(-1.5, .6) * (s0.ball ? std::sqrt(s0.alpha) : 1.));
        L.kind.push_back(par);
    }
    Options o;
    o.max_it = unsigned(c.in(1, 60));
    o.tol = 1e-6;
    auto e1 = s0.make<ell>(), e2 = s0.make<ell>();
    Lin L1 = L, L2 = L;
    CInfo info {};
    if (par)
    {
        auto om = [&](const Arr& x) -> std::optional<std::tuple<Arr, Arr>> {
            const auto k = L1.find(toDV(x));
            if (!k) return {};
            return std::make_tuple(toArr(k->g), two(k->b0, k->b1));
        };
        info = cutting_plane_feas(om, e1, o);
    }
    else
    {
        auto om = [&](const Arr& x) -> std::optional<std::tuple<Arr, double>> {
            const auto k = L1.find(toDV(x));
            if (!k) return {};
            return std::make_tuple(toArr(k->g), k->b0);
        };
        info = cutting_plane_feas(om, e1, o);
    }
    bool feas = false;
    CUTStatus st = CUTStatus::success;
    size_t n = 0;
    for (unsigned it = 1;; ++it)
    {
        n = it;
        if (it == o.max_it) break;
        const auto k = L2.find(toDV(e2.xc()));
        if (!k) { feas = true; break; }
        const auto [s, q] = apply(e2, *k);
        if (s != CUTStatus::success) { st = s; break; }
        if (q < o.tol) { st = CUTStatus::smallenough; break; }
    }
    c.note(s0.show(), " m=", m, " -> ", feas, " ", n, " ", name(st));
    c.check(info.feasible == feas && info.num_iters == n && info.status == st,
        pbt::str("loop result ", info.feasible, "/", info.num_iters, "/", name(info.status), ", by hand ", feas, "/", n, "/", name(st)));
    c.check(same_bits(fingerprint(e1, s0.n), fingerprint(e2, s0.n)), "the space differs from the one cut by hand");
    c.label(feas ? "accepted" : name(st));
    if (n >= 2) c.nontrivial();
}

PROP(long_runs, 2500, 30000)
{
    const auto l = gen_long(c, 3);
    LongSpace s {&c, &l};
    Options o;
    o.max_it = unsigned(l.limit);
    o.tol = 1.;
    uint64_t n = 0;
    bool yes = false;
    auto oracle = [&](const Point& x) -> std::optional<long> {
        if (yes) c.fail("the oracle was queried again after it accepted");
        if (x.id != long(n)) c.fail("the oracle was not queried at the space's current centre");
        if (n++ == l.end && l.kind == 0) { yes = true; return {}; }
        return long(n) + 4;
    };
    const auto info = cutting_plane_feas(oracle, s, o);
    long_end(c, l, info, n, yes || s.over);
    c.check(info.feasible == yes, "feasible is not reported as 'a point was accepted'");
    if (!yes && !s.over) c.check(info.status == CUTStatus::success, "a status without its event");
}
