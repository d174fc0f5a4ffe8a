// C09: the discrete optimisation loop.
#include "loops.hpp"

template <typename T>
struct Query
{
    Point x, x0;
    T seen, left;
    long cut;
    bool retry, shrunk, more;
};
template <typename T>
static void scripted(pbt::Ctx& c)
{
    const auto opt = gen_options(c);
    const bool dflt = c.chance(10);
    const Options used = dflt ? Options() : opt;
    std::vector<Upd> upd;
    std::vector<Query<T>> qs;
    const int stop = used.max_it > 100 ? 20 : int(c.in(0, 12));
    const int improve = int(c.in(0, 60)), more = int(c.in(30, 98));
    Space s {&c, {0, 7}, used.tol, stop, int(c.in(0, 60)), used.max_it, &upd};
    const T t0 = T(c.sym(100));
    T t = t0;
    auto oracle = [&](const Point& x, T& tt, bool retry) -> std::tuple<long, Point, bool, bool> {
        if (qs.size() > size_t(used.max_it) + 4) c.fail("the loop goes on after its iteration limit");
        Query<T> q {x, Point {x.id, 5000 + long(qs.size())}, tt, tt, long(qs.size()) * 10 + long(c.draw(10)), retry, c.chance(improve), c.chance(more)};
        if (q.shrunk) tt = c.chance(10) ? t0 : T(tt - T(c.in(1, 5)));
        q.left = tt;
        qs.push_back(q);
        return {q.cut, q.x0, q.shrunk, q.more};
    };
    const auto [xb, info] = dflt ? cutting_plane_q(oracle, s, t) : cutting_plane_q(oracle, s, t, opt);
    c.note("max_it=", used.max_it, " tol=", used.tol, " -> feasible=", info.feasible, " iterations=", info.num_iters,
        " status=", name(info.status), " queries=", qs.size(), " updates=", upd.size(), " t: ", t0, " to ", t);
    for (size_t i = 0; i < qs.size() && i < 60; ++i)
    {
        c.note("  query at ", qs[i].x.id, " t=", qs[i].seen, qs[i].retry ? " retry" : "", " -> cut ", qs[i].cut, qs[i].shrunk ? " improved to " : " ", qs[i].left, qs[i].more ? "" : " (no alternative left)");
        if (i < upd.size()) c.note("  update by ", upd[i].cut, " -> ", name(upd[i].st), " tsq=", upd[i].tsq);
    }
    bool any = false, retried = false;
    enum { RUN, NOSOLN, SMALL, EXHAUSTED } end = RUN;
    Point best;
    T cur = t0;
    long at = 0; // accepted cuts so far
    for (size_t i = 0; i < qs.size(); ++i)
    {
        c.check(end == RUN, "the oracle was queried after the search should have ended");
        c.check(qs[i].x.id == at, "the oracle was not queried at the space's current centre");
        c.check(qs[i].seen == cur, "the oracle was not given the best value so far");
        const bool want = i > 0 && upd[i - 1].st == CUTStatus::noeffect;
        c.check(qs[i].retry == want, want ? "no alternative was asked for after a cut without effect" : "an alternative was asked for although the last cut had an effect");
        retried |= want;
        cur = qs[i].left;
        if (qs[i].shrunk) { best = qs[i].x0; any = true; }
        c.check(i < upd.size(), "a cut was not applied");
        c.check(upd[i].cut == qs[i].cut, "the space got another cut than the oracle gave");
        if (upd[i].st == CUTStatus::success) ++at;
        if (upd[i].st == CUTStatus::noeffect && !qs[i].more) end = EXHAUSTED;
        else if (upd[i].st == CUTStatus::nosoln) end = NOSOLN;
        else if (upd[i].tsq < used.tol) end = SMALL;
    }
    c.check(upd.size() == qs.size(), "the space was updated without a cut of its own");
    c.check(t == cur, pbt::str("the best value is ", t, ", the oracle last set it to ", cur));
    c.check(info.feasible == (t != t0), "feasible is not reported as 'the best value changed'");
    if (any) c.check(xb == best, pbt::str("the best point is that of query ", xb.tag - 5000, ", the last improvement was ", best.tag - 5000));
    if (end == SMALL) c.check(info.status == CUTStatus::smallenough, pbt::str("status is ", name(info.status), ", should be smallenough"));
    else c.check(info.status != CUTStatus::smallenough, "reported small enough although tsq was not below the tolerance");
    if (end == NOSOLN) c.check(info.status == CUTStatus::nosoln, pbt::str("status is ", name(info.status), ", should be nosoln"));
    if (end != RUN) c.check(info.num_iters == qs.size(), pbt::str("iteration count is ", info.num_iters, " after ", qs.size(), " queries"));
    else
    {
        c.check(info.num_iters == used.max_it, pbt::str("iteration count is ", info.num_iters, ", the limit is ", used.max_it));
        c.check(qs.size() <= used.max_it && qs.size() + 1 >= used.max_it, pbt::str(qs.size(), " queries for a limit of ", used.max_it));
    }
    c.label(end == RUN ? "limit" : end == NOSOLN ? "nosoln" : end == SMALL ? "smallenough" : "alternatives exhausted");
    if (retried) c.label("with retry");
    if (retried && any) c.nontrivial();
}
PROP(scripted_real, 300000, 3000000) { scripted<double>(c); }
PROP(scripted_integer, 200000, 2000000) { scripted<long>(c); }

PROP(long_runs, 2500, 30000)
{
    auto l = gen_long(c, 2);
    ++l.kind;
    LongSpace s {&c, &l};
    s.skip = true;
    std::vector<uint64_t> gains;
    for (int k = int(c.in(0, 4)); k > 0; --k) gains.push_back(c.chance(50) ? gen_count(c) : c.draw(std::min(l.limit, l.end) + 1));
    Options o;
    o.max_it = unsigned(l.limit);
    o.tol = 1.;
    uint64_t n = 0;
    long at = 0;
    double t = 1e6, cur = t;
    Point best;
    auto oracle = [&](const Point& x, double& tt, bool retry) -> std::tuple<long, Point, bool, bool> {
        const bool want = n > 0 && s.listed(n - 1) && n - 1 != l.end;
        if (retry != want) c.fail(want ? "no alternative was asked for after a cut without effect" : "an alternative was asked for although the last cut had an effect");
        if (n > 0 && !want) ++at;
        if (x.id != at) c.fail("the oracle was not queried at the space's current centre");
        if (tt != cur) c.fail("the oracle was not given the best value so far");
        const bool better = std::find(gains.begin(), gains.end(), n) != gains.end();
        const Point x0 {x.id, 5000 + long(n)};
        ++n;
        if (better) { tt -= 1.; cur = tt; best = x0; }
        return {long(n) + 4, x0, better, true};
    };
    const auto [xb, info] = cutting_plane_q(oracle, s, t, o);
    long_end(c, l, info, n, s.over);
    c.check(t == cur, "the best value is not the one the oracle set last");
    c.check(info.feasible == (t != 1e6), "feasible is not reported as 'the best value changed'");
    if (info.feasible) c.check(xb == best, pbt::str("the best point is that of query ", xb.tag - 5000, ", the last improvement was ", best.tag - 5000));
    if (!s.over) c.check(info.status != CUTStatus::smallenough, "a status without its event");
}
