// C08: the optimisation loop.
#include "loops.hpp"

template <typename T>
struct Query
{
    Point x;
    T seen, left;
    long cut;
    bool shrunk;
};
template <typename T>
static void scripted(pbt::Ctx& c)
{
    const auto opt = gen_options(c);
    const bool dflt = c.chance(10);
    const Options used = dflt ? Options() : opt;
    std::vector<Upd> upd;
    std::vector<Query<T>> qs;
    const int stop = used.max_it > 100 ? 20 : int(c.in(0, 12));
    const int improve = int(c.in(0, 60));
    Space s {&c, {0, 7}, used.tol, stop, 0, used.max_it, &upd};
    const T t0 = T(c.sym(100));
    T t = t0;
    auto oracle = [&](const Point& x, T& tt) -> std::tuple<long, bool> {
        if (qs.size() > size_t(used.max_it) + 4) c.fail("the loop goes on after its iteration limit");
        Query<T> q {x, tt, tt, long(qs.size()) * 10 + long(c.draw(10)), c.chance(improve)};
        if (q.shrunk) tt = c.chance(10) ? t0 : T(tt - T(c.in(1, 5)));
        q.left = tt;
        qs.push_back(q);
        return {q.cut, q.shrunk};
    };
    const auto [xb, info] = dflt ? cutting_plane_dc(oracle, s, t) : cutting_plane_dc(oracle, s, t, opt);
    c.note("max_it=", used.max_it, " tol=", used.tol, " -> feasible=", info.feasible, " iterations=", info.num_iters,
        " status=", name(info.status), " queries=", qs.size(), " updates=", upd.size(), " t: ", t0, " to ", t);
    for (size_t i = 0; i < qs.size() && i < 60; ++i)
    {
        c.note("  query at ", qs[i].x.id, " t=", qs[i].seen, " -> cut ", qs[i].cut, qs[i].shrunk ? " improved to " : " ", qs[i].left);
        if (i < upd.size()) c.note("  update by ", upd[i].cut, " -> ", name(upd[i].st), " tsq=", upd[i].tsq);
    }
    bool ended = false, any = false;
    Point best;
    T cur = t0;
    CUTStatus st = CUTStatus::success;
    for (size_t i = 0; i < qs.size(); ++i)
    {
        c.check(!ended, "the oracle was queried after the search should have ended");
        c.check(qs[i].x.id == long(i), "the oracle was not queried at the space's current centre");
        c.check(qs[i].seen == cur, "the oracle was not given the best value so far");
        cur = qs[i].left;
        if (qs[i].shrunk) { best = qs[i].x; any = true; }
        c.check(i < upd.size(), "a cut was not applied");
        c.check(upd[i].cut == qs[i].cut, "the space got another cut than the oracle gave");
        if (upd[i].st != CUTStatus::success) { st = upd[i].st; ended = true; }
        else if (upd[i].tsq < used.tol) { st = CUTStatus::smallenough; ended = true; }
    }
    c.check(upd.size() == qs.size(), "the space was updated without a cut of its own");
    c.check(t == cur, pbt::str("the best value is ", t, ", the oracle last set it to ", cur));
    c.check(info.feasible == (t != t0), "feasible is not reported as 'the best value changed'");
    if (any) c.check(xb == best, pbt::str("the best point is query ", xb.id, ", the last improvement was at ", best.id));
    c.check(info.status == st, pbt::str("status is ", name(info.status), ", should be ", name(st)));
    if (ended) c.check(info.num_iters == qs.size(), pbt::str("iteration count is ", info.num_iters, " after ", qs.size(), " queries"));
    else
    {
        c.check(info.num_iters == used.max_it, pbt::str("iteration count is ", info.num_iters, ", the limit is ", used.max_it));
        c.check(qs.size() <= used.max_it && qs.size() + 1 >= used.max_it, pbt::str(qs.size(), " queries for a limit of ", used.max_it));
    }
    c.label(ended ? name(st) : "limit");
    c.label(any ? "improved" : "never improved");
    if (any && qs.size() >= 2) c.nontrivial();
}
PROP(scripted_real, 300000, 3000000) { scripted<double>(c); }
PROP(scripted_integer, 200000, 2000000) { scripted<long>(c); }

PROP(long_runs, 2500, 30000)
{
    auto l = gen_long(c, 2);
    ++l.kind;
    LongSpace s {&c, &l};
    Options o;
    o.max_it = unsigned(l.limit);
    o.tol = 1.;
    uint64_t n = 0;
    double t = 1e6, cur = t;
    Point best;
    auto oracle = [&](const Point& x, double& tt) -> std::tuple<long, bool> {
        if (x.id != long(n)) c.fail("the oracle was not queried at the space's current centre");
        if (tt != cur) c.fail("the oracle was not given the best value so far");
        const bool better = s.listed(n);
        ++n;
        if (better) { tt -= 1.; cur = tt; best = x; }
        return {long(n) + 4, better};
    };
    const auto [xb, info] = cutting_plane_dc(oracle, s, t, o);
    long_end(c, l, info, n, s.over);
    c.check(t == cur, "the best value is not the one the oracle set last");
    c.check(info.feasible == (t != 1e6), "feasible is not reported as 'the best value changed'");
    if (info.feasible) c.check(xb == best, pbt::str("the best point is query ", xb.id, ", the last improvement was at ", best.id));
    if (!s.over) c.check(info.status == CUTStatus::success, "a status without its event");
}
