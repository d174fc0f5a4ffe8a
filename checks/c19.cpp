// C19: negative cycle detection.
#include "graphs.hpp"
#include <netoptim/neg_cycle.hpp>
#include <py2cpp/fractions.hpp>
#include <py2cpp/py2cpp.hpp>

using I = long long;
constexpr I L = 27720; // a common multiple of 1..12

// weights are kept as integers; a number type gets them through its scale
struct AsInt { using T = int; static constexpr I unit = 1; static T make(I w) { return T(w); } static I back(const T& t) { return t; } };
struct AsLong { using T = long; static constexpr I unit = 1; static T make(I w) { return T(w); } static I back(const T& t) { return t; } };
struct AsDouble { using T = double; static constexpr I unit = 1; static T make(I w) { return double(w) / 16; } static I back(const T& t) { return I(t * 16); } };
struct AsFrac
{
    using T = fun::Fraction<I>;
    static constexpr I unit = 1;
    static T make(I w) { return T(w, L); }
    static I back(const T& t) { return t.numerator() * (L / t.denominator()); }
};

static std::vector<I> gen_weights(pbt::Ctx& c, const DG& g, I unit)
{
    std::vector<I> w(g.arcs.size());
    if (c.chance(60)) // feasible with many tight cycles, then possibly spoilt
    {
        std::vector<I> p(static_cast<size_t>(g.n));
        for (auto& v : p) v = c.sym(20) * unit;
        const int tight = int(c.pick(std::vector<int> {50, 90, 100}));
        for (size_t k = 0; k < w.size(); ++k)
        {
            w[k] = p[size_t(g.arcs[k].second)] - p[size_t(g.arcs[k].first)];
            if (!c.chance(tight)) w[k] += c.in(0, 6) * unit;
        }
        if (!w.empty() && c.chance(50)) w[c.draw(w.size())] -= c.in(1, 3) * (c.chance(50) ? 1 : unit);
    }
    else
        for (auto& v : w) v = (c.sym(6) + c.in(0, 4)) * unit;
    return w;
}

// long paths in either direction that close to a ring, some chords
static DG gen_chain(pbt::Ctx& c, int max_n)
{
    DG g;
    g.n = int(c.in(2, max_n));
    const bool back = c.chance(70), closed = c.chance(80);
    for (int i = 0; i + 1 < g.n; ++i) g.arcs.emplace_back(back ? i + 1 : i, back ? i : i + 1);
    if (closed) g.arcs.emplace_back(back ? 0 : g.n - 1, back ? g.n - 1 : 0);
    if (c.chance(30)) // the same with the nodes in another order
    {
        std::vector<int> p(static_cast<size_t>(g.n));
        for (int i = 0; i < g.n; ++i) p[size_t(i)] = i;
        for (int i = g.n; i-- > 1;) std::swap(p[size_t(i)], p[c.draw(uint64_t(i) + 1)]);
        for (auto& [u, v] : g.arcs) { u = p[size_t(u)]; v = p[size_t(v)]; }
    }
    for (int k = int(c.in(0, 3)); k > 0; --k) g.arcs.emplace_back(int(c.draw(uint64_t(g.n))), int(c.draw(uint64_t(g.n))));
    return g;
}
// a ring of its own far out: paths and trees that lead to it, or away from it
static DG gen_remote(pbt::Ctx& c, int max_n)
{
    DG g;
    const int r = int(c.in(1, 10));
    g.n = r + int(c.in(1, max_n));
    for (int i = 0; i < r; ++i) g.arcs.emplace_back(i, (i + 1) % r);
    const bool out = c.chance(50);
    const int bushy = int(c.pick(std::vector<int> {0, 10, 60, 100}));
    for (int i = r; i < g.n; ++i)
    {
        const int j = c.chance(bushy) ? int(c.draw(uint64_t(i))) : i - 1;
        if (out) g.arcs.emplace_back(j, i);
        else g.arcs.emplace_back(i, j);
    }
    for (int k = int(c.in(0, 3)); k > 0; --k) g.arcs.emplace_back(int(c.draw(uint64_t(g.n))), int(c.draw(uint64_t(g.n))));
    const auto how = c.draw(3); // the ring has the first, the last, or any numbers
    std::vector<int> p(static_cast<size_t>(g.n));
    for (int i = 0; i < g.n; ++i) p[size_t(i)] = how == 1 ? g.n - 1 - i : i;
    if (how == 2) for (int i = g.n; i-- > 1;) std::swap(p[size_t(i)], p[c.draw(uint64_t(i) + 1)]);
    for (auto& [u, v] : g.arcs) { u = p[size_t(u)]; v = p[size_t(v)]; }
    return g;
}
static std::vector<I> remote_weights(pbt::Ctx& c, const DG& g, I unit)
{
    std::vector<I> w(g.arcs.size());
    const I drift = c.chance(60) ? -c.in(0, 9) : c.sym(6);
    for (auto& v : w) v = (drift + c.sym(2)) * unit;
    // the ring is the arcs before the first that leaves it
    size_t r = 1;
    while (r < w.size() && g.arcs[r - 1].second != g.arcs[0].first) ++r;
    I sum = 0;
    for (size_t k = 0; k < r; ++k) sum += w[k];
    w[c.draw(r)] += -sum + c.sym(3) * (c.chance(50) ? 1 : unit);
    for (size_t k = size_t(g.n); k < w.size(); ++k) w[k] = (c.sym(20) + c.in(0, 4000)) * unit;
    return w;
}
// the ring's total is near zero; its arcs mostly pull in one direction
static std::vector<I> chain_weights(pbt::Ctx& c, const DG& g, I unit)
{
    std::vector<I> w(g.arcs.size());
    const auto ring = std::min(w.size(), size_t(g.n));
    I sum = 0;
    const I drift = c.sym(6);
    for (size_t k = 0; k < ring; ++k) sum += w[k] = (drift + c.sym(2)) * unit;
    const auto at = c.chance(70) ? ring - 1 : c.draw(ring);
    w[at] -= sum;
    w[at] += c.sym(3) * (c.chance(50) ? 1 : unit);
    for (size_t k = ring; k < w.size(); ++k) w[k] = (c.sym(20) + c.in(0, 400)) * unit;
    return w;
}

template <typename Out, typename As, typename Dist>
static void searches(pbt::Ctx& c, int max_n, int max_m, I unit, int chain = 0)
{
    using T = typename As::T;
    const auto g = chain == 2 ? gen_remote(c, max_n) : chain ? gen_chain(c, max_n) : gen_graph(c, max_n, max_m);
    auto gen_weights = [&](pbt::Ctx& cc, const DG& gg, I u) { return chain && cc.chance(85) ? (chain == 2 ? remote_weights(cc, gg, u) : chain_weights(cc, gg, u)) : ::gen_weights(cc, gg, u); };
    const auto G = adapt<Out>(g);
    using Gr = std::decay_t<decltype(G)>;
    negCycleFinder<Gr> S(G);
    auto w = gen_weights(c, g, unit);
    std::vector<I> d(size_t(g.n), 0);
    if (c.chance(60)) for (auto& v : d) v = c.sym(c.chance(50) ? 10 : 1000) * unit;
    const auto rounds = c.many(1, 6, 40, 3);
    c.note(g.show());
    int found = 0, none = 0;
    auto build = [&](const std::vector<I>& x) {
        Dist r;
        if constexpr (std::is_same_v<Dist, std::vector<T>>) r.resize(size_t(g.n), As::make(0));
        for (int v = 0; v < g.n; ++v)
        {
            if constexpr (std::is_same_v<Dist, std::vector<T>>) r[size_t(v)] = As::make(x[size_t(v)]);
            else r.emplace(size_t(v), As::make(x[size_t(v)]));
        }
        return r;
    };
    auto at = [](Dist& q, int v) -> const T& { if constexpr (std::is_same_v<Dist, std::vector<T>>) return q[size_t(v)]; else return q.items().at(size_t(v)); };
    for (int i = 0; i < rounds; ++i)
    {
        std::string ws;
        for (auto x : w) ws += pbt::str(' ', x);
        std::string ds;
        for (auto x : d) ds += pbt::str(' ', x);
        c.note("weights", ws, "; values", ds);
        auto get = [&](const auto& e) -> T { return As::make(w[size_t(arc_id(G, e))]); };
        auto dist = build(d);
        std::vector<int> ids;
        for (auto& e : S.find_neg_cycle(dist, get)) ids.push_back(arc_id(G, e));
        c.note(" -> cycle ", show_ids(ids));
        const bool feasible = potentials(g, w);
        c.check(ids.empty() == feasible, feasible ? "a cycle was returned, but there is no negative cycle" : "a negative cycle was missed");
        std::vector<I> after(static_cast<size_t>(g.n));
        for (int v = 0; v < g.n; ++v) after[size_t(v)] = As::back(at(dist, v));
        if (ids.empty())
        {
            ++none;
            for (size_t k = 0; k < g.arcs.size(); ++k)
                c.check(after[size_t(g.arcs[k].second)] <= after[size_t(g.arcs[k].first)] + w[k], pbt::str("no cycle, but the node values violate arc ", k));
            for (size_t v = 0; v < after.size(); ++v) c.check(after[v] <= d[v], pbt::str("the value of node ", v, " has increased"));
        }
        else
        {
            ++found;
            c.check(simple_cycle(g, ids), "the returned arcs are not one closed simple cycle");
            I s = 0;
            for (int k : ids) s += w[size_t(k)];
            c.check(s < 0, pbt::str("the returned cycle has total weight ", s));
        }
        // the same search with a new finder
        {
            negCycleFinder<Gr> F(G);
            auto again = build(d);
            std::vector<int> ids2;
            for (auto& e : F.find_neg_cycle(again, get)) ids2.push_back(arc_id(G, e));
            c.check(ids2 == ids, pbt::str("a new finder returns ", show_ids(ids2), ", the used one ", show_ids(ids)));
            for (int v = 0; v < g.n; ++v) c.check(at(again, v) == at(dist, v), "a new finder leaves other node values than the used one");
        }
        // next
        if (c.chance(70)) d = after;
        else for (auto& v : d) v = c.sym(30) * unit;
        if (c.chance(60) && !w.empty())
            for (int k = int(c.in(1, 3)); k > 0; --k) w[c.draw(w.size())] += c.sym(4) * (c.chance(70) ? unit : 1);
        else w = gen_weights(c, g, unit);
    }
    if (found) c.label("negative cycle");
    if (none) c.label("feasible");
    if (g.arcs.size() >= 3 && (found || none) && rounds > 1) c.nontrivial();
}
template <typename A> using DV_ = std::vector<typename A::T>;
template <typename A> using DD_ = py::dict<size_t, typename A::T>;
PROP(ints_small, 150000, 2000000) { searches<boost::vecS, AsInt, DV_<AsInt>>(c, 6, 12, 1); }
PROP(ints_large, 15000, 200000) { searches<boost::vecS, AsInt, DV_<AsInt>>(c, 40, 120, 1); }
PROP(ints_chains, 8000, 120000) { searches<boost::vecS, AsInt, DV_<AsInt>>(c, 70, 0, 1, 1); }
PROP(ints_remote, 8000, 120000) { searches<boost::vecS, AsInt, DV_<AsInt>>(c, c.chance(20) ? 400 : 60, 0, 1, 2); }
PROP(fractions_chains, 4000, 60000) { searches<boost::vecS, AsFrac, DV_<AsFrac>>(c, 24, 0, c.pick(std::vector<I> {L / 3, L / 12, L}), 1); }
PROP(ints_listed_dict, 80000, 1000000) { searches<boost::listS, AsLong, DD_<AsLong>>(c, 8, 20, 1); }
PROP(doubles, 80000, 1000000) { searches<boost::listS, AsDouble, DV_<AsDouble>>(c, 8, 20, 1); }
PROP(fractions, 80000, 1000000) { searches<boost::vecS, AsFrac, DV_<AsFrac>>(c, 6, 14, c.pick(std::vector<I> {L / 2, L / 3, L / 12, L / 7, L})); }
