// C20: the minimum cycle ratio, exactly.
#include "graphs.hpp"
#include <boost/multiprecision/cpp_int.hpp>
#include <netoptim/min_cycle_ratio.hpp>
#include <py2cpp/fractions.hpp>
#include <py2cpp/py2cpp.hpp>

using I = long long;
using Big = boost::multiprecision::number<boost::multiprecision::cpp_int_backend<>, boost::multiprecision::et_off>;

// an exact rational of our own, for the reference
struct Q
{
    __int128 n, d; // d > 0
    bool operator<(const Q& o) const { return n * o.d < o.n * d; }
    bool operator==(const Q& o) const { return n * o.d == o.n * d; }
    std::string show() const { return pbt::str((long long)n, '/', (long long)d); }
};
struct Sizes { int n, m, cost, time, start; };

template <typename Z, typename Out, typename Cost>
static void ratio(pbt::Ctx& c, const Sizes& s, bool parametric)
{
    using T = fun::Fraction<Z>;
    const bool large = (sizeof(Z) > 8) && c.chance(5);
    const auto g = large && c.chance(50) ? gen_ring(c, 24) : gen_graph(c, large ? 12 : s.n, large ? 22 : s.m);
    const auto G = adapt<Out>(g);
    using Gr = std::decay_t<decltype(G)>;
    using edge_t = typename Gr::edge_t;
    std::vector<I> cost(g.arcs.size()), time(g.arcs.size());
    const bool same_time = c.chance(30);
    for (size_t k = 0; k < cost.size(); ++k)
    {
        cost[k] = c.sym(s.cost);
        time[k] = same_time ? 1 : c.in(1, s.time);
    }
    const Q r0 {c.chance(70) ? c.in(0, s.start * 3) : c.sym(s.start * 3), c.in(1, 3)};
    const Q r0n = r0;
    auto r = T(Z(I(r0.n)), Z(I(r0.d)));
    const size_t limit = c.chance(60) ? 1000 : size_t(c.in(0, 6));
    std::vector<T> dist;
    std::string ds;
    for (int v = 0; v < g.n; ++v)
    {
        const I a = c.chance(60) ? 0 : c.sym(s.start), b = c.in(1, 2);
        dist.push_back(T(Z(a), Z(b)));
        ds += pbt::str(' ', a, '/', b);
    }
    c.note(g.show(), " start ", r0n.show(), " limit ", limit, " values", ds);
    for (size_t k = 0; k < cost.size(); ++k) c.note("  arc ", k, " cost ", cost[k], " time ", time[k]);
    std::vector<std::vector<int>> cyc;
    if (!cycles(g, cyc, 5000)) c.discard();
    Q best = r0n;
    auto of = [&](const std::vector<int>& ids) {
        Q q {0, 0};
        for (int k : ids) { q.n += cost[size_t(k)]; q.d += time[size_t(k)]; }
        return q;
    };
    for (auto& y : cyc)
    {
        const auto q = of(y);
        if (q < best) best = q;
    }
    auto get_cost = [&](const edge_t& e) -> Cost { return Cost(cost[size_t(arc_id(G, e))]); };
    auto get_time = [&](const edge_t& e) -> Cost { return Cost(time[size_t(arc_id(G, e))]); };
    std::vector<edge_t> C;
    size_t calls = 0;
    if (!parametric)
        C = min_cycle_ratio(G, r, get_cost, get_time, dist, limit);
    else
    {
        auto weight = [&](const T& q, const edge_t& e) -> T { return T(get_cost(e)) - q * get_time(e); };
        auto cancel = [&](const std::vector<edge_t>& cy) -> T {
            ++calls;
            Z a(0), b(0);
            std::vector<int> ids;
            for (auto& e : cy) { ids.push_back(arc_id(G, e)); a += get_cost(e); b += get_time(e); }
            c.check(simple_cycle(g, ids), pbt::str("asked for the ratio of arcs ", show_ids(ids), " that are not one simple cycle"));
            return T(a, b);
        };
        C = max_parametric(G, r, weight, cancel, dist, limit);
        c.check(calls <= limit, pbt::str(calls, " cycles were cancelled, the limit is ", limit));
    }
    std::vector<int> ids;
    for (auto& e : C) ids.push_back(arc_id(G, e));
    const Q got {I(r.numerator()), I(r.denominator())};
    c.note(" -> ", got.show(), " cycle ", show_ids(ids), ", the minimum is ", best.show());
    c.check(got.d > 0, "the ratio has no positive denominator");
    c.check(!(r0n < got), "the value got worse");
    c.check(!(got < best), "a value below every cycle ratio");
    c.check(ids.empty() == (got == r0n), got == r0n ? "a cycle was returned although the value did not improve" : "the value improved but no cycle was returned");
    if (!ids.empty())
    {
        c.check(simple_cycle(g, ids), "the returned arcs are not one closed simple cycle");
        c.check(of(ids) == got, pbt::str("the returned cycle has the ratio ", of(ids).show(), ", the value is ", got.show()));
    }
    // at most one improvement per iteration, each to another cycle's ratio
    std::set<std::pair<I, I>> below; // distinct ratios from best up to the start
    for (auto& y : cyc)
    {
        const auto q = of(y);
        if (q < r0n) { const auto z = T(Z(I(q.n)), Z(I(q.d))); below.emplace(I(z.numerator()), I(z.denominator())); }
    }
    if (below.size() < limit || limit == 1000)
    {
        c.check(got == best, pbt::str("ended with ", got.show(), ", the minimum is ", best.show()));
        for (size_t k = 0; k < g.arcs.size(); ++k)
        {
            const T w = T(Z(cost[k])) - r * Z(time[k]);
            c.check(!(dist[size_t(g.arcs[k].second)] > dist[size_t(g.arcs[k].first)] + w), pbt::str("the node values violate arc ", k, " at the final value"));
        }
    }
    else if (limit == 0) c.check(got == r0n, "the value changed with no iteration allowed");
    if (got < r0n) c.label("improved");
    if (below.size() > 1) c.label("several ratios below the start");
    if (limit < 1000) c.label("limited");
    if (below.size() > 1 && got < r0n) c.nontrivial();
}
PROP(ratio_int, 200000, 2000000) { ratio<int, boost::vecS, int>(c, {4, 8, 5, 2, 4}, false); }
PROP(ratio_long, 200000, 2000000) { ratio<I, boost::listS, I>(c, {6, 12, 9, 3, 9}, false); }
PROP(ratio_big, 50000, 500000) { ratio<Big, boost::vecS, Big>(c, {8, 16, 1000, 50, 200}, false); }
PROP(parametric_int, 150000, 1500000) { ratio<int, boost::vecS, int>(c, {4, 8, 5, 2, 4}, true); }
PROP(parametric_long, 150000, 1500000) { ratio<I, boost::listS, I>(c, {6, 12, 9, 3, 9}, true); }
PROP(parametric_big, 50000, 500000) { ratio<Big, boost::vecS, Big>(c, {8, 16, 1000, 50, 200}, true); }

// costs and times of different types: an exact number that can be made of any
struct Rat
{
    __int128 n = 0, d = 1;
    static __int128 gcd(__int128 a, __int128 b) { while (b) { auto r = a % b; a = b; b = r; } return a < 0 ? -a : a; }
    Rat() = default;
    Rat(__int128 a, __int128 b) : n(b < 0 ? -a : a), d(b < 0 ? -b : b)
    {
        const auto g = gcd(n, d);
        if (g > 1) n /= g, d /= g;
    }
    template <typename N, typename = std::enable_if_t<std::is_integral_v<N>>> Rat(N v) : n(v) { }
    Rat(double v) : Rat(__int128(v * 1024), 1024) { } // exact for our values
    explicit operator double() const { return double(n) / double(d); }
    Rat operator-() const { Rat r = *this; r.n = -r.n; return r; }
    friend Rat operator+(const Rat& a, const Rat& b) { return {a.n * b.d + b.n * a.d, a.d * b.d}; }
    friend Rat operator-(const Rat& a, const Rat& b) { return {a.n * b.d - b.n * a.d, a.d * b.d}; }
    friend Rat operator*(const Rat& a, const Rat& b) { return {a.n * b.n, a.d * b.d}; }
    friend Rat operator/(const Rat& a, const Rat& b) { return {a.n * b.d, a.d * b.n}; }
    Rat& operator+=(const Rat& b) { return *this = *this + b; }
    Rat& operator-=(const Rat& b) { return *this = *this - b; }
    Rat& operator*=(const Rat& b) { return *this = *this * b; }
    Rat& operator/=(const Rat& b) { return *this = *this / b; }
    friend bool operator<(const Rat& a, const Rat& b) { return a.n * b.d < b.n * a.d; }
    friend bool operator==(const Rat& a, const Rat& b) { return a.n == b.n && a.d == b.d; }
    friend bool operator!=(const Rat& a, const Rat& b) { return !(a == b); }
    friend bool operator>(const Rat& a, const Rat& b) { return b < a; }
    friend bool operator<=(const Rat& a, const Rat& b) { return !(b < a); }
    friend bool operator>=(const Rat& a, const Rat& b) { return !(a < b); }
};
template <typename Cost, typename Time>
static void mixed(pbt::Ctx& c, double cstep, double tstep, I big = 1)
{
    const auto g = gen_graph(c, 6, 12);
    const auto G = adapt<boost::vecS>(g);
    using edge_t = typename std::decay_t<decltype(G)>::edge_t;
    std::vector<Rat> cost(g.arcs.size()), time(g.arcs.size());
    for (size_t k = 0; k < cost.size(); ++k)
    {
        cost[k] = Rat(double(c.sym(20)) * cstep);
        time[k] = Rat(double(c.in(1, 12)) * tstep) * big;
        c.note("  arc ", k, " cost ", double(cost[k]), " time ", double(time[k]));
    }
    Rat r = c.chance(70) ? Rat(1000) : Rat(c.sym(40), 4);
    const Rat r0 = r;
    c.note(g.show(), " start ", double(r0));
    std::vector<std::vector<int>> cyc;
    if (!cycles(g, cyc, 3000)) c.discard();
    auto of = [&](const std::vector<int>& ids) {
        Rat a, b;
        for (int k : ids) a += cost[size_t(k)], b += time[size_t(k)];
        return a / b;
    };
    Rat best = r0;
    for (auto& y : cyc) best = std::min(best, of(y));
    std::vector<Rat> dist(size_t(g.n));
    auto num = [](const Rat& q, auto t) {
        using N = decltype(t);
        if constexpr (std::is_same_v<N, double>) return double(q); // exact for our values
        else return N(q.n);
    };
    auto get_cost = [&](const edge_t& e) -> Cost { return num(cost[size_t(arc_id(G, e))], Cost()); };
    auto get_time = [&](const edge_t& e) -> Time { return num(time[size_t(arc_id(G, e))], Time()); };
    const auto C = min_cycle_ratio(G, r, get_cost, get_time, dist, 1000);
    std::vector<int> ids;
    for (auto& e : C) ids.push_back(arc_id(G, e));
    c.note(" -> ", double(r), " cycle ", show_ids(ids), ", the minimum is ", double(best));
    c.check(r == best, pbt::str("ended with ", double(r), ", the minimum is ", double(best)));
    c.check(ids.empty() == (r == r0), "a cycle is returned exactly if the value improved");
    if (!ids.empty())
    {
        c.check(simple_cycle(g, ids), "the returned arcs are not one closed simple cycle");
        c.check(of(ids) == r, pbt::str("the returned cycle has the ratio ", double(of(ids)), ", the value is ", double(r)));
    }
    if (cyc.size() > 1 && r < r0) c.nontrivial();
}
PROP(mixed_int_double, 20000, 300000) { mixed<int, double>(c, 1., 0.25); }
PROP(mixed_double_int, 20000, 300000) { mixed<double, int>(c, 0.125, 1.); }
PROP(mixed_int_long, 20000, 300000) { mixed<int, I>(c, 1., 1., 1000000007LL); }
PROP(mixed_short_int, 20000, 300000) { mixed<short, int>(c, 1., 1., 10007); }
