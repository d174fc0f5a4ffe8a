// C23: the graph adaptor and the Python-like containers against plain models.
#include "graphs.hpp"
#include <limits>
#include <list>
#include <memory>
#include <py2cpp/py2cpp.hpp>

template <typename K> K key(pbt::Ctx& c, int n)
{
    const auto i = int64_t(c.draw(uint64_t(n)));
    if constexpr (std::is_same_v<K, std::string>) return std::string(size_t(i % 3), 'k') + std::to_string(i * 7919);
    else return K(c.chance(20) ? std::numeric_limits<K>::max() - K(i) : K(i));
}
template <typename K> std::vector<K> some_keys(pbt::Ctx& c, int n, int most)
{
    std::set<K> seen;
    std::vector<K> out;
    for (int64_t m = c.in(0, most); m > 0; --m)
    {
        K k = key<K>(c, n);
        if (seen.insert(k).second) out.push_back(k);
    }
    return out;
}

// ------------------------------------------------------------ dict
template <typename K, typename V>
void same(const py::dict<K, V>& d, const std::map<K, V>& m, const std::vector<K>& probes, const char* when)
{
    using pbt::str;
    if (d.size() != m.size() || py::len(d) != m.size() || d.empty() != m.empty())
        throw pbt::Failure {str(when, ": length ", py::len(d), ", should be ", m.size())};
    std::set<K> seen;
    for (auto&& k : d)
        if (!m.count(k) || !seen.insert(k).second) throw pbt::Failure {str(when, ": iteration yields ", k, " wrongly")};
    if (seen.size() != m.size()) throw pbt::Failure {str(when, ": iteration misses keys")};
    seen.clear();
    for (auto&& [k, v] : d.items())
    {
        const auto it = m.find(k);
        if (it == m.end() || it->second != v || !seen.insert(k).second) throw pbt::Failure {str(when, ": items() yields ", k, " wrongly")};
    }
    if (seen.size() != m.size()) throw pbt::Failure {str(when, ": items() misses keys")};
    for (auto& k : probes)
    {
        const bool in = m.count(k) != 0;
        if (d.contains(k) != in || (k < d) != in) throw pbt::Failure {str(when, ": membership of ", k)};
        bool threw = false;
        try
        {
            const V& v = d[k];
            if (!in || v != m.at(k)) throw pbt::Failure {str(when, ": lookup of ", k)};
        }
        catch (const std::out_of_range&)
        {
            threw = true;
        }
        if (threw == in) throw pbt::Failure {str(when, ": lookup of ", k, in ? " throws" : " does not throw")};
    }
}

template <typename K, typename V, typename MkV>
void dict_history(pbt::Ctx& c, MkV value)
{
    using D = py::dict<K, V>;
    using M = std::map<K, V>;
    const int n = c.chance(3) ? int(c.in(150, 600)) : int(c.many(1, 12, 120, 6));
    std::vector<std::unique_ptr<D>> d;
    std::vector<M> m;
    m.reserve(8);
    auto fresh = [&]() {
        auto ks = some_keys<K>(c, n, 3);
        std::vector<V> vs;
        M mm;
        for (auto& k : ks)
        {
            vs.push_back(value());
            mm[k] = vs.back();
        }
        switch (ks.size())
        {
            case 0: d.push_back(std::make_unique<D>()); break;
            case 1: d.emplace_back(new D {{ks[0], vs[0]}}); break;
            case 2: d.emplace_back(new D {{ks[0], vs[0]}, {ks[1], vs[1]}}); break;
            default: d.emplace_back(new D {{ks[0], vs[0]}, {ks[1], vs[1]}, {ks[2], vs[2]}});
        }
        m.push_back(mm);
        c.note("new dictionary ", d.size() - 1, " with ", ks.size(), " keys");
    };
    fresh();
    if (n >= 150)
        for (int i = 0; i < n; ++i)
        {
            const K k = key<K>(c, n);
            (*d[0])[k] = m[0][k] = value();
        }
    std::set<std::string> used;
    const int64_t ops = c.many(1, 40, 400, 4);
    for (int64_t o = 0; o < ops; ++o)
    {
        const size_t i = c.draw(d.size());
        D& x = *d[i];
        M& mm = m[i];
        const K k = key<K>(c, n);
        const char* what = "";
        switch (c.draw(11))
        {
            case 0: // assignment
            {
                const V v = value();
                x[k] = v;
                mm[k] = v;
                what = "assignment";
                break;
            }
            case 1:
            {
                const V v = value(), got = x.get(k, v);
                c.check(got == (mm.count(k) ? mm[k] : v), pbt::str("get(", k, ") gives ", got));
                what = "get"; // must not have inserted
                used.insert(mm.count(k) ? "get" : "get default");
                break;
            }
            case 2:
                c.check(x.erase(k) == mm.erase(k), pbt::str("number of keys erased for ", k));
                what = "erase";
                break;
            case 3: // x[k] makes a default element, as std::map's
            {
                V& r = x[k];
                V& e = mm[k];
                c.check(r == e, pbt::str("[", k, "] gives ", r));
                const V v = value();
                r = v;
                e = v;
                what = "reference";
                break;
            }
            case 4:
                if (d.size() < 4)
                {
                    d.emplace_back(new D(x.copy()));
                    m.push_back(mm);
                    what = "copy";
                }
                break;
            case 5:
                if (d.size() < 4)
                {
                    d.emplace_back(new D(std::move(x)));
                    m.push_back(mm);
                    d[i] = std::make_unique<D>();
                    m[i].clear();
                    what = "move";
                }
                break;
            case 6:
            {
                const size_t j = c.draw(d.size());
                if (j != i)
                {
                    *d[j] = std::move(x);
                    m[j] = mm;
                    d[i] = std::make_unique<D>();
                    m[i].clear();
                    what = "move assignment";
                }
                break;
            }
            case 7:
                for (auto& [kk, v] : x.items()) v = value(), mm[kk] = v;
                what = "write through items()";
                break;
            case 8:
                if (c.chance(30)) { x.clear(); mm.clear(); what = "clear"; }
                break;
            case 9:
            {
                const V v = value();
                const bool a = x.insert({k, v}).second, b = mm.insert({k, v}).second;
                c.check(a == b, pbt::str("insert(", k, ") reports ", a));
                what = "insert";
                break;
            }
            default:
                if (d.size() < 4) fresh();
        }
        if (*what) used.insert(what);
        c.note("dictionary ", i, ": ", what, " ", k, ", now ", mm.size(), " keys");
        std::vector<K> probes;
        for (int q = 0; q < 3; ++q) probes.push_back(key<K>(c, n));
        probes.push_back(k);
        for (size_t j = 0; j < d.size(); ++j) same(*d[j], m[j], probes, what);
    }
    if (used.size() >= 4 && (used.count("copy") || used.count("get default"))) c.nontrivial();
}
PROP(dict_int, 3000, 150000) { dict_history<int, double>(c, [&] { return double(c.sym(50)); }); }
PROP(dict_string, 2000, 80000) { dict_history<std::string, int>(c, [&] { return int(c.sym(50)); }); }
PROP(dict_nested, 1200, 60000) { dict_history<uint64_t, std::string>(c, [&] { return std::string(size_t(c.in(0, 30)), 'v'); }); }

// ------------------------------------------------------------ set
template <typename K>
void set_history(pbt::Ctx& c)
{
    using S = py::set<K>;
    using M = std::set<K>;
    const int n = c.chance(3) ? int(c.in(150, 600)) : int(c.many(1, 12, 120, 6));
    std::vector<std::unique_ptr<S>> d;
    std::vector<M> m;
    m.reserve(8);
    auto fresh = [&]() {
        auto ks = some_keys<K>(c, n, 3);
        M mm(ks.begin(), ks.end());
        const auto how = c.draw(2);
        if (how && !ks.empty() && c.chance(50)) ks.push_back(ks[0]); // twice the same
        if (how) d.emplace_back(new S(ks.begin(), ks.end()));
        else
            switch (ks.size())
            {
                case 0: d.push_back(std::make_unique<S>()); break;
                case 1: d.emplace_back(new S({ks[0], ks[0]})); break;
                case 2: d.emplace_back(new S({ks[0], ks[1]})); break;
                default: d.emplace_back(new S({ks[0], ks[1], ks[2]}));
            }
        m.push_back(mm);
    };
    fresh();
    if (n >= 150)
        for (int i = 0; i < n; ++i)
        {
            const K k = key<K>(c, n);
            d[0]->insert(k);
            m[0].insert(k);
        }
    std::set<std::string> used;
    for (int64_t o = c.many(1, 40, 400, 4); o > 0; --o)
    {
        const size_t i = c.draw(d.size());
        S& x = *d[i];
        const K k = key<K>(c, n);
        const char* what = "";
        switch (c.draw(7))
        {
            case 0:
                c.check(x.insert(k).second == m[i].insert(k).second, pbt::str("insert(", k, ")"));
                what = "insert";
                break;
            case 1:
                c.check(x.erase(k) == m[i].erase(k), pbt::str("erase(", k, ")"));
                what = "erase";
                break;
            case 2:
                if (d.size() < 4)
                {
                    d.emplace_back(new S(x.copy()));
                    auto t = m[i];
                    m.push_back(t);
                    what = "copy";
                }
                break;
            case 3:
            {
                const size_t j = c.draw(d.size());
                if (j == i) break;
                *d[j] = std::move(x);
                m[j] = m[i];
                d[i] = std::make_unique<S>();
                m[i].clear();
                what = "move assignment";
                break;
            }
            case 4:
                if (d.size() < 4)
                {
                    d.emplace_back(new S(std::move(x)));
                    auto t = m[i];
                    m.push_back(t);
                    d[i] = std::make_unique<S>();
                    m[i].clear();
                    what = "move";
                }
                break;
            case 5:
                if (d.size() < 4) fresh();
                break;
            default: what = "look";
        }
        if (*what) used.insert(what);
        c.note("set ", i, ": ", what, " ", k, ", now ", m[i].size(), " elements");
        for (size_t j = 0; j < d.size(); ++j)
        {
            const S& s = *d[j];
            c.check(py::len(s) == m[j].size() && s.size() == m[j].size(), pbt::str("length ", py::len(s), " after ", what));
            M seen;
            for (auto&& e : s) c.check(m[j].count(e) && seen.insert(e).second, pbt::str("iteration yields ", e, " after ", what));
            c.check(seen.size() == m[j].size(), "iteration misses elements");
            for (int q = 0; q < 4; ++q)
            {
                const K p = q ? key<K>(c, n) : k;
                const bool in = m[j].count(p) != 0;
                c.check(s.contains(p) == in && (p < s) == in, pbt::str("membership of ", p, " after ", what));
            }
        }
    }
    if (used.size() >= 4 && used.count("copy")) c.nontrivial();
}
PROP(set_int, 2500, 100000) { set_history<int>(c); }
PROP(set_string, 1500, 50000) { set_history<std::string>(c); }

// ------------------------------------------------------------ range
template <typename R, typename T>
void range_is(pbt::Ctx& c, const R& r, T lo, T hi, bool walk)
{
    using W = __int128;
    const W len = W(hi) > W(lo) ? W(hi) - W(lo) : 0;
    auto num = [](T t) { return int64_t(t); };
    c.check(W(r.size()) == len, pbt::str("size ", r.size(), " of range(", num(lo), ", ", num(hi), ")"));
    c.check(r.empty() == (len == 0), "empty()");
    c.check((r.begin() != r.end()) == (len != 0) && (r.begin() == r.end()) == (len == 0), "begin and end");
    if (walk)
    {
        W k = 0;
        for (T v : r)
        {
            c.check(k < len && W(v) == W(lo) + k, pbt::str("element ", int64_t(k), " is ", num(v)));
            ++k;
        }
        c.check(k == len, "iteration ends early");
    }
    else if (len)
        c.check(*r.begin() == lo, "first element");
    for (int q = 0; q < 4 && len; ++q)
    {
        const W at = q == 0 ? len - 1 : q == 1 ? W(0) : W(c.draw(uint64_t(len)));
        c.check(W(r[size_t(at)]) == W(lo) + at, pbt::str("[", int64_t(at), "] is ", num(r[size_t(at)])));
    }
    using L = std::numeric_limits<T>;
    for (W p : {W(lo) - 1, W(lo), W(lo) + len / 2, W(hi) - 1, W(hi), W(hi) + 1, W(0), W(L::max()), W(L::min())})
        if (p >= W(L::min()) && p <= W(L::max()))
            c.check(r.contains(T(p)) == (p >= W(lo) && p < W(hi)), pbt::str("membership of ", int64_t(p), " in range(", num(lo), ", ", num(hi), ")"));
}
template <typename T>
void ranges(pbt::Ctx& c)
{
    using L = std::numeric_limits<T>;
    using W = __int128;
    auto any = [&]() -> T {
        switch (c.draw(4))
        {
            case 0: return L::is_signed ? T(c.sym(30)) : T(c.in(0, 60));
            case 1: return T(L::max() - T(c.in(0, 20)));
            case 2: return T(L::min() + T(c.in(0, 20)));
            default:
            {
                uint64_t v = 0;
                for (int k = 0; k < 4; ++k) v = (v << 16) | c.draw(65536);
                return T(v);
            }
        }
    };
    const T lo = any();
    T hi = c.chance(50) ? any() : W(lo) + 5 <= W(L::max()) ? T(lo + T(c.in(0, 5))) : lo;
    // the code computes stop - start in the promoted type
    using P = decltype(T() - T());
    if (W(hi) - W(lo) > W(std::numeric_limits<P>::max())) hi = T(lo + T(c.in(0, 9)));
    const W len = std::max<W>(0, W(hi) - W(lo));
    c.note("range(", int64_t(lo), ", ", int64_t(hi), ")");
    range_is(c, py::range<T>(lo, hi), lo, hi, len < 3000);
    if (W(hi) <= W(std::numeric_limits<P>::max())) range_is(c, py::range<T>(hi), T(0), hi, W(hi) < 3000);
    static_assert(py::range<T>(T(2), T(5)).size() == 3 && py::range<T>(T(3)).contains(T(2)), "usable in constant expressions");
    if (len > 1) c.nontrivial();
}
PROP(range_int, 3000, 200000) { ranges<int>(c); }
PROP(range_int8, 1500, 100000) { ranges<int8_t>(c); }
PROP(range_uint16, 1500, 100000) { ranges<uint16_t>(c); }
PROP(range_uint32, 1500, 100000) { ranges<uint32_t>(c); }
PROP(range_int64, 1500, 100000) { ranges<int64_t>(c); }
PROP(range_uint64, 1500, 100000) { ranges<uint64_t>(c); }

// ------------------------------------------------------------ enumerate
PROP(enumerates, 3000, 100000)
{
    std::vector<int> v;
    for (int64_t k = c.in(0, 30); k > 0; --k) v.push_back(int(c.sym(100)));
    const std::list<int> l(v.begin(), v.end());
    const std::map<int, int> mm = [&] { std::map<int, int> r; for (int x : v) r[x]++; return r; }();
    size_t k = 0;
    std::vector<int> w = v;
    for (auto&& p : py::enumerate(w)) // elements are the container's own
    {
        c.check(k < v.size() && std::get<0>(p) == k && std::get<1>(p) == v[k], pbt::str("pair ", k));
        std::get<1>(p) += int(k) + 1;
        ++k;
    }
    c.check(k == v.size(), "enumeration ends early");
    for (size_t i = 0; i < v.size(); ++i) c.check(w[i] == v[i] + int(i) + 1, "writing through an enumeration");
    k = 0;
    for (auto&& [i, x] : py::enumerate(l)) c.check(i == k && k < v.size() && x == v[k], pbt::str("pair ", k, " of a list")), ++k;
    c.check(k == v.size(), "enumeration of a list ends early");
    k = 0;
    for (auto&& [i, x] : py::enumerate(std::vector<int>(v))) c.check(i == k && k < v.size() && x == v[k], pbt::str("pair ", k, " of a temporary")), ++k;
    c.check(k == v.size(), "enumeration of a temporary ends early");
    k = 0;
    auto it = mm.begin();
    for (auto&& [i, x] : py::enumerate(mm)) c.check(i == k && it != mm.end() && &x == &*it, pbt::str("pair ", k, " of a map")), ++k, ++it;
    c.check(it == mm.end(), "enumeration of a map ends early");
    if (v.size() > 1) c.nontrivial();
}

// ------------------------------------------------------------ graph adaptor
template <typename G>
void adaptor(pbt::Ctx& c)
{
    using tr = boost::graph_traits<G>;
    constexpr bool directed = std::is_convertible_v<typename tr::directed_category, boost::directed_tag>;
    constexpr bool parallel = std::is_convertible_v<typename tr::edge_parallel_category, boost::allow_parallel_edge_tag>;
    const DG dg = gen_graph(c, c.chance(4) ? 40 : 8, c.chance(4) ? 120 : 14);
    int n = dg.n;
    G base(static_cast<size_t>(n));
    using Arc = std::pair<size_t, size_t>;
    std::multiset<Arc> arcs;
    auto norm = [&](Arc a) { return directed || a.first < a.second ? a : Arc {a.second, a.first}; };
    auto model_add = [&](size_t u, size_t v) {
        if (!parallel && arcs.count(norm({u, v}))) return false;
        arcs.insert(norm({u, v}));
        n = std::max(n, int(std::max(u, v)) + 1);
        return true;
    };
    const size_t pre = c.draw(dg.arcs.size() + 1); // the rest is added through the adaptor
    for (size_t k = 0; k < pre; ++k)
    {
        boost::add_edge(size_t(dg.arcs[k].first), size_t(dg.arcs[k].second), base);
        model_add(size_t(dg.arcs[k].first), size_t(dg.arcs[k].second));
    }
    c.note(dg.show(), "; ", pre, " arcs before wrapping");
    auto a = std::make_unique<xn::grAdaptor<G>>(std::move(base));
    auto E = a->edges(); // taken once, shows later additions too
    std::vector<decltype(a->neighbors(0))> nb;
    for (int v = 0; v < n; ++v) nb.push_back(a->neighbors(size_t(v)));
    auto verify = [&]() {
        c.check(a->number_of_nodes() == size_t(n), pbt::str(a->number_of_nodes(), " nodes, should be ", n));
        c.check(a->number_of_edges() == arcs.size(), pbt::str(a->number_of_edges(), " arcs, should be ", arcs.size()));
        std::set<size_t> vs;
        for (auto v : *a) c.check(v < size_t(n) && vs.insert(v).second && v != a->null_vertex(), pbt::str("vertex ", v));
        c.check(vs.size() == size_t(n), "vertices missing");
        c.check(size_t(std::distance(a->cbegin(), a->cend())) == size_t(n), "cbegin, cend");
        auto collect = [&](auto first, auto last) {
            std::multiset<Arc> s;
            for (auto it = first; it != last; ++it)
            {
                const auto e = *it;
                const auto [u, v] = a->end_points(e);
                c.check(a->source(e) == u && a->target(e) == v, "end points are not source and target");
                s.insert(norm({u, v}));
            }
            return s;
        };
        c.check(collect(E.begin(), E.end()) == arcs, "the set of arcs");
        c.check(collect(E.cbegin(), E.cend()) == arcs, "the set of arcs (cbegin)");
        for (size_t v = 0; v < nb.size(); ++v)
        {
            std::multiset<Arc> want;
            for (auto& x : arcs)
            {
                if (x.first == v) want.insert(x);
                if (!directed && x.second == v) want.insert(x); // a loop shows twice
            }
            size_t k = 0;
            for (auto e : nb[v])
            {
                c.check(a->source(e) == v, pbt::str("an out-arc of ", v, " starts elsewhere"));
                ++k;
            }
            const auto got = collect(nb[v].begin(), nb[v].end());
            if (directed || !arcs.count({v, v}))
                c.check(got == want && k == want.size(), pbt::str("the out-arcs of ", v));
            else
                c.check(std::set<Arc>(got.begin(), got.end()) == std::set<Arc>(want.begin(), want.end()), pbt::str("the arcs at ", v));
            c.check(collect(nb[v].cbegin(), nb[v].cend()) == got, "cbegin of neighbors");
        }
    };
    verify();
    size_t added = 0;
    for (size_t k = pre; k < dg.arcs.size(); ++k)
    {
        auto u = size_t(dg.arcs[k].first), v = size_t(dg.arcs[k].second);
        if (c.chance(5)) v = size_t(n); // vertices appear as needed
        const auto [e, fresh] = a->add_edge(u, v);
        c.check(fresh == model_add(u, v), pbt::str("add_edge(", u, ", ", v, ") reports ", fresh));
        c.check(norm(a->end_points(e)) == norm({u, v}), "the arc returned by add_edge");
        ++added;
        verify();
    }
    // a copy is another graph
    auto b = *a;
    const auto m = a->number_of_edges();
    b.add_edge(0, 0);
    c.check(a->number_of_edges() == m, "adding an arc to a copy changed the original");
    verify();
    if (added && arcs.size() > 2) c.nontrivial();
}
template <typename O, typename D> using AL = boost::adjacency_list<O, boost::vecS, D>;
PROP(graph_vec_directed, 2000, 60000) { adaptor<AL<boost::vecS, boost::directedS>>(c); }
PROP(graph_list_directed, 1000, 40000) { adaptor<AL<boost::listS, boost::directedS>>(c); }
PROP(graph_set_directed, 1000, 40000) { adaptor<AL<boost::setS, boost::directedS>>(c); }
PROP(graph_vec_bidirectional, 1000, 40000) { adaptor<AL<boost::vecS, boost::bidirectionalS>>(c); }
PROP(graph_vec_undirected, 1000, 40000) { adaptor<AL<boost::vecS, boost::undirectedS>>(c); }

