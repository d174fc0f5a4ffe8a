// C27: the light-weight graph classes against a map of maps.
#include "pbt.hpp"
#include <memory>
#include <xnetwork/classes/digraphs.hpp>

using pbt::str;
using Rng = decltype(py::range<int>(1));
using Arcs = std::map<std::pair<int, int>, int>; // with their data

template <bool Directed, bool Data, typename G>
static void look(pbt::Ctx& c, G& g, int n, const Arcs& arcs)
{
    c.check(g.number_of_nodes() == size_t(n) && g.order() == size_t(n), str(g.number_of_nodes(), " nodes, should be ", n));
    size_t distinct = 0;
    for (auto& [e, d] : arcs) distinct += Directed || e.first <= e.second;
    c.check(g.number_of_edges() == distinct, str(g.number_of_edges(), " arcs, should be ", distinct));
    int k = 0;
    for (auto v : g) c.check(v == k++, "iteration over the nodes");
    c.check(k == n, "iteration over the nodes ends early");
    c.check(g.null_vertex() < 0 || g.null_vertex() >= n, "null_vertex() is a vertex");
    c.check(g.is_directed() == Directed && !g.is_multigraph(), "is_directed, is_multigraph");
    const G& cg = g;
    std::vector<std::set<int>> to(static_cast<size_t>(n));
    for (auto& [e, d] : arcs) to[size_t(e.first)].insert(e.second);
    auto far = [&]() -> int { // a node number that is none, however it is cut down
        const int64_t a = c.pick(std::vector<int64_t> {256, 65536, 1LL << 24, 1LL << 30, -256, -65536, -(1LL << 31)});
        const int64_t v = c.chance(70) ? a + int64_t(c.draw(uint64_t(n))) : c.sym(2000000000);
        return v < 0 || v >= n ? int(v) : n;
    };
    // all nodes of a small graph, some of a large one
    std::vector<int> some;
    if (n <= 64)
        for (int u = -1; u <= n; ++u) some.push_back(u);
    else
    {
        some = {-1, 0, n - 1, n};
        for (int k = 0; k < 12; ++k) some.push_back(int(c.draw(uint64_t(n))));
        for (int k = 0; k < 6 && !arcs.empty(); ++k)
        {
            const auto it = arcs.lower_bound({int(c.draw(uint64_t(n))), 0});
            if (it == arcs.end()) continue;
            some.push_back(it->first.first);
            some.push_back(it->first.second);
        }
    }
    for (int k = 0; k < 2; ++k) some.push_back(far());
    for (int u : some)
    {
        c.check(g.has_node(u) == (u >= 0 && u < n) && g.contains(u) == g.has_node(u), str("membership of node ", u));
        if (u < 0 || u >= n) continue;
        const auto& want = to[size_t(u)];
        std::set<int> got;
        for (auto v : cg[u]) c.check(got.insert(v).second, str("neighbour ", v, " of ", u, " appears twice"));
        c.check(got == want, str("neighbours of ", u));
        c.check(g.degree(u) == want.size(), str("degree of ", u, " is ", g.degree(u)));
        got.clear();
        for (auto v : g[u]) got.insert(v);
        c.check(got == want, str("neighbours of ", u));
        for (int v : some)
        {
            const bool in = want.count(v) != 0;
            c.check(g.has_edge(u, v) == in, str("has_edge(", u, ", ", v, ")"));
            if constexpr (Directed) c.check(g.has_successor(u, v) == in, str("has_successor(", u, ", ", v, ")"));
            if constexpr (Data)
                if (in) c.check(cg[u][v] == arcs.at({u, v}), str("data of arc ", u, ">", v, " is ", cg[u][v]));
        }
        if constexpr (Directed)
        {
            got.clear();
            for (auto v : g.successors(u)) got.insert(v);
            c.check(got == want, str("successors of ", u));
            got.clear();
            for (auto v : cg.successors(u)) got.insert(v);
            c.check(got == want, str("successors of ", u));
            c.check(!g.has_successor(n, u) && !g.has_successor(-1, u), "successors of a node that does not exist");
        }
    }
    auto rows = [&](auto&& view, const char* what) {
        int u = 0;
        for (auto& nbrs : view)
        {
            c.check(u < n, what);
            const auto& want = to[size_t(u)];
            std::set<int> got;
            for (auto v : nbrs) got.insert(v);
            c.check(got == want, str(what, " of ", u));
            ++u;
        }
        c.check(u == n, what);
    };
    rows(g.adj(), "adj()");
    rows(cg.adj(), "adj() of a const graph");
    if constexpr (Directed) rows(cg.succ(), "succ()");
    int seen = 0;
    for (auto [u, nbrs] : cg._nodes_nbrs())
    {
        c.check(int(u) == seen++, "_nodes_nbrs()");
        c.check(int(u) < n && nbrs.size() == to[size_t(u)].size(), str("_nodes_nbrs() of ", u));
    }
    c.check(seen == n, "_nodes_nbrs() ends early");
    if constexpr (Directed)
    {
        std::set<std::pair<int, int>> got;
        for (auto&& e : cg.edges())
        {
            c.check(arcs.count(e) && got.insert(e).second, str("edges() yields ", e.first, ">", e.second, " wrongly"));
            c.check(g.end_points(e) == e, "end_points");
        }
        c.check(got.size() == arcs.size(), "edges() misses arcs");
    }
}
template <bool Directed, bool Data, typename G>
static void history(pbt::Ctx& c)
{
    const bool large = c.chance(3);
    const int n = int(large ? c.in(100, 900) : c.many(1, 9, 60, 5));
    auto g = c.chance(50) ? std::make_unique<G>(n) : std::make_unique<G>(py::range<int>(n));
    Arcs arcs;
    auto put = [&](int u, int v, int d) {
        arcs[{u, v}] = d;
        if (!Directed) arcs[{v, u}] = d;
    };
    auto node = [&] { return int(c.draw(uint64_t(n))); };
    int again = 0;
    bool moved = false, cleared = false;
    std::string name;
    look<Directed, Data>(c, *g, n, arcs);
    c.check(std::string(g->get_name()).empty(), "a new graph has a name");
    for (int64_t o = (large ? c.in(5, 30) : c.many(1, 25, c.chance(10) ? 900 : 200, 5)); o > 0; --o)
    {
        const int u = node(), v = node(), d = int(c.sym(99));
        again += arcs.count({u, v}) != 0;
        const auto op = c.chance(4) ? 6 + c.draw(3) : c.draw(6);
        c.note("operation ", op, ": ", u, ", ", v, ", ", d);
        if (op <= 1)
        {
            g->add_edge(u, v); // an existing arc keeps its data
            if (!arcs.count({u, v})) put(u, v, 0);
        }
        else if (op == 4)
        {
            std::vector<std::pair<int, int>> es;
            std::vector<int> ds;
            for (int64_t k = n > 12 && c.chance(large ? 40 : 4) ? c.in(200, 700) : c.in(0, 4); k > 0; --k)
            {
                es.emplace_back(node(), node());
                ds.push_back(int(c.sym(99)));
            }
            if constexpr (Data)
            {
                g->add_edges_from(es, ds);
                for (size_t k = 0; k < es.size(); ++k) put(es[k].first, es[k].second, ds[k]);
            }
        }
        else if (op == 5)
        {
            auto h = std::make_unique<G>(std::move(*g));
            g = std::move(h);
            moved = true;
        }
        else if (op == 6)
        {
            g->clear();
            arcs.clear();
            name.clear();
            cleared = true;
        }
        else if (op == 7)
        {
            name = str("graph ", d);
            g->set_name(name);
        }
        else if (op == 8)
        {
            // the inner level may be written to
            if constexpr (Data && Directed)
                if (arcs.count({u, v}))
                {
                    (*g)[u][v] = d;
                    arcs[{u, v}] = d;
                }
        }
        else if constexpr (Data)
        {
            g->add_edge(u, v, d);
            put(u, v, d);
        }
        else
        {
            g->add_edge(u, v);
            put(u, v, 0);
        }
        look<Directed, Data>(c, *g, n, arcs);
        c.check(g->get_name() == name, str("the name is '", g->get_name(), "', should be '", name, "'"));
    }
    if (cleared) c.label("cleared");
    if (arcs.size() >= 3 && (again || moved || cleared)) c.nontrivial();
}
using DictAdj = py::dict<int, int>;
using SetAdj = py::set<int>;
PROP(digraph_data, 2500, 80000) { history<true, true, xn::DiGraphS<Rng, DictAdj>>(c); }
PROP(digraph_plain, 2000, 60000) { history<true, false, xn::DiGraphS<Rng, SetAdj>>(c); }
PROP(graph_data, 2000, 60000) { history<false, true, xn::Graph<Rng, DictAdj>>(c); }
PROP(graph_plain, 2000, 60000) { history<false, false, xn::Graph<Rng, SetAdj>>(c); }
