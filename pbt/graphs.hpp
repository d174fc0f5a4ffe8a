// Digraphs for the network checks: generation, an independent Bellman-Ford,
// enumeration of all simple cycles.
#pragma once
#include "pbt.hpp"
#include <boost/graph/adjacency_list.hpp>
#include <py2cpp/nx2bgl.hpp>

struct DG
{
    int n = 0;
    std::vector<std::pair<int, int>> arcs;
    std::string show() const
    {
        std::string s = pbt::str(n, " nodes:");
        for (auto& [u, v] : arcs) s += pbt::str(' ', u, '>', v);
        return s;
    }
};

inline DG gen_graph(pbt::Ctx& c, int max_n, int max_m, bool loops = true)
{
    DG g;
    g.n = int(c.in(1, max_n));
    const int m = int(c.in(0, max_m));
    const int shape = int(c.draw(4));
    auto node = [&]() { return int(c.draw(uint64_t(g.n))); };
    if (shape == 1 && g.n > 1) // a ring through all nodes, then chords
    {
        const bool back = c.chance(50); // against the order of the nodes
        for (int i = 0; i < g.n; ++i) g.arcs.emplace_back(back ? (i + 1) % g.n : i, back ? i : (i + 1) % g.n);
    }
    if (shape == 2 && g.n > 2) // two parts
    {
        const int h = g.n / 2;
        for (int k = 0; k < m; ++k)
        {
            int u = node(), v = node();
            if ((u < h) != (v < h)) v = u < h ? int(c.draw(uint64_t(h))) : h + int(c.draw(uint64_t(g.n - h)));
            g.arcs.emplace_back(u, v);
        }
    }
    else
        for (int k = 0; k < m; ++k)
        {
            int u = node(), v = node();
            if (shape == 3 && u > v && !c.chance(15)) std::swap(u, v); // mostly acyclic
            if (!g.arcs.empty() && c.chance(10)) std::tie(u, v) = g.arcs[c.draw(g.arcs.size())]; // parallel
            g.arcs.emplace_back(u, v);
        }
    if (!loops)
        for (size_t k = 0; k < g.arcs.size();)
            if (g.arcs[k].first == g.arcs[k].second) g.arcs.erase(g.arcs.begin() + long(k));
            else ++k;
    return g;
}

// one long ring with a few chords: long cycles, but few of them
inline DG gen_ring(pbt::Ctx& c, int max_n, int chords = 4)
{
    DG g;
    g.n = int(c.in(2, max_n));
    std::vector<int> order;
    for (int i = 0; i < g.n; ++i) order.push_back(i);
    const int kind = int(c.draw(3)); // with, against or across the order of the nodes
    if (kind == 1) std::reverse(order.begin(), order.end());
    if (kind == 2)
        for (int i = g.n - 1; i > 0; --i) std::swap(order[size_t(i)], order[c.draw(uint64_t(i) + 1)]);
    for (int i = 0; i < g.n; ++i) g.arcs.emplace_back(order[size_t(i)], order[size_t((i + 1) % g.n)]);
    for (int64_t k = c.in(0, chords); k > 0; --k)
    {
        const int u = int(c.draw(uint64_t(g.n))), v = int(c.draw(uint64_t(g.n)));
        const auto at = g.arcs.begin() + long(c.draw(g.arcs.size() + 1));
        g.arcs.emplace(at, u, v);
    }
    return g;
}

template <typename OutList = boost::vecS>
using graph_of = boost::adjacency_list<OutList, boost::vecS, boost::directedS, boost::no_property,
    boost::property<boost::edge_index_t, int>>;
template <typename OutList = boost::vecS>
xn::grAdaptor<graph_of<OutList>> adapt(const DG& g)
{
    graph_of<OutList> b(size_t(g.n));
    for (size_t k = 0; k < g.arcs.size(); ++k)
        boost::add_edge(size_t(g.arcs[k].first), size_t(g.arcs[k].second), boost::property<boost::edge_index_t, int>(int(k)), b);
    return xn::grAdaptor<graph_of<OutList>> {std::move(b)};
}
template <typename G, typename E>
int arc_id(const G& g, const E& e) { return boost::get(boost::edge_index, g)[e]; }

// potentials p with p[v] <= p[u] + w for all arcs, if there are any
template <typename W>
bool potentials(const DG& g, const std::vector<W>& w, std::vector<W>* out = nullptr)
{
    std::vector<W> p(size_t(g.n), W(0));
    for (int round = 0; round <= g.n; ++round)
    {
        bool any = false;
        for (size_t k = 0; k < g.arcs.size(); ++k)
        {
            const auto u = size_t(g.arcs[k].first), v = size_t(g.arcs[k].second);
            if (p[u] + w[k] < p[v]) { p[v] = p[u] + w[k]; any = true; }
        }
        if (!any)
        {
            if (out) *out = p;
            return true;
        }
    }
    return false;
}

// every simple cycle, as a list of arc numbers; gives up (false) after limit
inline bool cycles(const DG& g, std::vector<std::vector<int>>& out, size_t limit = 20000)
{
    std::vector<std::vector<int>> from(static_cast<size_t>(g.n));
    for (size_t k = 0; k < g.arcs.size(); ++k) from[size_t(g.arcs[k].first)].push_back(int(k));
    std::vector<int> path;
    std::vector<char> on(size_t(g.n), 0);
    bool ok = true;
    std::function<void(int, int)> go = [&](int root, int u) {
        if (!ok) return;
        on[size_t(u)] = 1;
        for (int k : from[size_t(u)])
        {
            const int v = g.arcs[size_t(k)].second;
            path.push_back(k);
            if (v == root) out.push_back(path);
            else if (v > root && !on[size_t(v)]) go(root, v);
            path.pop_back();
            if (out.size() > limit) { ok = false; break; }
        }
        on[size_t(u)] = 0;
    };
    for (int r = 0; r < g.n; ++r) go(r, r);
    return ok;
}

// do these arcs form one closed simple cycle (in whatever order)?
inline bool simple_cycle(const DG& g, const std::vector<int>& ids)
{
    if (ids.empty()) return false;
    std::map<int, int> next;
    std::set<int> heads;
    for (int k : ids)
    {
        if (k < 0 || size_t(k) >= g.arcs.size()) return false;
        const auto [u, v] = g.arcs[size_t(k)];
        if (!next.emplace(u, v).second || !heads.insert(v).second) return false;
    }
    int at = g.arcs[size_t(ids[0])].first;
    for (size_t i = 0; i < ids.size(); ++i)
    {
        const auto it = next.find(at);
        if (it == next.end()) return false;
        at = it->second;
        next.erase(it);
    }
    return at == g.arcs[size_t(ids[0])].first && next.empty();
}
inline std::string show_ids(const std::vector<int>& v)
{
    std::string s = "{";
    for (auto x : v) s += pbt::str(s.size() > 1 ? " " : "", x);
    return s + "}";
}
