// C28: objects do not influence one another: each answers as it would alone,
// whatever other objects of any kind are used in between or at the same time,
// and a copy is a snapshot of its origin.
#include "graphs.hpp"
#include "mats.hpp"
#include <array>
#include <condition_variable>
#include <valarray>
#include <cstring>
#include <functional>
#include <memory>
#include <mutex>
#include <thread>

#include <ellcpp/cut_config.hpp>
#include <ellcpp/cutting_plane.hpp>
#include <ellcpp/ell.hpp>
#include <ellcpp/ell1d.hpp>
#include <ellcpp/ell_stable.hpp>
#include <ellcpp/oracles/cycle_ratio_oracle.hpp>
#include <ellcpp/oracles/lmi0_oracle.hpp>
#include <ellcpp/oracles/lmi_old_oracle.hpp>
#include <ellcpp/oracles/lmi_oracle.hpp>
#include <ellcpp/oracles/lowpass_oracle.hpp>
#include <ellcpp/oracles/optscaling_oracle.hpp>
#include <ellcpp/oracles/profit_oracle.hpp>
#include <ellcpp/oracles/qmi_oracle.hpp>
#include <ellip/posynomial.hpp>
#include <netoptim/min_cycle_ratio.hpp>
#include <py2cpp/fractions.hpp>
#include <py2cpp/py2cpp.hpp>

auto to_csd(double num, int places) noexcept -> std::string;
auto to_csdfixed(double num, unsigned int nnz) noexcept -> std::string;
auto to_decimal(std::string_view csd_str) noexcept -> double;
Arr create_2d_sites(size_t nx, size_t ny);
std::tuple<Arr, size_t, bool> lsq_corr_poly(const Arr& Y, const Arr& s, size_t m);

using Log = std::vector<double>;
struct Obj
{
    virtual ~Obj() = default;
    virtual std::unique_ptr<Obj> copy() const = 0; // none if the class cannot be copied
    virtual std::unique_ptr<Obj> move() = 0;
};
template <typename T>
struct Box : Obj
{
    std::unique_ptr<T> p;
    explicit Box(std::unique_ptr<T> q) : p(std::move(q)) { }
    std::unique_ptr<Obj> copy() const override
    {
        if constexpr (std::is_constructible_v<T, const T&>) return std::make_unique<Box>(std::make_unique<T>(*p));
        else return nullptr;
    }
    std::unique_ptr<Obj> move() override
    {
        if constexpr (std::is_constructible_v<T, T&&>) return std::make_unique<Box>(std::make_unique<T>(std::move(*p)));
        else return nullptr;
    }
};
template <typename T, typename... A>
std::unique_ptr<Obj> box(A&&... a) { return std::make_unique<Box<T>>(std::make_unique<T>(std::forward<A>(a)...)); }
template <typename T>
T& in(Obj& o) { return *static_cast<Box<T>&>(o).p; }
using Step = std::function<void(Obj&, Log&)>;
// an object's life: how it is made and what is done to it
struct Life
{
    std::string name;
    std::function<std::unique_ptr<Obj>()> make;
    std::vector<Step> steps, other; // other: an alternative course, for a copy
    bool copyable = false;
};
static void put(Log& l, const Arr& a) { l.push_back(-7.5); l.insert(l.end(), a.begin(), a.end()); }
static void put(Log& l, double a) { l.push_back(a); }
template <typename B>
static void put(Log& l, const std::tuple<Arr, B>& k) { put(l, std::get<0>(k)); put(l, std::get<1>(k)); }
template <typename K>
static void put(Log& l, const std::optional<K>& k)
{
    l.push_back(k ? 1 : 0);
    if (k) put(l, *k);
}

struct Gen
{
    pbt::Ctx& c;
    size_t dim; // the objects of a case mostly agree in size, so that a shared buffer fits
    bool plain = false; // few different numbers, so that a value kept from another call is mistaken for a fresh one
    Arr vec(size_t n, double s = 2.)
    {
        Arr a = Arr::from_shape({n});
        for (auto& v : a) v = plain ? double(c.sym(1)) : c.num(s);
        return a;
    }
    Arr dir(size_t n)
    {
        auto a = vec(n, 2.);
        double q = 0;
        for (auto v : a) q += std::fabs(v);
        if (q < .1) a(c.draw(n)) = 1.;
        return a;
    }
    Arr mat(size_t r, size_t k, double s = 2.)
    {
        Arr a = Arr::from_shape({r, k});
        for (auto& v : a) v = plain ? double(c.sym(1)) : c.num(s);
        return a;
    }
    Arr sym(size_t n, double s = 2.)
    {
        auto a = mat(n, n, s);
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < i; ++j) a(j, i) = a(i, j);
        return a;
    }
    size_t len() { return size_t(c.many(2, 8, 30, 3)); }

    void fill(Life& l, const std::function<Step()>& step)
    {
        for (size_t k = len(); k > 0; --k) l.steps.push_back(step());
        if (l.copyable)
            for (size_t k = len(); k > 0; --k) l.other.push_back(step());
    }

    template <typename E>
    Life space(const char* name)
    {
        const auto n = dim + 1;
        Life l {pbt::str(name, " n=", n), {}, {}, {}, true};
        const bool ball = c.chance(60), par = c.chance(85), def = c.chance(40);
        Arr val = Arr::from_shape({n});
        for (auto& v : val) v = c.real(.5, 8.);
        const Arr x = vec(n, 4.);
        const bool plain = this->plain;
        if (plain) for (auto& v : val) v = val(0) < 6. ? 1. : c.pick(DV {1., 2.25, 4.});
        l.make = [=] {
            auto o = ball ? box<E>(double(val(0)), x) : box<E>(val, x);
            in<E>(*o).use_parallel_cut = par;
            in<E>(*o).no_defer_trick = def;
            return o;
        };
        fill(l, [&]() -> Step {
            Arr g = dir(n);
            const double s = c.pick(DV {.1, .3, 1., 3.});
            const auto kind = c.draw(4);
            double b0 = s * c.num(1.), b1 = b0 + std::fabs(s * c.num(1.));
            if (plain)
            {
                g = xt::zeros<double>({n});
                g(c.draw(n)) = 1.;
                b0 = c.pick(DV {0., 0., 0., .25, .5});
                b1 = b0 + c.pick(DV {.25, .5, 4.});
            }
            const bool move = c.chance(5);
            const Arr to = vec(n, 4.);
            return [=](Obj& o, Log& log) {
                auto& e = in<E>(o);
                if (move) e.set_xc(to);
                std::tuple<CUTStatus, double> r;
                if (kind < 2) r = e.update(std::tuple<Arr, double> {g, b0});
                else if (kind == 2) r = e.update(std::tuple<Arr, Arr> {g, Arr {b0, b1}});
                else r = e.update(std::tuple<Arr, Arr> {g, Arr {b0}});
                put(log, double(int(std::get<0>(r))));
                put(log, std::get<1>(r));
                put(log, e.xc());
            };
        });
        return l;
    }
    Life interval()
    {
        Life l {"ell1d", {}, {}, {}, true};
        const double lo = c.num(8.), hi = lo + c.real(.5, 8.);
        l.make = [=] { return box<ell1d>(lo, hi); };
        fill(l, [&]() -> Step {
            double g = c.num(2.);
            if (std::fabs(g) < .05) g = 1;
            const double b = c.num(1.);
            return [=](Obj& o, Log& log) {
                auto& e = in<ell1d>(o);
                const auto [st, tsq] = e.update(std::tuple<double, double> {g, b});
                put(log, double(int(st)));
                put(log, tsq);
                put(log, e.xc());
            };
        });
        return l;
    }
    struct Fac
    {
        ldlt_ext Q;
        bool plain = false; // a complete factorisation is there
        explicit Fac(size_t n) : Q(n) { }
    };
    Life ldlt()
    {
        const auto n = dim;
        Life l {pbt::str("ldlt n=", n), {}, {}, {}, true};
        l.make = [=] { return box<Fac>(n); };
        const double shift = c.pick(DV {0., 2., 6.});
        fill(l, [&]() -> Step {
            Arr A = sym(n);
            for (size_t i = 0; i < n; ++i) A(i, i) += shift;
            const Arr B = sym(n);
            const bool lazy = c.chance(50), root = c.chance(60), semi = c.chance(20), look = c.chance(30);
            return [=](Obj& o, Log& log) {
                auto& F = in<Fac>(o);
                auto& Q = F.Q;
                auto get = [&](size_t i, size_t j) { return A(i, j); };
                bool ok = Q.is_spd();
                if (!look) // else: only look at the last result
                {
                    if (semi) ok = Q.factor<decltype(get)&, true>(get);
                    else ok = lazy ? Q.factor(get) : Q.factorize(A);
                    F.plain = !semi;
                }
                put(log, ok);
                put(log, double(Q.p.first));
                put(log, double(Q.p.second));
                if (!ok)
                {
                    put(log, Q.witness());
                    for (size_t i = Q.p.first; i < Q.p.second; ++i) put(log, Q.v(i));
                    put(log, Q.sym_quad(B));
                }
                else if (root && F.plain) put(log, Q.sqrt());
            };
        });
        return l;
    }
    template <typename O>
    Life lmi(const char* name, bool hom)
    {
        const auto m = dim, n = size_t(c.in(1, 3));
        Life l {pbt::str(name, " size ", m, " variables ", n), {}, {}, {}, true};
        auto F = std::make_shared<std::vector<Arr>>();
        for (size_t k = 0; k < n + hom; ++k) F->push_back(sym(m));
        Arr F0 = sym(m);
        for (size_t i = 0; i < m; ++i) { F0(i, i) += 5; if (hom) (*F)[0](i, i) += 5; }
        if constexpr (std::is_constructible_v<O, gsl::span<const Arr>, Arr>) l.make = [=] { return box<O>(*F, F0); };
        else l.make = [=] { return box<O>(*F); };
        fill(l, [&]() -> Step {
            const Arr x = vec(n + hom, c.pick(DV {.2, 1., 4.}));
            return [=](Obj& o, Log& log) { (void)F; put(log, in<O>(o)(x)); };
        });
        return l;
    }
    Life qmi()
    {
        const auto r = dim, k = size_t(c.many(1, 3, 6)), n = size_t(c.in(1, 3));
        Life l {pbt::str("qmi ", r, "x", k, " variables ", n), {}, {}, {}, true};
        auto F = std::make_shared<std::vector<Arr>>();
        for (size_t i = 0; i < n; ++i) F->push_back(mat(r, k));
        const Arr F0 = mat(r, k);
        const double t = c.real(.5, 8.);
        l.make = [=] {
            auto o = box<qmi_oracle>(*F, F0);
            in<qmi_oracle>(*o).update(t);
            return o;
        };
        fill(l, [&]() -> Step {
            const Arr x = vec(n, c.pick(DV {.2, 1., 4.}));
            const bool up = c.chance(30);
            const double t2 = c.real(.5, 12.);
            return [=](Obj& o, Log& log) {
                (void)F;
                if (up) in<qmi_oracle>(o).update(t2);
                put(log, in<qmi_oracle>(o)(x));
            };
        });
        return l;
    }
    struct Low
    {
        lowpass_oracle P;
        double level;
    };
    Life lowpass()
    {
        const auto n = dim + 1;
        Life l {pbt::str("lowpass n=", n), {}, {}, {}, true};
        struct Rows { Arr p, s, r; };
        auto R = std::make_shared<Rows>();
        R->p = mat(size_t(c.in(1, 4)), n);
        R->s = mat(size_t(c.in(1, 4)), n);
        R->r = mat(size_t(c.in(1, 4)), n);
        const double L = c.real(.1, 1.), U = L + c.real(.5, 4.);
        const double start = c.chance(50) ? 1e100 : c.real(.5, 8.);
        l.make = [=] { return box<Low>(Low {lowpass_oracle(R->p, R->s, R->r, L, U), start}); };
        fill(l, [&]() -> Step {
            const Arr x = vec(n, c.pick(DV {.2, 1.}));
            return [=](Obj& o, Log& log) {
                (void)R;
                auto& q = in<Low>(o);
                const auto [cut, shrunk] = q.P(x, q.level);
                put(log, std::get<0>(cut));
                put(log, std::get<1>(cut));
                put(log, shrunk);
                put(log, q.level);
            };
        });
        return l;
    }
    template <typename P>
    struct WithT
    {
        P o;
        double t;
        template <typename... A>
        explicit WithT(double t0, A&&... a) : o(std::forward<A>(a)...), t(t0) { }
    };
    template <typename P, bool Robust, bool Discrete>
    Life profit(const char* name)
    {
        Life l {name, {}, {}, {}, true};
        const double p = c.real(5., 30.), A = c.real(1., 50.), k = c.real(3., 40.), e3 = c.real(0., 1.);
        const Arr a {c.real(.05, .5), c.real(.05, .5)}, v {c.real(.5, 30.), c.real(.5, 30.)}, e {c.real(0., .2), c.real(0., .2)};
        using W = WithT<P>;
        l.make = [=]() -> std::unique_ptr<Obj> {
            if constexpr (Robust) return box<W>(0., p, A, k, a, v, e, e3);
            else return box<W>(0., p, A, k, a, v);
        };
        bool first = true;
        fill(l, [&]() -> Step {
            const Arr y {c.real(-2., 4.), c.real(-2., 4.)};
            const bool retry = !first && c.chance(30);
            first = false;
            return [=](Obj& o, Log& log) {
                auto& w = in<W>(o);
                if constexpr (Discrete)
                {
                    const auto [cut, at, shrunk, more] = w.o(y, w.t, retry);
                    put(log, cut);
                    put(log, at);
                    put(log, shrunk);
                    put(log, more);
                }
                else
                {
                    const auto [cut, shrunk] = w.o(y, w.t);
                    put(log, cut);
                    put(log, shrunk);
                }
                put(log, w.t);
            };
        });
        return l;
    }

    // graphs: the object is everything a search needs
    using G_t = std::decay_t<decltype(adapt<>(std::declval<DG>()))>;
    using edge_t = typename G_t::edge_t;
    struct Net
    {
        DG dg;
        std::vector<double> cost, time;
        G_t G;
        std::vector<double> u;
        negCycleFinder<G_t> S;
        std::function<double(const edge_t&)> fc, ft;
        using Ratio = cycle_ratio_oracle<G_t, std::vector<double>, std::function<double(const edge_t&)>, std::function<double(const edge_t&)>>;
        using Scale = optscaling_oracle<G_t, std::vector<double>, std::function<double(const edge_t&)>>;
        Ratio R;
        Scale C;
        double t = -1e100, t2 = 1e100;
        Net(const DG& d, std::vector<double> a, std::vector<double> b)
            : dg(d), cost(std::move(a)), time(std::move(b)), G(adapt<>(d)), u(size_t(d.n), 0.), S(G)
            , fc([this](const edge_t& e) { return cost[size_t(arc_id(G, e))]; })
            , ft([this](const edge_t& e) { return time[size_t(arc_id(G, e))]; })
            , R(G, u, fc, ft), C(G, u, fc)
        {
        }
        Net(const Net&) = delete;
    };
    Life net()
    {
        const auto g = gen_graph(c, 6, 10, false);
        Life l {"networks " + g.show(), {}, {}, {}, false};
        std::vector<double> a, b;
        for (size_t k = 0; k < g.arcs.size(); ++k) { a.push_back(double(c.sym(9))); b.push_back(double(c.in(1, 4))); }
        l.make = [=] { return box<Net>(g, a, b); };
        fill(l, [&]() -> Step {
            const auto kind = c.draw(4);
            const double x = double(c.sym(40)) / 4., y = x + double(c.sym(40)) / 4.;
            const auto start = c.sym(6);
            return [=](Obj& o, Log& log) {
                auto& n = in<Net>(o);
                if (kind == 0)
                {
                    auto w = [&](const edge_t& e) { return n.cost[size_t(arc_id(n.G, e))] + x; };
                    for (auto&& e : n.S.find_neg_cycle(n.u, w)) put(log, double(arc_id(n.G, e)));
                }
                else if (kind == 1)
                {
                    const auto [cut, shrunk] = n.R(x, n.t);
                    put(log, std::get<0>(cut));
                    put(log, std::get<1>(cut));
                    put(log, shrunk);
                }
                else if (kind == 2)
                {
                    const auto [cut, shrunk] = n.C(Arr {x, y}, n.t2);
                    put(log, cut);
                    put(log, shrunk);
                }
                else
                {
                    using F = fun::Fraction<int64_t>;
                    F r(start + 10);
                    std::vector<F> d(size_t(n.dg.n), F(0));
                    auto fc = [&](const edge_t& e) { return int64_t(n.cost[size_t(arc_id(n.G, e))]); };
                    auto ft = [&](const edge_t& e) { return int64_t(n.time[size_t(arc_id(n.G, e))]); };
                    for (auto&& e : min_cycle_ratio(n.G, r, fc, ft, d)) put(log, double(arc_id(n.G, e)));
                    put(log, double(r.numerator()));
                    put(log, double(r.denominator()));
                }
                for (auto q : n.u) put(log, q);
                put(log, n.t);
                put(log, n.t2);
            };
        });
        return l;
    }
    // whole runs and pure functions: no object of their own
    Life runs()
    {
        Life l {"runs and functions", {}, {}, {}, false};
        l.make = [] { return box<int>(0); };
        fill(l, [&]() -> Step {
            switch (c.chance(4) ? 2 : c.pick(std::vector<int> {0, 1, 3}))
            {
                case 0: // a small optimisation
                {
                    const auto n = dim + 1;
                    const Arr a = dir(n), g = dir(n);
                    const double lim = c.real(.1, 2.);
                    return [=](Obj&, Log& log) {
                        auto O = [&](const Arr& x, double& t) {
                            using K = std::tuple<Arr, double>;
                            double f = -lim, q = 0;
                            for (size_t i = 0; i < n; ++i) f += a(i) * x(i);
                            if (f > 0) return std::make_tuple(K {a, f}, false);
                            for (size_t i = 0; i < n; ++i) q += g(i) * x(i) + .5 * x(i) * x(i);
                            Arr d = g + x;
                            if (q < t) { t = q; return std::make_tuple(K {d, 0.}, true); }
                            return std::make_tuple(K {d, q - t}, false);
                        };
                        Arr x0 = xt::zeros<double>({n});
                        ell E(16., x0);
                        double t = 1e100;
                        Options o;
                        o.max_it = 60;
                        const auto [x, info] = cutting_plane_dc(O, E, t, o);
                        if (info.feasible) put(log, x);
                        put(log, t);
                        put(log, double(info.num_iters));
                    };
                }
                case 1:
                {
                    const double v = c.num(1000.);
                    const int places = int(c.in(0, 10));
                    const auto nnz = unsigned(c.in(1, 6));
                    return [=](Obj&, Log& log) {
                        for (const auto& s : {to_csd(v, places), to_csdfixed(v, nnz)})
                        {
                            for (char q : s) put(log, double(q));
                            put(log, to_decimal(s));
                        }
                    };
                }
                case 2:
                {
                    const auto k = size_t(c.in(2, 3));
                    const double h = c.real(.2, 1.);
                    return [=](Obj&, Log& log) {
                        const Arr s = create_2d_sites(k, k);
                        put(log, s);
                        Arr Y = xt::eye(k * k);
                        for (size_t i = 0; i < k * k; ++i)
                            for (size_t j = 0; j < k * k; ++j) Y(i, j) += h / (1. + double(i > j ? i - j : j - i));
                        const auto [x, it, ok] = lsq_corr_poly(Y, s, 2);
                        put(log, x);
                        put(log, double(it));
                    };
                }
                default:
                {
                    const double q = c.real(.5, 8.), w = c.real(.1, 2.);
                    const double y0 = c.num(1.), y1 = c.num(1.);
                    return [=](Obj&, Log& log) {
                        bisect(q, w, log);
                        std::valarray<double> y {y0, y1};
                        const monomial<double> m(q, {w, -1.}), k(w, {0., q});
                        auto p = posynomial<double>(m) + k;
                        put(log, p.lse(y));
                        double f = 0;
                        for (double v : p.lse_gradient(y, f)) put(log, v);
                    };
                }
            }
        });
        return l;
    }
    static void bisect(double q, double w, Log& log)
    {
        auto P = [&](double t) { return t * t > q; };
        std::pair<double, double> I {0., 8. + w};
        const auto info = bsearch(P, I);
        put(log, I.first);
        put(log, I.second);
        put(log, double(info.num_iters));
    }
    Life any(uint64_t kind)
    {
        switch (kind)
        {
            case 0: return space<ell>("ell");
            case 1: return space<ell_stable>("ell_stable");
            case 2: return interval();
            case 3: return ldlt();
            case 4: return lmi<lmi_oracle>("lmi", false);
            case 5: return lmi<lmi_old_oracle>("lmi_old", false);
            case 6: return lmi<lmi0_oracle>("lmi0", true);
            case 7: return qmi();
            case 8: return lowpass();
            case 9: return profit<profit_oracle, false, false>("profit");
            case 10: return profit<profit_rb_oracle, true, false>("profit_rb");
            case 11: return profit<profit_q_oracle, false, true>("profit_q");
            case 12: return net();
            default: return runs();
        }
    }
    static constexpr uint64_t kinds = 14;
};
static bool same(const Log& a, const Log& b) { return a.size() == b.size() && (a.empty() || std::memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0); }
static Log alone(const Life& l)
{
    Log log;
    auto o = l.make();
    for (auto& s : l.steps) s(*o, log);
    return log;
}
static std::vector<Life> gen_lives(pbt::Ctx& c)
{
    std::vector<Life> r;
    Gen g {c, size_t(c.many(1, 4, 8))};
    auto main = c.draw(Gen::kinds);
    const auto n = c.in(2, 4);
    g.plain = c.chance(30);
    if (g.plain && c.chance(50)) main = c.draw(2);
    for (int64_t k = 0; k < n; ++k)
    {
        if (c.chance(g.plain ? 60 : 15)) g.dim = size_t(c.in(1, 4));
        r.push_back(g.any(c.chance(70) ? main : c.draw(Gen::kinds)));
        c.note("object ", k, ": ", r.back().name, ", ", r.back().steps.size(), " calls");
        c.label(r.back().name.substr(0, r.back().name.find_first_of(" :")));
    }
    return r;
}
static std::string differ(const Log& a, const Log& b)
{
    for (size_t i = 0; i < std::min(a.size(), b.size()); ++i)
        if (std::memcmp(&a[i], &b[i], sizeof(double))) return pbt::str("number ", i, " of its answers is ", a[i], " alone and ", b[i], " in company");
    return pbt::str(a.size(), " numbers alone, ", b.size(), " in company");
}

PROP(interleaved, 12000, 200000)
{
    const auto lives = gen_lives(c);
    std::vector<Log> want;
    for (auto& l : lives) want.push_back(alone(l));
    std::vector<std::unique_ptr<Obj>> o(lives.size());
    std::vector<Log> got(lives.size());
    std::vector<size_t> at(lives.size(), 0);
    std::vector<size_t> open;
    for (size_t k = 0; k < lives.size(); ++k)
    {
        open.push_back(k);
        if (c.chance(60)) o[k] = lives[k].make(); // or made later, in the middle of the others' lives
    }
    size_t turns = 0, last = lives.size();
    while (!open.empty())
    {
        const auto q = c.draw(open.size());
        const auto k = open[q];
        turns += k != last;
        last = k;
        if (!o[k]) o[k] = lives[k].make();
        if (c.chance(8))
            if (auto m = o[k]->move()) { o[k] = std::move(m); c.label("moved"); }
        if (at[k] < lives[k].steps.size()) lives[k].steps[at[k]++](*o[k], got[k]);
        else
        {
            if (c.chance(50)) o[k].reset();
            open.erase(open.begin() + long(q));
        }
    }
    for (size_t k = 0; k < lives.size(); ++k)
        if (!same(want[k], got[k])) c.fail(pbt::str("object ", k, " (", lives[k].name, ") answers differently when other objects are used in between: ", differ(want[k], got[k])));
    if (turns > lives.size() + 1) c.nontrivial();
}
// a copy made in the middle goes its own way
PROP(snapshots, 80000, 150000)
{
    Gen g {c, size_t(c.many(1, 4, 8))};
    const auto l = g.any(c.draw(12));
    c.note(l.name, ", ", l.steps.size(), " calls");
    c.label(l.name.substr(0, l.name.find(' ')));
    const auto fork = c.draw(l.steps.size() + 1);
    Life alt = l;
    alt.steps.resize(fork);
    alt.steps.insert(alt.steps.end(), l.other.begin(), l.other.end());
    const auto want = alone(l), walt = alone(alt);
    Log got, galt;
    auto o = l.make();
    for (size_t k = 0; k < fork; ++k) l.steps[k](*o, got);
    galt = got;
    auto d = o->copy();
    c.note(d ? "copied" : "moved", " after ", fork);
    if (!d) // a class that can only be moved: the new object goes on
    {
        d = o->move();
        if (!d) c.fail("the object can be neither copied nor moved");
        if (c.chance(50)) o.reset();
        for (size_t j = fork; j < alt.steps.size(); ++j) alt.steps[j](*d, galt);
        if (!same(walt, galt)) c.fail(pbt::str("the object (", l.name, ") does not continue from its state after a move: ", differ(walt, galt)));
        if (fork > 0 && fork < l.steps.size()) c.nontrivial();
        return;
    }
    size_t i = fork, j = fork;
    while (i < l.steps.size() || j < alt.steps.size())
    {
        const bool first = j >= alt.steps.size() || (i < l.steps.size() && c.chance(50));
        if (first) l.steps[i++](*o, got);
        else alt.steps[j++](*d, galt);
        if (i >= l.steps.size() && c.chance(10)) o.reset();
    }
    if (!same(want, got)) c.fail(pbt::str("the original (", l.name, ") answers differently after it was copied: ", differ(want, got)));
    if (!same(walt, galt)) c.fail(pbt::str("the copy (", l.name, ") does not continue from its origin's state: ", differ(walt, galt)));
    if (fork > 0 && fork < l.steps.size()) c.nontrivial();
}
// objects of their own in threads of their own
PROP(threads, 1500, 20000)
{
    const auto lives = gen_lives(c);
    std::vector<Log> want;
    for (auto& l : lives) want.push_back(alone(l));
    const int rounds = int(c.in(1, 6));
    std::vector<std::vector<Log>> got(lives.size());
    std::mutex m;
    std::condition_variable cv;
    bool go = false;
    std::vector<std::thread> ts;
    for (size_t k = 0; k < lives.size(); ++k)
        ts.emplace_back([&, k] {
            {
                std::unique_lock<std::mutex> lock(m);
                cv.wait(lock, [&] { return go; });
            }
            for (int r = 0; r < rounds; ++r) got[k].push_back(alone(lives[k]));
        });
    {
        std::lock_guard<std::mutex> lock(m);
        go = true;
    }
    cv.notify_all();
    for (auto& t : ts) t.join();
    for (size_t k = 0; k < lives.size(); ++k)
        for (auto& q : got[k])
            if (!same(want[k], q)) c.fail(pbt::str("object ", k, " (", lives[k].name, ") answers differently while other threads use other objects: ", differ(want[k], q)));
    c.nontrivial();
}
