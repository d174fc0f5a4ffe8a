// C16: the nominal and the robust profit oracle.
#include "profit.hpp"

template <typename O>
static void history(pbt::Ctx& c, const Model& m, O& P, const char* what)
{
    double t = c.chance(50) ? 0. : c.real(0., 30.);
    c.note(m.show(), " start t=", t);
    const auto len = c.many(1, 12, 60, 3);
    auto good = good_points(c, m, 0, 4);
    int improved = 0, attacked = 0;
    for (int i = 0; i < len; ++i)
    {
        Vec y = gen_y(c, m);
        if (!good.empty() && c.chance(40)) // near a good point: improvements are rare elsewhere
        {
            const auto& q = good[c.draw(good.size())];
            const double s = c.pick(DV {0., .01, .2, 1.});
            for (size_t k = 0; k < 2; ++k) y[k] = double(q[k] + s * R(c.gauss()));
        }
        const double before = t;
        const auto [cut, shrunk] = P(toArr(DV(y.begin(), y.end())), t);
        const auto g = toDV(std::get<0>(cut));
        const double b = std::get<1>(cut);
        const R pi = m.profit(y), rev = m.revenue(y), need = before + m.cost(y);
        c.note("y=", show(DV(y.begin(), y.end())), " t=", before, " profit ", double(pi), shrunk ? pbt::str(" -> improved to ", t) : " ->", " cut g=", show(g), " beta=", b);
        c.check(std::isfinite(b) && std::isfinite(g[0]) && std::isfinite(g[1]), pbt::str(what, ": cut not finite"));
        c.check(b >= 0, pbt::str(what, ": the cut keeps the queried point strictly inside"));
        const bool clear = std::fabs(std::log(need) - std::log(rev)) > 1e-10L && std::fabs(y[0] - m.limit()) > 1e-12L;
        const bool want = m.admissible(y) && rev > need;
        if (clear) c.check(shrunk == want, pbt::str(what, want ? ": an admissible point with a higher profit is not reported as improvement" : ": an improvement was reported for a point that is not admissible or not better"));
        if (shrunk)
        {
            c.check(std::fabs(t - pi) <= 1e-10L * (rev + need), pbt::str(what, ": the best value was set to ", t, ", the profit is ", double(pi)));
            ++improved;
        }
        else c.check(t == before, pbt::str(what, ": the best value changed without an improvement"));
        auto starts = good;
        auto ok = [&](const Vec& w) { return m.admissible(w) && m.profit(w) > R(t) + 1e-9L * (R(t) + m.cost(w)) && std::fabs(w[0]) < 12 && std::fabs(w[1]) < 12; };
        const auto [v, w] = attack(c, y, g, b, starts, ok, 4);
        if (v > 1e-9L && removed(g, b, y, w) > 1e-11L) // its logarithms are rounded
            c.fail(pbt::str(what, ": the cut removes the admissible point ", show(DV(w.begin(), w.end())), " with profit ", double(m.profit(w)), " > ", t));
        if (std::isfinite(double(v))) ++attacked;
    }
    if (improved) c.label("improved");
    if (improved && attacked) c.nontrivial();
}
PROP(nominal, 8000, 100000)
{
    const auto m = gen_model(c, false);
    const profit_oracle P(m.p, m.A, m.k, pair(m.a), pair(m.v));
    history(c, m, P, "profit_oracle");
}
PROP(robust, 8000, 100000)
{
    const auto m = gen_model(c, true);
    profit_rb_oracle P(m.p, m.A, m.k, pair(m.a), pair(m.v), pair(m.e), m.e3);
    history(c, m, P, "profit_rb_oracle");
}
