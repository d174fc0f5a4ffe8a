// C17: the discrete profit oracle.
#include "profit.hpp"

PROP(queries, 12000, 150000)
{
    const auto m = gen_model(c, false);
    profit_q_oracle P(m.p, m.A, m.k, pair(m.a), pair(m.v));
    double t = c.chance(50) ? 0. : c.real(0., 30.);
    c.note(m.show(), " start t=", t);
    const auto len = c.many(1, 12, 60, 3);
    const auto good = good_points(c, m, 0, 4);
    Vec yd; // the integer point last evaluated
    int improved = 0, attacked = 0, retries = 0;
    for (int i = 0; i < len; ++i)
    {
        Vec y = gen_y(c, m);
        if (!good.empty() && c.chance(50))
        {
            const auto& q = good[c.draw(good.size())];
            const double s = c.pick(DV {0., .01, .2, 1.});
            for (size_t k = 0; k < 2; ++k) y[k] = double(q[k] + s * R(c.gauss()));
        }
        if (c.chance(15)) // next to where the nearest integer changes
        {
            const auto k = c.draw(2);
            y[k] = double(std::log(R(c.in(0, 8)) + .5L + (c.chance(50) ? 1 : -1) * std::pow(R(10), -R(c.real(1., 9.)))));
        }
        const bool retry = i > 0 && c.chance(30);
        if (i > 0 && c.chance(12)) t = c.chance(50) ? 0. : t / 2; // the caller starts over
        const double before = t;
        const auto [cut, y0, shrunk, more] = P(toArr(DV(y.begin(), y.end())), t, retry);
        const auto g = toDV(std::get<0>(cut));
        const double b = std::get<1>(cut);
        const auto yr = toDV(y0);
        c.note("y=", show(DV(y.begin(), y.end())), retry ? " retry" : "", " t=", before, " -> point exp", show(yr), shrunk ? pbt::str(" improved to ", t) : "",
            " cut g=", show(g), " beta=", b, more ? "" : " no alternative");
        c.check(more == !retry, retry ? "announces a further alternative on retry" : "announces no alternative on the first query");
        if (retry)
        {
            ++retries;
            c.check(yr.size() == 2 && R(yr[0]) == yd[0] && R(yr[1]) == yd[1], "a retry was answered for another point");
        }
        else
        {
            for (size_t k = 0; k < 2; ++k)
            {
                const R x = std::exp(y[k]), near = std::max<R>(1, std::round(x));
                const R got = std::exp(R(yr[k]));
                const bool tie = std::fabs(std::fabs(x - std::floor(x)) - .5L) < 1e-9L;
                c.check(std::fabs(got - near) <= 1e-12L * near || (tie && std::fabs(std::fabs(got - x) - .5L) < 1e-6L),
                    pbt::str("the point in coordinate ", k, " is ", double(got), ", the nearest integer to ", double(x), " is ", double(near)));
            }
            yd = {yr[0], yr[1]};
        }
        const R pi = m.profit(yd), rev = m.revenue(yd), need = before + m.cost(yd);
        const bool clear = std::fabs(std::log(need) - std::log(rev)) > 1e-10L && std::fabs(yd[0] - m.limit()) > 1e-12L;
        const bool want = m.admissible(yd) && rev > need;
        if (clear) c.check(shrunk == want, want ? "an admissible integer point with a higher profit is not reported as improvement" : "an improvement was reported for a point that is not admissible or not better");
        if (shrunk)
        {
            ++improved;
            c.check(std::fabs(t - pi) <= 1e-10L * (rev + need), pbt::str("the best value was set to ", t, ", the profit of the point is ", double(pi)));
        }
        else c.check(t == before, "the best value changed without an improvement");
        c.check(std::isfinite(b) && std::isfinite(g[0]) && std::isfinite(g[1]), "cut not finite");
        auto ok = [&](const Vec& w) { return m.admissible(w) && m.profit(w) > R(t) + 1e-9L * (R(t) + m.cost(w)) && std::fabs(w[0]) < 12 && std::fabs(w[1]) < 12; };
        const auto [v, w] = attack(c, y, g, b, good, ok, 4);
        if (std::isfinite(double(v))) ++attacked;
        // what the cut at the integer point should be
        Vec gw {1, 0};
        R hw;
        if (m.admissible(yd))
        {
            hw = std::log(need) - std::log(rev);
            if (shrunk) hw = 0;
            const R te = shrunk ? rev : need;
            for (size_t k = 0; k < 2; ++k) gw[k] = m.v[k] * std::exp(yd[k]) / te - m.a[k];
        }
        else hw = yd[0] - m.limit();
        const R shift = R(g[0]) * (y[0] - yd[0]) + R(g[1]) * (y[1] - yd[1]);
        const R sc = 1 + std::fabs(hw) + std::fabs(shift);
        const bool right = std::fabs(b - (hw + shift)) <= 1e-12L * sc;
        const bool faulty = std::fabs(b - (hw - shift)) <= 1e-12L * sc && std::fabs(g[0] - gw[0]) + std::fabs(g[1] - gw[1]) <= 1e-8L * (1 + std::fabs(gw[0]) + std::fabs(gw[1]));
        if (v > 1e-9L && removed(g, b, y, w) > 1e-11L) // its logarithms are rounded
        {
            const auto what = pbt::str("the cut, expressed at the query, removes the admissible point ", show(DV(w.begin(), w.end())), " with profit ", double(m.profit(w)), " > ", t);
            if (std::fabs(yd[0] - m.limit()) <= 1e-12L) continue; // either branch was right
            c.check(faulty && !right, what);
            c.known("profit-q-shift", what);
        }
        else if (!right && faulty) c.label("recorded shift, harmless here");
        else if (right) c.label("shift right or zero");
        else if (clear) c.fail(pbt::str("the offset ", b, " is neither that of the cut at the integer point moved to the query (", double(hw + shift), ") nor the recorded defect's"));
    }
    if (improved) c.label("improved");
    if (retries) c.label("retried");
    if (improved && attacked) c.nontrivial();
}
