// C10: bisection and its adaptor.
#include "loops.hpp"
#include <py2cpp/fractions.hpp>

// integers of several widths: every bracket whose width fits the type
template <typename T>
static void integers(pbt::Ctx& c, __int128 lo_min, __int128 hi_max, __int128 wmax)
{
    // lower end, width and threshold at all magnitudes
    auto mag = [&](__int128 m) -> __int128 { // 0..m
        if (m <= 0) return 0;
        int bits = 0;
        for (auto v = m; v > 0; v >>= 1) ++bits;
        const int k = int(c.in(0, bits));
        const __int128 cap = k >= bits ? m : std::min<__int128>(m, (__int128(1) << k) - 1);
        if (c.chance(10)) return m;
        const auto span = uint64_t(cap);
        return __int128(span == UINT64_MAX ? c.draw(UINT64_MAX) : c.draw(span + 1));
    };
    __int128 lo = c.chance(50) ? mag(hi_max) : -mag(-lo_min);
    const __int128 w = mag(std::min(wmax, hi_max - lo));
    const __int128 hi = lo + w;
    __int128 thr;
    switch (c.draw(6))
    {
        case 0: thr = lo - 1; break;
        case 1: thr = hi + 1; break;
        case 2: thr = c.chance(50) ? lo : lo + 1; break;
        case 3: thr = c.chance(50) ? hi : hi - 1; break;
        default: thr = lo + mag(w); break;
    }
    Options o;
    o.tol = c.pick(std::vector<double> {1e-8, 1e-8, .5, 1., 2., 10.});
    if (c.chance(20)) o.max_it = unsigned(c.in(0, 12));
    std::pair<T, T> I {T(lo), T(hi)};
    uint64_t queries = 0;
    const auto info = bsearch([&](const T& t) {
        ++queries;
        if (queries > 3000) c.fail("bisection does not end");
        c.check(__int128(t) >= lo && __int128(t) <= hi, "queried outside the bracket");
        return __int128(t) >= thr; }, I, o);
    c.note("[", (long long)lo, ", ", (long long)hi, "] threshold ", (long long)thr, " tol ", o.tol, " limit ", o.max_it, " -> [", (long long)I.first, ", ", (long long)I.second,
        "] feasible ", info.feasible, " status ", name(info.status), " queries ", queries);
    const __int128 l = I.first, u = I.second;
    c.check(lo <= l && l <= u && u <= hi, "the ends left the bracket");
    c.check(l == lo || l < thr, "the lower end moved to the feasible side");
    c.check(u == hi || u >= thr, "the upper end moved to the infeasible side");
    c.check(info.feasible == (u != hi), "feasible is not reported as 'the upper end moved'");
    int need = 1;
    for (auto v = w; v > 0; v >>= 1) ++need;
    c.check(queries <= uint64_t(need) + 1, pbt::str(queries, " queries for a bracket of width ", double(w)));
    if (queries >= o.max_it)
        c.check(queries == o.max_it, "more queries than the iteration limit");
    if (queries < o.max_it)
    {
        c.check(info.status == CUTStatus::smallenough, "ended early, but not because the interval is small enough");
        c.check((u - l) / 2 < o.tol, pbt::str("ended with width ", double(u - l), " at tolerance ", o.tol));
        if (o.tol <= 1) c.check(u - l <= 1, pbt::str("ended with non-adjacent integers, width ", double(u - l)));
        if (o.tol <= 1 && thr > lo && thr < hi) c.check(u == thr, "the upper end is not the threshold");
    }
    if (w > 2 && queries >= 2) c.nontrivial();
    c.label(queries < o.max_it ? "converged" : "limit");
}
PROP(int32, 60000, 600000) { integers<int>(c, INT32_MIN, INT32_MAX, INT32_MAX); }
PROP(uint32, 40000, 400000) { integers<unsigned>(c, 0, UINT32_MAX, UINT32_MAX); }
PROP(int64, 60000, 600000) { integers<long>(c, INT64_MIN, INT64_MAX, INT64_MAX); }
PROP(uint64, 40000, 400000) { integers<unsigned long>(c, 0, INT64_MAX, INT64_MAX); }
PROP(int8, 40000, 400000) { integers<signed char>(c, INT8_MIN, INT8_MAX, 255); }
PROP(int16, 40000, 400000) { integers<short>(c, INT16_MIN, INT16_MAX, 65535); }

PROP(reals, 60000, 600000)
{
    const double lo = c.num(100.), w = c.chance(5) ? 0. : std::ldexp(c.real(1., 2.), int(c.sym(20)));
    const double hi = lo + w;
    double thr = lo + (hi - lo) * (c.chance(20) ? c.pick(DV {-.1, 0., 1., 1.1, .5}) : c.unit());
    Options o;
    o.tol = w > 0 ? w * std::ldexp(1., -int(c.in(0, 25))) * c.pick(DV {1., 1., .7, 3.}) : 1e-8;
    if (o.tol < 1e-9 * (std::fabs(lo) + w)) o.tol = 1e-9 * (std::fabs(lo) + w);
    if (c.chance(20)) o.max_it = unsigned(c.in(0, 12));
    std::pair<double, double> I {lo, hi};
    uint64_t queries = 0;
    const auto info = bsearch([&](const double& t) {
        if (++queries > 3000) c.fail("bisection does not end");
        c.check(t >= lo && t <= hi, "queried outside the bracket");
        return t >= thr; }, I, o);
    c.note("[", lo, ", ", hi, "] threshold ", thr, " tol ", o.tol, " limit ", o.max_it, " -> [", I.first, ", ", I.second, "] feasible ", info.feasible, " queries ", queries);
    const auto [l, u] = I;
    c.check(lo <= l && l <= u && u <= hi, "the ends left the bracket");
    c.check(l == lo || l < thr, "the lower end moved to the feasible side");
    c.check(u == hi || u >= thr, "the upper end moved to the infeasible side");
    c.check(info.feasible == (u != hi), "feasible is not reported as 'the upper end moved'");
    const double need = w > 0 ? std::max(0., std::ceil(std::log2(w / o.tol))) + 2 : 1;
    c.check(double(queries) <= need, pbt::str(queries, " queries for width/tolerance ", w / o.tol));
    c.check(queries <= o.max_it, "more queries than the iteration limit");
    if (queries < o.max_it)
    {
        c.check(info.status == CUTStatus::smallenough, "ended early, but not because the interval is small enough");
        c.check((u - l) / 2 <= o.tol * (1 + 1e-9), pbt::str("ended with width ", u - l, " at tolerance ", o.tol));
    }
    if (queries >= 2) c.nontrivial();
}
PROP(long_runs, 200, 3000)
{
    // a tolerance of zero is never met: the limit decides
    Options o;
    o.max_it = unsigned(gen_count(c));
    o.tol = 0.;
    const double lo = c.num(100.), hi = lo + c.real(.5, 8.), thr = lo + (hi - lo) * c.real(0., 1.1);
    std::pair<double, double> I {lo, hi};
    uint64_t queries = 0;
    const auto info = bsearch([&](const double& t) {
        if (++queries > uint64_t(o.max_it) + 4) c.fail("bisection goes on after its iteration limit");
        if (!(t >= lo && t <= hi)) c.fail("queried outside the bracket");
        return t >= thr; }, I, o);
    c.note("limit ", o.max_it, " -> ", queries, " queries, iterations ", info.num_iters);
    c.check(queries == o.max_it, pbt::str(queries, " queries for a limit of ", o.max_it));
    c.check(info.feasible == (I.second != hi), "feasible is not reported as 'the upper end moved'");
    c.check(I.first <= I.second && (I.first == lo || I.first < thr) && (I.second == hi || I.second >= thr), "the ends moved to the wrong sides");
    if (o.max_it > 60) c.check(I.second - I.first <= 1e-12 * (std::fabs(lo) + 10), "the bracket did not shrink to rounding");
    if (queries > 255) c.nontrivial();
}
PROP(fractions, 40000, 400000)
{
    using F = fun::Fraction<long>;
    const long d1 = c.in(1, 30), d2 = c.in(1, 30), d3 = c.in(1, 30);
    F lo(c.sym(200), d1);
    F hi = lo + F(c.in(0, 2000), d2);
    F thr = lo + F(c.in(0, 2000), d3);
    Options o;
    o.tol = double(c.in(1, 4)); // compared as an integer
    std::pair<F, F> I {lo, hi};
    int queries = 0;
    const auto info = bsearch([&](const F& t) {
        if (++queries > 3000) c.fail("bisection does not end");
        return !(t < thr); }, I, o);
    auto v = [](const F& f) { return (long double)f.numerator() / f.denominator(); };
    c.note(double(v(lo)), " .. ", double(v(hi)), " threshold ", double(v(thr)), " tol ", o.tol, " -> ", double(v(I.first)), " .. ", double(v(I.second)));
    c.check(I.first == lo || I.first < thr, "the lower end moved to the feasible side");
    c.check(I.second == hi || !(I.second < thr), "the upper end moved to the infeasible side");
    c.check(info.feasible == (I.second != hi), "feasible is not reported as 'the upper end moved'");
    c.check((v(I.second) - v(I.first)) / 2 < o.tol, "ended with an interval wider than the tolerance allows");
    if (queries >= 2) c.nontrivial();
}

// ------------------------------------------------------------------ adaptor
struct ShapedSpace // a scripted space with a shape that counts updates
{
    pbt::Ctx* c;
    Point x;
    long shape; // id of the caller's shape plus updates since
    double tol;
    bool* over; // set once the search has a reason to end
    ShapedSpace(pbt::Ctx* c_, Point x_, long s, double t, bool* o) : c {c_}, x {x_}, shape {s}, tol {t}, over {o} { }
    explicit ShapedSpace(const ShapedSpace&) = default;
    ShapedSpace(ShapedSpace&&) = default;
    ShapedSpace copy() const { return ShapedSpace(*this); }
    Point xc() const { return x; }
    void set_xc(const Point& p) { x = p; }
    std::tuple<CUTStatus, double> update(const long& cut)
    {
        CUTStatus st = CUTStatus::success;
        if (c->chance(10)) st = c->chance(50) ? CUTStatus::nosoln : CUTStatus::noeffect;
        const double tsq = c->chance(10) ? tol * c->pick(DV {.5, .999, 1e-6}) : tol * c->pick(DV {2., 1., 1e6});
        c->check(!*over, "the space was updated after the search had a reason to end");
        *over = st != CUTStatus::success || tsq < tol;
        if (st == CUTStatus::success) { ++shape; x = {cut, shape}; }
        return {st, tsq};
    }
};
struct ScriptedOracle
{
    pbt::Ctx* c;
    double t = -1;
    bool told = false;
    long calls = 0, total = 0;
    size_t limit;
    Point first, last;
    bool accepted = false, over = false;
    void update(const double& v) { t = v; told = true; c->check(calls == 0, "the parameter was set in the middle of a search"); }
    std::optional<long> operator()(const Point& x)
    {
        c->check(told, "the oracle was queried before its parameter was set");
        c->check(!accepted, "the oracle was queried again after it accepted a point");
        c->check(!over, "the oracle was queried after a rejected cut or below the adaptor's tolerance");
        if (calls > long(limit) + 2) c->fail("more queries than the adaptor's iteration limit");
        if (calls++ == 0) first = x;
        last = x;
        ++total;
        if (c->chance(25)) { accepted = true; return {}; }
        return 100 + total;
    }
};
PROP(adaptor_scripted, 60000, 600000)
{
    Options o;
    o.max_it = c.chance(70) ? unsigned(c.in(1, 12)) : 2000;
    o.tol = c.pick(DV {1e-8, 1., 1e3});
    ScriptedOracle P {&c};
    ShapedSpace S(&c, {1, 0}, 0, o.tol, &P.over);
    P.limit = o.max_it;
    bsearch_adaptor<ScriptedOracle, ShapedSpace> A(P, S, o);
    const auto len = c.in(1, 12);
    Point best {1, 0};
    int yes = 0, no = 0, nocall = 0;
    for (int i = 0; i < len; ++i)
    {
        const double t = c.num(50.);
        P.told = P.accepted = P.over = false;
        P.calls = 0;
        const bool ok = A(t);
        c.note("parameter ", t, " -> ", ok, " after ", P.calls, " queries");
        c.check(P.told && P.t == t, "the parameter was not set to the value asked for");
        if (P.calls) c.check(P.first == best, "the search did not start at the caller's centre");
        else { ++nocall; c.check(o.max_it <= 1, "no search was made"); }
        c.check(ok == P.accepted, "the answer is not whether the search succeeded");
        c.check(ok || P.over || o.max_it <= 1 || P.calls + 1 >= long(o.max_it), "the search ended although nothing in the adaptor's options called for it");
        if (ok) { best = P.last; ++yes; }
        else ++no;
        c.check(A.x_best() == best, ok ? "the accepted point was not kept" : "a failed search changed the best point");
        c.check(S.xc() == best, "the caller's centre is not the best point");
        c.check(S.shape == 0, "the caller's shape was altered");
    }
    if (yes && no && len >= 3) c.nontrivial();
}
// max of affine functions below t, driven by bsearch over the real ellipsoid
struct MaxAffine
{
    std::vector<DV> A;
    DV b;
    double t = 0;
    void update(const double& v) { t = v; }
    double f(const DV& x) const
    {
        double m = -INFINITY;
        for (size_t k = 0; k < A.size(); ++k)
        {
            double s = b[k];
            for (size_t i = 0; i < x.size(); ++i) s += A[k][i] * x[i];
            m = std::max(m, s);
        }
        return m;
    }
    std::optional<std::tuple<Arr, double>> operator()(const Arr& xa)
    {
        const auto x = toDV(xa);
        size_t at = 0;
        double m = -INFINITY;
        for (size_t k = 0; k < A.size(); ++k)
        {
            double s = b[k];
            for (size_t i = 0; i < x.size(); ++i) s += A[k][i] * x[i];
            if (s > m) { m = s; at = k; }
        }
        if (m <= t) return {};
        return std::make_tuple(toArr(A[at]), m - t);
    }
};
PROP(adaptor_real, 1500, 15000)
{
    // f(x) = max_k |x_k - z_k| * w_k has minimum 0 at z
    const auto n = size_t(c.in(2, 4));
    MaxAffine P;
    DV z(n), x0(n);
    double dist = 0;
    for (size_t i = 0; i < n; ++i)
    {
        z[i] = c.num(2.);
        x0[i] = c.num(2.);
        dist += (z[i] - x0[i]) * (z[i] - x0[i]);
    }
    const double shift = c.num(3.);
    for (size_t i = 0; i < n; ++i)
    {
        const double w = c.real(.5, 2.);
        for (int s : {-1, 1})
        {
            DV a(n, 0.);
            a[i] = s * w;
            P.A.push_back(a);
            P.b.push_back(-s * w * z[i] + shift);
        }
    }
    // wherever the centre moves inside {f <= f(x0)}, z stays inside
    double r = P.f(x0) - shift;
    r = std::sqrt(double(n)) * r / .5 + std::sqrt(dist) + 1.;
    ell S(r * r * c.real(1., 4.), toArr(x0));
    Options in;
    in.max_it = 4000;
    in.tol = 1e-12;
    bsearch_adaptor<MaxAffine, ell> A(P, S, in);
    Options out;
    out.tol = std::ldexp(1., -int(c.in(4, 12)));
    const double top = P.f(x0) + c.real(.5, 4.); // feasible at the start
    std::pair<double, double> I {shift - c.real(.1, 2.), top};
    const auto fp = fingerprint(S, n);
    const auto info = bsearch(A, I, out);
    const auto xb = toDV(A.x_best());
    c.note("n=", n, " optimum ", shift, " bracket ends at ", I.first, ", ", I.second, " f(best) = ", P.f(xb));
    c.check(info.feasible, "no parameter was found feasible");
    c.check(I.second >= shift - 1e-9, "an infeasible parameter was accepted");
    c.check(I.second - shift <= 2.1 * out.tol + 1e-3, pbt::str("ends at ", I.second, ", the optimum is ", shift));
    c.check(P.f(xb) <= I.second + 1e-9, pbt::str("f(best) = ", P.f(xb), " exceeds the upper end ", I.second));
    const auto fq = fingerprint(S, n);
    c.check(same_bits(DV(fp.begin() + long(n), fp.end()), DV(fq.begin() + long(n), fq.end())), "the caller's shape was altered");
    c.nontrivial();
}
