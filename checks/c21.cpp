// C21: fractions, gcd and lcm against unbounded rationals.
#include "pbt.hpp"
#include <boost/multiprecision/cpp_int.hpp>
#include <limits>
#include <py2cpp/fractions.hpp>
#include <sstream>

using BI = boost::multiprecision::number<boost::multiprecision::cpp_int_backend<>, boost::multiprecision::et_off>;
using BQ = boost::multiprecision::number<boost::multiprecision::rational_adaptor<boost::multiprecision::cpp_int_backend<>>, boost::multiprecision::et_off>;

template <typename Z> struct Ty
{
    static BI big(const Z& z) { return BI(z); }
    static Z small(const BI& b) { return static_cast<Z>(b); }
};
// operands up to this size never overflow in n1 d2 + d1 n2
template <typename Z> BI bound()
{
    if constexpr (std::is_same_v<Z, BI>) return BI(1) << 200;
    else return BI(1) << ((int(sizeof(Z)) * 8 - 3) / 2);
}
template <typename Z> std::string s(const Z& z) { std::ostringstream o; o << z; return o.str(); }

template <typename Z>
Z number(pbt::Ctx& c, const BI& limit) // in [-limit, limit], all magnitudes
{
    BI v;
    switch (c.draw(4))
    {
        case 0: v = c.sym(6); break;
        case 1: v = c.sym(1000); break;
        case 2: // any number of bits
        {
            const auto bits = int64_t(msb(limit));
            for (int64_t k = c.in(0, bits); k > 0; k -= 16) v = (v << int(std::min<int64_t>(k, 16))) + c.draw(65536) % (1u << std::min<int64_t>(k, 16));
            if (c.chance(50)) v = -v;
            break;
        }
        default: // smooth numbers, so that parts have common factors
            v = 1;
            for (int64_t k = c.in(0, 12); k > 0; --k)
            {
                const BI w = v * c.pick(std::vector<int> {2, 2, 2, 3, 3, 5, 7, 11});
                if (w <= limit) v = w;
            }
            if (c.chance(50)) v = -v;
    }
    if (v > limit || v < -limit) v = limit - c.in(0, 3);
    return Ty<Z>::small(v);
}
template <typename Z>
Z nonzero(pbt::Ctx& c, const BI& limit)
{
    const Z z = number<Z>(c, limit);
    return z == Z(0) ? Z(1) : z;
}

template <typename Z>
BQ value(const fun::Fraction<Z>& f) { return BQ(Ty<Z>::big(f.numerator()), Ty<Z>::big(f.denominator())); }

template <typename Z>
void canonical(pbt::Ctx& c, const fun::Fraction<Z>& f, const BQ& want, const std::string& what)
{
    const BI n = Ty<Z>::big(f.numerator()), d = Ty<Z>::big(f.denominator());
    c.check(n == numerator(want) && d == denominator(want), pbt::str(what, " is ", s(n), "/", s(d), ", in lowest terms it is ", s(numerator(want)), "/", s(denominator(want))));
}
template <typename Z>
bool fits(const BQ& q)
{
    const auto b = bound<Z>();
    return abs(numerator(q)) <= b && denominator(q) <= b;
}

template <typename Z>
void compare(pbt::Ctx& c, const fun::Fraction<Z>& a, const fun::Fraction<Z>& b, const BQ& x, const BQ& y)
{
    const auto w = pbt::str(s(a), " and ", s(b));
    c.check((a == b) == (x == y), w + ": == is wrong");
    c.check((a != b) == (x != y), w + ": != is wrong");
    c.check((a < b) == (x < y), w + ": < is wrong");
    c.check((a > b) == (x > y), w + ": > is wrong");
    c.check((a <= b) == (x <= y), w + ": <= is wrong");
    c.check((a >= b) == (x >= y), w + ": >= is wrong");
    const auto k = a.cmp(b);
    c.check((k < 0) == (x < y) && (k > 0) == (x > y), w + ": cmp is wrong");
}
template <typename Z>
void compare_int(pbt::Ctx& c, const fun::Fraction<Z>& a, const Z& b, const BQ& x)
{
    const BQ y(Ty<Z>::big(b));
    const auto w = pbt::str(s(a), " and ", s(b));
    c.check((a == b) == (x == y) && (b == a) == (x == y), w + ": == is wrong");
    c.check((a != b) == (x != y) && (b != a) == (x != y), w + ": != is wrong");
    c.check((a < b) == (x < y) && (b > a) == (x < y), w + ": < is wrong");
    c.check((a > b) == (x > y) && (b < a) == (x > y), w + ": > is wrong");
    c.check((a <= b) == (x <= y) && (b >= a) == (x <= y), w + ": <= is wrong");
    c.check((a >= b) == (x >= y) && (b <= a) == (x >= y), w + ": >= is wrong");
}

template <typename Z>
void expressions(pbt::Ctx& c)
{
    using F = fun::Fraction<Z>;
    const auto lim = bound<Z>();
    std::vector<F> pool;
    std::vector<BQ> ref;
    auto fresh = [&]() {
        const Z n = number<Z>(c, lim), d = nonzero<Z>(c, lim);
        const F f = c.chance(50) ? F(n, d) : F(Z(n), Z(d));
        const BQ q(Ty<Z>::big(n), Ty<Z>::big(d));
        canonical(c, f, q, pbt::str("Fraction(", s(n), ", ", s(d), ")"));
        pool.push_back(f);
        ref.push_back(q);
    };
    fresh();
    fresh();
    if (c.chance(30))
    {
        const Z n = number<Z>(c, lim);
        pool.push_back(c.chance(50) ? F(n) : F(Z(n)));
        ref.push_back(BQ(Ty<Z>::big(n)));
        canonical(c, pool.back(), ref.back(), pbt::str("Fraction(", s(n), ")"));
    }
    int done = 0, reduced = 0;
    std::set<int> ops;
    for (int64_t k = 0, len = c.many(1, 14, 80, 3); k < len; ++k)
    {
        const auto i = c.draw(pool.size()), j = c.draw(pool.size());
        const F a = pool[i], b = pool[j];
        const BQ x = ref[i], y = ref[j];
        const Z z = number<Z>(c, lim);
        const BQ zq(Ty<Z>::big(z));
        const int small = int(c.sym(9));
        const BQ sq(small);
        F r = a;
        BQ q = x;
        std::string what;
        const auto A = s(a), B = s(b), C = s(z);
        const int op = int(c.draw(24));
        // all bounds are met by the operands, so no intermediate product overflows
        switch (op)
        {
            case 0: r = a + b; q = x + y; what = A + " + " + B; break;
            case 1: r = a - b; q = x - y; what = A + " - " + B; break;
            case 2: r = a * b; q = x * y; what = A + " * " + B; break;
            case 3: if (y == 0) continue; r = a / b; q = x / y; what = A + " / " + B; break;
            case 4: r = a + z; q = x + zq; what = A + " + " + C; break;
            case 5: r = a - z; q = x - zq; what = A + " - " + C; break;
            case 6: r = a * z; q = x * zq; what = A + " * " + C; break;
            case 7: if (z == Z(0)) continue; r = a / z; q = x / zq; what = A + " / " + C; break;
            case 8: r = z + a; q = zq + x; what = C + " + " + A; break;
            case 9: r = z - a; q = zq - x; what = C + " - " + A; break;
            case 10: r = z * a; q = zq * x; what = C + " * " + A; break;
            case 11: r = -a; q = -x; what = "-" + A; break;
            case 12: r += b; q = x + y; what = A + " += " + B; break;
            case 13: r -= b; q = x - y; what = A + " -= " + B; break;
            case 14: r *= b; q = x * y; what = A + " *= " + B; break;
            case 15: if (y == 0) continue; r /= b; q = x / y; what = A + " /= " + B; break;
            case 16: r += z; q = x + zq; what = A + " += " + C; break;
            case 17: r -= z; q = x - zq; what = A + " -= " + C; break;
            case 18: r *= z; q = x * zq; what = A + " *= " + C; break;
            case 19: if (z == Z(0)) continue; r /= z; q = x / zq; what = A + " /= " + C; break;
            case 20:
                if constexpr (!std::is_same_v<Z, BI>) { r = a.abs(); q = abs(x); what = "|" + A + "|"; break; }
                else continue;
            case 21: if (x == 0) continue; r.reciprocal(); q = 1 / x; what = "1 / " + A; break;
            case 22:
                // a literal on the left
                switch (c.draw(3))
                {
                    case 0: r = int(small) + a; q = sq + x; what = pbt::str(small, " + ", A); break;
                    case 1: r = int(small) - a; q = sq - x; what = pbt::str(small, " - ", A); break;
                    default: r = int(small) * a; q = sq * x; what = pbt::str(small, " * ", A); break;
                }
                break;
            default: // with itself
                switch (c.draw(12))
                {
                    case 0: r += r; q = x + x; what = A + " += itself"; break;
                    case 1: r -= r; q = 0; what = A + " -= itself"; break;
                    case 2: r *= r; q = x * x; what = A + " *= itself"; break;
                    case 3: if (x == 0) continue; r /= r; q = 1; what = A + " /= itself"; break;
                    // and its parts
                    case 4: r += r.numerator(); q = x + numerator(x); what = A + " += its numerator"; break;
                    case 5: r -= r.numerator(); q = x - numerator(x); what = A + " -= its numerator"; break;
                    case 6: r *= r.numerator(); q = x * numerator(x); what = A + " *= its numerator"; break;
                    case 7: if (x == 0) continue; r /= r.numerator(); q = x / numerator(x); what = A + " /= its numerator"; break;
                    case 8: r += r.denominator(); q = x + denominator(x); what = A + " += its denominator"; break;
                    case 9: r -= r.denominator(); q = x - denominator(x); what = A + " -= its denominator"; break;
                    case 10: r *= r.denominator(); q = x * denominator(x); what = A + " *= its denominator"; break;
                    default: r /= r.denominator(); q = x / denominator(x); what = A + " /= its denominator"; break;
                }
        }
        c.note(what, " = ", s(r));
        canonical(c, r, q, what);
        c.check(pool[j].numerator() == b.numerator() && pool[i].denominator() == a.denominator(), "an operand has changed");
        ++done;
        ops.insert(op);
        if (numerator(q) != 0 && denominator(q) != 1) ++reduced;
        if (fits<Z>(q)) { pool.push_back(r); ref.push_back(q); }
        else if (c.chance(50)) fresh();
        const auto m = c.draw(pool.size()), l = c.draw(pool.size());
        compare<Z>(c, pool[m], pool[l], ref[m], ref[l]);
        compare_int<Z>(c, pool[m], number<Z>(c, lim), ref[m]);
        compare_int<Z>(c, pool[m], Ty<Z>::small(numerator(ref[m]) / denominator(ref[m])), ref[m]);
    }
    // equal numbers made in different ways
    for (size_t i = 0; i < pool.size(); ++i)
    {
        c.check(s(pool[i]) == s(numerator(ref[i])) + "/" + s(denominator(ref[i])), pbt::str("printed as ", s(pool[i])));
        if (i) compare<Z>(c, pool[i - 1], pool[i], ref[i - 1], ref[i]);
    }
    if (done >= 3 && reduced) c.nontrivial();
}
PROP(expr_int, 80000, 1000000) { expressions<int>(c); }
PROP(expr_long, 80000, 1000000) { expressions<long>(c); }
PROP(expr_long_long, 30000, 400000) { expressions<long long>(c); }
PROP(expr_unbounded, 30000, 400000) { expressions<BI>(c); }

// the parts may be as large as the type allows: nothing is multiplied
template <typename Z>
void large_parts(pbt::Ctx& c)
{
    using F = fun::Fraction<Z>;
    const BI top = std::numeric_limits<Z>::max();
    const Z n = number<Z>(c, top), d = nonzero<Z>(c, top);
    const BQ q(Ty<Z>::big(n), Ty<Z>::big(d));
    const F f(n, d);
    c.note(s(n), "/", s(d), " -> ", s(f));
    canonical(c, f, q, pbt::str("Fraction(", s(n), ", ", s(d), ")"));
    canonical(c, -f, BQ(-q), "its negative");
    canonical(c, f.abs(), BQ(abs(q)), "its absolute value");
    if (q != 0)
    {
        F r = f;
        r.reciprocal();
        canonical(c, r, BQ(1 / q), "its reciprocal");
    }
    if (n != Z(0) && abs(Ty<Z>::big(d)) > 1) c.nontrivial();
}
PROP(large_int, 40000, 400000) { large_parts<int>(c); }
PROP(large_long, 40000, 400000) { large_parts<long>(c); }

template <typename Z>
void divisors(pbt::Ctx& c)
{
    BI top = BI(1) << 400;
    if constexpr (!std::is_same_v<Z, BI>) top = std::numeric_limits<Z>::max();
    BI A = number<BI>(c, top), B = number<BI>(c, top);
    if constexpr (std::is_unsigned_v<Z>) { A = abs(A); B = abs(B); }
    if (c.chance(40)) // a common factor
    {
        const BI g = 1 + abs(number<BI>(c, BI(1) << (int(msb(top)) / 2)));
        A = A / g * g;
        B = B / g * g;
    }
    const Z a = Ty<Z>::small(A), b = Ty<Z>::small(B);
    const BI want = gcd(A, B);
    const auto got = fun::gcd(a, b);
    c.note("gcd(", s(a), ", ", s(b), ") = ", s(got));
    c.check(BI(got) == want, pbt::str("gcd(", s(a), ", ", s(b), ") is ", s(got), ", not ", s(want)));
    const BI l = want == 0 ? BI(0) : BI(abs(BI(A * B)) / want);
    if (l <= top)
    {
        const auto m = fun::lcm(a, b);
        c.check(BI(m) == l, pbt::str("lcm(", s(a), ", ", s(b), ") is ", s(m), ", not ", s(l)));
        c.label("lcm fits");
    }
    if (want > 1) c.nontrivial();
}
PROP(gcd_int, 40000, 400000) { divisors<int>(c); }
PROP(gcd_long, 40000, 400000) { divisors<long>(c); }
PROP(gcd_long_long, 20000, 200000) { divisors<long long>(c); }
PROP(gcd_unsigned, 20000, 200000) { divisors<unsigned long>(c); }
PROP(gcd_unbounded, 20000, 200000) { divisors<BI>(c); }
