// C22: canonical signed digits against the non-adjacent form computed with
// unbounded integers.
#include "pbt.hpp"
#include <boost/multiprecision/cpp_int.hpp>
#include <string>
#include <string_view>

auto to_csd(double num, int places) noexcept -> std::string;
auto to_decimal(std::string_view csd_str) noexcept -> double;
auto to_csdfixed(double num, unsigned int nnz) noexcept -> std::string;

using BI = boost::multiprecision::number<boost::multiprecision::cpp_int_backend<>, boost::multiprecision::et_off>;

// the digits of m 2^e, by weight
static std::map<int, int> naf(int64_t m, int e)
{
    std::map<int, int> d;
    __int128 v = m;
    for (; v != 0; ++e)
    {
        if (v & 1)
        {
            const int k = (v & 3) == 1 ? 1 : -1;
            d[e] = k;
            v -= k;
        }
        v /= 2;
    }
    return d;
}
struct Parsed
{
    bool ok = true;
    size_t frac = 0;
    std::map<int, int> d;
};
static Parsed parse(const std::string& s)
{
    Parsed p;
    const auto dot = s.find('.');
    const size_t whole = dot == std::string::npos ? s.size() : dot;
    p.frac = dot == std::string::npos ? 0 : s.size() - dot - 1;
    if (whole == 0) p.ok = false;
    for (size_t i = 0; i < s.size(); ++i)
    {
        if (i == dot) continue;
        const int w = i < whole ? int(whole - i) - 1 : -int(i - whole);
        if (s[i] == '+') p.d[w] = 1;
        else if (s[i] == '-') p.d[w] = -1;
        else if (s[i] != '0') p.ok = false;
    }
    return p;
}
static std::string show(const std::map<int, int>& d)
{
    std::string s;
    for (auto it = d.rbegin(); it != d.rend(); ++it) s += pbt::str(it->second > 0 ? " +" : " -", "2^", it->first);
    return s.empty() ? "0" : s;
}
static void canonical(pbt::Ctx& c, const std::string& s, const Parsed& p)
{
    c.check(p.ok, "malformed: \"" + s + "\"");
    for (auto& [w, v] : p.d) c.check(!p.d.count(w + 1), "two adjacent non-zero digits in \"" + s + "\"");
}
static std::string swapped(std::string s)
{
    for (auto& ch : s) ch = ch == '+' ? '-' : ch == '-' ? '+' : ch;
    return s;
}
static double value(const std::map<int, int>& d)
{
    double v = 0;
    for (auto it = d.rbegin(); it != d.rend(); ++it) v += it->second * std::ldexp(1., it->first);
    return v;
}
static std::pair<int64_t, int> number(pbt::Ctx& c)
{
    int64_t m;
    int e = 0;
    switch (c.draw(6))
    {
        case 0: m = c.sym(2000); e = -int(c.in(0, 8)); break;
        case 1: // any number of bits
        {
            const auto bits = c.in(1, 53);
            m = int64_t(c.draw(uint64_t(1) << bits));
            if (c.chance(50)) m = -m;
            e = -int(c.in(0, 60));
            break;
        }
        case 2: // next to 2^n / 3 and 2^(n+1) / 3, where digits are decided
        {
            const double x = std::ldexp(c.chance(50) ? 1. / 3 : 2. / 3, int(c.in(0, 60)) - 10);
            double y = x;
            const auto k = c.sym(3);
            for (int64_t i = 0; i < std::abs(k); ++i) y = std::nextafter(y, k < 0 ? 0. : 1e300);
            int q;
            m = int64_t(std::ldexp(std::frexp(y, &q), 53));
            e = q - 53;
            if (c.chance(50)) m = -m;
            break;
        }
        case 3: // runs of equal bits
            m = 0;
            for (int64_t k = c.in(1, 8); k > 0; --k)
            {
                const auto len = c.in(1, 6);
                const bool one = c.chance(50);
                for (int64_t i = 0; i < len; ++i) m = m * 2 + one;
            }
            if (c.chance(50)) m = -m;
            e = -int(c.in(0, 50));
            break;
        case 4: // large and small
            m = c.sym((int64_t(1) << 53) - 1);
            e = int(c.sym(800));
            break;
        default: m = c.sym(1); e = int(c.sym(60)); break; // powers of two
    }
    return {m, e};
}
PROP(places, 400000, 4000000)
{
    const auto [m, e] = number(c);
    const double x = std::ldexp(double(m), e);
    const int places = int(c.in(0, c.chance(20) ? 80 : 12));
    const auto s = to_csd(x, places);
    c.note("to_csd(", x, ", ", places, ") = ", s);
    const auto p = parse(s);
    canonical(c, s, p);
    if (x == 0) c.check(s == "0" || p.d.empty(), "zero has digits");
    else c.check(p.frac == size_t(places), pbt::str(p.frac, " fractional digits instead of ", places, " in \"", s, "\""));
    auto want = naf(m, e);
    const bool whole = want.empty() || want.begin()->first >= -places;
    while (!want.empty() && want.begin()->first < -places) want.erase(want.begin());
    c.check(p.d == want, pbt::str("the digits of ", x, " are", show(p.d), ", not", show(want)));
    // reading back
    const double back = to_decimal(s), unit = std::ldexp(1., -places);
    c.check(back == value(want), pbt::str("\"", s, "\" reads back as ", back, ", it is ", value(want)));
    if (whole) c.check(back == x, pbt::str(x, " comes back as ", back, " although it needs no more places"));
    else c.check(std::fabs(back - x) <= unit * 2 / 3, pbt::str(x, " comes back as ", back, ", more than two thirds of a unit off"));
    c.check(to_csd(-x, places) == (x == 0 ? s : swapped(s)), "negating the number does not swap the signs");
    if (want.size() >= 2) c.nontrivial();
    if (!whole) c.label("cut off");
}
PROP(nonzeros, 400000, 4000000)
{
    const auto [m, e] = number(c);
    const double x = std::ldexp(double(m), e);
    const auto nnz = unsigned(c.in(0, c.chance(20) ? 40 : 6));
    const auto s = to_csdfixed(x, nnz);
    c.note("to_csdfixed(", x, ", ", nnz, ") = ", s);
    const auto p = parse(s);
    canonical(c, s, p);
    c.check(p.d.size() <= nnz, pbt::str(p.d.size(), " non-zero digits in \"", s, "\", at most ", nnz, " are allowed"));
    auto want = naf(m, e);
    const auto all = want.size();
    while (want.size() > nnz) want.erase(want.begin());
    c.check(p.d == want, pbt::str("the leading digits of ", x, " are", show(want), ", the result has", show(p.d)));
    const double back = to_decimal(s);
    c.check(back == value(want), pbt::str("\"", s, "\" reads back as ", back, ", it is ", value(want)));
    if (all <= nnz) c.check(back == x, "a number that needs no more digits does not come back");
    c.check(to_csdfixed(-x, nnz) == (x == 0 ? s : swapped(s)), "negating the number does not swap the signs");
    if (want.size() >= 2) c.nontrivial();
    if (all > nnz) c.label("cut off");
}
// any string of digits
PROP(reading, 400000, 4000000)
{
    std::string s;
    auto whole = c.in(0, 24), frac = c.in(0, 24); // up to 52 digits in a row are exact
    const auto zeros = c.chance(10) ? c.in(1, 400) : 0; // or fewer of them far away from the point
    const bool up = zeros && c.chance(50);
    if (up) frac = 0;
    else if (zeros) whole = 0;
    std::map<int, int> d;
    auto digit = [&](int w) {
        const auto k = c.draw(3);
        s += "0+-"[k];
        if (k) d[w] = k == 1 ? 1 : -1;
    };
    for (int64_t i = whole; i-- > 0;) digit(int(i + (up ? zeros : 0)));
    if (up) s += std::string(size_t(zeros), '0');
    if (frac || c.chance(30)) s += '.';
    if (zeros && !up) s += std::string(size_t(zeros), '0');
    for (int64_t i = 0; i < frac; ++i) digit(-int(i + (up ? 0 : zeros)) - 1);
    const double back = to_decimal(s);
    c.note("to_decimal(\"", s, "\") = ", back);
    c.check(back == value(d), pbt::str("\"", s, "\" reads as ", back, ", it is ", value(d)));
    if (d.size() >= 2 && (frac || up)) c.nontrivial();
    if (zeros) c.label("far from the point");
}
