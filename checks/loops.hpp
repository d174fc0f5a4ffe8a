// Scripted oracles and spaces for the cutting-plane loops: every answer is
// drawn when it is asked for, every call is recorded, and the record is then
// compared with the documented loop.
#pragma once
#include "ellref.hpp"
#include <ellcpp/cutting_plane.hpp>
#include <optional>

// a centre: the number of accepted cuts behind it, and a tag that must survive
struct Point
{
    long id = -1;
    long tag = 0;
    bool operator==(const Point& o) const { return id == o.id && tag == o.tag; }
};
struct Upd
{
    long cut;
    CUTStatus st;
    double tsq;
};
struct Space
{
    pbt::Ctx* c {};
    Point x {0, 7};
    double tol {};
    int stop_pct {}, noeffect_pct {};
    size_t limit {};
    std::vector<Upd>* log {};
    Point xc() const { return x; }
    void set_xc(const Point& p) { x = p; }
    std::tuple<CUTStatus, double> update(const long& cut)
    {
        if (log->size() > limit + 4) c->fail("the loop goes on after its iteration limit");
        CUTStatus st = CUTStatus::success;
        if (c->chance(noeffect_pct)) st = CUTStatus::noeffect;
        else if (c->chance(stop_pct)) st = c->chance(50) ? CUTStatus::nosoln : CUTStatus::noeffect;
        double tsq = tol * 4;
        if (c->chance(stop_pct)) tsq = tol / 2;
        else if (c->chance(15)) tsq = tol; // not below it
        else if (c->chance(15)) tsq = tol * c->real(.9, 1.1);
        log->push_back({cut, st, tsq});
        if (st == CUTStatus::success) { ++x.id; x.tag = 1000 + c->sym(50); }
        return {st, tsq};
    }
};
inline Options gen_options(pbt::Ctx& c)
{
    Options o;
    switch (c.draw(3))
    {
        case 0: o.max_it = unsigned(c.many(1, 40, 100)); break;
        case 1: o.max_it = unsigned(c.in(1, 4)); break;
        default: break; // the default, 2000
    }
    o.tol = c.pick(std::vector<double> {1e-8, 1., 1e-300, 1e4});
    return o;
}

// Long runs: limits and events near the widths of small counters, answers
// cheap enough for some hundred thousand iterations.
struct Long
{
    uint64_t limit {}, end {}; // the event comes with update number end (0-based); at limit or above: never
    int kind {};               // what happens there
    std::vector<uint64_t> at;  // improvements, or cuts without effect
};
inline uint64_t gen_count(pbt::Ctx& c)
{
    switch (c.draw(5))
    {
        case 0: return uint64_t(c.in(2, 400));
        case 4: return c.chance(60) ? uint64_t((int64_t(1) << c.in(3, 16)) + c.sym(2))
                                    : uint64_t(c.pick(std::vector<int64_t> {100, 500, 1000, 2000, 5000, 10000, 50000, 100000}) + c.sym(2));
        case 1: return uint64_t(256 + c.sym(3));
        case 2: return uint64_t(c.pick(std::vector<int64_t> {32768, 65536, 131072}) + c.sym(3));
        default: return uint64_t(c.in(1000, 140000));
    }
}
inline Long gen_long(pbt::Ctx& c, int kinds)
{
    Long l;
    l.limit = gen_count(c);
    l.end = c.chance(50) ? gen_count(c) : c.chance(50) ? l.limit + 10 : uint64_t(std::max<int64_t>(0, int64_t(l.limit) - 2 + c.sym(3)));
    l.kind = int(c.draw(uint64_t(kinds)));
    for (int k = int(c.in(0, 4)); k > 0; --k) l.at.push_back(c.chance(50) ? gen_count(c) : c.draw(std::min(l.limit, l.end) + 1));
    c.note("limit ", l.limit, ", event ", l.kind, " at ", l.end);
    return l;
}
struct LongSpace
{
    pbt::Ctx* c;
    const Long* l;
    uint64_t updates = 0, asked = 0;
    bool over = false;
    Point x {0, 7};
    Point xc() const { return x; }
    void set_xc(const Point& p) { x = p; }
    bool listed(uint64_t k) const { return std::find(l->at.begin(), l->at.end(), k) != l->at.end(); }
    bool skip = false; // listed updates have no effect
    std::tuple<CUTStatus, double> update(const long& cut)
    {
        if (over) c->fail("the space was cut after the search should have ended");
        if (updates > l->limit + 4) c->fail("the loop goes on after its iteration limit");
        if (cut != long(updates) + 5) c->fail("the space got another cut than the oracle gave");
        const auto k = updates++;
        if (k == l->end && l->kind == 1) { over = true; return {CUTStatus::nosoln, 8.}; }
        if (skip && listed(k) && k != l->end) return {CUTStatus::noeffect, 8.};
        ++x.id;
        if (k == l->end && l->kind == 2) { over = true; return {CUTStatus::success, .5}; }
        return {CUTStatus::success, 8.};
    }
};
// what the loops report in the end
inline void long_end(pbt::Ctx& c, const Long& l, const CInfo& info, uint64_t queries, bool over)
{
    c.note(" -> ", queries, " queries, iterations ", info.num_iters, " ", name(info.status));
    if (over)
    {
        c.check(queries == l.end + 1 && info.num_iters == queries, pbt::str("iteration count is ", info.num_iters, " after ", queries, " queries; the event was number ", l.end));
        if (l.kind == 1) c.check(info.status == CUTStatus::nosoln, "status is not nosoln");
        if (l.kind == 2) c.check(info.status == CUTStatus::smallenough, "status is not smallenough");
    }
    else
    {
        c.check(l.end + 1 >= l.limit, "the search ended before the event");
        c.check(info.num_iters == l.limit, pbt::str("iteration count is ", info.num_iters, ", the limit is ", l.limit));
        c.check(queries <= l.limit && queries + 1 >= l.limit, pbt::str(queries, " queries for a limit of ", l.limit));
    }
    c.label(over ? "event" : "limit");
    if (queries > 255) c.nontrivial();
}
