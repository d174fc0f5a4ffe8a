// A small property-based testing engine (choice-sequence based, as in
// Hypothesis): every random decision of a case is one bounded integer drawn
// from a Ctx and recorded, so that any failing case is replayed and shrunk by
// editing that integer sequence.  Cases run in forked workers, so a crash, a
// failed assert(), a sanitizer report or a hang is a failing case like any
// other.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iomanip>
#include <map>
#include <set>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace pbt
{

struct Failure
{
    std::string msg;
};
struct Discard
{
};

inline uint64_t mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}

constexpr size_t CAP = 1u << 16;

// what a worker shares with the parent
struct Shm
{
    volatile uint64_t case_no;
    volatile uint32_t n;       // choices recorded so far in this case
    volatile uint32_t timeout; // set by the CPU-time handler
    volatile uint32_t stop;
    uint64_t choice[CAP];
};

class Ctx
{
  public:
    Shm* shm {};
    bool replay {};
    const std::vector<uint64_t>* given {};
    uint64_t rng {};
    bool verbose {};
    bool nontriv {};
    bool fuzzing {};
    std::ostringstream out;
    std::map<std::string, uint64_t> labels;
    std::map<std::string, std::string> knowns;
    const std::set<std::string>* listed {};

    // a choice in [0, n); 0 is the simplest
    uint64_t draw(uint64_t n)
    {
        if (n < 1) n = 1;
        const auto i = shm->n;
        if (i >= CAP) throw Discard {};
        uint64_t v = 0;
        if (replay)
        {
            if (i < given->size()) v = (*given)[i] % n;
        }
        else
        {
            rng = rng * 6364136223846793005ULL + 1442695040888963407ULL;
            v = uint64_t((__uint128_t(mix(rng)) * n) >> 64);
        }
        shm->choice[i] = v;
        shm->n = i + 1;
        return v;
    }
    int64_t in(int64_t lo, int64_t hi) // shrinks to lo
    {
        return lo + int64_t(draw(uint64_t(hi - lo) + 1));
    }
    int64_t many(int64_t lo, int64_t hi, int64_t big, int pct = 5) // mostly up to hi, at times up to big
    {
        return chance(pct) ? in(lo, big) : in(lo, hi);
    }
    int64_t sym(int64_t m) // in [-m, m], shrinks to 0
    {
        auto v = int64_t(draw(uint64_t(2 * m) + 1));
        return (v & 1) ? (v + 1) / 2 : -(v / 2);
    }
    bool chance(int pct) // shrinks to false
    {
        return int(draw(100)) >= 100 - pct;
    }
    double unit() // [0, 1), 0 first
    {
        return double(draw(1u << 30)) / double(1u << 30);
    }
    double real(double lo, double hi) // shrinks to lo
    {
        return lo + (hi - lo) * unit();
    }
    // a signed number of moderate size; mixes small integers, dyadics, reals
    double num(double m = 4.)
    {
        switch (draw(4))
        {
            case 0: return double(sym(int64_t(m)));
            case 1: return double(sym(int64_t(m * 8))) / 8.;
            default: return (chance(50) ? 1. : -1.) * real(0., m);
        }
    }
    template <typename T>
    const T& pick(const std::vector<T>& v)
    {
        return v[draw(v.size())];
    }
    double gauss() // bounded, roughly normal
    {
        double s = 0;
        for (int i = 0; i < 4; ++i) s += unit();
        return (s - 2.) * std::sqrt(3.);
    }

    void label(const std::string& s) { ++labels[s]; }
    void nontrivial() { nontriv = true; }
    [[noreturn]] void fail(const std::string& m) { throw Failure {m}; }
    void check(bool ok, const std::string& m)
    {
        if (!ok) fail(m);
    }
    // a recorded genuine defect: listed -> counted, otherwise a failure
    void known(const std::string& id, const std::string& what)
    {
        if (!listed || !listed->count(id))
            fail("defect " + id + " (not in the known-findings file): " + what);
        knowns.emplace(id, what);
        label("known:" + id);
    }
    [[noreturn]] void discard() { throw Discard {}; }
    template <typename... A>
    void note(const A&... a)
    {
        if (!verbose) return;
        (put(a), ...);
        out << '\n';
    }

  private:
    template <typename T>
    void put(const T& t) { out << std::setprecision(17) << t; }
    template <typename T>
    void put(const std::vector<T>& v)
    {
        out << '[';
        for (size_t i = 0; i < v.size(); ++i) { if (i) out << ", "; put(v[i]); }
        out << ']';
    }
};

template <typename... A>
std::string str(const A&... a)
{
    std::ostringstream o;
    o << std::setprecision(17);
    (void(o << a), ...);
    return o.str();
}

struct Prop
{
    std::string name;
    uint64_t quick, thorough;
    std::function<void(Ctx&)> fn;
};
inline std::vector<Prop>& props()
{
    static std::vector<Prop> p;
    return p;
}
struct Reg
{
    Reg(const char* n, uint64_t q, uint64_t t, std::function<void(Ctx&)> f)
    {
        props().push_back({n, q, t, std::move(f)});
    }
};
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// PROP(name, cases in the quick tier, cases in the thorough tier) { ...c... }
#define PROP(name, q, t)                                                       \
    static void name(pbt::Ctx& c);                                             \
    static pbt::Reg PBT_CAT(reg_, name)(#name, q, t, name);                    \
    static void name([[maybe_unused]] pbt::Ctx& c)

// ------------------------------------------------------------------ running
enum Kind { PASS, FAIL, DISC, CRASH, HANG };
struct Outcome
{
    Kind kind {PASS};
    std::string msg;
};

inline Shm*& cur_shm()
{
    static Shm* s {};
    return s;
}
inline void on_prof(int)
{
    if (cur_shm()) cur_shm()->timeout = 1;
    _exit(97);
}
inline int& cpu_limit()
{
    static int s = 20;
    return s;
}
inline void arm(int sec)
{
    itimerval t {};
    t.it_value.tv_sec = sec;
    setitimer(ITIMER_PROF, &t, nullptr);
}

inline Outcome run_one(const Prop& p, Ctx& c)
{
    c.shm->n = 0;
    arm(cpu_limit());
    try
    {
        p.fn(c);
        return {PASS, ""};
    }
    catch (const Failure& f) { return {FAIL, f.msg}; }
    catch (const Discard&) { return {DISC, ""}; }
    catch (const std::exception& e) { return {FAIL, str("exception: ", e.what())}; }
    catch (...) { return {FAIL, "unknown exception"}; }
}

inline Shm* new_shm()
{
    void* m = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE,
        MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) { perror("mmap"); _exit(3); }
    return static_cast<Shm*>(m);
}

inline std::string slurp(const std::string& f)
{
    std::ifstream i(f);
    std::stringstream s;
    s << i.rdbuf();
    return s.str();
}

struct Engine
{
    std::string id, outdir = ".";
    uint64_t seed = 1;
    bool thorough {};
    double scale = 1.;
    double wall = 300; // soft limit in seconds, over all the properties
    int workers = 8;
    std::set<std::string> listed;
    double t0 {};

    static double now()
    {
        timespec t;
        clock_gettime(CLOCK_MONOTONIC, &t);
        return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
    }

    // runs one case from given choices in a child; returns what happened and
    // the choices it really used
    Outcome isolated(const Prop& p, const std::vector<uint64_t>& ch,
        std::vector<uint64_t>* used = nullptr, std::string* notes = nullptr)
    {
        auto* s = new_shm();
        const auto f = outdir + "/iso.txt";
        unlink(f.c_str());
        fflush(nullptr);
        const auto pid = fork();
        if (pid == 0)
        {
            quiet(outdir + "/iso.err");
            cur_shm() = s;
            Ctx c;
            c.shm = s;
            c.replay = true;
            c.given = &ch;
            c.listed = &listed;
            c.verbose = notes != nullptr;
            const auto o = run_one(p, c);
            {
                std::ofstream w(f);
                w << int(o.kind) << '\n' << o.msg << '\n' << '\x01' << c.out.str();
            }
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (used) used->assign(s->choice, s->choice + s->n);
        Outcome o;
        const auto txt = slurp(f);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !txt.empty())
        {
            o.kind = Kind(txt[0] - '0');
            const auto e = txt.find('\x01');
            o.msg = txt.substr(2, e > 3 ? e - 3 : 0);
            if (notes) *notes = txt.substr(e + 1);
        }
        else if (s->timeout)
        {
            o = {HANG, str("no answer within ", cpu_limit(), " s of CPU time")};
        }
        else
        {
            o.kind = CRASH;
            o.msg = WIFSIGNALED(st) ? str("killed by signal ", WTERMSIG(st))
                                    : str("exit status ", WEXITSTATUS(st));
            std::istringstream err(slurp(outdir + "/iso.err"));
            int k = 0;
            for (std::string l; std::getline(err, l) && k < 6;)
                if (!l.empty() && l[0] != '=') { o.msg += " | " + l; ++k; }
        }
        munmap(s, sizeof(Shm));
        return o;
    }

    static void quiet(const std::string& f)
    {
        const auto fd = open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        if (fd >= 0) { dup2(fd, 2); close(fd); }
        const auto n = open("/dev/null", O_WRONLY);
        if (n >= 0) { dup2(n, 1); close(n); }
    }

    static bool bad(Kind k) { return k == FAIL || k == CRASH || k == HANG; }

    std::vector<uint64_t> shrink(const Prop& p, std::vector<uint64_t> best, Kind kind)
    {
        const auto end = now() + 60;
        int budget = kind == HANG ? 12 : 3000;
        auto attempt = [&](const std::vector<uint64_t>& cand) {
            if (budget <= 0 || now() > end) return false;
            --budget;
            std::vector<uint64_t> used;
            const auto o = isolated(p, cand, &used);
            if (o.kind != kind) return false;
            // strictly simpler: shorter, or the same length and smaller
            if (used.size() > best.size() || (used.size() == best.size() && !(used < best)))
                return false;
            best = used;
            return true;
        };
        bool progress = true;
        while (progress && budget > 0 && now() < end)
        {
            progress = false;
            for (size_t k = std::max<size_t>(1, best.size() / 2); k >= 1; k /= 2)
            {
                for (size_t i = 0; i + k <= best.size();)
                {
                    auto cand = best;
                    cand.erase(cand.begin() + long(i), cand.begin() + long(i + k));
                    if (attempt(cand)) progress = true;
                    else i += k;
                    if (budget <= 0 || now() > end) break;
                }
            }
            for (size_t k = std::max<size_t>(1, best.size() / 4); k >= 1; k /= 2)
            {
                for (size_t i = 0; i < best.size(); i += k)
                {
                    auto cand = best;
                    bool any = false;
                    for (size_t j = i; j < std::min(i + k, cand.size()); ++j)
                    {
                        any |= cand[j] != 0;
                        cand[j] = 0;
                    }
                    if (any && attempt(cand)) progress = true;
                    if (budget <= 0 || now() > end) break;
                }
            }
            for (size_t i = 0; i < best.size(); ++i)
            {
                uint64_t lo = 0; // binary search for the smallest failing value
                int steps = 0;
                while (i < best.size() && lo < best[i] && steps++ < 34)
                {
                    auto cand = best;
                    cand[i] = lo + (best[i] - lo) / 2;
                    if (attempt(cand)) progress = true;
                    else lo = lo + (best[i] - lo) / 2 + 1;
                    if (budget <= 0 || now() > end) break;
                }
            }
        }
        return best;
    }

    struct Totals
    {
        uint64_t evals {}, nontriv {}, discards {};
        std::unordered_set<uint64_t> distinct;
        std::map<std::string, uint64_t> labels;
        std::map<std::string, std::string> knowns;
        std::vector<std::string> samples;
        uint64_t planned {};
        double secs {};
        bool failed {};
    };

    static uint64_t hash(const Shm& s)
    {
        uint64_t h = 1469598103934665603ULL;
        for (uint32_t i = 0; i < s.n; ++i) h = mix(h ^ s.choice[i]);
        return h;
    }

    uint64_t case_seed(const Prop& p, uint64_t i) const
    {
        uint64_t h = mix(seed);
        for (auto ch : p.name) h = mix(h ^ uint64_t(ch));
        return mix(h ^ i);
    }

    int report(const Prop& p, const std::vector<uint64_t>& ch, const Outcome& o0)
    {
        // the case must fail again, every time, before it counts
        for (int k = 0; k < 2; ++k)
            if (!bad(isolated(p, ch).kind))
            {
                printf("note: %s/%s: a failure did not repeat (%s)\n", id.c_str(),
                    p.name.c_str(), o0.msg.c_str());
                return 0;
            }
        const auto small = shrink(p, ch, isolated(p, ch).kind);
        std::string notes;
        const auto o = isolated(p, small, nullptr, &notes);
        const auto file = outdir + "/replay-" + id + "-" + p.name + ".txt";
        {
            std::ofstream w(file);
            w << "property " << id << "\nprop " << p.name << "\nchoices";
            for (auto v : small) w << ' ' << v;
            w << "\n# " << o.msg << "\n# the case:\n";
            std::istringstream n(notes);
            for (std::string l; std::getline(n, l);) w << "#   " << l << '\n';
        }
        printf("%s/%s: %s\n", id.c_str(), p.name.c_str(), o.msg.c_str());
        std::istringstream n(notes);
        int lines = 0;
        for (std::string l; std::getline(n, l) && lines < 40; ++lines)
            printf("    %s\n", l.c_str());
        printf("VIOLATION property=%s replay=%s\n", id.c_str(), file.c_str());
        fflush(stdout);
        return 1;
    }

    Totals run(const Prop& p, double until)
    {
        Totals T;
        const auto start = now();
        T.planned = std::max<uint64_t>(1, uint64_t(double(thorough ? p.thorough : p.quick) * scale));
        const int W = int(std::min<uint64_t>(uint64_t(workers), std::max<uint64_t>(1, T.planned / 4)));
        std::vector<Shm*> shm;
        std::vector<pid_t> pids;
        for (int w = 0; w < W; ++w) shm.push_back(new_shm());
        fflush(nullptr);
        for (int w = 0; w < W; ++w)
        {
            const auto pid = fork();
            if (pid == 0) worker(p, w, W, T.planned, shm, until);
            pids.push_back(pid);
        }
        std::vector<std::vector<uint64_t>> samples;
        struct Bad { uint64_t no; std::vector<uint64_t> ch; Outcome o; };
        std::vector<Bad> bads;
        for (int k = 0; k < W; ++k)
        {
            int st = 0;
            const auto pid = waitpid(-1, &st, 0);
            int w = 0;
            while (w < W && pids[size_t(w)] != pid) ++w;
            if (w == W) { --k; continue; }
            auto& s = *shm[size_t(w)];
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
            // a failure or a crash: its choices are in shared memory
            for (auto* o : shm) o->stop = 1;
            Bad b;
            b.no = s.case_no;
            b.ch.assign(s.choice, s.choice + s.n);
            b.o.msg = str("worker status ", st);
            bads.push_back(b);
        }
        for (int w = 0; w < W; ++w) read_worker(T, w, samples);
        for (auto* s : shm) munmap(s, sizeof(Shm));
        if (!bads.empty())
        {
            std::sort(bads.begin(), bads.end(), [](const Bad& a, const Bad& b) { return a.no < b.no; });
            for (auto& b : bads)
                if (report(p, b.ch, b.o)) { T.failed = true; break; }
        }
        size_t shown = 0;
        for (auto& ch : samples)
        {
            if (shown >= 3) break;
            std::string notes;
            isolated(p, ch, nullptr, &notes);
            if (notes.size() > 1500) notes = notes.substr(0, 1500) + " ...";
            T.samples.push_back(p.name + ": " + notes);
            ++shown;
        }
        T.secs = now() - start;
        return T;
    }

    [[noreturn]] void worker(const Prop& p, int w, int W, uint64_t N,
        const std::vector<Shm*>& all, double until)
    {
        auto* s = all[size_t(w)];
        quiet(outdir + "/w" + std::to_string(w) + ".err");
        cur_shm() = s;
        uint64_t ev = 0, nt = 0, dc = 0;
        std::unordered_set<uint64_t> dist;
        std::map<std::string, uint64_t> labels;
        std::map<std::string, std::string> knowns;
        std::vector<std::vector<uint64_t>> samples;
        int code = 0;
        for (uint64_t i = uint64_t(w); i < N && !s->stop; i += uint64_t(W))
        {
            if (now() > until) break;
            s->case_no = i;
            Ctx c;
            c.shm = s;
            c.rng = case_seed(p, i);
            c.listed = &listed;
            const auto o = run_one(p, c);
            if (o.kind == FAIL) { code = 98; break; }
            if (o.kind == DISC) { ++dc; continue; }
            ++ev;
            for (auto& [k, v] : c.labels) labels[k] += v;
            for (auto& kv : c.knowns) knowns.insert(kv);
            if (c.nontriv)
            {
                ++nt;
                dist.insert(hash(*s));
                if (samples.size() < 1 && s->n < 4000)
                    samples.emplace_back(s->choice, s->choice + s->n);
            }
        }
        arm(0);
        std::ofstream f(outdir + "/w" + std::to_string(w) + ".res");
        f << ev << ' ' << nt << ' ' << dc << ' ' << dist.size();
        for (auto h : dist) f << ' ' << h;
        f << '\n' << labels.size() << '\n';
        for (auto& [k, v] : labels) f << v << ' ' << k << '\n';
        f << knowns.size() << '\n';
        for (auto& [k, v] : knowns)
        {
            auto t = v;
            for (auto& ch : t) if (ch == '\n') ch = ' ';
            f << k << '\t' << t << '\n';
        }
        f << samples.size() << '\n';
        for (auto& v : samples)
        {
            f << v.size();
            for (auto x : v) f << ' ' << x;
            f << '\n';
        }
        f.close();
        _exit(code);
    }

    void read_worker(Totals& T, int w, std::vector<std::vector<uint64_t>>& samples)
    {
        const auto fn = outdir + "/w" + std::to_string(w) + ".res";
        std::ifstream f(fn);
        uint64_t ev, nt, dc, n;
        if (!(f >> ev >> nt >> dc >> n)) return;
        T.evals += ev;
        T.nontriv += nt;
        T.discards += dc;
        for (uint64_t h; n > 0; --n) { f >> h; T.distinct.insert(h); }
        size_t m;
        f >> m;
        for (; m > 0; --m)
        {
            uint64_t v;
            std::string k;
            f >> v;
            f.get();
            std::getline(f, k);
            T.labels[k] += v;
        }
        f >> m;
        f.get();
        for (; m > 0; --m)
        {
            std::string l;
            std::getline(f, l);
            const auto t = l.find('\t');
            T.knowns.emplace(l.substr(0, t), l.substr(t + 1));
        }
        f >> m;
        for (; m > 0; --m)
        {
            size_t k;
            f >> k;
            std::vector<uint64_t> v(k);
            for (auto& x : v) f >> x;
            samples.push_back(v);
        }
        f.close();
        unlink(fn.c_str());
    }
};

inline std::string esc(const std::string& s)
{
    std::string o;
    for (unsigned char ch : s)
    {
        if (ch == '"' || ch == '\\') { o += '\\'; o += char(ch); }
        else if (ch == '\n') o += "\\n";
        else if (ch < 0x20 || ch > 0x7e) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
        else o += char(ch);
    }
    return o;
}

inline int main_(int argc, char** argv)
{
    Engine e;
    e.t0 = Engine::now();
    std::string replay, only;
    for (int i = 1; i < argc; ++i)
    {
        const std::string a = argv[i];
        auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--id") e.id = val();
        else if (a == "--out") e.outdir = val();
        else if (a == "--seed") e.seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--thorough") e.thorough = true;
        else if (a == "--scale") e.scale = atof(val().c_str());
        else if (a == "--wall") e.wall = atof(val().c_str());
        else if (a == "--workers") e.workers = atoi(val().c_str());
        else if (a == "--cpu") cpu_limit() = atoi(val().c_str());
        else if (a == "--known") e.listed.insert(val());
        else if (a == "--only") only = val();
        else if (a == "--replay") replay = val();
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
    }
    signal(SIGPROF, on_prof);
    mkdir(e.outdir.c_str(), 0755);
    if (!replay.empty())
    {
        std::ifstream f(replay);
        std::string w, prop;
        std::vector<uint64_t> ch;
        for (std::string l; std::getline(f, l);)
        {
            std::istringstream s(l);
            s >> w;
            if (w == "prop") s >> prop;
            if (w == "choices") for (uint64_t v; s >> v;) ch.push_back(v);
        }
        for (auto& p : props())
            if (p.name == prop)
            {
                std::string notes;
                const auto o = e.isolated(p, ch, nullptr, &notes);
                printf("%s\n%s\n", notes.c_str(), o.msg.c_str());
                if (Engine::bad(o.kind))
                {
                    printf("VIOLATION property=%s replay=%s\n", e.id.c_str(), replay.c_str());
                    return 1;
                }
                printf("the case passes\n");
                return 0;
            }
        fprintf(stderr, "no such property in this binary: %s\n", prop.c_str());
        return 3;
    }
    uint64_t ev = 0, nt = 0, dist = 0, dc = 0, viol = 0, planned = 0;
    std::map<std::string, std::string> knowns;
    std::ostringstream per, samples;
    bool first = true, firsts = true;
    size_t left = props().size();
    for (auto& p : props())
    {
        if (!only.empty() && p.name != only) { --left; continue; }
        // share the remaining time fairly; normally it never runs out
        const auto n0 = Engine::now();
        const auto rest = e.wall - (n0 - e.t0);
        const auto until = n0 + std::max(2., 2. * rest / double(left) < rest ? 2. * rest / double(left) : rest);
        --left;
        auto T = e.run(p, until);
        ev += T.evals; nt += T.nontriv; dist += T.distinct.size(); dc += T.discards;
        planned += T.planned;
        viol += T.failed;
        for (auto& kv : T.knowns) knowns.insert(kv);
        fprintf(stderr, "  %-28s %8lu cases (%lu discarded), %lu distinct non-trivial, %.1f s%s\n",
            p.name.c_str(), (unsigned long)T.evals, (unsigned long)T.discards,
            (unsigned long)T.distinct.size(), T.secs, T.failed ? "  FAILED" : "");
        per << (first ? "" : ",\n") << "  \"" << esc(p.name) << "\": {\"planned\": " << T.planned
            << ", \"evaluations\": " << T.evals << ", \"discarded\": " << T.discards
            << ", \"distinct_nontrivial\": " << T.distinct.size() << ", \"seconds\": "
            << T.secs << ", \"labels\": {";
        bool fl = true;
        for (auto& [k, v] : T.labels)
        {
            per << (fl ? "" : ", ") << '"' << esc(k) << "\": " << v;
            fl = false;
        }
        per << "}}";
        first = false;
        for (auto& s : T.samples)
        {
            samples << (firsts ? "" : ",\n") << "  \"" << esc(s) << '"';
            firsts = false;
        }
    }
    std::ofstream j(e.outdir + "/result.json");
    j << "{\"evaluations\": " << ev << ", \"distinct_nontrivial\": " << dist
      << ", \"nontrivial\": " << nt << ", \"discarded\": " << dc << ", \"planned\": " << planned
      << ", \"violations\": " << viol << ",\n\"known\": {";
    bool fk = true;
    for (auto& [k, v] : knowns)
    {
        j << (fk ? "" : ", ") << '"' << esc(k) << "\": \"" << esc(v) << '"';
        fk = false;
    }
    j << "},\n\"per\": {\n" << per.str() << "\n},\n\"samples\": [\n" << samples.str() << "\n]}\n";
    j.close();
    return viol ? 1 : 0;
}

} // namespace pbt

#ifdef PBT_LIBFUZZER
// The same properties under libFuzzer: the input bytes are the choices.
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
    static pbt::Shm* s = pbt::new_shm();
    static std::set<std::string> listed = [] {
        std::set<std::string> r;
        std::istringstream i(getenv("PBT_KNOWN") ? getenv("PBT_KNOWN") : "");
        for (std::string w; i >> w;) r.insert(w);
        return r;
    }();
    static const pbt::Prop* p = [] {
        const std::string want = getenv("PBT_PROP") ? getenv("PBT_PROP") : "";
        for (auto& q : pbt::props()) if (q.name == want) return &q;
        fprintf(stderr, "PBT_PROP?\n");
        _exit(3);
    }();
    std::vector<uint64_t> ch;
    for (size_t i = 0; i < size;)
    {
        // one control byte gives the width of the choice
        const auto w = size_t(data[i] & 3) + 1;
        ++i;
        uint64_t v = 0;
        for (size_t k = 0; k < w && i < size; ++k, ++i) v = v << 8 | data[i];
        ch.push_back(v);
    }
    pbt::Ctx c;
    c.shm = s;
    c.replay = true;
    c.fuzzing = true;
    c.given = &ch;
    c.listed = &listed;
    s->n = 0;
    if (const char* d = getenv("PBT_DECODE")) // only translate the input
    {
        std::ofstream w(d);
        w << "prop " << p->name << "\nchoices";
        for (auto v : ch) w << ' ' << v;
        w << '\n';
        return 0;
    }
    try { p->fn(c); }
    catch (const pbt::Failure& f)
    {
        fprintf(stderr, "FAILURE %s\n", f.msg.c_str());
        abort();
    }
    catch (const pbt::Discard&) { return -1; }
    return 0;
}
#else
int main(int argc, char** argv) { return pbt::main_(argc, argv); }
#endif
