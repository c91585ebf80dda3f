// C29: time (comparisons, projections, iterator steps) and memory of the measures of presortedness.
#include "alloc.h"
#include "ops.h"
#include "probes.h"
#include <cpp-sort/probes.h>

using namespace ops;
namespace cs = cppsort;

static u64 steps;
template<typename Cat>
struct Walk     // counts its moves
{
    using iterator_category = Cat;
    using value_type = int; using difference_type = std::ptrdiff_t; using reference = const int&; using pointer = const int*;
    const int* p = nullptr;
    const int& operator*() const { return *p; }
    const int* operator->() const { return p; }
    Walk& operator++() { ++steps; ++p; return *this; }
    Walk operator++(int) { auto o = *this; ++*this; return o; }
    Walk& operator--() { ++steps; --p; return *this; }
    Walk operator--(int) { auto o = *this; --*this; return o; }
    Walk& operator+=(std::ptrdiff_t d) { ++steps; p += d; return *this; }
    Walk& operator-=(std::ptrdiff_t d) { ++steps; p -= d; return *this; }
    friend Walk operator+(Walk a, std::ptrdiff_t d) { return a += d; }
    friend Walk operator+(std::ptrdiff_t d, Walk a) { return a += d; }
    friend Walk operator-(Walk a, std::ptrdiff_t d) { return a -= d; }
    friend std::ptrdiff_t operator-(Walk a, Walk b) { return a.p - b.p; }
    const int& operator[](std::ptrdiff_t d) const { return p[d]; }
    friend bool operator==(Walk a, Walk b) { return a.p == b.p; }
    friend bool operator!=(Walk a, Walk b) { return a.p != b.p; }
    friend bool operator<(Walk a, Walk b) { return a.p < b.p; }
    friend bool operator>(Walk a, Walk b) { return a.p > b.p; }
    friend bool operator<=(Walk a, Walk b) { return a.p <= b.p; }
    friend bool operator>=(Walk a, Walk b) { return a.p >= b.p; }
};

struct PCmp
{
    bool rev;
    bool operator()(int a, int b) const { ++cmps; tick(); probe_stack(); return rev ? b < a : a < b; }
};
struct PProj { int operator()(const int& x) const { ++projs; return x; } };

// per measure: multiples of the unit for comparisons, projections, steps; bytes per element; 0: not bounded
struct Bound { double cmps, projs, steps, bytes; };
enum Unit { linear, n_log_n, quadratic };
static double unit_of(Unit u, double n) { return u == linear ? n : u == n_log_n ? n * lg(n) : n * n; }
static const char* unit_name(Unit u) { return u == linear ? "n" : u == n_log_n ? "n log2 n" : "n^2"; }

template<typename Cat, typename P>
void t_cost(Src& src, const char* name, const char* where, const P& p, Unit unit, Bound b, bool no_memory)
{
    std::vector<int> v;
    if (src.below(3)) v = td::to_int(gen::keys_n(src, 32, 3000));
    else v = gen::bulk(src, 1000, unit == quadratic ? 2000 : pbt::g_thorough ? 120000 : 30000);
    double n = (double)v.size();
    if (unit == quadratic && n > 2000) { v.resize(2000); n = 2000; }
    if (!std::strcmp(name, "exc") && n > 4000) { v.resize(4000); n = 4000; }
    bool rev = src.below(2);
    src.note("%s %s%s ", name, where, rev ? ", greater" : "");
    src.note_seq("v", v);
    src.nontrivial_if(!std::is_sorted(v.begin(), v.end()));
    src.classify(n < 256 ? "n<256" : n < 4096 ? "n<4096" : "n>=4096");
    Walk<Cat> first, last;
    first.p = v.data(); last.p = v.data() + v.size();
    char here;
    stack_base = &here; stack_used = 0; steps = cmps = projs = moves = 0;
    double u = unit_of(unit, n);
    limit = (u64)(50 * (b.cmps + b.projs + 1) * u + 100000);
    i64 before = al::live_bytes, blocks = al::live_blocks;
    al::start_peak();
    if (no_memory) al::arm(al::above_size, 0, 1);
    auto d = p(first, last, PCmp{rev}, PProj{});
    al::disarm();
    limit = ~u64(0);
    i64 bytes = al::peak_bytes - before;
    (void)d;
    PBT_CHECK(al::live_blocks == blocks, "%s leaks memory", name);
    std::string where_ = where;
    calibrate(name, (where_ + " c").c_str(), cmps / u, v.size());
    calibrate(name, (where_ + " p").c_str(), projs / u, v.size());
    calibrate(name, (where_ + " i").c_str(), steps / u, v.size());
    calibrate(name, (where_ + " b").c_str(), bytes / n, v.size());
    calibrate(name, (where_ + " s").c_str(), stack_used / lg(n), v.size());
    if (calibrating()) return;
    PBT_CHECK(cmps <= b.cmps * u, "%s on %s: %llu comparisons for %.0f elements, more than %.2f %s", name, where, (unsigned long long)cmps, n, b.cmps, unit_name(unit));
    PBT_CHECK(projs <= b.projs * u, "%s on %s: %llu projections for %.0f elements, more than %.2f %s", name, where, (unsigned long long)projs, n, b.projs, unit_name(unit));
    if (b.steps) PBT_CHECK(steps <= b.steps * u, "%s on %s: %llu iterator moves for %.0f elements, more than %.2f %s", name, where, (unsigned long long)steps, n, b.steps, unit_name(unit));
    PBT_CHECK(bytes <= b.bytes * n + (b.bytes ? 1024 : 0), "%s on %s: %lld bytes allocated at once for %.0f elements, more than %.1f n", name, where, (long long)bytes, n, b.bytes);
    PBT_CHECK(stack_used <= 8192 + 1024 * lg(n), "%s on %s: %td bytes of stack for %.0f elements", name, where, stack_used, n);
}

struct Entry { const char* name; const char* where; Bound b; };
static const Entry table[] = {
// twice (iterators: three times) the greatest cost measured over 2 million cases
#include "c29_bounds.inc"
};
static Bound bound(const std::string& name, const std::string& where)
{
    for (auto& e: table) if (name == e.name && where == e.where) return e.b;
    if (!calibrating()) { std::fprintf(stderr, "no bound for %s on %s\n", name.c_str(), where.c_str()); std::abort(); }
    return {1e9, 1e9, 1e9, 1e9};
}

void register_tests()
{
    using fwd = std::forward_iterator_tag; using bi = std::bidirectional_iterator_tag; using ra = std::random_access_iterator_tag;
#define T(N, CAT, W, U, NOMEM) { auto b = bound(#N NOMEM, W); bool nm = *NOMEM; \
        pbt::add_test(#N NOMEM "/" W, 500, 8000, [b, nm](Src& s) { t_cost<CAT>(s, #N NOMEM, W, cs::probe::N, U, b, nm); }); }
#define ALL(N, U) T(N, fwd, "forward", U, "") T(N, bi, "bidirectional", U, "") T(N, ra, "random-access", U, "")
    ALL(block, n_log_n) ALL(enc, n_log_n) ALL(exc, n_log_n) ALL(ham, n_log_n) ALL(inv, n_log_n) ALL(max, n_log_n)
    ALL(mono, linear) ALL(osc, n_log_n) ALL(rem, n_log_n) ALL(runs, linear) ALL(sus, n_log_n)
    T(dis, fwd, "forward", n_log_n, "") T(dis, bi, "bidirectional", linear, "") T(dis, ra, "random-access", linear, "")
    T(dis, bi, "bidirectional", n_log_n, ", no memory") T(dis, ra, "random-access", n_log_n, ", no memory")
    T(osc, fwd, "forward", quadratic, ", no memory")
    T(mono, fwd, "forward", linear, ", no memory") T(runs, fwd, "forward", linear, ", no memory")
}
