// C04: the copies of iterators, comparisons and projections made by the sorters have lifetimes too: each one is
// constructed, used while it holds a value (not once moved from), and destroyed exactly once, exceptions included.
#include "sortcheck.h"
#include <cpp-sort/probes.h>
#include <unordered_set>

using namespace sc;
namespace cs = cppsort;

static std::unordered_set<const void*> g_live;
static const char* const kinds[] = {"iterator", "comparison", "projection"};

template<int K>
struct Tracked
{
    const Tracked* self;
    bool moved = false;
    Tracked(): self(this) { g_live.insert(this); }
    Tracked(const Tracked& o): self(this) { o.usable("copied"); born(); }
    Tracked(Tracked&& o): self(this) { o.usable("moved"); born(); o.moved = true; }
    Tracked& operator=(const Tracked& o) { alive("assigned to"); o.usable("copied"); moved = false; return *this; }
    Tracked& operator=(Tracked&& o)
    {
        alive("assigned to");
        if (&o == this) return *this;       // swapping an object with itself is harmless
        o.usable("moved");
        moved = false; o.moved = true;
        return *this;
    }
    ~Tracked() { alive("destroyed"); g_live.erase(this); self = nullptr; }
    void born() { if (!g_live.insert(this).second) pbt::fail("a %s is constructed over one which is alive", kinds[K]); }
    void alive(const char* what) const { if (self != this || !g_live.count(this)) pbt::fail("a %s which is not alive is %s", kinds[K], what); }
    void usable(const char* what) const { alive(what); if (moved) pbt::fail("a %s which has been moved from is %s", kinds[K], what); }
};

struct Rec { int key, id; };

template<typename Cat>
class TIt: public Tracked<0>
{
    Rec* p = nullptr;
    static constexpr bool ra = std::is_base_of<ra_tag, Cat>::value, bi = std::is_base_of<bi_tag, Cat>::value;
public:
    using iterator_category = Cat;
    using value_type = Rec; using difference_type = std::ptrdiff_t; using pointer = Rec*; using reference = Rec&;
    TIt() = default;
    explicit TIt(Rec* p): p(p) {}
    Rec& operator*() const { usable("dereferenced"); return *p; }
    Rec* operator->() const { usable("dereferenced"); return p; }
    TIt& operator++() { usable("incremented"); ++p; return *this; }
    TIt operator++(int) { auto r = *this; ++*this; return r; }
    friend bool operator==(const TIt& a, const TIt& b) { a.usable("compared"); b.usable("compared"); return a.p == b.p; }
    friend bool operator!=(const TIt& a, const TIt& b) { return !(a == b); }
#define BI template<bool B = bi, typename = std::enable_if_t<B>>
#define RA template<bool B = ra, typename = std::enable_if_t<B>>
    BI TIt& operator--() { usable("decremented"); --p; return *this; }
    BI TIt operator--(int) { auto r = *this; --*this; return r; }
    RA TIt& operator+=(std::ptrdiff_t n) { usable("moved on"); p += n; return *this; }
    RA TIt& operator-=(std::ptrdiff_t n) { usable("moved on"); p -= n; return *this; }
    RA friend TIt operator+(TIt a, std::ptrdiff_t n) { a += n; return a; }
    RA friend TIt operator+(std::ptrdiff_t n, TIt a) { a += n; return a; }
    RA friend TIt operator-(TIt a, std::ptrdiff_t n) { a -= n; return a; }
    RA friend std::ptrdiff_t operator-(const TIt& a, const TIt& b) { a.usable("subtracted"); b.usable("subtracted"); return a.p - b.p; }
    RA Rec& operator[](std::ptrdiff_t n) const { usable("dereferenced"); return p[n]; }
    RA friend bool operator<(const TIt& a, const TIt& b) { a.usable("compared"); b.usable("compared"); return a.p < b.p; }
    RA friend bool operator>(const TIt& a, const TIt& b) { return b < a; }
    RA friend bool operator<=(const TIt& a, const TIt& b) { return !(b < a); }
    RA friend bool operator>=(const TIt& a, const TIt& b) { return !(a < b); }
};
struct TCmp: Tracked<1>
{
    gen::Order order;
    explicit TCmp(gen::Order o): order(o) {}
    bool operator()(int a, int b) const { usable("called"); td::on_call(); return order(a, b); }
};
struct TProj: Tracked<2>
{
    int mode;
    explicit TProj(int m): mode(m) {}
    int operator()(const Rec& e) const { usable("called"); td::on_call(); return gen::proj_apply(mode, e.key); }
};

template<typename S, typename Cat, bool Stable, bool Quad>
void t_objects(Src& src, const char* name)
{
    Case c = draw(src, Quad ? 150 : pbt::g_thorough ? 3000 : 900);
    if (src.chance(1, 3)) coarsen(src, c);
    bool boom = src.chance(1, 4);
    src.nontrivial_if(c.keys.size() >= 2 && !std::is_sorted(c.keys.begin(), c.keys.end(), [&](int a, int b) { return c.less(a, b); }));
    g_live.clear();
    std::vector<Rec> v;
    for (std::size_t i = 0; i < c.keys.size(); ++i) v.push_back({c.keys[i], (int)i});
    if (boom) td::throw_at_call = (i64)src.below(6 * c.keys.size() + 1);
    src.note("%s boom=%lld ", name, (long long)td::throw_at_call);
    bool thrown = false;
    {
        TIt<Cat> first(v.data()), last(v.data() + v.size());
        TCmp cmp(c.order);
        TProj proj(c.mode);
        std::size_t before = g_live.size();
        try { S{}(first, last, cmp, proj); }
        catch (td::Boom&) { thrown = true; }
        first.usable("used"); last.usable("used"); cmp.usable("used"); proj.usable("used");
        PBT_CHECK(g_live.size() == before, "%s: %lld copies of iterators or function objects still alive after the call%s", name,
                  (long long)g_live.size() - (long long)before, thrown ? " (stopped by an exception)" : "");
    }
    PBT_CHECK(g_live.empty(), "%s: a copy is still alive", name);
    src.classify(thrown ? "stopped by an exception" : "complete");
    if (!thrown) verify(v.begin(), v.end(), c, name, Stable);
}

// Measures and fixed-size sorters
template<typename Call>
void t_call(Src& src, const char* name, Case& c, bool sorts, Call call)
{
    bool boom = src.chance(1, 4);
    src.nontrivial_if(c.keys.size() >= 2 && !std::is_sorted(c.keys.begin(), c.keys.end(), [&](int a, int b) { return c.less(a, b); }));
    g_live.clear();
    std::vector<Rec> v;
    for (std::size_t i = 0; i < c.keys.size(); ++i) v.push_back({c.keys[i], (int)i});
    if (boom) td::throw_at_call = (i64)src.below(6 * c.keys.size() + 1);
    src.note("%s boom=%lld ", name, (long long)td::throw_at_call);
    bool thrown = false;
    try { call(v); }
    catch (td::Boom&) { thrown = true; }
    PBT_CHECK(g_live.empty(), "%s: %zu copies of iterators or function objects still alive after the call%s", name, g_live.size(), thrown ? " (stopped by an exception)" : "");
    src.classify(thrown ? "stopped by an exception" : "complete");
    if (!thrown && sorts) verify(v.begin(), v.end(), c, name, false);
    if (!sorts) verify_untouched(v.begin(), v.end(), c, name);
}
template<typename P, typename Cat>
void t_probe(Src& src, const char* name)
{
    Case c = draw(src, 200);
    t_call(src, name, c, false, [&](std::vector<Rec>& v) { P{}(TIt<Cat>(v.data()), TIt<Cat>(v.data() + v.size()), TCmp(c.order), TProj(c.mode)); });
}
template<template<std::size_t> class F, std::size_t N>
void t_fixed(Src& src, const char* name)
{
    Case c;
    td::reset_counters();
    c.order = gen::order(src); c.mode = (int)src.below(gen::n_projs);
    for (std::size_t i = 0; i < N; ++i) c.keys.push_back((int)src.below(2 * N + 1));
    src.note_seq("keys", c.keys);
    t_call(src, name, c, true, [&](std::vector<Rec>& v) { F<N>{}(TIt<ra_tag>(v.data()), TIt<ra_tag>(v.data() + N), TCmp(c.order), TProj(c.mode)); });
}
template<typename P>
void add_p(const char* name)
{
    pbt::add_test(std::string("probe ") + name, 2500, 60000, [name](Src& s) { t_probe<P, fwd_tag>(s, name); });
    pbt::add_test(std::string("probe/ra ") + name, 2500, 60000, [name](Src& s) { t_probe<P, ra_tag>(s, name); });
}
template<template<std::size_t> class F, std::size_t... Ns>
void add_fixed(const char* name, std::index_sequence<Ns...>)
{
    int d[] = {(pbt::add_test(std::string(name) + std::to_string(Ns), 500, 10000, [name](Src& s) { t_fixed<F, Ns>(s, name); }), 0)...};
    (void)d;
}

template<int I, typename S, typename Cat, bool Stable, bool Quad>
void maybe(const char* name)
{
    if constexpr (I % NPARTS == PART)
        pbt::add_test(name, 2500, 60000, [name](Src& s) { t_objects<S, Cat, Stable, Quad>(s, name); });
}

void register_tests()
{
    enum { base = __COUNTER__ };
#define X(NAME, TYPE, CAT, STABLE, QUAD) maybe<__COUNTER__ - base - 1, TYPE, CAT, STABLE, QUAD>(NAME); \
    if constexpr (!std::is_same<CAT, ra_tag>::value) maybe<__COUNTER__ - base - 1, TYPE, ra_tag, STABLE && !std::is_same<TYPE, cs::default_sorter>::value, QUAD>(NAME "/ra");
    COMPARISON_SORTERS(X)
    BUFFERED_SORTERS(X)
#undef X
#define X(NAME, CAT, STABLE, ...) maybe<__COUNTER__ - base - 1, __VA_ARGS__, CAT, STABLE, false>(NAME); \
    if constexpr (!std::is_same<CAT, ra_tag>::value) maybe<__COUNTER__ - base - 1, __VA_ARGS__, ra_tag, STABLE, false>(NAME "/ra");
    ADAPTED_SORTERS(X)
#undef X
#define A(...) if constexpr ((__COUNTER__ - base - 1) % NPARTS == PART) __VA_ARGS__
    A((add_fixed<cs::sorting_network_sorter>("sorting_network", std::index_sequence<2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 17, 24>{})));
    A((add_fixed<cs::low_comparisons_sorter>("low_comparisons", std::make_index_sequence<14>{})));
    A((add_fixed<cs::low_moves_sorter>("low_moves", std::make_index_sequence<13>{})));
#define P(NAME) A((add_p<std::decay_t<decltype(cs::probe::NAME)>>(#NAME)));
    P(block) P(dis) P(enc) P(exc) P(ham) P(inv) P(max) P(mono) P(osc) P(par) P(rem) P(runs) P(sus)
}
