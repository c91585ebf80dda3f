// C19: axioms and relations of the measures of presortedness.
#include "probes.h"
#include <cpp-sort/probes.h>
#include <cmath>
#include <forward_list>
#include <functional>
#include <list>
#include <map>

namespace cs = cppsort;
using pbt::Src; using pbt::i64; using pbt::u64;

std::vector<int> draw(Src& src, std::size_t max)
{
    auto v = td::to_int(gen::keys(src, max));
    src.note_seq("v", v);
    src.nontrivial_if(!std::is_sorted(v.begin(), v.end()));
    return v;
}

template<typename P>
struct Probe
{
    const char* name;
    const P& p;

    void bounds(i64 m, std::size_t n) const
    {
        if (m < 0 || m > p.max_for_size((i64)n)) pbt::fail("probe::%s returned %lld for %zu elements, more than the maximum %lld it advertises", name, (long long)m, n, (long long)p.max_for_size((i64)n));
    }

    // sorted sequences: 0, duplicates and every order included
    void t_sorted(Src& src) const
    {
        auto v = td::to_int(gen::keys(src, pbt::g_thorough ? 5000 : 1000));
        u64 mod = src.below(4) == 3 ? 1 + src.below(20) : 0;
        if (mod) for (auto& x: v) x = (int)((unsigned)x % mod);
        gen::Order o = gen::order(src);
        std::stable_sort(v.begin(), v.end(), o);
        src.note_seq("v", v);
        src.nontrivial_if(v.size() > 1);
        i64 m;
        switch (src.below(4)) {
            case 0: { std::forward_list<int> f(v.begin(), v.end()); m = p(f, o); break; }
            case 1: { std::list<int> l(v.begin(), v.end()); m = p(l.begin(), l.end(), o); break; }
            case 2: m = p(v.begin(), v.end(), o); break;
            default: std::sort(v.begin(), v.end(), std::greater<>{}); m = p(v, std::greater<>{}); break;
        }
        if (m != 0) pbt::fail("probe::%s returned %lld for a sorted sequence of %zu elements", name, (long long)m, v.size());
        if (!std::is_sorted(v.begin(), v.end(), o) && !std::is_sorted(v.begin(), v.end(), std::greater<>{})) pbt::fail("probe::%s modified the sequence", name);
    }

    // same relative order, other values, other types: same measure
    void t_isomorphic(Src& src) const
    {
        auto v = draw(src, pbt::g_thorough ? 1500 : 300);
        std::map<int, i64> ranks;
        for (int x: v) ranks[x] = 0;
        i64 at = -(i64)src.below(1000), gap = 1 + src.below(1 << 20);
        for (auto& r: ranks) { r.second = at; at += gap; }
        std::vector<i64> a; std::vector<double> d; std::forward_list<i64> neg; std::list<std::pair<int, i64>> pairs;
        auto tail = neg.before_begin();
        for (int x: v) {
            i64 r = ranks[x];
            a.push_back(r); d.push_back((double)r / 7); tail = neg.insert_after(tail, -r); pairs.emplace_back((int)a.size(), r);
        }
        i64 m = p(v), got[] = {p(a), p(d), p(neg, std::greater<>{}), p(neg, std::negate<>{}), p(pairs, &std::pair<int, i64>::second)};
        for (int k = 0; k < 5; ++k)
            if (got[k] != m) pbt::fail("probe::%s returned %lld for a sequence and %lld for an order isomorphic one (%d)", name, (long long)m, (long long)got[k], k);
        bounds(m, v.size());
        i64 again = p(v);
        if (again != m) pbt::fail("probe::%s returned %lld then %lld for the same sequence", name, (long long)m, (long long)again);
    }

    // maximum: reached, for every size, by the sequences which the documentation describes
    void t_reached(Src& src) const
    {
        const std::size_t n = src.index(300);
        src.note("n=%zu ", n);
        src.nontrivial_if(n > 1);
        std::string s = name;
        std::vector<int> v(n);
        for (std::size_t i = 0; i < n; ++i) v[i] = (int)(n - i);                                                    // reversed
        if (s == "ham" || s == "exc") for (std::size_t i = 0; i < n; ++i) v[i] = (int)((i + 1) % (n ? n : 1));           // one element away
        else if (s == "enc") for (std::size_t i = 0; i < n; ++i) v[i] = i % 2 ? (int)(n - i / 2) : (int)(i / 2);         // converging bounds
        else if (s == "mono") for (std::size_t i = 0; i < n; ++i) v[i] = i % 2 ? (int)(n + i) : (int)i;                // alternating
        else if (s == "osc") {                                                                                           // strongly oscillating
            // low and high halves alternate, the two values in the middle at the ends
            std::size_t h = n / 2, lo = 0, hi = n;
            for (std::size_t i = 0; i < n; ++i) v[i] = i % 2 ? (int)--hi : (int)lo++;
            if (n % 2 == 0 && n > 1) { v.clear(); v.push_back((int)h - 1); for (std::size_t i = 0; i + 1 < h; ++i) { v.push_back((int)(n - 1 - i)); v.push_back((int)i); } v.push_back((int)h); }
            else if (n > 2) {
                // middle value first, then the rest alternates and ends next to the middle
                v.clear(); v.push_back((int)h);
                for (std::size_t i = 0; i < h; ++i) { v.push_back((int)(n - 1 - i)); v.push_back((int)i); }
                // last value must be the closest to the middle: h - 1
            }
        } else if (s == "dis") { for (std::size_t i = 0; i < n; ++i) v[i] = (int)i + 1; if (n) v[n - 1] = 0; }                // last smaller than the first
        i64 m = p(v), want = p.max_for_size((i64)n);
        if (m != want) pbt::fail("probe::%s returned %lld for a worst case of %zu elements, its advertised maximum is %lld", name, (long long)m, n, (long long)want);
        // same values for other types of integers
        auto other = [&](auto x, const char* what) {
            auto r = p.max_for_size(x);
            static_assert(std::is_same<decltype(r), decltype(x)>::value, "type of the maximum");
            if ((i64)r != want) pbt::fail("probe::%s.max_for_size(%zu) is %lld for %s, %lld for a signed integer", name, n, (long long)r, what, (long long)want);
        };
        other((unsigned)n, "unsigned int"); other((u64)n, "unsigned long"); other((int)n, "int"); other((long long)n, "long long"); other((__int128_t)n, "__int128");
        bounds(m, n);
    }

    // all permutations of small sizes: the maximum is right
    void t_tight(Src& src) const
    {
        const std::size_t n = src.index(pbt::g_thorough ? 10 : 9);
        src.note("n=%zu ", n);
        src.nontrivial();
        std::vector<int> v(n);
        for (std::size_t i = 0; i < n; ++i) v[i] = (int)i;
        i64 best = 0;
        do best = std::max<i64>(best, p(v)); while (std::next_permutation(v.begin(), v.end()));
        if (best != p.max_for_size((i64)n)) pbt::fail("probe::%s reaches %lld with %zu elements, its advertised maximum is %lld", name, (long long)best, n, (long long)p.max_for_size((i64)n));
    }
};

struct M { i64 n, block, dis, enc, exc, ham, inv, max, mono, osc, rem, runs, sus; };

template<typename C>
M measure(const C& c, std::size_t n)
{
    M m;
    m.n = (i64)n;
#define X(N) m.N = cs::probe::N(c);
    PROBES(X)
#undef X
    return m;
}

#define REL(c, ref) if (!(c)) pbt::fail("relation violated: %s (%s): n=%lld block=%lld dis=%lld enc=%lld exc=%lld ham=%lld inv=%lld max=%lld mono=%lld osc=%lld rem=%lld runs=%lld sus=%lld", \
    #c, ref, (long long)m.n, (long long)m.block, (long long)m.dis, (long long)m.enc, (long long)m.exc, (long long)m.ham, (long long)m.inv, (long long)m.max, \
    (long long)m.mono, (long long)m.osc, (long long)m.rem, (long long)m.runs, (long long)m.sus)

void relations(const M& m, bool sorted, bool distinct)
{
    // zero exactly on sorted sequences, but for those which do not see reversed or encroaching ones
    REL((m.dis == 0) == sorted, "definition");
    REL((m.exc == 0) == sorted, "definition");
    REL((m.ham == 0) == sorted, "definition");
    REL((m.inv == 0) == sorted, "definition");
    REL((m.max == 0) == sorted, "definition");
    REL((m.rem == 0) == sorted, "definition");
    REL((m.runs == 0) == sorted, "definition");
    REL((m.sus == 0) == sorted, "definition");
    if (distinct) REL((m.block == 0) == sorted, "definition");
    REL(m.exc <= m.inv, "Mannila");
    REL(m.rem <= m.inv, "Levcopoulos and Petersson");
    REL(m.runs <= m.rem, "Petersson and Moffat");
    REL(sorted || m.exc + 1 <= m.ham, "Petersson and Moffat");
    REL(m.ham <= 2 * m.exc, "Petersson and Moffat");
    REL(m.max <= m.dis && m.dis <= 2 * m.max, "Petersson and Moffat");
    REL(m.dis <= m.inv, "Estivill-Castro and Wood");
    REL(m.rem * (m.dis + 1) <= m.n * m.dis, "Estivill-Castro and Wood");
    REL(2 * m.inv <= m.n * m.dis * 2, "Estivill-Castro and Wood");
    REL(m.rem <= 2 * m.exc, "Estivill-Castro and Wood");
    REL(m.enc <= m.runs, "Skiena");
    REL(m.enc <= m.rem, "Skiena");
    REL(m.sus <= m.runs && m.sus <= m.max && m.enc <= m.sus, "Levcopoulos and Petersson");
    REL(m.osc <= 4 * m.inv, "Levcopoulos and Petersson");
    REL(m.osc <= 2 * m.n * m.runs + m.n, "Levcopoulos and Petersson");
    REL(m.osc <= 2 * m.n * m.dis, "Levcopoulos and Petersson");
    if (distinct) REL(m.block <= 3 * m.rem, "Carlsson, Levcopoulos and Petersson");
    REL(m.enc <= m.dis, "Chen");
    REL(m.mono <= m.runs, "a descending run is several ascending ones");
}

void t_relations(Src& src)
{
    auto v = draw(src, pbt::g_thorough ? 2000 : 500);
    auto r = pr::ranks(v.size(), [&](int a, int b) { return v[a] < v[b]; });
    bool sorted = std::is_sorted(v.begin(), v.end());
    if (src.below(2)) relations(measure(v, v.size()), sorted, pr::distinct(r));
    else { std::forward_list<int> f(v.begin(), v.end()); relations(measure(f, v.size()), sorted, pr::distinct(r)); }
}
void t_relations_all(Src& src)
{
    u64 total = 0, f = 1; // permutations of up to 8 elements (9: thorough)
    const int top = pbt::g_thorough ? 9 : 8;
    for (int n = 0; n <= top; ++n) { if (n) f *= n; total += f; }
    u64 i = src.index(total);
    std::size_t n = 0;
    f = 1;
    while (i >= f) { i -= f; ++n; f *= n; }
    std::vector<int> pool(n), v;
    for (std::size_t k = 0; k < n; ++k) pool[k] = (int)k;
    for (std::size_t k = n; k > 0; --k) { v.push_back(pool[i % k]); pool.erase(pool.begin() + i % k); i /= k; }
    src.note_seq("v", v);
    bool sorted = std::is_sorted(v.begin(), v.end());
    src.nontrivial_if(!sorted);
    relations(measure(v, n), sorted, true);
}

// reversal and concatenation
void t_algebra(Src& src)
{
    auto v = draw(src, pbt::g_thorough ? 1000 : 250);
    auto w = td::to_int(gen::keys(src, pbt::g_thorough ? 1000 : 250));
    src.note_seq("w", w);
    i64 n = (i64)v.size(), k = (i64)w.size();
    std::vector<int> rev(v.rbegin(), v.rend());
    bool distinct = pr::distinct(pr::ranks(v.size(), [&](int a, int b) { return v[a] < v[b]; }));
    auto eq = [](const char* what, i64 a, i64 b) { if (a != b) pbt::fail("%s: %lld and %lld", what, (long long)a, (long long)b); };
    auto le = [](const char* what, i64 a, i64 b) { if (a > b) pbt::fail("%s: %lld > %lld", what, (long long)a, (long long)b); };
    if (distinct) {
        eq("inv of a sequence and of its reverse", cs::probe::inv(v) + cs::probe::inv(rev), n * (n - 1) / 2);
        if (n) eq("runs of a sequence and of its reverse", cs::probe::runs(v) + cs::probe::runs(rev), n - 1);
        if (n) eq("sus and rem of the reverse", cs::probe::sus(v) + 1, n - cs::probe::rem(rev));
    }
    // the reverse in the reverse order
    eq("osc of the reverse", cs::probe::osc(rev), cs::probe::osc(v));
    eq("osc of the reverse order", cs::probe::osc(v, std::greater<>{}), cs::probe::osc(v));
    eq("mono of the reverse order", cs::probe::mono(v, std::greater<>{}), cs::probe::mono(v));
    eq("mono of the reverse", cs::probe::mono(rev), cs::probe::mono(v));
#define X(N) eq(#N " of the reverse in the reverse order", cs::probe::N(rev, std::greater<>{}), cs::probe::N(v));
    X(dis) X(ham) X(inv) X(max) X(mono) X(osc) X(rem) X(runs) X(sus)
    if (distinct) { X(block) X(exc) }
#undef X
    // every element of v before every element of w
    std::vector<i64> c(v.begin(), v.end());
    for (int x: w) c.push_back((i64(1) << 40) + x);
    eq("inv of a concatenation", cs::probe::inv(c), cs::probe::inv(v) + cs::probe::inv(w));
    eq("rem of a concatenation", cs::probe::rem(c), cs::probe::rem(v) + cs::probe::rem(w));
    eq("runs of a concatenation", cs::probe::runs(c), cs::probe::runs(v) + cs::probe::runs(w));
    eq("ham of a concatenation", cs::probe::ham(c), cs::probe::ham(v) + cs::probe::ham(w));
    if (distinct) le("exc of a concatenation", cs::probe::exc(v) + 0, cs::probe::exc(c));
    eq("dis of a concatenation", cs::probe::dis(c), std::max(cs::probe::dis(v), cs::probe::dis(w)));
    eq("max of a concatenation", cs::probe::max(c), std::max(cs::probe::max(v), cs::probe::max(w)));
    eq("sus of a concatenation", cs::probe::sus(c), std::max(cs::probe::sus(v), cs::probe::sus(w)));
    le("mono of a concatenation", cs::probe::mono(c), cs::probe::mono(v) + cs::probe::mono(w) + 1);
    // prepending an element
    std::vector<i64> y(v.begin(), v.end());
    y.insert(y.begin(), src.below(2) ? -(i64(1) << 40) + k : (i64)src.below(1000));
#define X(N) le(#N " with one more element in front", cs::probe::N(y), n + cs::probe::N(v));
    X(dis) X(enc) X(inv) X(max) X(mono) X(rem) X(runs) X(sus)
    if (distinct) { X(block) }
#undef X
}

void register_tests()
{
    int k = 0;
#define X(N) if (NPARTS == 1 || (++k % NPARTS) == PART) { \
        static const Probe<std::remove_cv_t<std::remove_reference_t<decltype(cs::probe::N)>>> t{#N, cs::probe::N}; \
        pbt::add_test(#N "/sorted", 1500, 10000, [](Src& s) { t.t_sorted(s); }); \
        pbt::add_test(#N "/isomorphic", 1500, 10000, [](Src& s) { t.t_isomorphic(s); }); \
        pbt::add_test(#N "/maximum reached", 300, 300, [](Src& s) { t.t_reached(s); }); \
        pbt::add_test(#N "/maximum of all permutations", 9, 10, [](Src& s) { t.t_tight(s); }); }
    PROBES(X)
#undef X
    if (PART == 0) pbt::add_test("relations", 8000, 80000, t_relations);
    if (NPARTS == 1 || PART == 1) pbt::add_test("relations, all permutations", 46234, 409114, t_relations_all);
    if (NPARTS == 1 || PART == 2) pbt::add_test("reverse, concatenation", 8000, 80000, t_algebra);
}
