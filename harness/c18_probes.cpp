// C18: every measure of presortedness against its definition.
#include "alloc.h"
#include "probes.h"
#include <cpp-sort/adapters/indirect_adapter.h>
#include <cpp-sort/probes.h>
#include <cpp-sort/probes/par.h>
#include <cstring>
#include <deque>
#include <forward_list>
#include <functional>
#include <list>
#include <string>

namespace cs = cppsort;
using namespace td;
using pbt::Src;

struct Keyed { int pad; int key; double d; };
struct Key { int operator()(const Keyed& k) const { return k.key; } };

void expect(const char* probe, const char* how, pr::Range want, i64 got)
{
    if (got < want.lo || got > want.hi)
        pbt::fail("probe::%s (%s) returned %lld, expected %lld%s", probe, how, (long long)got, (long long)want.lo,
                  want.lo == want.hi ? "" : (" to " + std::to_string(want.hi)).c_str());
}
template<typename C, typename V>
void same(const char* probe, const char* how, const C& c, const V& v)
{
    if (!std::equal(c.begin(), c.end(), v.begin(), v.end())) pbt::fail("probe::%s (%s) modified the sequence", probe, how);
}

// integers with the standard comparisons and all the call forms, over one collection
template<typename C, typename P>
void ints(Src& src, const char* name, const P& p, pr::Range (*ref)(const pr::R&), const std::vector<int>& v, const char* what)
{
    const C c(v.begin(), v.end());
    auto n = v.size();
    auto up = pr::ranks(n, [&](int a, int b) { return v[a] < v[b]; });
    auto down = pr::ranks(n, [&](int a, int b) { return v[a] > v[b]; });
    auto low = pr::ranks(n, [&](int a, int b) { return (v[a] >> 2) < (v[b] >> 2); });
    auto wol = pr::ranks(n, [&](int a, int b) { return (v[a] >> 2) > (v[b] >> 2); });
    auto q = [](int x) { return x >> 2; };
    switch (src.below(9)) {
        case 0: expect(name, what, ref(up), p(c)); break;
        case 1: expect(name, what, ref(up), p(c.begin(), c.end())); break;
        case 2: expect(name, what, ref(down), p(c, std::greater<>{})); break;
        case 3: expect(name, what, ref(down), p(c.begin(), c.end(), std::greater<int>{})); break;
        case 4: expect(name, what, ref(down), p(c, std::negate<>{})); break;
        case 5: expect(name, what, ref(low), p(c.begin(), c.end(), q)); break;
        case 6: expect(name, what, ref(wol), p(c, std::greater<>{}, q)); break;
        case 7: expect(name, what, ref(low), p(c.begin(), c.end(), std::less<>{}, q)); break;
        case 8: expect(name, what, ref(up), p(c.begin(), c.end(), [](int a, int b) { return a < b; })); break;
    }
    same(name, what, c, v);
}

template<typename Cat>
struct Tracked
{
    template<typename P>
    static void run(Src& src, const char* name, const P& p, pr::Range (*ref)(const pr::R&), const std::vector<int>& v, const char* what)
    {
        reset_counters();
        Cmp cmp{gen::order(src)};
        Proj proj{(int)src.below(gen::n_projs)};
        auto n = v.size();
        auto r = pr::ranks(n, [&](int a, int b) { return cmp.order(gen::proj_apply(proj.mode, v[a]), gen::proj_apply(proj.mode, v[b])); });
        Buffer<Elem> buf(n, 3, [&](Elem* at, i64 i) { new (at) Elem(i < 0 || i >= (i64)n ? 7 : v[i], (int)i); });
        call_limit = 200 * (n + 10) * (n + 10);
        auto first = buf.template first<Cat>(), last = buf.template last<Cat>();
        i64 got = src.below(2) ? p(first, last, cmp, proj) : p(first, last, ElemCmp{cmp.order, proj.mode});
        expect(name, what, ref(r), got);
        if (elem_moves) pbt::fail("probe::%s (%s) moved elements", name, what);
        for (std::size_t i = 0; i < n; ++i)
            if (buf[i].key != v[i] || buf[i].id != (int)i) pbt::fail("probe::%s (%s) modified the sequence", name, what);
    }
};

std::vector<int> draw(Src& src, std::size_t max)
{
    auto v = to_int(gen::keys(src, max));
    switch (src.below(5)) {
        case 3: for (auto& x: v) x %= 7; break;
        case 4: for (auto& x: v) x &= 1; break;
        default: break;
    }
    src.note_seq("v", v);
    auto r = pr::ranks(v.size(), [&](int a, int b) { return v[a] < v[b]; });
    src.nontrivial_if(!std::is_sorted(v.begin(), v.end()));
    src.classify(pr::distinct(r) ? "distinct" : "duplicates");
    return v;
}

template<typename P>
void t_probe(Src& src, const char* name, const P& p, pr::Range (*ref)(const pr::R&))
{
    auto v = draw(src, pbt::g_thorough ? 900 : 250);
    switch (src.below(9)) {
        case 0: ints<std::forward_list<int>>(src, name, p, ref, v, "forward_list"); break;
        case 1: ints<std::list<int>>(src, name, p, ref, v, "list"); break;
        case 2: ints<std::vector<int>>(src, name, p, ref, v, "vector"); break;
        case 3: ints<std::deque<int>>(src, name, p, ref, v, "deque"); break;
        case 4: Tracked<std::forward_iterator_tag>::run(src, name, p, ref, v, "forward iterators"); break;
        case 5: Tracked<std::bidirectional_iterator_tag>::run(src, name, p, ref, v, "bidirectional iterators"); break;
        case 6: Tracked<std::random_access_iterator_tag>::run(src, name, p, ref, v, "random-access iterators"); break;
        case 7: {
            std::vector<Keyed> k;
            for (int x: v) k.push_back({-x, x, x / 3.0});
            std::forward_list<Keyed> f(k.begin(), k.end());
            auto up = pr::ranks(v.size(), [&](int a, int b) { return v[a] < v[b]; });
            auto down = pr::ranks(v.size(), [&](int a, int b) { return v[a] > v[b]; });
            switch (src.below(4)) {
                case 0: expect(name, "member pointer", ref(up), p(f, &Keyed::key)); break;
                case 1: expect(name, "member pointer", ref(down), p(k, &Keyed::pad)); break;
                case 2: expect(name, "member pointer", ref(down), p(k.begin(), k.end(), std::greater<>{}, &Keyed::d)); break;
                case 3: expect(name, "indirect adapter", ref(up), cs::indirect_adapter<P>{}(k, Key{})); break;
            }
            for (std::size_t i = 0; i < v.size(); ++i) if (k[i].key != v[i] || k[i].pad != -v[i]) pbt::fail("probe::%s modified the sequence", name);
            break;
        }
        case 8: {
            std::list<std::string> l;
            std::vector<std::string> w;
            for (int x: v) { w.push_back("a long enough common prefix" + std::to_string(x)); l.push_back(w.back()); }
            auto up = pr::ranks(v.size(), [&](int a, int b) { return w[a] < w[b]; });
            auto len = pr::ranks(v.size(), [&](int a, int b) { return w[a].size() > w[b].size(); });
            if (src.below(2)) expect(name, "strings", ref(up), p(l));
            else expect(name, "string lengths", ref(len), p(l, std::greater<>{}, [](const std::string& s) { return s.size(); }));
            same(name, "strings", l, w);
            break;
        }
    }
}

// dis and osc also have algorithms for when no memory is available
template<typename P>
void t_no_memory(Src& src, const char* name, const P& p, pr::Range (*ref)(const pr::R&))
{
    auto v = draw(src, pbt::g_thorough ? 300 : 120);
    auto up = pr::ranks(v.size(), [&](int a, int b) { return v[a] > v[b]; });
    std::forward_list<int> f(v.begin(), v.end());
    std::list<int> l(v.begin(), v.end());
    al::Mode mode = src.below(2) ? al::from_kth : al::random_subset;
    int k = (int)src.below(3);
    i64 blocks = al::live_blocks;
    al::arm(mode, mode == al::from_kth ? src.below(3) : 300 + src.below(724), 1 + src.below(1 << 16));
    i64 got = k == 0 ? p(f, std::greater<>{}) : k == 1 ? p(l, std::greater<>{}) : p(v.begin(), v.end(), std::greater<>{});
    al::disarm();
    if (al::live_blocks != blocks) pbt::fail("probe::%s leaks memory", name);
    expect(name, "no memory", ref(up), got);
}

// the others report the failure and have no effect
template<typename P>
void t_bad_alloc(Src& src, const char* name, const P& p, pr::Range (*ref)(const pr::R&))
{
    auto v = draw(src, 60);
    std::forward_list<int> f(v.begin(), v.end());
    auto up = pr::ranks(v.size(), [&](int a, int b) { return v[a] < v[b]; });
    i64 blocks = al::live_blocks;
    u64 at = src.below(4);
    i64 got = -1;
    al::arm(al::kth, at);
    try { got = p(f); } catch (const std::bad_alloc&) {}
    al::disarm();
    if (al::live_blocks != blocks) pbt::fail("probe::%s leaks memory when allocation %llu fails", name, (unsigned long long)at);
    if (got != -1) expect(name, "one failed allocation", ref(up), got);
    else if (al::refused == 0) pbt::fail("probe::%s: std::bad_alloc without a failed allocation", name);
    same(name, "failed allocation", f, v);
}

void check_all(const pr::R& r)
{
    std::forward_list<int> f(r.begin(), r.end());
    std::list<int> l(r.begin(), r.end());
    auto opaque = [](int a, int b) { return a < b; };
    auto rr = pr::ranks(r.size(), [&](int a, int b) { return r[a] < r[b]; });
#define X(N) { auto want = pr::N(rr); expect(#N, "forward", want, cs::probe::N(f)); expect(#N, "bidirectional", want, cs::probe::N(l, opaque)); \
               expect(#N, "random-access", want, cs::probe::N(r.begin(), r.end(), opaque)); expect(#N, "random-access, less", want, cs::probe::N(r)); }
    PROBES(X)
#undef X
    expect("par", "forward", pr::dis(rr), cs::probe::par(f));
}

// long sequences: the references above cannot be used
template<typename P>
void t_bulk(Src& src, const char* name, const P& p, pr::Range (*ref)(const pr::R&), pr::Range (*slow)(const pr::R&))
{
    auto v = src.below(8) == 0 ? gen::bulk(src, 200, 600) : gen::bulk(src, 1000, 140000);
    auto n = v.size();
    bool rev = src.below(3) == 0;
    auto r = pr::ranks(n, [&](int a, int b) { return rev ? v[a] > v[b] : v[a] < v[b]; });
    auto want = ref(r);
    if (n <= 600) {
        auto w = slow(r);
        if (w.lo > want.hi || w.hi < want.lo) pbt::fail("the references of %s disagree: %lld, %lld", name, (long long)w.lo, (long long)want.lo);
    }
    src.nontrivial_if(!std::is_sorted(r.begin(), r.end()));
    auto w = v;
    auto cmp = [&](int a, int b) { return rev ? b < a : a < b; };
    // exc follows the cycles by walking from the first element: quadratic on lists, as documented
    auto how = src.below(4);
    if (how < 2 && n > 6000 && !std::strcmp(name, "exc")) how += 2;
    switch (how) {
        case 0: { std::forward_list<int> f(v.begin(), v.end()); expect(name, "forward_list, bulk", want, p(f, cmp)); same(name, "bulk", f, w); break; }
        case 1: { std::list<int> l(v.begin(), v.end()); expect(name, "list, bulk", want, p(l.begin(), l.end(), cmp)); same(name, "bulk", l, w); break; }
        case 2: expect(name, "bulk", want, rev ? p(v, std::greater<>{}) : p(v)); same(name, "bulk", v, w); break;
        case 3: expect(name, "ranks, bulk", want, p(r.begin(), r.end())); break;
    }
}

// all sequences of n values among n, n = 0, 1, 2, ...
void t_all_sequences(Src& src, u64 total)
{
    u64 i = src.index(total), count = 1;
    std::size_t n = 0;
    for (;; ++n) {
        count = 1;
        for (std::size_t k = 0; k < n; ++k) count *= n;
        if (i < count) break;
        i -= count;
    }
    pr::R r(n);
    for (auto& x: r) { x = (int)(i % n); i /= n; }
    src.note_seq("v", r);
    src.nontrivial_if(!std::is_sorted(r.begin(), r.end()));
    check_all(r);
}

void register_tests()
{
    int k = 0;
#define X(N) if (NPARTS == 1 || (++k % NPARTS) == PART) { \
        pbt::add_test(#N, 3000, 30000, [](Src& s) { t_probe(s, #N, cs::probe::N, pr::N); }); \
        pbt::add_test(#N "/bad_alloc", 600, 3000, [](Src& s) { t_bad_alloc(s, #N, cs::probe::N, pr::N); }); \
        pbt::add_test(#N "/bulk", 120, 2000, [](Src& s) { t_bulk(s, #N, cs::probe::N, pr::fast::N, pr::N); }); }
    PROBES(X)
#undef X
    if (PART == 0) {
        pbt::add_test("par", 1500, 10000, [](Src& s) { t_probe(s, "par", cs::probe::par, pr::dis); });
        pbt::add_test("dis, no memory", 1500, 10000, [](Src& s) { t_no_memory(s, "dis", cs::probe::dis, pr::dis); });
        pbt::add_test("osc, no memory", 1500, 10000, [](Src& s) { t_no_memory(s, "osc", cs::probe::osc, pr::osc); });
    }
    if (PART == NPARTS - 1) {
        // up to 6 elements; thorough: 7
        pbt::add_test("all sequences", 50070, 873613, [](Src& s) { t_all_sequences(s, pbt::g_thorough ? 873613 : 50070); });
    }
}
