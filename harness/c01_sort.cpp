// C01: every comparison sorter turns any range into a sorted permutation of itself, for any
// strict weak order and projection.
#include "types.h"
#include "sorters.h"
#include <deque>
#include <forward_list>
#include <list>
#include <string>

using pbt::Src;
using td::Elem;

static std::size_t max_n(bool quad, bool big = true)
{
    if (quad) return pbt::g_thorough ? 1200 : 360;
    return pbt::g_thorough ? 20000 : (big ? 5000 : 1500);
}

// Sorted permutation oracle over (key, id) views
template<typename It, typename Key, typename Id, typename Less>
void verify(It first, It last, const std::vector<int>& keys, Key key, Id id, Less less, const char* what)
{
    std::vector<char> seen(keys.size(), 0);
    std::size_t pos = 0;
    bool have_prev = false;
    int prev = 0;
    for (It it = first; it != last; ++it, ++pos) {
        int i = id(*it), k = key(*it);
        PBT_CHECK(pos < keys.size(), "%s: more elements than before", what);
        PBT_CHECK(i >= 0 && (std::size_t)i < keys.size() && !seen[i] && keys[i] == k,
                  "%s: the result is not a permutation of the input (position %zu holds key %d id %d)", what, pos, k, i);
        seen[i] = 1;
        if (have_prev) PBT_CHECK(!less(k, prev), "%s: not sorted at position %zu (%d before %d)", what, pos, prev, k);
        prev = k; have_prev = true;
    }
    PBT_CHECK(pos == keys.size(), "%s: %zu elements instead of %zu", what, pos, keys.size());
}

struct Plain
{
    int key, id;
    int get() const { return key; }
};
struct PlainProj
{
    int mode = 0;
    template<typename T> int operator()(const T& e) const { td::on_call(); return gen::proj_apply(mode, e.get()); }
};

template<typename T>
void classify_n(Src& src, const T& v)
{
    std::size_t n = v.size();
    src.classify(n < 2 ? "n<2" : n < 16 ? "n<16" : n < 64 ? "n<64" : n < 256 ? "n<256" : n < 1024 ? "n<1024" : "n>=1024");
    bool nt = n >= 2 && !std::is_sorted(v.begin(), v.end());
    src.nontrivial_if(nt);
}

template<typename S, typename Cat, typename T>
void t_records(Src& src, const char* name, bool quad)
{
    td::reset_counters();
    td::Cmp cmp{gen::order(src)};
    PlainProj proj{(int)src.below(gen::n_projs)};
    int where = (int)src.below(3);     // pointers, deque, container of the weakest category
    auto keys = td::to_int(gen::keys(src, max_n(quad, where == 0)));
    std::size_t n = keys.size();
    classify_n(src, keys);
    src.note("%s order=%d/%d proj=%d where=%d ", name, cmp.order.mode, cmp.order.param, proj.mode, where);
    src.note_seq("keys", keys);
    td::call_limit = 100000 + 60ull * n * n;
    auto ord = cmp.order;
    auto less = [&](int a, int b) { return ord(gen::proj_apply(proj.mode, a), gen::proj_apply(proj.mode, b)); };
    auto key = [](const T& e) { return e.key; };
    auto id = [](const T& e) { return e.id; };
    S sorter{};
    if (where == 0) {
        std::vector<T> v; v.reserve(n);
        for (std::size_t i = 0; i < n; ++i) v.push_back(T{keys[i], (int)i});
        sorter(v.begin(), v.end(), cmp, proj);
        verify(v.begin(), v.end(), keys, key, id, less, name);
    } else if (where == 1) {
        std::deque<T> v;
        for (std::size_t i = 0; i < n; ++i) v.push_back(T{keys[i], (int)i});
        sorter(v, cmp, proj);
        verify(v.begin(), v.end(), keys, key, id, less, name);
    } else if constexpr (std::is_same<Cat, fwd_tag>::value) {
        std::forward_list<T> v;
        for (std::size_t i = n; i-- > 0;) v.push_front(T{keys[i], (int)i});
        sorter(v.begin(), v.end(), cmp, proj);
        verify(v.begin(), v.end(), keys, key, id, less, name);
    } else if constexpr (std::is_same<Cat, bi_tag>::value) {
        std::list<T> v;
        for (std::size_t i = 0; i < n; ++i) v.push_back(T{keys[i], (int)i});
        sorter(v.begin(), v.end(), cmp, proj);
        verify(v.begin(), v.end(), keys, key, id, less, name);
    } else {
        // a C array-like subrange: neighbours must not be touched
        std::vector<T> v; v.reserve(n + 2);
        v.push_back(T{1 << 30, -1});
        for (std::size_t i = 0; i < n; ++i) v.push_back(T{keys[i], (int)i});
        v.push_back(T{-(1 << 30), -2});
        sorter(v.data() + 1, v.data() + 1 + n, cmp, proj);
        verify(v.data() + 1, v.data() + 1 + n, keys, key, id, less, name);
        PBT_CHECK(v[0].id == -1 && v[0].key == 1 << 30 && v[n + 1].id == -2 && v[n + 1].key == -(1 << 30),
                  "%s: a neighbour of the sorted range was modified", name);
    }
}

// Scalars and strings with the default comparators (the branchless code paths)
template<typename S>
void t_scalars(Src& src, const char* name, bool quad)
{
#ifdef __cpp_lib_ranges
    int kind = (int)src.below(16);
#else
    int kind = (int)src.below(12);
#endif
    auto keys = gen::keys(src, max_n(quad));
    classify_n(src, keys);
    src.note("%s kind=%d ", name, kind);
    src.note_seq("keys", keys);
    S sorter{};
    auto go = [&](auto v, auto cmp, auto call) {
        auto expected = v;
        std::stable_sort(expected.begin(), expected.end(), cmp);
        call(v);
        PBT_CHECK(v.size() == expected.size(), "%s: size changed", name);
        for (std::size_t i = 0; i < v.size(); ++i)
            PBT_CHECK(v[i] == expected[i], "%s: kind %d: wrong element at position %zu of %zu", name, kind, i, v.size());
    };
    switch (kind) {
        case 0: case 1: {
            std::vector<int> v(keys.begin(), keys.end());
            go(v, std::less<>{}, [&](auto& c) { sorter(c); });
            break;
        }
        case 2: {
            std::vector<int> v(keys.begin(), keys.end());
            go(v, std::greater<>{}, [&](auto& c) { sorter(c, std::greater<>{}); });
            break;
        }
        case 3: {
            std::vector<double> v(keys.begin(), keys.end());
            for (auto& x: v) x /= 8;
            go(v, std::less<>{}, [&](auto& c) { sorter(c.begin(), c.end()); });
            break;
        }
        case 4: {
            std::vector<short> v(keys.begin(), keys.end());
            go(v, std::less<>{}, [&](auto& c) { sorter(c.begin(), c.end(), std::less<short>{}); });
            break;
        }
        case 5: {
            std::vector<std::string> v;
            if (keys.size() > 1200) keys.resize(1200);
            for (auto k: keys) v.push_back((k % 3 ? "a_rather_long_prefix_to_defeat_the_small_string_optimization" : "x") + std::to_string(k));
            go(v, std::less<>{}, [&](auto& c) { sorter(c); });
            break;
        }
        case 6: {
            std::vector<unsigned long long> v(keys.begin(), keys.end());
            go(v, std::greater<unsigned long long>{}, [&](auto& c) { sorter(c.begin(), c.end(), std::greater<unsigned long long>{}); });
            break;
        }
        case 7: {
            // identity projection spelled out, function pointer comparison
            std::vector<int> v(keys.begin(), keys.end());
            bool (*fp)(int, int) = [](int a, int b) { return a > b; };
            go(v, std::greater<>{}, [&](auto& c) { sorter(c, fp, [](int x) { return x; }); });
            break;
        }
        case 8: {
            // strings from the greatest to the smallest, embedded null characters and bytes above 127
            std::vector<std::string> v;
            if (keys.size() > 1200) keys.resize(1200);
            for (auto k: keys) v.push_back(std::string(k % 3 ? "pre" : "") + char(k % 5 * 60) + (k % 7 ? std::to_string(k) : std::string()));
            go(v, std::greater<>{}, [&](auto& c) { sorter(c, std::greater<>{}); });
            break;
        }
        case 9: {
            std::vector<std::u16string> v;
            if (keys.size() > 1200) keys.resize(1200);
            for (auto k: keys) v.push_back(std::u16string(k & 3, u'a') + char16_t((k & 3) * 20000 + (k & 15)));
            if (keys.size() % 2) go(v, std::less<>{}, [&](auto& c) { sorter(c.begin(), c.end()); });
            else go(v, std::greater<std::u16string>{}, [&](auto& c) { sorter(c, std::greater<std::u16string>{}); });
            break;
        }
        case 10: {
            std::vector<std::pair<unsigned char, float>> v;
            for (auto k: keys) v.emplace_back((unsigned char)(k / 4), (float)(k % 4));
            go(v, std::less<>{}, [&](auto& c) { sorter(c); });
            break;
        }
        case 11: {
            std::vector<float> v(keys.begin(), keys.end());
            for (auto& x: v) x = x / 3 - 7;
            go(v, std::greater<float>{}, [&](auto& c) { sorter(c.begin(), c.end(), std::greater<float>{}, cppsort::utility::identity{}); });
            break;
        }
#ifdef __cpp_lib_ranges
        case 12: {
            std::vector<int> v(keys.begin(), keys.end());
            go(v, std::less<>{}, [&](auto& c) { sorter(c, std::ranges::less{}); });
            break;
        }
        case 13: {
            std::vector<int> v(keys.begin(), keys.end());
            go(v, std::greater<>{}, [&](auto& c) { sorter(c.begin(), c.end(), std::ranges::greater{}, std::identity{}); });
            break;
        }
        case 14: {
            std::vector<std::string> v;
            if (keys.size() > 1200) keys.resize(1200);
            for (auto k: keys) v.push_back(std::to_string(k % 97) + "a_rather_long_suffix_after_the_digits");
            if (keys.size() % 2) go(v, std::less<>{}, [&](auto& c) { sorter(c, std::ranges::less{}); });
            else go(v, std::greater<>{}, [&](auto& c) { sorter(c, std::ranges::greater{}); });
            break;
        }
        case 15: {
            std::vector<double> v(keys.begin(), keys.end());
            if (keys.size() % 2) go(v, std::less<>{}, [&](auto& c) { sorter(c.begin(), c.end(), std::ranges::less{}, std::identity{}); });
            else go(v, std::greater<>{}, [&](auto& c) { sorter(c, std::ranges::greater{}); });
            break;
        }
#endif
    }
}

// Long sequences: overflowing counters, buffers and stacks of the algorithms
template<typename S, bool Stable>
void t_bulk(Src& src, const char* name, bool quad, bool huge = false)
{
    bool slow = quad;
    auto keys = huge ? gen::bulk(src, 300000, pbt::g_thorough ? 4000000 : 1100000) : gen::bulk(src, slow ? 1000 : 8000, slow ? 3000 : pbt::g_thorough ? 600000 : 160000);
    src.nontrivial_if(!std::is_sorted(keys.begin(), keys.end()));
    int form = (int)src.below(3);
    src.note("%s form=%d ", name, form);
    auto expected = keys;
    S sorter{};
    if (form == 0) {
        std::sort(expected.begin(), expected.end());
        sorter(keys);
        PBT_CHECK(keys == expected, "%s: not the sorted permutation of %zu integers", name, keys.size());
    } else if (form == 1) {
        std::sort(expected.begin(), expected.end(), std::greater<>{});
        sorter(keys.begin(), keys.end(), std::greater<>{});
        PBT_CHECK(keys == expected, "%s: not the descending permutation of %zu integers", name, keys.size());
    } else {
        std::vector<Plain> v;
        for (std::size_t i = 0; i < keys.size(); ++i) v.push_back(Plain{keys[i], (int)i});
        sorter(v, [](int a, int b) { return a < b; }, &Plain::key);
        std::vector<char> seen(v.size(), 0);
        for (std::size_t i = 0; i < v.size(); ++i) {
            PBT_CHECK(!seen[v[i].id] && keys[v[i].id] == v[i].key, "%s: not a permutation", name);
            seen[v[i].id] = 1;
            if (i) PBT_CHECK(v[i - 1].key <= v[i].key, "%s: not sorted at position %zu of %zu", name, i, v.size());
            if (i && Stable) PBT_CHECK(v[i - 1].key < v[i].key || v[i - 1].id < v[i].id, "%s: equivalent elements reordered at position %zu of %zu", name, i, v.size());
        }
    }
}

static int g_index = 0;
template<typename S, typename Cat, bool Quad>
void reg(const char* name, u_int64_t q)
{
    pbt::add_test(std::string(name) + "/move_only", q, q * 25, [name](Src& s) { t_records<S, Cat, Elem>(s, name, Quad); });
    pbt::add_test(std::string(name) + "/scalars", q * 2, q * 50, [name](Src& s) { t_scalars<S>(s, name, Quad); });
}
template<typename S, typename Cat, bool Quad>
void regp(const char* name, u_int64_t q)
{
    pbt::add_test(std::string(name) + "/plain", q, q * 25, [name](Src& s) { t_records<S, Cat, Plain>(s, name, Quad); });
    pbt::add_test(std::string(name) + "/scalars", q, q * 25, [name](Src& s) { t_scalars<S>(s, name, Quad); });
}
template<int I, typename S, typename Cat, bool Stable, bool Quad>
void maybe(const char* name)
{
    if constexpr (I % NPARTS == PART) reg<S, Cat, Quad>(name, 4000);
}
template<int I, typename S, typename Cat, bool Stable, bool Quad>
void maybe_p(const char* name)
{
    if constexpr (I % NPARTS == PART) regp<S, Cat, Quad>(name, 4000);
}

#ifdef SCALARS
template<int I, typename S, typename Cat, bool Stable, bool Quad>
void maybe_s(const char* name)
{
    if constexpr (I % NPARTS == PART) {
        pbt::add_test(std::string(name) + "/scalars", 4000, 120000, [name](Src& s) { t_scalars<S>(s, name, Quad); });
        pbt::add_test(std::string(name) + "/bulk", 30, 1000, [name](Src& s) { t_bulk<S, Stable>(s, name, Quad || std::is_same<S, cppsort::merge_insertion_sorter>::value); });   // too slow
        if (!Quad && !std::is_same<S, cppsort::merge_insertion_sorter>::value)
            pbt::add_test(std::string(name) + "/huge", 4, 80, [name](Src& s) { t_bulk<S, Stable>(s, name, false, true); });
    }
}
#define maybe maybe_s
#define maybe_p maybe_s
#endif

void register_tests()
{
    enum { base = __COUNTER__ };
#define X(NAME, TYPE, CAT, STABLE, QUAD) maybe<__COUNTER__ - base - 1, TYPE, CAT, STABLE, QUAD>(NAME);
    COMPARISON_SORTERS(X)
#undef X
#define X(NAME, TYPE, CAT, STABLE, QUAD) maybe_p<__COUNTER__ - base - 1, TYPE, CAT, STABLE, QUAD>(NAME);
    BUFFERED_SORTERS(X)
#undef X
}
