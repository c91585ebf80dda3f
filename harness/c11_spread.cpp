// C11: the spread sorters against comparison sorting, for all the key types they support.
#include "sorters.h"
#include "typed.h"

namespace cs = cppsort;
using namespace ty;

static std::deque<std::string> pool;  // storage of the string views of a case
template<> struct ty::Make<std::string_view>
{
    static std::string_view of(const Shape& s, i64 k) { pool.push_back(make_string<std::string>(s, k)); return pool.back(); }
};
template<> std::string ty::show(const std::string_view& p) { return show(std::string(p)); }

#ifdef __cpp_lib_ranges
constexpr int WAYS = 3;
#else
constexpr int WAYS = 2;
#endif
template<typename K> struct Rec { K key; int id; };

template<typename It, typename K, typename Key>
void check(It first, It last, const std::vector<K>& all, Key key, bool desc, const char* what)
{
    std::vector<char> seen(all.size(), 0);
    std::size_t n = 0;
    for (It it = first; it != last; ++it, ++n) {
        int id = it->id;
        PBT_CHECK(id >= 0 && id < (int)all.size() && !seen[id], "%s: element lost or duplicated", what);
        seen[id] = 1;
        PBT_CHECK(key(*it) == all[id], "%s: element %d changed", what, id);
        if (it != first) {
            It p = it; --p;
            bool bad = desc ? key(*p) < key(*it) : key(*it) < key(*p);
            PBT_CHECK(!bad, "%s: not sorted at %zu of %zu: %s then %s", what, n, all.size(), show(key(*p)).substr(0, 200).c_str(), show(key(*it)).substr(0, 200).c_str());
        }
    }
    PBT_CHECK(n == all.size(), "%s: size changed", what);
}

template<typename Own, typename K, bool Desc>
void t_keys(Src& src, const char* name)
{
    int form = (int)src.below(4), sorter = (int)src.below(2), way = Desc ? (int)src.below(WAYS) : 0;
    src.note("%s form %d sorter %d descending %d ", name, form, sorter, way);
    pool.clear();
    Shape s = shape(src);
    std::size_t hi = pbt::g_thorough ? 20000 : 5000;
    // below 1000 elements everything is left to a comparison sort
    auto keys = src.below(8) ? gen::keys_n(src, 1000, hi) : gen::keys(src, hi);
    std::vector<K> all;
    for (auto k: keys) all.push_back(Make<K>::of(s, k));
    src.note("shape %llu %llu %llu %llu ", (unsigned long long)s.mode, (unsigned long long)s.a, (unsigned long long)s.b, (unsigned long long)s.seed);
    src.note_seq("keys", keys);
    bool sorted = true;
    for (std::size_t i = 1; i < all.size(); ++i) if (all[i] < all[i - 1]) sorted = false;
    src.nontrivial_if(!sorted && all.size() >= 1000);
    src.classify(all.size() < 1000 ? "n<1000: comparison fallback" : way ? "descending" : "ascending");

    auto key = [](const Rec<K>& r) -> const K& { return r.key; };
    auto call = [&](auto first, auto last, auto proj) {
#ifdef __cpp_lib_ranges
        if constexpr (Desc) if (way == 2) {
            if (sorter) cs::spread_sorter{}(first, last, std::ranges::greater{}, proj); else Own{}(first, last, std::ranges::greater{}, proj);
            return;
        }
#endif
        if constexpr (Desc) if (way) {
            if (sorter) cs::spread_sorter{}(first, last, std::greater<>{}, proj); else Own{}(first, last, std::greater<>{}, proj);
            return;
        }
        if (sorter) cs::spread_sorter{}(first, last, proj); else Own{}(first, last, proj);
    };
    if (form == 0) {
        auto v = all;
        if constexpr (Desc) {
#ifdef __cpp_lib_ranges
            if (way == 2) { if (sorter) cs::spread_sort(v, std::ranges::greater{}); else Own{}(v, std::ranges::greater{}); }
            else
#endif
            if (way) { if (sorter) cs::spread_sort(v, std::greater<>{}); else Own{}(v, std::greater<>{}); }
        }
        if (!way) { if (sorter) cs::spread_sort(v); else Own{}(v); }
        auto w = all;
        if (way) std::sort(w.begin(), w.end(), std::greater<>{}); else std::sort(w.begin(), w.end());
        for (std::size_t i = 0; i < v.size(); ++i)
            PBT_CHECK(v[i] == w[i], "%s: not sorted or values changed at %zu of %zu: %s instead of %s", name, i, v.size(), show(K(v[i])).substr(0, 200).c_str(), show(K(w[i])).substr(0, 200).c_str());
    } else if (form == 1) {
        std::deque<Rec<K>> v;
        for (std::size_t i = 0; i < all.size(); ++i) v.push_back({all[i], (int)i});
        call(v.rbegin(), v.rend(), &Rec<K>::key);
        check(v.rbegin(), v.rend(), all, key, way, name);
    } else if (form == 2) {
        std::vector<Rec<K>> v;
        for (std::size_t i = 0; i < all.size(); ++i) v.push_back({all[i], (int)i});
        call(v.begin(), v.end(), [](const Rec<K>& r) { return r.key; });
        check(v.begin(), v.end(), all, key, way, name);
    } else {    // a projection which keeps or reverses the order, on keys behind move-only elements
        using E = std::unique_ptr<Rec<K>>;
        std::vector<E> v;
        for (std::size_t i = 0; i < all.size(); ++i) v.push_back(E(new Rec<K>{all[i], (int)i}));
        call(v.data(), v.data() + v.size(), [](const E& r) -> const K& { return r->key; });
        std::vector<Rec<K>> w;
        for (auto& e: v) { PBT_CHECK(e != nullptr, "%s: element lost", name); w.push_back(*e); }
        check(w.begin(), w.end(), all, key, way, name);
    }
}

// long sequences: many bins, deep recursion, counts beyond 16 bits
template<typename Own, typename K, bool Desc>
void t_bulk(Src& src, const char* name)
{
    pool.clear();
    Shape s = shape(src);
    constexpr bool text = !std::is_arithmetic<K>::value;
    auto keys = gen::bulk(src, 20000, (pbt::g_thorough ? 1500000 : 400000) / (text ? 8 : 1));
    src.note("%s shape %llu %llu %llu %llu ", name, (unsigned long long)s.mode, (unsigned long long)s.a, (unsigned long long)s.b, (unsigned long long)s.seed);
    std::vector<K> v;
    for (auto k: keys) v.push_back(Make<K>::of(s, k));
    src.nontrivial_if(!std::is_sorted(v.begin(), v.end()));
    auto w = v;
    if (Desc && src.below(2)) {
        if constexpr (Desc) Own{}(v, std::greater<>{});
        std::sort(w.begin(), w.end(), std::greater<>{});
    } else {
        Own{}(v);
        std::sort(w.begin(), w.end());
    }
    for (std::size_t i = 0; i < v.size(); ++i)
        PBT_CHECK(v[i] == w[i], "%s: not sorted or values changed at %zu of %zu: %s instead of %s", name, i, v.size(), show(K(v[i])).substr(0, 200).c_str(), show(K(w[i])).substr(0, 200).c_str());
}

template<int I, typename Own, typename K, bool Desc = false>
void add(const char* name)
{
    if constexpr (I % NPARTS == PART) {
        pbt::add_test(name, 1500, 8000, [=](Src& s) { t_keys<Own, K, Desc>(s, name); });
        pbt::add_test(std::string(name) + "/bulk", 12, 400, [=](Src& s) { t_bulk<Own, K, Desc>(s, name); });
    }
}

void register_tests()
{
    enum { base = __COUNTER__ };
#define T(...) add<__COUNTER__ - base - 1, __VA_ARGS__>(#__VA_ARGS__);
    using I = cs::integer_spread_sorter; using F = cs::float_spread_sorter; using S = cs::string_spread_sorter;
    T(S, std::string, true) T(S, std::string_view, true)
#ifndef STRINGS
    T(F, float) T(F, double)
    T(I, char) T(I, signed char) T(I, unsigned char) T(I, short) T(I, unsigned short) T(I, int) T(I, unsigned) T(I, long) T(I, unsigned long)
    T(I, long long) T(I, unsigned long long) T(I, char16_t) T(I, char32_t) T(I, wchar_t)
#endif
#undef T
}
