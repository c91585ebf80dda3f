// C12: counting_sorter against std::sort, for every integer type, any offset and span of values,
// both directions and every category of iterators.
#include "alloc.h"
#include "gen.h"
#include "typed.h"
#include <cpp-sort/sorters/counting_sorter.h>
#include <deque>
#include <forward_list>
#include <functional>
#include <list>
#include <vector>

namespace cs = cppsort;
using namespace ty;
using U = __uint128_t;
#ifdef __cpp_lib_ranges
constexpr int DIRS = 4;     // less, greater, ranges::greater, ranges::less
#else
constexpr int DIRS = 2;
#endif

template<typename T>
std::vector<T> values(Src& src, int& dir, int& form, bool& huge)
{
    constexpr unsigned bits = sizeof(T) * 8;
    constexpr bool neg = T(-1) < T(0);
    const U minv = neg ? U(0) - (U(1) << (bits - 1)) : U(0);
    const U count_m1 = bits == 128 ? ~U(0) : (U(1) << bits) - 1;     // number of values of the type, minus one
    dir = (int)src.below(DIRS); form = (int)src.below(7);
    std::vector<T> all;
    huge = src.below(12) == 11;
    if (huge) {     // spans which no array of counters covers: only already sorted ranges can be sorted
        Shape s = shape(src);
        static const u64 modes[] = {2, 3, 7};
        s.mode = src.pick(modes);
        auto keys = gen::keys_n(src, 0, 40);
        for (auto k: keys) all.push_back(Make<T>::of(s, k));
        if (src.chance(1, 2)) std::sort(all.begin(), all.end());
        src.note("shape %llu %llu ", (unsigned long long)s.mode, (unsigned long long)s.seed);
    } else {
        static const u64 spans[] = {1, 2, 3, 10, 100, 255, 256, 257, 1000, 65535, 65536, 65537, 100000, 262144};
        U span = src.below(3) == 2 ? 1 + src.below(300000) : src.pick(spans);
        if (span - 1 > count_m1) span = count_m1 + 1;
        U room = count_m1 - (span - 1);    // highest offset of the base
        U off;
        switch (src.below(6)) {
            case 0: off = 0; break;
            case 1: off = room; break;
            case 2: off = (U)0 - minv; off = off > room ? room : off; break;                           // starts at 0
            case 3: off = (U)0 - minv - span / 2; off = off > room ? room / 2 : off; break;            // around 0
            case 4: off = room - (room < 3 ? 0 : src.below(4)); break;
            default: off = room == 0 ? 0 : (((U)gen::Rng(src.below(1 << 16)).next() << 64) | gen::Rng(src.below(1 << 16)).next()) % room; break;
        }
        auto keys = gen::keys(src, pbt::g_thorough ? 6000 : 1500);
        int how = (int)src.below(3);
        u64 salt = src.below(1 << 12);
        bool ends = src.chance(1, 2);
        for (std::size_t i = 0; i < keys.size(); ++i) {
            U x = how == 0 ? (U)(u64)keys[i] : how == 1 ? (U)pbt::mix(salt, (u64)keys[i]) : U(0) - (U)(__int128_t)keys[i];
            x %= span;
            if (ends && pbt::mix(salt + 1, i) % 8 == 0) x = pbt::mix(salt + 2, i) & 1 ? span - 1 : 0;
            all.push_back(static_cast<T>(minv + off + x));
        }
        src.note("offset %016llx%016llx span %llu how %d ends %d ", (unsigned long long)(off >> 64), (unsigned long long)off, (unsigned long long)span, how, (int)ends);
    }
    src.note("direction %d form %d ", dir, form);
    src.note("values[%zu]={", all.size());
    for (std::size_t i = 0; i < all.size() && i < 200; ++i) src.note("%s,", show(all[i]).c_str());
    src.note("} ");
    return all;
}

template<typename T, typename Coll>
void run(const std::vector<T>& all, int dir, bool huge, const char* what, bool iterators)
{
    Coll c(all.begin(), all.end());
    bool oom = false;
    al::arm(al::above_size, 1u << 26);
    i64 blocks = al::live_blocks;
    try {
#ifdef __cpp_lib_ranges
        if (dir == 2) {
            if (iterators) cs::counting_sorter{}(c.begin(), c.end(), std::ranges::greater{});
            else cs::counting_sort(c, std::ranges::greater{});
        } else
        if (dir == 3) {
            if (iterators) cs::counting_sorter{}(c.begin(), c.end(), std::ranges::less{});
            else cs::counting_sort(c, std::ranges::less{});
        } else
#endif
        if (iterators) { if (dir) cs::counting_sorter{}(c.begin(), c.end(), std::greater<>{}); else cs::counting_sorter{}(c.begin(), c.end()); }
        else if (dir) cs::counting_sort(c, std::greater<>{});
        else cs::counting_sort(c);
    } catch (const std::bad_alloc&) { oom = true; }
    al::disarm();
    PBT_CHECK(al::live_blocks == blocks, "%s: memory leak", what);
    PBT_CHECK(!oom || huge, "%s: std::bad_alloc for a small range of values", what);
    auto w = all;
    if (!oom) { if (dir == 1 || dir == 2) std::sort(w.begin(), w.end(), std::greater<>{}); else std::sort(w.begin(), w.end()); }
    std::size_t i = 0;
    for (auto x: c) {
        PBT_CHECK(i < w.size() && x == w[i], "%s: %s at %zu of %zu instead of %s%s", what, show((T)x).c_str(), i, w.size(), show(w[i]).c_str(), oom ? " after std::bad_alloc" : "");
        ++i;
    }
    PBT_CHECK(i == w.size(), "%s: size changed", what);
}

template<typename T>
void t_counting(Src& src, const char* name)
{
    int dir, form;
    bool huge;
    auto all = values<T>(src, dir, form, huge);
    bool sorted = true;
    for (std::size_t i = 1; i < all.size(); ++i) if (dir == 1 || dir == 2 ? all[i - 1] < all[i] : all[i] < all[i - 1]) sorted = false;
    src.nontrivial_if(!sorted);
    src.classify(huge ? "huge span" : dir == 1 || dir == 2 ? "descending" : "ascending");
    switch (form) {
        case 0: run<T, std::deque<T>>(all, dir, huge, name, false); break;
        case 1: run<T, std::list<T>>(all, dir, huge, name, false); break;
        case 2: run<T, std::forward_list<T>>(all, dir, huge, name, false); break;
        case 3: run<T, std::deque<T>>(all, dir, huge, name, true); break;
        case 4: run<T, std::forward_list<T>>(all, dir, huge, name, true); break;
        default:
            if constexpr (!std::is_same<T, bool>::value) { run<T, std::vector<T>>(all, dir, huge, name, form == 5); break; }
            else run<T, std::deque<T>>(all, dir, huge, name, false);
    }
}

template<int I, typename T>
void add(const char* name)
{
    if constexpr (I % NPARTS == PART) pbt::add_test(name, 4000, 60000, [=](Src& s) { t_counting<T>(s, name); });
}

void register_tests()
{
    enum { base = __COUNTER__ };
#define T(...) add<__COUNTER__ - base - 1, __VA_ARGS__>(#__VA_ARGS__);
    T(bool) T(char) T(signed char) T(unsigned char) T(short) T(unsigned short) T(int) T(unsigned) T(long) T(unsigned long)
    T(long long) T(unsigned long long) T(__int128_t) T(__uint128_t) T(char16_t) T(char32_t) T(wchar_t)
#undef T
}
