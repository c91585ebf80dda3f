// C20: total, weak and partial orders over all values of the supported types.
#include "gen.h"
#include "pbt.h"
#include <cmath>
#include <cpp-sort/comparators/partial_greater.h>
#include <cpp-sort/comparators/partial_less.h>
#include <cpp-sort/comparators/total_greater.h>
#include <cpp-sort/comparators/total_less.h>
#include <cpp-sort/comparators/weak_greater.h>
#include <cpp-sort/comparators/weak_less.h>
#include <cpp-sort/sorters/insertion_sorter.h>
#include <cpp-sort/sorters/merge_sorter.h>
#include <cpp-sort/sorters/pdq_sorter.h>
#include <cpp-sort/sorters/heap_sorter.h>
#include <cstring>
#include <limits>

namespace cs = cppsort;
using pbt::Src; using pbt::i64; using pbt::u64;
using I = __int128_t;

// Position of a value in the order of IEEE 754 (all NaNs of a sign together), from its bits
template<typename T, typename = void> struct Model;
template<typename T>
struct Model<T, std::enable_if_t<cs::detail::is_integral<T>::value>>
{
    static constexpr bool floating = false;
    static bool less(T a, T b, bool) { return a < b; }
    static bool nan(T) { return false; }
    static T of(Src& src, const T* prev)
    {
        constexpr unsigned bits = sizeof(T) * 8;
        __uint128_t x;
        switch (src.below(5)) {
            case 0: x = src.below(4); break;
            case 1: x = 0 - (__uint128_t)src.below(4); break;
            case 2: x = ((__uint128_t)1 << (bits - 1)) - 2 + src.below(4); break;
            case 3: x = prev ? (__uint128_t)*prev - 1 + src.below(3) : 0; break;
            default: x = (__uint128_t)src.bits() << 64; x |= src.bits(); break;
        }
        return std::is_same<T, bool>::value ? (T)(x & 1) : (T)x;
    }
    static std::string show(T v) { __uint128_t x = (__uint128_t)v; char b[40]; std::snprintf(b, sizeof b, "0x%llx%016llx", (unsigned long long)(x >> 64), (unsigned long long)x); return b; }
};
template<typename T>
struct Model<T, std::enable_if_t<std::is_floating_point<T>::value>>
{
    static constexpr bool floating = true;
    static constexpr int mant = std::numeric_limits<T>::digits - 1 + (sizeof(T) > 8);    // explicit bits; the extended format has an explicit integer bit
    static constexpr int total = sizeof(T) > 8 ? 80 : (int)sizeof(T) * 8;
    using U = __uint128_t;
    static U raw(T v) { U x = 0; std::memcpy(&x, &v, total / 8); return x; }
    static T make(U x) { T v = 0; std::memcpy(&v, &x, total / 8); return v; }
    static constexpr U sign = U(1) << (total - 1);
    static constexpr U exp_mask = (sign - 1) & ~((U(1) << mant) - 1);
    static constexpr U frac_mask = (U(1) << (mant - (sizeof(T) > 8))) - 1;
    static constexpr U int_bit = sizeof(T) > 8 ? U(1) << (mant - 1) : U(0);
    static bool nan(T v) { U x = raw(v); return (x & exp_mask) == exp_mask && (x & frac_mask) != 0; }
    static I key(T v, bool weak)
    {
        U x = raw(v);
        U mag = x & (sign - 1);
        if (nan(v)) mag = sign - 1;
        if (weak && mag == 0) return 0;
        return x & sign ? -(I)mag - 1 : (I)mag;
    }
    static bool less(T a, T b, bool weak) { return key(a, weak) < key(b, weak); }
    static T of(Src& src, const T* prev)
    {
        U s = src.below(2) ? sign : U(0), x;
        switch (src.below(8)) {
            case 0: x = src.below(3); break;                                                         // zero, smallest subnormals
            case 1: x = exp_mask | int_bit | s; return make(x);                                       // infinities
            case 2: x = exp_mask | int_bit | (1 + src.below(3)); break;                              // signaling NaNs
            case 3: x = exp_mask | int_bit | ((frac_mask + 1) >> 1) | src.below(3); break;          // quiet NaNs
            case 4: x = (exp_mask - (U(1) << mant)) | int_bit | (frac_mask - src.below(3)); break;   // greatest finite
            case 5: if (prev && !nan(*prev)) {                                                         // neighbour, same magnitude
                        U p = raw(*prev) & (sign - 1);
                        x = src.below(2) && (p & frac_mask) != 0 ? p - 1 : src.below(2) && (p & frac_mask) != frac_mask ? p + 1 : p;
                    } else x = (U(1) << mant) | int_bit;
                    break;
            case 6: return (T)(i64)(src.below(7)) - 3;
            default: {
                U e = src.bits(), f = src.bits();
                e = (e << mant) & exp_mask; f &= frac_mask;
                x = e | f | (e ? int_bit : U(0));
            }
        }
        return make(x | s);
    }
    static std::string show(T v)
    {
        U x = raw(v); char b[64];
        std::snprintf(b, sizeof b, "%Lg(0x%llx%016llx)", (long double)v, (unsigned long long)(x >> 64), (unsigned long long)x); return b;
    }
};

// the sort of value is passed by value through registers: signaling NaNs are preserved with SSE and
// in memory, x87 loads of float and double are not used
template<typename T>
struct Laws
{
    using M = Model<T>;
    static void bad(const char* what, T a, T b) { pbt::fail("%s for %s and %s", what, M::show(a).c_str(), M::show(b).c_str()); }
    static void pair(T a, T b)
    {
        bool t = cs::total_less(a, b), w = cs::weak_less(a, b), p = cs::partial_less(a, b);
        if (t != M::less(a, b, false)) bad("total_less differs from totalOrder", a, b);
        if (w != M::less(a, b, M::floating)) bad("weak_less differs from the weak order", a, b);
        if (p != (a < b)) bad("partial_less differs from operator<", a, b);
        if (cs::total_greater(a, b) != cs::total_less(b, a)) bad("total_greater(a, b) differs from total_less(b, a)", a, b);
        if (cs::weak_greater(a, b) != cs::weak_less(b, a)) bad("weak_greater(a, b) differs from weak_less(b, a)", a, b);
        if (cs::partial_greater(a, b) != cs::partial_less(b, a)) bad("partial_greater(a, b) differs from partial_less(b, a)", a, b);
        if (a < b && (!t || !w)) bad("total or weak order inconsistent with operator<", a, b);
        if (w && !t) bad("weak_less but not total_less", a, b);
        if (p && !w) bad("partial_less but not weak_less", a, b);
        // other value categories
        const T ca = a;
        if (cs::total_less(ca, T(b)) != t || cs::weak_less(T(a), b) != w || cs::partial_less(ca, b) != p) bad("result depends on the value category", a, b);
        if (cs::total_greater(ca, T(b)) != cs::total_greater(a, b) || cs::weak_greater(T(a), b) != cs::weak_greater(a, b)) bad("result depends on the value category", a, b);
    }
    template<typename F>
    static void swo(const char* name, F f, T a, T b, T c)
    {
        if (f(a, a)) bad((std::string(name) + " is not irreflexive").c_str(), a, a);
        if (f(a, b) && f(b, a)) bad((std::string(name) + " is not asymmetric").c_str(), a, b);
        if (f(a, b) && f(b, c) && !f(a, c)) pbt::fail("%s is not transitive for %s, %s and %s", name, M::show(a).c_str(), M::show(b).c_str(), M::show(c).c_str());
        if (!f(a, b) && !f(b, a) && !f(b, c) && !f(c, b) && (f(a, c) || f(c, a)))
            pbt::fail("equivalence by %s is not transitive for %s, %s and %s", name, M::show(a).c_str(), M::show(b).c_str(), M::show(c).c_str());
    }
    static void triple(Src& src)
    {
        T v[3];
        for (int i = 0; i < 3; ++i) { v[i] = M::of(src, i ? &v[i - 1] : nullptr); src.note("%s ", M::show(v[i]).c_str()); }
        src.nontrivial_if(std::memcmp(&v[0], &v[1], sizeof(T) > 8 && M::floating ? 10 : sizeof(T)) != 0);
        bool nan = M::nan(v[0]) || M::nan(v[1]) || M::nan(v[2]);
        src.classify(nan ? "NaN" : "no NaN");
        for (T a: v) for (T b: v) pair(a, b);
        for (T a: v) for (T b: v) for (T c: v) {
            swo("total_less", cs::total_less, a, b, c);
            swo("weak_less", cs::weak_less, a, b, c);
            swo("total_greater", cs::total_greater, a, b, c);
            swo("weak_greater", cs::weak_greater, a, b, c);
            if (!nan) { swo("partial_less", cs::partial_less, a, b, c); swo("partial_greater", cs::partial_greater, a, b, c); }
            else if (M::nan(a) && (cs::partial_less(a, b) || cs::partial_less(b, a) || cs::partial_greater(a, b) || cs::partial_greater(b, a)))
                bad("partial order of a NaN", a, b);
        }
    }
    // sorting any sequence gives the model's order
    template<typename S, typename F>
    static void sorted(const char* what, const S& sorter, F cmp, std::vector<T> v, bool weak, bool desc)
    {
        auto ref = v;
        std::stable_sort(ref.begin(), ref.end(), [&](T a, T b) { return desc ? M::less(b, a, weak) : M::less(a, b, weak); });
        sorter(v, cmp);
        for (std::size_t i = 0; i < v.size(); ++i)
            if (M::less(v[i], ref[i], weak) || M::less(ref[i], v[i], weak))
                pbt::fail("sorting with %s: %s at position %zu, expected %s", what, M::show(v[i]).c_str(), i, M::show(ref[i]).c_str());
        // same elements
        auto bits = [](const std::vector<T>& x) {
            std::vector<std::string> r;
            for (T e: x) r.emplace_back(reinterpret_cast<const char*>(&e), M::floating && sizeof(T) > 8 ? 10 : sizeof(T));
            std::sort(r.begin(), r.end());
            return r;
        };
        if (bits(v) != bits(ref)) pbt::fail("sorting with %s lost elements", what);
    }
    static void sort(Src& src)
    {
        std::size_t n = gen::pick_size(src, 0, 120);
        std::vector<T> v;
        for (std::size_t i = 0; i < n; ++i) { T prev{}; if (i) prev = v[i - 1]; v.push_back(M::of(src, i ? &prev : nullptr)); }
        src.note("values[%zu]={", n); for (std::size_t i = 0; i < n && i < 40; ++i) src.note("%s,", M::show(v[i]).c_str()); src.note("} ");
        src.nontrivial_if(n > 1);
        switch (src.below(4)) {
            case 0: sorted("pdq_sorter, total_less", cs::pdq_sorter{}, cs::total_less, v, false, false);
                    sorted("heap_sorter, total_greater", cs::heap_sorter{}, cs::total_greater, v, false, true); break;
            case 1: sorted("pdq_sorter, weak_less", cs::pdq_sorter{}, cs::weak_less, v, M::floating, false);
                    sorted("merge_sorter, weak_greater", cs::merge_sorter{}, cs::weak_greater, v, M::floating, true); break;
            case 2: sorted("pdq_sorter, total_greater", cs::pdq_sorter{}, cs::total_greater, v, false, true); 
                    sorted("insertion_sorter, weak_less", cs::insertion_sorter{}, cs::weak_less, v, M::floating, false); break;
            default: {
                v.erase(std::remove_if(v.begin(), v.end(), [](T x) { return M::nan(x); }), v.end());
                sorted("pdq_sorter, partial_less", cs::pdq_sorter{}, cs::partial_less, v, M::floating, false);
                sorted("pdq_sorter, partial_greater", cs::pdq_sorter{}, cs::partial_greater, v, M::floating, true);
            }
        }
    }
};

// all values of the narrow types, and all special values of the floating-point types
template<typename T>
void t_all_pairs(Src& src)
{
    constexpr u64 n = std::is_same<T, bool>::value ? 2 : 256;
    u64 i = src.index(n);
    src.note("value %llu ", (unsigned long long)i);
    src.nontrivial();
    for (u64 j = 0; j < n; ++j) Laws<T>::pair((T)i, (T)j);
}
template<typename T>
void t_specials(Src& src)
{
    using L = std::numeric_limits<T>;
    static const std::vector<T> all = [] {
        std::vector<T> r = {T(0), L::min(), L::max(), L::denorm_min(), L::infinity(), L::quiet_NaN(), L::signaling_NaN(), T(1), T(1) + L::epsilon(), T(2), L::min() / 2, T(0.1L), T(1e10L),
                            Model<T>::make(Model<T>::exp_mask | Model<T>::int_bit | 1), Model<T>::make(Model<T>::exp_mask | Model<T>::int_bit | Model<T>::frac_mask)};
        auto h = r.size();
        for (std::size_t k = 0; k < h; ++k) r.push_back(Model<T>::make(Model<T>::raw(r[k]) ^ Model<T>::sign));
        return r;
    }();
    u64 i = src.index(30 * 30);
    T a = all[i / 30], b = all[i % 30];
    src.note("%s %s ", Model<T>::show(a).c_str(), Model<T>::show(b).c_str());
    src.nontrivial();
    Laws<T>::pair(a, b);
    for (T c: all) {
        Laws<T>::swo("total_less", cs::total_less, a, b, c); Laws<T>::swo("weak_less", cs::weak_less, a, b, c);
        Laws<T>::swo("total_greater", cs::total_greater, a, b, c); Laws<T>::swo("weak_greater", cs::weak_greater, a, b, c);
    }
}

////////////////////////////////////////////////////////////
// Customisation through argument-dependent lookup, and the fallbacks

namespace usr
{
    struct T { int v; int calls[2]; };
    bool total_less(const T& a, const T& b) { return b.v < a.v; }        // reversed on purpose
    bool total_greater(const T& a, const T& b) { return a.v < b.v; }
    struct W { int v; };
    bool weak_less(const W& a, const W& b) { return a.v / 3 < b.v / 3; }
    bool weak_greater(const W& a, const W& b) { return a.v / 3 > b.v / 3; }
    struct P { int v; };
    bool partial_less(const P& a, const P& b) { return a.v % 5 != 0 && b.v % 5 != 0 && a.v < b.v; }
    bool partial_greater(const P& a, const P& b) { return a.v % 5 != 0 && b.v % 5 != 0 && a.v > b.v; }
    struct A { int v; };     // all of them
    bool total_less(const A& a, const A& b) { return a.v < b.v; }
    bool weak_less(const A& a, const A& b) { return a.v / 2 < b.v / 2; }
    bool partial_less(const A& a, const A& b) { return a.v / 4 < b.v / 4; }
    bool total_greater(const A& a, const A& b) { return a.v > b.v; }
    bool weak_greater(const A& a, const A& b) { return a.v / 2 > b.v / 2; }
    bool partial_greater(const A& a, const A& b) { return a.v / 4 > b.v / 4; }
    struct None { int v; bool operator<(const None& o) const { return v < o.v; } };
}
template<typename F, typename T, typename = void> struct callable: std::false_type {};
template<typename F, typename T> struct callable<F, T, decltype(void(std::declval<F>()(std::declval<T&>(), std::declval<T&>())))>: std::true_type {};

void t_custom(Src& src)
{
    int a = (int)src.below(50), b = (int)src.below(50);
    src.note("%d %d ", a, b);
    src.nontrivial_if(a != b);
    auto eq = [](const char* what, bool got, bool want) { if (got != want) pbt::fail("%s: %d", what, (int)got); };
    usr::T ta{a, {}}, tb{b, {}};
    eq("total_less of a user type", cs::total_less(ta, tb), b < a);
    eq("weak_less falls back to total_less", cs::weak_less(ta, tb), b < a);
    eq("partial_less falls back to total_less", cs::partial_less(ta, tb), b < a);
    eq("total_greater of a user type", cs::total_greater(ta, tb), a < b);
    eq("weak_greater falls back to total_greater", cs::weak_greater(ta, tb), a < b);
    eq("partial_greater falls back to total_greater", cs::partial_greater(ta, tb), a < b);
    usr::W wa{a}, wb{b};
    eq("weak_less of a user type", cs::weak_less(wa, wb), a / 3 < b / 3);
    eq("partial_less falls back to weak_less", cs::partial_less(wa, wb), a / 3 < b / 3);
    eq("weak_greater of a user type", cs::weak_greater(wa, wb), a / 3 > b / 3);
    eq("partial_greater falls back to weak_greater", cs::partial_greater(wa, wb), a / 3 > b / 3);
    usr::P pa{a}, pb{b};
    eq("partial_less of a user type", cs::partial_less(pa, pb), a % 5 && b % 5 && a < b);
    eq("partial_greater of a user type", cs::partial_greater(pa, pb), a % 5 && b % 5 && a > b);
    usr::A aa{a}, ab{b};
    eq("total_less", cs::total_less(aa, ab), a < b);
    eq("weak_less", cs::weak_less(aa, ab), a / 2 < b / 2);
    eq("partial_less", cs::partial_less(aa, ab), a / 4 < b / 4);
    eq("total_greater", cs::total_greater(aa, ab), a > b);
    eq("weak_greater", cs::weak_greater(aa, ab), a / 2 > b / 2);
    eq("partial_greater", cs::partial_greater(aa, ab), a / 4 > b / 4);
    // no fallback on operator<, nor towards stronger orders
    static_assert(!callable<cs::total_less_t, usr::None>::value && !callable<cs::weak_less_t, usr::None>::value && !callable<cs::partial_less_t, usr::None>::value, "");
    static_assert(!callable<cs::total_less_t, usr::W>::value && !callable<cs::weak_less_t, usr::P>::value, "");
    static_assert(!callable<cs::total_greater_t, usr::None>::value && !callable<cs::weak_greater_t, usr::P>::value && !callable<cs::partial_greater_t, usr::None>::value, "");
}

template<typename T>
void ints(const char* name, int part)
{
    static_assert(cs::total_less(T(0), T(1)) && !cs::total_greater(T(0), T(1)), "constant expressions");
    if (NPARTS != 1 && part % NPARTS != PART) return;
    pbt::add_test(std::string(name) + "/triples", 2500, 40000, Laws<T>::triple);
    if constexpr (!std::is_same<T, bool>::value) pbt::add_test(std::string(name) + "/sort", 300, 4000, Laws<T>::sort);
}

void register_tests()
{
    ints<bool>("bool", 0); ints<char>("char", 0); ints<signed char>("signed char", 0); ints<unsigned char>("unsigned char", 0);
    ints<short>("short", 0); ints<unsigned short>("unsigned short", 1); ints<int>("int", 1); ints<unsigned>("unsigned", 1);
    ints<long>("long", 1); ints<unsigned long>("unsigned long", 1); ints<long long>("long long", 2); ints<unsigned long long>("unsigned long long", 2);
    ints<wchar_t>("wchar_t", 2); ints<char16_t>("char16_t", 2); ints<char32_t>("char32_t", 2);
    ints<__int128_t>("__int128", 3); ints<__uint128_t>("unsigned __int128", 3);
    if (PART == 0) {
        pbt::add_test("bool/pairs", 2, 2, t_all_pairs<bool>);
        pbt::add_test("char/pairs", 256, 256, t_all_pairs<char>);
        pbt::add_test("signed char/pairs", 256, 256, t_all_pairs<signed char>);
        pbt::add_test("unsigned char/pairs", 256, 256, t_all_pairs<unsigned char>);
        pbt::add_test("custom", 2500, 2500, t_custom);
    }
    if (NPARTS == 1 || PART == 3 % NPARTS) {
        pbt::add_test("float/triples", 20000, 400000, Laws<float>::triple);
        pbt::add_test("double/triples", 20000, 400000, Laws<double>::triple);
        pbt::add_test("long double/triples", 20000, 400000, Laws<long double>::triple);
        pbt::add_test("float/sort", 2000, 30000, Laws<float>::sort);
        pbt::add_test("double/sort", 2000, 30000, Laws<double>::sort);
        pbt::add_test("long double/sort", 2000, 30000, Laws<long double>::sort);
        pbt::add_test("float/specials", 900, 900, t_specials<float>);
        pbt::add_test("double/specials", 900, 900, t_specials<double>);
        pbt::add_test("long double/specials", 900, 900, t_specials<long double>);
    }
}
