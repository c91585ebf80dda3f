// C10: ska_sorter against comparison sorting, for all the supported key types.
#include "sorters.h"
#include "typed.h"

namespace cs = cppsort;
using namespace ty;

template<typename K> struct Rec { K key; int id; };

template<typename It, typename K, typename Key>
void check(It first, It last, const std::vector<K>& all, Key key, const char* what)
{
    std::vector<char> seen(all.size(), 0);
    std::size_t n = 0;
    for (It it = first; it != last; ++it, ++n) {
        int id = it->id;
        PBT_CHECK(id >= 0 && id < (int)all.size() && !seen[id], "%s: element lost or duplicated", what);
        seen[id] = 1;
        PBT_CHECK(key(*it) == all[id], "%s: element %d changed", what, id);
        if (it != first) {
            It p = it; --p;
            PBT_CHECK(!(key(*it) < key(*p)), "%s: not sorted at %zu of %zu: %s then %s", what, n, all.size(), show(key(*p)).substr(0, 200).c_str(), show(key(*it)).substr(0, 200).c_str());
        }
    }
    PBT_CHECK(n == all.size(), "%s: size changed", what);
}

static std::deque<std::string> pool;  // storage of the string views of a case
template<typename K>
std::vector<K> values(Src& src, std::size_t hi)
{
    pool.clear();
    Shape s = shape(src);
    auto keys = gen::keys(src, hi);
    std::vector<K> v;
    for (auto k: keys) v.push_back(Make<K>::of(s, k));
    src.note("shape %llu %llu %llu %llu ", (unsigned long long)s.mode, (unsigned long long)s.a, (unsigned long long)s.b, (unsigned long long)s.seed);
    src.note_seq("keys", keys);
    bool sorted = true;
    for (std::size_t i = 1; i < v.size(); ++i) if (v[i] < v[i - 1]) sorted = false;
    src.nontrivial_if(!sorted && v.size() >= 128);
    src.classify(v.size() < 128 ? "n<128: comparison fallback" : v.size() < 1024 ? "128<=n<1024" : "n>=1024");
    return v;
}

template<typename K>
void t_keys(Src& src, const char* name)
{
    int form = (int)src.below(3);
    src.note("%s form %d ", name, form);
    auto all = values<K>(src, pbt::g_thorough ? 12000 : 3000);
    auto key = [](const Rec<K>& r) -> const K& { return r.key; };
    if constexpr (!std::is_same<K, bool>::value) if (form == 0) {    // the keys themselves
        auto v = all;
        cs::ska_sort(v);
        auto w = all;
        std::sort(w.begin(), w.end());
        for (std::size_t i = 0; i < v.size(); ++i) {
            if (i) PBT_CHECK(!(v[i] < v[i - 1]), "%s: not sorted at %zu of %zu: %s then %s", name, i, v.size(), show(K(v[i - 1])).substr(0, 200).c_str(), show(K(v[i])).substr(0, 200).c_str());
            PBT_CHECK(v[i] == w[i], "%s: values changed at %zu of %zu", name, i, v.size());
        }
        return;
    }
    if (form <= 1) {
        std::deque<Rec<K>> v;
        for (std::size_t i = 0; i < all.size(); ++i) v.push_back({all[i], (int)i});
        cs::ska_sorter{}(v.rbegin(), v.rend(), &Rec<K>::key);
        check(v.rbegin(), v.rend(), all, key, name);
        return;
    }
    std::vector<Rec<K>> v;
    for (std::size_t i = 0; i < all.size(); ++i) v.push_back({all[i], (int)i});
    cs::ska_sort(v, [](const Rec<K>& r) { return r.key; });
    check(v.begin(), v.end(), all, key, name);
}

// long sequences: partitions, counts and cycles beyond 16 bits
template<typename K>
void t_bulk(Src& src, const char* name)
{
    pool.clear();
    Shape s = shape(src);
    auto keys = gen::bulk(src, 5000, (pbt::g_thorough ? 1000000 : 300000) / (sizeof(K) > 16 ? 8 : 1));
    src.note("%s shape %llu %llu %llu %llu ", name, (unsigned long long)s.mode, (unsigned long long)s.a, (unsigned long long)s.b, (unsigned long long)s.seed);
    std::vector<K> v;
    for (auto k: keys) v.push_back(Make<K>::of(s, k));
    src.nontrivial_if(!std::is_sorted(v.begin(), v.end()));
    auto w = v;
    cs::ska_sort(v);
    std::sort(w.begin(), w.end());
    for (std::size_t i = 0; i < v.size(); ++i)
        PBT_CHECK(v[i] == w[i], "%s: not sorted or values changed at %zu of %zu: %s instead of %s", name, i, v.size(), show(K(v[i])).substr(0, 200).c_str(), show(K(w[i])).substr(0, 200).c_str());
}

template<int I, typename K>
void add(const char* name)
{
    if constexpr (I % NPARTS == PART) {
        pbt::add_test(name, 900, 12000, [=](Src& s) { t_keys<K>(s, name); });
        if constexpr (!std::is_same<K, bool>::value)
            pbt::add_test(std::string(name) + "/bulk", 8, 200, [=](Src& s) { t_bulk<K>(s, name); });
    }
}

static int storage[4096];
template<> struct ty::Make<int*> { static int* of(const Shape& s, i64 k) { return storage + s.h((u64)k) % 4096; } };
template<> std::string ty::show(int* const& p) { return std::to_string(p - storage); }
template<> struct ty::Make<std::string_view>
{
    static std::string_view of(const Shape& s, i64 k)
    {
        pool.push_back(make_string<std::string>(s, k));
        return pool.back();
    }
};
template<> std::string ty::show(const std::string_view& p) { return show(std::string(p)); }

void register_tests()
{
    enum { base = __COUNTER__ };
#define T(...) add<__COUNTER__ - base - 1, __VA_ARGS__>(#__VA_ARGS__);
    T(bool) T(char) T(signed char) T(unsigned char) T(short) T(unsigned short) T(int) T(unsigned) T(long) T(unsigned long)
    T(long long) T(unsigned long long) T(__int128_t) T(__uint128_t) T(char16_t) T(char32_t) T(wchar_t) T(float) T(double)
    T(int*) T(std::string) T(std::string_view) T(std::u16string) T(std::u32string) T(std::wstring)
    T(std::vector<int>) T(std::vector<unsigned char>) T(std::vector<char>) T(std::deque<short>) T(std::array<signed char, 3>) T(std::array<bool, 9>) T(std::array<long, 2>)
    T(std::vector<std::string>) T(std::vector<std::vector<int>>) T(std::vector<double>)
    T(std::pair<int, std::string>) T(std::pair<std::string, int>) T(std::pair<float, unsigned char>) T(std::pair<bool, long>) T(std::pair<std::string, std::string>)
    T(std::tuple<bool, double, std::string>) T(std::tuple<std::pair<signed char, signed char>, std::vector<unsigned char>>)
    T(std::tuple<short>) T(std::tuple<unsigned char, std::tuple<std::string, int>, bool>) T(std::vector<std::pair<char, int>>) T(std::vector<std::tuple<short, std::string, bool>>) T(std::pair<char, char>)
#undef T
}
