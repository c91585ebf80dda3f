// C17: the published index pairs of the sorting networks.
#include "sortcheck.h"
#include "netcheck.h"

namespace cs = cppsort;
using pbt::Src; using pbt::i64; using pbt::u64;

static const int network_size[65] = {0, 0, 1, 3, 5, 9, 12, 16, 19, 25, 29, 35, 39, 45, 51, 56, 60, 71, 77, 85, 91, 99, 106, 114, 120, 130, 139, 147, 155,
    164, 172, 180, 185, 199, 209, 220, 227, 240, 250, 259, 265, 282, 291, 303, 309, 324, 332, 340, 346, 365, 376, 387, 395, 411, 421, 432, 438,
    454, 465, 476, 483, 497, 506, 515, 521};
static int batcher_merge(int a, int b)
{
    if (a == 0 || b == 0) return 0;
    if (a == 1 && b == 1) return 1;
    return batcher_merge((a + 1) / 2, (b + 1) / 2) + batcher_merge(a / 2, b / 2) + (a + b - 1) / 2;
}
static int batcher(int n) { return n < 2 ? 0 : batcher((n + 1) / 2) + batcher(n / 2) + batcher_merge((n + 1) / 2, n / 2); }

struct Wide { int v = 0; constexpr Wide() = default; constexpr Wide(int x): v(x) {} };     // only constructible from int

template<typename S, std::size_t N, bool Best>
struct T
{
    template<typename D> static net::Pairs pairs()
    {
        net::Pairs out;
        auto ps = S::template index_pairs<D>();
        for (auto& p: ps) out.push_back({(int)p.first, (int)p.second});
        return out;
    }
    static void structure(Src& src, const char* name)
    {
        src.nontrivial();
        auto ps = pairs<int>();
        int expected = Best ? network_size[N] : batcher((int)N);
        PBT_CHECK((int)ps.size() == expected, "%s: %zu compare-exchanges instead of %d", name, ps.size(), expected);
        for (auto& p: ps)
            PBT_CHECK(p.first >= 0 && p.second >= 0 && p.first < (int)N && p.second < (int)N && p.first != p.second, "%s: pair (%d, %d) out of range", name, p.first, p.second);
        PBT_CHECK(pairs<std::ptrdiff_t>() == ps && pairs<short>() == ps && pairs<unsigned>() == ps && pairs<long long>() == ps, "%s: other pairs for another index type", name);
        if constexpr (N < 128) PBT_CHECK(pairs<signed char>() == ps, "%s: other pairs with signed char indices", name);
        {
            net::Pairs d;
            for (auto& p: S::index_pairs()) d.push_back({(int)p.first, (int)p.second});
            PBT_CHECK(d == ps, "%s: other pairs with the default index type", name);
        }
        if constexpr (Best) {
            net::Pairs wide;
            for (auto& p: S::template index_pairs<Wide>()) wide.push_back({p.first.v, p.second.v});
            PBT_CHECK(wide == ps, "%s: other pairs with a class type", name);
        }
        static_assert(std::is_same<std::decay_t<decltype(S::template index_pairs<int>()[0])>, cs::utility::index_pair<int>>::value || N < 2, "");
    }
    static void principle(Src& src, const char* name)
    {
        src.nontrivial();
        net::Mask in = 0;
        u64 states = 0;
        bool complete = true;
        bool ok = net::sorts_all((int)N, pairs<int>(), in, states, complete);
        src.note("%s: %llu states evaluated%s", name, (unsigned long long)states, complete ? " (all)" : " (sample)");
        src.classify(complete ? "all 0-1 inputs" : "sample of the 0-1 inputs");
        PBT_CHECK(ok, "%s: the index pairs do not sort %s", name, net::show(in, (int)N).c_str());
    }
    struct Item { int key, id; friend bool operator==(const Item& a, const Item& b) { return a.key == b.key && a.id == b.id; } };
    static void equivalence(Src& src, const char* name)
    {
        sc::Case c;
        c.order = gen::order(src);
        c.mode = (int)src.below(gen::n_projs);
        for (auto k: gen::keys_n(src, (i64)N, (i64)N)) c.keys.push_back((int)k);
        c.keys.resize(N);
        if (src.below(2)) sc::coarsen(src, c);
        src.note("%s order %d/%d proj %d ", name, c.order.mode, c.order.param, c.mode);
        src.note_seq("keys", c.keys);
        src.nontrivial_if(N >= 2 && !std::is_sorted(c.keys.begin(), c.keys.end(), [&](int a, int b) { return c.less(a, b); }));
        std::vector<Item> a;
        for (std::size_t i = 0; i < N; ++i) a.push_back({c.keys[i], (int)i});
        auto b = a, d = a, e = a;
        auto cmp = c.cmp();
        auto proj = [&](const Item& i) { return gen::proj_apply(c.mode, i.key); };
        td::reset_counters(); td::call_limit = 1u << 30;
        td::call_count = 0; S{}(a.begin(), a.end(), cmp, proj); u64 ca = td::call_count;
        td::call_count = 0; cs::utility::swap_index_pairs(b.begin(), S::template index_pairs<int>(), cmp, proj); u64 cb = td::call_count;
        sc::verify(a.begin(), a.end(), c, name);
        PBT_CHECK(a == b, "%s: swap_index_pairs does not do the same as the sorter", name);
        PBT_CHECK(ca == cb, "%s: swap_index_pairs performs %llu comparisons, the sorter %llu", name, (unsigned long long)cb, (unsigned long long)ca);
        if constexpr (N <= 32) {    // deep template recursion
            td::call_count = 0; cs::utility::swap_index_pairs_force_unroll(d.begin(), S::template index_pairs<std::ptrdiff_t>(), cmp, proj);
            PBT_CHECK(a == d && td::call_count == cb, "%s: swap_index_pairs_force_unroll does not do the same as the sorter", name);
        }
        // default comparison and projection
        std::vector<int> x(c.keys), y(c.keys), z(c.keys);
        cs::utility::swap_index_pairs(x.begin(), S::index_pairs());
        S{}(y);
        PBT_CHECK(x == y && std::is_sorted(x.begin(), x.end()), "%s: swap_index_pairs does not do the same as the sorter on integers", name);
        if constexpr (N <= 32) {
            cs::utility::swap_index_pairs_force_unroll(z.begin(), S::index_pairs());
            PBT_CHECK(x == z, "%s: swap_index_pairs_force_unroll does not do the same as the sorter on integers", name);
        }
    }
};

// any sequence of pairs is applied in order
template<std::size_t M>
static void t_any(Src& src)
{
    int n = (int)src.below(20) + 2;
    std::array<cs::utility::index_pair<short>, M> ps{};
    std::vector<int> a;
    for (int i = 0; i < n; ++i) a.push_back((int)src.below(n));
    auto e = a, b = a;
    for (auto& p: ps) { p.first = (short)src.below(n); p.second = (short)src.below(n); if (p.first == p.second) p.second = (short)((p.first + 1) % n); }
    src.note("%zu pairs on %d elements", M, n);
    src.nontrivial_if(M > 0);
    bool down = src.below(2);
    for (auto& p: ps) if (down ? e[p.first] < e[p.second] : e[p.second] < e[p.first]) std::swap(e[p.first], e[p.second]);
    if (down) { cs::utility::swap_index_pairs(a.begin(), ps, std::greater<>{}); cs::utility::swap_index_pairs_force_unroll(b.begin(), ps, std::greater<>{}, cs::utility::identity{}); }
    else { cs::utility::swap_index_pairs(a.begin(), ps); cs::utility::swap_index_pairs_force_unroll(b.begin(), ps); }
    PBT_CHECK(a == e, "swap_index_pairs does not apply the pairs in order");
    PBT_CHECK(b == e, "swap_index_pairs_force_unroll does not apply the pairs in order");
}

template<int I, typename S, std::size_t N, bool Best>
void add(const char* family)
{
    if constexpr (I % NPARTS == PART) {
        char name[80];
        std::snprintf(name, sizeof name, "%s<%zu>", family, N);
        std::string* n = new std::string(name);
        using X = T<S, N, Best>;
        pbt::add_test(*n + " structure", 1, 1, [n](Src& s) { X::structure(s, n->c_str()); });
        pbt::add_test(*n + " 0-1 principle", 1, 1, [n](Src& s) { X::principle(s, n->c_str()); });
        pbt::add_test(*n, 3000, 100000, [n](Src& s) { X::equivalence(s, n->c_str()); });
    }
}
template<bool Best, template<std::size_t> class S, std::size_t... N>
void add_all(const char* family, std::index_sequence<N...>)
{
    int x[] = {0, (add<(int)N, S<N>, N, Best>(family), 0)...};
    (void)x;
}

void register_tests()
{
    if (PART == 0) {
        pbt::add_test("any pairs 0", 100, 3000, [](Src& s) { t_any<0>(s); });
        pbt::add_test("any pairs 1", 200, 6000, [](Src& s) { t_any<1>(s); });
        pbt::add_test("any pairs 7", 600, 30000, [](Src& s) { t_any<7>(s); });
        pbt::add_test("any pairs 40", 600, 30000, [](Src& s) { t_any<40>(s); });
    }
    add_all<true, cs::sorting_network_sorter>("sorting_network_sorter", std::make_index_sequence<65>{});
    add_all<false, cs::merge_exchange_network_sorter>("merge_exchange_network_sorter", std::make_index_sequence<66>{});
    add_all<false, cs::merge_exchange_network_sorter>("merge_exchange_network_sorter", std::index_sequence<71, 89, 100, 127, 128>{});
    add_all<false, cs::odd_even_merge_network_sorter>("odd_even_merge_network_sorter", std::index_sequence<0, 1, 2, 4, 8, 16, 32, 64, 128>{});
}
