// C14: adapters applied to every compatible sorter still sort, and keep their specific promises:
// number of moves of indirect sorting, one projection per element of Schwartzian sorting, number of
// comparisons reported by counting sorting.
#include "sortcheck.h"

namespace cs = cppsort;
using pbt::Src; using pbt::i64; using pbt::u64;

static std::vector<unsigned> moves_of;      // by id
static std::vector<unsigned> projections_of;
static u64 comparisons, total_moves;

struct Mv   // move-only, moved-from elements lose their value
{
    int key = -987654, id = -1;
    Mv() = default;
    Mv(int k, int i): key(k), id(i) {}
    Mv(Mv&& o) noexcept: key(o.key), id(o.id) { count(); o.lose(); }
    Mv& operator=(Mv&& o) noexcept { int k = o.key, i = o.id; if (&o != this) o.lose(); key = k; id = i; count(); return *this; }
    void lose() { key = -987654; id = -1; }
    void count() { ++total_moves; if (id >= 0 && (std::size_t)id < moves_of.size()) ++moves_of[id]; }
    int get() const { return key; }
};
struct Key      // what the projection of a case returns: copyable, not trivial
{
    int k; std::string text;
};
struct CountingCmp
{
    gen::Order order;
    bool operator()(int a, int b) const { ++comparisons; td::on_call(); return order(a, b); }
    bool operator()(const Key& a, const Key& b) const { ++comparisons; td::on_call(); return order(a.k, b.k); }
};
struct CountingProj
{
    int mode = 0;
    int operator()(const Mv& e) const
    {
        td::on_call();
        PBT_CHECK(e.id >= 0, "projection of a moved-from element");
        ++projections_of[e.id];
        return gen::proj_apply(mode, e.key);
    }
};
struct KeyProj
{
    int mode = 0;
    Key operator()(const Mv& e) const
    {
        td::on_call();
        PBT_CHECK(e.id >= 0, "projection of a moved-from element");
        ++projections_of[e.id];
        return Key{gen::proj_apply(mode, e.key), std::string(20, 'x')};
    }
};

enum Kind { SORTS, INDIRECT, SCHWARTZ, COUNTS };

template<Kind K, typename A, typename Proj, typename It, typename C>
void check_call(const sc::Case& c, C& coll, bool iterators, Proj proj, const char* what)
{
    const std::size_t n = c.keys.size();
    moves_of.assign(n, 0);
    projections_of.assign(n, 0);
    comparisons = total_moves = 0;
    td::reset_counters();
    td::call_limit = 100000 + 60ull * n * n;
    A a{};
    u64 returned = 0;
    CountingCmp cmp{c.order};
    if constexpr (K == COUNTS) returned = (u64)(iterators ? a(coll.begin(), coll.end(), cmp, proj) : a(coll, cmp, proj));
    else if (iterators) a(coll.begin(), coll.end(), cmp, proj);
    else a(coll, cmp, proj);
    u64 cmps = comparisons, moves = total_moves;
    auto per_element = projections_of;
    sc::verify(coll.begin(), coll.end(), c, what);
    if constexpr (K == INDIRECT) {
        // every cycle of the permutation needs one move more than it has elements, other elements none
        std::vector<int> from;
        for (auto& e: coll) from.push_back(e.id);
        std::vector<char> seen(n, 0);
        u64 need = 0;
        for (std::size_t i = 0; i < n; ++i) {
            std::size_t len = 0, j = i;
            while (!seen[j]) { seen[j] = 1; ++len; j = (std::size_t)from[j]; }
            if (len > 1) need += len + 1;
        }
        PBT_CHECK(moves <= need, "%s: %llu moves for %zu elements, %llu are enough", what, (unsigned long long)moves, n, (unsigned long long)need);
        PBT_CHECK(2 * moves <= 3 * n, "%s: %llu moves for %zu elements", what, (unsigned long long)moves, n);
    }
    if constexpr (K == SCHWARTZ)
        for (std::size_t i = 0; i < n; ++i)
            PBT_CHECK(per_element[i] == 1 || n < 2, "%s: element %zu of %zu projected %u times", what, i, n, per_element[i]);
    if constexpr (K == COUNTS)
        PBT_CHECK(returned == cmps, "%s: %llu comparisons reported instead of %llu", what, (unsigned long long)returned, (unsigned long long)cmps);
}

template<Kind K, typename A, typename Cat>
void t_adapter(Src& src, const char* name, bool quad)
{
    bool iterators = src.below(2), keyed = src.below(3) == 0;
    int where = (int)src.below(2);
    auto c = sc::draw(src, quad ? 250 : pbt::g_thorough ? 8000 : 1200);
    if (src.below(2)) sc::coarsen(src, c);
    src.note("%s iterators %d keyed %d where %d", name, (int)iterators, (int)keyed, where);
    src.nontrivial_if(c.keys.size() >= 2 && !std::is_sorted(c.keys.begin(), c.keys.end(), [&](int a, int b) { return c.less(a, b); }));
    using Weak = std::conditional_t<std::is_same<Cat, ra_tag>::value, std::deque<Mv>, std::conditional_t<std::is_same<Cat, bi_tag>::value, std::list<Mv>, std::forward_list<Mv>>>;
    auto go = [&](auto& coll) {
        using It = decltype(coll.begin());
        // non-trivial keys where projections are stored
        if constexpr (K == SCHWARTZ) {
            if (keyed) { check_call<K, A, KeyProj, It>(c, coll, iterators, KeyProj{c.mode}, name); return; }
        }
        check_call<K, A, CountingProj, It>(c, coll, iterators, CountingProj{c.mode}, name);
    };
    if (where) { Weak v; sc::fill<Mv>(v, c.keys); go(v); }
    else { std::vector<Mv> v; sc::fill<Mv>(v, c.keys); go(v); }
}

template<int I, Kind K, typename A, typename Cat>
void add(std::string name, bool quad)
{
    if constexpr (I % NPARTS == PART) {
        static std::string n;
        n = name;
        pbt::add_test(n.c_str(), quad ? 600 : 1500, quad ? 20000 : 40000, [quad](Src& s) { t_adapter<K, A, Cat>(s, n.c_str(), quad); });
    }
}
template<typename Cat> using bi_or = std::conditional_t<std::is_same<Cat, fwd_tag>::value, bi_tag, Cat>;

template<int I, typename S, typename Cat>
void all_adapters(const char* name, bool quad)
{
    std::string n = name;
    add<I, INDIRECT, cs::indirect_adapter<S>, fwd_tag>("indirect<" + n + ">", quad);
    add<I + 1, SORTS, cs::out_of_place_adapter<S>, fwd_tag>("out_of_place<" + n + ">", quad);
    if constexpr (!std::is_same<S, cs::std_sorter>::value)
        add<I + 2, SCHWARTZ, cs::schwartz_adapter<S>, Cat>("schwartz<" + n + ">", quad);
    add<I + 3, SORTS, cs::verge_adapter<S>, bi_or<Cat>>("verge<" + n + ">", quad);
    add<I + 4, SORTS, cs::drop_merge_adapter<S>, bi_tag>("drop_merge<" + n + ">", quad);
    add<I + 5, SORTS, cs::split_adapter<S>, bi_or<Cat>>("split<" + n + ">", quad);
    add<I + 6, COUNTS, cs::counting_adapter<S>, Cat>("counting<" + n + ">", quad);
}

////////////////////////////////////////////////////////////
// small_array_adapter: arrays of a covered size are sorted by the fixed-size sorter of this size,
// and only them; aggregated with another sorter, anything else goes to the latter

static std::vector<int> fixed_called;   // sizes of the fixed-size sorters called
static int fallback_called;

template<std::size_t N>
struct LoggingNetwork   // a fixed-size sorter of the "user"
{
    template<typename It, typename Compare = std::less<>, typename Projection = cs::utility::identity,
             typename = cs::detail::enable_if_t<cs::is_projection_iterator_v<Projection, It, Compare>>>
    auto operator()(It first, It last, Compare compare = {}, Projection projection = {}) const -> int
    {
        fixed_called.push_back((int)N);
        cs::insertion_sorter{}(first, last, std::move(compare), std::move(projection));
        return 1000 + (int)N;
    }
};
template<std::size_t N> struct Logging: cs::sorter_facade<LoggingNetwork<N>> {};
template<std::size_t N> struct LoggingEven;     // only some sizes exist
template<> struct LoggingEven<0>: Logging<0> {};
template<> struct LoggingEven<2>: Logging<2> {};
template<> struct LoggingEven<8>: Logging<8> {};
template<> struct LoggingEven<20>: Logging<20> {};

struct FallbackImpl
{
    template<typename It, typename Compare = std::less<>, typename Projection = cs::utility::identity,
             typename = cs::detail::enable_if_t<cs::is_projection_iterator_v<Projection, It, Compare>>>
    auto operator()(It first, It last, Compare compare = {}, Projection projection = {}) const -> int
    {
        ++fallback_called;
        cs::heap_sorter{}(first, last, std::move(compare), std::move(projection));
        return 77;
    }
    using iterator_category = std::random_access_iterator_tag;
    using is_always_stable = std::false_type;
};
struct Fallback: cs::sorter_facade<FallbackImpl> {};

namespace cppsort {
    template<> struct fixed_sorter_traits<::Logging> {     // no domain
        using iterator_category = std::random_access_iterator_tag;
        using is_always_stable = std::false_type;
    };
    template<> struct fixed_sorter_traits<::LoggingEven> {
        using domain = std::index_sequence<0, 2, 8, 20>;
        using iterator_category = std::random_access_iterator_tag;
        using is_always_stable = std::false_type;
    };
}

using NoDomain = cs::small_array_adapter<Logging>;                                  // any size
using Listed = cs::small_array_adapter<Logging, std::index_sequence<1, 3, 4, 9, 16>>;
using OwnDomain = cs::small_array_adapter<LoggingEven>;                             // its domain
using Narrowed = cs::small_array_adapter<LoggingEven, std::index_sequence<8>>;

template<typename A> bool covered(std::size_t n);
template<> bool covered<NoDomain>(std::size_t) { return true; }
template<> bool covered<Listed>(std::size_t n) { return n == 1 || n == 3 || n == 4 || n == 9 || n == 16; }
template<> bool covered<OwnDomain>(std::size_t n) { return n == 0 || n == 2 || n == 8 || n == 20; }
template<> bool covered<Narrowed>(std::size_t n) { return n == 8; }

template<typename A, std::size_t N>
void small_array(Src& src, const char* name)
{
    int form = (int)src.below(4), call = (int)src.below(5);
    gen::Order order = gen::order(src);
    int mode = (int)src.below(5);
    auto keys = gen::keys_n(src, (i64)N, (i64)N);
    sc::Case c;
    for (auto k: keys) c.keys.push_back((int)k);
    c.keys.resize(N);
    c.order = order; c.mode = mode;
    if (call == 0 || call == 2) c.order = gen::Order{};
    if (call == 0 || call == 1) c.mode = 0;
    src.note("%s size %zu form %d call %d", name, N, form, call);
    src.nontrivial_if(N >= 2 && !std::is_sorted(c.keys.begin(), c.keys.end(), [&](int a, int b) { return c.less(a, b); }));
    fixed_called.clear();
    fallback_called = 0;
    moves_of.clear();
    projections_of.assign(N + 1, 0);
    td::reset_counters();
    td::call_limit = 1000000;
    using H = cs::hybrid_adapter<A, Fallback>;
    auto run = [&](auto& coll, auto sorter) -> int {
        CountingCmp cmp{c.order};
        CountingProj proj{c.mode};
        switch (call) {
            case 0: return sorter(coll, std::less<>{}, &Mv::key);
            case 1: return sorter(coll, [&](const Mv& a, const Mv& b) { return c.order(a.key, b.key); });
            case 2: return sorter(coll, proj);
            default: return sorter(coll, cmp, proj);
        }
    };
    int r = 0;
    auto check = [&](auto& coll) {
        int expected = covered<A>(N) ? 1000 + (int)N : 77;
        PBT_CHECK(r == expected, "%s: size %zu: result %d instead of %d", name, N, r, expected);
        PBT_CHECK(fixed_called.size() == (covered<A>(N) ? 1u : 0u) && fallback_called == (covered<A>(N) ? 0 : 1), "%s: size %zu: wrong sorters called", name, N);
        sc::verify(std::begin(coll), std::end(coll), c, name);
    };
    if (form < 2 || N == 0) {
        std::array<Mv, N> coll;
        int i = 0;
        for (auto& e: coll) { e = Mv(c.keys[i], i); ++i; }
        // alone, the adapter accepts the covered sizes and no other one
        constexpr bool alone = CanCall<A, std::array<Mv, N>&, CountingCmp, CountingProj>::value;
        PBT_CHECK(alone == covered<A>(N), "%s: %s an array of size %zu", name, alone ? "accepts" : "rejects", N);
        if constexpr (alone) { if (form == 1) r = run(coll, A{}); else r = run(coll, H{}); }
        else r = run(coll, H{});
        check(coll);
    }
    else if constexpr (N > 0) {
        Mv coll[N];
        int i = 0;
        for (auto& e: coll) { e = Mv(c.keys[i], i); ++i; }
        constexpr bool alone = CanCall<A, Mv (&)[N], CountingCmp, CountingProj>::value;
        PBT_CHECK(alone == covered<A>(N), "%s: %s an array of size %zu", name, alone ? "accepts" : "rejects", N);
        if constexpr (alone) { if (form == 3) r = run(coll, A{}); else r = run(coll, H{}); }
        else r = run(coll, H{});
        check(coll);
    }
}
template<typename A, std::size_t... Ns>
void small_arrays(Src& src, const char* name, std::index_sequence<Ns...>)
{
    std::size_t n = src.below(sizeof...(Ns));
    using F = void (*)(Src&, const char*);
    static const F table[] = {&small_array<A, Ns>...};
    table[n](src, name);
}
template<int I, typename A>
void add_small(const char* name)
{
    if constexpr (I % NPARTS == PART)
        pbt::add_test(name, 12000, 400000, [name](Src& s) { small_arrays<A>(s, name, std::make_index_sequence<24>{}); });
}

void register_tests()
{
    add_small<4, NoDomain>("small_array<any size>");
    add_small<5, Listed>("small_array<listed sizes>");
    add_small<6, OwnDomain>("small_array<domain of the traits>");
    add_small<7, Narrowed>("small_array<narrowed domain>");

    enum { base = __COUNTER__ };
#define X(name, type, cat, stable, quad) all_adapters<(__COUNTER__ - base - 1) * 7, type, cat>(name, quad);
    COMPARISON_SORTERS(X)
#undef X
    // deeper stacks
    using namespace cs;
    enum { base2 = __COUNTER__ };
#define T(kind, cat, ...) add<__COUNTER__ - base2 - 1, kind, __VA_ARGS__, cat>(#__VA_ARGS__, false);
    T(SORTS, bi_tag, drop_merge_adapter<drop_merge_adapter<quick_sorter>>)
    T(SORTS, bi_tag, drop_merge_adapter<split_adapter<pdq_sorter>>)
    T(SORTS, bi_tag, split_adapter<out_of_place_adapter<heap_sorter>>)
    T(SORTS, bi_tag, verge_adapter<drop_merge_adapter<tim_sorter>>)
    T(SORTS, fwd_tag, out_of_place_adapter<indirect_adapter<smooth_sorter>>)
    T(INDIRECT, fwd_tag, indirect_adapter<drop_merge_adapter<quick_merge_sorter>>)
    T(INDIRECT, fwd_tag, indirect_adapter<out_of_place_adapter<verge_adapter<poplar_sorter>>>)
    T(INDIRECT, fwd_tag, stable_adapter<indirect_adapter<merge_sorter>>)
    T(SCHWARTZ, fwd_tag, schwartz_adapter<indirect_adapter<spin_sorter>>)
    T(SCHWARTZ, bi_tag, schwartz_adapter<verge_adapter<merge_sorter>>)
    T(SCHWARTZ, fwd_tag, schwartz_adapter<stable_adapter<merge_sorter>>)
    T(SORTS, fwd_tag, stable_adapter<schwartz_adapter<quick_sorter>>)
    T(SCHWARTZ, fwd_tag, out_of_place_adapter<schwartz_adapter<heap_sorter>>)
    T(SCHWARTZ, fwd_tag, hybrid_adapter<schwartz_adapter<merge_sorter>, schwartz_adapter<heap_sorter>>)
    T(SCHWARTZ, bi_tag, schwartz_adapter<drop_merge_adapter<merge_sorter>>)
    T(COUNTS, bi_tag, counting_adapter<drop_merge_adapter<heap_sorter>>)
    T(COUNTS, fwd_tag, counting_adapter<indirect_adapter<heap_sorter>, long long>)
    T(COUNTS, ra_tag, counting_adapter<stable_adapter<verge_adapter<poplar_sorter>>>)
    T(COUNTS, fwd_tag, counting_adapter<hybrid_adapter<merge_sorter, smooth_sorter>, unsigned>)
    T(SORTS, fwd_tag, self_sort_adapter<hybrid_adapter<selection_sorter, insertion_sorter, d_ary_heap_sorter<4>>>)
    T(SORTS, fwd_tag, container_aware_adapter<indirect_adapter<slab_sorter>>)
    T(SORTS, bi_tag, split_adapter<stable_adapter<slab_sorter>>)
    T(SORTS, ra_tag, verge_adapter<verge_adapter<split_adapter<grail_sorter<>>>>)
    T(SORTS, fwd_tag, stable_adapter<out_of_place_adapter<wiki_sorter<utility::fixed_buffer<0>>>>)
#undef T
}
