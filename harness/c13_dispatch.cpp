// C13: hybrid_adapter, self_sort_adapter and stacks of adapters call the documented sorter, return
// its result and use its state. The sorters called are instrumented ones, which tell who they are.
#include "gen.h"
#include <array>
#include <deque>
#include <forward_list>
#include <functional>
#include <list>
#include <memory>
#include <vector>
#include <cpp-sort/adapters.h>
#include <cpp-sort/fixed_sorters.h>
#include <cpp-sort/metrics/comparisons.h>
#include <cpp-sort/metrics/moves.h>
#include <cpp-sort/metrics/projections.h>
#include <cpp-sort/metrics/running_time.h>
#include <cpp-sort/sorter_facade.h>
#include <cpp-sort/sorter_traits.h>
#include <cpp-sort/sorters/std_sorter.h>
#include <cpp-sort/utility/iter_move.h>

namespace cs = cppsort;
using pbt::Src; using pbt::i64; using pbt::u64;

struct Res { int id, state; std::size_t n; };
inline int calls, last_id, last_state;

template<int C> struct cat_of;
template<> struct cat_of<0> { using type = std::forward_iterator_tag; };
template<> struct cat_of<1> { using type = std::bidirectional_iterator_tag; };
template<> struct cat_of<2> { using type = std::random_access_iterator_tag; };
template<typename It> constexpr int rank_of()
{
    using C = typename std::iterator_traits<It>::iterator_category;
    return std::is_base_of<std::random_access_iterator_tag, C>::value ? 2 : std::is_base_of<std::bidirectional_iterator_tag, C>::value ? 1 : 0;
}

template<typename It, typename Compare, typename Projection>
Res exchange_sort(It first, It last, Compare compare, Projection projection, int id, int state)
{
    auto&& comp = cs::utility::as_function(compare);
    auto&& proj = cs::utility::as_function(projection);
    std::size_t n = 0;
    for (It i = first; i != last; ++i, ++n)
        for (It j = std::next(i); j != last; ++j) {
            if (comp(proj(*j), proj(*i))) {
                using cs::utility::iter_swap;
                iter_swap(i, j);
            }
        }
    ++calls; last_id = id; last_state = state;
    return {id, state, n};
}

// what is accepted: 0 anything, 1 integers only, 2 floating point only, 3 no comparison, 4 no projection,
// 5 an explicit comparison is required, 6 comparisons and projections only together or nothing
template<int Acc, typename It> constexpr bool type_ok()
{
    using V = std::remove_cv_t<std::remove_reference_t<decltype(*std::declval<It&>())>>;
    return Acc == 1 ? std::is_same<V, int>::value : Acc == 2 ? std::is_same<V, double>::value : true;
}
// states of several natures: initialised, with a trivial default constructor, without default constructor, not trivial to copy or move
template<bool Stateful, int K> struct State { int state = 7; State() = default; explicit State(int s): state(s) {} int get_state() const { return state; } };
template<> struct State<true, 1> { int state; State() = default; explicit State(int s): state(s) {} int get_state() const { return state; } };
template<> struct State<true, 2> { int state; explicit State(int s): state(s) {} int get_state() const { return state; } };
template<> struct State<true, 3> { std::shared_ptr<int> state = std::make_shared<int>(7); State() = default; explicit State(int s): state(std::make_shared<int>(s)) {} int get_state() const { return state ? *state : -9; } };
template<int K> struct State<false, K> { State() = default; explicit State(int) {} int get_state() const { return -1; } };

template<int Id, int Cat, int Acc, bool Stateful, int K>
struct PImpl: State<Stateful, K>
{
    PImpl() = default;
    explicit PImpl(int s): State<Stateful, K>(s) {}
    using iterator_category = typename cat_of<Cat>::type;
    using is_always_stable = std::integral_constant<bool, Id % 2 == 0>;
    template<typename It, std::enable_if_t<Acc != 5 && type_ok<Acc, It>(), int> = 0>
    Res operator()(It f, It l) const { return exchange_sort(f, l, std::less<>{}, cs::utility::identity{}, Id, this->get_state()); }
    template<typename It, typename C, std::enable_if_t<Acc != 3 && Acc != 6 && type_ok<Acc, It>() && cs::is_projection_iterator_v<cs::utility::identity, It, C>, int> = 0>
    Res operator()(It f, It l, C c) const { return exchange_sort(f, l, c, cs::utility::identity{}, Id, this->get_state()); }
    template<typename It, typename P, std::enable_if_t<Acc == 3 && cs::is_projection_iterator_v<P, It>, int> = 0>
    Res operator()(It f, It l, P p) const { return exchange_sort(f, l, std::less<>{}, p, Id, this->get_state()); }
    template<typename It, typename C, typename P, std::enable_if_t<Acc != 3 && Acc != 4 && type_ok<Acc, It>() && cs::is_projection_iterator_v<P, It, C>, int> = 0>
    Res operator()(It f, It l, C c, P p) const { return exchange_sort(f, l, c, p, Id, this->get_state()); }
};
template<int Id, int Cat, int Acc, bool Stateful, int K = Id % 4>
struct P: cs::sorter_facade<PImpl<Id, Cat, Acc, Stateful, K>>
{
    static constexpr int id = Id;
    static constexpr int rank = Cat;
    P() = default;
    explicit P(int s): cs::sorter_facade<PImpl<Id, Cat, Acc, Stateful, K>>(s) {}
};

// fixed-size sorters which tell who they are
template<std::size_t N, int Id> struct FxImpl
{
    template<typename It, typename C = std::less<>, typename Pr = cs::utility::identity, typename = std::enable_if_t<cs::is_projection_iterator_v<Pr, It, C>>>
    Res operator()(It f, It l, C c = {}, Pr p = {}) const { return exchange_sort(f, l, c, p, Id + (int)N, -1); }
    using iterator_category = std::random_access_iterator_tag;
    using is_always_stable = std::false_type;
};
template<std::size_t N> struct FxA: cs::sorter_facade<FxImpl<N, 100>> {};
template<std::size_t N> struct FxB: cs::sorter_facade<FxImpl<N, 200>> {};
namespace cppsort
{
    template<> struct fixed_sorter_traits<FxA> { using domain = std::index_sequence<1, 5, 6>; using iterator_category = std::random_access_iterator_tag; using is_always_stable = std::false_type; };
    template<> struct fixed_sorter_traits<FxB> { using iterator_category = std::random_access_iterator_tag; using is_always_stable = std::false_type; };
}
struct SmallA: cs::small_array_adapter<FxA> { static constexpr int id = 100, rank = 2; SmallA() = default; explicit SmallA(int) {} };
struct SmallB: cs::small_array_adapter<FxB, std::index_sequence<0, 5, 7>> { static constexpr int id = 200, rank = 2; SmallB() = default; explicit SmallB(int) {} };

constexpr u64 ch(u64 a, u64 b, u64 c)
{
    u64 x = a * 0x9e3779b97f4a7c15ull + b * 0xbf58476d1ce4e5b9ull + c * 0x94d049bb133111ebull + 12345;
    x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; x ^= x >> 31;
    return x;
}
template<int H, int I> constexpr int acc_of() { constexpr u64 h = ch(H, I, 2) % 12; return h < 7 ? (int)h : 0; }
template<int H, int I>
using Slot = std::conditional_t<ch(H, I, 4) % 9 == 0, std::conditional_t<ch(H, I, 5) % 2 == 0, SmallA, SmallB>,
    P<I + 1, (int)(ch(H, I, 1) % 3), acc_of<H, I>(), ch(H, I, 3) % 2 == 0>>;

struct Neg { template<typename T> T operator()(const T& x) const { return -x; } };

template<typename... S> struct List {};

// index of the sorter to call, -1 when there is none: the strongest category among those which can
// be called with the arguments and which the iterators satisfy, the first one in case of a tie
template<typename It, typename... Args, typename... S>
constexpr int pick(List<S...>, void (*)(Args...) = nullptr)
{
    const int ranks[] = {S::rank...};
    const bool ok[] = {CanCall<const S&, Args...>::value...};
    int best = -1;
    for (int i = 0; i < (int)sizeof...(S); ++i)
        if (ok[i] && ranks[i] <= rank_of<It>() && (best < 0 || ranks[i] > ranks[best])) best = i;
    return best;
}

template<typename Coll, typename F>
void expect_sorted(const Coll& c, std::vector<i64> keys, F form_less, const char* what)
{
    std::vector<i64> now;
    for (auto it = std::begin(c); it != std::end(c); ++it) now.push_back((i64)*it);
    for (std::size_t i = 1; i < now.size(); ++i) PBT_CHECK(!form_less(now[i], now[i - 1]), "%s: not sorted", what);
    std::sort(now.begin(), now.end()); std::sort(keys.begin(), keys.end());
    PBT_CHECK(now == keys, "%s: contents changed", what);
}

template<typename T, typename Coll> Coll fill(const std::vector<i64>& keys) { Coll c(keys.begin(), keys.end()); return c; }

template<typename... S, typename Hyb, typename Coll, typename... Args>
void one_call(List<S...> list, const Hyb& hybrid, const std::vector<int>& states, Coll& coll, bool iterators, bool desc, const char* what, Args... args)
{
    using It = decltype(std::begin(coll));
    std::vector<i64> keys;
    for (auto it = std::begin(coll); it != std::end(coll); ++it) keys.push_back((i64)*it);
    const int ids[] = {S::id...};
    auto verify = [&](Res r, int k) {
        int want = ids[k];
        std::size_t n = keys.size();
        if (want >= 100) want += (int)n;
        PBT_CHECK(r.id == want, "%s: sorter %d was called instead of sorter %d", what, r.id, want);
        const bool st[] = {!std::is_empty<S>::value...};
        PBT_CHECK(r.state == (st[k] ? states[k] : -1), "%s: sorter %d called with the state %d instead of %d", what, r.id, r.state, states[k]);
        PBT_CHECK(r.n == n, "%s: wrong size", what);
        expect_sorted(coll, keys, [&](i64 a, i64 b) { return desc ? b < a : a < b; }, what);
    };
    calls = 0;
    if (iterators) {
        constexpr int k = pick<It>(list, (void (*)(It, It, Args...))nullptr);
        constexpr bool can = CanCall<const Hyb&, It, It, Args...>::value;
        PBT_CHECK(can == (k >= 0), "%s: iterators %s while a suitable sorter %s", what, can ? "accepted" : "refused", k >= 0 ? "exists" : "does not exist");
        if constexpr (can && k >= 0) {
            const bool stable[] = {cs::is_stable<S(It, It, Args...)>::value...};
            PBT_CHECK((cs::is_stable<Hyb(It, It, Args...)>::value == stable[k]), "%s: is_stable is not that of the sorter called", what);
            verify(hybrid(std::begin(coll), std::end(coll), args...), k);
        }
    } else {
        constexpr int k = pick<It>(list, (void (*)(Coll&, Args...))nullptr);
        constexpr bool can = CanCall<const Hyb&, Coll&, Args...>::value;
        PBT_CHECK(can == (k >= 0), "%s: range %s while a suitable sorter %s", what, can ? "accepted" : "refused", k >= 0 ? "exists" : "does not exist");
        if constexpr (can && k >= 0) {
            const bool stable[] = {cs::is_stable<S(Coll&, Args...)>::value...};
            PBT_CHECK((cs::is_stable<Hyb(Coll&, Args...)>::value == stable[k]), "%s: is_stable is not that of the sorter called", what);
            verify(hybrid(coll, args...), k);
        }
    }
    PBT_CHECK(calls <= 1, "%s: several sorters called", what);
}

template<typename T, typename L, typename Hyb>
void with_coll(L list, const Hyb& h, const std::vector<int>& states, const std::vector<i64>& keys, int coll, int form, bool iterators, const char* what)
{
    auto forms = [&](auto& c) {
        switch (form) {
            case 0: one_call(list, h, states, c, iterators, false, what); break;
            case 1: one_call(list, h, states, c, iterators, true, what, std::greater<>{}); break;
            case 2: one_call(list, h, states, c, iterators, true, what, Neg{}); break;
            default: one_call(list, h, states, c, iterators, false, what, std::greater<>{}, Neg{}); break;
        }
    };
    switch (coll) {
        case 0: { std::forward_list<T> c(keys.begin(), keys.end()); forms(c); break; }
        case 1: { std::list<T> c(keys.begin(), keys.end()); forms(c); break; }
        case 2: { std::vector<T> c(keys.begin(), keys.end()); forms(c); break; }
        case 3: { std::array<T, 5> c{}; for (std::size_t i = 0; i < 5 && i < keys.size(); ++i) c[i] = (T)keys[i]; forms(c); break; }
        case 4: { std::array<T, 6> c{}; for (std::size_t i = 0; i < 6 && i < keys.size(); ++i) c[i] = (T)keys[i]; forms(c); break; }
        default: { T c[7] = {}; for (std::size_t i = 0; i < 7 && i < keys.size(); ++i) c[i] = (T)keys[i]; forms(c); break; }
    }
}

std::vector<i64> small_keys(Src& src)
{
    auto keys = gen::keys(src, 40);
    for (auto& k: keys) k %= 1 << 20;
    src.note_seq("keys", keys);
    return keys;
}

template<typename L, typename Hyb>
void t_hybrid(Src& src, const char* name, L list, Hyb (*make)(const std::vector<int>&))
{
    int coll = (int)src.below(6), form = (int)src.below(4), type = (int)src.below(2);
    bool iterators = src.below(2), copy = src.below(2);
    std::vector<int> states;
    for (int i = 0; i < 5; ++i) states.push_back((int)src.below(1000));
    auto keys = small_keys(src);
    src.note("%s collection %d form %d type %d iterators %d ", name, coll, form, type, (int)iterators);
    src.nontrivial_if(true);
    Hyb h = make(states);
    if (copy) { Hyb other = make({0, 0, 0, 0, 0}); other = h; Hyb third(other); h = std::move(third); }
    if (type) with_coll<double>(list, h, states, keys, coll, form, iterators, name);
    else with_coll<int>(list, h, states, keys, coll, form, iterators, name);
}

// hybrids number H: 2 to 5 sorters, in one of several nestings
template<int H>
struct Config
{
    template<int I> using S = Slot<H, I>;
    static constexpr int layout = H % 6;
    static auto make(const std::vector<int>& s)
    {
        if constexpr (layout == 0) return cs::hybrid_adapter<S<0>, S<1>, S<2>>(S<0>(s[0]), S<1>(s[1]), S<2>(s[2]));
        else if constexpr (layout == 1) {
            using In = cs::hybrid_adapter<S<1>, S<2>>;
            return cs::hybrid_adapter<S<0>, In, S<3>>(S<0>(s[0]), In(S<1>(s[1]), S<2>(s[2])), S<3>(s[3]));
        }
        else if constexpr (layout == 2) return cs::hybrid_adapter<S<0>, S<1>, S<2>, S<3>, S<4>>(S<0>(s[0]), S<1>(s[1]), S<2>(s[2]), S<3>(s[3]), S<4>(s[4]));
        else if constexpr (layout == 3) {
            using A = cs::hybrid_adapter<S<0>, S<1>>;
            using B = cs::hybrid_adapter<S<3>, S<4>>;
            using C = cs::hybrid_adapter<S<2>, B>;
            return cs::hybrid_adapter<A, C>(A(S<0>(s[0]), S<1>(s[1])), C(S<2>(s[2]), B(S<3>(s[3]), S<4>(s[4]))));
        }
        else if constexpr (layout == 4) return cs::hybrid_adapter<S<0>, S<1>>(S<0>(s[0]), S<1>(s[1]));
        else {
            using A = cs::hybrid_adapter<S<0>, S<1>, S<2>>;
            return cs::hybrid_adapter<A, S<3>>(A(S<0>(s[0]), S<1>(s[1]), S<2>(s[2])), S<3>(s[3]));
        }
    }
    static auto list()
    {
        if constexpr (layout == 0) return List<S<0>, S<1>, S<2>>{};
        else if constexpr (layout == 1 || layout == 5) return List<S<0>, S<1>, S<2>, S<3>>{};
        else if constexpr (layout == 2 || layout == 3) return List<S<0>, S<1>, S<2>, S<3>, S<4>>{};
        else return List<S<0>, S<1>>{};
    }
    using type = decltype(make({}));
};

template<typename Hyb, typename... S>
void check_traits(List<S...>)
{
    const int ranks[] = {S::rank...};
    int weakest = 2;
    for (int r: ranks) weakest = std::min(weakest, r);
    using C = cs::iterator_category<Hyb>;
    int rank = std::is_same<C, std::random_access_iterator_tag>::value ? 2 : std::is_same<C, std::bidirectional_iterator_tag>::value ? 1 : 0;
    PBT_CHECK(rank == weakest, "iterator_category is %d, the weakest one is %d", rank, weakest);
    bool all = (cs::is_always_stable_v<S> && ...);
    PBT_CHECK(cs::is_always_stable_v<Hyb> == all, "is_always_stable is not the conjunction of those of the sorters");
}

template<int H>
void add_hybrid()
{
    static std::string name = "hybrid " + std::to_string(H);
    pbt::add_test(name.c_str(), 1500, 20000, [](Src& src) {
        auto list = Config<H>::list();
        check_traits<typename Config<H>::type>(list);
        t_hybrid<decltype(list), typename Config<H>::type>(src, name.c_str(), list, &Config<H>::make);
    });
}
template<int... H> void add_hybrids(std::integer_sequence<int, H...>) { (add_hybrid<PART + H * NPARTS>(), ...); }

////////////////////////////////////////////////////////////
// Adapters around a stateful sorter: its state is used and its result returned

constexpr int kind = PART + (__cplusplus >= 201703L);
using L0 = P<50, 0, 0, true, kind % 4>;       // forward iterators, with a state
using E0 = P<52, 0, 0, false>;      // without
using R0 = P<53, 2, 0, true, (kind + 1) % 4>;       // random-access only

struct Mover { int v = 0; Mover() = default; Mover(int x): v(x) {} Mover(Mover&& o) noexcept: v(o.v) { o.v = -1; } Mover& operator=(Mover&& o) noexcept { v = o.v; if (&o != this) o.v = -1; return *this; } };

template<typename Coll, typename Key>
void expect(const Coll& c, const std::vector<i64>& keys, bool desc, Key key, const char* what)
{
    std::vector<i64> now;
    for (auto& x: c) now.push_back(key(x));
    for (std::size_t i = 1; i < now.size(); ++i) PBT_CHECK(desc ? now[i - 1] >= now[i] : now[i - 1] <= now[i], "%s: not sorted", what);
    auto w = keys;
    std::sort(now.begin(), now.end()); std::sort(w.begin(), w.end());
    PBT_CHECK(now == w, "%s: contents changed", what);
}

template<typename R> int state_of(const R&) { return -2; }
inline int state_of(const Res& r) { return r.state; }
inline std::size_t size_of_result(const Res& r) { return r.n; }

// Result: 0 the result of the sorter, 1 another result (counts), 2 nothing
template<int Result, bool Ra, typename A>
void t_stack(Src& src, const char* name, A (*make)(int))
{
    int state = 1 + (int)src.below(100000), coll = (int)src.below(Ra ? 2 : 4), form = (int)src.below(4);
    bool iterators = src.below(2), copy = src.below(2), maker_const = src.below(2);
    auto keys = small_keys(src);
    src.note("%s collection %d form %d iterators %d state %d ", name, coll, form, (int)iterators, state);
    src.nontrivial_if(keys.size() > 1);
    A a = make(state);
    if (copy) { A b = make(0); b = a; A c(std::move(b)); a = c; }
    const A& ca = a;
    calls = 0; last_state = -5;
    auto go = [&](auto& c) {
        auto proj = [](const Mover& m) { return m.v; };
        auto cmp = [](const Mover& a, const Mover& b) { return a.v > b.v; };
        auto run = [&](auto&&... args) {
            auto call = [&](auto& s) -> decltype(auto) {
                if constexpr (sizeof...(args) == 1) { if (iterators) return s(std::begin(c), std::end(c), args...); return s(c, args...); }
                else { if (iterators) return s(std::begin(c), std::end(c), args...); return s(c, args...); }
            };
            if constexpr (Result == 0) {
                Res r = maker_const ? call(ca) : call(a);
                PBT_CHECK(r.state == state, "%s: result with the state %d instead of %d", name, r.state, state);
                PBT_CHECK(r.n == keys.size(), "%s: result for %zu elements", name, r.n);
                PBT_CHECK(calls == 1, "%s: %d calls of the sorter", name, calls);
            } else {
                if (maker_const) call(ca); else call(a);
                if (Result == 1) PBT_CHECK(calls == 1, "%s: %d calls of the sorter", name, calls);
            }
            PBT_CHECK(calls == 0 || last_state == state, "%s: the sorter was called with the state %d instead of %d", name, last_state, state);
        };
        switch (form) {
            case 0: run(proj); break;
            case 1: run(cmp); break;
            case 2: run(std::greater<>{}, proj); break;
            default: run(std::greater<>{}, &Mover::v); break;
        }
        expect(c, keys, form != 0, [](const Mover& m) { return (i64)m.v; }, name);
    };
    auto filled = [&](auto& c) { for (auto k: keys) c.emplace_back((int)k); };
    switch (coll) {
        case 0: { std::vector<Mover> c; filled(c); go(c); break; }
        case 1: { std::deque<Mover> c; filled(c); go(c); break; }
        case 2: if constexpr (!Ra) { std::list<Mover> c; filled(c); go(c); } break;
        default: if constexpr (!Ra) { std::forward_list<Mover> c; for (auto it = keys.rbegin(); it != keys.rend(); ++it) c.emplace_front((int)*it); go(c); } break;
    }
}

template<int I, int Result, bool Ra, typename A>
void add_stack(const char* name, A (*make)(int))
{
    if constexpr (I % NPARTS == PART)
        pbt::add_test(name, 1500, 20000, [=](Src& s) { t_stack<Result, Ra, A>(s, name, make); });
}

////////////////////////////////////////////////////////////
// self_sort_adapter: containers with every combination of sort and stable_sort methods

// Mask: 1 sort(), 2 sort(compare), 4 sort(compare, projection), 8 stable_sort(), 16 stable_sort(compare), 32 stable_sort(compare, projection)
template<int Mask>
struct Own
{
    std::vector<int> v;
    auto begin() { return v.begin(); }
    auto end() { return v.end(); }
    template<typename C> static constexpr bool cmp = CanCallR<bool, C&, int, int>::value;
    template<int M = Mask, std::enable_if_t<(M & 1) != 0, int> = 0> Res sort() { return exchange_sort(begin(), end(), std::less<>{}, cs::utility::identity{}, 1, 0); }
    template<typename C, int M = Mask, std::enable_if_t<(M & 2) != 0 && cmp<C>, int> = 0> Res sort(C c) { return exchange_sort(begin(), end(), c, cs::utility::identity{}, 2, 0); }
    template<typename C, typename Pr, int M = Mask, std::enable_if_t<(M & 4) != 0 && cmp<C>, int> = 0> Res sort(C c, Pr p) { return exchange_sort(begin(), end(), c, p, 4, 0); }
    template<int M = Mask, std::enable_if_t<(M & 8) != 0, int> = 0> Res stable_sort() { return exchange_sort(begin(), end(), std::less<>{}, cs::utility::identity{}, 8, 0); }
    template<typename C, int M = Mask, std::enable_if_t<(M & 16) != 0 && cmp<C>, int> = 0> Res stable_sort(C c) { return exchange_sort(begin(), end(), c, cs::utility::identity{}, 16, 0); }
    template<typename C, typename Pr, int M = Mask, std::enable_if_t<(M & 32) != 0 && cmp<C>, int> = 0> Res stable_sort(C c, Pr p) { return exchange_sort(begin(), end(), c, p, 32, 0); }
};

template<int Mask>
void t_self(Src& src)
{
    int state = 1 + (int)src.below(1000), form = (int)src.below(4);
    bool iterators = src.below(2), stable = src.below(2), temporary = src.below(3) == 0;
    auto keys = small_keys(src);
    src.note("methods %d form %d iterators %d stable %d temporary %d ", Mask, form, (int)iterators, (int)stable, (int)temporary);
    src.nontrivial_if(keys.size() > 1);
    Own<Mask> c;
    for (auto k: keys) c.v.push_back((int)k);
    int arity = form == 0 ? 0 : form == 3 ? 2 : 1;
    bool projection_only = form == 2;
    int want = 50;
    if (!iterators && !projection_only) {
        if (!stable && (Mask & (1 << arity))) want = 1 << arity;
        else if (Mask & (8 << arity)) want = 8 << arity;
    }
    auto call = [&](auto const& s, auto... args) -> Res {
        if (iterators) return s(c.begin(), c.end(), args...);
        if (temporary) {
            Own<Mask> d{c.v};
            Res r = s(std::move(d), args...);
            c.v = d.v;
            return r;
        }
        return s(c, args...);
    };
    auto all = [&](auto const& s) -> Res {
        switch (form) {
            case 0: return call(s);
            case 1: return call(s, std::greater<>{});
            case 2: return call(s, Neg{});
            default: return call(s, std::greater<>{}, Neg{});
        }
    };
    cs::self_sort_adapter<L0> plain{L0(state)};
    calls = 0;
    Res r = stable ? all(cs::stable_adapter<cs::self_sort_adapter<L0>>(plain)) : all(plain);
    PBT_CHECK(r.id == want, "function %d called instead of %d", r.id, want);
    PBT_CHECK(r.state == (want == 50 ? state : 0), "state lost: %d", r.state);
    PBT_CHECK(r.n == keys.size() && calls == 1, "%d calls", calls);
    bool desc = form == 1 || form == 2;
    expect_sorted(c.v, keys, [&](i64 a, i64 b) { return desc ? b < a : a < b; }, "self_sort");
}
template<int... M> void add_selfs(std::integer_sequence<int, M...>)
{
    static std::vector<std::string> names;
    names.reserve(64);
    auto one = [&](auto m) {
        constexpr int mask = decltype(m)::value;
        names.push_back("self_sort, methods " + std::to_string(mask));
        pbt::add_test(names.back().c_str(), 400, 5000, t_self<mask>);
    };
    (one(std::integral_constant<int, PART + M * NPARTS>{}), ...);
}

// the sort method of lists: same nodes, equivalent elements in their order, no sorter called
template<typename Coll>
void t_list(Src& src, const char* name)
{
    int form = (int)src.below(4), mode = (int)src.below(4);
    auto keys = gen::keys(src, 300);
    for (auto& k: keys) k = k % 50;
    src.note("%s form %d mode %d ", name, form, mode);
    src.note_seq("keys", keys);
    src.nontrivial_if(!gen::is_sorted_keys(keys));
    struct E { int v, i; bool operator<(const E& o) const { return v < o.v; } };
    Coll c;
    for (std::size_t i = keys.size(); i-- > 0;) c.push_front(typename Coll::value_type{(int)keys[i], (int)i});
    std::vector<const void*> where(keys.size());
    for (auto& x: c) where[x.i] = &x;
    calls = 0;
    using S = cs::self_sort_adapter<L0>;
    auto run = [&](auto const& s) {
        if (form & 1) s(c, [](const auto& a, const auto& b) { return b.v < a.v; });
        else s(c);
    };
    bool called = false;
    switch (mode) {
        case 0: run(S{L0(3)}); break;
        case 1: run(cs::stable_adapter<S>(S{L0(3)})); break;
        case 2: run(cs::hybrid_adapter<S, cs::self_sort_adapter<R0>>(S{L0(3)}, cs::self_sort_adapter<R0>{R0(2)})); break;
        default: run(cs::stable_t<S>(S{L0(3)})); break;
    }
    PBT_CHECK(calls == 0, "%s: the adapted sorter was called", name);
    (void)called;
    std::size_t n = 0;
    const typename Coll::value_type* last = nullptr;
    for (auto& x: c) {
        PBT_CHECK(where[x.i] == &x, "%s: elements moved", name);
        if (last) {
            bool ok = (form & 1) ? last->v > x.v || (last->v == x.v && last->i < x.i) : last->v < x.v || (last->v == x.v && last->i < x.i);
            PBT_CHECK(ok, "%s: not stably sorted", name);
        }
        last = &x;
        ++n;
    }
    PBT_CHECK(n == keys.size(), "%s: size changed", name);
}
struct LE { int v, i; bool operator<(const LE& o) const { return v < o.v; } };

#ifndef HYBRIDS
#define HYBRIDS 6
#endif

void register_tests()
{
    add_hybrids(std::make_integer_sequence<int, HYBRIDS>{});
    add_selfs(std::make_integer_sequence<int, 64 / NPARTS>{});
    if (PART == 0) pbt::add_test("self_sort of std::list", 2000, 40000, [](Src& s) { t_list<std::list<LE>>(s, "std::list"); });
    if (PART == 1 % NPARTS) pbt::add_test("self_sort of std::forward_list", 2000, 40000, [](Src& s) { t_list<std::forward_list<LE>>(s, "std::forward_list"); });

    enum { base = __COUNTER__ };
    using namespace cs;
#if __cplusplus >= 201703L
#define FORWARDS 0
#else
#define FORWARDS 1      // indirect_adapter and out_of_place_adapter only return results in C++17 mode
#endif
#define STACK(result, ra, expr, ...) add_stack<__COUNTER__ - base - 1, result, ra, __VA_ARGS__>(#__VA_ARGS__, +[](int s) -> __VA_ARGS__ { return __VA_ARGS__(expr); });
    STACK(FORWARDS, false, L0(s), indirect_adapter<L0>)
    STACK(FORWARDS, false, L0(s), out_of_place_adapter<L0>)
    STACK(0, false, L0(s), schwartz_adapter<L0>)
    STACK(0, true, L0(s), self_sort_adapter<L0>)
    STACK(0, false, L0(s), stable_adapter<L0>)
    STACK(0, false, L0(s), make_stable<L0>)
    STACK(0, false, L0(s), stable_t<L0>)
    STACK(0, true, R0(s), stable_adapter<R0>)
    STACK(FORWARDS, false, R0(s), out_of_place_adapter<R0>)
    STACK(FORWARDS, false, R0(s), indirect_adapter<R0>)
    STACK(0, false, L0(s), container_aware_adapter<L0>)
    STACK(1, false, L0(s), counting_adapter<L0>)
    STACK(1, false, L0(s), metrics::comparisons<L0>)
    STACK(1, false, L0(s), metrics::projections<L0>)
    STACK(1, false, L0(s), metrics::running_time<L0>)
    STACK(2, true, L0(s), drop_merge_adapter<L0>)
    STACK(2, true, R0(s), drop_merge_adapter<R0>)
    STACK(2, true, L0(s), split_adapter<L0>)
    STACK(2, true, L0(s), verge_adapter<L0>)
    STACK(2, true, R0(s), verge_adapter<R0>)
    STACK(2, true, verge_adapter<L0>(L0(s)), stable_adapter<verge_adapter<L0>>)
    STACK(FORWARDS, false, out_of_place_adapter<L0>(L0(s)), indirect_adapter<out_of_place_adapter<L0>>)
    STACK(FORWARDS, false, indirect_adapter<L0>(L0(s)), schwartz_adapter<indirect_adapter<L0>>)
    STACK(FORWARDS, false, indirect_adapter<L0>(L0(s)), stable_adapter<indirect_adapter<L0>>)
    STACK(0, false, stable_adapter<L0>(L0(s)), schwartz_adapter<stable_adapter<L0>>)
    STACK(FORWARDS, false, self_sort_adapter<L0>(L0(s)), out_of_place_adapter<self_sort_adapter<L0>>)
    STACK(1, false, indirect_adapter<L0>(L0(s)), counting_adapter<indirect_adapter<L0>>)
    STACK(0, false, stable_adapter<L0>(L0(s)), stable_adapter<stable_adapter<L0>>)
    STACK(0, false, (hybrid_adapter<R0, L0>(R0(s), L0(s))), stable_adapter<hybrid_adapter<R0, L0>>)
    STACK(FORWARDS, false, (hybrid_adapter<L0, R0>(L0(s), R0(s))), out_of_place_adapter<hybrid_adapter<L0, R0>>)
    STACK(0, false, (hybrid_adapter<L0, R0>(L0(s), R0(s))), schwartz_adapter<hybrid_adapter<L0, R0>>)
    STACK(0, true, (hybrid_adapter<L0, R0>(L0(s), R0(s))), self_sort_adapter<hybrid_adapter<L0, R0>>)
#undef STACK
}
