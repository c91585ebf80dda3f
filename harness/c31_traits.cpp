// C31: the traits of the library and the overload resolution of its sorters agree with what can be called:
// calls whose functions fit the elements are accepted and sort; the traits are false for the other ones, without an error.
#include "sortcheck.h"
#include <deque>
#include <string>
#include <cpp-sort/comparators/natural_less.h>
#include <cpp-sort/comparators/total_less.h>
#include <cpp-sort/probes.h>
#include <cpp-sort/sorter_traits.h>

using namespace sc;
namespace cs = cppsort;

////////////////////////////////////////////////////////////
// Types of elements

struct Bare { int key, id; };                                   // no order
struct Ord { int key, id; friend bool operator<(const Ord& a, const Ord& b) { return a.key < b.key; }
                          friend bool operator>(const Ord& a, const Ord& b) { return a.key > b.key; } };
struct Hold { Bare b; int key, id; int rank() const { return key; } };   // members with and without an order
struct Mov { int key, id; Mov(int k, int i): key(k), id(i) {} Mov(Mov&&) = default; Mov& operator=(Mov&&) = default; const Bare bare() const { return {key, id}; } };

template<typename T> struct Make { static T make(int k, int i) { return T{k, i}; } static int key(const T& e) { return e.key; } };
template<> struct Make<Hold> { static Hold make(int k, int i) { return Hold{{k, i}, k, i}; } static int key(const Hold& e) { return e.key; } };
template<> struct Make<int> { static int make(int k, int) { return k; } static int key(int e) { return e; } };
template<> struct Make<std::string> { static std::string make(int k, int) { char b[24]; snprintf(b, sizeof b, "s%010lld", k + 3000000000ll); return b; }
                                      static int key(const std::string& s) { return (int)(std::atoll(s.c_str() + 1) - 3000000000ll); } };

////////////////////////////////////////////////////////////
// Functions. dir: 1 ascending, -1 descending; 0: for a projection

struct CmpInt { bool operator()(int a, int b) const { return a < b; } };                    // integers only
struct CmpIntDown { bool operator()(int a, int b) const { return a > b; } };
struct CmpBare { bool operator()(const Bare& a, const Bare& b) const { return a.key > b.key; } };
struct CmpAny { template<typename T> auto operator()(const T& a, const T& b) const -> decltype(a.key < b.key) { return a.key < b.key; } };
struct CmpStr { bool operator()(const std::string& a, const std::string& b) const { return a > b; } };
struct CmpLval { bool operator()(Ord& a, Ord& b) const { return a.key < b.key; } };       // modifiable elements only
struct CmpVoid { void operator()(int, int) const {} };                                      // not a comparison
struct KeyOf { template<typename T> auto operator()(const T& e) const -> decltype(+e.key) { return e.key; } };
struct NegKey { template<typename T> auto operator()(const T& e) const -> decltype(-e.key) { return ~e.key; } };
struct BareOf { Bare operator()(const Hold& h) const { return h.b; } Bare operator()(const Mov& m) const { return m.bare(); } };
struct StrOf { template<typename T> auto operator()(const T& e) const -> decltype(std::to_string(e.key)) { return Make<std::string>::make(e.key, 0); } };
struct Size { std::size_t operator()(const std::string& s) const { return (std::size_t)(unsigned)(Make<std::string>::key(s)) ^ 0x80000000u; } };
struct Both { bool operator()(int a, int b) const { return a < b; } int operator()(int a) const { return -a; } };   // comparison and projection
struct Nothing {};

// What F does with the order of the keys, when it is accepted
template<typename F> struct Dir { enum { v = 1 }; };
template<> struct Dir<CmpIntDown> { enum { v = -1 }; };
template<> struct Dir<CmpBare> { enum { v = -1 }; };
template<> struct Dir<CmpStr> { enum { v = -1 }; };
template<> struct Dir<std::greater<>> { enum { v = -1 }; };
template<> struct Dir<NegKey> { enum { v = -1 }; };

////////////////////////////////////////////////////////////
// Model: what a call needs, from the language alone

template<typename...> using void_ = void;
template<typename, typename F, typename... A> struct can_: std::false_type {};
template<typename F, typename... A> struct can_<void_<decltype(std::declval<F&>()(std::declval<A>()...))>, F, A...>: std::true_type {};
template<typename F, typename T> struct is_member: std::false_type {};
template<typename M, typename C, typename T> struct is_member<M C::*, T>: std::is_base_of<C, std::decay_t<T>> {};
// projection of T&
template<typename P, typename T, typename = void> struct Projected { static constexpr bool ok = false; };
template<typename P, typename T> struct Projected<P, T, void_<decltype(std::declval<P&>()(std::declval<T>()))>> { static constexpr bool ok = true; using type = decltype(std::declval<P&>()(std::declval<T>())); };
template<typename P, typename T> struct Projected<P, T, std::enable_if_t<is_member<P, T>::value && std::is_member_object_pointer<P>::value>> { static constexpr bool ok = true; using type = decltype(std::declval<T>().*std::declval<P>()); };
template<typename P, typename T> struct Projected<P, T, std::enable_if_t<is_member<P, T>::value && std::is_member_function_pointer<P>::value>> { static constexpr bool ok = true; using type = decltype((std::declval<T>().*std::declval<P>())()); };
template<typename C, typename T> constexpr bool compares() { return can_<void, C, T, T>::value; }
template<typename C, typename P, typename T, bool = Projected<P, T>::ok> struct Pair_ { static constexpr bool v = false; };
template<typename C, typename P, typename T> struct Pair_<C, P, T, true> { static constexpr bool v = compares<C, typename Projected<P, T>::type>(); };
template<typename C, typename P, typename T> constexpr bool fits() { return Pair_<C, P, T>::v; }

////////////////////////////////////////////////////////////
// One combination of functions for one sorter and one container

template<typename S, typename Cont, typename... Fs> struct Combo;
template<typename S, typename Cont>
struct Combo<S, Cont>
{
    using T = typename Cont::value_type&;
    using It = typename Cont::iterator;
    static constexpr bool want = compares<std::less<>, T>();
    static bool agrees() { return !want || (cs::is_sorter_v<S, Cont> && cs::is_sorter_iterator_v<S, It> && cs::is_sorter<S, Cont>::value); }
    static constexpr int dir = 1;
};
template<typename S, typename Cont, typename F>
struct Combo<S, Cont, F>
{
    using T = typename Cont::value_type&;
    using It = typename Cont::iterator;
    static constexpr bool cmp = compares<F, T>(), proj = fits<std::less<>, F, T>();
    static constexpr bool want = cmp || proj;
    static bool agrees()
    {
        return cs::is_comparison_sorter_v<S, Cont, F> == cmp && cs::is_comparison_sorter_iterator_v<S, It, F> == cmp
            && cs::is_projection_sorter_v<S, Cont, F> == proj && cs::is_projection_sorter_iterator_v<S, It, F> == proj
            && cs::is_projection_v<F, Cont> == proj && cs::is_projection_iterator_v<F, It> == proj;
    }
    static constexpr int dir = Dir<F>::v;
};
template<typename S, typename Cont, typename C, typename P>
struct Combo<S, Cont, C, P>
{
    using T = typename Cont::value_type&;
    using It = typename Cont::iterator;
    static constexpr bool want = fits<C, P, T>();
    static bool agrees()
    {
        return cs::is_comparison_projection_sorter_v<S, Cont, C, P> == want && cs::is_comparison_projection_sorter_iterator_v<S, It, C, P> == want
            && cs::is_projection_v<P, Cont, C> == want && cs::is_projection_iterator_v<P, It, C> == want;
    }
    static constexpr int dir = Dir<C>::v * Dir<P>::v;
};
template<typename S, typename Cont, typename A, typename B, typename C>
struct Combo<S, Cont, A, B, C>
{
    static constexpr bool want = false;
    static bool agrees() { return true; }
    static constexpr int dir = 1;
};
template<typename F> F value_of() { return F{}; }
template<> int Hold::*value_of<int Hold::*>() { return &Hold::key; }
template<> Bare Hold::*value_of<Bare Hold::*>() { return &Hold::b; }
template<> int Bare::*value_of<int Bare::*>() { return &Bare::key; }
template<> int Ord::*value_of<int Ord::*>() { return &Ord::key; }
template<> int Mov::*value_of<int Mov::*>() { return &Mov::key; }
using Rank = int (Hold::*)() const;
template<> Rank value_of<Rank>() { return &Hold::rank; }

template<bool Call, typename S, typename Cont, typename... Fs>
bool one(Src& src, const char* name, const char* what, const std::vector<int>& keys, bool call)
{
    using K = Combo<S, Cont, Fs...>;
    using It = typename Cont::iterator;
    constexpr bool r = cs::detail::is_invocable<const S&, Cont&, Fs...>::value;
    constexpr bool i = cs::detail::is_invocable<const S&, It, It, Fs...>::value;
    constexpr bool t = cs::detail::is_invocable<const S&, Cont, Fs...>::value;
    PBT_CHECK(r || !K::want, "%s: sorting a range with %s is rejected", name, what);
    PBT_CHECK(i || !K::want, "%s: sorting iterators with %s is rejected", name, what);
    PBT_CHECK(t || !K::want, "%s: sorting a temporary range with %s is rejected", name, what);
    PBT_CHECK(K::agrees(), "%s: the traits of the sorter are wrong for %s", name, what);
    if constexpr (Call && K::want && r && i) {
        if (!call) return true;
        using V = typename Cont::value_type;
        Cont c;
        for (std::size_t k = 0; k < keys.size(); ++k) c.push_back(Make<V>::make(keys[k], (int)k));
        const S s{};
        int form = (int)src.below(2);
        src.note("call %s form %d ", what, form);
        if (form) s(c, value_of<Fs>()...); else s(c.begin(), c.end(), value_of<Fs>()...);
        auto sorted = keys;
        std::sort(sorted.begin(), sorted.end());
        if (K::dir < 0) std::reverse(sorted.begin(), sorted.end());
        std::size_t k = 0;
        for (auto& e: c) { PBT_CHECK(k < sorted.size() && Make<V>::key(e) == sorted[k], "%s with %s: wrong element in position %zu", name, what, k); ++k; }
        PBT_CHECK(k == sorted.size(), "%s with %s: elements lost", name, what);
        return true;
    } else return false;
}

template<typename... Fs> struct L {};
template<bool Call, typename S, typename Cont, typename... Fs> bool row(Src& src, const char* name, const char* what, const std::vector<int>& keys, bool call, L<Fs...>)
{
    return one<Call, S, Cont, Fs...>(src, name, what, keys, call);
}

template<typename S, typename Cont>
void t_calls(Src& src, const char* name)
{
    std::vector<int> keys = td::to_int(gen::keys(src, 70));
    for (auto& k: keys) if (k == std::numeric_limits<int>::min()) k = 0;
    src.note_seq("keys", keys);
    src.nontrivial_if(keys.size() >= 3 && !std::is_sorted(keys.begin(), keys.end()));
    // everything is checked, one of the accepted calls is made
    int pick = (int)src.below(64);
    int accepted = 0;
    auto each = [&](bool make_call) {
        int k = 0;
#define R_(CALL, ...) if (row<CALL, S, Cont>(src, name, #__VA_ARGS__, keys, make_call && k == pick % accepted, L<__VA_ARGS__>{})) ++k;
#define R(...) R_(false, __VA_ARGS__)
#define C(...) R_(true, __VA_ARGS__)    // called too, when accepted
        C() R(std::less<>) C(std::greater<>) R(CmpInt) R(CmpIntDown) C(CmpBare) R(CmpAny) R(CmpStr) R(CmpLval)
        R(KeyOf) C(NegKey) R(BareOf) R(StrOf) R(Size) C(int Hold::*) R(Bare Hold::*) R(int Bare::*) R(int Ord::*) R(int Mov::*) R(Rank) R(su::identity)
        R(Both) R(Nothing) R(cs::total_less_t)
        R(std::less<>, KeyOf) R(std::greater<>, NegKey) R(CmpInt, KeyOf) R(CmpIntDown, int Hold::*) C(CmpBare, Bare Hold::*) R(CmpBare, BareOf) C(CmpStr, StrOf)
        R(CmpAny, BareOf) R(CmpInt, StrOf) R(CmpStr, KeyOf) R(CmpBare, KeyOf) R(std::less<>, BareOf) R(CmpLval, su::identity) C(CmpIntDown, su::identity) R(CmpIntDown, Rank)
        R(KeyOf, std::less<>) R(KeyOf, KeyOf) R(std::less<>, std::less<>) R(Nothing, KeyOf) R(std::less<>, Nothing) R(std::less<>, int Bare::*)
        R(std::less<>, KeyOf, KeyOf) R(Nothing, Nothing, Nothing)
#undef R_
#undef C
#undef R
        return k;
    };
    accepted = 1;
    accepted = each(false);
    PBT_CHECK(accepted > 0, "%s: nothing is accepted", name);
    each(true);
}

template<int I, typename S, typename Cat, bool D, bool Quad>
void maybe(const char* name)
{
    if constexpr (I % NPARTS == PART) {
        std::string n = name;
        constexpr int k = I / NPARTS % 4;
        pbt::add_test(n + "/members", 500, 8000, [=](Src& s) { t_calls<S, std::conditional_t<!D && std::is_base_of<Cat, bi_tag>::value && k % 2, std::list<Hold>, std::vector<Hold>>>(s, name); });
        if constexpr (k == 0) pbt::add_test(n + "/int", 500, 8000, [=](Src& s) { t_calls<S, std::vector<int>>(s, name); });
        else if constexpr (k == 1) pbt::add_test(n + "/no order", 500, 8000, [=](Src& s) { t_calls<S, std::vector<Bare>>(s, name); });
        else if constexpr (k == 2) pbt::add_test(n + "/ordered", 500, 8000, [=](Src& s) { t_calls<S, std::deque<Ord>>(s, name); });
        else pbt::add_test(n + "/strings", 500, 8000, [=](Src& s) { t_calls<S, std::deque<std::string>>(s, name); });
    }
}

void register_tests()
{
    enum { base = __COUNTER__ };
#define X(NAME, TYPE, CAT, STABLE, QUAD) maybe<__COUNTER__ - base - 1, TYPE, CAT, false, QUAD>(NAME);
    COMPARISON_SORTERS(X)
#undef X
#define X(NAME, TYPE, CAT, STABLE, QUAD) maybe<__COUNTER__ - base - 1, TYPE, CAT, true, QUAD>(NAME);
    BUFFERED_SORTERS(X)
#undef X
#define X(NAME, CAT, STABLE, ...) maybe<__COUNTER__ - base - 1, __VA_ARGS__, CAT, false, true>(NAME);
    ADAPTED_SORTERS(X)
#undef X
}
