// C32: sorters do not depend on what the elements are made of: which special member functions are trivial,
// written by the user or deleted, the size and the alignment, greedy constructors, conversions, standard types.
#include "sortcheck.h"
#include <cpp-sort/utility/apply_permutation.h>
#include <any>
#include <array>
#include <complex>
#include <deque>
#include <functional>
#include <optional>
#include <string>
#include <tuple>
#include <unordered_set>
#include <variant>

using namespace sc;
namespace cs = cppsort;

////////////////////////////////////////////////////////////
// Elements whose special members are chosen one by one

enum { NONE, TRIVIAL, USER };
constexpr int POISON = -77777777;

static std::unordered_set<const void*> g_live;
static i64 g_objects = 0;   // of all types with a user-provided destructor

static void check_aligned(const void* p, std::size_t a)
{
    if (reinterpret_cast<std::uintptr_t>(p) % a) pbt::fail("an element is created at an address which is not a multiple of %zu", a);
}

// CC, MC: copy and move constructors, CA, MA: assignments, D: destructor, DEF: default constructor
template<int CC, int MC, int CA, int MA, int D, int DEF, std::size_t Align = alignof(int), std::size_t Pad = 1>
struct alignas(Align) Obj
{
    // the address is followed when everything which could change it is written here
    static constexpr bool follow = (CC != TRIVIAL) && (MC != TRIVIAL) && (CA != TRIVIAL) && (MA != TRIVIAL);
    static constexpr bool registered = D == USER && CC != TRIVIAL && MC != TRIVIAL;
    int key, id;
    const void* self;
    unsigned char pad[Pad];

    void fill() { for (std::size_t i = 0; i < Pad; ++i) pad[i] = (unsigned char)(id * 7 + i); }
    void born()
    {
        check_aligned(this, Align);
        self = this;
        if constexpr (registered) { if (!g_live.insert(this).second) pbt::fail("an element is constructed over one which is alive"); }
        if constexpr (D == USER) ++g_objects;
    }
    void here(const char* what) const
    {
        check_aligned(this, Align);
        if constexpr (follow) { if (self != this) pbt::fail("%s: the element was never constructed at this address", what); }
        if constexpr (registered) { if (!g_live.count(this)) pbt::fail("%s: no element is alive at this address", what); }
    }
    void take(const Obj& o, bool moved)
    {
        key = o.key; id = o.id;
        for (std::size_t i = 0; i < Pad; ++i) pad[i] = o.pad[i];
        if (moved) { const_cast<Obj&>(o).key = POISON; const_cast<Obj&>(o).id = POISON; }
    }

    Obj() requires (DEF == USER): key(POISON), id(POISON) { fill(); born(); }
    Obj() requires (DEF == TRIVIAL) = default;
    Obj(int k, int i): key(k), id(i) { fill(); born(); }

    Obj(const Obj& o) requires (CC == USER) { o.here("copy from"); born(); take(o, false); }
    Obj(const Obj&) requires (CC == TRIVIAL) = default;
    Obj(const Obj&) requires (CC == NONE) = delete;
    Obj(Obj&& o) requires (MC == USER) { o.here("move from"); born(); take(o, true); }
    Obj(Obj&&) requires (MC == TRIVIAL) = default;
    Obj& operator=(const Obj& o) requires (CA == USER) { o.here("copy from"); here("assignment"); if (this != &o) take(o, false); return *this; }
    Obj& operator=(const Obj&) requires (CA == TRIVIAL) = default;
    Obj& operator=(const Obj&) requires (CA == NONE) = delete;
    Obj& operator=(Obj&& o) requires (MA == USER) { o.here("move from"); here("assignment"); take(o, true); return *this; }    // self-moves lose the value
    Obj& operator=(Obj&&) requires (MA == TRIVIAL) = default;
    ~Obj() requires (D == USER)
    {
        here("destruction");
        if constexpr (registered) g_live.erase(this);
        self = nullptr;
        --g_objects;
    }
    ~Obj() requires (D == TRIVIAL) = default;

    int get() const
    {
        here("read");
        if (key == POISON) pbt::fail("an element without value is read");
        return key;
    }
    int rank() const
    {
        for (std::size_t i = 0; i < Pad; ++i) if (pad[i] != (unsigned char)(id * 7 + i)) pbt::fail("byte %zu of an element has changed", i);
        return id;
    }
};

// copies only: no move constructor nor assignment is declared
struct Copied
{
    int key, id; const Copied* self;
    Copied(int k, int i): key(k), id(i), self(this) {}
    Copied(const Copied& o): key(o.get()), id(o.id), self(this) {}
    Copied& operator=(const Copied& o) { if (self != this) pbt::fail("assignment to an element never constructed"); key = o.get(); id = o.id; return *this; }
    ~Copied() { self = nullptr; }
    int get() const { if (self != this) pbt::fail("an element not constructed is read"); return key; }
    int rank() const { return id; }
};
// assignable only as an lvalue, moved only as an rvalue, constructible from anything else, convertible to about anything
struct Greedy final
{
    int key, id; bool wrapped = false;
    Greedy(int k, int i): key(k), id(i) {}
    Greedy(Greedy&& o) noexcept: key(o.key), id(o.id), wrapped(o.wrapped) { o.key = POISON; }
    Greedy& operator=(Greedy&& o) & noexcept { key = o.key; id = o.id; wrapped = o.wrapped; if (&o != this) o.key = POISON; return *this; }
    template<typename T, typename = std::enable_if_t<!std::is_same<std::decay_t<T>, Greedy>::value>>
    Greedy(T&&): key(POISON), id(POISON), wrapped(true) {}
    template<typename T, typename = std::enable_if_t<!std::is_same<std::decay_t<T>, Greedy>::value>>
    Greedy& operator=(T&&) & { wrapped = true; return *this; }
    operator bool() const { return false; }
    int get() const { if (wrapped || key == POISON) pbt::fail("an element has been wrapped in another one, or moved from and read"); return key; }
    int rank() const { return id; }
};
// the order of the type itself is not the one of the sort
struct Misleading
{
    int key, id;
    template<typename T> friend bool operator<(const Misleading&, const T&) { pbt::fail("the operator < of the elements is used instead of the comparison"); }
    template<typename T> friend bool operator>(const Misleading&, const T&) { pbt::fail("the operator > of the elements is used instead of the comparison"); }
    template<typename T> friend bool operator==(const Misleading&, const T&) { pbt::fail("the operator == of the elements is used"); }
    int get() const { return key; }
    int rank() const { return id; }
};
struct Shape
{
    int key, id;
    Shape(int k, int i): key(k), id(i) {}
    Shape(Shape&&) = default;
    Shape& operator=(Shape&&) = default;
    virtual ~Shape() = default;
    virtual int get() const = 0;
    int rank() const { return id; }
};
struct Square: Shape { using Shape::Shape; int get() const override { return key; } };

using O = int;
template<typename T> struct Is { static T make(int k, int i) { return T(k, i); } static int key(const T& e) { return e.get(); } static int id(const T& e) { return e.rank(); } };
template<> struct Is<Misleading> { static Misleading make(int k, int i) { return {k, i}; } static int key(const Misleading& e) { return e.key; } static int id(const Misleading& e) { return e.id; } };

// standard types: key and identifier packed in one number
static i64 pack(int k, int i) { return (i64)k * 4096 + i; }
static int unkey(i64 p) { return (int)(p >> 12); }
static int unid(i64 p) { return (int)(p & 4095); }
template<typename T> struct Std;
template<typename T> struct StdIs
{
    static T make(int k, int i) { return Std<T>::make(pack(k, i)); }
    static int key(const T& e) { return unkey(Std<T>::get(e)); }
    static int id(const T& e) { return unid(Std<T>::get(e)); }
};
static i64 nonnull(const void* p, i64 v) { if (!p) pbt::fail("an empty object is read"); return v; }
#define STD(T, MAKE, GET) template<> struct Std<T> { static T make(i64 p) { return MAKE; } static i64 get(const T& e) { return GET; } }; \
                          template<> struct Is<T>: StdIs<T> {};
using UPtr = std::unique_ptr<i64>;
using SPtr = std::shared_ptr<const i64>;
using Str = std::string;
using Vec = std::vector<i64>;
using Fun = std::function<i64()>;
using Any = std::any;
using Opt = std::optional<i64>;
using Var = std::variant<std::monostate, Str, UPtr>;
using Tup = std::tuple<UPtr, Str>;
using Pai = std::pair<std::any, i64>;
using Arr = std::array<i64, 40>;
using Cpx = std::complex<double>;
using LD = long double;
using Anies = std::vector<std::any>;
enum class Enum: i64 {};
STD(UPtr, UPtr(new i64(p)), (e ? *e : nonnull(nullptr, 0)))
STD(SPtr, SPtr(std::make_shared<i64>(p)), (e ? *e : nonnull(nullptr, 0)))
STD(Str, "a string longer than the small ones " + std::to_string(p), (e.size() > 36 ? std::atoll(e.c_str() + 36) : nonnull(nullptr, 0)))
STD(Vec, Vec(3, p), (e.size() == 3 ? e[1] : nonnull(nullptr, 0)))
STD(Fun, ([p, x = std::string(30, 'x')] { return p; }), (e ? e() : nonnull(nullptr, 0)))
STD(Any, Any(p), (e.type() == typeid(i64) ? std::any_cast<i64>(e) : nonnull(nullptr, 0)))
STD(Opt, Opt(p), (e ? *e : nonnull(nullptr, 0)))
STD(Var, (p & 1 ? Var(std::to_string(p)) : Var(UPtr(new i64(p)))),
    (e.index() == 1 && !std::get<1>(e).empty() ? std::atoll(std::get<1>(e).c_str()) : e.index() == 2 && std::get<2>(e) ? *std::get<2>(e) : nonnull(nullptr, 0)))
STD(Tup, (Tup{UPtr(new i64(p)), std::string(40, 't')}), (std::get<0>(e) && std::get<1>(e).size() == 40 ? *std::get<0>(e) : nonnull(nullptr, 0)))
STD(Pai, (Pai{std::any(std::to_string(p)), p}), (e.first.type() == typeid(std::string) && !std::any_cast<const std::string&>(e.first).empty() ? e.second : nonnull(nullptr, 0)))
STD(Arr, ([p] { Arr a; a.fill(p); return a; }()), (e[0] == e[39] && e[0] == e[20] ? e[7] : nonnull(nullptr, 0)))
STD(Cpx, Cpx((double)p, -(double)p), (e.imag() == -e.real() ? (i64)e.real() : nonnull(nullptr, 0)))
STD(LD, (LD)p + 0.25L, (i64)(e - 0.25L))
STD(Anies, (Anies{std::any(p), std::any(std::to_string(p))}), (e.size() == 2 && e[0].type() == typeid(i64) ? std::any_cast<i64>(e[0]) : nonnull(nullptr, 0)))
STD(Enum, (Enum)p, (i64)e)

////////////////////////////////////////////////////////////
// Checks

template<typename T>
struct Key
{
    int mode = 0;
    int operator()(const T& e) const { td::on_call(); return gen::proj_apply(mode, Is<T>::key(e)); }
};

template<typename C, typename T>
void put(C& c, const std::vector<int>& keys) { for (std::size_t i = 0; i < keys.size(); ++i) c.push_back(Is<T>::make(keys[i], (int)i)); }
template<typename T>
void put_front(std::forward_list<T>& c, const std::vector<int>& keys) { for (std::size_t i = keys.size(); i-- > 0;) c.push_front(Is<T>::make(keys[i], (int)i)); }

template<typename C, typename T>
void judge(const C& v, const Case& c, const char* what, bool stable)
{
    std::vector<char> seen(c.keys.size());
    std::size_t pos = 0;
    int prev = 0, previd = 0;
    for (auto& e: v) {
        int k = Is<T>::key(e), i = Is<T>::id(e);
        PBT_CHECK(pos < seen.size(), "%s: more elements than before", what);
        PBT_CHECK(i >= 0 && (std::size_t)i < seen.size() && !seen[i] && c.keys[i] == k, "%s: not a permutation (position %zu holds key %d id %d)", what, pos, k, i);
        seen[i] = 1;
        if (pos) {
            PBT_CHECK(!c.less(k, prev), "%s: not sorted at position %zu (%d before %d)", what, pos, prev, k);
            PBT_CHECK(!stable || c.less(prev, k) || previd < i, "%s: equivalent elements reordered at position %zu", what, pos);
        }
        prev = k; previd = i; ++pos;
    }
    PBT_CHECK(pos == seen.size(), "%s: %zu elements instead of %zu", what, pos, seen.size());
}

template<typename S, typename T, bool List, bool Stable, bool Quad>
void t_elements(Src& src, const char* name)
{
    Case c = draw(src, Quad ? 200 : pbt::g_thorough ? 4000 : 1400);
    if (c.keys.size() > 4000) c.keys.resize(4000);
    if (src.chance(1, 3)) coarsen(src, c);
    for (auto& k: c.keys) if (k < -100000000 || k > 100000000) k %= 100000000;
    src.nontrivial_if(c.keys.size() >= 2 && !std::is_sorted(c.keys.begin(), c.keys.end(), [&](int a, int b) { return c.less(a, b); }));
    g_live.clear(); g_objects = 0;
    {
        std::conditional_t<List, std::list<T>, std::vector<T>> v;
        if constexpr (!List) v.reserve(c.keys.size());
        put<decltype(v), T>(v, c.keys);
        i64 before = g_objects; std::size_t live = g_live.size();
        S{}(v.begin(), v.end(), c.cmp(), Key<T>{c.mode});
        PBT_CHECK(g_objects == before && g_live.size() == live, "%s: %lld elements alive after the call instead of %lld", name, (long long)g_objects, (long long)before);
        judge<decltype(v), T>(v, c, name, Stable);
    }
    PBT_CHECK(g_objects == 0 && g_live.empty(), "%s: elements destroyed too often or not at all", name);
}

// Sizes known in advance
template<template<std::size_t> class F, std::size_t N, typename T>
void t_fixed(Src& src, const char* name)
{
    Case c;
    td::reset_counters();
    c.order = gen::order(src); c.mode = (int)src.below(gen::n_projs);
    for (std::size_t i = 0; i < N; ++i) c.keys.push_back((int)src.below(2 * N + 1));
    src.note_seq("keys", c.keys);
    src.nontrivial_if(!std::is_sorted(c.keys.begin(), c.keys.end(), [&](int a, int b) { return c.less(a, b); }));
    g_live.clear(); g_objects = 0;
    {
        std::vector<T> v;
        v.reserve(N);
        put<std::vector<T>, T>(v, c.keys);
        F<N>{}(v, c.cmp(), Key<T>{c.mode});
        PBT_CHECK(g_objects == 0 || g_objects == (i64)N, "%s: %lld elements alive after the call", name, (long long)g_objects);
        judge<std::vector<T>, T>(v, c, name, false);
    }
    PBT_CHECK(g_objects == 0 && g_live.empty(), "%s: elements destroyed too often or not at all", name);
}

// Elements moved to the places given by a permutation
template<typename T>
void t_permutation(Src& src, const char* name)
{
    std::size_t n = src.below(300);
    std::vector<int> keys(n), perm(n);
    for (std::size_t i = 0; i < n; ++i) { keys[i] = (int)i; perm[i] = (int)i; }
    for (std::size_t i = n; i > 1; --i) std::swap(perm[i - 1], perm[src.below(i)]);
    src.note_seq("perm", perm);
    src.nontrivial_if(n > 1);
    g_live.clear(); g_objects = 0;
    {
        std::vector<T> v;
        v.reserve(n);
        put<std::vector<T>, T>(v, keys);
        auto p = perm;
        su::apply_permutation(v, p);
        for (std::size_t i = 0; i < n; ++i) PBT_CHECK(Is<T>::key(v[i]) == perm[i] && Is<T>::id(v[i]) == perm[i], "%s: wrong element at position %zu", name, i);
    }
    PBT_CHECK(g_objects == 0 && g_live.empty(), "%s: elements destroyed too often or not at all", name);
}

static const int quick_cases = 1600;   // tests are dealt to the parts by their number
template<int I, typename S, typename T, bool List, bool Stable, bool Quad, typename Cat>
void maybe(const std::string& name, const char* type)
{
    if constexpr (I % NPARTS == PART && !(List && std::is_same<Cat, ra_tag>::value)) {
        static std::string full;
        full = name + "/" + type + (List ? "/list" : "");
        pbt::add_test(full.c_str(), quick_cases, 40000, [](Src& s) { t_elements<S, T, List, Stable, Quad>(s, full.c_str()); });
    }
}
template<typename T, std::size_t... Ns>
void fixed(const char* type, std::index_sequence<Ns...>)
{
    static std::string full[64];
    int d[] = {(full[Ns] = std::string("low_comparisons") + std::to_string(Ns) + "/" + type, pbt::add_test(full[Ns].c_str(), 400, 10000, [](Src& s) { t_fixed<cs::low_comparisons_sorter, Ns, T>(s, full[Ns].c_str()); }), 0)...};
    int e[] = {(full[16 + Ns] = std::string("low_moves") + std::to_string(Ns) + "/" + type, pbt::add_test(full[16 + Ns].c_str(), 400, 10000, [](Src& s) { t_fixed<cs::low_moves_sorter, Ns, T>(s, full[16 + Ns].c_str()); }), 0)...};
    int f[] = {(full[32 + Ns] = std::string("network") + std::to_string(Ns + 5) + "/" + type, pbt::add_test(full[32 + Ns].c_str(), 400, 10000, [](Src& s) { t_fixed<cs::sorting_network_sorter, Ns + 5, T>(s, full[32 + Ns].c_str()); }), 0)...};
    (void)d; (void)e; (void)f;
}
template<int I, typename T>
void others(const char* type)
{
    if constexpr (I % NPARTS == PART) {
        static std::string full;
        full = std::string("apply_permutation/") + type;
        pbt::add_test(full.c_str(), quick_cases, 40000, [](Src& s) { t_permutation<T>(s, full.c_str()); });
        fixed<T>(type, std::make_index_sequence<13>{});
    }
}

//                  copy ctor  move ctor  copy =     move =     dtor      default
using Plain_    = Obj<TRIVIAL, TRIVIAL, TRIVIAL, TRIVIAL, TRIVIAL, TRIVIAL>;
using BigPlain  = Obj<TRIVIAL, TRIVIAL, TRIVIAL, TRIVIAL, TRIVIAL, NONE, 4, 300>;
using MoveTriv  = Obj<NONE,    TRIVIAL, NONE,    TRIVIAL, TRIVIAL, NONE>;           // move-only and trivially copyable
using UserCtor  = Obj<USER,    USER,    TRIVIAL, TRIVIAL, USER,    NONE>;
using UserCtor2 = Obj<NONE,    USER,    NONE,    TRIVIAL, TRIVIAL, USER>;
using UserAsg   = Obj<TRIVIAL, TRIVIAL, USER,    USER,    TRIVIAL, TRIVIAL>;
using UserAsg2  = Obj<NONE,    TRIVIAL, NONE,    USER,    TRIVIAL, NONE>;
using NoDtor    = Obj<USER,    USER,    USER,    USER,    TRIVIAL, NONE>;
using NoDtor2   = Obj<NONE,    USER,    NONE,    USER,    TRIVIAL, USER>;
using AllUser   = Obj<USER,    USER,    USER,    USER,    USER,    USER>;
using MoveUser  = Obj<NONE,    USER,    NONE,    USER,    USER,    NONE>;
using UserDef   = Obj<TRIVIAL, TRIVIAL, TRIVIAL, TRIVIAL, TRIVIAL, USER>;
using CopyTriv  = Obj<TRIVIAL, USER,    TRIVIAL, USER,    TRIVIAL, NONE>;           // trivial copies, moves which leave nothing
using Aligned   = Obj<TRIVIAL, TRIVIAL, TRIVIAL, TRIVIAL, TRIVIAL, TRIVIAL, 64>;
using AlignedU  = Obj<NONE,    USER,    NONE,    USER,    USER,    USER, 128>;

void register_tests()
{
    enum { base = __COUNTER__ };
#define T1(TYPE) maybe<__COUNTER__ - base - 1, S, TYPE, false, st, quad, cat>(name, #TYPE);
#define T2(TYPE) maybe<__COUNTER__ - base - 1, S, TYPE, true, st, quad, cat>(name, #TYPE);
#define X(NAME, TYPE, CAT, STABLE, QUAD) { std::string name = NAME; using S = TYPE; using cat = CAT; constexpr bool st = STABLE, quad = QUAD; \
    T1(Plain_) T1(BigPlain) T1(MoveTriv) T1(UserCtor) T1(UserCtor2) T1(UserAsg) T1(UserAsg2) T1(NoDtor) T1(NoDtor2) T1(AllUser) T1(MoveUser) T1(CopyTriv) \
    T1(Aligned) T1(AlignedU) T1(Copied) T1(Greedy) T1(Misleading) T1(Square) \
    T1(UPtr) T1(Any) T1(Tup) T1(Pai) T1(Anies) T1(Str) T2(MoveUser) T2(UserAsg) T2(UserCtor2) T2(NoDtor) T2(Any) }
    COMPARISON_SORTERS(X)
#undef X
#define X(NAME, TYPE, CAT, STABLE, QUAD) { std::string name = NAME; using S = TYPE; using cat = CAT; constexpr bool st = STABLE, quad = QUAD; \
    T1(Plain_) T1(UserCtor2) T1(UserAsg) T1(NoDtor2) T1(AllUser) T1(UserDef) T1(Aligned) T1(AlignedU) T1(UPtr) T1(Any) T1(Var) T1(Arr) }
    BUFFERED_SORTERS(X)
#undef X
#define X(NAME, CAT, STABLE, ...) { std::string name = NAME; using S = __VA_ARGS__; using cat = CAT; constexpr bool st = STABLE, quad = false; \
    T1(MoveTriv) T1(UserCtor) T1(UserAsg) T1(NoDtor) T1(AllUser) T1(AlignedU) T1(Greedy) T1(Misleading) T1(Any) T2(MoveUser) T2(UserAsg) }
    ADAPTED_SORTERS(X)
#undef X
#define Y(TYPE) others<__COUNTER__ - base - 1, TYPE>(#TYPE);
    Y(Plain_) Y(BigPlain) Y(MoveTriv) Y(UserCtor) Y(UserCtor2) Y(UserAsg) Y(NoDtor) Y(NoDtor2) Y(AllUser) Y(MoveUser) Y(CopyTriv) Y(AlignedU)
    Y(Copied) Y(Greedy) Y(Misleading) Y(Square) Y(Any) Y(Tup) Y(Opt) Y(Var) Y(Fun) Y(SPtr) Y(Vec) Y(Cpx) Y(LD) Y(Enum)
#undef Y
}
