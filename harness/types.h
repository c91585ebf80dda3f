// Element, iterator and function-object test doubles.
#ifndef TYPES_H_
#define TYPES_H_

#include "pbt.h"
#include "gen.h"
#include <cstddef>
#include <exception>
#include <iterator>
#include <memory>
#include <new>
#include <type_traits>
#include <utility>

namespace td
{
using pbt::u64;
using pbt::i64;

////////////////////////////////////////////////////////////
// Tracked element: move-only, not default-constructible. Detects reads from moved-from,
// destroyed or never-constructed elements, self-moves, double destructions and bitwise
// relocation; counts live instances; can throw from the k-th move.

struct Boom { int where; };

inline i64 live_elems = 0;
inline u64 elem_moves = 0;
inline i64 throw_at_move = -1;      // counts down
inline i64 throw_at_call = -1;      // comparison or projection calls, counts down
inline u64 call_count = 0;
inline u64 call_limit = ~u64(0);    // hang guard
inline bool threw = false;
inline int throw_kind = 0;

inline void reset_counters()
{
    elem_moves = 0; throw_at_move = -1; throw_at_call = -1; call_count = 0;
    call_limit = ~u64(0); threw = false;
}

inline void on_call()
{
    if (++call_count > call_limit) pbt::fail("more than %llu comparator/projection calls: unbounded work", (unsigned long long)call_limit);
    if (throw_at_call >= 0 && throw_at_call-- == 0) { threw = true; throw Boom{1}; }
}

struct Elem
{
    static constexpr std::uint32_t LIVE = 0x11223344, MOVED = 0x55667788, DEAD = 0xdeaddead;

    int key;
    int id;
    std::uint32_t state;
    const Elem* self;

    Elem(const Elem&) = delete;
    Elem& operator=(const Elem&) = delete;

    Elem(int k, int i): key(k), id(i), state(LIVE), self(this) { ++live_elems; }
    Elem(Elem&& o)
    {
        o.check_source("move-constructed from");
        maybe_throw();
        key = o.key; id = o.id; state = LIVE; self = this;
        o.state = MOVED;
        ++live_elems;
    }
    Elem& operator=(Elem&& o)
    {
        if (self != this || (state != LIVE && state != MOVED)) pbt::fail("move-assignment to an element that is not alive");
        if (&o == this) {
            // harmless on a moved-from element, data loss otherwise
            if (state == LIVE) pbt::fail("self-move-assignment of a live element");
            return *this;
        }
        o.check_source("move-assigned from");
        maybe_throw();
        key = o.key; id = o.id; state = LIVE;
        o.state = MOVED;
        return *this;
    }
    ~Elem()
    {
        if (self != this || (state != LIVE && state != MOVED)) pbt::fail("destruction of an element that is not alive");
        state = DEAD; self = nullptr;
        --live_elems;
    }

    void check_source(const char* what) const
    {
        if (self != this || (state != LIVE && state != MOVED)) pbt::fail("element %s is not alive", what);
        if (state == MOVED) pbt::fail("element %s has already been moved from", what);
    }
    static void maybe_throw()
    {
        ++elem_moves;
        if (throw_at_move >= 0 && throw_at_move-- == 0) { threw = true; throw Boom{0}; }
    }
    int get() const
    {
        if (self != this || (state != LIVE && state != MOVED)) pbt::fail("key of an element that is not alive is read");
        if (state == MOVED) pbt::fail("key of a moved-from element is read");
        return key;
    }
    friend bool operator<(const Elem& a, const Elem& b) { on_call(); return a.get() < b.get(); }
    bool alive() const { return self == this && (state == LIVE || state == MOVED); }
    bool readable() const { return self == this && state == LIVE; }
};

////////////////////////////////////////////////////////////
// Comparator and projection with runtime behaviour; both count their calls

struct Cmp
{
    gen::Order order;
    bool operator()(int a, int b) const { on_call(); return order(a, b); }
};
struct Proj
{
    int mode = 0;
    int operator()(const Elem& e) const { on_call(); return gen::proj_apply(mode, e.get()); }
};
// Comparator directly on elements
struct ElemCmp
{
    gen::Order order;
    int mode = 0;
    bool operator()(const Elem& a, const Elem& b) const
    {
        on_call();
        return order(gen::proj_apply(mode, a.get()), gen::proj_apply(mode, b.get()));
    }
};

////////////////////////////////////////////////////////////
// Guarded sequence and checked iterators of a chosen category and difference type

template<typename T>
struct Guarded   // elements [lo, hi) of an array may be accessed
{
    T* base = nullptr;
    T* lo = nullptr;
    T* hi = nullptr;
};

template<typename T, typename Cat, typename Diff = std::ptrdiff_t>
class It
{
    const Guarded<T>* g = nullptr;
    T* p = nullptr;

    static constexpr bool is_ra = std::is_base_of<std::random_access_iterator_tag, Cat>::value;
    static constexpr bool is_bi = std::is_base_of<std::bidirectional_iterator_tag, Cat>::value;
    void same(const It& o, const char* what) const
    {
        if (g != o.g || g == nullptr) pbt::fail("%s between iterators that do not belong to the same range", what);
    }
    void deref_ok() const
    {
        if (g == nullptr || p < g->lo || p >= g->hi)
            pbt::fail("iterator dereferenced outside of the range (offset %lld of %lld)",
                      g ? (long long)(p - g->lo) : -1LL, g ? (long long)(g->hi - g->lo) : -1LL);
    }
    void moved_ok(std::ptrdiff_t to) const
    {
        if (g == nullptr) pbt::fail("singular iterator moved");
        std::ptrdiff_t n = g->hi - g->lo;
        if (to < 0 || to > n) pbt::fail("iterator moved outside of the range (to offset %lld of %lld)", (long long)to, (long long)n);
    }

public:
    using iterator_category = Cat;
    using value_type = T;
    using difference_type = Diff;
    using pointer = T*;
    using reference = T&;

    It() = default;
    It(const Guarded<T>* g, T* p): g(g), p(p) {}

    T& operator*() const { deref_ok(); return *p; }
    T* operator->() const { deref_ok(); return p; }
    It& operator++() { moved_ok(p - g->lo + 1); ++p; return *this; }
    void operator++(int) = delete;
    // value-initialized iterators compare equal
    friend bool operator==(const It& a, const It& b) { if (a.g || b.g) a.same(b, "comparison"); return a.p == b.p; }
    friend bool operator!=(const It& a, const It& b) { if (a.g || b.g) a.same(b, "comparison"); return a.p != b.p; }
    T* base() const { return p; }

    template<bool B = is_bi, typename = std::enable_if_t<B>>
    It& operator--() { moved_ok(p - g->lo - 1); --p; return *this; }
    void operator--(int) = delete;

    template<bool B = is_ra, typename = std::enable_if_t<B>>
    It& operator+=(Diff n) { moved_ok(p - g->lo + n); p += n; return *this; }
    template<bool B = is_ra, typename = std::enable_if_t<B>>
    It& operator-=(Diff n) { moved_ok(p - g->lo - n); p -= n; return *this; }
    template<bool B = is_ra, typename = std::enable_if_t<B>>
    friend It operator+(It a, Diff n) { a += n; return a; }
    template<bool B = is_ra, typename = std::enable_if_t<B>>
    friend It operator+(Diff n, It a) { a += n; return a; }
    template<bool B = is_ra, typename = std::enable_if_t<B>>
    friend It operator-(It a, Diff n) { a -= n; return a; }
    template<bool B = is_ra, typename = std::enable_if_t<B>>
    friend Diff operator-(const It& a, const It& b)
    {
        a.same(b, "subtraction");
        std::ptrdiff_t d = a.p - b.p;
        return static_cast<Diff>(d);
    }
    template<bool B = is_ra, typename = std::enable_if_t<B>>
    T& operator[](Diff n) const { return *(*this + n); }
    template<bool B = is_ra, typename = std::enable_if_t<B>>
    friend bool operator<(const It& a, const It& b) { a.same(b, "comparison"); return a.p < b.p; }
    template<bool B = is_ra, typename = std::enable_if_t<B>>
    friend bool operator>(const It& a, const It& b) { a.same(b, "comparison"); return a.p > b.p; }
    template<bool B = is_ra, typename = std::enable_if_t<B>>
    friend bool operator<=(const It& a, const It& b) { a.same(b, "comparison"); return a.p <= b.p; }
    template<bool B = is_ra, typename = std::enable_if_t<B>>
    friend bool operator>=(const It& a, const It& b) { a.same(b, "comparison"); return a.p >= b.p; }
};

// Fixed storage of elements with sentinels on both sides of the accessible range
template<typename T>
struct Buffer
{
    std::size_t n, pad;
    T* data;
    Guarded<T> g;
    template<typename F>
    Buffer(std::size_t n, std::size_t pad, F make): n(n), pad(pad)
    {
        data = static_cast<T*>(std::malloc(sizeof(T) * (n + 2 * pad) + 1));
        for (std::size_t i = 0; i < n + 2 * pad; ++i) make(data + i, (i64)i - (i64)pad);
        g.base = data; g.lo = data + pad; g.hi = data + pad + n;
    }
    Buffer(const Buffer&) = delete;
    ~Buffer()
    {
        for (std::size_t i = 0; i < n + 2 * pad; ++i) data[i].~T();
        std::free(data);
    }
    T* begin() { return g.lo; }
    T* end() { return g.hi; }
    T& operator[](std::size_t i) { return g.lo[i]; }
    template<typename Cat, typename Diff = std::ptrdiff_t>
    It<T, Cat, Diff> first() { return {&g, g.lo}; }
    template<typename Cat, typename Diff = std::ptrdiff_t>
    It<T, Cat, Diff> last() { return {&g, g.hi}; }
};

inline std::vector<int> to_int(const std::vector<i64>& v)
{
    std::vector<int> r(v.size());
    for (std::size_t i = 0; i < v.size(); ++i) {
        i64 x = v[i];
        if (x > (i64(1) << 30)) x = i64(1) << 30;
        if (x < -(i64(1) << 30)) x = -(i64(1) << 30);
        r[i] = (int)x;
    }
    return r;
}

// ids (indices in the original order) of the sequence, sorted stably
template<typename KeyLess>
std::vector<int> stable_order(std::size_t n, KeyLess less)
{
    std::vector<int> idx(n);
    std::iota(idx.begin(), idx.end(), 0);
    std::stable_sort(idx.begin(), idx.end(), [&](int a, int b) { return less(a, b); });
    return idx;
}
}

#ifdef BRANCHLESS
#include <cpp-sort/utility/branchless_traits.h>
namespace cppsort { namespace utility
{
    template<typename T> struct is_probably_branchless_comparison<td::Cmp, T>: std::true_type {};
    template<typename T> struct is_probably_branchless_projection<td::Proj, T>: std::true_type {};
}}
#endif

#endif
