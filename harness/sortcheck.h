// Shared pieces of the checks calling sorters: cases, containers and result oracles.
#ifndef SORTCHECK_H_
#define SORTCHECK_H_

#include "types.h"
#include "sorters.h"
#include <deque>
#include <forward_list>
#include <list>
#include <string>

namespace sc
{
using pbt::Src; using pbt::i64; using pbt::u64;
using td::Elem;

struct Plain
{
    int key, id;
    int get() const { return key; }
    friend bool operator<(const Plain& a, const Plain& b) { td::on_call(); return a.key < b.key; }
};
struct PlainD: Plain    // default-constructible (Plain already is an aggregate, this one has constructors)
{
    PlainD(): Plain{-12345, -12345} {}
    PlainD(int k, int i): Plain{k, i} {}
};

struct AnyProj
{
    int mode = 0;
    template<typename T> int operator()(const T& e) const { td::on_call(); return gen::proj_apply(mode, e.get()); }
};
struct AnyCmp   // on elements
{
    gen::Order order; int mode = 0;
    template<typename T> bool operator()(const T& a, const T& b) const
    {
        td::on_call();
        return order(gen::proj_apply(mode, a.get()), gen::proj_apply(mode, b.get()));
    }
};

struct Case
{
    gen::Order order;
    int mode = 0;
    std::vector<int> keys;
    bool less(int a, int b) const { return order(gen::proj_apply(mode, a), gen::proj_apply(mode, b)); }
    td::Cmp cmp() const { return {order}; }
    AnyProj proj() const { return {mode}; }
    AnyCmp ecmp() const { return {order, mode}; }
};

inline void classify_n(Src& src, const std::vector<int>& v)
{
    std::size_t n = v.size();
    src.classify(n < 2 ? "n<2" : n < 16 ? "n<16" : n < 64 ? "n<64" : n < 256 ? "n<256" : n < 1024 ? "n<1024" : "n>=1024");
}

// plain: natural order of the keys, no projection
inline Case draw(Src& src, std::size_t max_n, bool plain = false)
{
    Case c;
    td::reset_counters();
    if (!plain) {
        c.order = gen::order(src);
        c.mode = (int)src.below(gen::n_projs);
    }
    c.keys = td::to_int(gen::keys(src, max_n));
    classify_n(src, c.keys);
    src.note("order=%d/%d proj=%d ", c.order.mode, c.order.param, c.mode);
    src.note_seq("keys", c.keys);
    td::call_limit = 100000 + 60ull * c.keys.size() * c.keys.size();
    return c;
}
// Give every key a small multiplicity domain so that equivalent elements exist
inline void coarsen(Src& src, Case& c)
{
    int d = (int)src.below(5);
    static const int div[] = {1, 1, 4, 16, 100};
    if (d >= 2) for (auto& k: c.keys) k /= div[d];
}

template<typename T, typename C>
void fill(C& c, const std::vector<int>& keys)
{
    for (std::size_t i = 0; i < keys.size(); ++i) c.push_back(T{keys[i], (int)i});
}
template<typename T>
void fill(std::vector<T>& c, const std::vector<int>& keys)
{
    c.reserve(keys.size());
    for (std::size_t i = 0; i < keys.size(); ++i) c.push_back(T{keys[i], (int)i});
}
template<typename T>
void fill(std::forward_list<T>& c, const std::vector<int>& keys)
{
    for (std::size_t i = keys.size(); i-- > 0;) c.push_front(T{keys[i], (int)i});
}

// key: identification of a failure to be stable, for the known findings
template<typename It>
void verify(It first, It last, const Case& c, const char* what, bool stable = false, const char* key = "")
{
    const auto& keys = c.keys;
    std::vector<char> seen(keys.size(), 0);
    std::size_t pos = 0;
    bool have_prev = false;
    int prev = 0, previd = 0;
    for (It it = first; it != last; ++it, ++pos) {
        const auto& e = *it;
        int i = e.id, k = e.key;
        PBT_CHECK(pos < keys.size(), "%s: more elements than before", what);
        PBT_CHECK(i >= 0 && (std::size_t)i < keys.size() && !seen[i] && keys[i] == k,
                  "%s: the result is not a permutation of the input (position %zu holds key %d id %d)", what, pos, k, i);
        seen[i] = 1;
        if (have_prev) {
            PBT_CHECK(!c.less(k, prev), "%s: not sorted at position %zu (%d before %d)", what, pos, prev, k);
            if (stable && !c.less(prev, k) && previd > i)
                pbt::fail_key(key, "%s: equivalent elements reordered at position %zu (original positions %d then %d, keys %d and %d)",
                                  what, pos, previd, i, prev, k);
        }
        prev = k; previd = i; have_prev = true;
    }
    PBT_CHECK(pos == keys.size(), "%s: %zu elements instead of %zu", what, pos, keys.size());
}

// The range holds its elements in their original order
template<typename It>
void verify_untouched(It first, It last, const Case& c, const char* what)
{
    std::size_t pos = 0;
    for (It it = first; it != last; ++it, ++pos) {
        const auto& e = *it;
        PBT_CHECK(pos < c.keys.size() && e.id == (int)pos && e.key == c.keys[pos],
                  "%s: the range was modified at position %zu (holds key %d id %d)", what, pos, (int)e.key, (int)e.id);
    }
    PBT_CHECK(pos == c.keys.size(), "%s: %zu elements instead of %zu", what, pos, c.keys.size());
}

inline bool has_equivalents(const Case& c)
{
    auto v = c.keys;
    std::sort(v.begin(), v.end(), [&](int a, int b) { return c.less(a, b); });
    for (std::size_t i = 1; i < v.size(); ++i) if (!c.less(v[i - 1], v[i])) return true;
    return false;
}
}

#endif
