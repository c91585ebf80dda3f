// C08: linear best cases and adaptivity to little disorder.
#include "ops.h"
#include "bounds.h"

using namespace ops;

enum Kind { sorted, equal, reversed, runs, mixed_runs, displaced, swaps, encroaching, n_kinds };
static const char* kind_names[] = {"sorted", "equal", "reversed", "runs", "mixed_runs", "displaced", "swaps", "encroaching"};

// strictly increasing values with random gaps, possibly huge, so that values carry no information
static std::vector<int> increasing(Src& src, std::size_t n, bool strict)
{
    gen::Rng r(src.bits());
    u64 gap = std::min<u64>(1 + r.below(100000), (u64(1) << 30) / (n + 1));
    std::vector<int> v(n);
    i64 x = -(i64)(gap * n / 2);
    for (auto& k: v) { x += strict ? 1 + r.below(gap) : (r.below(4) ? 0 : r.below(gap)); k = (int)x; }
    return v;
}

static std::vector<int> make(Src& src, Kind kind, std::size_t n, std::size_t& k)
{
    auto v = increasing(src, n, kind == reversed || kind == mixed_runs || kind == encroaching ? true : src.below(2));
    k = 1;
    gen::Rng r(src.bits());
    switch (kind) {
        case sorted: break;
        case equal: std::fill(v.begin(), v.end(), (int)r.below(1000)); break;
        case reversed: std::reverse(v.begin(), v.end()); break;
        case runs: case mixed_runs: {
            // deal the values into k groups of random sizes, each of them sorted
            k = 2 + src.below(7);
            std::vector<std::vector<int>> g(k);
            for (auto x: v) g[r.below(k)].push_back(x);
            std::size_t at = 0;
            for (auto& run: g) {
                if (kind == mixed_runs && r.below(2)) std::reverse(run.begin(), run.end());
                for (auto x: run) v[at++] = x;
            }
            break;
        }
        case displaced: {   // k elements moved elsewhere
            k = 1 + src.below(8);
            for (std::size_t i = 0; i < k; ++i) {
                std::size_t a = r.below(n), b = r.below(n);
                if (a < b) std::rotate(v.begin() + a, v.begin() + a + 1, v.begin() + b + 1);
                else std::rotate(v.begin() + b, v.begin() + a, v.begin() + a + 1);
            }
            break;
        }
        case swaps: {
            k = 1 + src.below(8);
            for (std::size_t i = 0; i < k; ++i) std::swap(v[r.below(n)], v[r.below(n)]);
            break;
        }
        case encroaching: { // each element is outside of the values seen so far: a single encroaching list
            std::vector<int> w; std::size_t a = n / 2, b = n / 2;
            while (w.size() < n) {
                if (b < n && (a == 0 || r.below(2))) w.push_back(v[b++]); else w.push_back(v[--a]);
            }
            v = w;
            break;
        }
        default: break;
    }
    return v;
}

template<typename S, typename C>
void t_best(Src& src, const char* name, const char* where, Kind kind, bounds::Best b)
{
    std::size_t n = gen::pick_size(src, 256, pbt::g_thorough ? 60000 : 12000), k;
    bool down = src.below(2);
    auto keys = make(src, kind, n, k);
    if (down) for (auto& x: keys) x = -x;   // sorted for std::greater
    src.note("%s %s %s k=%zu greater=%d ", name, where, kind_names[kind], k, down);
    src.note_seq("keys", keys);
    src.nontrivial();
    double unit = (double)n;
    auto r = measure<S, C>(keys, down, name, (u64)(n * (b.cmps + b.moves + 200.0) * 20 + 100000));
    std::string w = std::string(where) + " " + kind_names[kind];
    calibrate(name, (w + " c").c_str(), r.cmps / unit, n);
    calibrate(name, (w + " m").c_str(), r.moves / unit, n);
    if (calibrating()) return;
    PBT_CHECK(r.cmps <= b.cmps * unit, "%s on a %s: %.0f comparisons to sort %zu elements (%s, %zu), more than %.2f n", name, where, r.cmps, n, kind_names[kind], k, b.cmps);
    PBT_CHECK(r.moves <= b.moves * unit, "%s on a %s: %.0f moves to sort %zu elements (%s, %zu), more than %.2f n", name, where, r.moves, n, kind_names[kind], k, b.moves);
}

template<int I, typename S, typename Cat>
void maybe(const char* name)
{
    if constexpr (I % NPARTS == PART) {
        auto add = [&](const char* where, auto c) {
            using C = typename decltype(c)::type;
            for (int k = 0; k < n_kinds; ++k) {
                bounds::Best b = bounds::best(name, where, kind_names[k]);
                if (b.cmps == 0 && !calibrating()) continue;
                pbt::add_test(std::string(name) + "/" + where + "/" + kind_names[k], 500, 5000, [=](Src& s) { t_best<S, C>(s, name, where, (Kind)k, b); });
            }
        };
        add("vector", bounds::id<std::vector<M>>{});
        if constexpr (!std::is_same<Cat, ra_tag>::value) add("list", bounds::id<std::list<M>>{});
        if constexpr (std::is_same<Cat, fwd_tag>::value) add("forward_list", bounds::id<std::forward_list<M>>{});
    }
}

void register_tests()
{
    enum { base = __COUNTER__ };
#define X(NAME, TYPE, CAT, STABLE, QUAD) maybe<__COUNTER__ - base - 1, TYPE, CAT>(NAME);
    COMPARISON_SORTERS(X)
    BUFFERED_SORTERS(X)
#undef X
#define X(NAME, CAT, STABLE, ...) maybe<__COUNTER__ - base - 1, __VA_ARGS__, CAT>(NAME);
    ADAPTED_SORTERS(X)
#undef X
}
