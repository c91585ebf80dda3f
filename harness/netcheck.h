// Exhaustive evaluation of a comparator network on 0-1 inputs. Inputs leading to the same intermediate state are
// evaluated once: connected groups of wires keep the set of the states they can be in, with an input leading to each.
#ifndef NETCHECK_H_
#define NETCHECK_H_

#include "pbt.h"
#include <utility>
#include <vector>

namespace net
{
using pbt::u64;
using Mask = unsigned __int128;
using Pairs = std::vector<std::pair<int, int>>;
struct State { Mask now, input; };

inline Mask bit(int i) { return Mask(1) << i; }
inline void exchange(Mask& x, int a, int b) { if ((x >> a & 1) && !(x >> b & 1)) x ^= bit(a) | bit(b); }
inline bool sorted(Mask x, int n)   // zeros first: the ones are the last wires
{
    Mask all = n == 128 ? ~Mask(0) : bit(n) - 1;
    Mask zeros = all & ~x;
    return (zeros & (zeros + 1)) == 0;
}

// Returns true when every 0-1 input is sorted; otherwise sets input to one which is not.
// complete is cleared when there were too many states to evaluate all of them.
inline bool sorts_all(int n, Pairs ces, Mask& input, u64& evaluated, bool& complete, u64 budget = u64(1) << 29)
{
    std::vector<int> comp(n);
    std::vector<std::vector<State>> set(n);
    for (int i = 0; i < n; ++i) { comp[i] = i; set[i] = {{0, 0}, {bit(i), bit(i)}}; }
    evaluated = 0;
    complete = true;
    for (u64 limit = 4; limit <= u64(1) << 18 && !ces.empty(); limit *= 2) {
        bool progress = true;
        while (progress) {
            progress = false;
            std::vector<char> blocked(n, 0);
            Pairs rest;
            for (auto& ce: ces) {
                int a = ce.first, b = ce.second;
                if (blocked[a] || blocked[b]) { blocked[a] = blocked[b] = 1; rest.push_back(ce); continue; }
                if (comp[a] != comp[b]) {
                    int ca = comp[a], cb = comp[b];
                    if (set[ca].size() * set[cb].size() > limit) { blocked[a] = blocked[b] = 1; rest.push_back(ce); continue; }
                    std::vector<State> m;
                    m.reserve(set[ca].size() * set[cb].size());
                    for (auto& x: set[ca]) for (auto& y: set[cb]) m.push_back({x.now | y.now, x.input | y.input});
                    set[ca].swap(m);
                    set[cb].clear();
                    for (auto& c: comp) if (c == cb) c = ca;
                }
                auto& s = set[comp[a]];
                for (auto& x: s) exchange(x.now, a, b);
                evaluated += s.size();
                std::sort(s.begin(), s.end(), [](const State& l, const State& r) { return l.now < r.now; });
                s.erase(std::unique(s.begin(), s.end(), [](const State& l, const State& r) { return l.now == r.now; }), s.end());
                progress = true;
            }
            ces.swap(rest);
        }
    }
    std::vector<std::vector<State>*> groups;
    for (auto& s: set) if (!s.empty()) groups.push_back(&s);
    std::sort(groups.begin(), groups.end(), [](auto* a, auto* b) { return a->size() < b->size(); });
    // what remains: every combination of the states of the groups, 64 at once
    long double total = 1;
    for (auto* g: groups) total *= (long double)g->size();
    if (groups.empty()) return true;
    auto& lanes = *groups.back();
    groups.pop_back();
    std::vector<std::size_t> at(groups.size(), 0);
    u64 rnd = 12345;
    if (total > (long double)budget) complete = false;
    std::vector<u64> base(n), w(n);
    // the groups' wires are disjoint: transpose the lanes once per block
    std::vector<std::vector<u64>> blocks;
    for (std::size_t l = 0; l < lanes.size(); l += 64) {
        std::vector<u64> t(n, 0);
        for (std::size_t k = 0; k < 64; ++k) {
            const State& s = lanes[std::min(l + k, lanes.size() - 1)];
            for (int i = 0; i < n; ++i) t[i] |= (u64)(s.now >> i & 1) << k;
        }
        blocks.push_back(t);
    }
    u64 spent = 0;
    for (;;) {
        Mask now = 0, in = 0;
        if (!complete) for (std::size_t g = 0; g < groups.size(); ++g) at[g] = (std::size_t)(pbt::splitmix(rnd) % groups[g]->size());
        for (std::size_t g = 0; g < groups.size(); ++g) { now |= (*groups[g])[at[g]].now; in |= (*groups[g])[at[g]].input; }
        for (int i = 0; i < n; ++i) base[i] = (now >> i & 1) ? ~u64(0) : 0;
        for (std::size_t b = 0; b < blocks.size(); ++b) {
            for (int i = 0; i < n; ++i) w[i] = base[i] | blocks[b][i];
            for (auto& ce: ces) { u64 x = w[ce.first], y = w[ce.second]; w[ce.first] = x & y; w[ce.second] = x | y; }
            evaluated += 64; spent += 64;
            u64 bad = 0;
            for (int i = 0; i + 1 < n; ++i) bad |= w[i] & ~w[i + 1];
            if (bad) {
                std::size_t k = (std::size_t)__builtin_ctzll(bad);
                input = in | lanes[std::min(b * 64 + k, lanes.size() - 1)].input;
                return false;
            }
        }
        if (!complete) { if (spent > budget / 4) return true; continue; }
        std::size_t g = 0;
        while (g < groups.size() && ++at[g] == groups[g]->size()) at[g++] = 0;
        if (g == groups.size()) return true;
    }
}
inline std::string show(Mask m, int n)
{
    std::string s;
    for (int i = 0; i < n; ++i) s += (m >> i & 1) ? '1' : '0';
    return s;
}
}
#endif
