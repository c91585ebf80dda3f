// Typed keys: deterministic maps from small integers (gen::keys) to values of a key type, so that
// every structured key distribution is available for integers, floating point numbers, strings and
// composites of them.
#ifndef TYPED_H_
#define TYPED_H_

#include "gen.h"
#include <array>
#include <cstring>
#include <deque>
#include <limits>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace ty
{
using pbt::Src; using pbt::u64; using pbt::i64;

struct Shape
{
    u64 mode, a, b, seed;
    u64 h(u64 k, u64 salt = 0) const { return pbt::mix(pbt::mix(seed, salt), k); }
};
inline Shape shape(Src& src)
{
    Shape s;
    s.mode = src.below(10); s.a = src.below(64); s.b = src.below(64); s.seed = src.below(1 << 16);
    return s;
}
inline Shape sub(const Shape& s, u64 i)
{
    return {s.h(i, 101) % 10, s.h(i, 102) % 64, s.h(i, 103) % 64, s.h(i, 104)};
}

template<typename T> struct is_int: std::is_integral<T> {};
template<> struct is_int<__int128_t>: std::true_type {};
template<> struct is_int<__uint128_t>: std::true_type {};

template<typename T, typename = void> struct Make;

template<typename T>
struct Make<T, std::enable_if_t<is_int<T>::value>>
{
    static T of(const Shape& s, i64 k)
    {
        if constexpr (std::is_same<T, bool>::value) return s.mode == 0 ? true : s.h((u64)k) & 1;
        else {
            using U = __uint128_t;
            constexpr unsigned bits = sizeof(T) * 8;
            constexpr bool neg = T(-1) < T(0);
            const U minv = neg ? U(1) << (bits - 1) : U(0), maxv = minv - 1;
            U x = (U)(__int128_t)k;
            switch (s.mode) {
                default: break;
                case 1: x <<= s.a % bits; break;
                case 2: {   // extremes and their neighbours
                    const U c[] = {minv, minv + 1, maxv, maxv - 1, 0, 1, (U)-1, (U)1 << (bits / 2), ((U)1 << (bits / 2)) - 1, minv + 255, minv + 256};
                    x = c[s.h((u64)k) % 11];
                    break;
                }
                case 3: x = (U)s.h((u64)k) << 64 | s.h((u64)k, 1); break;
                case 4: {   // some bytes vary only
                    U m = 0;
                    for (unsigned i = 0; i < sizeof(T); ++i) if (s.h(i, 2) & 1) m |= (U)255 << (8 * i);
                    U bg = (U)s.h(0, 3) << 64 | s.h(0, 4);
                    x = (((U)s.h((u64)k) << 64 | s.h((u64)k, 1)) & m) | (bg & ~m);
                    break;
                }
                case 5: x += minv; break;
                case 6: x += maxv; break;
                case 7: {   // magnitudes spread over all the powers of two
                    U v = (U)s.h((u64)k) << 64 | s.h((u64)k, 1);
                    v &= ((U)1 << (1 + s.h((u64)k, 2) % (bits - 1))) - 1;
                    x = s.h((u64)k, 3) & 1 ? v : (U)0 - v;
                    break;
                }
                case 8: x = ((U)s.h(0, 5) << 64 | s.h(0, 6)) + (U)(__int128_t)k; break;    // cluster around any value
                case 9: x = (s.h((u64)k, 7) & 1 ? ((U)s.h(0, 5) << 64 | s.h(0, 6)) : s.h((u64)k, 8) & 1 ? minv : U(0)) + (U)(__int128_t)k; break;
            }
            return static_cast<T>(x);
        }
    }
};

template<typename T>
struct Make<T, std::enable_if_t<std::is_floating_point<T>::value>>
{
    using B = std::conditional_t<sizeof(T) == 4, std::uint32_t, std::uint64_t>;
    static T of(const Shape& s, i64 k)
    {
        using L = std::numeric_limits<T>;
        T x;
        switch (s.mode) {
            default: x = (T)k; break;
            case 1: x = (T)k / (T)(1 + s.a); break;
            case 2: {
                const T c[] = {L::infinity(), -L::infinity(), L::max(), L::lowest(), L::min(), -L::min(), L::denorm_min(), -L::denorm_min(), T(0), -T(0), T(1), T(-1)};
                x = c[s.h((u64)k) % 12];
                break;
            }
            case 3: case 4: {
                B b = (B)s.h((u64)k);
                std::memcpy(&x, &b, sizeof x);
                if (!(x == x)) { b &= ~((B)1 << (sizeof(B) == 4 ? 30 : 62)); std::memcpy(&x, &b, sizeof x); }
                break;
            }
            case 5: x = (T)k * L::denorm_min() * (T)(1 + s.a); break;
            case 6: x = -(T)(k < 0 ? -k : k) * (T)1.5; break;
            case 7: x = (T)(i64)s.h((u64)k) / (T)(u64(1) << s.a % 60); break;
            case 8: case 9: {   // neighbours of a simple number, of one or both signs
                T base = (T)(1 + s.a % 7) * (s.b % 3 == 0 ? (T)1 : s.b % 3 == 1 ? (T)(u64(1) << s.b % 40) : (T)1 / (T)(u64(1) << s.b % 40));
                if (s.mode == 8 ? (s.a & 8) != 0 : s.h((u64)k, 9) & 1) base = -base;
                B b; std::memcpy(&b, &base, sizeof b); b += (B)(s.a & 16 ? k : (i64)(s.h((u64)k, 10) % (1 + s.b))); std::memcpy(&x, &b, sizeof x);
                if (!(x == x)) x = base;
                break;
            }
        }
        return x;
    }
};

template<typename Str>
Str make_string(const Shape& s, i64 k)
{
    using C = typename Str::value_type;
    Str out;
    const std::size_t prefix = s.mode % 4 == 0 ? 0 : s.mode % 4 == 1 ? s.a % 4 : s.a % 40;
    for (std::size_t i = 0; i < prefix; ++i) out.push_back((C)('a' + s.h(i, 11) % 3));
    auto letter = [&](u64 h) -> C {
        switch (s.b % 4) {
            case 0: return (C)('a' + h % 2);
            case 1: return (C)('a' + h % 26);
            case 2: return (C)(h % 256);
            default: return (C)(sizeof(C) == 1 ? h % 256 : h % 7 == 0 ? h >> 8 : h % 70000);
        }
    };
    switch (s.mode / 2) {
        case 0: { auto t = std::to_string(k); out.append(t.begin(), t.end()); break; }
        case 1: {   // random length, random letters
            std::size_t n = s.h((u64)k, 5) % (1 + s.b);
            for (std::size_t i = 0; i < n; ++i) out.push_back(letter(s.h((u64)k, 20 + i)));
            break;
        }
        case 2: {   // prefixes of one string, with a random last letter now and then
            std::size_t n = (u64)(k < 0 ? -k : k) % (2 + s.b);
            for (std::size_t i = 0; i < n; ++i) out.push_back(letter(s.h(i, 6)));
            if (s.h((u64)k, 7) & 1) out.push_back(letter(s.h((u64)k, 8)));
            break;
        }
        default: {  // base 2 to 4 digits, at depths beyond any recursion limit
            u64 v = s.a & 1 ? (u64)k : s.h((u64)k);
            u64 base = 2 + s.b % 3;
            for (std::size_t i = 0; i < 4 + s.b; ++i) { out.push_back((C)('0' + v % base)); v = v / base + (v % base ? 0 : s.a & 2); }
            break;
        }
    }
    if (s.seed % 5 == 0 && s.h((u64)k, 9) % 4 == 0) out.push_back((C)0);
    return out;
}
template<typename C> struct Make<std::basic_string<C>> { static std::basic_string<C> of(const Shape& s, i64 k) { return make_string<std::basic_string<C>>(s, k); } };

template<typename Seq>
Seq make_seq(const Shape& s, i64 k)
{
    using V = typename Seq::value_type;
    Seq out;
    Shape e = sub(s, 1);
    std::size_t prefix = s.mode < 3 ? 0 : s.a % (s.mode < 6 ? 4 : 24);
    for (std::size_t i = 0; i < prefix; ++i) out.push_back(Make<V>::of(e, (i64)(s.h(i, 12) % 3)));
    std::size_t n = s.mode & 1 ? 1 + s.b % 3 : s.h((u64)k, 13) % (1 + s.b % 20);
    for (std::size_t i = 0; i < n; ++i) out.push_back(Make<V>::of(e, i + 1 == n ? k : (i64)(s.h((u64)k, 30 + i) % (1 + s.a))));
    return out;
}
template<typename T> struct Make<std::vector<T>> { static std::vector<T> of(const Shape& s, i64 k) { return make_seq<std::vector<T>>(s, k); } };
template<typename T> struct Make<std::deque<T>> { static std::deque<T> of(const Shape& s, i64 k) { return make_seq<std::deque<T>>(s, k); } };
template<typename T, std::size_t N>
struct Make<std::array<T, N>>
{
    static std::array<T, N> of(const Shape& s, i64 k)
    {
        std::array<T, N> out;
        for (std::size_t i = 0; i < N; ++i) out[i] = Make<T>::of(sub(s, i), i % 2 == s.a % 2 ? k : (i64)(s.h((u64)k, i) % (1 + s.b)));
        return out;
    }
};
template<typename A, typename B>
struct Make<std::pair<A, B>>
{
    static std::pair<A, B> of(const Shape& s, i64 k)
    {
        return {Make<A>::of(sub(s, 1), s.a & 1 ? k : (i64)(s.h((u64)k, 1) % (1 + s.b))),
                Make<B>::of(sub(s, 2), s.a & 2 ? k : (i64)(s.h((u64)k, 2) % (1 + s.b)))};
    }
};
template<typename... T>
struct Make<std::tuple<T...>>
{
    template<std::size_t... I>
    static std::tuple<T...> of(const Shape& s, i64 k, std::index_sequence<I...>)
    {
        return std::tuple<T...>(Make<T>::of(sub(s, I), (s.a >> I) & 1 ? k : (i64)(s.h((u64)k, I) % (1 + s.b)))...);
    }
    static std::tuple<T...> of(const Shape& s, i64 k) { return of(s, k, std::index_sequence_for<T...>{}); }
};

// what a value looks like in a report
template<typename T> std::string show(const T& v)
{
    if constexpr (is_int<T>::value) { if (v < 0) return "-" + std::to_string((unsigned long long)(0 - (__uint128_t)v)); return std::to_string((unsigned long long)v); }
    else if constexpr (std::is_floating_point<T>::value) { char b[64]; std::snprintf(b, sizeof b, "%.17g", (double)v); return b; }
    else return "?";
}
template<typename C> std::string show(const std::basic_string<C>& v)
{
    std::string o = "\"";
    for (C c: v) { if (c >= 32 && c < 127) o.push_back((char)c); else { char b[16]; std::snprintf(b, sizeof b, "\\x%llx", (unsigned long long)(std::make_unsigned_t<C>)c); o += b; } }
    return o + "\"";
}
template<typename A, typename B> std::string show(const std::pair<A, B>& v) { return "(" + show(v.first) + "," + show(v.second) + ")"; }
template<typename T> std::string show(const std::vector<T>& v) { std::string o = "["; for (const T& x: v) o += show(x) + " "; return o + "]"; }
template<typename T> std::string show(const std::deque<T>& v) { std::string o = "["; for (auto& x: v) o += show(x) + " "; return o + "]"; }
template<typename T, std::size_t N> std::string show(const std::array<T, N>& v) { std::string o = "["; for (auto& x: v) o += show(x) + " "; return o + "]"; }
template<typename... T> std::string show(const std::tuple<T...>& v) { return std::apply([](auto&... x) { return "<" + ((show(x) + " ") + ... + "") + ">"; }, v); }
}

#endif
