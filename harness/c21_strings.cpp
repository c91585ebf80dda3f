// C21: natural order and case-insensitive order of sequences of characters.
#include "gen.h"
#include "pbt.h"
#include "types.h"
#include <cpp-sort/comparators/case_insensitive_less.h>
#include <cpp-sort/comparators/natural_less.h>
#include <cpp-sort/refined.h>
#include <cpp-sort/sorters/heap_sorter.h>
#include <cpp-sort/sorters/insertion_sorter.h>
#include <cpp-sort/sorters/merge_sorter.h>
#include <cpp-sort/sorters/pdq_sorter.h>
#include <deque>
#include <forward_list>
#include <list>
#include <locale>
#include <string>
#include <string_view>

namespace cs = cppsort;
using pbt::Src; using pbt::i64; using pbt::u64;
using std::string;

string show(const string& s) { string r = "\""; char b[8]; for (char c: s) { if (c >= 32 && c < 127 && c != '"' && c != '\\') r += c; else { std::snprintf(b, sizeof b, "\\x%02x", (unsigned char)c); r += b; } } return r + "\""; }

////////////////////////////////////////////////////////////
// Generation: related strings, as unrelated ones differ at once

string text(Src& src, std::size_t max, int flavour)
{
    string s;
    std::size_t n = src.below(max + 1);
    for (std::size_t i = 0; i < n; ++i)
        switch (flavour == 0 ? src.below(8) : src.below(9)) {
            case 0: case 1: s += '0'; break;
            case 2: case 3: s += (char)('0' + src.below(10)); break;
            case 4: s += (char)('a' + src.below(flavour ? 26 : 3)); break;
            case 5: { static const char near[] = {'/', ':', ' ', '-', '.', '@', '[', '`', '{', 'z', 'Z', 'A'}; s += src.pick(near); break; }
            case 6: s += (char)src.below(256); break;
            case 7: s += '1'; break;
            default: s += (char)('A' + src.below(26)); break;
        }
    return s;
}
string mutate(Src& src, string s)
{
    u64 times = 1 + src.below(2);
    while (times--) {
        std::size_t at = s.empty() ? 0 : src.below(s.size() + 1);
        switch (src.below(8)) {
            case 0: s.insert(at, 1 + src.below(3), '0'); break;
            case 1: s.insert(at, 1, (char)('0' + src.below(10))); break;
            case 2: s.insert(at, 1, (char)('a' + src.below(26))); break;
            case 3: if (at < s.size()) s.erase(at, 1); break;
            case 4: s.resize(at); break;
            case 5: if (at < s.size()) s[at] ^= 0x20; break;
            case 6: if (at < s.size()) s[at] = (char)(s[at] + (src.below(2) ? 1 : -1)); break;
            case 7: if (at < s.size()) s[at] = (char)src.below(256); break;
        }
    }
    return s;
}
void three(Src& src, string* s, int flavour)
{
    s[0] = text(src, 12, flavour);
    for (int i = 1; i < 3; ++i) s[i] = src.below(4) == 3 ? text(src, 12, flavour) : mutate(src, s[src.below((u64)i)]);
    for (int i = 0; i < 3; ++i) src.note("%s ", show(s[i]).c_str());
    src.nontrivial_if(s[0] != s[1] || s[1] != s[2]);
}
std::vector<string> many(Src& src, int flavour, std::size_t max)
{
    std::size_t n = src.below(max + 1);
    std::vector<string> v;
    for (std::size_t i = 0; i < n; ++i) v.push_back(v.empty() || src.below(4) == 3 ? text(src, 10, flavour) : mutate(src, v[src.below(v.size())]));
    src.note("%zu strings: ", n);
    for (std::size_t i = 0; i < n && i < 30; ++i) src.note("%s ", show(v[i]).c_str());
    src.nontrivial_if(n > 1);
    return v;
}

////////////////////////////////////////////////////////////
// Natural order: lexicographic order of numbers and other characters

struct Token { bool number; string digits; char c; };
std::vector<Token> tokens(const string& s)
{
    std::vector<Token> r;
    auto digit = [](char c) { return c >= '0' && c <= '9'; };
    for (std::size_t i = 0; i < s.size(); ) {
        if (!digit(s[i])) { r.push_back({false, "", s[i++]}); continue; }
        string d;
        char first = s[i];
        while (i < s.size() && digit(s[i])) d += s[i++];
        d.erase(0, std::min(d.find_first_not_of('0'), d.size()));
        r.push_back({true, d, first});
    }
    return r;
}
int cmp_token(const Token& a, const Token& b)
{
    if (a.number && b.number) {
        if (a.digits.size() != b.digits.size()) return a.digits.size() < b.digits.size() ? -1 : 1;
        int c = a.digits.compare(b.digits);
        return c < 0 ? -1 : c > 0;
    }
    return a.c < b.c ? -1 : a.c > b.c;     // no digit is equal to another character
}
bool natural(const string& a, const string& b)
{
    auto x = tokens(a), y = tokens(b);
    for (std::size_t i = 0; i < x.size() && i < y.size(); ++i)
        if (int c = cmp_token(x[i], y[i])) return c < 0;
    return x.size() < y.size();
}

template<typename F>
void laws(const char* name, F f, const string* s)
{
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
        if (f(s[i], s[j]) && f(s[j], s[i])) pbt::fail("%s is not asymmetric for %s and %s", name, show(s[i]).c_str(), show(s[j]).c_str());
        for (int k = 0; k < 3; ++k) {
            if (f(s[i], s[j]) && f(s[j], s[k]) && !f(s[i], s[k])) pbt::fail("%s is not transitive for %s, %s and %s", name, show(s[i]).c_str(), show(s[j]).c_str(), show(s[k]).c_str());
            if (!f(s[i], s[j]) && !f(s[j], s[i]) && !f(s[j], s[k]) && !f(s[k], s[j]) && (f(s[i], s[k]) || f(s[k], s[i])))
                pbt::fail("equivalence by %s is not transitive for %s, %s and %s", name, show(s[i]).c_str(), show(s[j]).c_str(), show(s[k]).c_str());
        }
    }
}
void want(const char* how, const string& a, const string& b, bool got, bool expected)
{
    if (got != expected) pbt::fail("%s returned %d for %s and %s", how, (int)got, show(a).c_str(), show(b).c_str());
}

// forward iterators over exactly the characters of the string: any access out of bounds is detected
template<typename Cat>
struct Bounded
{
    td::Buffer<char> buf;
    explicit Bounded(const string& s): buf(s.size(), 2, [&](char* at, i64 i) { *at = i < 0 || i >= (i64)s.size() ? '1' : s[i]; }) {}
    auto begin() const { return td::It<char, Cat>(&buf.g, buf.g.lo); }
    auto end() const { return td::It<char, Cat>(&buf.g, buf.g.hi); }
};
template<typename A>
A as(const string& s) { return A(s.begin(), s.end()); }
template<> Bounded<std::forward_iterator_tag> as(const string& s) { return Bounded<std::forward_iterator_tag>(s); }
template<> std::string_view as(const string& s) { return s; }

template<typename A, typename B>
void natural_form(const char* how, const string& s, const string& t)
{
    const A a = as<A>(s);
    const B b = as<B>(t);
    want(how, s, t, cs::natural_less(a, b), natural(s, t));
    want(how, t, s, cs::natural_less(b, a), natural(t, s));
}

void t_natural(Src& src)
{
    string s[3];
    three(src, s, 0);
    using Fwd = Bounded<std::forward_iterator_tag>;
    for (auto& a: s) for (auto& b: s) {
        want("natural_less", a, b, cs::natural_less(a, b), natural(a, b));
        natural_form<Fwd, Fwd>("natural_less of forward iterators", a, b);
    }
    laws("natural_less", cs::natural_less, s);
    switch (src.below(7)) {
        case 0: natural_form<std::vector<char>, std::vector<char>>("natural_less of vectors", s[0], s[1]); break;
        case 1: natural_form<std::list<char>, std::deque<char>>("natural_less of a list and a deque", s[0], s[1]); break;
        case 2: natural_form<std::forward_list<char>, string>("natural_less of a forward_list and a string", s[0], s[1]); break;
        case 3: natural_form<std::string_view, std::vector<char>>("natural_less of a view and a vector", s[0], s[1]); break;
        case 4: natural_form<string, Fwd>("natural_less of a string and forward iterators", s[0], s[1]); break;
        case 5: {   // array: the terminator is a character like the others
            char x[13] = {}; std::copy_n(s[0].begin(), std::min<std::size_t>(12, s[0].size()), x);
            string t(x, 13);
            want("natural_less of an array", t, s[1], cs::natural_less(x, s[1]), natural(t, s[1]));
            want("natural_less of an array", s[1], t, cs::natural_less(s[1], x), natural(s[1], t));
            break;
        }
        case 6: want("natural_less of rvalues", s[0], s[1], cs::natural_less(string(s[0]), string(s[1])), natural(s[0], s[1])); break;
    }
}

template<typename S, typename F, typename Less>
void sorted(const char* what, const S& sorter, F f, std::vector<string> v, Less less)
{
    auto ref = v;
    std::stable_sort(ref.begin(), ref.end(), less);
    sorter(v, f);
    for (std::size_t i = 0; i < v.size(); ++i)
        if (less(v[i], ref[i]) || less(ref[i], v[i])) pbt::fail("%s: %s at position %zu, expected %s", what, show(v[i]).c_str(), i, show(ref[i]).c_str());
    std::sort(v.begin(), v.end()); std::sort(ref.begin(), ref.end());
    if (v != ref) pbt::fail("%s: strings were lost", what);
}

void t_natural_sort(Src& src)
{
    auto v = many(src, 0, 60);
    sorted("natural_less, pdq_sorter", cs::pdq_sorter{}, cs::natural_less, v, natural);
    sorted("natural_less, merge_sorter", cs::merge_sorter{}, cs::natural_less, v, natural);
    sorted("natural_less, heap_sorter", cs::heap_sorter{}, cs::natural_less, v, natural);
}

// all pairs of strings over a few characters
void t_natural_all(Src& src)
{
    static const char alphabet[] = {'0', '1', '9', 'a', '/', '\xff'};
    auto nth = [](u64 i) { string s; u64 c = 1; for (std::size_t n = 0; ; ++n, c *= 6) { if (i < c) { s.resize(n); for (auto& x: s) { x = alphabet[i % 6]; i /= 6; } return s; } i -= c; } };
    const u64 total = pbt::g_thorough ? 1555 : 259;      // up to 3 characters (4: thorough)
    string a = nth(src.index(total));
    src.note("%s ", show(a).c_str());
    src.nontrivial();
    for (u64 j = 0; j < total; ++j) {
        string b = nth(j);
        want("natural_less", a, b, cs::natural_less(a, b), natural(a, b));
    }
}

// user types
namespace usr
{
    struct Name { string s; };
    bool natural_less(const Name& a, const Name& b) { return natural(b.s, a.s); }
    bool case_insensitive_less(const Name& a, const Name& b) { return a.s.size() < b.s.size(); }
    // strings for which only the version with a locale is provided
    struct Loc { string s; };
    bool case_insensitive_less(const Loc& a, const Loc& b, const std::locale& loc) { return std::use_facet<std::ctype<char>>(loc).tolower('A') == 'a' ? a.s < b.s : b.s < a.s; }
    struct Both: string { using string::string; };
    bool case_insensitive_less(const Both& a, const Both& b, const std::locale& loc) { return std::use_facet<std::ctype<char>>(loc).tolower('A') == 'a' ? a.size() < b.size() : b.size() < a.size(); }
    bool case_insensitive_less(const Both& a, const Both& b) { return a.size() % 3 < b.size() % 3; }
    struct Pair: string { using string::string; };
    bool case_insensitive_less(const Pair& a, const Pair& b) { return a.size() % 3 < b.size() % 3; }
    struct OnlyLoc: string { using string::string; };
    bool case_insensitive_less(const OnlyLoc& a, const OnlyLoc& b, const std::locale& loc) { return std::use_facet<std::ctype<char>>(loc).tolower('A') == 'a' ? a.size() < b.size() : b.size() < a.size(); }
}

////////////////////////////////////////////////////////////
// Case-insensitive order, with facets that do anything with characters

struct Fold: std::ctype<char>      // every fold of the characters is a valid lower-casing
{
    unsigned char table[256];
    bool ident;
    Fold(u64 kind, u64 seed): std::ctype<char>()
    {
        ident = kind == 0;
        for (int c = 0; c < 256; ++c) table[c] = (unsigned char)(kind == 0 ? c : kind == 1 ? 255 - c : kind == 2 ? c / 16 : pbt::mix(seed, c) & 0xff);
        table['A'] = 'A';
    }
    char do_tolower(char c) const override { return (char)table[(unsigned char)c]; }
    const char* do_tolower(char* b, const char* e) const override { for (; b != e; ++b) *b = do_tolower(*b); return e; }
};
struct WFold: std::ctype<wchar_t>
{
    u64 kind;
    explicit WFold(u64 kind): kind(kind) {}
    wchar_t do_tolower(wchar_t c) const override { return kind == 0 ? c : kind == 1 ? (wchar_t)(0xffff - c) : kind == 2 ? (wchar_t)(c / 16) : (wchar_t)(c ^ 0x15); }
    const wchar_t* do_tolower(wchar_t* b, const wchar_t* e) const override { for (; b != e; ++b) *b = do_tolower(*b); return e; }
};
std::locale locale(Src& src)
{
    u64 kind = src.below(6);
    src.note("locale %llu ", (unsigned long long)kind);
    if (kind >= 4) return std::locale::classic();
    u64 seed = src.below(1 << 16);
    return std::locale(std::locale(std::locale::classic(), new Fold(kind, seed)), new WFold(kind));
}
template<typename S>
bool folded(const S& a, const S& b, const std::locale& loc)
{
    using C = typename S::value_type;
    auto& ct = std::use_facet<std::ctype<C>>(loc);
    auto x = a.begin(); auto y = b.begin();
    for (; x != a.end() && y != b.end(); ++x, ++y) {
        C p = ct.tolower(*x), q = ct.tolower(*y);
        if (p != q) return p < q;
    }
    return x == a.end() && y != b.end();
}

template<typename Coll>
void fold_form(const char* how, const string& s, const string& t, const std::locale& loc)
{
    const Coll a(s.begin(), s.end()), b(t.begin(), t.end());
    std::locale old;
    bool expected = folded(a, b, loc), expected_old = folded(a, b, old);
    want(how, s, t, cs::case_insensitive_less(loc)(a, b), expected);
    want(how, s, t, cs::case_insensitive_less(loc).template refine<Coll>()(a, b), expected);
    want(how, s, t, cs::refined<Coll>(cs::case_insensitive_less(loc))(a, b), expected);
    want(how, s, t, cs::case_insensitive_less(a, b), expected_old);
    want(how, s, t, cs::refined<Coll>(cs::case_insensitive_less)(a, b), expected_old);
    want(how, s, t, cs::case_insensitive_less.template refine<Coll>()(loc)(a, b), expected);
    std::locale::global(loc);
    bool g = cs::case_insensitive_less(a, b), gr = cs::refined<Coll>(cs::case_insensitive_less)(a, b);
    std::locale::global(old);
    want("case_insensitive_less with the global locale", s, t, g, expected);
    want("refined case_insensitive_less with the global locale", s, t, gr, expected);
}

void t_case(Src& src)
{
    string s[3];
    three(src, s, 1);
    auto loc = locale(src);
    laws("case_insensitive_less", cs::case_insensitive_less, s);
    laws("case_insensitive_less with a locale", cs::case_insensitive_less(loc), s);
    switch (src.below(6)) {
        case 0: fold_form<string>("case_insensitive_less of strings", s[0], s[1], loc); break;
        case 1: fold_form<std::wstring>("case_insensitive_less of wide strings", s[0], s[1], loc); break;
        case 2: fold_form<std::vector<char>>("case_insensitive_less of vectors", s[0], s[1], loc); break;
        case 3: fold_form<std::list<wchar_t>>("case_insensitive_less of lists of wide characters", s[0], s[1], loc); break;
        case 4: fold_form<std::forward_list<char>>("case_insensitive_less of forward lists", s[0], s[1], loc); break;
        case 5: {
            Bounded<std::forward_iterator_tag> a(s[0]), b(s[1]);
            want("case_insensitive_less of forward iterators", s[0], s[1], cs::case_insensitive_less(loc)(a, b), folded(s[0], s[1], loc));
            break;
        }
    }
}
void t_case_sort(Src& src)
{
    auto v = many(src, 1, 60);
    auto loc = locale(src);
    auto less = [&](const string& a, const string& b) { return folded(a, b, loc); };
    auto def = [&](const string& a, const string& b) { return folded(a, b, std::locale()); };
    switch (src.below(4)) {
        case 0: sorted("case_insensitive_less(loc), pdq_sorter", cs::pdq_sorter{}, cs::case_insensitive_less(loc), v, less); break;
        case 1: sorted("refined case_insensitive_less(loc), merge_sorter", cs::merge_sorter{}, cs::refined<string>(cs::case_insensitive_less(loc)), v, less); break;
        case 2: sorted("case_insensitive_less, heap_sorter", cs::heap_sorter{}, cs::case_insensitive_less, v, def); break;
        case 3: sorted("refined case_insensitive_less, insertion_sorter", cs::insertion_sorter{}, cs::refined<string>(cs::case_insensitive_less), v, def); break;
    }
}

void t_custom(Src& src)
{
    string a = text(src, 8, 1), b = mutate(src, a);
    src.note("%s %s ", show(a).c_str(), show(b).c_str());
    src.nontrivial_if(a != b);
    usr::Name na{a}, nb{b};
    want("natural_less of a user type", a, b, cs::natural_less(na, nb), natural(b, a));
    want("case_insensitive_less of a user type", a, b, cs::case_insensitive_less(na, nb), a.size() < b.size());
    std::locale rev(std::locale::classic(), new Fold(0, 0)), id = std::locale::classic();
    usr::Loc la{a}, lb{b};
    want("case_insensitive_less(loc) of a user type", a, b, cs::case_insensitive_less(rev)(la, lb), b < a);
    want("case_insensitive_less(loc) of a user type", a, b, cs::case_insensitive_less(id)(la, lb), a < b);
    usr::Both ba(a.begin(), a.end()), bb(b.begin(), b.end());
    want("case_insensitive_less of a user type", a, b, cs::case_insensitive_less(ba, bb), a.size() % 3 < b.size() % 3);
    want("refined case_insensitive_less of a user type", a, b, cs::refined<usr::Both>(cs::case_insensitive_less)(ba, bb), a.size() % 3 < b.size() % 3);
    want("case_insensitive_less(loc) of a user type", a, b, cs::case_insensitive_less(rev)(ba, bb), b.size() < a.size());
    want("refined case_insensitive_less(loc) of a user type", a, b, cs::refined<usr::Both>(cs::case_insensitive_less(rev))(ba, bb), b.size() < a.size());
    usr::Pair pa(a.begin(), a.end()), pb(b.begin(), b.end());
    want("case_insensitive_less of a user string", a, b, cs::case_insensitive_less(pa, pb), a.size() % 3 < b.size() % 3);
    want("refined case_insensitive_less of a user string", a, b, cs::refined<usr::Pair>(cs::case_insensitive_less)(pa, pb), a.size() % 3 < b.size() % 3);
    usr::OnlyLoc oa(a.begin(), a.end()), ob(b.begin(), b.end());
    want("case_insensitive_less(loc) of a user string", a, b, cs::case_insensitive_less(rev)(oa, ob), b.size() < a.size());
    want("refined case_insensitive_less(loc) of a user string", a, b, cs::refined<usr::OnlyLoc>(cs::case_insensitive_less(rev))(oa, ob), b.size() < a.size());
    want("case_insensitive_less of a user string with a locale only", a, b, cs::case_insensitive_less(oa, ob), a.size() < b.size());
    want("case_insensitive_less of a user type with a locale only", a, b, cs::case_insensitive_less(la, lb), a < b);
    want("refined case_insensitive_less of a user string with a locale only", a, b, cs::refined<usr::OnlyLoc>(cs::case_insensitive_less)(oa, ob), a.size() < b.size());
}

void register_tests()
{
    pbt::add_test("natural", 30000, 600000, t_natural);
    pbt::add_test("natural, all pairs", 259, 1555, t_natural_all);
    pbt::add_test("natural, sort", 3000, 60000, t_natural_sort);
    pbt::add_test("case", 20000, 400000, t_case);
    pbt::add_test("case, sort", 3000, 60000, t_case_sort);
    pbt::add_test("user types", 3000, 10000, t_custom);
}
