// C15: container-aware sorting. Lists are relinked: same nodes, same allocator, valid links in both directions,
// stable or not as documented, complete after exceptions; containers with sorting functions found by
// argument-dependent lookup have the documented one called.
#include "alloc.h"
#include "sortcheck.h"

namespace cs = cppsort;
using pbt::Src; using pbt::i64; using pbt::u64;

// Neither copyable nor movable
struct Node
{
    int key, id;
    const Node* self;
    Node(int k, int i): key(k), id(i), self(this) { ++td::live_elems; }
    Node(const Node&) = delete;
    Node& operator=(const Node&) = delete;
    ~Node() { --td::live_elems; self = nullptr; key = -99; id = -99; }
    int get() const { if (self != this) pbt::fail("access to an element that does not exist"); return key; }
    friend bool operator<(const Node& a, const Node& b) { td::on_call(); return a.get() < b.get(); }
};

// stateful allocator: remembers which one it is; memory must come back to an equal one
struct ArenaCount { i64 live = 0; };
template<typename T>
struct Arena
{
    using value_type = T;
    using propagate_on_container_move_assignment = std::true_type;
    using propagate_on_container_swap = std::true_type;
    ArenaCount* owner;
    explicit Arena(ArenaCount* o): owner(o) {}
    template<typename U> Arena(const Arena<U>& o): owner(o.owner) {}
    T* allocate(std::size_t n) { T* p = (T*)::operator new(n * sizeof(T) + 16); *(ArenaCount**)((char*)p + n * sizeof(T)) = owner; ++owner->live; return p; }
    void deallocate(T* p, std::size_t n)
    {
        ArenaCount* o = *(ArenaCount**)((char*)p + n * sizeof(T));
        if (o != owner) pbt::fail("a node is returned to another allocator than its own");
        --owner->live;
        ::operator delete((void*)p);
    }
    friend bool operator==(const Arena& a, const Arena& b) { return a.owner == b.owner; }
    friend bool operator!=(const Arena& a, const Arena& b) { return a.owner != b.owner; }
};

template<typename L> struct is_list: std::false_type {};
template<typename... A> struct is_list<std::list<A...>>: std::true_type {};

template<typename L>
void fill_nodes(L& list, const std::vector<int>& keys, std::vector<const Node*>& where, std::vector<typename L::iterator>& its)
{
    where.resize(keys.size());
    its.resize(keys.size());
    for (std::size_t i = keys.size(); i-- > 0;) {
        list.emplace_front(keys[i], (int)i);
        where[i] = &list.front();
        its[i] = list.begin();
    }
}

// all of the nodes, at their addresses, links consistent
template<typename L>
void check_structure(L& list, const std::vector<int>& keys, const std::vector<const Node*>& where,
                     const std::vector<typename L::iterator>& its, const char* what)
{
    std::vector<char> seen(keys.size(), 0);
    std::vector<const Node*> order;
    std::size_t n = 0;
    for (auto it = list.begin(); it != list.end(); ++it) {
        PBT_CHECK(++n <= keys.size(), "%s: more elements in the list than before", what);
        const Node& e = *it;
        PBT_CHECK(e.self == &e && e.id >= 0 && (std::size_t)e.id < keys.size() && !seen[e.id] && e.key == keys[e.id], "%s: element %d of the list is not valid", what, (int)n - 1);
        seen[e.id] = 1;
        PBT_CHECK(where[e.id] == &e, "%s: element %d moved to another address", what, e.id);
        PBT_CHECK(its[e.id] == it, "%s: the iterator to element %d is no longer valid", what, e.id);
        order.push_back(&e);
    }
    PBT_CHECK(n == keys.size(), "%s: %zu elements in the list instead of %zu", what, n, keys.size());
    if constexpr (is_list<L>::value) {
        PBT_CHECK(list.size() == n, "%s: size() is %zu for %zu elements", what, list.size(), n);
        auto it = list.end();
        for (std::size_t i = n; i-- > 0;) {
            --it;
            PBT_CHECK(&*it == order[i], "%s: backward links differ from forward links at %zu", what, i);
        }
        PBT_CHECK(it == list.begin(), "%s: backward traversal does not end at the beginning", what);
    }
}

struct NodeCmp { gen::Order order; int mode; bool operator()(const Node& a, const Node& b) const { td::on_call(); return order(gen::proj_apply(mode, a.get()), gen::proj_apply(mode, b.get())); } };
struct NodeProj { int mode; int operator()(const Node& a) const { td::on_call(); return gen::proj_apply(mode, a.get()); } };
struct RefProj { const int& operator()(const Node& a) const { td::on_call(); a.get(); return a.key; } };
static int negated(const Node& a) { td::on_call(); return -a.get(); }

static u64 log2ceil(u64 n) { u64 l = 0; while ((u64(1) << l) < n) ++l; return l; }
// comparisons allowed, generously: only a change of complexity exceeds them
enum Cost { NLOGN, NSQUARE };

// the effective order of a call form
struct FormOrder { int form; const sc::Case* c; };
template<typename A, typename L>
void call(int form, const sc::Case& c, L& list)
{
    A a{};
    gen::Order o = c.order;
    switch (form) {
        case 0: a(list); break;
        case 1: a(list, NodeCmp{c.order, c.mode}); break;
        case 2: a(list, NodeProj{c.mode}); break;
        case 3: a(list, td::Cmp{c.order}, NodeProj{c.mode}); break;
        case 4: a(list, &Node::key); break;
        case 5: a(list, td::Cmp{c.order}, &Node::get); break;
        case 6: a(list, std::greater<>{}, &negated); break;
        case 7: a(list, td::Cmp{c.order}, RefProj{}); break;
    }
}
static sc::Case effective(int form, sc::Case c)
{
    if (form == 0 || form == 2 || form == 4 || form == 6) c.order = gen::Order{};
    if (form == 0 || form >= 4) c.mode = 0;
    return c;
}
static bool form_calls(int form) { return form != 4; }

template<typename A, typename L>
void t_list(Src& src, const char* name, bool stable, Cost cost, bool allocates)
{
    int form = (int)src.below(8);
    auto c = sc::draw(src, cost == NSQUARE ? (pbt::g_thorough ? 900 : 220) : (pbt::g_thorough ? 9000 : 1500));
    if (src.below(2)) sc::coarsen(src, c);
    auto e = effective(form, c);
    std::size_t n = c.keys.size();
    src.note("%s form %d", name, form);
    bool trivial = n < 2 || std::is_sorted(c.keys.begin(), c.keys.end(), [&](int a, int b) { return e.less(a, b); });
    i64 elems = td::live_elems, blocks = al::live_blocks;
    {
        ArenaCount arena;
        L list = [&] { if constexpr (std::is_constructible<L, Arena<Node>>::value) return L(Arena<Node>(&arena)); else return L(); }();
        std::vector<const Node*> where;
        std::vector<typename L::iterator> its;
        fill_nodes(list, c.keys, where, its);
        i64 created = td::live_elems, before = al::live_blocks;
        // what happens: nothing special, an exception, or memory exhaustion
        int event = (int)src.below(allocates ? 4 : 3);
        if (event == 3) {
            src.nontrivial_if(!trivial);
            al::arm(src.below(2) ? al::from_kth : al::kth, src.below(6), 1);
            bool caught = false;
            try { call<A>(form, c, list); } catch (const std::bad_alloc&) { caught = true; }
            al::disarm();
            src.classify(caught ? "bad_alloc" : "no allocation failed");
            check_structure(list, c.keys, where, its, name);
            PBT_CHECK(caught == (al::refused > 0), "%s: memory exhaustion not reported", name);
        } else if (event == 1 && form_calls(form)) {
            // count, then throw at one of the calls of the functions
            td::call_count = 0;
            ArenaCount arena2;
            L other = [&] { if constexpr (std::is_constructible<L, Arena<Node>>::value) return L(Arena<Node>(&arena2)); else return L(); }();
            std::vector<const Node*> where2;
            std::vector<typename L::iterator> its2;
            fill_nodes(other, c.keys, where2, its2);
            call<A>(form, c, other);
            u64 total = td::call_count;
            u64 at = src.below(total + 1);
            src.note(" throws at %llu of %llu", (unsigned long long)at, (unsigned long long)total);
            src.nontrivial_if(at < total && n > 2);
            src.classify(at < total ? "throws" : "does not throw");
            before = al::live_blocks; created = td::live_elems;
            td::call_count = 0;
            td::throw_at_call = (i64)at;
            bool caught = false;
            try { call<A>(form, c, list); } catch (const td::Boom&) { caught = true; }
            td::throw_at_call = -1; td::threw = false;
            PBT_CHECK(td::live_elems == created, "%s: elements lost after an exception", name);
            PBT_CHECK(caught == (at < total), "%s: the exception did not reach the caller", name);
            check_structure(list, c.keys, where, its, name);
            PBT_CHECK(al::live_blocks == before, "%s: memory leaked after an exception", name);
        } else {
            src.nontrivial_if(!trivial);
            src.classify("sorts");
        }
        // unstable only with respect to the order in which it now is
        bool expect_stable = stable && event != 1 && event != 3;
        created = (i64)n + elems; before = al::live_blocks;
        u64 before_total = al::total_allocs;
        td::call_count = 0;
        call<A>(form, c, list);
        PBT_CHECK(allocates || al::total_allocs == before_total, "%s: allocates memory", name);
        check_structure(list, c.keys, where, its, name);
        sc::verify(list.begin(), list.end(), e, name, expect_stable);
        if (form == 1) {
            u64 bound = cost == NSQUARE ? n * n + 10 : 4 * n * (log2ceil(n + 2) + 2) + 50;
            PBT_CHECK(td::call_count <= bound, "%s: %llu comparisons for %zu elements", name, (unsigned long long)td::call_count, n);
        }
        PBT_CHECK(td::live_elems == created && al::live_blocks == before, "%s: elements or memory created or lost", name);
        // elements can still be removed through the iterators and the rest sorted
        if (n > 2 && is_list<L>::value) {
            std::vector<int> rest = c.keys;
            if constexpr (is_list<L>::value) list.erase(its[n / 2]);
            std::size_t count = 0;
            for (auto& x: list) { (void)x; ++count; }
            PBT_CHECK(count == n - 1, "%s: %zu elements after removing one of %zu", name, count, n);
        }
        list.clear();
        PBT_CHECK(arena.live == 0, "%s: %lld nodes not returned to the allocator", name, (long long)arena.live);
    }
    PBT_CHECK(td::live_elems == elems && al::live_blocks == blocks, "%s: elements or memory leaked", name);
}

////////////////////////////////////////////////////////////
// Functions found by argument-dependent lookup

static std::string called;
static int sorted_by_adl;

namespace mine
{
    template<int Forms>     // bit 0: sort(s, c), 1: sort(s, c, compare), 2: sort(s, c, projection), 3: sort(s, c, compare, projection)
    struct Bag: std::vector<sc::Plain> {};

    template<typename S, int F, typename = std::enable_if_t<(F & 1) != 0>>
    int sort(S s, Bag<F>& b) { called = "sort()"; s(static_cast<std::vector<sc::Plain>&>(b)); return 1; }
    template<typename S, int F, typename C, std::enable_if_t<(F & 2) != 0 && cs::is_projection_v<cs::utility::identity, std::vector<sc::Plain>, C>, int> = 0>
    int sort(S s, Bag<F>& b, C c) { called = "sort(compare)"; s(static_cast<std::vector<sc::Plain>&>(b), c); return 2; }
    template<typename S, int F, typename P, std::enable_if_t<(F & 4) != 0 && cs::is_projection_v<P, std::vector<sc::Plain>>, long> = 0>
    int sort(S s, Bag<F>& b, P p) { called = "sort(projection)"; s(static_cast<std::vector<sc::Plain>&>(b), p); return 3; }
    template<typename S, int F, typename C, typename P, typename = std::enable_if_t<(F & 8) != 0 && cs::is_projection_v<P, std::vector<sc::Plain>, C>>>
    int sort(S s, Bag<F>& b, C c, P p) { called = "sort(compare, projection)"; s(static_cast<std::vector<sc::Plain>&>(b), c, p); return 4; }
}
struct ResultImpl
{
    template<typename It, typename C = std::less<>, typename P = cs::utility::identity, typename = cs::detail::enable_if_t<cs::is_projection_iterator_v<P, It, C>>>
    auto operator()(It first, It last, C c = {}, P p = {}) const -> int { cs::merge_sorter{}(first, last, c, p); return 9; }
    using iterator_category = std::forward_iterator_tag;
    using is_always_stable = std::true_type;
};
struct Result: cs::sorter_facade<ResultImpl> {};

template<int F>
void adl_forms(Src& src)
{
    int form = (int)src.below(4);
    bool iterators = src.below(5) == 0;
    auto c = sc::draw(src, 100);
    if (form == 0 || form == 2) c.order = gen::Order{};
    if (form < 2) c.mode = 0;
    mine::Bag<F> bag;
    sc::fill<sc::Plain>(static_cast<std::vector<sc::Plain>&>(bag), c.keys);
    src.note("functions %d form %d iterators %d", F, form, (int)iterators);
    src.nontrivial();
    called.clear();
    cs::container_aware_adapter<Result> a;
    int r = 0, expected = 9;
    if (iterators) {
        switch (form) {
            case 0: r = a(bag.begin(), bag.end()); break;
            case 1: r = a(bag.begin(), bag.end(), c.ecmp()); break;
            case 2: r = a(bag.begin(), bag.end(), c.proj()); break;
            case 3: r = a(bag.begin(), bag.end(), c.cmp(), c.proj()); break;
        }
    } else {
        switch (form) {
            case 0: r = a(bag); if (F & 1) expected = 1; break;
            case 1: r = a(bag, c.ecmp()); if (F & 2) expected = 2; break;
            case 2: r = a(bag, c.proj()); expected = F & 4 ? 3 : F & 8 ? 4 : F & 2 ? 2 : 9; break;
            case 3: r = a(bag, c.cmp(), c.proj()); expected = F & 8 ? 4 : F & 2 ? 2 : 9; break;
        }
    }
    PBT_CHECK(r == expected, "container with functions %d, form %d: function %d called instead of %d (%s)", F, form, r, expected, called.c_str());
    sc::verify(bag.begin(), bag.end(), c, "container with its own functions", true);
}
template<int... F>
void adl_all(Src& src, std::integer_sequence<int, F...>)
{
    using Fn = void (*)(Src&);
    static const Fn table[] = {&adl_forms<F>...};
    table[src.below(sizeof...(F))](src);
}

template<int I, typename A, typename L>
void add(const char* name, bool stable, Cost cost, bool allocates)
{
    if constexpr (I % NPARTS == PART)
        pbt::add_test(name, cost == NSQUARE ? 5000 : 6000, cost == NSQUARE ? 100000 : 200000, [=](Src& s) { t_list<A, L>(s, name, stable, cost, allocates); });
}

void register_tests()
{
    using List = std::list<Node>; using FList = std::forward_list<Node>;
    using AList = std::list<Node, Arena<Node>>; using AFList = std::forward_list<Node, Arena<Node>>;
    enum { base = __COUNTER__ };
#define K(sorter, L, stable, cost, alloc) add<__COUNTER__ - base - 1, cs::container_aware_adapter<cs::sorter>, L>("container_aware<" #sorter "> " #L, stable, cost, alloc);
#define KK(sorter, stable, cost, alloc) K(sorter, List, stable, cost, alloc) K(sorter, FList, stable, cost, alloc) K(sorter, AList, stable, cost, alloc) K(sorter, AFList, stable, cost, alloc)
    KK(insertion_sorter, true, NSQUARE, false)
    KK(merge_sorter, true, NLOGN, false)
    KK(selection_sorter, true, NSQUARE, false)
    KK(mel_sorter, false, NLOGN, true)
    if constexpr (PART == 0) pbt::add_test("functions of the container", 20000, 400000, [](Src& s) { adl_all(s, std::make_integer_sequence<int, 16>{}); });
}
