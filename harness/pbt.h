// Small Hypothesis-style property-based testing engine.
//
// * a test draws every random decision from a Src (a recorded choice sequence);
// * cases run in a forked worker, so crashes, sanitizer aborts and hangs are failures
//   of the case being run, never of the driver;
// * a failing choice sequence is shrunk (list deletion, value lowering) by replaying
//   candidates in forked children, then replayed three times before being reported;
// * the replay file is the shrunk choice sequence.
#ifndef PBT_H_
#define PBT_H_

#include <type_traits>
#include <utility>
#include <algorithm>
#include <cinttypes>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

// std::is_invocable, for C++14
template<typename, typename F, typename... A> struct CanCallImpl: std::false_type {};
template<typename F, typename... A>
struct CanCallImpl<decltype(void(std::declval<F>()(std::declval<A>()...))), F, A...>: std::true_type {};
template<typename F, typename... A> struct CanCall: CanCallImpl<void, F, A...> {};

template<typename, typename R, typename F, typename... A> struct CanCallRImpl: std::false_type {};
template<typename R, typename F, typename... A>
struct CanCallRImpl<decltype(void(static_cast<void (*)(R)>(nullptr)(std::declval<F>()(std::declval<A>()...)))), R, F, A...>: std::true_type {};
template<typename R, typename F, typename... A> struct CanCallR: CanCallRImpl<void, R, F, A...> {};

namespace pbt
{
using u64 = std::uint64_t;
using i64 = std::int64_t;

constexpr std::size_t max_choices = 1u << 18;
constexpr std::size_t max_lists = 64;
constexpr std::size_t hash_slots = 1u << 20;
constexpr std::size_t max_labels = 256;
constexpr int exit_fail = 77;
constexpr int exit_hang = 78;

struct ListSpan
{
    // [first, len_idx] header: pattern choice .. length choice, then elements at
    // [elems, elems + n); [first, end) is everything the generator drew
    std::uint32_t first, len_idx, elems, n, end;
    std::uint32_t lit_off;      // offset of literal values in Shm::lits (n of them)
};

struct Shm
{
    int test;
    u64 case_idx;
    u64 evals, nontrivial, discards, overflow;
    char msg[16384];
    char key[256];
    char desc[65536];
    std::uint32_t desc_len;
    std::uint32_t nchoices;
    u64 choices[max_choices];
    std::uint32_t nlists;
    ListSpan lists[max_lists];
    std::uint32_t nlits;
    i64 lits[max_choices];
    u64 table[hash_slots];
    u64 table_used;
    struct { char name[64]; u64 count; } labels[max_labels];
    std::uint32_t nlabels;
};

inline Shm* shm = nullptr;
inline bool g_thorough = false;
inline u64 g_seed = 1;
inline bool g_in_worker = false;
inline volatile bool g_armed = false;    // a case is running

[[noreturn]] inline void vfail(const char* key, const char* fmt, va_list ap)
{
    std::vsnprintf(shm->msg, sizeof shm->msg, fmt, ap);
    std::snprintf(shm->key, sizeof shm->key, "%s", key);
    _exit(exit_fail);
}
[[noreturn]] __attribute__((format(printf, 1, 2)))
inline void fail(const char* fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    vfail("", fmt, ap);
}
// Failure carrying an identification key: only these can be matched by known findings
[[noreturn]] __attribute__((format(printf, 2, 3)))
inline void fail_key(const char* key, const char* fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    vfail(key, fmt, ap);
}

#define PBT_CHECK(cond, ...) do { if (!(cond)) { ::pbt::fail(__VA_ARGS__); } } while (0)

inline u64 splitmix(u64& x)
{
    u64 z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline u64 mix(u64 a, u64 b)
{
    u64 x = a * 0x9e3779b97f4a7c15ull + b + 0x632be59bd9b4e019ull;
    return splitmix(x);
}
inline u64 hash_str(const char* s)
{
    u64 h = 1469598103934665603ull;
    for (; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ull;
    return h;
}

class Src
{
    u64 s[4];
    bool replay_ = false;
    std::size_t pos_ = 0;
    const std::vector<u64>* seq_ = nullptr;
    u64 hash_ = 0;
    bool nontrivial_ = false;

    u64 raw()
    {
        auto rotl = [](u64 x, int k) { return (x << k) | (x >> (64 - k)); };
        u64 result = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3];
        s[2] ^= t; s[3] = rotl(s[3], 45);
        return result;
    }

public:
    bool verbose = false;
    u64 case_idx = 0;

    explicit Src(u64 seed)
    {
        for (auto& v: s) v = splitmix(seed);
        reset_rec();
    }
    explicit Src(const std::vector<u64>& seq): replay_(true), seq_(&seq)
    {
        s[0] = s[1] = s[2] = s[3] = 1;
        reset_rec();
    }
    static void reset_rec()
    {
        shm->nchoices = 0; shm->nlists = 0; shm->nlits = 0; shm->desc_len = 0;
        shm->desc[0] = 0; shm->msg[0] = 0; shm->key[0] = 0;
    }

    u64 record(u64 v)
    {
        if (shm->nchoices < max_choices) shm->choices[shm->nchoices++] = v;
        else shm->overflow = 1;
        hash_ = mix(hash_, v);
        return v;
    }
    u64 choice_below(u64 n)    // uniform in [0, n); n == 0 means the full 64 bits
    {
        if (replay_) {
            u64 v = pos_ < seq_->size() ? (*seq_)[pos_] : 0;
            ++pos_;
            if (n != 0 && v >= n) v = n - 1;
            return record(v);
        }
        u64 v = raw();
        if (n != 0) v = static_cast<u64>((static_cast<unsigned __int128>(v) * n) >> 64);
        return record(v);
    }
    // Draw a value computed from private randomness (not uniform): replayable
    u64 choice_with(u64 n, u64 value)
    {
        if (replay_) return choice_below(n);
        return record(value);
    }
    bool replaying() const { return replay_; }
    u64 entropy() { return raw(); }     // unrecorded; only to compute choice_with values

    u64 bits() { return choice_below(0); }
    u64 below(u64 n) { return n <= 1 ? (record(0), replay_ ? (++pos_, 0) : 0) : choice_below(n); }
    i64 range(i64 lo, i64 hi) { return lo + static_cast<i64>(below(static_cast<u64>(hi - lo) + 1)); }
    bool chance(u64 num, u64 den)
    {
        // false is the simple value
        if (replay_) return choice_below(2) != 0;
        return record((raw() % den) < num ? 1 : 0) != 0;
    }
    template<typename T, std::size_t N>
    const T& pick(const T (&arr)[N]) { return arr[below(N)]; }
    template<typename C>
    auto& pick(C& c) { return c[below(c.size())]; }

    // Exhaustive tests: the case index, recorded as a choice
    u64 index(u64 n) { return choice_with(n, n ? case_idx % n : 0); }

    std::size_t mark() const { return shm->nchoices; }
    void add_list(std::size_t first, std::size_t len_idx, std::size_t elems, std::size_t n,
                  const i64* lits)
    {
        if (shm->nlists >= max_lists || shm->nchoices >= max_choices) return;
        if (shm->nlits + n > max_choices) return;
        auto& l = shm->lists[shm->nlists++];
        l.first = first; l.len_idx = len_idx; l.elems = elems; l.n = n;
        l.end = shm->nchoices; l.lit_off = shm->nlits;
        for (std::size_t i = 0; i < n; ++i) shm->lits[shm->nlits++] = lits[i];
    }

    void nontrivial() { nontrivial_ = true; }
    void nontrivial_if(bool b) { if (b) nontrivial_ = true; }
    bool is_nontrivial() const { return nontrivial_; }
    u64 hash() const { return hash_; }
    void mix_hash(u64 v) { hash_ = mix(hash_, v); }

    void classify(const char* label)
    {
        for (std::uint32_t i = 0; i < shm->nlabels; ++i) {
            if (std::strcmp(shm->labels[i].name, label) == 0) { ++shm->labels[i].count; return; }
        }
        if (shm->nlabels < max_labels) {
            auto& l = shm->labels[shm->nlabels++];
            std::snprintf(l.name, sizeof l.name, "%s", label);
            l.count = 1;
        }
    }

    __attribute__((format(printf, 2, 3)))
    void note(const char* fmt, ...)
    {
        if (!verbose) return;
        va_list ap; va_start(ap, fmt);
        std::size_t room = sizeof shm->desc - shm->desc_len;
        if (room > 1) {
            int k = std::vsnprintf(shm->desc + shm->desc_len, room, fmt, ap);
            if (k > 0) shm->desc_len += std::min<std::size_t>(k, room - 1);
        }
        va_end(ap);
    }
    template<typename Seq>
    void note_seq(const char* name, const Seq& seq, std::size_t limit = 400)
    {
        if (!verbose) return;
        note("%s[%zu]={", name, (std::size_t)seq.size());
        std::size_t i = 0;
        for (auto&& v: seq) {
            if (i == limit) { note(",..."); break; }
            std::ostringstream os;
            os << v;
            note("%s%s", i ? "," : "", os.str().c_str());
            ++i;
        }
        note("} ");
    }
};

struct Test
{
    const char* name;
    u64 quick_cases;
    u64 thorough_cases;
    std::function<void(Src&)> fn;
};
inline std::vector<Test>& tests() { static std::vector<Test> v; return v; }

inline void add_test(std::string name, u64 quick, u64 thorough, std::function<void(Src&)> fn)
{
    char* nm = strdup(name.c_str());
    tests().push_back({nm, quick, thorough, std::move(fn)});
}
// an exhaustive test has the same number of cases in both tiers

inline std::vector<std::string> known_keys;
inline bool is_known(const char* key)
{
    if (!*key) return false;
    for (auto& k: known_keys) if (k == key) return true;
    return false;
}

////////////////////////////////////////////////////////////

struct RunResult { int kind = 0; std::string msg, key; };  // 0 ok, 1 failure

inline int g_cpu_limit = 60;
inline std::string g_errfile;

inline void on_prof(int)
{
    std::snprintf(shm->msg, sizeof shm->msg, "no result after %d s of CPU time in one case", g_cpu_limit);
    shm->key[0] = 0;
    _exit(exit_hang);
}
inline void arm_timer(bool on)
{
    itimerval tv{};
    tv.it_value.tv_sec = on ? g_cpu_limit : 0;
    setitimer(ITIMER_PROF, &tv, nullptr);
}

inline std::string slurp(const std::string& path, std::size_t limit = 3000)
{
    std::ifstream in(path);
    std::stringstream ss; ss << in.rdbuf();
    auto s = ss.str();
    if (s.size() > limit) s.resize(limit);
    return s;
}

inline RunResult decode(int status)
{
    RunResult r;
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0) return r;
    r.kind = 1;
    if (WIFEXITED(status) && (WEXITSTATUS(status) == exit_fail || WEXITSTATUS(status) == exit_hang)) {
        r.msg = shm->msg;
        r.key = shm->key;
    } else {
        char buf[128];
        if (WIFSIGNALED(status)) std::snprintf(buf, sizeof buf, "killed by signal %d", WTERMSIG(status));
        else std::snprintf(buf, sizeof buf, "exited with status %d", WEXITSTATUS(status));
        r.msg = std::string(buf) + ": " + slurp(g_errfile);
    }
    return r;
}

inline void child_setup()
{
    g_in_worker = true;
    signal(SIGPROF, on_prof);
    int fd = open(g_errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) { dup2(fd, 2); close(fd); }
    rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
}

inline RunResult run_choices(int test, const std::vector<u64>& seq, bool verbose)
{
    std::fflush(nullptr);
    shm->msg[0] = 0; shm->key[0] = 0;
    pid_t pid = fork();
    if (pid == 0) {
        child_setup();
        Src src(seq);
        src.verbose = verbose;
        shm->test = test;
        arm_timer(true);
        tests()[test].fn(src);
        _exit(0);
    }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0) {}
    return decode(status);
}

// Records the choices of a generated case (and its description when verbose)
inline RunResult run_seed(int test, u64 seed, u64 case_idx, bool verbose)
{
    std::fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        child_setup();
        Src src(seed);
        src.verbose = verbose;
        src.case_idx = case_idx;
        shm->test = test;
        arm_timer(true);
        tests()[test].fn(src);
        _exit(0);
    }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0) {}
    return decode(status);
}

inline u64 case_seed(int test, u64 idx)
{
    return mix(mix(g_seed, hash_str(tests()[test].name)), idx);
}

struct Rec { std::vector<u64> ch; std::vector<ListSpan> lists; std::vector<i64> lits; };
inline Rec snapshot()
{
    Rec r;
    r.ch.assign(shm->choices, shm->choices + shm->nchoices);
    r.lists.assign(shm->lists, shm->lists + shm->nlists);
    r.lits.assign(shm->lits, shm->lits + shm->nlits);
    return r;
}
inline u64 zigzag(i64 v) { return (static_cast<u64>(v) << 1) ^ static_cast<u64>(v >> 63); }
inline i64 unzigzag(u64 v) { return static_cast<i64>(v >> 1) ^ -static_cast<i64>(v & 1); }

inline double now()
{
    timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

inline Rec shrink(int test, Rec cur, double budget_s, int max_runs)
{
    double t0 = now();
    int runs = 0;
    auto out = [&] { return runs >= max_runs || now() - t0 > budget_s; };
    auto attempt = [&](const std::vector<u64>& cand) {
        if (out()) return false;
        ++runs;
        auto r = run_choices(test, cand, false);
        if (r.kind == 0 || is_known(r.key.c_str())) return false;
        Rec n = snapshot();
        // must be smaller in shortlex order
        if (n.ch.size() > cur.ch.size()) return false;
        if (n.ch.size() == cur.ch.size() && !std::lexicographical_compare(
                n.ch.begin(), n.ch.end(), cur.ch.begin(), cur.ch.end())) return false;
        cur = std::move(n);
        return true;
    };

    // make generated lists literal
    for (std::size_t li = 0; li < cur.lists.size() && !out(); ++li) {
        auto l = cur.lists[li];
        if (cur.ch[l.first] == 0) continue;
        std::vector<u64> cand(cur.ch.begin(), cur.ch.begin() + l.first);
        cand.push_back(0);
        cand.push_back(l.n);
        for (std::uint32_t i = 0; i < l.n; ++i) cand.push_back(zigzag(cur.lits[l.lit_off + i]));
        cand.insert(cand.end(), cur.ch.begin() + l.end, cur.ch.end());
        // literal form may be a bit longer: bypass the size test
        if (out()) break;
        ++runs;
        auto r = run_choices(test, cand, false);
        if (r.kind != 0 && !is_known(r.key.c_str())) cur = snapshot();
    }

    bool progress = true;
    while (progress && !out()) {
        progress = false;
        // delete chunks of list elements
        for (std::size_t li = 0; li < cur.lists.size() && !out(); ++li) {
            for (std::size_t chunk = std::max<std::size_t>(1, cur.lists[li].n / 2); chunk >= 1; chunk /= 2) {
                for (std::size_t at = 0; li < cur.lists.size() && at + chunk <= cur.lists[li].n && !out(); ) {
                    auto l = cur.lists[li];
                    auto cand = cur.ch;
                    cand[l.len_idx] -= chunk;
                    cand.erase(cand.begin() + l.elems + at, cand.begin() + l.elems + at + chunk);
                    if (attempt(cand)) progress = true;
                    else at += chunk;
                }
                if (chunk == 1) break;
            }
        }
        // rank-compress the values of literal lists
        for (std::size_t li = 0; li < cur.lists.size() && !out(); ++li) {
            auto l = cur.lists[li];
            if (cur.ch[l.first] != 0) continue;
            std::vector<i64> vals(cur.lits.begin() + l.lit_off, cur.lits.begin() + l.lit_off + l.n);
            auto sorted = vals;
            std::sort(sorted.begin(), sorted.end());
            sorted.erase(std::unique(sorted.begin(), sorted.end()), sorted.end());
            auto cand = cur.ch;
            for (std::size_t i = 0; i < vals.size(); ++i) {
                cand[l.elems + i] = zigzag(std::lower_bound(sorted.begin(), sorted.end(), vals[i]) - sorted.begin());
            }
            if (cand != cur.ch && attempt(cand)) progress = true;
        }
        // lower individual choices, the non-list ones first
        std::vector<std::size_t> order;
        std::vector<char> inlist(cur.ch.size(), 0);
        for (auto& l: cur.lists)
            for (std::size_t i = l.elems; i < l.elems + l.n && i < inlist.size(); ++i) inlist[i] = 1;
        for (std::size_t i = 0; i < cur.ch.size(); ++i) if (!inlist[i]) order.push_back(i);
        if (cur.ch.size() < 600)
            for (std::size_t i = 0; i < cur.ch.size(); ++i) if (inlist[i]) order.push_back(i);
        for (auto i: order) {
            if (out()) break;
            if (i >= cur.ch.size() || cur.ch[i] == 0) continue;
            bool islen = false;
            for (auto& l: cur.lists) if (l.len_idx == i) islen = true;
            if (islen) continue;
            u64 v = cur.ch[i];
            for (u64 nv: {u64(0), u64(1), v / 2, v - 1}) {
                if (nv >= v) continue;
                auto cand = cur.ch;
                cand[i] = nv;
                if (attempt(cand)) { progress = true; break; }
            }
        }
    }
    return cur;
}

inline std::string json_escape(const std::string& s)
{
    std::string o;
    for (unsigned char c: s) {
        if (c == '"') o += "\\\"";
        else if (c == '\\') o += "\\\\";
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c >= 127) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o;
}

inline void table_add(u64 h)
{
    if (h == 0) h = 1;
    if (shm->table_used * 10 > hash_slots * 8) return;
    std::size_t i = h & (hash_slots - 1);
    while (shm->table[i] != 0 && shm->table[i] != h) i = (i + 1) & (hash_slots - 1);
    if (shm->table[i] == 0) { shm->table[i] = h; ++shm->table_used; }
}

inline int main_impl(int argc, char** argv)
{
    std::string out, replay, only;
    u64 shard = 0, nshards = 1;
    double cap = 1e9;
    double scale = 1.0;
    bool list = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&] { return std::string(argv[++i]); };
        if (a == "--seed") g_seed = std::stoull(next());
        else if (a == "--tier") g_thorough = next() == "thorough";
        else if (a == "--out") out = next();
        else if (a == "--replay") replay = next();
        else if (a == "--shard") shard = std::stoull(next());
        else if (a == "--nshards") nshards = std::stoull(next());
        else if (a == "--cap") cap = std::stod(next());
        else if (a == "--scale") scale = std::stod(next());
        else if (a == "--only") only = next();
        else if (a == "--cpu") g_cpu_limit = std::stoi(next());
        else if (a == "--known") known_keys.push_back(next());
        else if (a == "--list") list = true;
    }
    if (list) {
        for (auto& t: tests()) std::printf("%s %" PRIu64 " %" PRIu64 "\n", t.name, t.quick_cases, t.thorough_cases);
        return 0;
    }
    shm = static_cast<Shm*>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE,
                                 MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (shm == MAP_FAILED) { std::perror("mmap"); return 3; }
    g_errfile = (out.empty() ? std::string("/tmp/pbt.") + std::to_string(getpid()) : out) + ".err";

    if (!replay.empty()) {
        std::ifstream in(replay);
        std::string word, tname;
        std::vector<u64> seq;
        int test = -1;
        while (in >> word) {
            if (word == "test") {
                in >> tname;
            } else if (word == "choices") {
                std::size_t n; in >> n;
                seq.resize(n);
                for (auto& v: seq) in >> v;
            } else {
                std::getline(in, word);
            }
        }
        for (std::size_t i = 0; i < tests().size(); ++i) if (tname == tests()[i].name) test = i;
        if (test < 0) return 4;    // not in this executable
        auto r = run_choices(test, seq, true);
        std::printf("test: %s\ncase: %s\n", tname.c_str(), shm->desc);
        if (r.kind) std::printf("FAILED: %s\n", r.msg.c_str());
        else std::printf("passed\n");
        unlink(g_errfile.c_str());
        return r.kind ? 1 : 0;
    }

    struct Agg { u64 evals, nontriv; };
    std::vector<Agg> agg(tests().size(), Agg{0, 0});
    std::vector<std::pair<int, u64>> samples;
    std::set<std::string> known_seen;
    struct Viol { int test; Rec rec; RunResult res; std::string desc; };
    std::vector<Viol> viols;
    double t0 = now();
    bool capped = false;

    for (std::size_t t = 0; t < tests().size() && viols.empty(); ++t) {
        if (!only.empty() && std::string(tests()[t].name).find(only) == std::string::npos) continue;
        u64 total = g_thorough ? tests()[t].thorough_cases : tests()[t].quick_cases;
        bool exhaustive = tests()[t].quick_cases == tests()[t].thorough_cases;
        if (!exhaustive) total = std::max<u64>(1, (u64)(total * scale));
        u64 next_idx = shard;
        int deaths = 0;
        while (next_idx < total && viols.empty()) {
            if (now() - t0 > cap) { capped = true; break; }
            shm->evals = 0; shm->nontrivial = 0;
            shm->case_idx = ~u64(0);
            std::fflush(nullptr);
            pid_t pid = fork();
            if (pid == 0) {
                child_setup();
                shm->test = t;
                for (u64 idx = next_idx; idx < total; idx += nshards) {
                    shm->case_idx = idx;
                    Src src(case_seed(t, idx));
                    src.case_idx = idx;
                    arm_timer(true);
                    tests()[t].fn(src);
                    ++shm->evals;
                    if (src.is_nontrivial()) {
                        ++shm->nontrivial;
                        table_add(mix(src.hash(), hash_str(tests()[t].name)));
                    }
                    if (now() - t0 > cap) _exit(0);
                }
                _exit(0);
            }
            int status = 0;
            while (waitpid(pid, &status, 0) < 0) {}
            agg[t].evals += shm->evals;
            agg[t].nontriv += shm->nontrivial;
            auto r = decode(status);
            if (r.kind == 0) {
                if (now() - t0 > cap && shm->case_idx + nshards < total) capped = true;
                break;
            }
            if (shm->case_idx == ~u64(0)) {
                std::fprintf(stderr, "worker died before its first case: %s\n", r.msg.c_str());
                return 3;
            }
            u64 bad = shm->case_idx;
            ++agg[t].evals;
            next_idx = bad + nshards;
            if (is_known(r.key.c_str())) {
                known_seen.insert(r.key);
                if (++deaths > 200000) break;
                continue;
            }
            // Reproduce from the seed, recording choices
            auto r2 = run_seed(t, case_seed(t, bad), bad, false);
            if (r2.kind == 0) {
                std::fprintf(stderr, "unreproducible failure in %s case %" PRIu64 ": %s\n",
                             tests()[t].name, bad, r.msg.c_str());
                if (++deaths > 20) return 3;
                continue;
            }
            Rec rec = snapshot();
            bool full = shm->overflow == 0;
            if (full) rec = shrink(t, rec, 25.0, 3000);
            // Three confirmations
            int confirmed = 0;
            RunResult last;
            std::string desc;
            for (int k = 0; k < 3; ++k) {
                last = run_choices(t, rec.ch, true);
                desc = shm->desc;
                if (last.kind) ++confirmed;
            }
            if (confirmed == 3) viols.push_back({(int)t, rec, last, desc});
            else {
                std::fprintf(stderr, "flaky failure in %s case %" PRIu64 " (%d/3): %s\n",
                             tests()[t].name, bad, confirmed, r.msg.c_str());
                if (++deaths > 20) return 3;
            }
        }
    }

    // Sample descriptions: re-run a few cases verbosely
    std::vector<std::pair<std::string, std::string>> descs;
    {
        std::size_t want = 4;
        std::size_t step = std::max<std::size_t>(1, tests().size() / want);
        for (std::size_t t = 0; t < tests().size() && descs.size() < want; t += step) {
            if (agg[t].evals == 0) continue;
            u64 total = agg[t].evals;
            for (u64 k = 1; k < 4; ++k) {
                u64 idx = shard + nshards * (total * k / 4);
                run_seed(t, case_seed(t, idx), idx, true);
                std::string d = shm->desc;
                if (d.size() > 20) {
                    if (d.size() > 500) d = d.substr(0, 500) + "...";
                    descs.emplace_back(tests()[t].name, d);
                    break;
                }
            }
        }
    }

    std::ostringstream os;
    os << "{\"tests\":[";
    bool first = true;
    u64 ev = 0, nt = 0;
    for (std::size_t t = 0; t < tests().size(); ++t) {
        if (!agg[t].evals) continue;
        os << (first ? "" : ",") << "{\"name\":\"" << json_escape(tests()[t].name) << "\",\"evals\":"
           << agg[t].evals << ",\"nontrivial\":" << agg[t].nontriv << "}";
        first = false;
        ev += agg[t].evals; nt += agg[t].nontriv;
    }
    os << "],\"evals\":" << ev << ",\"nontrivial\":" << nt << ",\"distinct\":" << shm->table_used
       << ",\"capped\":" << (capped ? "true" : "false") << ",\"wall\":" << now() - t0;
    os << ",\"labels\":{";
    for (std::uint32_t i = 0; i < shm->nlabels; ++i)
        os << (i ? "," : "") << "\"" << json_escape(shm->labels[i].name) << "\":" << shm->labels[i].count;
    os << "},\"samples\":[";
    for (std::size_t i = 0; i < descs.size(); ++i)
        os << (i ? "," : "") << "{\"test\":\"" << json_escape(descs[i].first) << "\",\"case\":\""
           << json_escape(descs[i].second) << "\"}";
    os << "],\"known\":[";
    first = true;
    for (auto& k: known_seen) { os << (first ? "" : ",") << "\"" << json_escape(k) << "\""; first = false; }
    os << "],\"violations\":[";
    for (std::size_t i = 0; i < viols.size(); ++i) {
        auto& v = viols[i];
        os << (i ? "," : "") << "{\"test\":\"" << json_escape(tests()[v.test].name) << "\",\"msg\":\""
           << json_escape(v.res.msg) << "\",\"key\":\"" << json_escape(v.res.key) << "\",\"case\":\""
           << json_escape(v.desc) << "\",\"choices\":[";
        for (std::size_t k = 0; k < v.rec.ch.size(); ++k) os << (k ? "," : "") << v.rec.ch[k];
        os << "]}";
    }
    os << "]}";
    if (!out.empty()) {
        std::ofstream(out) << os.str() << "\n";
        // distinct hashes, for the union over shards
        std::ofstream hs(out + ".hashes", std::ios::binary);
        for (std::size_t i = 0; i < hash_slots; ++i)
            if (shm->table[i]) hs.write(reinterpret_cast<const char*>(&shm->table[i]), 8);
    } else {
        std::printf("%s\n", os.str().c_str());
    }
    unlink(g_errfile.c_str());
    return viols.empty() ? 0 : 1;
}
}

#ifndef PBT_NO_MAIN
void register_tests();
int main(int argc, char** argv)
{
    register_tests();
    return pbt::main_impl(argc, argv);
}
#endif

#endif
