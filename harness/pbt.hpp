// A small choice-sequence property-based testing engine (in the style of Hypothesis).
//
// A check is a function of a `Src`.  Every random decision goes through Src::below(), which records
// the value it returned; a case therefore *is* its sequence of choices, shrinking edits the sequence,
// and a replay file is the sequence written out.  Choices are logged in shared memory, so the case
// survives a crash (assert, sanitizer, bounds check) of the process that ran it.
//
// Cases are a pure function of (VERIF_SEED, check name, case number).  Cases are spread over forked
// worker processes; the harness parent only supervises, shrinks (one fork per candidate) and reports.
#pragma once

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cinttypes>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <initializer_list>
#include <iostream>
#include <sstream>
#include <string>
#include <unordered_set>
#include <utility>
#include <map>
#include <vector>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#if !defined(__has_feature)
#define __has_feature(x) 0
#endif
#if defined(__SANITIZE_ADDRESS__) || __has_feature(address_sanitizer)
extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:max_malloc_fill_size=1048576:abort_on_error=1:allocator_may_return_null=0:max_allocation_size_mb=4096:symbolize=0:"
           "detect_stack_use_after_return=0:handle_segv=0:handle_sigbus=0:handle_abort=0:handle_sigfpe=0";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:abort_on_error=1:halt_on_error=1"; }
#endif

namespace pbt {

inline std::string format(char const* fmt, ...) __attribute__((format(printf, 1, 2)));
inline std::string format(char const* fmt, ...)
{
    char buf[2048];
    va_list ap;
    va_start(ap, fmt);
    std::vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    return buf;
}

struct Fail
{
    std::string msg;
};
#define PBT_FAIL(...) throw ::pbt::Fail{::pbt::format(__VA_ARGS__)}
#define PBT_REQUIRE(cond, ...)                                                                                         \
    do {                                                                                                               \
        if (!(cond)) { throw ::pbt::Fail{std::string("required " #cond ": ") + ::pbt::format(__VA_ARGS__)}; }         \
    } while (false)

inline std::uint64_t mix(std::uint64_t x)
{
    x += 0x9E3779B97F4A7C15ULL;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL;
    return x ^ (x >> 31);
}
inline std::uint64_t hash_str(std::string const& s)
{
    std::uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) { h = (h ^ c) * 1099511628211ULL; }
    return h;
}

struct Rng
{
    std::uint64_t s;
    explicit Rng(std::uint64_t seed) : s(mix(seed)) {}
    std::uint64_t next()
    {
        s += 0x9E3779B97F4A7C15ULL;
        std::uint64_t z = s;
        z               = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z               = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    // uniform in [-1, 1), exactly representable in float (so casts never round)
    double sym() { return static_cast<double>(static_cast<std::int64_t>(next() >> 40) - (1 << 23)) / double(1 << 23); }
};

constexpr double case_limit_s       = 30;  // CPU seconds; a case that takes longer is reported as a hang
constexpr std::size_t max_choices = 1u << 15;
constexpr std::size_t max_labels  = 96;
constexpr std::size_t max_samples = 3;
constexpr std::size_t max_checks  = 128;

struct Slot  // one per worker, shared memory
{
    volatile std::uint32_t count;     // choices recorded for the running case
    volatile std::uint32_t check;     // running check
    volatile std::uint64_t index;     // running case number
    volatile std::uint32_t running;   // 1 while inside a case
    volatile std::uint32_t failed;    // 1 = exception, message in msg
    volatile std::uint64_t started;   // cases started
    volatile std::uint64_t evals[max_checks];
    volatile std::uint64_t nontriv[max_checks];
    volatile std::uint64_t rejected[max_checks];
    std::uint64_t choices[max_choices];
    char msg[4096];
    char note[2048];
    char stage[256];
    char label[max_labels][56];
    std::uint64_t label_count[max_labels];
    char sample[max_checks][max_samples][384];
    std::uint32_t samples[max_checks];
    std::uint64_t hashes;  // number of entries in the hash area of this worker
};

struct Src
{
    enum class Mode { random, replay, bytes };

    Mode mode;
    Rng rng;
    std::vector<std::uint64_t> const* given{nullptr};
    std::uint8_t const* bytes{nullptr};
    std::size_t nbytes{0};
    std::size_t pos{0};
    Slot* slot;
    bool is_nontrivial{false};
    bool thorough{false};
    std::string desc;

    // uniform in [0, n); n == 0 means all 64 bits
    std::uint64_t below(std::uint64_t n)
    {
        std::uint64_t v = 0;
        if (mode == Mode::random) {
            v = rng.next();
            if (n != 0) { v = static_cast<std::uint64_t>((static_cast<unsigned __int128>(v) * n) >> 64); }
        } else if (mode == Mode::replay) {
            v = pos < given->size() ? (*given)[pos] : 0;
            if (n != 0 && v >= n) { v = n - 1; }
        } else {
            std::size_t w = n == 0 ? 8 : n <= 0x100 ? 1 : n <= 0x10000 ? 2 : n <= 0x100000000ULL ? 4 : 8;
            for (std::size_t i = 0; i < w && pos < nbytes; ++i) { v = (v << 8) | bytes[pos++]; }
            if (n != 0) { v %= n; }
        }
        if (mode != Mode::bytes) { ++pos; }
        if (slot->count < max_choices) {
            slot->choices[slot->count] = v;
            slot->count                = slot->count + 1;
        }
        return v;
    }
    // inclusive range, shrinks towards lo
    std::int64_t range(std::int64_t lo, std::int64_t hi)
    {
        return lo + static_cast<std::int64_t>(below(static_cast<std::uint64_t>(hi - lo) + 1));
    }
    std::size_t size(std::size_t lo, std::size_t hi) { return static_cast<std::size_t>(range(static_cast<std::int64_t>(lo), static_cast<std::int64_t>(hi))); }
    bool flag() { return below(2) != 0; }
    bool chance(std::uint64_t num, std::uint64_t den) { return below(den) >= den - num; }  // shrinks to false
    template<typename T>
    T pick(std::initializer_list<T> l)
    {
        return *(l.begin() + below(l.size()));
    }
    // A length in [lo, hi]: small, uniform, or next to a power of two.
    std::size_t len(std::size_t lo, std::size_t hi)
    {
        if (hi <= lo) { return lo; }
        switch (below(4)) {
            case 0: return size(lo, std::min(hi, lo + 8));
            case 1: return size(lo, std::min(hi, lo + 40));
            case 2: {
                std::size_t b = 1;
                std::size_t k = 0;
                while ((b << 1) <= hi) {
                    b <<= 1;
                    ++k;
                }
                auto const e = std::size_t(1) << below(k + 1);
                auto const d = range(-1, 1);
                auto const v = static_cast<std::int64_t>(e) + (d == 0 ? 0 : d);
                return std::clamp<std::int64_t>(v, static_cast<std::int64_t>(lo), static_cast<std::int64_t>(hi));
            }
            default: return size(lo, hi);
        }
    }

    void nontrivial(bool b = true) { is_nontrivial = is_nontrivial || b; }
    void label(char const* name)
    {
        for (std::size_t i = 0; i < max_labels; ++i) {
            if (slot->label[i][0] == 0) { std::snprintf(slot->label[i], sizeof slot->label[i], "%s", name); }
            if (std::strncmp(slot->label[i], name, sizeof slot->label[i] - 1) == 0) {
                ++slot->label_count[i];
                return;
            }
        }
    }
    void label(std::string const& s) { label(s.c_str()); }
    // human description of the case, kept for samples and failures
    void note(std::string const& s)
    {
        desc += (desc.empty() ? "" : "; ") + s;
        std::snprintf(slot->note, sizeof slot->note, "%s", desc.c_str());
    }
};

using Fn = void (*)(Src&);
struct Check
{
    char const* name;
    std::uint64_t quick;
    std::uint64_t thorough;
    Fn fn;
};
inline std::vector<Check>& checks()
{
    static std::vector<Check> c;
    return c;
}
// what the fuzzer drives: the checks that are made to run often (the others are too slow for it)
inline Check const& fuzzed(unsigned char choice)
{
    static std::vector<Check const*> const often = [] {
        std::vector<Check const*> v;
        for (auto const& c : checks()) {
            if (c.quick >= 50) { v.push_back(&c); }
        }
        if (v.empty()) {
            for (auto const& c : checks()) { v.push_back(&c); }
        }
        return v;
    }();
    return *often[choice % often.size()];
}
struct Reg
{
    Reg(char const* n, std::uint64_t q, std::uint64_t t, Fn f) { checks().push_back({n, q, t, f}); }
};
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PBT_CHECK(name, quick, thorough)                                                                               \
    static void PBT_CAT(pbt_fn_, name)(::pbt::Src & s);                                                                \
    static ::pbt::Reg PBT_CAT(pbt_reg_, name){#name, quick, thorough, &PBT_CAT(pbt_fn_, name)};                        \
    static void PBT_CAT(pbt_fn_, name)(::pbt::Src & s)

// Templated checks: PBT_CHECK_T(func, "name", quick, thorough)
#define PBT_CHECK_T(id, name, quick, thorough, ...)                                                                    \
    static ::pbt::Reg PBT_CAT(pbt_treg_, id){name, quick, thorough, static_cast<::pbt::Fn>(&__VA_ARGS__)};

struct Options
{
    std::uint64_t seed{1};
    bool thorough{false};
    unsigned jobs{8};
    double cap_s{300};
    double scale{1.0};
    std::string out;
    std::string replay;
    std::string bytes;
    std::string only;
    std::string save;  // replay file to write
    std::string config;
    std::string property;
    std::string binary;
};

inline double now()
{
    timeval tv{};
    gettimeofday(&tv, nullptr);
    return static_cast<double>(tv.tv_sec) + 1e-6 * static_cast<double>(tv.tv_usec);
}

inline void set_cpu_limit(double seconds)
{
    itimerval it{};
    it.it_value.tv_sec  = static_cast<time_t>(seconds);
    it.it_value.tv_usec = static_cast<suseconds_t>((seconds - std::floor(seconds)) * 1e6);
    setitimer(ITIMER_PROF, &it, nullptr);  // SIGPROF: default action terminates the worker
}

struct Region
{
    Slot* slots;
    std::uint64_t* hash_area;
    std::size_t hash_cap;
    volatile std::uint32_t* stop;
};

inline void* shared(std::size_t n)
{
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
        std::perror("mmap");
        std::_Exit(2);
    }
    return p;
}

inline std::uint64_t case_seed(std::uint64_t seed, char const* name, std::uint64_t idx)
{
    return mix(mix(seed) ^ hash_str(name) ^ mix(idx * 0x2545F4914F6CDD1DULL + 17));
}

// Storage for the objects under test.  In half of the cases a released block is handed out again for the next object
// of the same size, so that successive calls see new data at an old address; otherwise every object gets new memory.
struct Pools
{
    bool reuse{false};
    std::vector<void (*)()> clear;
};
inline Pools& pools()
{
    static Pools p;
    return p;
}
template<typename T>
struct Mem : std::vector<T>
{
    using base = std::vector<T>;
    Mem() = default;
    Mem(std::size_t n, T const& v) { assign(n, v); }
    Mem(Mem const& o) : base() { *this = o; }
    Mem& operator=(Mem const& o)
    {
        if (this != &o) {
            take(o.size());
            base::assign(o.begin(), o.end());
        }
        return *this;
    }
    Mem(Mem&& o) noexcept : base(std::move(static_cast<base&>(o))) {}
    Mem& operator=(Mem&& o) noexcept
    {
        base::swap(o);
        return *this;
    }
    void assign(std::size_t n, T const& v)
    {
        take(n);
        base::assign(n, v);
    }
    ~Mem()
    {
        if (pools().reuse && !base::empty()) { pool()[base::size()].push_back(std::move(static_cast<base&>(*this))); }
    }

private:
    static std::map<std::size_t, std::vector<base>>& pool()
    {
        static std::map<std::size_t, std::vector<base>> m;
        static bool const registered = [] {
            pools().clear.push_back([] { pool().clear(); });
            return true;
        }();
        (void)registered;
        return m;
    }
    void take(std::size_t n)
    {
        if (!pools().reuse || base::size() == n) { return; }
        auto const it = pool().find(n);
        if (it != pool().end() && !it->second.empty()) {
            static_cast<base&>(*this) = std::move(it->second.back());
            it->second.pop_back();
        }
    }
};

// Runs one case in this process; true = passed
inline bool run_case(Check const& c, Src& s)
{
    for (auto f : pools().clear) { f(); }
    pools().reuse = false;
    s.slot->count   = 0;
    s.slot->failed  = 0;
    s.slot->msg[0]  = 0;
    s.slot->note[0] = 0;
    try {
        pools().reuse = s.flag();
        c.fn(s);
        return true;
    } catch (Fail const& f) {
        std::snprintf(s.slot->msg, sizeof s.slot->msg, "%s", f.msg.c_str());
    } catch (std::exception const& e) {
        std::snprintf(s.slot->msg, sizeof s.slot->msg, "unexpected exception: %s", e.what());
    } catch (...) {
        std::snprintf(s.slot->msg, sizeof s.slot->msg, "unexpected exception");
    }
    s.slot->failed = 1;
    return false;
}

struct Outcome
{
    bool failed{false};
    bool hang{false};
    std::string msg;
    std::string note;
    std::vector<std::uint64_t> choices;
};

inline std::string slurp(int fd)
{
    std::string r;
    char buf[4096];
    lseek(fd, 0, SEEK_SET);
    ssize_t n = 0;
    while ((n = read(fd, buf, sizeof buf)) > 0 && r.size() < 6000) { r.append(buf, static_cast<std::size_t>(n)); }
    return r;
}

// Runs one case in a child process
inline Outcome run_isolated(Check const& c, Src::Mode mode, std::vector<std::uint64_t> const* choices, std::string const* bytes, bool thorough, double limit)
{
    static Slot* slot = static_cast<Slot*>(shared(sizeof(Slot)));
    slot->count       = 0;
    slot->failed      = 0;
    slot->msg[0]      = 0;
    slot->note[0]     = 0;
    int errfd         = memfd_create("err", 0);
    std::fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        dup2(errfd, 2);
        dup2(errfd, 1);
        signal(SIGPROF, SIG_DFL);
        set_cpu_limit(limit);
        Src s{mode, Rng{0}, choices, nullptr, 0, 0, slot, false, thorough, {}};
        if (bytes != nullptr) {
            s.bytes  = reinterpret_cast<std::uint8_t const*>(bytes->data());
            s.nbytes = bytes->size();
        }
        bool ok = run_case(c, s);
        std::_Exit(ok ? 0 : 1);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Outcome o;
    o.failed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    o.hang   = WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF;
    if (o.failed) {
        o.msg = slot->msg;
        if (o.msg.empty()) {
            o.msg = (o.hang ? std::string("did not finish within the CPU limit")
                            : "process died (" + (WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st))) + ")");
            o.msg += ": " + slurp(errfd);
        }
        o.note = slot->note;
        o.choices.assign(slot->choices, slot->choices + slot->count);
    }
    close(errfd);
    return o;
}

// Runs several random cases in one child process; fails if any of them does.  Used when a case fails only after others
// (state that survives between calls, objects or types).
struct Step
{
    std::uint32_t check;
    std::uint64_t index;
};
inline Outcome run_sequence(std::vector<Step> const& steps, std::uint64_t seed, bool thorough)
{
    static Slot* slot = static_cast<Slot*>(shared(sizeof(Slot)));
    std::memset(static_cast<void*>(slot), 0, sizeof(Slot));
    int errfd = memfd_create("err", 0);
    std::fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        dup2(errfd, 2);
        dup2(errfd, 1);
        signal(SIGPROF, SIG_DFL);
        for (std::size_t i = 0; i < steps.size(); ++i) {
            auto const& c = checks()[steps[i].check];
            set_cpu_limit(case_limit_s);
            slot->index = i;
            Src s{Src::Mode::random, Rng{case_seed(seed, c.name, steps[i].index)}, nullptr, nullptr, 0, 0, slot, false, thorough, {}};
            if (!run_case(c, s)) { std::_Exit(1); }
        }
        std::_Exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Outcome o;
    o.failed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    if (o.failed) {
        o.msg  = slot->msg[0] != 0 ? std::string(slot->msg) : "process died: " + slurp(errfd);
        o.note = slot->note;
        o.choices.assign(1, std::uint64_t(slot->index));  // position of the failing step
    }
    close(errfd);
    return o;
}
// The shortest found sequence that still fails; empty if the whole history does not fail again (2 of 2 runs).
inline std::vector<Step> shrink_sequence(std::vector<Step> steps, std::uint64_t seed, bool thorough, double budget_s, Outcome& last)
{
    if (std::getenv("PBT_NOSHRINK") != nullptr) { budget_s = 1; }
    auto fails = [&](std::vector<Step>& v) {
        auto o = run_sequence(v, seed, thorough);
        if (!o.failed) { return false; }
        v.resize(o.choices[0] + 1);
        last = o;
        return true;
    };
    bool found = false;
    for (std::size_t n = 2; !found && n < steps.size(); n *= 4) {
        std::vector<Step> v(steps.end() - static_cast<std::ptrdiff_t>(n), steps.end());
        if (fails(v)) {
            steps = v;
            found = true;
        }
    }
    if (!found && !(fails(steps) && fails(steps))) { return {}; }
    double const end = now() + budget_s;
    for (std::size_t w = steps.size() / 2; w >= 1 && now() < end; w /= 2) {
        for (std::size_t i = 0; i + w < steps.size() && now() < end;) {
            auto cand = steps;
            cand.erase(cand.begin() + static_cast<std::ptrdiff_t>(i), cand.begin() + static_cast<std::ptrdiff_t>(i + w));
            if (fails(cand)) {
                steps = cand;
            } else {
                i += w;
            }
        }
    }
    for (int i = 0; i < 2; ++i) {
        if (!fails(steps)) { return {}; }
    }
    return steps;
}

inline bool simpler(std::vector<std::uint64_t> const& a, std::vector<std::uint64_t> const& b)
{
    if (a.size() != b.size()) { return a.size() < b.size(); }
    return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end());
}

inline Outcome shrink(Check const& c, Outcome best, bool thorough, double budget_s)
{
    if (std::getenv("PBT_NOSHRINK") != nullptr) { budget_s = 0; }
    double const end   = now() + budget_s;
    double const limit = best.hang ? 8.0 : case_limit_s;
    unsigned tried     = 0;
    unsigned cap       = best.hang ? 12 : 3000;
    auto attempt       = [&](std::vector<std::uint64_t> cand) {
        if (now() > end || tried >= cap) { return false; }
        if (!simpler(cand, best.choices)) { return false; }
        ++tried;
        auto o = run_isolated(c, Src::Mode::replay, &cand, nullptr, thorough, limit);
        if (o.failed && o.hang == best.hang) {
            // keep what was actually consumed
            if (o.choices.size() > cand.size() || !simpler(o.choices, cand)) { o.choices = cand; }
            best = o;
            return true;
        }
        return false;
    };
    bool progress = true;
    while (progress && now() < end && tried < cap) {
        progress = false;
        // delete chunks
        for (std::size_t w = std::max<std::size_t>(1, best.choices.size() / 2); w >= 1; w /= 2) {
            for (std::size_t i = 0; i + w <= best.choices.size();) {
                auto cand = best.choices;
                cand.erase(cand.begin() + static_cast<std::ptrdiff_t>(i), cand.begin() + static_cast<std::ptrdiff_t>(i + w));
                if (attempt(cand)) {
                    progress = true;
                } else {
                    i += w;
                }
                if (now() > end || tried >= cap) { return best; }
            }
            if (w == 1) { break; }
        }
        // zero chunks
        for (std::size_t w = std::max<std::size_t>(1, best.choices.size() / 4); w >= 1; w /= 2) {
            for (std::size_t i = 0; i + w <= best.choices.size(); i += w) {
                auto cand = best.choices;
                bool any  = false;
                for (std::size_t k = i; k < i + w; ++k) {
                    any     = any || cand[k] != 0;
                    cand[k] = 0;
                }
                if (any && attempt(cand)) { progress = true; }
                if (now() > end || tried >= cap) { return best; }
            }
            if (w == 1) { break; }
        }
        // lower single values
        for (std::size_t i = 0; i < best.choices.size(); ++i) {
            std::uint64_t lo = 0;
            while (i < best.choices.size() && lo < best.choices[i]) {
                auto cand = best.choices;
                auto mid  = lo + (best.choices[i] - lo) / 2;
                cand[i]   = mid;
                if (attempt(cand)) {
                    progress = true;
                } else {
                    lo = mid + 1;
                }
                if (now() > end || tried >= cap) { return best; }
            }
        }
    }
    return best;
}

inline std::string esc(std::string const& s)
{
    std::string r;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') {
            r += '\\';
            r += static_cast<char>(ch);
        } else if (ch == '\n') {
            r += "\\n";
        } else if (ch < 32 || ch > 126) {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", ch);
            r += b;
        } else {
            r += static_cast<char>(ch);
        }
    }
    return r;
}

inline void write_replay(std::string const& path, Options const& o, Check const& c, Outcome const& f, std::uint64_t idx)
{
    std::ofstream out(path);
    out << "pbt-replay v1\n"
        << "property " << o.property << "\nbinary " << o.binary << "\nconfig " << o.config << "\ncheck " << c.name
        << "\ntier " << (o.thorough ? "thorough" : "quick") << "\nseed " << o.seed << "\ncase " << idx << "\nchoices " << f.choices.size() << "\n";
    for (auto v : f.choices) { out << v << "\n"; }
    out << "input: " << f.note << "\nmessage: " << f.msg << "\n";
}

inline void write_sequence(std::string const& path, Options const& o, std::vector<Step> const& steps, Outcome const& f)
{
    std::ofstream out(path);
    out << "pbt-replay v1\n"
        << "property " << o.property << "\nbinary " << o.binary << "\nconfig " << o.config << "\ncheck " << checks()[steps.back().check].name
        << "\ntier " << (o.thorough ? "thorough" : "quick") << "\nseed " << o.seed << "\ncase " << steps.back().index << "\nsequence " << steps.size() << "\n";
    for (auto const& s : steps) { out << checks()[s.check].name << " " << s.index << "\n"; }
    out << "choices 0\ninput: " << f.note << "\nmessage: " << f.msg << "\n";
}

inline int replay_main(Options o)
{
    std::ifstream in(o.replay);
    std::string k;
    std::string v;
    std::string name;
    std::vector<std::uint64_t> ch;
    std::getline(in, k);
    while (in >> k) {
        if (k == "choices") {
            std::size_t n = 0;
            in >> n;
            ch.resize(n);
            for (auto& x : ch) { in >> x; }
            break;
        }
        in >> v;
        if (k == "seed") { o.seed = std::stoull(v); }
        if (k == "sequence") {
            std::vector<Step> steps;
            std::string nm;
            std::uint64_t idx = 0;
            for (auto n = std::stoull(v); n > 0 && in >> nm >> idx; --n) {
                for (std::uint32_t ci = 0; ci < checks().size(); ++ci) {
                    if (nm == checks()[ci].name) { steps.push_back({ci, idx}); }
                }
            }
            auto const r = run_sequence(steps, o.seed, o.thorough);
            std::printf("%s a sequence of %zu cases\ninput: %s\nmessage: %s\n", r.failed ? "REPRODUCED" : "NOT-REPRODUCED", steps.size(), r.note.c_str(), r.msg.c_str());
            return r.failed ? 1 : 0;
        }
        if (k == "check") { name = v; }
        if (k == "tier") { o.thorough = v == "thorough"; }
    }
    for (auto const& c : checks()) {
        if (name == c.name) {
            auto r = run_isolated(c, Src::Mode::replay, &ch, nullptr, o.thorough, case_limit_s);
            if (r.failed) {
                std::printf("REPRODUCED %s\ninput: %s\nmessage: %s\n", c.name, r.note.c_str(), r.msg.c_str());
                return 1;
            }
            std::printf("NOT-REPRODUCED %s\n", c.name);
            return 0;
        }
    }
    std::printf("no check named '%s' here\n", name.c_str());
    return 2;
}

inline int bytes_main(Options const& o)  // a fuzzer's crashing input -> shrunk replay file
{
    std::ifstream in(o.bytes, std::ios::binary);
    std::string b((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    if (b.empty()) { return 0; }
    auto const& c = fuzzed(static_cast<unsigned char>(b[0]));
    auto body     = b.substr(1);
    auto r        = run_isolated(c, Src::Mode::bytes, nullptr, &body, o.thorough, case_limit_s);
    if (!r.failed) {
        std::printf("NOT-REPRODUCED\n");
        return 0;
    }
    r = shrink(c, r, o.thorough, case_limit_s);
    write_replay(o.save, o, c, r, 0);
    std::printf("FAILED %s\ninput: %s\nmessage: %s\n", c.name, r.note.c_str(), r.msg.c_str());
    return 1;
}

inline void worker(Options const& o, Region const& r, unsigned w, std::uint64_t from_check, std::uint64_t from_case, double end)
{
    signal(SIGPROF, SIG_DFL);
    Slot* slot = &r.slots[w];
    std::unordered_set<std::uint64_t> seen;
    auto& cs = checks();
    for (std::uint64_t ci = from_check; ci < cs.size(); ++ci) {
        auto const& c = cs[ci];
        if (!o.only.empty() && o.only != c.name) { continue; }
        auto total      = static_cast<std::uint64_t>(std::ceil(static_cast<double>(o.thorough ? c.thorough : c.quick) * o.scale));
        std::uint64_t i = ci == from_check ? from_case : w;
        // the time budget is shared out over the checks so that a cap never silences the last ones
        double const start  = now();
        double const c_end  = start + (end - start) / static_cast<double>(cs.size() - ci) * 1.0;
        for (; i < total; i += o.jobs) {
            if (*r.stop != 0) { return; }
            if ((i / o.jobs) % 8 == 0 && now() > c_end) {
                Src tmp{Src::Mode::random, Rng{0}, nullptr, nullptr, 0, 0, slot, false, false, {}};
                tmp.label(std::string("time-capped:") + c.name);
                break;
            }
            slot->check   = static_cast<std::uint32_t>(ci);
            slot->index   = i;
            slot->running = 1;
            set_cpu_limit(case_limit_s);
            Src s{Src::Mode::random, Rng{case_seed(o.seed, c.name, i)}, nullptr, nullptr, 0, 0, slot, false, o.thorough, {}};
            bool ok        = run_case(c, s);
            slot->running  = 0;
            slot->evals[ci] = slot->evals[ci] + 1;
            if (!ok) { std::_Exit(1); }
            if (s.is_nontrivial) {
                slot->nontriv[ci] = slot->nontriv[ci] + 1;
                std::uint64_t h   = hash_str(c.name);
                for (std::uint32_t k = 0; k < slot->count; ++k) { h = mix(h ^ slot->choices[k]); }
                if (slot->hashes < r.hash_cap) { r.hash_area[w * r.hash_cap + slot->hashes++] = h; }
                if (slot->samples[ci] < max_samples && !s.desc.empty()) {
                    std::snprintf(slot->sample[ci][slot->samples[ci]++], sizeof slot->sample[0][0], "%s: %s", c.name, s.desc.c_str());
                }
            }
        }
    }
    set_cpu_limit(0);
}

inline int run_main(Options const& o)
{
    double const t0 = now();
    Region r{};
    r.slots     = static_cast<Slot*>(shared(sizeof(Slot) * o.jobs));
    r.hash_cap  = 1u << 21;
    r.hash_area = static_cast<std::uint64_t*>(shared(sizeof(std::uint64_t) * r.hash_cap * o.jobs));
    r.stop      = static_cast<std::uint32_t*>(shared(4096));
    std::vector<pid_t> pids(o.jobs);
    std::vector<int> errs(o.jobs);
    double const end = t0 + o.cap_s;
    std::fflush(nullptr);
    for (unsigned w = 0; w < o.jobs; ++w) {
        errs[w] = memfd_create("err", 0);
        pids[w] = fork();
        if (pids[w] == 0) {
            dup2(errs[w], 2);
            worker(o, r, w, 0, w, end);
            std::_Exit(0);
        }
    }
    struct Found
    {
        std::uint32_t check;
        std::uint64_t index;
        unsigned w;
        int status;
    };
    std::vector<Found> found;
    for (unsigned done = 0; done < o.jobs; ++done) {
        int st    = 0;
        pid_t pid = 0;
        while ((pid = waitpid(-1, &st, 0)) < 0 && errno == EINTR) {}
        unsigned w = 0;
        while (w < o.jobs && pids[w] != pid) { ++w; }
        if (w == o.jobs) { break; }
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            found.push_back({r.slots[w].check, r.slots[w].index, w, st});
            *r.stop = 1;
        }
    }
    std::sort(found.begin(), found.end(), [](auto const& a, auto const& b) {
        return std::pair(a.check, a.index) < std::pair(b.check, b.index);
    });

    // merge statistics
    std::uint64_t evals = 0;
    std::uint64_t nont  = 0;
    std::vector<std::uint64_t> hashes;
    std::vector<std::pair<std::string, std::uint64_t>> labels;
    std::vector<std::string> samples;
    std::ostringstream per;
    auto const& cs = checks();
    for (std::size_t ci = 0; ci < cs.size(); ++ci) {
        std::uint64_t e = 0;
        std::uint64_t n = 0;
        for (unsigned w = 0; w < o.jobs; ++w) {
            e += r.slots[w].evals[ci];
            n += r.slots[w].nontriv[ci];
        }
        evals += e;
        nont += n;
        per << (ci ? "," : "") << "\"" << cs[ci].name << "\":{\"evaluations\":" << e << ",\"nontrivial\":" << n << "}";
        bool got = false;
        for (unsigned w = 0; w < o.jobs && !got; ++w) {
            if (r.slots[w].samples[ci] > 0) {
                samples.emplace_back(r.slots[w].sample[ci][r.slots[w].samples[ci] - 1]);
                got = true;
            }
        }
    }
    for (unsigned w = 0; w < o.jobs; ++w) {
        hashes.insert(hashes.end(), r.hash_area + w * r.hash_cap, r.hash_area + w * r.hash_cap + r.slots[w].hashes);
        for (std::size_t l = 0; l < max_labels && r.slots[w].label[l][0]; ++l) {
            std::string nm = r.slots[w].label[l];
            auto it        = std::find_if(labels.begin(), labels.end(), [&](auto const& p) { return p.first == nm; });
            if (it == labels.end()) {
                labels.emplace_back(nm, r.slots[w].label_count[l]);
            } else {
                it->second += r.slots[w].label_count[l];
            }
        }
    }
    std::sort(hashes.begin(), hashes.end());
    hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());
    std::sort(labels.begin(), labels.end());

    int rc = 0;
    std::string fail_json = "null";
    for (auto const& f : found) {
        auto const& c = cs[f.check];
        Slot& s       = r.slots[f.w];
        std::vector<std::uint64_t> ch(s.choices, s.choices + s.count);
        // the failing case again, alone, from its choices
        auto first = run_isolated(c, Src::Mode::replay, &ch, nullptr, o.thorough, case_limit_s);
        Outcome best;
        int again = 0;
        if (first.failed) {
            first.choices = ch;
            best          = shrink(c, first, o.thorough, o.thorough ? 90 : 40);
            again         = best.hang ? 2 : 0;
            for (int i = again; i < 3; ++i) { again += run_isolated(c, Src::Mode::replay, &best.choices, nullptr, o.thorough, case_limit_s).failed ? 1 : 0; }
        }
        if (again != 3) {
            std::printf("NOTE: case %s/%" PRIu64 " fails %d of 3 times alone; trying it after the cases before it\n", c.name, f.index, again);
            std::vector<Step> steps;
            for (std::uint32_t ci = 0; ci <= f.check; ++ci) {
                if (!o.only.empty() && o.only != cs[ci].name) { continue; }
                std::uint64_t i = f.w;
                for (std::uint64_t k = 0; ci < f.check ? k < s.evals[ci] : i <= f.index; ++k, i += o.jobs) { steps.push_back({ci, i}); }
            }
            auto const total = steps.size();
            steps            = shrink_sequence(std::move(steps), o.seed, o.thorough, o.thorough ? 90 : 40, best);
            if (steps.empty()) {
                std::printf("NOTE: case %s/%" PRIu64 " failed once but not again, also not after the %zu cases before it: %s %s\n", c.name, f.index, total, s.msg, slurp(errs[f.w]).c_str());
                continue;
            }
            if (!o.save.empty()) { write_sequence(o.save, o, steps, best); }
            std::printf("FAILED %s case %" PRIu64 " after %zu other cases in the same process\ninput: %s\nmessage: %s\n", cs[steps.back().check].name, steps.back().index, steps.size() - 1, best.note.c_str(), best.msg.c_str());
            fail_json = format("{\"check\":\"%s\",\"case\":%" PRIu64 ",\"after\":%zu,", c.name, f.index, steps.size() - 1) + "\"input\":\"" + esc(best.note) + "\",\"message\":\"" + esc(best.msg.substr(0, 1500)) + "\"}";
            rc        = 1;
            break;
        }
        if (!o.save.empty()) { write_replay(o.save, o, c, best, f.index); }
        std::printf("FAILED %s case %" PRIu64 "\ninput: %s\nmessage: %s\n", c.name, f.index, best.note.c_str(), best.msg.c_str());
        fail_json = format("{\"check\":\"%s\",\"case\":%" PRIu64 ",", c.name, f.index) + "\"input\":\"" + esc(best.note) + "\",\"message\":\"" + esc(best.msg.substr(0, 1500)) + "\"}";
        rc        = 1;
        break;
    }
    if (!o.out.empty()) {
        std::ofstream out(o.out);
        out << "{\"evaluations\":" << evals << ",\"nontrivial\":" << nont << ",\"distinct_nontrivial\":" << hashes.size() << ",\"checks\":{" << per.str() << "},\"labels\":{";
        for (std::size_t i = 0; i < labels.size(); ++i) { out << (i ? "," : "") << "\"" << esc(labels[i].first) << "\":" << labels[i].second; }
        out << "},\"samples\":[";
        for (std::size_t i = 0; i < samples.size(); ++i) { out << (i ? "," : "") << "\"" << esc(samples[i]) << "\""; }
        out << "],\"failure\":" << fail_json << ",\"wall_s\":" << (now() - t0) << "}\n";
    }
    std::printf("%s: %" PRIu64 " cases, %zu distinct non-trivial, %.1fs\n", o.binary.c_str(), evals, hashes.size(), now() - t0);
    return rc;
}

inline int main_(int argc, char** argv)
{
    Options o;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string k = argv[i];
        std::string v = argv[i + 1];
        if (k == "--seed") { o.seed = std::strtoull(v.c_str(), nullptr, 10); }
        if (k == "--tier") { o.thorough = v == "thorough"; }
        if (k == "--jobs") { o.jobs = static_cast<unsigned>(std::stoul(v)); }
        if (k == "--cap") { o.cap_s = std::stod(v); }
        if (k == "--scale") { o.scale = std::stod(v); }
        if (k == "--out") { o.out = v; }
        if (k == "--replay") { o.replay = v; }
        if (k == "--bytes") { o.bytes = v; }
        if (k == "--only") { o.only = v; }
        if (k == "--save") { o.save = v; }
        if (k == "--config") { o.config = v; }
        if (k == "--property") { o.property = v; }
        if (k == "--binary") { o.binary = v; }
    }
    if (checks().size() > max_checks) {
        std::printf("too many checks\n");
        return 2;
    }
    if (!o.replay.empty()) { return replay_main(o); }
    if (!o.bytes.empty()) { return bytes_main(o); }
    return run_main(o);
}

}  // namespace pbt

#if defined(PBT_FUZZ)
extern "C" int LLVMFuzzerTestOneInput(std::uint8_t const* data, std::size_t size)
{
    static pbt::Slot* slot = static_cast<pbt::Slot*>(pbt::shared(sizeof(pbt::Slot)));
    if (size < 2) { return 0; }
    auto const& c = pbt::fuzzed(data[0]);
    pbt::Src s{pbt::Src::Mode::bytes, pbt::Rng{0}, nullptr, data + 1, size - 1, 0, slot, false, true, {}};
    if (!pbt::run_case(c, s)) {
        std::fprintf(stderr, "PBT-FAIL %s: %s\n%s\n", c.name, slot->note, slot->msg);
        std::abort();
    }
    return 0;
}
#else
int main(int argc, char** argv) { return pbt::main_(argc, argv); }
#endif
