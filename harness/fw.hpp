// Runtime-monitoring framework shared by all drivers.
//
// A driver registers groups (configuration x suite).  Every group runs in a forked child, so a
// sanitizer report, an unexpected abort or a hang in one group is attributed to that group and the
// others still run.  Inside a group a deterministic PRNG (seed x group name) drives cases; monitors
// report through vf::fail(kind, ...), which records the violation with the operation trace and
// abandons the case.
#pragma once

// Which suites are compiled in (bit mask), so that a check that needs only one of them does not pay
// for instantiating the others: 1 model, 2 ctor, 4 value, 8 iter, 16 alias, 32 reloc, 64 check.
#ifndef VF_SUITES
#define VF_SUITES 0xffff
#endif

#include <algorithm>
#include <array>
#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <new>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#define VF_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VF_ASAN 1
#endif
#endif
#ifdef VF_ASAN
// declared here because gcc's installation has the run-time library but not this header
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*malloc_hook)(const volatile void*, std::size_t), void (*free_hook)(const volatile void*));
#endif
// With VF_VALGRIND the driver is built without sanitizers and run under memcheck, which knows which bits are defined.
#ifdef VF_VALGRIND
#include <valgrind/memcheck.h>
#endif

namespace vf
{
// ---------------------------------------------------------------- shared state
struct Violation
{
    char kind[16];
    char msg[512];
    char trace[3000];
    std::uint64_t case_no;
};

struct Shared
{
    std::uint64_t cases;
    std::uint64_t ops;
    std::uint64_t checks;
    std::uint64_t expected_aborts;
    std::uint64_t aborted_cases;
    std::uint32_t nviol;
    Violation viol[6];
    // current case
    std::uint64_t case_no;
    char case_desc[256];
    std::uint32_t trace_len;
    char trace[1 << 16];
    char sample[1500];
    volatile int phase;  // 1 = inside a library call
};

constexpr std::size_t COV_BITS = std::size_t{1} << 22;
struct Coverage
{
    std::uint8_t bits[COV_BITS / 8];
};

inline Shared* g_sh = nullptr;
inline Coverage* g_cov = nullptr;
inline std::string g_kinds_filter;  // comma separated or empty for all
inline bool g_thorough = false;
inline std::uint64_t g_seed = 1;
inline double g_scale = 1.0;

struct CaseAbort
{
};

inline std::uint64_t mix(std::uint64_t h, std::uint64_t v)
{
    h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2);
    h *= 0xBF58476D1CE4E5B9ULL;
    h ^= h >> 29;
    return h;
}
inline std::uint64_t hash_str(const char* s)
{
    std::uint64_t h = 1469598103934665603ULL;
    for (; *s; ++s)
        h = (h ^ static_cast<unsigned char>(*s)) * 1099511628211ULL;
    return h;
}

// records a distinct abstract event/state
inline std::uint64_t g_group_hash = 0;
inline void cover(std::uint64_t key)
{
    const std::uint64_t b = mix(g_group_hash, key) % COV_BITS;
    g_cov->bits[b / 8] = static_cast<std::uint8_t>(g_cov->bits[b / 8] | (1u << (b % 8)));
}

// ---------------------------------------------------------------- rng
struct Rng
{
    std::uint64_t s;
    explicit Rng(std::uint64_t seed = 1) : s(seed) {}
    std::uint64_t next()
    {
        s += 0x9E3779B97F4A7C15ULL;
        std::uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    // [0, n)
    std::size_t below(std::size_t n) { return n == 0 ? 0 : static_cast<std::size_t>(next() % n); }
    // [a, b]
    std::size_t range(std::size_t a, std::size_t b) { return a + below(b - a + 1); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
};
inline Rng g_rng;

// ---------------------------------------------------------------- trace / violations
inline void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void trace(const char* fmt, ...)
{
    char buf[400];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (n < 0)
        return;
    if (n >= static_cast<int>(sizeof buf))
        n = sizeof buf - 1;
    if (g_sh->trace_len + static_cast<std::uint32_t>(n) + 2 >= sizeof g_sh->trace)
    {
        // keep the tail
        const std::uint32_t keep = sizeof g_sh->trace / 2;
        memmove(g_sh->trace, g_sh->trace + g_sh->trace_len - keep, keep);
        g_sh->trace_len = keep;
    }
    memcpy(g_sh->trace + g_sh->trace_len, buf, static_cast<std::size_t>(n));
    g_sh->trace_len += static_cast<std::uint32_t>(n);
    g_sh->trace[g_sh->trace_len++] = ';';
    g_sh->trace[g_sh->trace_len] = 0;
}

inline bool kind_selected(const char* kind)
{
    if (g_kinds_filter.empty() || strcmp(kind, "HARNESS") == 0)
        return true;
    const std::string pat = "," + g_kinds_filter + ",";
    const std::string k = std::string(",") + kind + ",";
    return pat.find(k) != std::string::npos;
}

inline void copy_tail(char* dst, std::size_t dstn, const char* src, std::size_t srcn)
{
    if (srcn + 1 <= dstn)
    {
        memcpy(dst, src, srcn);
        dst[srcn] = 0;
    }
    else
    {
        memcpy(dst, src + (srcn - (dstn - 1)), dstn - 1);
        dst[dstn - 1] = 0;
    }
}

inline void record_violation(Shared* sh, const char* kind, const char* msg)
{
    if (!kind_selected(kind))
        return;
    int same = 0;
    for (std::uint32_t i = 0; i < sh->nviol; i++)
        if (strcmp(sh->viol[i].kind, kind) == 0)
            same++;
    if (same >= 2 || sh->nviol >= 6)
        return;
    Violation& v = sh->viol[sh->nviol];
    snprintf(v.kind, sizeof v.kind, "%s", kind);
    snprintf(v.msg, sizeof v.msg, "[%s] %s", sh->case_desc, msg);
    copy_tail(v.trace, sizeof v.trace, sh->trace, sh->trace_len);
    v.case_no = sh->case_no;
    sh->nviol++;
}

inline bool g_alloc_armed = false;
inline std::uint64_t g_alloc_count = 0;

[[noreturn]] inline void fail(const char* kind, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));
[[noreturn]] inline void fail(const char* kind, const char* fmt, ...)
{
    g_alloc_armed = false;
    char buf[460];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    record_violation(g_sh, kind, buf);
    g_sh->aborted_cases++;
    if (g_sh->aborted_cases > 300)
        _exit(0);
    throw CaseAbort{};
}

// failure noticed inside a callback invoked by the library: remembered, raised after the call
struct Pending
{
    bool set = false;
    char kind[16];
    char msg[300];
};
inline Pending g_pending;
inline void pend(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
inline void pend(const char* kind, const char* fmt, ...)
{
    if (g_pending.set)
        return;
    g_pending.set = true;
    snprintf(g_pending.kind, sizeof g_pending.kind, "%s", kind);
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(g_pending.msg, sizeof g_pending.msg, fmt, ap);
    va_end(ap);
}
inline void raise_pending()
{
    if (g_pending.set)
    {
        g_pending.set = false;
        fail(g_pending.kind, "%s", g_pending.msg);
    }
}

#define VF_CHECK(kind, cond, ...)                \
    do                                           \
    {                                            \
        ++::vf::g_sh->checks;                    \
        if (!(cond))                             \
            ::vf::fail(kind, __VA_ARGS__);       \
    } while (0)

// ---------------------------------------------------------------- allocation monitor
inline bool g_alloc_monitor_on = true;  // per element type: false for allocating elements
#ifdef VF_ASAN
inline void malloc_hook(const volatile void*, std::size_t)
{
    if (g_alloc_armed)
        ++g_alloc_count;
}
inline void free_hook(const volatile void*) {}
#endif
inline void install_alloc_hooks()
{
#ifdef VF_ASAN
    __sanitizer_install_malloc_and_free_hooks(&malloc_hook, &free_hook);
#endif
}

inline int g_expected_allocs = 0;
struct LibScope
{
    bool prev;
    LibScope() : prev(g_alloc_armed)
    {
        ++g_sh->ops;
        g_sh->phase = 1;
        g_alloc_count = 0;
        g_alloc_armed = g_alloc_monitor_on;
    }
    ~LibScope()
    {
        g_alloc_armed = prev;
        g_sh->phase = 0;
    }
};

// Runs a library operation with monitors armed.
template <class F>
decltype(auto) lib(F&& f)
{
    struct After
    {
        static void check()
        {
            if (g_alloc_monitor_on && g_alloc_count != 0)
            {
                const auto n = g_alloc_count;
                g_alloc_count = 0;
                fail("ALLOC", "library operation performed %llu dynamic allocation(s)", static_cast<unsigned long long>(n));
            }
            if (g_pending.set)
                raise_pending();
        }
    };
    using R = decltype(f());
    if constexpr (std::is_void_v<R>)
    {
        {
            LibScope s;
            f();
        }
        After::check();
    }
    else if constexpr (std::is_reference_v<R>)
    {
        std::remove_reference_t<R>* p = nullptr;
        {
            LibScope s;
            R r = static_cast<R>(f());
            p = std::addressof(r);
        }
        After::check();
        return static_cast<R>(*p);
    }
    else
    {
        struct Run
        {
            static R go(F& ff)
            {
                LibScope s;
                return ff();
            }
        };
        R r = Run::go(f);
        After::check();
        return r;
    }
}
#define LIB(...) ::vf::lib([&]() -> decltype(auto) { return __VA_ARGS__; })

// ---------------------------------------------------------------- lifetime registry
// Address registry without any allocation: open addressing, generation stamped.
struct Registry
{
    struct Slot
    {
        const void* p;
        std::uint32_t gen;
        std::uint8_t live;  // 0 tombstone, 1 live
    };
    static constexpr std::size_t N = std::size_t{1} << 15;
    Slot slots[N];
    std::uint32_t gen = 1;
    std::size_t live_count = 0;
    std::size_t used = 0;
    std::uint64_t constructed = 0;
    std::uint64_t destroyed = 0;

    struct Region
    {
        const char* lo = nullptr;
        const char* hi = nullptr;
        long live = 0;
    };
    static constexpr std::size_t NR = 16;
    Region regions[NR];

    void reset()
    {
        ++gen;
        live_count = 0;
        used = 0;
        for (auto& r : regions)
            r = Region{};
    }
    Slot* find(const void* p, bool insert)
    {
        std::size_t i = static_cast<std::size_t>(
            (reinterpret_cast<std::uintptr_t>(p) >> 2) * 0x9E3779B97F4A7C15ULL >> 40);
        i &= N - 1;
        for (std::size_t k = 0; k < N; k++, i = (i + 1) & (N - 1))
        {
            Slot& s = slots[i];
            if (s.gen != gen)
            {
                if (!insert)
                    return nullptr;
                s.gen = gen;
                s.p = p;
                s.live = 0;
                ++used;
                return &s;
            }
            if (s.p == p)
                return &s;
        }
        return nullptr;
    }
    void rehash_if_needed();
    void construct(const void* p)
    {
        ++constructed;
        if (used > N / 2)
            rehash_if_needed();
        Slot* s = find(p, true);
        if (s == nullptr)
        {
            pend("HARNESS", "registry full");
            return;
        }
        if (s->live)
        {
            pend("LIFE", "object constructed on top of a live object");
            return;
        }
        s->live = 1;
        ++live_count;
        bump(p, +1);
    }
    void destroy(const void* p)
    {
        ++destroyed;
        Slot* s = find(p, false);
        if (s == nullptr || !s->live)
        {
            pend("LIFE", "destructor run on an address that holds no live object");
            return;
        }
        s->live = 0;
        --live_count;
        bump(p, -1);
    }
    bool is_live(const void* p)
    {
        Slot* s = find(p, false);
        return s != nullptr && s->live;
    }
    void use(const void* p, const char* what)
    {
        if (!is_live(p))
            pend("LIFE", "%s of an object that is not alive", what);
    }
    void bump(const void* p, long d)
    {
        const char* c = static_cast<const char*>(p);
        for (auto& r : regions)
            if (r.lo != nullptr && c >= r.lo && c < r.hi)
            {
                r.live += d;
                return;
            }
    }
    Region* add_region(const void* p, std::size_t n)
    {
        for (auto& r : regions)
            if (r.lo == nullptr)
            {
                r.lo = static_cast<const char*>(p);
                r.hi = r.lo + n;
                r.live = 0;
                return &r;
            }
        return nullptr;
    }
};
inline Registry g_reg;
inline void Registry::rehash_if_needed()
{
    static Slot copy[N];
    std::size_t n = 0;
    for (auto& s : slots)
        if (s.gen == gen && s.live)
            copy[n++] = s;
    ++gen;
    used = 0;
    for (std::size_t i = 0; i < n; i++)
    {
        Slot* s = find(copy[i].p, true);
        s->live = 1;
    }
}

// ---------------------------------------------------------------- expected aborts / checks
enum class Hit
{
    NONE,
    OUT_OF_RANGE,
    LENGTH_ERROR,
    EMPTY_ACCESS,
    INVALID_ARGUMENT,
    ABORT
};
inline const char* hit_name(Hit h)
{
    switch (h)
    {
    case Hit::NONE: return "none";
    case Hit::OUT_OF_RANGE: return "out_of_range";
    case Hit::LENGTH_ERROR: return "length_error";
    case Hit::EMPTY_ACCESS: return "empty_container_access";
    case Hit::INVALID_ARGUMENT: return "invalid_argument";
    case Hit::ABORT: return "abort";
    }
    return "?";
}
struct HitInfo
{
    Hit hit = Hit::NONE;
    std::size_t a = 0;
    std::size_t b = 0;
    const char* file = "";
    unsigned line = 0;
};
inline volatile bool g_expect_hit = false;
inline sigjmp_buf g_hit_jmp;
inline HitInfo g_hit;

[[noreturn]] inline void hit(Hit h, std::size_t a, std::size_t b, const char* file, unsigned line)
{
    if (!g_expect_hit)
    {
        g_alloc_armed = false;
        char buf[300];
        snprintf(buf,
                 sizeof buf,
                 "a precondition handler fired for a valid call: %s(%zu,%zu)",
                 hit_name(h),
                 a,
                 b);
        record_violation(g_sh, "CHECK", buf);
        // No way to unwind out of (possibly noexcept) library code: this group ends here, and it
        // ends as a CHECK violation or silently when the kind is filtered.
        _exit(kind_selected("CHECK") ? 0 : 90);
    }
    g_expect_hit = false;
    g_hit = HitInfo{h, a, b, file, line};
    siglongjmp(g_hit_jmp, 1);
}

extern "C" inline void vf_sigabrt(int)
{
    if (g_expect_hit)
    {
        g_expect_hit = false;
        g_hit = HitInfo{Hit::ABORT, 0, 0, "", 0};
        siglongjmp(g_hit_jmp, 1);
    }
    // fall through: default action
    signal(SIGABRT, SIG_DFL);
}

inline void arm_sigabrt()
{
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = vf_sigabrt;
    sa.sa_flags = SA_NODEFER;
    sigaction(SIGABRT, &sa, nullptr);
}

// Runs f and reports which precondition handler (or abort) it ended in.
template <class F>
HitInfo catch_hit(F&& f)
{
    g_hit = HitInfo{};
    ++g_sh->ops;
    ++g_sh->expected_aborts;
    if (sigsetjmp(g_hit_jmp, 1) == 0)
    {
        g_expect_hit = true;
        f();
        g_expect_hit = false;
    }
    g_expect_hit = false;
    return g_hit;
}

// Checking policy for every container family.
template <class Tag = void>
struct RecChecking
{
    template <class Loc>
    [[noreturn]] static void out_of_range(const std::size_t i, const std::size_t n, const Loc& loc)
    {
        hit(Hit::OUT_OF_RANGE, i, n, loc.file_name(), static_cast<unsigned>(loc.line()));
    }
    template <class K, class Loc>
        requires(!std::is_integral_v<K>)
    [[noreturn]] static void out_of_range(const K&, const std::size_t n, const Loc& loc)
    {
        hit(Hit::OUT_OF_RANGE, 0, n, loc.file_name(), static_cast<unsigned>(loc.line()));
    }
    template <class Loc>
    [[noreturn]] static void length_error(const std::size_t n, const Loc& loc)
    {
        hit(Hit::LENGTH_ERROR, n, 0, loc.file_name(), static_cast<unsigned>(loc.line()));
    }
    template <class Loc>
    [[noreturn]] static void empty_container_access(const Loc& loc)
    {
        hit(Hit::EMPTY_ACCESS, 0, 0, loc.file_name(), static_cast<unsigned>(loc.line()));
    }
    template <class Msg, class Loc>
    [[noreturn]] static void invalid_argument(const Msg&, const Loc& loc)
    {
        hit(Hit::INVALID_ARGUMENT, 0, 0, loc.file_name(), static_cast<unsigned>(loc.line()));
    }
};

// ---------------------------------------------------------------- storage for containers
// Container in an exact-size heap block (ASan red zones on both sides), pre-filled with garbage.
template <class C>
class Box
{
public:
    C* p = nullptr;
    Registry::Region* region = nullptr;
    int exceptions_at_start;

    static void* raw_alloc()
    {
        const bool prev = g_alloc_armed;
        g_alloc_armed = false;
        const std::size_t al = std::max<std::size_t>(alignof(C), sizeof(void*));
        void* m = nullptr;
        if (posix_memalign(&m, al, sizeof(C)) != 0)
            _exit(91);
        static const unsigned char pats[] = {0x00, 0xA5, 0xFF, 0x01};
        memset(m, pats[g_rng.below(4)], sizeof(C));
#ifdef VF_VALGRIND
        (void)VALGRIND_MAKE_MEM_UNDEFINED(m, sizeof(C));
#endif
        g_alloc_armed = prev;
        return m;
    }

    template <class... Args>
    explicit Box(std::in_place_t, Args&&... args)
    {
        void* m = raw_alloc();
        region = g_reg.add_region(m, sizeof(C));
        exceptions_at_start = std::uncaught_exceptions();
        lib([&] { p = ::new (m) C(std::forward<Args>(args)...); });
    }
    // constructs from the prvalue returned by f (guaranteed elision)
    template <class F>
    explicit Box(F&& f)
        requires requires { { f() } -> std::same_as<C>; }
    {
        void* m = raw_alloc();
        region = g_reg.add_region(m, sizeof(C));
        exceptions_at_start = std::uncaught_exceptions();
        lib([&] { p = ::new (m) C(f()); });
    }
    Box() : Box(std::in_place) {}
    Box(const Box&) = delete;
    Box& operator=(const Box&) = delete;

    long live() const { return region != nullptr ? region->live : 0; }

    // explicit, checked destruction
    void destroy(bool tracked)
    {
        if (p == nullptr)
            return;
        C* q = p;
        p = nullptr;
        lib([&] { q->~C(); });
        long l = live();
        drop(q);
        if (tracked)
            VF_CHECK("LIFE", l == 0, "%ld element(s) still alive after container destruction", l);
    }
    void drop(C* q)
    {
        if (region != nullptr)
            *region = Registry::Region{};
        region = nullptr;
        free(q);
    }
    ~Box() noexcept(false)
    {
        if (p == nullptr)
            return;
        if (std::uncaught_exceptions() > exceptions_at_start)
        {
            // the case already failed; the container may be corrupt: abandon it
            if (region != nullptr)
                *region = Registry::Region{};
            return;
        }
        destroy(true);
    }
    C& operator*() { return *p; }
    C* operator->() { return p; }
};

// ---------------------------------------------------------------- element types
// Every element type E offers E::make(v) / val(e), v in [0, 1e6).
constexpr int MOVED = -777;
constexpr int DEAD = -999;

// trivially copyable, 12 bytes, operator& hijacked
struct Pod
{
    int v = 0;
    int w = 0x5A5A;
    int x = 0;
    constexpr Pod() = default;
    constexpr explicit Pod(int a) : v(a), x(~a) {}
    constexpr Pod(int a, int b) : v(a + b), x(~(a + b)) {}
    bool operator==(const Pod& o) const { return v == o.v; }
    auto operator<=>(const Pod& o) const { return v <=> o.v; }
    void operator&() const = delete;
};

template <bool COPY, bool MOVE, int PAD = 0, int ALIGN = 4>
struct alignas(ALIGN) Trk
{
    int v;
    [[no_unique_address]] std::conditional_t<(PAD > 0), std::array<char, PAD == 0 ? 1 : PAD>, std::array<char, 0>> pad{};
    Trk() : v(0) { g_reg.construct(this); }
    explicit Trk(int a) : v(a) { g_reg.construct(this); }
    Trk(int a, int b) : v(a + b) { g_reg.construct(this); }
    Trk(const Trk& o)
        requires COPY
    {
        g_reg.use(std::addressof(o), "copy construction");
        v = o.v;
        g_reg.construct(this);
    }
    Trk(Trk&& o) noexcept
        requires MOVE
    {
        g_reg.use(std::addressof(o), "move construction");
        v = o.v;
        o.v = MOVED;
        g_reg.construct(this);
    }
    Trk& operator=(const Trk& o)
        requires COPY
    {
        g_reg.use(std::addressof(o), "copy assignment from");
        g_reg.use(this, "copy assignment to");
        v = o.v;
        return *this;
    }
    Trk& operator=(Trk&& o) noexcept
        requires MOVE
    {
        g_reg.use(std::addressof(o), "move assignment from");
        g_reg.use(this, "move assignment to");
        const int t = o.v;
        o.v = MOVED;
        v = (this == std::addressof(o)) ? MOVED : t;
        return *this;
    }
    ~Trk()
    {
        g_reg.destroy(this);
        v = DEAD;
    }
    friend bool operator==(const Trk& a, const Trk& b)
    {
        g_reg.use(std::addressof(a), "comparison");
        g_reg.use(std::addressof(b), "comparison");
        return a.v == b.v;
    }
    friend auto operator<=>(const Trk& a, const Trk& b)
    {
        g_reg.use(std::addressof(a), "comparison");
        g_reg.use(std::addressof(b), "comparison");
        return a.v <=> b.v;
    }
    void operator&() const = delete;
};
using TrkAll = Trk<true, true>;           // copyable and movable
using TrkMove = Trk<false, true>;         // move-only
using TrkCopy = Trk<true, false>;         // copy-only (moves copy)
using TrkBig = Trk<true, true, 24, 64>;   // over-aligned

// moves only through construction: neither copy- nor move-assignable
struct TrkNoAssign
{
    const int v;
    TrkNoAssign() : v(0) { g_reg.construct(this); }
    explicit TrkNoAssign(int a) : v(a) { g_reg.construct(this); }
    TrkNoAssign(int a, int b) : v(a + b) { g_reg.construct(this); }
    TrkNoAssign(const TrkNoAssign& o) : v(o.v)
    {
        g_reg.use(std::addressof(o), "copy construction");
        g_reg.construct(this);
    }
    TrkNoAssign(TrkNoAssign&& o) noexcept : v(o.v)
    {
        g_reg.use(std::addressof(o), "move construction");
        const_cast<int&>(o.v) = MOVED;
        g_reg.construct(this);
    }
    TrkNoAssign& operator=(const TrkNoAssign&) = delete;
    TrkNoAssign& operator=(TrkNoAssign&&) = delete;
    ~TrkNoAssign()
    {
        g_reg.destroy(this);
        const_cast<int&>(v) = DEAD;
    }
    friend bool operator==(const TrkNoAssign& a, const TrkNoAssign& b) { return a.v == b.v; }
    friend auto operator<=>(const TrkNoAssign& a, const TrkNoAssign& b) { return a.v <=> b.v; }
};

// no default constructor
struct TrkNoDef : TrkAll
{
    explicit TrkNoDef(int a) : TrkAll(a) {}
    TrkNoDef(int a, int b) : TrkAll(a, b) {}
};

// user-provided special members (so: the containers' non-trivial specialisations), owns nothing
struct Ntv
{
    int v;
    Ntv() : v(0) {}
    explicit Ntv(int a) : v(a) {}
    Ntv(int a, int b) : v(a + b) {}
    Ntv(const Ntv& o) : v(o.v) {}
    Ntv(Ntv&& o) noexcept : v(o.v) { o.v = MOVED; }
    Ntv& operator=(const Ntv& o)
    {
        v = o.v;
        return *this;
    }
    Ntv& operator=(Ntv&& o) noexcept
    {
        v = o.v;
        if (this != std::addressof(o))
            o.v = MOVED;
        return *this;
    }
    bool operator==(const Ntv& o) const { return v == o.v; }
    auto operator<=>(const Ntv& o) const { return v <=> o.v; }
};

// heap-owning element
struct Heavy
{
    std::string s;
    Heavy() : s("h:0:padding-to-defeat-sso") {}
    explicit Heavy(int a) : s("h:" + std::to_string(a) + ":padding-to-defeat-sso") {}
    Heavy(int a, int b) : Heavy(a + b) {}
    bool operator==(const Heavy& o) const { return val() == o.val(); }
    auto operator<=>(const Heavy& o) const { return val() <=> o.val(); }
    int val() const { return s.size() < 3 ? MOVED : atoi(s.c_str() + 2); }
};

template <class T>
struct El
{
    static constexpr bool tracked = requires(T t) { requires(!std::is_trivially_destructible_v<T>); t.v; };
    static constexpr bool allocates = std::is_same_v<T, Heavy> || std::is_same_v<T, std::string>;
    static T make(int v) { return T(v); }
    static int val(const T& t)
    {
        if constexpr (std::is_integral_v<T>)
            return static_cast<int>(t);
        else if constexpr (std::is_same_v<T, Heavy>)
            return t.val();
        else if constexpr (std::is_same_v<T, Pod>)
            return (t.w == 0x5A5A && (t.x == ~t.v || (t.v == 0 && t.x == 0))) ? t.v : -12345;
        else
        {
            if constexpr (tracked)
                if (!g_reg.is_live(std::addressof(t)))
                    return DEAD;
            return t.v;
        }
    }
};
template <class T>
int val(const T& t)
{
    return El<T>::val(t);
}

// single-pass input iterator over ints producing T (strict: a copy that lags behind is detected)
template <class T>
struct InputIt
{
    struct Src
    {
        const int* cur;
        const int* end;
        bool violated = false;
    };
    using iterator_category = std::input_iterator_tag;
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using pointer = const T*;
    using reference = T;
    Src* src = nullptr;
    const int* at = nullptr;  // position this copy believes to be at

    InputIt() = default;
    explicit InputIt(Src* s) : src(s), at(s->cur) {}
    T operator*() const
    {
        check();
        if (src != nullptr && src->cur == src->end)
        {
            pend("MODEL", "input range dereferenced past its end");
            return T(0);
        }
        return T(*src->cur);
    }
    InputIt& operator++()
    {
        check();
        if (src->cur == src->end)
        {
            pend("MODEL", "input range advanced past its end");
            return *this;
        }
        ++src->cur;
        at = src->cur;
        return *this;
    }
    void operator++(int) { ++*this; }
    void check() const
    {
        if (src != nullptr && at != src->cur)
            pend("MODEL", "single-pass input range traversed twice");
    }
    friend bool operator==(const InputIt& a, const InputIt& b)
    {
        const bool ae = a.src == nullptr || a.src->cur == a.src->end;
        const bool be = b.src == nullptr || b.src->cur == b.src->end;
        return ae == be;
    }
};

// ---------------------------------------------------------------- groups
struct Group
{
    std::string suite;
    std::string name;
    std::function<void()> fn;
};
inline std::vector<Group>& groups()
{
    static std::vector<Group> g;
    return g;
}
inline void add_group(const char* suite, std::string name, std::function<void()> fn)
{
    groups().push_back(Group{suite, std::move(name), std::move(fn)});
}

// number of cases for the tier
inline std::size_t n_cases(std::size_t quick)
{
    const double f = (g_thorough ? 12.0 : 1.0) * g_scale;
    return std::max<std::size_t>(1, static_cast<std::size_t>(static_cast<double>(quick) * f));
}

inline void set_case_cpu_limit()
{
    // CPU-time watchdog (not wall clock): 15 CPU-seconds for one case is far beyond any case.
    struct itimerval it;
    memset(&it, 0, sizeof it);
#ifdef VF_VALGRIND
    it.it_value.tv_sec = 300;
#else
    it.it_value.tv_sec = 15;
#endif
    setitimer(ITIMER_PROF, &it, nullptr);
}

template <class F>
void run_case(const std::string& desc, F&& f)
{
    g_sh->case_no++;
    g_sh->cases++;
    snprintf(g_sh->case_desc, sizeof g_sh->case_desc, "%s", desc.c_str());
    g_sh->trace_len = 0;
    g_sh->trace[0] = 0;
    g_reg.reset();
    g_pending.set = false;
    g_expect_hit = false;
    if (g_sh->case_no % 64 == 1)
        set_case_cpu_limit();
    try
    {
        f();
        raise_pending();
    }
    catch (const CaseAbort&)
    {
    }
    if (g_sh->case_no == 3 || g_sh->sample[0] == 0)
    {
        char b[400];
        snprintf(b, sizeof b, "%s: ", desc.c_str());
        snprintf(g_sh->sample, sizeof g_sh->sample, "%s", b);
        const std::size_t l = strlen(g_sh->sample);
        const std::size_t n = std::min<std::size_t>(g_sh->trace_len, 600);
        memcpy(g_sh->sample + l, g_sh->trace, n);
        g_sh->sample[l + n] = 0;
    }
}

extern "C" inline void vf_sigprof(int)
{
    const char m[] = "VF-HANG\n";
    (void)!write(2, m, sizeof m - 1);
    _exit(78);
}

inline void json_escape(std::string& out, const char* s)
{
    for (; *s; ++s)
    {
        const unsigned char c = static_cast<unsigned char>(*s);
        if (c == '"' || c == '\\')
        {
            out += '\\';
            out += static_cast<char>(c);
        }
        else if (c < 0x20 || c >= 0x7f)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            out += b;
        }
        else
            out += static_cast<char>(c);
    }
}

inline std::string read_file_head(const std::string& path, std::size_t n)
{
    std::string r;
    FILE* f = fopen(path.c_str(), "rb");
    if (f == nullptr)
        return r;
    r.resize(n);
    r.resize(fread(r.data(), 1, n, f));
    fclose(f);
    return r;
}

// Emits one JSON line per group, then a summary line.
inline int driver_main(int argc, char** argv)
{
    std::string suites;
    std::string only;
    std::string errdir = "/tmp";
    int jobs = 8;
    bool list = false;
    for (int i = 1; i < argc; i++)
    {
        const std::string a = argv[i];
        auto nextarg = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed")
            g_seed = strtoull(nextarg().c_str(), nullptr, 10);
        else if (a == "--tier")
            g_thorough = nextarg() == "thorough";
        else if (a == "--suites")
            suites = "," + nextarg() + ",";
        else if (a == "--kinds")
            g_kinds_filter = nextarg();
        else if (a == "--group")
            only = nextarg();
        else if (a == "--jobs")
            jobs = atoi(nextarg().c_str());
        else if (a == "--errdir")
            errdir = nextarg();
        else if (a == "--scale")
            g_scale = atof(nextarg().c_str());
        else if (a == "--list")
            list = true;
    }
    std::vector<const Group*> todo;
    for (const auto& g : groups())
    {
        if (!suites.empty() && suites.find("," + g.suite + ",") == std::string::npos)
            continue;
        if (!only.empty() && g.name != only)
            continue;
        todo.push_back(&g);
    }
    if (list)
    {
        for (const auto* g : todo)
            printf("%s %s\n", g->suite.c_str(), g->name.c_str());
        return 0;
    }
    const std::size_t n = todo.size();
    Shared* sh = static_cast<Shared*>(mmap(nullptr,
                                           sizeof(Shared) * std::max<std::size_t>(1, n),
                                           PROT_READ | PROT_WRITE,
                                           MAP_SHARED | MAP_ANONYMOUS,
                                           -1,
                                           0));
    g_cov = static_cast<Coverage*>(mmap(
        nullptr, sizeof(Coverage), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (sh == MAP_FAILED || g_cov == MAP_FAILED)
        return 3;
    struct Child
    {
        pid_t pid;
        std::size_t idx;
    };
    std::vector<Child> running;
    std::vector<int> tries(n, 0);
    std::vector<std::string> extra(n);
    std::vector<std::size_t> queue;
    for (std::size_t i = n; i-- > 0;)
        queue.push_back(i);
    fflush(stdout);
    auto errpath = [&](std::size_t i)
    { return errdir + "/vf." + std::to_string(getpid()) + "." + std::to_string(i) + ".err"; };
    const pid_t parent = getpid();
    (void)parent;
    while (!queue.empty() || !running.empty())
    {
        while (!queue.empty() && static_cast<int>(running.size()) < jobs)
        {
            const std::size_t i = queue.back();
            queue.pop_back();
            memset(&sh[i], 0, sizeof(Shared));
            const std::string ep = errpath(i);
            const pid_t pid = fork();
            if (pid == 0)
            {
                g_sh = &sh[i];
                g_group_hash = hash_str(todo[i]->name.c_str());
                g_rng = Rng(mix(mix(g_seed, 0xABCDEF), g_group_hash));
                const int fd = open(ep.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
                if (fd >= 0)
                {
                    dup2(fd, 2);
                    close(fd);
                }
                struct rlimit rl = {0, 0};
                setrlimit(RLIMIT_CORE, &rl);
                arm_sigabrt();
                struct sigaction sa;
                memset(&sa, 0, sizeof sa);
                sa.sa_handler = vf_sigprof;
                sigaction(SIGPROF, &sa, nullptr);
                install_alloc_hooks();
                todo[i]->fn();
                _exit(0);
            }
            running.push_back(Child{pid, i});
        }
        int st = 0;
        const pid_t p = waitpid(-1, &st, 0);
        for (std::size_t r = 0; r < running.size(); r++)
        {
            if (running[r].pid != p)
                continue;
            const std::size_t i = running[r].idx;
            running.erase(running.begin() + static_cast<std::ptrdiff_t>(r));
            Shared& s = sh[i];
            const bool exited = WIFEXITED(st);
            const int code = exited ? WEXITSTATUS(st) : -1;
            if (exited && code == 0)
                break;
            if (exited && code == 90)
                break;
            std::string why;
            const char* kind = "SAN";
            const std::string err = read_file_head(errpath(i), 6000);
            if (exited && code == 77)
                why = "sanitizer report";
            else if (exited && code == 78)
            {
                kind = "HANG";
                why = "a single case used more than 15 s of CPU";
                if (tries[i]++ == 0)
                {
                    queue.push_back(i);  // confirm once
                    break;
                }
            }
            else if (!exited && WTERMSIG(st) == SIGABRT)
            {
                kind = "ABORT";
                why = "process aborted during a valid operation";
            }
            else if (!exited && WTERMSIG(st) == SIGKILL)
            {
                kind = "HARNESS";
                why = "killed";
            }
            else if (exited && code >= 79)
            {
                kind = "HARNESS";
                why = "harness exit " + std::to_string(code);
            }
            else
                why = exited ? "unexpected exit " + std::to_string(code)
                             : "signal " + std::to_string(WTERMSIG(st));
            // first interesting line of the report
            std::string head;
            const std::size_t e1 = err.find("ERROR: AddressSanitizer");
            const std::size_t e2 = std::min({err.find("runtime error:"), err.find("Conditional jump"), err.find("Use of uninit"), err.find("Invalid ")});
            if (e1 != std::string::npos)
                head = err.substr(e1, err.find('\n', e1) - e1);
            else if (e2 != std::string::npos)
                head = err.substr(e2, err.find('\n', e2) - e2);
            else
                head = err.substr(0, 160);
            record_violation(&s, kind, (why + ": " + head).c_str());
            extra[i] = err;
            break;
        }
    }
    std::uint64_t cases = 0, ops = 0, checks = 0, exp = 0, nviol = 0, harness = 0;
    for (std::size_t i = 0; i < n; i++)
    {
        Shared& s = sh[i];
        cases += s.cases;
        ops += s.ops;
        checks += s.checks;
        exp += s.expected_aborts;
        std::string line = "{\"group\":\"";
        json_escape(line, todo[i]->name.c_str());
        line += "\",\"suite\":\"" + todo[i]->suite + "\",\"cases\":" + std::to_string(s.cases) +
                ",\"ops\":" + std::to_string(s.ops) + ",\"checks\":" + std::to_string(s.checks) +
                ",\"sample\":\"";
        json_escape(line, s.sample);
        line += "\",\"viol\":[";
        for (std::uint32_t k = 0; k < s.nviol; k++)
        {
            if (strcmp(s.viol[k].kind, "HARNESS") == 0)
                harness++;
            nviol++;
            if (k)
                line += ",";
            line += "{\"kind\":\"";
            json_escape(line, s.viol[k].kind);
            line += "\",\"case\":" + std::to_string(s.viol[k].case_no) + ",\"msg\":\"";
            json_escape(line, s.viol[k].msg);
            line += "\",\"trace\":\"";
            json_escape(line, s.viol[k].trace);
            line += "\"}";
        }
        line += "],\"stderr\":\"";
        json_escape(line, extra[i].c_str());
        line += "\"}";
        puts(line.c_str());
        unlink(errpath(i).c_str());
    }
    std::uint64_t distinct = 0;
    for (std::size_t i = 0; i < COV_BITS / 8; i++)
        distinct += static_cast<std::uint64_t>(__builtin_popcount(g_cov->bits[i]));
    printf("{\"summary\":1,\"groups\":%zu,\"cases\":%llu,\"ops\":%llu,\"checks\":%llu,"
           "\"expected_aborts\":%llu,\"distinct\":%llu,\"violations\":%llu,\"harness\":%llu}\n",
           n,
           static_cast<unsigned long long>(cases),
           static_cast<unsigned long long>(ops),
           static_cast<unsigned long long>(checks),
           static_cast<unsigned long long>(exp),
           static_cast<unsigned long long>(distinct),
           static_cast<unsigned long long>(nviol),
           static_cast<unsigned long long>(harness));
    fflush(stdout);
    return 0;
}

}  // namespace vf

// sanitizer defaults: reports end the process with a recognisable exit code
extern "C" __attribute__((used)) const char* __asan_default_options()
{
    return "exitcode=77:detect_leaks=0:abort_on_error=0:handle_abort=0:allocator_may_return_null=1:"
           "detect_stack_use_after_return=1:detect_invalid_pointer_pairs=0";
}
extern "C" __attribute__((used)) const char* __ubsan_default_options()
{
    return "exitcode=77:print_stacktrace=1";
}
