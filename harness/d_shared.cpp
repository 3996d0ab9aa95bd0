// Shared use.  Const operations (and those that std treats as const for data races) write nothing: PART 0 runs them on
// objects in pages that the kernel has made read-only.  Threads that only read one object, or work on objects of their
// own, do not race and get the results of a single thread: PART 1 runs them under ThreadSanitizer.
#include "fw.hpp"

#include "enums.hpp"

#include "fixed_containers/enum_array.hpp"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/enum_set.hpp"
#include "fixed_containers/enum_utils.hpp"
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_circular_queue.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_deque_raw_view.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_map_raw_view.hpp"
#include "fixed_containers/fixed_queue.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_stack.hpp"
#include "fixed_containers/fixed_string.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_map_raw_view.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include "fixed_containers/fixed_unordered_set_raw_view.hpp"
#include "fixed_containers/fixed_vector.hpp"
#include "fixed_containers/optional_reference.hpp"
#include "fixed_containers/string_literal.hpp"
#ifdef __clang__
#include "fixed_containers/recursive_reflection.hpp"
#include "fixed_containers/reflection.hpp"
#include "fixed_containers/struct_view.hpp"
#endif

#include <array>
#include <atomic>
#include <memory>
#include <sys/mman.h>
#include <thread>
#include <vector>

#ifdef VF_TSAN
extern "C" __attribute__((used)) const char* __tsan_default_options()
{
    return "exitcode=77:halt_on_error=1:report_signal_unsafe=0:die_after_fork=0";
}
#endif

namespace fc = fixed_containers;
using namespace vf;

namespace
{
struct Dig
{
    std::uint64_t h = 1;
    void add(std::uint64_t x) { h = (h ^ x) * 0x9E3779B97F4A7C15ULL + (h >> 29); }
};

template <class T>
void feed(Dig& d, const T& t)
{
    if constexpr (requires { t.first; t.second; })
    {
        feed(d, t.first);
        feed(d, t.second);
    }
    else if constexpr (requires { t.v; })
        d.add(static_cast<std::uint64_t>(t.v));
    else if constexpr (requires { t.ordinal(); })
        d.add(t.ordinal());
    else if constexpr (std::is_enum_v<T> || std::is_arithmetic_v<T>)
        d.add(static_cast<std::uint64_t>(t));
    else if constexpr (requires { t.begin(); })
        for (const auto& x : t)
            feed(d, x);
    else
        d.add(7);
}

template <class C, class Pool>
void keyed(Dig& d, C& c, const Pool& pool)
{
    for (const auto& k : pool)
    {
        if constexpr (requires { c.contains(k); })
            d.add(c.contains(k));
        if constexpr (requires { c.count(k); })
            d.add(c.count(k));
        if constexpr (requires { c.find(k); c.end(); })
        {
            auto it = c.find(k);
            d.add(it == c.end());
            if (it != c.end())
                feed(d, *it);
        }
        if constexpr (requires { c.lower_bound(k); })
        {
            d.add(static_cast<std::uint64_t>(std::distance(c.begin(), c.lower_bound(k))));
            d.add(static_cast<std::uint64_t>(std::distance(c.begin(), c.upper_bound(k))));
            const auto r = c.equal_range(k);
            d.add(static_cast<std::uint64_t>(std::distance(r.first, r.second)));
        }
        if constexpr (requires { c.contains(k); c.at(k); })
            if (c.contains(k))
                feed(d, c.at(k));
    }
}

// Everything a reader may do; C is const for the functions declared const, else those std lists as reading ones.
template <class C, class Pool>
std::uint64_t read_all(C& c, const Pool& pool)
{
    Dig d;
    using V = std::remove_const_t<C>;
    if constexpr (requires { c.size(); })
        d.add(c.size());
    if constexpr (requires { c.empty(); })
        d.add(c.empty());
    if constexpr (requires { c.max_size(); })
        d.add(c.max_size());
    if constexpr (requires { c.capacity(); })
        d.add(c.capacity());
    if constexpr (requires { is_full(c); })
        d.add(is_full(c));
    if constexpr (requires { c.begin(); c.end(); })
    {
        for (auto it = c.begin(); it != c.end(); ++it)
            feed(d, *it);
        for (auto it = c.cbegin(); it != c.cend(); it++)
            feed(d, *it);
        if constexpr (requires { c.rbegin(); })
        {
            for (auto it = c.rbegin(); it != c.rend(); ++it)
                feed(d, *it);
            for (auto it = c.crbegin(); it != c.crend(); it++)
                feed(d, *it);
        }
        if constexpr (requires { c.begin() + 1; })
            for (std::ptrdiff_t i = 0; i < static_cast<std::ptrdiff_t>(c.size()); i++)
            {
                feed(d, c.begin()[i]);
                feed(d, *(c.end() - (i + 1)));
                d.add(c.begin() + i < c.end());
            }
    }
    if constexpr (requires { c.at(std::size_t{}); c.size(); c[std::size_t{}]; } && !requires { typename V::key_type; })
        for (std::size_t i = 0; i < c.size(); i++)
        {
            feed(d, c.at(i));
            feed(d, c[i]);
        }
    if constexpr (requires { c.front(); })
        if (!c.empty())
            feed(d, c.front());
    if constexpr (requires { c.back(); })
        if (!c.empty())
            feed(d, c.back());
    if constexpr (requires { c.top(); })
        if (!c.empty())
            feed(d, c.top());
    if constexpr (requires { c.data(); })
        for (std::size_t i = 0; i < c.size(); i++)
            feed(d, c.data()[i]);
    if constexpr (requires { c.c_str(); })
    {
        d.add(std::string_view(c.c_str()).size());
        d.add(c.find('b') == V::npos);
        d.add(c.rfind("a") == V::npos);
        d.add(c.starts_with("a"));
        d.add(c.ends_with('c'));
        d.add(std::string_view(c) == std::string_view("abc"));
        if (c.size() > 1)
            feed(d, c.substr(1));
        d.add(static_cast<std::uint64_t>(c.compare("abd")));
    }
    else
        keyed(d, c, pool);
    if constexpr (std::is_const_v<C>)
    {
        if constexpr (requires { c == c; })
        {
            const V other(c);
            d.add(other == c);
            d.add(c == other);
            if constexpr (requires { other.begin(); })
                for (const auto& x : other)
                    feed(d, x);
            V assigned(c);
            assigned = c;
            d.add(assigned == c);
            if constexpr (requires { c <=> c; })
                d.add((c <=> other) == 0);
        }
    }
    return d.h;
}

// Random valid history; r is the only source of choice, so that it can be repeated
template <class C, class T>
void write_some(C& c, Rng& r, std::size_t cap, std::size_t steps, const std::vector<T>& pool)
{
    for (std::size_t s = 0; s < steps; s++)
    {
        const std::size_t op = r.below(8);
        const std::size_t pick = r.below(pool.size());
        const T& k = pool[pick];
        const std::size_t pos = r.below(1000);
        if constexpr (requires { c.push(k); c.pop(); })
        {
            if (op < 5 && c.size() < cap)
                c.push(k);
            else if (op >= 5 && !c.empty())
                c.pop();
        }
        else if constexpr (requires { c.c_str(); })
        {
            if (op < 4 && c.size() < cap)
                c.insert(c.begin() + static_cast<std::ptrdiff_t>(pos % (c.size() + 1)), static_cast<char>('a' + pick % 5));
            else if (op == 4 && !c.empty())
                c.erase(c.begin() + static_cast<std::ptrdiff_t>(pos % c.size()));
            else if (op == 5 && !c.empty())
                c.pop_back();
            else if (op == 6 && c.size() < cap)
                c.push_back('b');
            else if (op == 7 && pos % 20 == 0)
                c.clear();
        }
        else if constexpr (requires { c.push_back(k); })
        {
            auto at = std::next(c.begin(), static_cast<std::ptrdiff_t>(pos % (c.size() + 1)));
            if (op < 2 && c.size() < cap)
                c.push_back(k);
            else if (op == 2 && c.size() < cap)
                c.insert(at, k);
            else if (op == 3 && at != c.end())
                c.erase(at);
            else if (op == 4 && !c.empty())
                c.pop_back();
            else if (op == 5)
            {
                if constexpr (requires { c.push_front(k); })
                {
                    if (c.size() < cap)
                        c.push_front(k);
                }
            }
            else if (op == 6)
                c.resize(pos % (cap + 1));
            else if (pos % 20 == 0)
                c.clear();
        }
        else if constexpr (requires { typename C::mapped_type; c.try_emplace(k, 1); })
        {
            if (op < 4 && (c.size() < cap || c.contains(k)))
                c.insert_or_assign(k, static_cast<int>(pos));
            else if (op < 6)
                c.erase(k);
            else if (op == 6 && (c.size() < cap || c.contains(k)))
                c[k] = static_cast<int>(pos) + 1;
            else if (pos % 20 == 0)
                c.clear();
        }
        else if constexpr (requires { c.insert(k); c.erase(k); })
        {
            if (op < 4 && (c.size() < cap || c.contains(k)))
                c.insert(k);
            else if (op < 7)
                c.erase(k);
            else if (pos % 20 == 0)
                c.clear();
        }
        else if constexpr (requires { c.at(k) = 1; })
            c.at(k) = static_cast<int>(pos);
    }
}

// takes out what is there, from one end or the other, all but a few
template <class C>
void drain(C& c, std::size_t rest)
{
    for (const bool front = rest != 1;;)
    {
        if constexpr (requires { c.size(); c.pop_back(); })
        {
            if (c.size() <= rest)
                return;
            if constexpr (requires { c.pop_front(); })
            {
                if (front)
                {
                    c.pop_front();
                    continue;
                }
            }
            c.pop_back();
        }
        else if constexpr (requires { c.size(); c.pop(); })
        {
            if (c.size() <= rest)
                return;
            c.pop();
        }
        else if constexpr (requires { c.size(); c.erase(c.begin()); })
        {
            if (c.size() <= rest)
                return;
            c.erase(c.begin());
        }
        else
            return;
    }
}

// a history on an object of one's own
template <class C, class T>
std::uint64_t own_work(std::uint64_t seed, std::size_t cap, const std::vector<T>& pool)
{
    C mine{};
    Rng q(seed);
    Dig d;
    for (int s = 0; s < 5; s++)
    {
        write_some(mine, q, cap, 6, pool);
        d.add(read_all(std::as_const(mine), pool));
        if constexpr (std::is_copy_constructible_v<C> && std::is_move_assignable_v<C>)
        {
            C other(mine);
            write_some(other, q, cap, 2, pool);
            d.add(read_all(std::as_const(other), pool));
            using std::swap;
            swap(mine, other);
            d.add(read_all(mine, pool));
        }
    }
    return d.h;
}

// tables and names of enums
template <class E>
std::uint64_t enum_reads()
{
    Dig d;
    using A = fc::rich_enums::EnumAdapter<E>;
    for (const auto& e : A::values())
    {
        d.add(A::ordinal(e));
        for (char c : A::to_string(e))
            d.add(static_cast<unsigned char>(c));
        if constexpr (requires { E::value_of(A::to_string(e)); })
            d.add(E::value_of(A::to_string(e)).has_value());
    }
    return d.h;
}
std::uint64_t all_enum_reads()
{
    return enum_reads<vfe::E5>() ^ enum_reads<vfe::ESparse>() * 3 ^ enum_reads<vfe::E70>() * 5 ^ enum_reads<vfe::RichSparse>() * 7;
}

#if PART == 0
// object in its own pages
template <class C>
struct Page
{
    struct Held
    {
        C c;
    };
    std::size_t bytes = (sizeof(Held) + 4095) / 4096 * 4096;
    void* mem = mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    Held* h = nullptr;
    Page()
    {
        if (mem == MAP_FAILED)
            _exit(91);
        h = ::new (mem) Held{};
    }
    ~Page()
    {
        mprotect(mem, bytes, PROT_READ | PROT_WRITE);
        h->~Held();
        munmap(mem, bytes);
    }
    void freeze() { mprotect(mem, bytes, PROT_READ); }
    void thaw() { mprotect(mem, bytes, PROT_READ | PROT_WRITE); }
};

// init(state, rng) prepares a state, read(const state) is what any number of threads may do with it
template <class S, class I, class R>
void readers(const char* name, I init, R read)
{
    add_group("shared", std::string("readonly/") + name,
              [=]
              {
                  for (std::size_t i = 0, n = n_cases(60); i < n; i++)
                      run_case(name,
                               [&]
                               {
                                   Page<S> p;
                                   Rng r(g_rng.next());
                                   init(p.h->c, r);
                                   trace("reading %zu bytes that are write-protected", sizeof(S));
                                   p.freeze();
                                   const std::uint64_t b = read(std::as_const(p.h->c));
                                   g_sh->ops++;
                                   p.thaw();
                                   const std::uint64_t a = read(std::as_const(p.h->c));
                                   VF_CHECK("MODEL", a == b, "reading twice gave different results");
                                   cover(a);
                               });
              });
}

template <class C, class T>
void groups_of(const char* name, std::size_t cap, std::vector<T> pool)
{
    add_group("shared", std::string("readonly/") + name,
              [name, cap, pool]
              {
                  for (std::size_t i = 0, n = n_cases(60); i < n; i++)
                      run_case(name,
                               [&]
                               {
                                   Page<C> p;
                                   C& c = p.h->c;
                                   const std::uint64_t seed = g_rng.next();
                                   Rng r(seed);
                                   for (int round = 0; round < 6; round++)
                                   {
                                       write_some(c, r, cap, round == 0 ? 0 : 1 + r.below(3 * cap + 2), pool);
                                       if (r.chance(1, 3))
                                           drain(c, r.below(3));
                                       // frozen first: a write that only the first read after a change makes must not have happened yet
                                       trace("round %d: reading %zu bytes that are write-protected", round, sizeof(C));
                                       p.freeze();
                                       std::uint64_t a2 = 0, b2 = 0;
                                       if (r.chance(1, 2))
                                           b2 = read_all(c, pool);
                                       a2 = read_all(std::as_const(c), pool);
                                       b2 = read_all(c, pool);
                                       g_sh->ops += 2;
                                       p.thaw();
                                       const std::uint64_t a = read_all(std::as_const(c), pool);
                                       const std::uint64_t b = read_all(c, pool);
                                       VF_CHECK("MODEL", a == a2 && b == b2, "reading twice gave different results");
                                       cover(a);
                                   }
                               });
              });
}
#else
struct Gate
{
    std::atomic<int> waiting{0};
    std::atomic<bool> open{false};
    void pass()
    {
        waiting++;
        while (!open.load(std::memory_order_acquire))
            std::this_thread::yield();
    }
};

template <class S, class I, class R>
void readers(const char* name, I init, R read)
{
    add_group("shared", std::string("threads/") + name,
              [=]
              {
                  for (std::size_t i = 0, n = n_cases(6); i < n; i++)
                      run_case(name,
                               [&]
                               {
                                   constexpr int K = 4, ROUNDS = 4;
                                   auto shared = std::make_unique<S>();
                                   Rng r(g_rng.next());
                                   init(*shared, r);
                                   Gate gate;
                                   std::uint64_t got[K][ROUNDS];
                                   int order[K] = {};
                                   std::atomic<int> ticket{0};
                                   std::vector<std::thread> ts;
                                   trace("%d threads read", K);
                                   for (int t = 0; t < K; t++)
                                       ts.emplace_back(
                                           [&, t]
                                           {
                                               gate.pass();
                                               for (int s = 0; s < ROUNDS; s++)
                                                   got[t][s] = read(std::as_const(*shared));
                                               order[t] = ticket.fetch_add(1, std::memory_order_relaxed);
                                           });
                                   while (gate.waiting.load() < K)
                                       std::this_thread::yield();
                                   gate.open.store(true, std::memory_order_release);
                                   for (auto& t : ts)
                                       t.join();
                                   g_sh->ops += K * ROUNDS;
                                   const std::uint64_t want = read(std::as_const(*shared));
                                   std::uint64_t ord = 0;
                                   for (int t = 0; t < K; t++)
                                   {
                                       for (int s = 0; s < ROUNDS; s++)
                                           VF_CHECK("MODEL", got[t][s] == want, "thread %d read something else", t);
                                       ord = ord * 8 + static_cast<std::uint64_t>(order[t]);
                                   }
                                   cover(mix(want, ord));
                               });
              });
}

template <class C, class T>
void groups_of(const char* name, std::size_t cap, std::vector<T> pool)
{
    add_group("shared", std::string("threads/") + name,
              [name, cap, pool]
              {
                  for (std::size_t i = 0, n = n_cases(6); i < n; i++)
                      run_case(name,
                               [&]
                               {
                                   // the threads come first and the single-threaded results after them: state that is set up on first use is set up by a thread
                                   constexpr int K = 4, ROUNDS = 3;
                                   auto shared = std::make_unique<C>();
                                   Rng r(g_rng.next());
                                   write_some(*shared, r, cap, r.below(3 * cap + 2), pool);
                                   if (r.chance(1, 3))
                                       drain(*shared, r.below(3));
                                   const std::uint64_t seed = g_rng.next();
                                   Gate gate;
                                   std::uint64_t got[K][ROUNDS], got_nc[K][ROUNDS], got_own[K], got_enum[K];
                                   int order[K] = {};
                                   std::atomic<int> ticket{0};
                                   std::vector<std::thread> ts;
                                   trace("%d threads read one object and work on their own", K);
                                   for (int t = 0; t < K; t++)
                                       ts.emplace_back(
                                           [&, t]
                                           {
                                               Rng delay(seed * 31 + static_cast<std::uint64_t>(t));
                                               gate.pass();
                                               for (int s = 0; s < ROUNDS; s++)
                                               {
                                                   got[t][s] = read_all(std::as_const(*shared), pool);
                                                   if (delay.chance(1, 3))
                                                       std::this_thread::yield();
                                                   got_nc[t][s] = read_all(*shared, pool);
                                               }
                                               got_enum[t] = all_enum_reads();
                                               got_own[t] = own_work<C>(seed + static_cast<std::uint64_t>(t), cap, pool);
                                               order[t] = ticket.fetch_add(1, std::memory_order_relaxed);
                                           });
                                   while (gate.waiting.load() < K)
                                       std::this_thread::yield();
                                   gate.open.store(true, std::memory_order_release);
                                   for (auto& t : ts)
                                       t.join();
                                   g_sh->ops += K * ROUNDS;
                                   const std::uint64_t want = read_all(std::as_const(*shared), pool);
                                   const std::uint64_t want_nc = read_all(*shared, pool);
                                   const std::uint64_t want_enum = all_enum_reads();
                                   std::uint64_t ord = 0;
                                   for (int t = 0; t < K; t++)
                                   {
                                       for (int s = 0; s < ROUNDS; s++)
                                           VF_CHECK("MODEL", got[t][s] == want && got_nc[t][s] == want_nc, "thread %d read other contents", t);
                                       VF_CHECK("MODEL", got_enum[t] == want_enum, "thread %d read other enum tables", t);
                                       VF_CHECK("MODEL", got_own[t] == own_work<C>(seed + static_cast<std::uint64_t>(t), cap, pool), "thread %d got other results from its own container than a single thread", t);
                                       ord = ord * 8 + static_cast<std::uint64_t>(order[t]);
                                   }
                                   cover(mix(want, ord));
                               });
              });
}
#endif

template <std::size_t N>
void all_of()
{
    const std::string n = "/" + std::to_string(N);
    std::vector<int> ints;
    std::vector<Ntv> ntvs;
    for (int i = 0; i < static_cast<int>(N) + 3; i++)
    {
        ints.push_back(i * 5 - 7);
        ntvs.emplace_back(i * 3);
    }
    using CC = fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness;
    auto nm = [&](const char* s) { return (new std::string(s + n))->c_str(); };
    groups_of<fc::FixedVector<int, N>>(nm("FixedVector<int>"), N, ints);
    groups_of<fc::FixedVector<Ntv, N>>(nm("FixedVector<Ntv>"), N, ntvs);
    groups_of<fc::FixedDeque<int, N>>(nm("FixedDeque<int>"), N, ints);
    groups_of<fc::FixedDeque<Ntv, N>>(nm("FixedDeque<Ntv>"), N, ntvs);
    groups_of<fc::FixedCircularDeque<int, N>>(nm("FixedCircularDeque<int>"), N, ints);
    groups_of<fc::FixedCircularDeque<Ntv, N>>(nm("FixedCircularDeque<Ntv>"), N, ntvs);
    groups_of<fc::FixedList<int, N>>(nm("FixedList<int>"), N, ints);
    groups_of<fc::FixedList<Ntv, N>>(nm("FixedList<Ntv>"), N, ntvs);
    groups_of<fc::FixedStack<int, N>>(nm("FixedStack"), N, ints);
    groups_of<fc::FixedQueue<int, N>>(nm("FixedQueue"), N, ints);
    groups_of<fc::FixedCircularQueue<int, N>>(nm("FixedCircularQueue"), N, ints);
    groups_of<fc::FixedString<N>>(nm("FixedString"), N, ints);
    groups_of<fc::FixedMap<int, int, N>>(nm("FixedMap"), N, ints);
    groups_of<fc::FixedMap<int, int, N, std::less<int>, CC::EMBEDDED_COLOR, fc::FixedIndexBasedContiguousStorage>>(nm("FixedMap<contiguous>"), N, ints);
    groups_of<fc::FixedMap<Ntv, int, N, std::greater<Ntv>>>(nm("FixedMap<Ntv>"), N, ntvs);
    groups_of<fc::FixedSet<int, N>>(nm("FixedSet"), N, ints);
    groups_of<fc::FixedSet<Ntv, N, std::less<Ntv>, CC::EMBEDDED_COLOR, fc::FixedIndexBasedContiguousStorage>>(nm("FixedSet<contiguous>"), N, ntvs);
    groups_of<fc::FixedUnorderedMap<int, int, N>>(nm("FixedUnorderedMap"), N, ints);
    groups_of<fc::FixedUnorderedSet<int, N>>(nm("FixedUnorderedSet"), N, ints);
}

template <class E>
void enums_of(const char* name)
{
    std::vector<E> pool(fc::rich_enums::EnumAdapter<E>::values().begin(), fc::rich_enums::EnumAdapter<E>::values().end());
    const std::string n = std::string("<") + name + ">";
    auto nm = [&](const char* s) { return (new std::string(s + n))->c_str(); };
    groups_of<fc::EnumMap<E, int>>(nm("EnumMap"), pool.size(), pool);
    groups_of<fc::EnumSet<E>>(nm("EnumSet"), pool.size(), pool);
    groups_of<fc::EnumArray<E, int>>(nm("EnumArray"), pool.size(), pool);
}

template <class C>
void fill_ints(C& c, Rng& r, std::size_t cap)
{
    std::vector<int> pool;
    for (int i = 0; i < 40; i++)
        pool.push_back(i);
    const std::size_t steps = r.below(4 * cap);
    write_some(c, r, cap, steps, pool);
}

int as_int(const void* p)
{
    int x = 0;
    memcpy(&x, p, sizeof x);
    return x;
}

#ifdef __clang__
namespace sv = fc::struct_view;
struct Inner
{
    int a{};
    double b{};
    char c{};
};
struct Outer
{
    int x{};
    Inner in{};
    fc::FixedVector<Inner, 3> many{};
    std::array<Inner, 2> pair{};
    long y{};
};
struct SubInner
{
    const int* a{};
    const char* c{};
};
struct Sub
{
    SubInner in{};
    fc::FixedVector<SubInner, 3> many{};
    std::array<SubInner, 2> pair{};
    const long* y{};
};
struct Viewed
{
    Outer o{};
    sv::StructView<64> view{o};
};
#endif

void view_groups()
{
    constexpr std::size_t N = 20;
    using CC = fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness;
    using ST = fc::fixed_red_black_tree_detail::RedBlackTreeStorageType;
    readers<fc::FixedDeque<int, N>>("FixedDequeRawView", [](auto& c, Rng& r) { fill_ints(c, r, N); },
                                    [](const auto& c)
                                    {
                                        Dig d;
                                        const fc::FixedDequeRawView<> v(&c, sizeof(int), alignof(int), N);
                                        d.add(v.size());
                                        for (const auto* p : v)
                                            d.add(static_cast<std::uint64_t>(as_int(p)));
                                        return d.h;
                                    });
    readers<fc::FixedMap<int, int, N>>("FixedMapRawView", [](auto& c, Rng& r) { fill_ints(c, r, N); },
                                       [](const auto& c)
                                       {
                                           Dig d;
                                           const fc::FixedMapRawView v(&c, 4, 4, 4, 4, N, CC::EMBEDDED_COLOR, ST::FIXED_INDEX_POOL);
                                           for (auto it = v.begin(); it != v.end(); ++it)
                                           {
                                               d.add(static_cast<std::uint64_t>(as_int(it->key())));
                                               d.add(static_cast<std::uint64_t>(as_int(it->value())));
                                           }
                                           return d.h;
                                       });
    readers<fc::FixedUnorderedMap<int, int, N>>("FixedUnorderedMapRawView", [](auto& c, Rng& r) { fill_ints(c, r, N); },
                                                [](const auto& c)
                                                {
                                                    Dig d;
                                                    const fc::FixedUnorderedMapRawView v(&c, 4, 4, 4, 4, N);
                                                    d.add(v.size());
                                                    for (auto it = v.begin(); it != v.end(); ++it)
                                                    {
                                                        d.add(static_cast<std::uint64_t>(as_int(it->key())));
                                                        d.add(static_cast<std::uint64_t>(as_int(it->value())));
                                                    }
                                                    return d.h;
                                                });
    readers<fc::FixedUnorderedSet<int, N>>("FixedUnorderedSetRawView", [](auto& c, Rng& r) { fill_ints(c, r, N); },
                                           [](const auto& c)
                                           {
                                               Dig d;
                                               const fc::FixedUnorderedSetRawView v(&c, 4, 4, N);
                                               d.add(v.size());
                                               for (const auto* p : v)
                                                   d.add(static_cast<std::uint64_t>(as_int(p)));
                                               return d.h;
                                           });
#ifdef __clang__
    readers<Viewed>("StructView",
                    [](Viewed& s, Rng& r)
                    {
                        s.o.x = static_cast<int>(r.below(100));
                        s.o.in = Inner{static_cast<int>(r.below(100)), 1.5, 'c'};
                        s.o.y = static_cast<long>(r.below(100));
                        while (!is_full(s.o.many) && r.chance(1, 2))
                            s.o.many.push_back(Inner{static_cast<int>(r.below(100)), 2.5, 'd'});
                        s.o.pair[1].a = static_cast<int>(r.below(100));
                    },
                    [](const Viewed& s)
                    {
                        Dig d;
                        const char* base = reinterpret_cast<const char*>(&s.o);
                        Outer& viewed = const_cast<Outer&>(s.o);  // the functions take mutable objects, but only read them
                        sv::for_each_field(s.view, &viewed,
                                           [&](const auto&, const auto& props, const auto&, void* p)
                                           {
                                               d.add(static_cast<std::uint64_t>(reinterpret_cast<const char*>(p) - base));
                                               d.add(props.metadata.metadata_type.size());
                                           });
                        for (const char* name : {"x", "in.a", "in.c", "y", "nothing"})
                        {
                            const auto path = sv::path_from_string(name);
                            d.add(s.view.contains(path));
                        }
                        Sub model{};
                        const sv::StructView<64> sub_view(model);
                        Outer copy(s.o);  // making a view may construct and destroy elements of empty containers in its argument
                        const sv::StructView<64> own_view(copy);
                        d.add(own_view.get_path_map_ref().size());
                        Sub sub{};
                        sv::sub_struct_view_of(viewed, s.view, fc::out<Sub>{sub}, sub_view);
                        d.add(static_cast<std::uint64_t>(*sub.in.a));
                        d.add(static_cast<std::uint64_t>(*sub.pair[1].a));
                        d.add(static_cast<std::uint64_t>(*sub.y));
                        d.add(sub.many.size());
                        for (const auto& m : sub.many)
                            d.add(static_cast<std::uint64_t>(*m.a) + static_cast<std::uint64_t>(*m.c));
                        fc::reflection::for_each_field(s.o.in, [&](const std::string_view& n, const auto& f) { d.add(n.size()); d.add(static_cast<std::uint64_t>(f)); });
                        for (const auto& n : fc::reflection::field_names_of<Outer>())
                            d.add(n.size());
                        return d.h;
                    });
#endif
}
}  // namespace

int main(int argc, char** argv)
{
    all_of<1>();
    all_of<6>();
    all_of<33>();
    enums_of<vfe::E5>("E5");
    enums_of<vfe::ESparse>("ESparse");
    enums_of<vfe::E70>("E70");
    enums_of<vfe::RichSparse>("RichSparse");
    view_groups();
    return driver_main(argc, argv);
}
