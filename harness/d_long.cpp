// Long histories of one object: some hundred thousand operations in phases that drift in one direction, so that
// anything that accumulates (positions, free lists, probe lengths, counters) passes the 8-bit and 16-bit limits while
// the container itself stays small.
// PART 0 vector, string  1 deque, queue, stack  2 circular deque, circular queue  3 list  4 map, set  5 unordered map, set  6 enum map, set
#ifndef PART
#define PART 0
#endif
#include "fw.hpp"
#include "enums.hpp"
#include "fixed_containers/bidirectional_iterator.hpp"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/enum_set.hpp"
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_circular_queue.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_queue.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_stack.hpp"
#include "fixed_containers/fixed_string.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include "fixed_containers/fixed_vector.hpp"

#include <algorithm>
#include <deque>
#include <map>
#include <memory>
#include <string>
#include <vector>
using namespace vf;
namespace fc = fixed_containers;

namespace
{
// an element that owns something, so that a forgotten or repeated destruction is visible
struct Own
{
    static inline long live = 0;
    int v;
    Own(int x = 0) : v(x) { live++; }
    Own(const Own& o) : v(o.v) { live++; }
    Own(Own&& o) noexcept : v(std::exchange(o.v, -1)) { live++; }
    Own& operator=(const Own&) = default;
    Own& operator=(Own&& o) noexcept
    {
        v = std::exchange(o.v, -1);
        return *this;
    }
    ~Own()
    {
        v = -2;
        live--;
    }
    bool operator==(const Own& o) const { return v == o.v; }
    bool operator<(const Own& o) const { return v < o.v; }
};
[[maybe_unused]] int num(int x) { return x; }
[[maybe_unused]] int num(char x) { return static_cast<unsigned char>(x); }
[[maybe_unused]] int num(const Own& x) { return x.v; }

template <class T>
void live(std::size_t n)
{
    if constexpr (std::is_same_v<T, Own>)
        VF_CHECK("LIFE", Own::live == static_cast<long>(n), "%ld elements are alive, the container holds %zu", Own::live, n);
}
constexpr std::size_t STEPS = 560000;

template <class C, class M, class T>
void same(const C& c, const M& m)
{
    VF_CHECK("MODEL", c.size() == m.size() && c.empty() == m.empty(), "size %zu, expected %zu", c.size(), m.size());
    auto it = c.begin();
    std::size_t i = 0;
    for (const int x : m)
    {
        VF_CHECK("MODEL", it != c.end() && num(*it) == x, "element %zu differs", i);
        ++it;
        i++;
    }
    VF_CHECK("MODEL", it == c.end(), "more elements than %zu", m.size());
    if constexpr (requires { c[0]; })
        if (!m.empty())
        {
            const std::size_t k = g_rng.below(m.size());
            VF_CHECK("MODEL", num(c[k]) == m[k] && num(c.front()) == m.front() && num(c.back()) == m.back(), "element %zu by index, front or back", k);
        }
    live<T>(m.size());
}

// one step of a sequence: `dir` 0 forward drift, 1 backward drift, 2 both ends, 3 anywhere
template <class C, class T, std::size_t N, bool CIRC, bool FRONT>
void seq_history()
{
    Own::live = 0;
    {
        auto cp = std::make_unique<C>();
        C& c = *cp;
        std::deque<int> m;
        int next = 1;
        const auto val = [&]
        {
            next = next % 200 + 1;
            return next;
        };
        for (int phase = 0; phase < 4; phase++)
        {
            const int dir = FRONT ? phase : 3;
            const std::size_t steps = dir == 3 ? STEPS / 8 : STEPS / 2;
            trace("phase %d of %zu steps from size %zu;", dir, steps, m.size());
            for (std::size_t s = 0; s < steps; s++)
            {
                const bool grow = CIRC ? g_rng.chance(2, 3) : m.size() < N && (m.empty() || g_rng.chance(1, 2));
                const bool back = dir == 0 ? grow : dir == 1 ? !grow : g_rng.chance(1, 2);
                if (!grow && m.empty())
                    continue;
                if (dir == 3)
                {
                    const std::size_t p = g_rng.below(m.size() + (grow ? 1 : 0));
                    const auto at = std::next(c.begin(), static_cast<std::ptrdiff_t>(p));
                    if (grow)
                    {
                        const int v = val();
                        const auto r = LIB(c.insert(at, static_cast<T>(v)));
                        if (CIRC && m.size() == N)
                        {
                            m.insert(m.begin() + static_cast<std::ptrdiff_t>(p), v);
                            m.pop_front();
                        }
                        else
                        {
                            m.insert(m.begin() + static_cast<std::ptrdiff_t>(p), v);
                            VF_CHECK("MODEL", r == std::next(c.begin(), static_cast<std::ptrdiff_t>(p)), "insert returns another position");
                        }
                    }
                    else
                    {
                        LIB(c.erase(at));
                        m.erase(m.begin() + static_cast<std::ptrdiff_t>(p));
                    }
                }
                else if (grow && back)
                {
                    const int v = val();
                    LIB(c.push_back(static_cast<T>(v)));
                    m.push_back(v);
                    if (m.size() > N)
                        m.pop_front();
                }
                else if (grow)
                {
                    if constexpr (FRONT)
                    {
                        const int v = val();
                        LIB(c.push_front(static_cast<T>(v)));
                        m.push_front(v);
                        if (m.size() > N)
                            m.pop_back();
                    }
                }
                else if (back)
                {
                    LIB(c.pop_back());
                    m.pop_back();
                }
                else if constexpr (FRONT)
                {
                    LIB(c.pop_front());
                    m.pop_front();
                }
                if (s % 16 == 0 || s < 64)
                    same<C, std::deque<int>, T>(c, m);
            }
            same<C, std::deque<int>, T>(c, m);
            C copy(c);
            VF_CHECK("MODEL", copy == c, "a copy after %zu steps differs", steps);
            c = copy;
            same<C, std::deque<int>, int>(c, m);
            cover(mix(mix(N, static_cast<std::uint64_t>(phase)), m.size()));
        }
    }
    live<T>(0);
}
template <class C, class T, std::size_t N, bool CIRC, bool FRONT>
void seq_group(const char* id)
{
    add_group("model", std::string("long ") + id + "<" + std::to_string(N) + ">",
              [=]
              {
                  for (std::size_t k = 0; k < n_cases(1); k++)
                      run_case(id, [] { seq_history<C, T, N, CIRC, FRONT>(); });
              });
}

// queues and stacks
template <class C, std::size_t N, bool LIFO, bool CIRC>
void adapter_group(const char* id)
{
    add_group("model", std::string("long ") + id + "<" + std::to_string(N) + ">",
              [=]
              {
                  run_case(id,
                           []
                           {
                               auto cp = std::make_unique<C>();
                               C& c = *cp;
                               std::deque<int> m;
                               int next = 0;
                               for (std::size_t s = 0; s < STEPS; s++)
                               {
                                   if (m.empty() || ((CIRC || m.size() < N) && g_rng.chance(1, 2)))
                                   {
                                       LIB(c.push(++next));
                                       m.push_back(next);
                                       if (m.size() > N)
                                           m.pop_front();
                                   }
                                   else
                                   {
                                       LIB(c.pop());
                                       LIFO ? m.pop_back() : m.pop_front();
                                   }
                                   VF_CHECK("MODEL", c.size() == m.size() && c.empty() == m.empty(), "size %zu, expected %zu after %zu steps", c.size(), m.size(), s);
                                   if (!m.empty())
                                   {
                                       if constexpr (LIFO)
                                           VF_CHECK("MODEL", c.top() == m.back(), "top after %zu steps", s);
                                       else
                                           VF_CHECK("MODEL", c.front() == m.front() && c.back() == m.back(), "front or back after %zu steps", s);
                                   }
                               }
                               cover(mix(N, LIFO * 2 + CIRC));
                           });
              });
}

// maps and sets: a window of keys that drifts upwards or downwards, then keys at random
template <class C, class V, std::size_t N, bool MAP, bool ORD>
void assoc_history()
{
    Own::live = 0;
    {
        auto cp = std::make_unique<C>();
        C& c = *cp;
        std::map<int, int> m;
        std::vector<int> order;  // insertion order
        const auto same_as = [&]
        {
            VF_CHECK("MODEL", c.size() == m.size() && c.empty() == m.empty(), "size %zu, expected %zu", c.size(), m.size());
            std::size_t i = 0;
            auto mi = m.begin();
            for (auto it = c.begin(); it != c.end(); ++it, ++i)
            {
                VF_CHECK("MODEL", i < m.size(), "more than %zu entries", m.size());
                const int want = ORD ? (mi++)->first : order[i];
                if constexpr (MAP)
                    VF_CHECK("MODEL", it->first == want && num(it->second) == m.at(want), "entry %zu differs", i);
                else
                    VF_CHECK("MODEL", *it == want, "entry %zu differs", i);
            }
            VF_CHECK("MODEL", i == m.size(), "iteration visits %zu of %zu", i, m.size());
            for (const auto& [k, v] : m)
                VF_CHECK("MODEL", c.contains(k), "key %d is not found", k);
            if constexpr (MAP)
                live<V>(m.size());
        };
        int lo = 0, hi = 0;
        for (int phase = 0; phase < 3; phase++)
        {
            const std::size_t steps = phase == 2 ? STEPS / 8 : STEPS / 4;
            trace("phase %d of %zu steps from size %zu;", phase, steps, m.size());
            for (std::size_t s = 0; s < steps; s++)
            {
                const bool grow = m.size() < N && (m.empty() || g_rng.chance(1, 2));
                int key = 0;
                if (grow)
                {
                    key = phase == 0 ? ++hi : phase == 1 ? --lo : static_cast<int>(g_rng.below(3 * N + 2));
                    const int v = static_cast<int>(g_rng.below(100));
                    const bool fresh = !m.contains(key);
                    if constexpr (MAP)
                    {
                        const auto [it, ins] = LIB(c.try_emplace(key, V(v)));
                        VF_CHECK("MODEL", ins == fresh && it->first == key, "insertion of key %d", key);
                    }
                    else
                    {
                        const auto [it, ins] = LIB(c.insert(key));
                        VF_CHECK("MODEL", ins == fresh && *it == key, "insertion of key %d", key);
                    }
                    if (fresh)
                    {
                        m[key] = v;
                        order.push_back(key);
                    }
                }
                else
                {
                    if (phase == 0)
                        key = m.begin()->first;
                    else if (phase == 1)
                        key = m.rbegin()->first;
                    else
                        key = static_cast<int>(g_rng.below(3 * N + 2));
                    const bool there = m.contains(key);
                    if (there && g_rng.chance(1, 3))
                        LIB(c.erase(c.find(key)));
                    else
                        VF_CHECK("MODEL", LIB(c.erase(key)) == (there ? 1u : 0u), "erasure of key %d", key);
                    m.erase(key);
                    order.erase(std::remove(order.begin(), order.end(), key), order.end());
                }
                VF_CHECK("MODEL", c.contains(key) == grow, "key %d after the step", key);
                if (s % 16 == 0 || s < 64)
                    same_as();
            }
            same_as();
            C copy(c);
            VF_CHECK("MODEL", copy == c, "a copy after %zu steps differs", steps);
            cover(mix(mix(N, static_cast<std::uint64_t>(phase)), m.size()));
        }
    }
    if constexpr (MAP)
        live<V>(0);
}
template <class C, class V, std::size_t N, bool MAP, bool ORD>
void assoc_group(const char* id)
{
    add_group("model", std::string("long ") + id + "<" + std::to_string(N) + ">",
              [=]
              {
                  for (std::size_t k = 0; k < n_cases(1); k++)
                      run_case(id, [] { assoc_history<C, V, N, MAP, ORD>(); });
              });
}

#if PART == 6
enum class Few
{
    a = -7,
    b = 3,
    c = 4,
    d = 50,
    e = 120,
};
template <class C, bool MAP>
void enum_group(const char* id)
{
    add_group("model", std::string("long ") + id,
              [=]
              {
                  run_case(id,
                           []
                           {
                               const Few ks[] = {Few::a, Few::b, Few::c, Few::d, Few::e};
                               auto cp = std::make_unique<C>();
                               C& c = *cp;
                               std::map<Few, int> m;
                               for (std::size_t s = 0; s < STEPS; s++)
                               {
                                   const Few k = ks[g_rng.below(5)];
                                   const bool there = m.contains(k);
                                   if (g_rng.chance(1, 2))
                                   {
                                       const int v = static_cast<int>(s);
                                       if constexpr (MAP)
                                           VF_CHECK("MODEL", LIB(c.try_emplace(k, v)).second == !there, "insertion after %zu steps", s);
                                       else
                                           VF_CHECK("MODEL", LIB(c.insert(k)).second == !there, "insertion after %zu steps", s);
                                       m.try_emplace(k, v);
                                   }
                                   else
                                   {
                                       VF_CHECK("MODEL", LIB(c.erase(k)) == (there ? 1u : 0u), "erasure after %zu steps", s);
                                       m.erase(k);
                                   }
                                   VF_CHECK("MODEL", c.size() == m.size() && c.empty() == m.empty(), "size after %zu steps", s);
                                   if (s % 16 == 0)
                                   {
                                       auto it = c.begin();
                                       for (const auto& [kk, v] : m)
                                       {
                                           if constexpr (MAP)
                                               VF_CHECK("MODEL", it->first == kk && it->second == v, "entry after %zu steps", s);
                                           else
                                               VF_CHECK("MODEL", *it == kk, "entry after %zu steps", s);
                                           ++it;
                                       }
                                       VF_CHECK("MODEL", it == c.end(), "end after %zu steps", s);
                                   }
                               }
                               cover(m.size());
                           });
              });
}
#endif
}  // namespace

int main(int argc, char** argv)
{
#if PART == 0
    seq_group<fc::FixedVector<int, 5>, int, 5, false, false>("vector<int>");
    seq_group<fc::FixedVector<Own, 3>, Own, 3, false, false>("vector<owner>");
    seq_group<fc::FixedString<6>, char, 6, false, false>("string");
#elif PART == 1
    seq_group<fc::FixedDeque<int, 1>, int, 1, false, true>("deque<int>");
    seq_group<fc::FixedDeque<int, 5>, int, 5, false, true>("deque<int>");
    seq_group<fc::FixedDeque<Own, 3>, Own, 3, false, true>("deque<owner>");
    seq_group<fc::FixedDeque<char, 8>, char, 8, false, true>("deque<char>");
    adapter_group<fc::FixedQueue<int, 3>, 3, false, false>("queue");
    adapter_group<fc::FixedStack<int, 3>, 3, true, false>("stack");
#elif PART == 2
    seq_group<fc::FixedCircularDeque<int, 1>, int, 1, true, true>("circular deque<int>");
    seq_group<fc::FixedCircularDeque<int, 5>, int, 5, true, true>("circular deque<int>");
    seq_group<fc::FixedCircularDeque<Own, 3>, Own, 3, true, true>("circular deque<owner>");
    adapter_group<fc::FixedCircularQueue<int, 3>, 3, false, true>("circular queue");
#elif PART == 3
    seq_group<fc::FixedList<int, 1>, int, 1, false, true>("list<int>");
    seq_group<fc::FixedList<int, 5>, int, 5, false, true>("list<int>");
    seq_group<fc::FixedList<Own, 3>, Own, 3, false, true>("list<owner>");
#elif PART == 4
    constexpr auto EMB = fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::EMBEDDED_COLOR;
    constexpr auto DED = fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::DEDICATED_COLOR;
    assoc_group<fc::FixedMap<int, int, 5>, int, 5, true, true>("map<int>");
    assoc_group<fc::FixedMap<int, Own, 14, std::less<int>, DED>, Own, 14, true, true>("map<owner>");
    assoc_group<fc::FixedMap<int, Own, 9, std::less<int>, EMB, fc::FixedIndexBasedContiguousStorage>, Own, 9, true, true>("contiguous map<owner>");
    assoc_group<fc::FixedSet<int, 11>, int, 11, false, true>("set<int>");
#elif PART == 5
    assoc_group<fc::FixedUnorderedMap<int, int, 1>, int, 1, true, false>("unordered map<int>");
    assoc_group<fc::FixedUnorderedMap<int, Own, 7>, Own, 7, true, false>("unordered map<owner>");
    assoc_group<fc::FixedUnorderedSet<int, 12>, int, 12, false, false>("unordered set<int>");
#elif PART == 6
    enum_group<fc::EnumMap<Few, int>, true>("enum map");
    enum_group<fc::EnumSet<Few>, false>("enum set");
#endif
    return driver_main(argc, argv);
}
