// Large containers: histories that cross the 8-bit and 16-bit limits of sizes and indices.
// The model is the std container; contents are compared completely at intervals and at random places after every call.
// PART 0 vector  1 deque  2 circular deque  3 list  4 string  5 map, set  6 unordered map, set
#ifndef PART
#define PART 0
#endif
#include "fw.hpp"
#include "fixed_containers/bidirectional_iterator.hpp"
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_string.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include "fixed_containers/fixed_vector.hpp"

#include <deque>
#include <list>
#include <map>
#include <memory>
using namespace vf;
namespace fc = fixed_containers;

// ---------------------------------------------------------------- sequences with random access
#if PART <= 2 || PART == 4
template <class C, class T, std::size_t N, bool CIRC>
struct BigSeq
{
    using Model = std::deque<T>;
    static void full(const C& c, const Model& m)
    {
        VF_CHECK("MODEL", c.size() == m.size(), "size %zu, expected %zu", c.size(), m.size());
        VF_CHECK("MODEL", c.empty() == m.empty(), "empty() wrong");
        std::size_t i = 0;
        for (const auto& v : c)
        {
            if (v != m[i])
                VF_CHECK("MODEL", false, "element %zu differs", i);
            i++;
        }
        VF_CHECK("MODEL", i == m.size(), "traversal of %zu elements, expected %zu", i, m.size());
        VF_CHECK("MODEL", static_cast<std::size_t>(c.end() - c.begin()) == m.size(), "iterator difference");
    }
    static void probe(const C& c, const Model& m)
    {
        VF_CHECK("MODEL", c.size() == m.size(), "size %zu, expected %zu", c.size(), m.size());
        if (m.empty())
            return;
        for (int k = 0; k < 3; k++)
        {
            const std::size_t i = g_rng.below(m.size());
            VF_CHECK("MODEL", c[i] == m[i] && c.at(i) == m[i] && *(c.begin() + static_cast<std::ptrdiff_t>(i)) == m[i], "element %zu of %zu differs", i, m.size());
            VF_CHECK("MODEL", *(c.end() - static_cast<std::ptrdiff_t>(m.size() - i)) == m[i], "end() - %zu", m.size() - i);
        }
        VF_CHECK("MODEL", c.front() == m.front() && c.back() == m.back(), "front/back");
    }
    static void trim(Model& m)
    {
        while (m.size() > N)
            m.pop_front();
    }
    static void history(std::size_t steps)
    {
        auto cp = std::make_unique<C>();
        C& c = *cp;
        Model m;
        unsigned next = 1;
        const auto val = [&] { return static_cast<T>(next++); };
        if constexpr (requires { c.push_front(T{}); c.pop_back(); })
        {
            // rotate to an arbitrary layout
            const std::size_t r = g_rng.below(3) == 0 ? 0 : g_rng.below(N);
            for (std::size_t i = 0; i < r; i++)
            {
                c.push_back(T{});
                c.pop_front();
            }
        }
        // fill up to (near) the capacity
        const std::size_t fill = N - (CIRC ? 0 : g_rng.below(4));
        if (g_rng.below(2))
            while (m.size() < fill)
            {
                const T v = val();
                m.push_back(v);
                c.push_back(v);
            }
        else
        {
            const T v = val();
            c.resize(fill, v);
            m.resize(fill, v);
        }
        full(c, m);
        for (std::size_t s = 0; s < steps; s++)
        {
            const std::size_t room = CIRC ? 50 : N - m.size();
            const std::size_t at = g_rng.below(m.size() + 1);
            const auto d = [](std::size_t x) { return static_cast<std::ptrdiff_t>(x); };
            const std::size_t op = g_rng.below(13);
            trace("op%zu@%zu/%zu", op, at, m.size());
            cover((op * 100003 + at % 257) * 31 + (m.size() & 0xffff));
            g_sh->ops++;
            switch (op)
            {
            case 0:
                if (room)
                {
                    const T v = val();
                    c.push_back(v);
                    m.push_back(v);
                    trim(m);
                }
                break;
            case 1:
                if (!m.empty())
                {
                    c.pop_back();
                    m.pop_back();
                }
                break;
            case 2:
                if (room)
                {
                    const T v = val();
                    auto it = c.insert(c.begin() + d(at), v);
                    if (!CIRC || m.size() < N)
                    {
                        m.insert(m.begin() + d(at), v);
                        VF_CHECK("MODEL", it - c.begin() == d(at), "insert returned %td, expected %zu", it - c.begin(), at);
                    }
                    else
                    {
                        // the oldest element makes room; at the front the new element itself is the oldest
                        m.insert(m.begin() + d(at), v);
                        trim(m);
                    }
                }
                break;
            case 3:
                if (at < m.size())
                {
                    auto it = c.erase(c.begin() + d(at));
                    m.erase(m.begin() + d(at));
                    VF_CHECK("MODEL", it - c.begin() == d(at), "erase returned %td, expected %zu", it - c.begin(), at);
                }
                break;
            case 4:
            {
                const std::size_t n = std::min<std::size_t>(m.size() - at, g_rng.below(4) ? g_rng.below(300) : m.size());
                auto it = c.erase(c.begin() + d(at), c.begin() + d(at + n));
                m.erase(m.begin() + d(at), m.begin() + d(at + n));
                VF_CHECK("MODEL", it - c.begin() == d(at), "range erase returned %td, expected %zu", it - c.begin(), at);
                break;
            }
            case 5:
            case 6:
            {
                std::vector<T> src(std::min<std::size_t>(CIRC ? N - m.size() : room, g_rng.below(3) ? g_rng.below(300) : N));
                for (auto& v : src)
                    v = val();
                auto it = c.insert(c.begin() + d(at), src.begin(), src.end());
                m.insert(m.begin() + d(at), src.begin(), src.end());
                VF_CHECK("MODEL", it - c.begin() == d(at), "range insert returned %td, expected %zu", it - c.begin(), at);
                break;
            }
            case 7:
                if constexpr (requires { c.push_front(T{}); })
                    if (CIRC ? m.size() < N : room > 0)
                    {
                        const T v = val();
                        c.push_front(v);
                        m.push_front(v);
                    }
                break;
            case 8:
                if constexpr (requires { c.pop_front(); })
                    if (!m.empty())
                    {
                        c.pop_front();
                        m.pop_front();
                    }
                break;
            case 9:
            {
                const std::size_t n = g_rng.below(3) ? N - g_rng.below(std::min<std::size_t>(N, 6) + 1) : g_rng.below(N + 1);
                const T v = val();
                c.resize(n, v);
                m.resize(n, v);
                break;
            }
            case 10:
                if (g_rng.below(3) == 0)
                {
                    std::vector<T> src(N - g_rng.below(3));
                    for (auto& v : src)
                        v = val();
                    c.assign(src.begin(), src.end());
                    m.assign(src.begin(), src.end());
                }
                break;
            case 11:
            {
                auto copy = std::make_unique<C>(c);
                VF_CHECK("MODEL", *copy == c, "copy differs");
                full(*copy, m);
                if (!m.empty())
                {
                    auto& x = (*copy)[g_rng.below(m.size())];
                    x = static_cast<T>(x + 1);
                    VF_CHECK("MODEL", !(*copy == c), "comparison misses a difference");
                }
                c = std::move(*copy);
                if constexpr (std::is_constructible_v<C, typename Model::iterator, typename Model::iterator>)
                    c = *std::make_unique<C>(m.begin(), m.end());
                else
                    c.assign(m.begin(), m.end());
                break;
            }
            default:
                if (at < m.size())
                {
                    const T v = val();
                    c[at] = v;
                    m[at] = v;
                }
                break;
            }
            probe(c, m);
            if (s % 8 == 7)
                full(c, m);
        }
        full(c, m);
    }
    static void reg(const char* id, std::size_t cases, std::size_t steps)
    {
        add_group("model", std::string("big ") + id + "<" + std::to_string(N) + ">",
                  [=]
                  {
                      for (std::size_t i = 0; i < cases; i++)
                          run_case("history", [&] { history(steps); });
                  });
    }
};
template <template <std::size_t> class C, class T, bool CIRC>
void big_seqs(const char* id)
{
    BigSeq<C<255>, T, 255, CIRC>::reg(id, 80, 60);
    BigSeq<C<256>, T, 256, CIRC>::reg(id, 80, 60);
    BigSeq<C<257>, T, 257, CIRC>::reg(id, 80, 60);
    BigSeq<C<65535>, T, 65535, CIRC>::reg(id, 4, 40);
    BigSeq<C<65536>, T, 65536, CIRC>::reg(id, 4, 40);
    BigSeq<C<70000>, T, 70000, CIRC>::reg(id, 4, 40);
}
#endif
#if PART == 0
template <std::size_t N>
using V = fc::FixedVector<int, N>;
#elif PART == 1
template <std::size_t N>
using V = fc::FixedDeque<int, N>;
#elif PART == 2
template <std::size_t N>
using V = fc::FixedCircularDeque<int, N>;
#elif PART == 4
template <std::size_t N>
using V = fc::FixedString<N>;
#endif

// ---------------------------------------------------------------- list
#if PART == 3
template <std::size_t N>
struct BigList
{
    using C = fc::FixedList<int, N>;
    static void full(const C& c, const std::list<int>& m)
    {
        VF_CHECK("MODEL", c.size() == m.size() && c.empty() == m.empty(), "size %zu, expected %zu", c.size(), m.size());
        auto it = c.begin();
        std::size_t i = 0;
        for (int v : m)
        {
            VF_CHECK("MODEL", it != c.end() && *it == v, "element %zu differs", i);
            ++it;
            ++i;
        }
        VF_CHECK("MODEL", it == c.end(), "traversal too long");
        auto rit = c.rbegin();
        for (auto r = m.rbegin(); r != m.rend(); ++r, ++rit)
            VF_CHECK("MODEL", rit != c.rend() && *rit == *r, "reverse traversal differs");
        VF_CHECK("MODEL", rit == c.rend(), "reverse traversal too long");
    }
    static void history(std::size_t steps)
    {
        auto cp = std::make_unique<C>();
        C& c = *cp;
        std::list<int> m;
        int next = 1;
        const std::size_t fill = N - g_rng.below(4);
        while (m.size() < fill)
        {
            const int v = next++;
            if (g_rng.below(2))
            {
                m.push_back(v);
                c.push_back(v);
            }
            else
            {
                m.push_front(v);
                c.push_front(v);
            }
        }
        full(c, m);
        auto ci = c.begin();
        auto mi = m.begin();
        for (std::size_t s = 0; s < steps; s++)
        {
            // a cursor walks through both, changes happen there
            for (std::size_t k = g_rng.below(40); k > 0; --k)
            {
                if (g_rng.below(4) && mi != m.end())
                {
                    ++mi;
                    ++ci;
                }
                else if (mi != m.begin())
                {
                    --mi;
                    --ci;
                }
            }
            const std::size_t op = g_rng.below(9);
            trace("op%zu/%zu", op, m.size());
            cover(op * 100003 + (m.size() & 0xffff));
            g_sh->ops++;
            const int v = next++;
            switch (op)
            {
            case 0:
            case 1:
                if (m.size() < N)
                {
                    ci = c.insert(ci, v);
                    mi = m.insert(mi, v);
                }
                break;
            case 2:
            case 3:
                if (mi != m.end())
                {
                    ci = c.erase(ci);
                    mi = m.erase(mi);
                }
                break;
            case 4:
                if (m.size() < N)
                {
                    c.push_back(v);
                    m.push_back(v);
                }
                break;
            case 5:
                if (m.size() < N)
                {
                    c.push_front(v);
                    m.push_front(v);
                }
                break;
            case 6:
            {
                std::vector<int> src(std::min<std::size_t>(N - m.size(), g_rng.below(5) ? g_rng.below(300) : N));
                for (auto& x : src)
                    x = next++;
                ci = c.insert(ci, src.begin(), src.end());
                mi = m.insert(mi, src.begin(), src.end());
                break;
            }
            case 7:
            {
                auto me = mi;
                auto ce = ci;
                for (std::size_t k = g_rng.below(300); k > 0 && me != m.end(); --k)
                {
                    ++me;
                    ++ce;
                }
                ci = c.erase(ci, ce);
                mi = m.erase(mi, me);
                break;
            }
            default:
                if (g_rng.below(6) == 0)
                {
                    auto copy = std::make_unique<C>(c);
                    VF_CHECK("MODEL", *copy == c, "copy differs");
                    full(*copy, m);
                    const auto pos = std::distance(m.begin(), mi);
                    c = *copy;
                    ci = std::next(c.begin(), pos);
                }
                break;
            }
            VF_CHECK("MODEL", c.size() == m.size(), "size %zu, expected %zu", c.size(), m.size());
            VF_CHECK("MODEL", (mi == m.end()) == (ci == c.end()), "cursor at the end");
            if (mi != m.end())
                VF_CHECK("MODEL", *mi == *ci, "cursor refers to another element");
            if (s % 32 == 31)
                full(c, m);
        }
        full(c, m);
    }
    static void reg(std::size_t cases, std::size_t steps)
    {
        add_group("model", "big list<" + std::to_string(N) + ">",
                  [=]
                  {
                      for (std::size_t i = 0; i < cases; i++)
                          run_case("history", [&] { history(steps); });
                  });
    }
};
#endif

// ---------------------------------------------------------------- maps and sets
#if PART == 5 || PART == 6
template <class C, std::size_t N, bool MAP, bool ORDERED>
struct BigMap
{
    struct Model
    {
        std::map<int, std::pair<std::size_t, int>> by_key;  // key -> (sequence, value)
        std::map<std::size_t, int> by_seq;
        std::size_t seq = 0;
        bool put(int k, int v)
        {
            auto [it, fresh] = by_key.try_emplace(k, seq, v);
            if (fresh)
                by_seq[seq++] = k;
            return fresh;
        }
        bool drop(int k)
        {
            auto it = by_key.find(k);
            if (it == by_key.end())
                return false;
            by_seq.erase(it->second.first);
            by_key.erase(it);
            return true;
        }
        std::size_t size() const { return by_key.size(); }
    };
    static int key_of(const auto& e)
    {
        if constexpr (MAP)
            return e.first;
        else
            return e;
    }
    static void full(const C& c, const Model& m)
    {
        VF_CHECK("MODEL", c.size() == m.size() && c.empty() == m.by_key.empty(), "size %zu, expected %zu", c.size(), m.size());
        auto it = c.begin();
        const auto check = [&](int k)
        {
            VF_CHECK("MODEL", it != c.end() && key_of(*it) == k, "iteration differs at key %d", k);
            if constexpr (MAP)
                VF_CHECK("MODEL", it->second == m.by_key.at(k).second, "value of key %d", k);
            ++it;
        };
        if constexpr (ORDERED)
            for (const auto& [k, v] : m.by_key)
                check(k);
        else
            for (const auto& [s, k] : m.by_seq)
                check(k);
        VF_CHECK("MODEL", it == c.end(), "iteration too long");
    }
    static void history(std::size_t steps)
    {
        auto cp = std::make_unique<C>();
        C& c = *cp;
        Model m;
        const int range = static_cast<int>(N + N / 4 + 2);
        const std::size_t order = g_rng.below(4);
        const std::size_t fill = N - g_rng.below(4);
        std::vector<int> keys(static_cast<std::size_t>(range));
        for (int i = 0; i < range; i++)
            keys[static_cast<std::size_t>(i)] = i * 3 - 50;
        if (order == 0)
            for (std::size_t i = keys.size(); i > 1; --i)
                std::swap(keys[i - 1], keys[g_rng.below(i)]);
        else if (order == 1)
            std::reverse(keys.begin(), keys.end());
        else if (order == 2)
            for (std::size_t i = 0; i + 1 < keys.size(); i += 2)
                std::swap(keys[i], keys[keys.size() - 1 - i]);
        int next = 1;
        const auto put = [&](int k)
        {
            const int v = next++;
            const bool fresh = m.put(k, v);
            if constexpr (MAP)
            {
                auto [it, done] = c.try_emplace(k, v);
                VF_CHECK("MODEL", done == fresh && it->first == k, "insertion of key %d", k);
            }
            else
            {
                auto [it, done] = c.insert(k);
                VF_CHECK("MODEL", done == fresh && *it == k, "insertion of key %d", k);
            }
        };
        for (std::size_t i = 0; i < fill; i++)
            put(keys[i]);
        full(c, m);
        for (std::size_t s = 0; s < steps; s++)
        {
            const int k = keys[g_rng.below(keys.size())] + (g_rng.below(8) == 0);
            const std::size_t op = g_rng.below(10);
            trace("op%zu k%d/%zu", op, k, m.size());
            cover((op * 100003 + static_cast<std::size_t>(k & 0xffff)) * 7 + (m.size() & 0xffff));
            g_sh->ops++;
            if (op <= 3)
            {
                if (m.size() < N)
                    put(k);
            }
            else if (op <= 5)
            {
                VF_CHECK("MODEL", c.erase(k) == m.drop(k), "erase of key %d", k);
            }
            else if (op == 6)
            {
                auto it = c.find(k);
                VF_CHECK("MODEL", (it != c.end()) == m.by_key.contains(k), "find of key %d", k);
                if (it != c.end())
                {
                    ++it;
                    auto p = m.by_key.find(k);
                    int after = -1;
                    bool more;
                    if constexpr (ORDERED)
                    {
                        auto q = std::next(p);
                        more = q != m.by_key.end();
                        after = more ? q->first : 0;
                    }
                    else
                    {
                        auto q = m.by_seq.upper_bound(p->second.first);
                        more = q != m.by_seq.end();
                        after = more ? q->second : 0;
                    }
                    VF_CHECK("MODEL", (it != c.end()) == more && (!more || key_of(*it) == after), "successor of key %d", k);
                    it = c.find(k);
                    auto nx = c.erase(it);
                    m.drop(k);
                    VF_CHECK("MODEL", (nx != c.end()) == more && (!more || key_of(*nx) == after), "erase(iterator) of key %d", k);
                }
            }
            else if (op == 7)
            {
                if constexpr (ORDERED)
                {
                    auto lo = c.lower_bound(k);
                    auto q = m.by_key.lower_bound(k);
                    VF_CHECK("MODEL", (lo == c.end()) == (q == m.by_key.end()) && (lo == c.end() || key_of(*lo) == q->first), "lower_bound of %d", k);
                }
                VF_CHECK("MODEL", c.contains(k) == m.by_key.contains(k) && c.count(k) == m.by_key.count(k), "contains/count of %d", k);
            }
            else if (op == 8)
            {
                if (g_rng.below(12) == 0)
                {
                    // shrink a lot, then fill again in another order
                    const std::size_t keep = g_rng.below(m.size() + 1);
                    while (m.size() > keep)
                    {
                        const int x = key_of(*c.begin());
                        if constexpr (ORDERED)
                            VF_CHECK("MODEL", x == m.by_key.begin()->first, "begin()");
                        else
                            VF_CHECK("MODEL", x == m.by_seq.begin()->second, "begin()");
                        c.erase(c.begin());
                        m.drop(x);
                    }
                    full(c, m);
                    for (std::size_t i = keys.size(); i > 0 && m.size() < N; --i)
                        put(keys[i - 1]);
                }
            }
            else if (g_rng.below(12) == 0)
            {
                auto copy = std::make_unique<C>(c);
                VF_CHECK("MODEL", *copy == c, "copy differs");
                full(*copy, m);
                c = std::move(*copy);
            }
            VF_CHECK("MODEL", c.size() == m.size(), "size %zu, expected %zu", c.size(), m.size());
            if (s % 64 == 63)
                full(c, m);
        }
        full(c, m);
        c.clear();
        VF_CHECK("MODEL", c.empty() && c.begin() == c.end(), "clear()");
    }
    static void reg(const char* id, std::size_t cases, std::size_t steps)
    {
        add_group("model", std::string("big ") + id + "<" + std::to_string(N) + ">",
                  [=]
                  {
                      for (std::size_t i = 0; i < cases; i++)
                          run_case("history", [&] { history(steps); });
                  });
    }
};
#endif
#if PART == 6
struct HighBits
{
    constexpr std::uint64_t operator()(int v) const { return static_cast<std::uint64_t>(v) << 40; }
};
struct Same
{
    constexpr std::uint64_t operator()(int) const { return 0x123456789abcdefULL; }
};
struct FewBuckets
{
    constexpr std::uint64_t operator()(int v) const { return static_cast<std::uint64_t>(v & 1); }
};
#endif

int main(int argc, char** argv)
{
#if PART <= 2
    big_seqs<V, int, PART == 2>(PART == 0 ? "vector" : PART == 1 ? "deque" : "circular_deque");
#elif PART == 4
    big_seqs<V, char, false>("string");
#elif PART == 3
    BigList<255>::reg(60, 300);
    BigList<256>::reg(60, 300);
    BigList<257>::reg(60, 300);
    BigList<65535>::reg(1, 300);
    BigList<65536>::reg(1, 300);
    BigList<70000>::reg(2, 300);
#elif PART == 5
    constexpr auto DED = fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::DEDICATED_COLOR;
    constexpr auto EMB = fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::EMBEDDED_COLOR;
    BigMap<fc::FixedMap<int, int, 255>, 255, true, true>::reg("map", 60, 300);
    BigMap<fc::FixedMap<int, int, 256, std::less<int>, DED>, 256, true, true>::reg("map dedicated", 60, 300);
    BigMap<fc::FixedSet<int, 257>, 257, false, true>::reg("set", 60, 300);
    BigMap<fc::FixedMap<int, int, 65535>, 65535, true, true>::reg("map", 1, 200);
    BigMap<fc::FixedSet<int, 65536>, 65536, false, true>::reg("set", 1, 200);
    BigMap<fc::FixedMap<int, int, 70000, std::less<int>, DED>, 70000, true, true>::reg("map dedicated", 1, 200);
    BigMap<fc::FixedSet<int, 70000, std::less<int>, EMB, fc::FixedIndexBasedContiguousStorage>, 70000, false, true>::reg("set contiguous", 1, 200);
#elif PART == 6
    BigMap<fc::FixedUnorderedMap<int, int, 255>, 255, true, false>::reg("umap", 60, 300);
    BigMap<fc::FixedUnorderedMap<int, int, 256, HighBits>, 256, true, false>::reg("umap highbits", 60, 300);
    BigMap<fc::FixedUnorderedSet<int, 257>, 257, false, false>::reg("uset", 60, 300);
    BigMap<fc::FixedUnorderedSet<int, 600, Same>, 600, false, false>::reg("uset same hash", 2, 300);
    BigMap<fc::FixedUnorderedMap<int, int, 600, FewBuckets>, 600, true, false>::reg("umap two hashes", 2, 300);
    BigMap<fc::FixedUnorderedMap<int, int, 65535>, 65535, true, false>::reg("umap", 1, 200);
    BigMap<fc::FixedUnorderedSet<int, 65536>, 65536, false, false>::reg("uset", 1, 200);
    BigMap<fc::FixedUnorderedMap<int, int, 70000>, 70000, true, false>::reg("umap", 1, 200);
#endif
    return driver_main(argc, argv);
}
