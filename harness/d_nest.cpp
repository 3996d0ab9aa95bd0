// Containers as elements, keys and values of containers, two and three deep: histories of operations at every level,
// compared with a tree of values after every step.
// PART 0 vector  1 deque, circular deque, queue, stack  2 list, string  3 map, set  4 unordered map, set  5 enum map, array
#ifndef PART
#define PART 0
#endif
#include "fw.hpp"
#include "enums.hpp"
#include "fixed_containers/bidirectional_iterator.hpp"
#include "fixed_containers/enum_array.hpp"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/enum_set.hpp"
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_circular_queue.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_queue.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_stack.hpp"
#include "fixed_containers/fixed_string.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include "fixed_containers/fixed_vector.hpp"

#include <algorithm>
#include <compare>
#include <memory>
#include <optional>
#include <utility>
#include <vector>
using namespace vf;
namespace fc = fixed_containers;

namespace
{
constexpr std::size_t CASES = 400;
// the value of anything: a number, or a list of values
struct J
{
    int v = 0;
    std::vector<J> kids{};
    bool operator==(const J& o) const { return v == o.v && kids == o.kids; }
    bool operator<(const J& o) const
    {
        if (v != o.v)
            return v < o.v;
        return std::lexicographical_compare(kids.begin(), kids.end(), o.kids.begin(), o.kids.end());
    }
};
[[maybe_unused]] J pair_of(J a, J b)
{
    J r;
    r.kids.push_back(std::move(a));
    r.kids.push_back(std::move(b));
    return r;
}
[[maybe_unused]] std::uint64_t hash_of(const J& j)
{
    std::uint64_t h = mix(17, static_cast<std::uint64_t>(j.v));
    for (const J& k : j.kids)
        h = mix(h, hash_of(k));
    return mix(h, j.kids.size());
}
enum class Key
{
    a = -9,
    b = 0,
    c = 1,
    d = 77,
};
constexpr Key KEYS[] = {Key::a, Key::b, Key::c, Key::d};

// Ops<T>: gen() a random value, fill(t, j) gives a fresh t that value, read(t) back, change(t, j) one operation on both, leaves(j) tracked elements
template <class T>
struct Ops;
template <class T>
T make_of(const J& j)
{
    T t{};
    Ops<T>::fill(t, j);
    return t;
}
template <class T>
struct LeafOps
{
    static constexpr bool scalar = true;
    static constexpr bool order = true;
    static J gen() { return J{static_cast<int>(g_rng.below(5) + 1), {}}; }
    static void fill(T& t, const J& j) { t = T(j.v); }
    static J read(const T& t) { return J{val(t), {}}; }
    static void change(T& t, J& j)
    {
        j = gen();
        t = T(j.v);
    }
    static std::size_t leaves(const J&) { return El<T>::tracked ? 1 : 0; }
};
template <>
struct Ops<int> : LeafOps<int>
{
};
template <>
struct Ops<char> : LeafOps<char>
{
};
template <>
struct Ops<TrkAll> : LeafOps<TrkAll>
{
};
template <>
struct Ops<TrkBig> : LeafOps<TrkBig>
{
};

// ------------------------------------------------------------ sequences
template <class C, class T, std::size_t N, bool CIRC = false, bool FRONT = true>
struct SeqOps
{
    static constexpr bool scalar = false;
    static constexpr bool order = Ops<T>::order;
    using E = Ops<T>;
    static std::size_t leaves(const J& j)
    {
        std::size_t n = 0;
        for (const J& k : j.kids)
            n += E::leaves(k);
        return n;
    }
    static J gen()
    {
        J j;
        const std::size_t n = g_rng.below(N + 1);
        for (std::size_t i = 0; i < n; i++)
            j.kids.push_back(E::gen());
        return j;
    }
    static void fill(C& c, const J& j)
    {
        c.clear();
        for (const J& k : j.kids)
        {
            if (g_rng.chance(1, 2))
                c.push_back(make_of<T>(k));
            else
                E::fill(c.emplace_back(), k);
        }
    }
    static J read(const C& c)
    {
        J j;
        for (const T& t : c)
            j.kids.push_back(E::read(t));
        VF_CHECK("MODEL", j.kids.size() == c.size() && c.empty() == j.kids.empty(), "an inner container of size %zu has %zu elements", c.size(), j.kids.size());
        return j;
    }
    static auto at(C& c, std::size_t i) { return std::next(c.begin(), static_cast<std::ptrdiff_t>(i)); }
    static void change(C& c, J& j)
    {
        auto& m = j.kids;
        const std::size_t n = m.size();
        const bool room = CIRC || n < N;
        std::size_t op = g_rng.below(20);
        if (n > 0 && op >= 12)
        {  // reach inside
            const std::size_t i = g_rng.below(n);
            trace("[%zu]", i);
            E::change(*at(c, i), m[i]);
            return;
        }
        const auto put = [&](std::size_t p, J k)
        {
            m.insert(m.begin() + static_cast<std::ptrdiff_t>(p), std::move(k));
            if (m.size() > N)
                m.erase(m.begin());
        };
        switch (op)
        {
        case 0:
            if (room && N > 0)
            {
                trace("push_back;");
                J k = E::gen();
                T t = make_of<T>(k);
                LIB(c.push_back(std::move(t)));
                put(n, std::move(k));
            }
            break;
        case 1:
            if (room && n > 0)
            {
                const std::size_t i = g_rng.below(n);
                trace("push_back([%zu]);", i);
                LIB(c.push_back(*at(c, i)));
                put(n, m[i]);
            }
            break;
        case 2:
            if (room && N > 0)
            {
                const std::size_t p = CIRC && n == N ? n : g_rng.below(n + 1);
                trace("insert %zu;", p);
                J k = E::gen();
                const T t = make_of<T>(k);
                LIB(c.insert(at(c, p), t));
                put(p, std::move(k));
            }
            break;
        case 3:
            if (n > 0)
            {
                const std::size_t p = g_rng.below(n);
                trace("erase %zu;", p);
                LIB(c.erase(at(c, p)));
                m.erase(m.begin() + static_cast<std::ptrdiff_t>(p));
            }
            break;
        case 4:
            if (n > 0)
            {
                trace("pop_back;");
                LIB(c.pop_back());
                m.pop_back();
            }
            break;
        case 5:
            if (n > 1)
            {
                const std::size_t a = g_rng.below(n);
                const std::size_t b = g_rng.below(n);
                trace("[%zu] = [%zu];", a, b);
                LIB(static_cast<void>(*at(c, a) = std::as_const(*at(c, b))));
                m[a] = J(m[b]);
            }
            break;
        case 6:
            if (n > 1)
            {
                const std::size_t a = g_rng.below(n);
                const std::size_t b = (a + 1 + g_rng.below(n - 1)) % n;
                trace("swap [%zu] [%zu];", a, b);
                LIB([&] { using std::swap; swap(*at(c, a), *at(c, b)); }());
                std::swap(m[a], m[b]);
            }
            break;
        case 7:
            if (n > 1)
            {  // move one away, give it a new value
                const std::size_t a = g_rng.below(n);
                const std::size_t b = (a + 1 + g_rng.below(n - 1)) % n;
                trace("[%zu] = move [%zu];", a, b);
                J k = E::gen();
                const T t = make_of<T>(k);
                LIB(static_cast<void>(*at(c, a) = std::move(*at(c, b))));
                LIB(static_cast<void>(*at(c, b) = t));
                m[a] = std::move(m[b]);
                m[b] = std::move(k);
            }
            break;
        case 8:
            if constexpr (FRONT)
            {
                if (room && N > 0 && g_rng.chance(1, 2))
                {
                    trace("push_front;");
                    J k = E::gen();
                    T t = make_of<T>(k);
                    LIB(c.push_front(std::move(t)));
                    m.insert(m.begin(), std::move(k));
                    if (m.size() > N)
                        m.pop_back();
                }
                else if (n > 0)
                {
                    trace("pop_front;");
                    LIB(c.pop_front());
                    m.erase(m.begin());
                }
            }
            else if (room && n > 0)
            {
                trace("insert own element;");
                LIB(c.insert(c.begin(), *at(c, n - 1)));
                m.insert(m.begin(), J(m[n - 1]));
            }
            break;
        case 9:
        {
            const std::size_t k = g_rng.below(N + 1);
            trace("resize %zu;", k);
            LIB(c.resize(k));
            m.resize(std::min(k, n));
            if constexpr (!E::scalar)
                m.resize(k, E::read(T{}));
            else
                m.resize(k, J{0, {}});
            break;
        }
        case 10:
            if (n > 1)
            {
                std::size_t a = g_rng.below(n + 1);
                std::size_t b = g_rng.below(n + 1);
                if (a > b)
                    std::swap(a, b);
                trace("erase [%zu,%zu);", a, b);
                LIB(c.erase(at(c, a), at(c, b)));
                m.erase(m.begin() + static_cast<std::ptrdiff_t>(a), m.begin() + static_cast<std::ptrdiff_t>(b));
            }
            break;
        default:
        {
            trace("assigned;");
            J k = gen();
            C d{};
            fill(d, k);
            if (g_rng.chance(1, 2))
                LIB(static_cast<void>(c = d));
            else
                LIB(static_cast<void>(c = std::move(d)));
            j = std::move(k);
        }
        }
    }
};
template <class T, std::size_t N, class K>
struct Ops<fc::FixedVector<T, N, K>> : SeqOps<fc::FixedVector<T, N, K>, T, N, false, false>
{
};
template <std::size_t N, class K>
struct Ops<fc::FixedString<N, K>> : SeqOps<fc::FixedString<N, K>, char, N, false, false>
{
    using C = fc::FixedString<N, K>;
    static void fill(C& c, const J& j)
    {
        c.clear();
        for (const J& k : j.kids)
            c.push_back(static_cast<char>(k.v));
    }
    static J read(const C& c)
    {
        J j;
        for (std::size_t i = 0; i < c.size(); i++)
            j.kids.push_back(J{c[i], {}});
        VF_CHECK("MODEL", c.c_str()[c.size()] == '\0', "an inner string of size %zu is not terminated", c.size());
        return j;
    }
    static void change(C& c, J& j)
    {
        if (j.kids.size() < N && g_rng.chance(1, 2))
        {
            const char x = static_cast<char>('a' + g_rng.below(3));
            trace("append %c;", x);
            LIB(c.push_back(x));
            j.kids.push_back(J{x, {}});
        }
        else if (!j.kids.empty() && g_rng.chance(1, 2))
        {
            LIB(c.erase(c.begin()));
            trace("erase first char;");
            j.kids.erase(j.kids.begin());
        }
        else
        {
            trace("string assigned;");
            J k;
            const std::size_t n = g_rng.below(N + 1);
            for (std::size_t i = 0; i < n; i++)
                k.kids.push_back(J{static_cast<int>('a' + g_rng.below(3)), {}});
            C d{};
            fill(d, k);
            LIB(static_cast<void>(c = d));
            j = std::move(k);
        }
    }
    static std::size_t leaves(const J&) { return 0; }
};
template <class T, std::size_t N, class K>
struct Ops<fc::FixedDeque<T, N, K>> : SeqOps<fc::FixedDeque<T, N, K>, T, N>
{
};
template <class T, std::size_t N, class K>
struct Ops<fc::FixedCircularDeque<T, N, K>> : SeqOps<fc::FixedCircularDeque<T, N, K>, T, N, true>
{
};
template <class T, std::size_t N, class K>
struct Ops<fc::FixedList<T, N, K>> : SeqOps<fc::FixedList<T, N, K>, T, N>
{
};

// ------------------------------------------------------------ adapters: only what they offer
template <class C, class T, std::size_t N, bool LIFO, bool CIRC>
struct AdapterOps
{
    static constexpr bool scalar = false;
    static constexpr bool order = Ops<T>::order;
    using E = Ops<T>;
    static std::size_t leaves(const J& j)
    {
        std::size_t n = 0;
        for (const J& k : j.kids)
            n += E::leaves(k);
        return n;
    }
    static J gen()
    {
        J j;
        const std::size_t n = g_rng.below(N + 1);
        for (std::size_t i = 0; i < n; i++)
            j.kids.push_back(E::gen());
        return j;
    }
    static void fill(C& c, const J& j)
    {
        while (!c.empty())
            c.pop();
        for (const J& k : j.kids)
            c.push(make_of<T>(k));
    }
    static J read(const C& c)
    {
        J j;
        C d(c);
        while (!d.empty())
        {
            if constexpr (LIFO)
                j.kids.insert(j.kids.begin(), E::read(d.top()));
            else
                j.kids.push_back(E::read(d.front()));
            d.pop();
        }
        VF_CHECK("MODEL", j.kids.size() == c.size(), "an inner adapter of size %zu has %zu elements", c.size(), j.kids.size());
        return j;
    }
    static void change(C& c, J& j)
    {
        auto& m = j.kids;
        const std::size_t n = m.size();
        switch (g_rng.below(5))
        {
        case 0:
        case 1:
            if (CIRC || n < N)
            {
                trace("push;");
                J k = E::gen();
                T t = make_of<T>(k);
                LIB(c.push(std::move(t)));
                m.push_back(std::move(k));
                if (m.size() > N)
                    m.erase(m.begin());
            }
            break;
        case 2:
            if (n > 0)
            {
                trace("pop;");
                LIB(c.pop());
                if (LIFO)
                    m.pop_back();
                else
                    m.erase(m.begin());
            }
            break;
        case 3:
            if (n > 0)
            {
                trace("inside;");
                if constexpr (LIFO)
                    E::change(c.top(), m.back());
                else if (g_rng.chance(1, 2))
                    E::change(c.front(), m.front());
                else
                    E::change(c.back(), m.back());
            }
            break;
        default:
        {
            trace("assigned;");
            J k = gen();
            C d{};
            fill(d, k);
            LIB(static_cast<void>(c = std::move(d)));
            j = std::move(k);
        }
        }
    }
};
template <class T, std::size_t N, class K>
struct Ops<fc::FixedQueue<T, N, K>> : AdapterOps<fc::FixedQueue<T, N, K>, T, N, false, false>
{
};
template <class T, std::size_t N, class K>
struct Ops<fc::FixedStack<T, N, K>> : AdapterOps<fc::FixedStack<T, N, K>, T, N, true, false>
{
};
template <class T, std::size_t N, class K>
struct Ops<fc::FixedCircularQueue<T, N, K>> : AdapterOps<fc::FixedCircularQueue<T, N, K>, T, N, false, true>
{
};

// ------------------------------------------------------------ keyed: the value is the sorted list of entries (pairs for maps)
template <class C, class K, class V, std::size_t N>
struct MapOps
{
    static constexpr bool scalar = false;
    static constexpr bool order = false;
    using KO = Ops<K>;
    using VO = Ops<V>;
    static std::size_t leaves(const J& j)
    {
        std::size_t n = 0;
        for (const J& k : j.kids)
            n += KO::leaves(k.kids[0]) + VO::leaves(k.kids[1]);
        return n;
    }
    static auto pos(std::vector<J>& m, const J& key)
    {
        return std::lower_bound(m.begin(), m.end(), key, [](const J& a, const J& b) { return a.kids[0] < b; });
    }
    static bool has(std::vector<J>& m, const J& key)
    {
        const auto it = pos(m, key);
        return it != m.end() && it->kids[0] == key;
    }
    static J gen()
    {
        J j;
        const std::size_t n = g_rng.below(N + 1);
        for (std::size_t i = 0; i < n; i++)
        {
            J k = KO::gen();
            if (!has(j.kids, k))
            {
                J v = VO::gen();
                const auto at = pos(j.kids, k);
                j.kids.insert(at, pair_of(k, std::move(v)));
            }
        }
        return j;
    }
    static void fill(C& c, const J& j)
    {
        c.clear();
        for (const J& e : j.kids)
        {
            const K k = make_of<K>(e.kids[0]);
            if (g_rng.chance(1, 2))
                VO::fill(c[k], e.kids[1]);
            else
                c.try_emplace(k, make_of<V>(e.kids[1]));
        }
    }
    static J read(const C& c)
    {
        J j;
        for (const auto& [k, v] : c)
        {
            J e = pair_of(KO::read(k), VO::read(v));
            j.kids.push_back(std::move(e));
        }
        if constexpr (ORDERED)
            for (std::size_t i = 1; i < j.kids.size(); i++)
                VF_CHECK("MODEL", j.kids[i - 1].kids[0] < j.kids[i].kids[0], "keys %zu and %zu of an inner map are out of order", i - 1, i);
        std::sort(j.kids.begin(), j.kids.end());
        VF_CHECK("MODEL", j.kids.size() == c.size() && c.empty() == j.kids.empty(), "an inner map of size %zu has %zu entries", c.size(), j.kids.size());
        return j;
    }
    static constexpr bool ORDERED = requires(C c) { c.rbegin(); };
    static void change(C& c, J& j)
    {
        auto& m = j.kids;
        const std::size_t n = m.size();
        const std::size_t op = g_rng.below(12);
        J key = n > 0 && g_rng.chance(1, 2) ? m[g_rng.below(n)].kids[0] : KO::gen();
        const bool there = has(m, key);
        const K k = make_of<K>(key);
        if (op < 5 && there)
        {  // reach inside
            trace("[key]");
            const auto it = pos(m, key);
            if (g_rng.chance(1, 2))
                VO::change(c.find(k)->second, it->kids[1]);
            else
                VO::change(c.at(k), it->kids[1]);
            return;
        }
        VF_CHECK("MODEL", LIB(c.contains(k)) == there && LIB(c.count(k)) == (there ? 1u : 0u), "contains() of a composite key");
        switch (op)
        {
        case 0:
        case 1:
        case 5:
        case 6:
            if (there || n < N)
            {
                J v = VO::gen();
                V t = make_of<V>(v);
                const auto way = g_rng.below(3);
                trace("insert %d;", static_cast<int>(way));
                if (way == 0)
                {
                    const auto [it, fresh] = LIB(c.try_emplace(k, std::move(t)));
                    VF_CHECK("MODEL", fresh == !there && KO::read(it->first) == key, "try_emplace of a composite key");
                }
                else if (way == 1)
                {
                    const auto [it, fresh] = LIB(c.insert_or_assign(k, std::move(t)));
                    VF_CHECK("MODEL", fresh == !there && VO::read(it->second) == v, "insert_or_assign of a composite key");
                    if (there)
                        pos(m, key)->kids[1] = v;
                }
                else
                {
                    const auto [it, fresh] = LIB(c.insert({k, t}));
                    VF_CHECK("MODEL", fresh == !there && KO::read(it->first) == key, "insert of a composite key");
                }
                if (!there)
                {
                    const auto at = pos(m, key);
                    m.insert(at, pair_of(key, std::move(v)));
                }
            }
            break;
        case 2:
        case 3:
        case 7:
            trace("erase key;");
            VF_CHECK("MODEL", LIB(c.erase(k)) == (there ? 1u : 0u), "erase of a composite key");
            if (there)
                m.erase(pos(m, key));
            break;
        case 8:
            if (n > 0)
            {
                trace("erase an iterator;");
                const auto it = std::next(c.begin(), static_cast<std::ptrdiff_t>(g_rng.below(n)));
                const J which = KO::read(it->first);
                VF_CHECK("MODEL", has(m, which), "an entry that was never inserted");
                LIB(c.erase(it));
                m.erase(pos(m, which));
            }
            break;
        case 9:
            if (there && n < N)
            {  // a value already inside, under a new key
                J other = KO::gen();
                if (!has(m, other))
                {
                    trace("try_emplace of an own value;");
                    const K k2 = make_of<K>(other);
                    LIB(c.try_emplace(k2, std::as_const(c.at(k))));
                    J v = pos(m, key)->kids[1];
                    const auto at = pos(m, other);
                    m.insert(at, pair_of(other, std::move(v)));
                }
            }
            break;
        case 10:
            if (n > 1 && there)
            {
                const J other = m[g_rng.below(n)].kids[0];
                const K k2 = make_of<K>(other);
                if (!(other == key))
                {
                    trace("swap two values;");
                    LIB([&] { using std::swap; swap(c.at(k), c.at(k2)); }());
                    std::swap(pos(m, key)->kids[1], pos(m, other)->kids[1]);
                }
            }
            break;
        default:
        {
            trace("assigned;");
            J x = gen();
            C d{};
            fill(d, x);
            if (g_rng.chance(1, 2))
                LIB(static_cast<void>(c = d));
            else
                LIB(static_cast<void>(c = std::move(d)));
            j = std::move(x);
        }
        }
    }
};
template <class C, class K, std::size_t N>
struct SetOps
{
    static constexpr bool scalar = false;
    static constexpr bool order = Ops<K>::order && requires(C c) { c.rbegin(); };
    using KO = Ops<K>;
    static std::size_t leaves(const J& j)
    {
        std::size_t n = 0;
        for (const J& k : j.kids)
            n += KO::leaves(k);
        return n;
    }
    static bool has(const std::vector<J>& m, const J& key) { return std::binary_search(m.begin(), m.end(), key); }
    static void put(std::vector<J>& m, const J& key)
    {
        const auto at = std::lower_bound(m.begin(), m.end(), key);
        m.insert(at, key);
    }
    static void drop(std::vector<J>& m, const J& key)
    {
        const auto at = std::lower_bound(m.begin(), m.end(), key);
        m.erase(at);
    }
    static J gen()
    {
        J j;
        const std::size_t n = g_rng.below(N + 1);
        for (std::size_t i = 0; i < n; i++)
        {
            const J k = KO::gen();
            if (!has(j.kids, k))
                put(j.kids, k);
        }
        return j;
    }
    static void fill(C& c, const J& j)
    {
        c.clear();
        for (const J& e : j.kids)
            c.insert(make_of<K>(e));
    }
    static constexpr bool ORDERED = requires(C c) { c.rbegin(); };
    static J read(const C& c)
    {
        J j;
        for (const auto& k : c)
            j.kids.push_back(KO::read(k));
        if constexpr (ORDERED)
            for (std::size_t i = 1; i < j.kids.size(); i++)
                VF_CHECK("MODEL", j.kids[i - 1] < j.kids[i], "keys %zu and %zu of an inner set are out of order", i - 1, i);
        std::sort(j.kids.begin(), j.kids.end());
        VF_CHECK("MODEL", j.kids.size() == c.size() && c.empty() == j.kids.empty(), "an inner set of size %zu has %zu entries", c.size(), j.kids.size());
        return j;
    }
    static void change(C& c, J& j)
    {
        auto& m = j.kids;
        const std::size_t n = m.size();
        const J key = n > 0 && g_rng.chance(1, 2) ? m[g_rng.below(n)] : KO::gen();
        const bool there = has(m, key);
        K k = make_of<K>(key);
        VF_CHECK("MODEL", LIB(c.contains(k)) == there, "contains() of a composite key");
        switch (g_rng.below(6))
        {
        case 0:
        case 1:
            if (there || n < N)
            {
                trace("insert;");
                bool fresh = false;
                if (g_rng.chance(1, 2))
                    fresh = LIB(c.insert(k)).second;
                else
                    fresh = LIB(c.insert(std::move(k))).second;
                VF_CHECK("MODEL", fresh == !there, "insert of a composite key");
                if (!there)
                    put(m, key);
            }
            break;
        case 2:
        case 3:
            trace("erase key;");
            VF_CHECK("MODEL", LIB(c.erase(k)) == (there ? 1u : 0u), "erase of a composite key");
            if (there)
                drop(m, key);
            break;
        case 4:
            if (n > 0)
            {
                trace("erase an iterator;");
                const auto it = std::next(c.begin(), static_cast<std::ptrdiff_t>(g_rng.below(n)));
                const J which = KO::read(*it);
                VF_CHECK("MODEL", has(m, which), "a key that was never inserted");
                LIB(c.erase(it));
                drop(m, which);
            }
            break;
        default:
        {
            trace("assigned;");
            J x = gen();
            C d{};
            fill(d, x);
            if (g_rng.chance(1, 2))
                LIB(static_cast<void>(c = d));
            else
                LIB(static_cast<void>(c = std::move(d)));
            j = std::move(x);
        }
        }
    }
};
template <class K, class V, std::size_t N, class L, fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness COL, template <class, std::size_t> typename ST, class CH>
struct Ops<fc::FixedMap<K, V, N, L, COL, ST, CH>> : MapOps<fc::FixedMap<K, V, N, L, COL, ST, CH>, K, V, N>
{
};
template <class K, std::size_t N, class L, fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness COL, template <class, std::size_t> typename ST, class CH>
struct Ops<fc::FixedSet<K, N, L, COL, ST, CH>> : SetOps<fc::FixedSet<K, N, L, COL, ST, CH>, K, N>
{
};
template <class K, class V, std::size_t N, class H, class Q, std::size_t B, class CH>
struct Ops<fc::FixedUnorderedMap<K, V, N, H, Q, B, CH>> : MapOps<fc::FixedUnorderedMap<K, V, N, H, Q, B, CH>, K, V, N>
{
};
template <class K, std::size_t N, class H, class Q, std::size_t B, class CH>
struct Ops<fc::FixedUnorderedSet<K, N, H, Q, B, CH>> : SetOps<fc::FixedUnorderedSet<K, N, H, Q, B, CH>, K, N>
{
};
// a hash that puts many different containers into few buckets; it must not allocate while the library calls it
struct HashOf
{
    template <class C>
    std::size_t operator()(const C& c) const
    {
        std::size_t h = c.size();
        for (const auto& x : c)
            h += static_cast<std::size_t>(val(x)) & 1;
        return h;
    }
};
template <>
struct Ops<Key>
{
    static constexpr bool scalar = true;
    static constexpr bool order = true;
    static J gen() { return J{static_cast<int>(KEYS[g_rng.below(4)]), {}}; }
    static void fill(Key& t, const J& j) { t = static_cast<Key>(j.v); }
    static J read(const Key& t) { return J{static_cast<int>(t), {}}; }
    static void change(Key& t, J& j)
    {
        j = gen();
        fill(t, j);
    }
    static std::size_t leaves(const J&) { return 0; }
};
template <class V>
struct Ops<fc::EnumMap<Key, V>> : MapOps<fc::EnumMap<Key, V>, Key, V, 4>
{
};
template <>
struct Ops<fc::EnumSet<Key>> : SetOps<fc::EnumSet<Key>, Key, 4>
{
};
template <class V>
struct Ops<fc::EnumArray<Key, V>>
{
    static constexpr bool scalar = false;
    static constexpr bool order = Ops<V>::order;
    using C = fc::EnumArray<Key, V>;
    static J gen()
    {
        J j;
        for (int i = 0; i < 4; i++)
            j.kids.push_back(Ops<V>::gen());
        return j;
    }
    static void fill(C& c, const J& j)
    {
        for (std::size_t i = 0; i < 4; i++)
            Ops<V>::fill(c[KEYS[i]], j.kids[i]);
    }
    static J read(const C& c)
    {
        J j;
        for (std::size_t i = 0; i < 4; i++)
            j.kids.push_back(Ops<V>::read(c.at(KEYS[i])));
        std::size_t i = 0;
        for (const V& v : c)
            VF_CHECK("MODEL", i < 4 && Ops<V>::read(v) == j.kids[i++], "iteration over an array of containers");
        return j;
    }
    static void change(C& c, J& j)
    {
        const std::size_t i = g_rng.below(4);
        trace("[%zu]", i);
        if (g_rng.chance(1, 4))
        {
            const std::size_t k = g_rng.below(4);
            LIB(static_cast<void>(c[KEYS[i]] = std::as_const(c)[KEYS[k]]));
            j.kids[i] = J(j.kids[k]);
        }
        else
            Ops<V>::change(c[KEYS[i]], j.kids[i]);
    }
    static std::size_t leaves(const J& j)
    {
        std::size_t n = 0;
        for (const J& k : j.kids)
            n += Ops<V>::leaves(k);
        return n;
    }
};
// an aggregate and the standard vocabulary types around containers
template <class A, class B>
struct Ops<std::pair<A, B>>
{
    static constexpr bool scalar = false;
    static constexpr bool order = Ops<A>::order && Ops<B>::order;
    using C = std::pair<A, B>;
    static J gen()
    {
        J a = Ops<A>::gen();
        J b = Ops<B>::gen();
        return pair_of(std::move(a), std::move(b));
    }
    static void fill(C& c, const J& j)
    {
        Ops<A>::fill(c.first, j.kids[0]);
        Ops<B>::fill(c.second, j.kids[1]);
    }
    static J read(const C& c)
    {
        J a = Ops<A>::read(c.first);
        J b = Ops<B>::read(c.second);
        return pair_of(std::move(a), std::move(b));
    }
    static void change(C& c, J& j)
    {
        if (g_rng.chance(1, 2))
            Ops<A>::change(c.first, j.kids[0]);
        else
            Ops<B>::change(c.second, j.kids[1]);
    }
    static std::size_t leaves(const J& j) { return Ops<A>::leaves(j.kids[0]) + Ops<B>::leaves(j.kids[1]); }
};
template <class T>
struct Ops<std::optional<T>>
{
    static constexpr bool scalar = false;
    static constexpr bool order = Ops<T>::order;
    using C = std::optional<T>;
    static J gen()
    {
        J j;
        if (g_rng.chance(2, 3))
            j.kids.push_back(Ops<T>::gen());
        return j;
    }
    static void fill(C& c, const J& j)
    {
        c.reset();
        if (!j.kids.empty())
            Ops<T>::fill(c.emplace(), j.kids[0]);
    }
    static J read(const C& c)
    {
        J j;
        if (c)
            j.kids.push_back(Ops<T>::read(*c));
        return j;
    }
    static void change(C& c, J& j)
    {
        if (c && g_rng.chance(2, 3))
            Ops<T>::change(*c, j.kids[0]);
        else
        {
            j = gen();
            fill(c, j);
        }
    }
    static std::size_t leaves(const J& j) { return j.kids.empty() ? 0 : Ops<T>::leaves(j.kids[0]); }
};

template <class C>
void check_one(Box<C>& b, const J& m)
{
    const J got = Ops<C>::read(*b);
    VF_CHECK("MODEL", got == m, "the contents differ from the model");
    const long want = static_cast<long>(Ops<C>::leaves(m));
    VF_CHECK("LIFE", b.live() == want, "%ld elements are alive inside, the model has %ld", b.live(), want);
}

template <class C>
void history()
{
    using O = Ops<C>;
    Box<C> b;
    if constexpr (requires(C c) { c[Key::a]; } && !requires(C c) { c.clear(); })
        O::fill(*b, O::gen());
    J m = O::read(*b);
    {
        const J start = O::gen();
        O::fill(*b, start);
        m = start;
    }
    check_one(b, m);
    const std::size_t steps = 10 + g_rng.below(30);
    for (std::size_t s = 0; s < steps; s++)
    {
        O::change(*b, m);
        check_one(b, m);
        cover(mix(hash_of(m), s & 3));
        if (s % 5 == 4)
        {
            trace("copy;");
            Box<C> d(std::in_place, std::as_const(*b));
            check_one(d, m);
            J n = m;
            const std::size_t k = g_rng.below(4);
            for (std::size_t i = 0; i < k; i++)
                O::change(*d, n);
            check_one(d, n);
            check_one(b, m);  // changes to the copy do not show
            if constexpr (requires { *b == *d; })
            {
                VF_CHECK("VALUE", LIB(*b == *d) == (m == n) && LIB(*b != *d) == !(m == n), "equality of nested contents");
            }
            if constexpr (O::order)
            {
                VF_CHECK("VALUE", LIB(*b < *d) == (m < n) && LIB(*d < *b) == (n < m) && LIB(*b <= *d) == !(n < m) && LIB(*b >= *d) == !(m < n), "order of nested contents");
            }
            switch (g_rng.below(5))
            {
            case 0:
                trace("swap;");
                LIB([&] { using std::swap; swap(*b, *d); }());
                std::swap(m, n);
                break;
            case 1:
                trace("copy back;");
                LIB(static_cast<void>(*b = std::as_const(*d)));
                m = n;
                break;
            case 2:
                trace("move back;");
                LIB(static_cast<void>(*b = std::move(*d)));
                m = n;
                O::fill(*d, n = O::gen());
                break;
            case 3:
            {
                trace("self-assignment;");
                const C& self = *b;
                LIB(static_cast<void>(*b = self));
                break;
            }
            default:
            {
                trace("moved construction;");
                Box<C> e(std::in_place, std::move(*d));
                check_one(e, n);
                O::fill(*d, n);
                if constexpr (std::is_trivially_copyable_v<C>)
                {
                    trace("memcpy;");
                    Box<C> f;
                    memcpy(static_cast<void*>(f.p), static_cast<const void*>(e.p), sizeof(C));
                    memset(static_cast<void*>(e.p), 0xA5, sizeof(C));
                    check_one(f, n);
                    J k2 = n;
                    O::change(*f, k2);
                    check_one(f, k2);
                    memcpy(static_cast<void*>(e.p), static_cast<const void*>(f.p), sizeof(C));
                }
                break;
            }
            }
            check_one(b, m);
            check_one(d, n);
        }
    }
}
template <class C>
void group(const char* id)
{
    add_group("model", std::string("nested ") + id,
              [=]
              {
                  for (std::size_t k = 0; k < n_cases(CASES); k++)
                      run_case(id, [] { history<C>(); });
              });
}
}  // namespace

int main(int argc, char** argv)
{
#if PART == 0
    group<fc::FixedVector<fc::FixedVector<TrkAll, 3>, 3>>("vector of vectors");
    group<fc::FixedVector<fc::FixedDeque<TrkAll, 3>, 3>>("vector of deques");
    group<fc::FixedVector<fc::FixedCircularDeque<TrkAll, 2>, 4>>("vector of circular deques");
    group<fc::FixedVector<fc::FixedList<TrkBig, 3>, 3>>("vector of lists");
    group<fc::FixedVector<fc::FixedMap<int, TrkAll, 4>, 3>>("vector of maps");
    group<fc::FixedVector<fc::FixedUnorderedMap<int, TrkAll, 4>, 3>>("vector of unordered maps");
    group<fc::FixedVector<fc::EnumMap<Key, TrkAll>, 3>>("vector of enum maps");
    group<fc::FixedVector<fc::FixedSet<int, 4>, 4>>("vector of sets (trivially copyable)");
    group<fc::FixedVector<fc::FixedString<5>, 4>>("vector of strings (trivially copyable)");
    group<fc::FixedVector<std::optional<fc::FixedVector<TrkAll, 2>>, 3>>("vector of optional vectors");
    group<fc::FixedVector<fc::FixedVector<fc::FixedList<TrkAll, 2>, 2>, 2>>("vector of vectors of lists");
#elif PART == 1
    group<fc::FixedDeque<fc::FixedVector<TrkAll, 3>, 3>>("deque of vectors");
    group<fc::FixedDeque<fc::FixedDeque<TrkAll, 2>, 4>>("deque of deques");
    group<fc::FixedDeque<fc::FixedMap<int, TrkAll, 3>, 3>>("deque of maps");
    group<fc::FixedDeque<fc::FixedUnorderedSet<int, 4>, 4>>("deque of unordered sets (trivially copyable)");
    group<fc::FixedCircularDeque<fc::FixedVector<TrkAll, 3>, 3>>("circular deque of vectors");
    group<fc::FixedCircularDeque<fc::FixedList<TrkAll, 3>, 2>>("circular deque of lists");
    group<fc::FixedCircularDeque<fc::FixedCircularDeque<TrkAll, 2>, 3>>("circular deque of circular deques");
    group<fc::FixedQueue<fc::FixedVector<TrkAll, 3>, 3>>("queue of vectors");
    group<fc::FixedStack<fc::FixedMap<int, TrkAll, 3>, 3>>("stack of maps");
    group<fc::FixedCircularQueue<fc::FixedDeque<TrkAll, 3>, 3>>("circular queue of deques");
    group<fc::FixedVector<fc::FixedQueue<TrkAll, 3>, 3>>("vector of queues");
#elif PART == 2
    group<fc::FixedList<fc::FixedVector<TrkAll, 3>, 3>>("list of vectors");
    group<fc::FixedList<fc::FixedList<TrkAll, 3>, 4>>("list of lists");
    group<fc::FixedList<fc::FixedDeque<TrkBig, 2>, 3>>("list of deques");
    group<fc::FixedList<fc::FixedMap<int, TrkAll, 3>, 3>>("list of maps");
    group<fc::FixedList<fc::FixedString<4>, 5>>("list of strings (trivially copyable)");
    group<fc::FixedList<std::pair<fc::FixedString<3>, fc::FixedCircularDeque<TrkAll, 2>>, 3>>("list of pairs");
    group<fc::FixedList<fc::FixedUnorderedMap<int, fc::FixedVector<TrkAll, 2>, 3>, 3>>("list of unordered maps of vectors");
#elif PART == 3
    constexpr auto EMB = fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::EMBEDDED_COLOR;
    constexpr auto DED = fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::DEDICATED_COLOR;
    group<fc::FixedMap<fc::FixedString<3>, fc::FixedVector<TrkAll, 3>, 6>>("map from strings to vectors");
    group<fc::FixedMap<fc::FixedVector<TrkAll, 2>, fc::FixedList<TrkAll, 2>, 6>>("map from vectors to lists");
    group<fc::FixedMap<int, fc::FixedMap<int, TrkAll, 4>, 4>>("map of maps");
    group<fc::FixedMap<fc::FixedList<int, 2>, fc::FixedDeque<int, 3>, 8>>("map from lists to deques");
    group<fc::FixedSet<fc::FixedVector<TrkAll, 3>, 8>>("set of vectors");
    group<fc::FixedSet<fc::FixedSet<int, 3>, 8>>("set of sets (trivially copyable)");
    group<fc::FixedSet<fc::FixedDeque<int, 3>, 9>>("set of deques");
    group<fc::FixedMap<int, fc::EnumMap<Key, fc::FixedVector<TrkAll, 2>>, 3>>("map of enum maps of vectors");
    group<fc::FixedMap<fc::FixedString<2>, fc::FixedVector<TrkAll, 2>, 5, std::less<fc::FixedString<2>>, DED, fc::FixedIndexBasedContiguousStorage>>("contiguous map, dedicated colour");
    group<fc::FixedMap<fc::FixedString<2>, fc::FixedCircularDeque<TrkAll, 2>, 5, std::less<fc::FixedString<2>>, EMB, fc::FixedIndexBasedContiguousStorage>>("contiguous map, embedded colour");
#elif PART == 4
    group<fc::FixedUnorderedMap<int, fc::FixedVector<TrkAll, 3>, 4>>("unordered map of vectors");
    group<fc::FixedUnorderedMap<int, fc::FixedUnorderedMap<int, TrkAll, 3>, 4>>("unordered map of unordered maps");
    group<fc::FixedUnorderedMap<fc::FixedVector<TrkAll, 2>, fc::FixedList<TrkAll, 2>, 6, HashOf>>("unordered map from vectors to lists");
    group<fc::FixedUnorderedSet<fc::FixedVector<TrkAll, 3>, 7, HashOf>>("unordered set of vectors");
    group<fc::FixedUnorderedSet<fc::FixedString<3>, 9, HashOf>>("unordered set of strings (trivially copyable)");
    group<fc::FixedUnorderedSet<fc::FixedSet<int, 3>, 9, HashOf>>("unordered set of sets");
#elif PART == 5
    group<fc::EnumMap<Key, fc::FixedVector<TrkAll, 3>>>("enum map of vectors");
    group<fc::EnumMap<Key, fc::FixedMap<int, TrkAll, 3>>>("enum map of maps");
    group<fc::EnumMap<Key, fc::EnumMap<Key, TrkAll>>>("enum map of enum maps");
    group<fc::EnumMap<Key, fc::FixedList<int, 3>>>("enum map of lists (trivially copyable)");
    group<fc::EnumArray<Key, fc::FixedVector<TrkAll, 3>>>("enum array of vectors");
    group<fc::EnumArray<Key, fc::FixedUnorderedMap<int, TrkAll, 3>>>("enum array of unordered maps");
    group<fc::FixedMap<int, fc::EnumSet<Key>, 4>>("map of enum sets");
    group<fc::FixedSet<fc::EnumSet<Key>, 8>>("set of enum sets");
#endif
    return driver_main(argc, argv);
}
