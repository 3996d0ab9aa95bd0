// Maps whose mapped type is a reference: the entries refer to exactly the objects they were given.
// PART 0 FixedMap  1 FixedUnorderedMap  2 EnumMap
#ifndef PART
#define PART 0
#endif
#include "fw.hpp"
#if PART == 0
#include "fixed_containers/fixed_map.hpp"
#elif PART == 1
#include "fixed_containers/fixed_unordered_map.hpp"
#else
#include "fixed_containers/enum_map.hpp"
#endif
#include <map>
using namespace vf;
namespace fc = fixed_containers;

struct Cell
{
    int v = 0;
    bool operator==(const Cell&) const = default;
};
constexpr int CELLS = 24;
inline Cell g_cells[CELLS];
inline int rv(int bound) { return static_cast<int>(g_rng.below(static_cast<std::size_t>(bound))); }

#if PART == 2
enum class Key : short
{
    A = -3,
    B = 0,
    C = 1,
    D = 7,
    E = 20,
    F = 21,
    G = 22,
    H = 40,
    I = 63,
    J = 100
};
constexpr Key KEYS[] = {Key::A, Key::B, Key::C, Key::D, Key::E, Key::F, Key::G, Key::H, Key::I, Key::J};
#else
using Key = int;
constexpr Key KEYS[] = {-9, -1, 0, 1, 2, 5, 8, 13, 100, 1000, 1001, 1 << 30};
#endif
constexpr int NKEYS = static_cast<int>(std::size(KEYS));

// reference: keys in iteration order with the address of the object
template <class R>
struct RefModel
{
    std::vector<std::pair<Key, R*>> e;
    int find(Key k) const
    {
        for (std::size_t i = 0; i < e.size(); i++)
            if (e[i].first == k)
                return static_cast<int>(i);
        return -1;
    }
    void put(Key k, R* p)
    {
        if (find(k) >= 0)
            return;
#if PART == 1
        e.emplace_back(k, p);
#else
        std::size_t i = 0;
        while (i < e.size() && e[i].first < k)
            i++;
        e.insert(e.begin() + static_cast<long>(i), {k, p});
#endif
    }
};

template <class C, class R, std::size_t N>
struct RefMap
{
    using M = RefModel<R>;
    static void verify(C& c, const M& m)
    {
        const C& cc = c;
        VF_CHECK("MODEL", cc.size() == m.e.size() && cc.empty() == m.e.empty(), "size %zu, expected %zu", cc.size(), m.e.size());
        std::size_t i = 0;
        for (auto it = c.begin(); it != c.end(); ++it, ++i)
        {
            VF_CHECK("MODEL", i < m.e.size() && it->first == m.e[i].first, "entry %zu has another key", i);
            VF_CHECK("MODEL", std::addressof(it->second) == m.e[i].second && std::addressof((*it).second) == m.e[i].second, "entry %zu refers to another object", i);
        }
        VF_CHECK("MODEL", i == m.e.size(), "traversal of %zu entries, expected %zu", i, m.e.size());
        i = 0;
        for (auto&& [k, v] : cc)
        {
            VF_CHECK("MODEL", i < m.e.size() && k == m.e[i].first && std::addressof(v) == m.e[i].second, "const traversal differs at %zu", i);
            i++;
        }
        for (Key k : KEYS)
        {
            const int p = m.find(k);
            VF_CHECK("MODEL", cc.contains(k) == (p >= 0) && cc.count(k) == (p >= 0 ? 1u : 0u) && (cc.find(k) != cc.end()) == (p >= 0), "lookup of a key");
            if (p >= 0)
                VF_CHECK("MODEL", std::addressof(c.at(k)) == m.e[static_cast<std::size_t>(p)].second && std::addressof(cc.at(k)) == m.e[static_cast<std::size_t>(p)].second && std::addressof(c.find(k)->second) == m.e[static_cast<std::size_t>(p)].second,
                         "at() refers to another object");
        }
        std::uint64_t h = m.e.size();
        for (auto& [k, p] : m.e)
            h = mix(h, static_cast<std::uint64_t>(static_cast<int>(k)) * 64 + static_cast<std::uint64_t>(p - static_cast<R*>(g_cells)));
        cover(h);
    }
    static void erase_at(M& m, std::size_t i) { m.e.erase(m.e.begin() + static_cast<long>(i)); }
    static auto nth(C& c, std::size_t i)
    {
        auto it = c.begin();
        while (i-- > 0)
            ++it;
        return it;
    }
    template <class It>
    static void at_pos(C& c, const M& m, It it, std::size_t i, const char* what)
    {
        VF_CHECK("MODEL", (it == c.end()) == (i >= m.e.size()) && (it == c.end() || (it->first == m.e[i].first && std::addressof(it->second) == m.e[i].second)), "%s returned another position", what);
    }
    static void history()
    {
        for (auto& x : g_cells)
            x.v = rv(4);
        C c{};
        M m;
        const int steps = 10 + rv(50);
        for (int s = 0; s < steps; s++)
        {
            const Key k = KEYS[rv(NKEYS)];
            R& r = g_cells[rv(CELLS)];
            const int p = m.find(k);
            const bool room = m.e.size() < N || p >= 0;
            const int op = rv(14);
            if (op <= 3 && room)
            {
                trace("op %d key %d cell %d", op, static_cast<int>(k), static_cast<int>(std::addressof(r) - static_cast<R*>(g_cells)));
                auto res = [&]
                {
                    if constexpr (std::is_const_v<R>)
                        if (op == 0)
                            return c.insert({k, r});
                    if (op == 1)
                        return c.emplace(k, r);
                    if (op == 2)
                        return c.try_emplace(k, r);
                    const std::pair<const Key, R&> e{k, r};
                    return c.insert(e);
                }();
                VF_CHECK("MODEL", res.second == (p < 0), "insertion reported %d", static_cast<int>(res.second));
                m.put(k, std::addressof(r));
                VF_CHECK("MODEL", res.first->first == k && std::addressof(res.first->second) == m.e[static_cast<std::size_t>(m.find(k))].second, "insertion returned another position");
            }
            else if (op == 4)
            {
                trace("erase key %d", static_cast<int>(k));
                const auto n = c.erase(k);
                VF_CHECK("MODEL", n == (p >= 0 ? 1u : 0u), "erase(key)");
                if (p >= 0)
                    erase_at(m, static_cast<std::size_t>(p));
            }
            else if (op == 5 && !m.e.empty())
            {
                const auto i = g_rng.below(m.e.size());
                trace("erase pos %zu", i);
                auto it = c.erase(nth(c, i));
                erase_at(m, i);
                at_pos(c, m, it, i, "erase(iterator)");
            }
            else if (op == 6)
            {
                const auto a = g_rng.below(m.e.size() + 1);
                const auto b = a + g_rng.below(std::min<std::size_t>(3, m.e.size() - a + 1));
                trace("erase [%zu,%zu)", a, b);
                auto it = c.erase(nth(c, a), nth(c, b));
                m.e.erase(m.e.begin() + static_cast<long>(a), m.e.begin() + static_cast<long>(b));
                at_pos(c, m, it, a, "erase(range)");
            }
            else if (op == 7)
            {
                trace("copy");
                C d(c);
                verify(d, m);
                VF_CHECK("MODEL", d == c && !(d != c), "a copy differs");
                d.clear();
                verify(c, m);
                if constexpr (std::is_copy_assignable_v<C>)
                {
                    d = c;
                    verify(d, m);
                    c.clear();
                    c = std::move(d);
                }
            }
            else if (op == 8 && std::is_copy_assignable_v<C>)
            {
                trace("move");
                C d(std::move(c));
                verify(d, m);
                if constexpr (std::is_copy_assignable_v<C>)
                    c = d;
            }
            else if (op == 9)
            {
                trace("swap");
                C d{};
                d.try_emplace(KEYS[0], g_cells[0]);
                M md;
                md.put(KEYS[0], std::addressof(static_cast<R&>(g_cells[0])));
                if constexpr (std::is_copy_assignable_v<C>)
                {
                    std::swap(c, d);
                    verify(c, md);
                    verify(d, m);
                    std::swap(c, d);
                }
            }
            else if (op == 10)
            {
                trace("equality");
                // equality is that of the referenced values, not of the addresses
                C d{};
                bool same = true;
                const bool differ = g_rng.chance(1, 2);
                std::size_t i = 0;
                for (auto& [kk, pp] : m.e)
                {
                    R* q = pp;
                    for (auto& x : g_cells)
                        if (x.v == pp->v && std::addressof(x) != pp && g_rng.chance(1, 2))
                            q = std::addressof(x);
                    if (differ && i == m.e.size() / 2)
                        for (auto& x : g_cells)
                            if (x.v != pp->v)
                            {
                                q = std::addressof(x);
                                same = false;
                                break;
                            }
                    d.try_emplace(kk, *q);
                    i++;
                }
                VF_CHECK("MODEL", (d == c) == same && (c == d) == same && (c != d) == !same, "equality of maps of references is %d, expected %d", static_cast<int>(c == d), static_cast<int>(same));
            }
            else if (op == 11)
            {
                // the objects stay shared
                trace("write through");
                if (!m.e.empty())
                {
                    const auto i = g_rng.below(m.e.size());
                    auto* obj = const_cast<Cell*>(m.e[i].second);
                    obj->v = rv(4);
                    VF_CHECK("MODEL", c.at(m.e[i].first).v == obj->v, "at() does not see the object");
                    if constexpr (!std::is_const_v<R>)
                    {
                        c.at(m.e[i].first).v = 3;
                        VF_CHECK("MODEL", obj->v == 3, "a write through at() misses the object");
                        nth(c, i)->second.v = 1;
                        VF_CHECK("MODEL", obj->v == 1, "a write through an iterator misses the object");
                    }
                }
            }
            else if (op == 12)
            {
                trace("erase_if");
                const int x = rv(4);
                std::size_t n = 0;
                for (std::size_t i = m.e.size(); i-- > 0;)
                    if (m.e[i].second->v == x)
                    {
                        erase_at(m, i);
                        n++;
                    }
                const auto got = fc::erase_if(c, [&](const auto& e) { return e.second.v == x; });
                VF_CHECK("MODEL", got == n, "erase_if removed %zu, expected %zu", static_cast<std::size_t>(got), n);
            }
            else if (op == 13 && rv(4) == 0)
            {
                trace("clear");
                c.clear();
                m.e.clear();
            }
            verify(c, m);
        }
    }
    static void reg(const char* id)
    {
        add_group("model", std::string("references ") + id + "<" + std::to_string(N) + ">", [] { for (std::size_t i = 0, e = n_cases(1500); i < e; i++) run_case("history", [] { history(); }); });
    }
};

int main(int argc, char** argv)
{
#if PART == 0
    using namespace fc::fixed_red_black_tree_detail;
    RefMap<fc::FixedMap<Key, Cell&, 12>, Cell, 12>::reg("FixedMap Cell&");
    RefMap<fc::FixedMap<Key, const Cell&, 12>, const Cell, 12>::reg("FixedMap const Cell&");
    RefMap<fc::FixedMap<Key, Cell&, 3>, Cell, 3>::reg("FixedMap Cell&");
    RefMap<fc::FixedMap<Key, Cell&, 6, std::less<Key>, RedBlackTreeNodeColorCompactness::DEDICATED_COLOR, fc::FixedIndexBasedContiguousStorage>, Cell, 6>::reg("FixedMap contiguous Cell&");
#elif PART == 1
    RefMap<fc::FixedUnorderedMap<Key, Cell&, 12>, Cell, 12>::reg("FixedUnorderedMap Cell&");
    RefMap<fc::FixedUnorderedMap<Key, const Cell&, 12>, const Cell, 12>::reg("FixedUnorderedMap const Cell&");
    RefMap<fc::FixedUnorderedMap<Key, Cell&, 3>, Cell, 3>::reg("FixedUnorderedMap Cell&");
#else
    RefMap<fc::EnumMap<Key, const Cell&>, const Cell, 10>::reg("EnumMap const Cell&");
#endif
    return driver_main(argc, argv);
}
