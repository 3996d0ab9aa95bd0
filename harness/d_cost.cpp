// Work done by lookups, insertions and deletions.
// PART 0 map, 1 set: comparator calls and search depth (distinct entries looked at) of the ordered containers.
// PART 2: equality and hash calls of the hashed containers.
// PART 3: executed control-flow edges (compiler-inserted counters) of the operations that have to be
//         independent of the size.
#include "assoc.hpp"

#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include "fixed_containers/fixed_vector.hpp"

#include <numeric>
#include <set>

namespace fc = fixed_containers;
using namespace vf;
using Compact = fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness;

// height of the tallest red-black tree with n nodes
static int rb_height(std::size_t n)
{
    int h = 0;
    for (;;)
    {
        const int k = (h + 1) / 2;
        const std::size_t need = (h + 1) % 2 == 0 ? (std::size_t{2} << k) - 2 : 3 * (std::size_t{1} << k) - 2;
        if (need > n)
            return h;
        ++h;
    }
}

template <class C, bool MAP>
struct OrderedCost
{
    Box<C> c;
    std::set<int> m;
    explicit OrderedCost() = default;

    void limit_calls(const char* what, std::uint64_t mult, std::size_t n)
    {
        // every entry on the path may be compared in both directions, and an operation may search twice
        const auto lim = mult * static_cast<std::uint64_t>(rb_height(n) + 2);
        VF_CHECK("COST", g_cmp_calls <= lim, "%s made %llu comparator calls with %zu entries (limit %llu)", what, (unsigned long long)g_cmp_calls, n, (unsigned long long)lim);
    }
    void insert(int k)
    {
        trace("insert %d", k);
        g_cmp_calls = 0;
        if constexpr (MAP)
            LIB(c->try_emplace(k, k));
        else
            LIB(c->insert(k));
        limit_calls("insert", 4, m.size() + 1);
        m.insert(k);
    }
    void erase(int k)
    {
        trace("erase %d", k);
        g_cmp_calls = 0;
        LIB(c->erase(k));
        limit_calls("erase(key)", 4, m.size());
        m.erase(k);
    }
    void erase_it(int k)
    {
        trace("erase it %d", k);
        g_cmp_calls = 0;
        auto it = LIB(c->find(k));
        VF_CHECK("MODEL", it != c->end(), "find(%d) lost the entry", k);
        LIB(c->erase(it));
        limit_calls("find+erase(iterator)", 8, m.size());
        m.erase(k);
    }
    // number of distinct entries a lookup looks at
    int depth(int k, int how = 0)
    {
        g_path_on = true;
        g_path_n = 0;
        g_path_probe = k;
        g_cmp_calls = 0;
        bool found = false;
        const C& cc = *c;
        switch (how)
        {
        case 0: found = LIB(cc.find(k)) != cc.end(); break;
        case 1: found = LIB(cc.contains(k)); break;
        case 2: found = LIB(cc.count(k)) == 1; break;
        case 3:
        {
            auto it = LIB(cc.lower_bound(k));
            found = it != cc.end() && key(*it) == k;
            break;
        }
        case 4:
        {
            auto it = LIB(cc.upper_bound(k));
            const auto u = m.upper_bound(k);
            VF_CHECK("MODEL", (it == cc.end()) == (u == m.end()), "upper_bound(%d)", k);
            found = m.count(k) != 0;
            break;
        }
        }
        g_path_on = false;
        VF_CHECK("MODEL", found == (m.count(k) != 0), "lookup %d of %d", how, k);
        std::sort(g_path, g_path + g_path_n);
        const auto d = static_cast<int>(std::unique(g_path, g_path + g_path_n) - g_path);
        return d;
    }
    template <class R>
    static int key(const R& r)
    {
        if constexpr (MAP)
            return r.first;
        else
            return r;
    }
    int check_key(int k, int how)
    {
        const int d = depth(k, how);
        const std::size_t n = m.size();
        const int lim = rb_height(n) + (how >= 3 ? 1 : 0);
        VF_CHECK("COST", d <= lim, "lookup of %d looks at %d of %zu entries (limit %d)", k, d, n, lim);
        limit_calls("lookup", 2, n);
        cover(mix(n, static_cast<std::uint64_t>(d)));
        return d;
    }
    void check_all()
    {
        for (const int k : m)
            check_key(k, 0);
        VF_CHECK("MODEL", c->size() == m.size(), "size");
    }
    void check_some(std::size_t cnt)
    {
        if (m.empty())
            return;
        check_key(*m.begin(), 0);
        check_key(*m.rbegin(), 0);
        for (std::size_t i = 0; i < cnt; i++)
        {
            const int lo = *m.begin(), hi = *m.rbegin();
            const int k = lo + static_cast<int>(g_rng.below(static_cast<std::size_t>(hi - lo) + 1));
            check_key(k, static_cast<int>(g_rng.below(5)));
            auto it = m.lower_bound(k);
            check_key(*it, static_cast<int>(g_rng.below(5)));
        }
    }

    // An adversary that sees the depths and erases shallow entries while inserting next to deep ones
    // (or the other way round), on a small container.
    void adversary(std::size_t cap, std::size_t steps)
    {
        const int strategy = static_cast<int>(g_rng.below(7));
        trace("adversary %d cap %zu", strategy, cap);
        const int span = 1 << 20, base = 1 << 20;
        while (m.size() < cap)
            insert(base + static_cast<int>(g_rng.below(span)));
        for (std::size_t s = 0; s < steps; s++)
        {
            std::vector<std::pair<int, int>> ds;
            for (const int k : m)
                ds.emplace_back(check_key(k, 0), k);
            if (ds.empty())
                break;
            auto pick = [&](int mode) -> int
            {
                std::vector<int> c2;
                int best = -1;
                for (auto& [d, k] : ds)
                {
                    const int score = mode == 0 ? d : mode == 1 ? 1000 - d : 0;
                    if (score > best)
                    {
                        best = score;
                        c2.clear();
                    }
                    if (score == best)
                        c2.push_back(k);
                }
                return c2[g_rng.below(c2.size())];
            };
            // erase
            const int ne = strategy == 6 ? static_cast<int>(g_rng.below(cap / 2 + 1)) : 1;
            for (int e = 0; e < ne && !m.empty(); e++)
            {
                int k = 0;
                switch (strategy)
                {
                case 0: k = pick(1); break;              // shallowest (root side)
                case 1: k = pick(0); break;              // deepest
                case 2: k = *m.begin(); break;           // minimum
                case 3: k = *m.rbegin(); break;          // maximum
                case 4:                                  // a leaf on the shallow side
                {
                    // shallowest entry without neighbours deeper on both sides
                    int bd = 1 << 30;
                    for (std::size_t i = 0; i < ds.size(); i++)
                    {
                        const bool leaf = (i == 0 || ds[i - 1].first < ds[i].first) && (i + 1 == ds.size() || ds[i + 1].first < ds[i].first);
                        if (leaf && (ds[i].first < bd || (ds[i].first == bd && g_rng.chance(1, 2))))
                        {
                            bd = ds[i].first;
                            k = ds[i].second;
                        }
                    }
                    break;
                }
                default: k = ds[g_rng.below(ds.size())].second; break;
                }
                if (m.count(k) == 0)
                    k = *m.begin();
                if (g_rng.chance(1, 2))
                    erase(k);
                else
                    erase_it(k);
            }
            // let the container shrink from time to time
            if (g_rng.chance(1, 3))
                continue;
            // insert
            while (m.size() < cap)
            {
                int k;
                switch (strategy)
                {
                case 2: k = (m.empty() ? base : *m.rbegin()) + 1; break;
                case 3: k = (m.empty() ? base : *m.begin()) - 1; break;
                case 5: k = base + static_cast<int>(g_rng.below(span)); break;
                default:
                {
                    const int near = pick(strategy == 1 ? 1 : 0);
                    auto it = m.upper_bound(near);
                    const int hi = it == m.end() ? near + 1000 : *it;
                    k = hi - near > 1 ? near + (hi - near) / 2 : base + static_cast<int>(g_rng.below(span));
                    break;
                }
                }
                if (m.count(k) != 0)
                    k = base + static_cast<int>(g_rng.below(span));
                if (m.count(k) == 0)
                    insert(k);
                if (g_rng.chance(1, 3))
                    break;
            }
        }
        check_all();
    }

    // bulk histories on a large container
    void bulk(std::size_t cap, int order, int shrink)
    {
        std::vector<int> ks(cap);
        std::iota(ks.begin(), ks.end(), 0);
        switch (order)
        {
        case 0: break;
        case 1: std::reverse(ks.begin(), ks.end()); break;
        case 2:  // zig-zag from the outside
            for (std::size_t i = 0; i < cap; i++)
                ks[i] = static_cast<int>(i % 2 == 0 ? i / 2 : cap - 1 - i / 2);
            break;
        case 3:  // from the middle outwards
            for (std::size_t i = 0; i < cap; i++)
                ks[i] = static_cast<int>(i % 2 == 0 ? cap / 2 + i / 2 : cap / 2 - 1 - i / 2);
            break;
        case 4:  // random
            for (std::size_t i = cap; i > 1; i--)
                std::swap(ks[i - 1], ks[g_rng.below(i)]);
            break;
        case 5:  // interleaved runs
            std::stable_sort(ks.begin(), ks.end(), [](int a, int b) { return a % 7 < b % 7; });
            break;
        }
        constexpr int BASE = 1 << 20;  // far away from the values the lifetime monitor reserves
        for (int& k : ks)
            k += BASE;
        trace("order %d cap %zu shrink %d", order, cap, shrink);
        for (std::size_t i = 0; i < cap; i++)
        {
            insert(ks[i]);
            if ((i & (i - 1)) == 0 || i % 97 == 0)
                check_some(3);
        }
        check_all();
        auto some = [&](std::size_t i)
        {
            if (i % 61 == 0)
                check_some(6);
        };
        switch (shrink)
        {
        case 0:  // drop from the front
            for (std::size_t i = 0; m.size() > 8; i++, some(i))
                erase(*m.begin());
            break;
        case 1:  // drop from the back
            for (std::size_t i = 0; m.size() > 8; i++, some(i))
                erase_it(*m.rbegin());
            break;
        case 2:  // sliding window
            for (std::size_t i = 0; i < 2 * cap; i++, some(i))
            {
                erase(*m.begin());
                insert(*m.rbegin() + 1);
            }
            break;
        case 3:  // reverse sliding window
            for (std::size_t i = 0; i < 2 * cap; i++, some(i))
            {
                erase_it(*m.rbegin());
                insert(*m.begin() - 1);
            }
            break;
        case 4:  // thin out to every 16th
            for (std::size_t i = 0; i < cap; i++, some(i))
                if (i % 16 != 0)
                    erase(BASE + static_cast<int>(i));
            break;
        case 5:  // random churn
            for (std::size_t i = 0; i < 2 * cap; i++, some(i))
            {
                auto it = m.lower_bound(BASE + static_cast<int>(g_rng.below(cap)));
                if (it == m.end())
                    it = m.begin();
                erase(*it);
                const int k = BASE + static_cast<int>(g_rng.below(2 * cap));
                if (m.count(k) == 0)
                    insert(k);
            }
            break;
        case 6:  // range erase from the middle, then grow at one side
        {
            const int lo = BASE + static_cast<int>(cap / 8), hi = BASE + static_cast<int>(cap - cap / 8);
            auto a = c->find(lo), b = c->find(hi);
            LIB(c->erase(a, b));
            m.erase(m.lower_bound(lo), m.lower_bound(hi));
            check_all();
            while (m.size() < cap)
                insert(*m.rbegin() + 1);
            break;
        }
        case 7:  // clear and refill
            LIB(c->clear());
            m.clear();
            for (std::size_t i = 0; i < cap; i++)
                insert(BASE + static_cast<int>(cap - i));
            break;
        }
        check_all();
        // a copy searches like the original
        C copy(*c);
        for (const int k : m)
        {
            g_cmp_calls = 0;
            (void)copy.contains(k);
            limit_calls("lookup in a copy", 2, m.size());
        }
    }
};

template <class C, bool MAP>
void ordered(const char* name, std::size_t cap)
{
    const std::string id = std::string(name) + "#" + std::to_string(cap);
    if (cap <= 200)
        add_group("cost",
                  id + "/adversary",
                  [=]
                  {
                      g_alloc_monitor_on = true;
                      const std::size_t n = n_cases(cap <= 20 ? 300 : 60);
                      for (std::size_t i = 0; i < n; i++)
                          run_case("adversary",
                                   [&]
                                   {
                                       auto o = std::make_unique<OrderedCost<C, MAP>>();
                                       o->adversary(g_rng.chance(1, 2) ? cap : 1 + g_rng.below(cap), cap <= 20 ? 200 : 250);
                                   });
                  });
    add_group("cost",
              id + "/bulk",
              [=]
              {
                  for (int rep = 0; rep < (g_thorough ? 3 : 1); rep++)
                      for (int o = 0; o < 6; o++)
                          for (int s = 0; s < 8; s++)
                          {
                              if (cap > 1000 && !g_thorough && (o + s) % 3 != 0)
                                  continue;
                              run_case("bulk",
                                       [&]
                                       {
                                           auto oc = std::make_unique<OrderedCost<C, MAP>>();
                                           oc->bulk(cap, o, s);
                                       });
                          }
              });
}

// ---------------------------------------------------------------- hashed
struct MixHash
{
    std::uint64_t operator()(int k) const
    {
        ++g_hash_calls;
        return mix(99, static_cast<std::uint64_t>(k));
    }
};
struct CountEq
{
    template <class T>
    bool operator()(const T& a, const T& b) const
    {
        ++g_eq_calls;
        return a == b;
    }
};
template <class C, bool MAP, class MK>
void hashed(const char* name, std::size_t cap, MK mk)
{
    const std::string id = std::string(name) + "#" + std::to_string(cap);
    add_group(
        "cost",
        id,
        [=]
        {
            for (int var = 0; var < (g_thorough ? 40 : 10); var++)
                run_case(
                    "hashed load/churn",
                    [&]
                    {
                        g_alloc_monitor_on = false;
                        Box<C> c;
                        std::vector<int> in;
                        int nextk = 0;
                        auto ins = [&](int k)
                        {
                            g_hash_calls = g_eq_calls = 0;
                            if constexpr (MAP)
                                LIB(c->try_emplace(mk(var, k), k));
                            else
                                LIB(c->insert(mk(var, k)));
                            VF_CHECK("COST", g_eq_calls <= 12, "insert made %llu equality calls", (unsigned long long)g_eq_calls);
                            VF_CHECK("COST", g_hash_calls <= 3, "insert made %llu hash calls", (unsigned long long)g_hash_calls);
                            in.push_back(k);
                        };
                        auto era = [&](std::size_t at)
                        {
                            g_hash_calls = g_eq_calls = 0;
                            LIB(c->erase(mk(var, in[at])));
                            VF_CHECK("COST", g_eq_calls <= 12, "erase made %llu equality calls", (unsigned long long)g_eq_calls);
                            VF_CHECK("COST", g_hash_calls <= 3, "erase made %llu hash calls", (unsigned long long)g_hash_calls);
                            in[at] = in.back();
                            in.pop_back();
                        };
                        auto measure = [&]
                        {
                            if (in.empty())
                                return;
                            std::uint64_t tot = 0, mx = 0, hs = 0;
                            for (const int k : in)
                            {
                                g_hash_calls = g_eq_calls = 0;
                                const auto key = mk(var, k);
                                VF_CHECK("MODEL", LIB(c->contains(key)), "entry lost");
                                tot += g_eq_calls;
                                mx = std::max(mx, g_eq_calls);
                                hs = std::max(hs, g_hash_calls);
                            }
                            VF_CHECK("COST", mx <= 12, "a successful lookup made %llu equality calls", (unsigned long long)mx);
                            VF_CHECK("COST", hs <= 2, "a lookup made %llu hash calls", (unsigned long long)hs);
                            if (in.size() >= 200)
                                VF_CHECK("COST", tot <= in.size() * 5 / 4, "%zu successful lookups made %llu equality calls", in.size(), (unsigned long long)tot);
                            std::uint64_t miss = 0;
                            mx = 0;
                            for (std::size_t i = 0; i < in.size(); i++)
                            {
                                g_eq_calls = 0;
                                const auto key = mk(var, nextk + 1 + static_cast<int>(i));
                                VF_CHECK("MODEL", !LIB(c->contains(key)), "phantom entry");
                                miss += g_eq_calls;
                                mx = std::max(mx, g_eq_calls);
                            }
                            VF_CHECK("COST", mx <= 12, "an unsuccessful lookup made %llu equality calls", (unsigned long long)mx);
                            if (in.size() >= 200)
                                VF_CHECK("COST", miss <= in.size() / 4, "%zu unsuccessful lookups made %llu equality calls", in.size(), (unsigned long long)miss);
                            cover(mix(tot, miss));
                        };
                        while (in.size() < cap)
                            ins(nextk++);
                        measure();
                        for (int round = 0; round < 4; round++)
                        {
                            trace("churn %d", round);
                            for (std::size_t i = 0; i < cap; i++)
                            {
                                era(round % 2 == 0 ? g_rng.below(in.size()) : 0);
                                ins(nextk++);
                            }
                            measure();
                        }
                        while (in.size() > cap / 3)
                            era(g_rng.below(in.size()));
                        measure();
                        while (in.size() < cap)
                            ins(nextk++);
                        measure();
                        LIB(c->clear());
                        in.clear();
                        while (in.size() < cap)
                            ins(nextk++);
                        measure();
                    });
        });
}

// ---------------------------------------------------------------- executed edges
inline std::uint64_t g_edges = 0;
#if PART == 3
extern "C" __attribute__((no_sanitize("coverage"), no_sanitize("address"), no_sanitize("undefined"))) void __sanitizer_cov_trace_pc()
{
    ++g_edges;
}
#endif
// average edges of f over the container, at two sizes: the ratio must stay below lim
static void compare_work(const char* what, double small, double large, double lim)
{
    static double total = 0;
    total += small + large;
    VF_CHECK("HARNESS", total > 0, "%s: no work was observed", what);
    VF_CHECK("COST", large <= small * lim + 20, "%s executes %.0f control-flow edges on a large container and %.0f on a small one (limit: factor %.1f)", what, large, small, lim);
    cover(mix(hash_str(what), 1));
}
template <class F>
double edges(std::size_t reps, F&& f)
{
    g_edges = 0;
    for (std::size_t i = 0; i < reps; i++)
    {
        ++g_sh->ops;
        f(i);
    }
    return static_cast<double>(g_edges) / static_cast<double>(reps);
}
struct Work
{
    std::map<std::string, double> w;
};
template <std::size_t N>
Work seq_work()
{
    Work r;
    {
        auto v = std::make_unique<fc::FixedVector<int, N>>();
        r.w["FixedVector::push_back"] = edges(N, [&](std::size_t i) { v->push_back(static_cast<int>(i)); });
        r.w["FixedVector::operator[]"] = edges(N, [&](std::size_t i) { (*v)[i]++; });
        r.w["FixedVector::at"] = edges(N, [&](std::size_t i) { v->at(i)++; });
        auto it = v->begin();
        r.w["FixedVector iteration"] = edges(N, [&](std::size_t) { ++*it; ++it; });
        r.w["FixedVector::back/pop_back"] = edges(N, [&](std::size_t) { v->back()++; v->pop_back(); });
    }
    auto deq = [&]<class D>(const char* nm, std::type_identity<D>, bool circ)
    {
        const std::string p = nm;
        auto v = std::make_unique<D>();
        r.w[p + "::push_back"] = edges(N / 2, [&](std::size_t i) { v->push_back(static_cast<int>(i)); });
        r.w[p + "::push_front"] = edges(N / 2, [&](std::size_t i) { v->push_front(static_cast<int>(i)); });
        if (circ)
        {
            r.w[p + "::push_back on full"] = edges(N, [&](std::size_t i) { v->push_back(static_cast<int>(i)); });
            r.w[p + "::push_front on full"] = edges(N, [&](std::size_t i) { v->push_front(static_cast<int>(i)); });
        }
        r.w[p + "::operator[]"] = edges(N, [&](std::size_t i) { (*v)[i]++; });
        auto it = v->begin();
        r.w[p + " iteration"] = edges(N, [&](std::size_t) { ++*it; ++it; });
        r.w[p + "::pop_front"] = edges(N / 2, [&](std::size_t) { v->pop_front(); });
        r.w[p + "::pop_back"] = edges(N / 2, [&](std::size_t) { v->pop_back(); });
    };
    deq("FixedDeque", std::type_identity<fc::FixedDeque<int, N>>{}, false);
    deq("FixedCircularDeque", std::type_identity<fc::FixedCircularDeque<int, N>>{}, true);
    {
        auto v = std::make_unique<fc::FixedList<int, N>>();
        r.w["FixedList::push_back"] = edges(N / 4, [&](std::size_t i) { v->push_back(static_cast<int>(i)); });
        r.w["FixedList::push_front"] = edges(N / 4, [&](std::size_t i) { v->push_front(static_cast<int>(i)); });
        auto mid = std::next(v->begin(), N / 4);
        r.w["FixedList::insert in the middle"] = edges(N / 4, [&](std::size_t i) { mid = v->insert(mid, static_cast<int>(i)); });
        r.w["FixedList::size"] = edges(N, [&](std::size_t) { (void)v->size(); });
        auto it = v->begin();
        r.w["FixedList iteration"] = edges(N / 2, [&](std::size_t) { ++*it; ++it; });
        r.w["FixedList::erase in the middle"] = edges(N / 4, [&](std::size_t) { mid = v->erase(mid); });
        r.w["FixedList::pop_front"] = edges(N / 8, [&](std::size_t) { v->pop_front(); });
        r.w["FixedList::pop_back"] = edges(N / 8, [&](std::size_t) { v->pop_back(); });
    }
    return r;
}
template <class C, std::size_t N>
void assoc_work(Work& r, const char* nm)
{
    const std::string p = nm;
    auto c = std::make_unique<C>();
    Rng rng(5);
    std::vector<int> keys;
    auto key = [](std::size_t i) { return static_cast<int>(mix(3, i) % 1000000007ULL); };
    std::size_t next = 0;
    for (; next < N; next++)
    {
        (*c)[key(next)] = 1;
        keys.push_back(key(next));
    }
    for (std::size_t i = 0; i < 2 * N; i++)
    {
        const std::size_t at = rng.below(keys.size());
        c->erase(keys[at]);
        keys[at] = key(next++);
        (*c)[keys[at]] = 1;
    }
    r.w[p + "::find"] = edges(N, [&](std::size_t i) { (void)c->find(keys[i]); });
    r.w[p + "::contains of a missing key"] = edges(N, [&](std::size_t i) { (void)c->contains(key(next + 5 + i)); });
    r.w[p + "::size"] = edges(N, [&](std::size_t) { (void)c->size(); });
    auto it = c->begin();
    r.w[p + " iteration"] = edges(N, [&](std::size_t) { it->second++; ++it; });
    r.w[p + "::erase(key) and insert"] = edges(N,
                                               [&](std::size_t i)
                                               {
                                                   c->erase(keys[i]);
                                                   c->try_emplace(key(next + i), 1);
                                               });
    r.w[p + "::find+erase(iterator)"] = edges(N / 2,
                                              [&](std::size_t)
                                              { c->erase(c->begin()); });
}

enum class Kind : int
{
};
// Texts of one length that differ in one character only, at every position: the default hash must tell them apart,
// otherwise all of them share one chain.
template <class Str>
void one_character(const char* name)
{
    using Ch = typename Str::value_type;
    add_group("cost",
              name,
              [=]
              {
                  constexpr std::size_t N = 32;
                  auto one = [](std::size_t len, std::size_t at)
                  {
                      g_alloc_monitor_on = false;
                      Box<fc::FixedUnorderedSet<Str, N, fc::wyhash::hash<Str>, CountEq>> c;
                      Str base(len, Ch());
                      for (auto& ch : base)
                          ch = static_cast<Ch>(g_rng.below(100));
                      auto key = [&](std::size_t k)
                      {
                          base[at] = static_cast<Ch>(k * 3);
                          return base;
                      };
                      trace("length %zu position %zu", len, at);
                      for (std::size_t k = 0; k < N; k++)
                          LIB(c->insert(key(k)));
                      g_eq_calls = 0;
                      for (std::size_t k = 0; k < 2 * N; k++)
                          VF_CHECK("MODEL", LIB(c->contains(key(k))) == (k < N), "lookup %zu", k);
                      // one equality per hit; sharing one hash would make it about N/2 per hit and N per miss
                      VF_CHECK("COST", g_eq_calls <= 4 * N, "%zu lookups made %llu equality calls", 2 * N, (unsigned long long)g_eq_calls);
                      cover(mix(mix(len, at), g_eq_calls));
                  };
                  for (std::size_t len = 1; len <= (g_thorough ? 300u : 70u); len++)
                      run_case("every position",
                               [&]
                               {
                                   for (std::size_t at = 0; at < len; at++)
                                       if (len <= 18 || g_thorough || at + 2 >= len || at < 2 || g_rng.chance(1, 4))
                                           one(len, at);
                               });
                  for (std::size_t i = 0; i < n_cases(100); i++)
                      run_case("some position",
                               [&]
                               {
                                   const std::size_t len = 71 + g_rng.below(400);
                                   one(len, g_rng.below(len));
                               });
              });
}
int main(int argc, char** argv)
{
#if PART == 0
    ordered<fc::FixedMap<int, int, 13, LessCmp<int>>, true>("map", 13);
    ordered<fc::FixedMap<int, int, 100, LessCmp<int>>, true>("map", 100);
    ordered<fc::FixedMap<int, int, 2000, LessCmp<int>>, true>("map", 2000);
    ordered<fc::FixedMap<int, int, 40, LessCmp<int>, Compact::DEDICATED_COLOR, fc::FixedIndexBasedContiguousStorage>, true>("map,contiguous,dedicated", 40);
    ordered<fc::FixedMap<int, int, 300, LessCmp<int>, Compact::EMBEDDED_COLOR, fc::FixedIndexBasedContiguousStorage>, true>("map,contiguous", 300);
#elif PART == 1
    ordered<fc::FixedSet<int, 16, LessCmp<int>>, false>("set", 16);
    ordered<fc::FixedSet<int, 60, LessCmp<int>, Compact::DEDICATED_COLOR>, false>("set,dedicated", 60);
    ordered<fc::FixedSet<int, 500, LessCmp<int>>, false>("set", 500);
    ordered<fc::FixedSet<int, 31, LessCmp<int>, Compact::EMBEDDED_COLOR, fc::FixedIndexBasedContiguousStorage>, false>("set,contiguous", 31);
#elif PART == 2
    auto plain = [](int, int k) { return k; };
    auto spaced = [](int var, int k) { return static_cast<std::int64_t>(static_cast<std::uint64_t>(k) << (var * 4 % 40)); };
    auto text = [](int var, int k) { return std::string("key/with/a/common/prefix/") + (var % 2 ? "x" : "") + std::to_string(k * (var + 1)); };
    hashed<fc::FixedUnorderedMap<int, int, 2048, MixHash, CountEq>, true>("umap,mixed hash", 2048, plain);
    hashed<fc::FixedUnorderedMap<int, int, 100, MixHash, CountEq>, true>("umap,mixed hash", 100, plain);
    hashed<fc::FixedUnorderedSet<int, 777, MixHash, CountEq>, false>("uset,mixed hash", 777, plain);
    hashed<fc::FixedUnorderedMap<std::int64_t, int, 1024, fc::wyhash::hash<std::int64_t>, CountEq>, true>("umap<int64>,default hash", 1024, spaced);
    hashed<fc::FixedUnorderedSet<std::string, 512, fc::wyhash::hash<std::string>, CountEq>, false>("uset<string>,default hash", 512, text);
    static std::vector<double> pool(200000);
    auto objects = [](int var, int k) { return &pool[static_cast<std::size_t>(k) * static_cast<std::size_t>(1 + var % 5)]; };
    hashed<fc::FixedUnorderedSet<double*, 600, fc::wyhash::hash<double*>, CountEq>, false>("uset<pointer>,default hash", 600, objects);
    auto numbers = [](int var, int k) { return (k - 300) * (var % 3 == 0 ? 1.0 : var % 3 == 1 ? 0.37 : 1e12); };
    hashed<fc::FixedUnorderedSet<double, 600, fc::wyhash::hash<double>, CountEq>, false>("uset<double>,default hash", 600, numbers);
    auto kinds = [](int var, int k) { return static_cast<Kind>(k * (var % 7 + 1)); };
    hashed<fc::FixedUnorderedMap<Kind, int, 600, fc::wyhash::hash<Kind>, CountEq>, true>("umap<enum>,default hash", 600, kinds);
    one_character<std::string>("uset<string>,one character differs");
    one_character<std::wstring>("uset<wstring>,one character differs");
#elif PART == 3
    add_group("cost",
              "edges/sequences",
              []
              {
                  run_case("edges/sequences",
                           []
                           {
                               auto a = seq_work<64>();
                               auto b = seq_work<4096>();
                               for (auto& [k, v] : a.w)
                               {
                                   trace("%s %.0f %.0f", k.c_str(), v, b.w[k]);
                                   compare_work(k.c_str(), v, b.w[k], 1.5);
                               }
                           });
              });
    add_group("cost",
              "edges/maps",
              []
              {
                  run_case("edges/maps",
                           []
                           {
                               Work a, b;
                               assoc_work<fc::FixedUnorderedMap<int, int, 64>, 64>(a, "FixedUnorderedMap");
                               assoc_work<fc::FixedUnorderedMap<int, int, 4096>, 4096>(b, "FixedUnorderedMap");
                               assoc_work<fc::FixedMap<int, int, 64>, 64>(a, "FixedMap");
                               assoc_work<fc::FixedMap<int, int, 4096>, 4096>(b, "FixedMap");
                               assoc_work<fc::FixedMap<int, int, 64, std::less<int>, Compact::DEDICATED_COLOR, fc::FixedIndexBasedContiguousStorage>, 64>(a, "FixedMap,contiguous");
                               assoc_work<fc::FixedMap<int, int, 4096, std::less<int>, Compact::DEDICATED_COLOR, fc::FixedIndexBasedContiguousStorage>, 4096>(b, "FixedMap,contiguous");
                               for (auto& [k, v] : a.w)
                               {
                                   trace("%s %.0f %.0f", k.c_str(), v, b.w[k]);
                                   compare_work(k.c_str(), v, b.w[k], 3.0);
                               }
                           });
              });
#endif
    return vf::driver_main(argc, argv);
}
