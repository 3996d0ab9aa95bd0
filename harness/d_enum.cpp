// EnumMap, EnumSet, EnumArray against a flat model indexed by ordinal.
#include "enums.hpp"

#include "fixed_containers/enum_array.hpp"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/enum_set.hpp"

#include <list>
#include <map>

namespace fc = fixed_containers;
using namespace vf;
using namespace vfe;

enum class EHit
{
    NONE,
    MISSING,
    DUPLICATE
};
inline EHit g_ehit = EHit::NONE;
template <class K>
struct EnumChecking
{
    template <class Loc>
    [[noreturn]] static void missing_enum_entries(const Loc& loc)
    {
        g_ehit = EHit::MISSING;
        hit(Hit::INVALID_ARGUMENT, 1, 0, loc.file_name(), static_cast<unsigned>(loc.line()));
    }
    template <class Loc>
    [[noreturn]] static void duplicate_enum_entries(const Loc& loc)
    {
        g_ehit = EHit::DUPLICATE;
        hit(Hit::INVALID_ARGUMENT, 2, 0, loc.file_name(), static_cast<unsigned>(loc.line()));
    }
    template <class Loc>
    [[noreturn]] static void out_of_range(const K& k, const std::size_t n, const Loc& loc)
    {
        hit(Hit::OUT_OF_RANGE, fc::rich_enums::EnumAdapter<K>::ordinal(k), n, loc.file_name(), static_cast<unsigned>(loc.line()));
    }
};

// ---------------------------------------------------------------- EnumMap
template <class K, class V>
struct EM
{
    using C = fc::EnumMap<K, V, EnumChecking<K>>;
    static constexpr bool COPY = std::is_copy_constructible_v<V>;
    static constexpr bool DEF = std::is_default_constructible_v<V>;
    static constexpr bool ASSIGN = std::is_move_assignable_v<V>;
    static constexpr bool CASSIGN = std::is_copy_assignable_v<V>;
    using PairV = std::pair<const K, V>;

    struct Model
    {
        std::vector<int> v;  // -1 absent
        std::vector<const void*> at;
        explicit Model(std::size_t n) : v(n, -1), at(n, nullptr) {}
        std::size_t size() const
        {
            std::size_t s = 0;
            for (int x : v)
                s += x >= 0;
            return s;
        }
        std::size_t next(std::size_t i) const  // first present >= i, or n
        {
            while (i < v.size() && v[i] < 0)
                i++;
            return i;
        }
    };
    static const std::vector<K>& keys()
    {
        static const std::vector<K> k = Keys<K>::all();
        return k;
    }
    static std::size_t N() { return keys().size(); }
    static std::size_t ord(const K& k)
    {
        for (std::size_t i = 0; i < N(); i++)
            if (keys()[i] == k)
                return i;
        return 9999;
    }

    static void verify(Box<C>& b, Model& m, const char* kind = "MODEL")
    {
        C& c = *b;
        const C& cc = c;
        const std::size_t n = m.size();
        VF_CHECK(kind, cc.size() == n && cc.empty() == (n == 0) && cc.max_size() == N() && C::static_max_size() == N(), "size() is %zu, expected %zu", cc.size(), n);
        VF_CHECK(kind, fc::is_full(c) == (n == N()), "is_full");
        if (El<V>::tracked)
            VF_CHECK("LIFE", b.live() == static_cast<long>(n), "%ld values alive, expected %zu", b.live(), n);
        std::size_t i = m.next(0), cnt = 0;
        for (auto it = cc.begin(); it != cc.end(); ++it)
        {
            VF_CHECK("ITER", cnt <= N() && i < N(), "forward iteration visits too many entries");
            VF_CHECK(kind, it->first == keys()[i], "forward iteration at entry %zu: wrong key", cnt);
            VF_CHECK(kind, val(it->second) == m.v[i], "forward iteration: value %d for key %zu, expected %d", val(it->second), i, m.v[i]);
            const auto& [k2, v2] = *it;
            VF_CHECK("ITER", k2 == keys()[i] && std::addressof(v2) == std::addressof(it->second), "arrow and dereference disagree");
            const void* a = std::addressof(it->second);
            if (m.at[i] == nullptr)
                m.at[i] = a;
            VF_CHECK("STABLE", m.at[i] == a, "value of key %zu moved in memory", i);
            i = m.next(i + 1);
            cnt++;
        }
        VF_CHECK(kind, cnt == n, "forward iteration visits %zu of %zu entries", cnt, n);
        // mutable, reverse
        std::vector<int> want, got;
        for (std::size_t k = N(); k-- > 0;)
            if (m.v[k] >= 0)
                want.push_back(static_cast<int>(k));
        for (auto it = c.rbegin(); it != c.rend(); ++it)
        {
            VF_CHECK("ITER", got.size() <= N(), "reverse iteration does not end");
            const std::size_t o = ord(it->first);
            VF_CHECK("ITER", o < N() && val(it->second) == m.v[o], "reverse iteration: wrong entry");
            got.push_back(static_cast<int>(o));
        }
        VF_CHECK("ITER", want == got, "reverse iteration visits the wrong entries");
        got.clear();
        for (auto it = cc.crbegin(); it != cc.crend(); it++)
            got.push_back(static_cast<int>(ord((*it).first)));
        VF_CHECK("ITER", want == got, "const reverse iteration visits the wrong entries");
        got.clear();
        for (auto it = c.end(); it != c.begin();)
        {
            --it;
            got.push_back(static_cast<int>(ord(it->first)));
        }
        VF_CHECK("ITER", want == got, "backward iteration visits the wrong entries");
        for (std::size_t k = 0; k < N(); k++)
        {
            const bool has = m.v[k] >= 0;
            const K& key = keys()[k];
            VF_CHECK(kind, cc.contains(key) == has && cc.count(key) == (has ? 1u : 0u), "contains/count of key %zu is not %d", k, has);
            auto f = c.find(key);
            auto cf = cc.find(key);
            VF_CHECK(kind, (f != c.end()) == has && (cf != cc.end()) == has, "find of key %zu", k);
            VF_CHECK("ITER", cf == typename C::const_iterator(f), "converted iterator differs");
            if (has)
            {
                VF_CHECK(kind, val(f->second) == m.v[k] && val(cf->second) == m.v[k] && f->first == key, "find of key %zu yields the wrong entry", k);
                VF_CHECK(kind, val(c.at(key)) == m.v[k] && val(cc.at(key)) == m.v[k], "at of key %zu", k);
                auto nx = f;
                ++nx;
                const std::size_t nk = m.next(k + 1);
                VF_CHECK("ITER", nk == N() ? nx == c.end() : nx == c.find(keys()[nk]), "iterator after key %zu", k);
                --nx;
                VF_CHECK("ITER", nx == f, "decrement does not undo increment");
            }
        }
        std::uint64_t h = 0;
        for (std::size_t k = 0; k < N(); k++)
            h = h * 2 + (m.v[k] >= 0);
        cover(h);
    }
    static void check_it(C& c, typename C::iterator it, Model& m, std::size_t k, const char* what)
    {
        if (k >= N())
            VF_CHECK("MODEL", it == c.end(), "%s: result is not end()", what);
        else
            VF_CHECK("MODEL", it != c.end() && it->first == keys()[k] && val(it->second) == m.v[k], "%s: result does not denote key %zu", what, k);
    }

    static void insert_one(Box<C>& b, Model& m, int op, std::size_t k, int v)
    {
        C& c = *b;
        const K key = keys()[k];
        const bool had = m.v[k] >= 0;
        auto expect = [&](auto r, const char* w)
        {
            if (!had)
                m.v[k] = v;
            VF_CHECK("MODEL", r.second == !had, "%s: inserted is %d", w, r.second);
            check_it(c, r.first, m, k, w);
        };
        switch (op)
        {
        case 0:
            if constexpr (COPY)
            {
                trace("insert const& %zu=%d", k, v);
                const PairV p(key, V(v));
                expect(LIB(c.insert(p)), "insert");
                VF_CHECK("MODEL", val(p.second) == v, "insert(const&) changed its argument");
            }
            break;
        case 1:
        {
            trace("insert && %zu=%d", k, v);
            PairV p(key, V(v));
            expect(LIB(c.insert(std::move(p))), "insert");
            if (had)
                VF_CHECK("MODEL", val(p.second) == v, "insert moved from its argument although nothing was inserted");
            break;
        }
        case 2:
        {
            trace("try_emplace %zu=%d", k, v);
            V arg(v);
            expect(LIB(c.try_emplace(key, std::move(arg))), "try_emplace");
            if (had)
                VF_CHECK("MODEL", val(arg) == v, "try_emplace moved from its argument although nothing was inserted");
            break;
        }
        case 3:
            trace("try_emplace args %zu=%d", k, v);
            expect(LIB(c.try_emplace(key, v)), "try_emplace");
            break;
        case 4:
            trace("try_emplace hint %zu=%d", k, v);
            expect(LIB(c.try_emplace(c.cbegin(), key, v)), "try_emplace(hint)");
            break;
        case 5:
            trace("emplace %zu=%d", k, v);
            expect(LIB(c.emplace(key, v)), "emplace");
            break;
        case 6:
            trace("emplace pair %zu=%d", k, v);
            expect(LIB(c.emplace(PairV(key, V(v)))), "emplace(pair)");
            break;
        case 7:
            trace("emplace_hint %zu=%d", k, v);
            expect(LIB(c.emplace_hint(c.cend(), key, v)), "emplace_hint");
            break;
        case 8:
            if constexpr (DEF && ASSIGN)
            {
                trace("op[] %zu", k);
                V& r = LIB(c[key]);
                VF_CHECK("MODEL", val(r) == (had ? m.v[k] : 0), "operator[] yields %d", val(r));
                m.v[k] = had ? m.v[k] : 0;
                LIB(r = V(v));
                m.v[k] = v;
            }
            break;
        case 9:
            if constexpr (ASSIGN)
            {
                trace("insert_or_assign %zu=%d", k, v);
                auto r = LIB(c.insert_or_assign(key, V(v)));
                m.v[k] = v;
                VF_CHECK("MODEL", r.second == !had, "insert_or_assign: inserted is %d", r.second);
                check_it(c, r.first, m, k, "insert_or_assign");
            }
            break;
        case 10:
            if constexpr (CASSIGN)
            {
                trace("insert_or_assign hint %zu=%d", k, v);
                const V arg(v);
                auto it = LIB(c.insert_or_assign(c.cend(), key, arg));
                m.v[k] = v;
                check_it(c, it, m, k, "insert_or_assign(hint)");
                VF_CHECK("MODEL", val(arg) == v, "argument changed");
            }
            break;
        case 11:
            if constexpr (DEF)
            {
                trace("op[]&& %zu", k);
                K kk = key;
                V& r = LIB(c[std::move(kk)]);
                m.v[k] = had ? m.v[k] : 0;
                VF_CHECK("MODEL", val(r) == m.v[k], "operator[] yields %d", val(r));
            }
            break;
        case 12:
            if constexpr (CASSIGN)
            {
                // value taken from another entry of the same map
                for (std::size_t j = 0; j < N(); j++)
                    if (m.v[j] >= 0 && j != k)
                    {
                        trace("insert_or_assign alias %zu<-%zu", k, j);
                        LIB(c.insert_or_assign(key, c.at(keys()[j])));
                        m.v[k] = m.v[j];
                        break;
                    }
            }
            break;
        }
        if (!had)
            m.at[k] = nullptr;
    }
    static void erase_key(Model& m, std::size_t k)
    {
        m.v[k] = -1;
        m.at[k] = nullptr;
    }
    static void one_op(Box<C>& b, Model& m)
    {
        C& c = *b;
        const std::size_t k = g_rng.below(N());
        const int v = static_cast<int>(1 + g_rng.below(900));
        const int r = static_cast<int>(g_rng.below(24));
        if (r < 13)
        {
            insert_one(b, m, r, k, v);
            return;
        }
        switch (r)
        {
        case 13:
        case 14:
        {
            trace("erase key %zu", k);
            const auto n = LIB(c.erase(keys()[k]));
            VF_CHECK("MODEL", n == (m.v[k] >= 0 ? 1u : 0u), "erase(key) returned %zu", static_cast<std::size_t>(n));
            erase_key(m, k);
            break;
        }
        case 15:
        case 16:
        {
            const std::size_t e = m.next(k);
            if (e >= N())
                break;
            trace("erase it %zu", e);
            auto it = r == 15 ? LIB(c.erase(c.find(keys()[e]))) : LIB(c.erase(std::as_const(c).find(keys()[e])));
            erase_key(m, e);
            check_it(c, it, m, m.next(e), "erase(iterator)");
            break;
        }
        case 17:
        {
            std::size_t a = m.next(k), z = m.next(g_rng.below(N() + 1));
            if (a > z)
                std::swap(a, z);
            trace("erase range [%zu,%zu)", a, z);
            auto fi = [&](std::size_t i) { return i >= N() ? std::as_const(c).cend() : std::as_const(c).find(keys()[i]); };
            auto it = LIB(c.erase(fi(a), fi(z)));
            for (std::size_t i = a; i < z; i++)
                erase_key(m, i);
            check_it(c, it, m, z, "erase(range)");
            break;
        }
        case 18:
            if (g_rng.chance(1, 4))
            {
                trace("clear");
                LIB(c.clear());
                for (std::size_t i = 0; i < N(); i++)
                    erase_key(m, i);
            }
            break;
        case 19:
        {
            const int mod = static_cast<int>(2 + g_rng.below(3));
            trace("erase_if v%%%d", mod);
            std::size_t calls = 0;
            const std::size_t had = c.size();
            const auto n = LIB(fc::erase_if(c, [&](const auto& kv) { calls++; return val(kv.second) % mod == 0; }));
            VF_CHECK("MODEL", calls == had, "erase_if called the predicate %zu times for %zu entries", calls, had);
            std::size_t want = 0;
            for (std::size_t i = 0; i < N(); i++)
                if (m.v[i] >= 0 && m.v[i] % mod == 0)
                {
                    erase_key(m, i);
                    want++;
                }
            VF_CHECK("MODEL", n == want, "erase_if returned %zu, expected %zu", static_cast<std::size_t>(n), want);
            break;
        }
        case 20:
            if constexpr (COPY)
            {
                trace("insert range");
                std::vector<PairV> src;
                std::vector<std::pair<std::size_t, int>> ks;
                const std::size_t cnt = g_rng.below(6);
                for (std::size_t i = 0; i < cnt; i++)
                {
                    ks.emplace_back(g_rng.below(N()), static_cast<int>(1 + g_rng.below(900)));
                    src.emplace_back(keys()[ks.back().first], V(ks.back().second));
                }
                if (g_rng.chance(1, 2))
                    LIB(c.insert(src.begin(), src.end()));
                else
                {
                    std::list<PairV> l(src.begin(), src.end());
                    LIB(c.insert(l.begin(), l.end()));
                }
                for (auto& [kk, vv] : ks)
                    if (m.v[kk] < 0)
                        m.v[kk] = vv;
            }
            break;
        case 21:
            if constexpr (COPY)
            {
                trace("insert ilist %zu %zu", k, (k + 1) % N());
                LIB(c.insert({PairV(keys()[k], V(v)), PairV(keys()[(k + 1) % N()], V(v + 1)), PairV(keys()[k], V(v + 2))}));
                if (m.v[k] < 0)
                    m.v[k] = v;
                if (m.v[(k + 1) % N()] < 0)
                    m.v[(k + 1) % N()] = v + 1;
            }
            break;
        case 22:
            if constexpr (ASSIGN)
            {
                trace("write through iterators");
                for (auto it = c.begin(); it != c.end(); ++it)
                {
                    const std::size_t o = ord(it->first);
                    VF_CHECK("ITER", o < N(), "unknown key");
                    LIB(it->second = V(v + static_cast<int>(o)));
                    m.v[o] = v + static_cast<int>(o);
                }
            }
            break;
        case 23:
            if constexpr (ASSIGN)
                if (m.v[k] >= 0)
                {
                    trace("write at %zu", k);
                    LIB(c.at(keys()[k]) = V(v));
                    m.v[k] = v;
                }
            break;
        }
    }
    static void build(Box<C>& b, Model& m, std::uint64_t mask, int salt)
    {
        // a history that ends in exactly this subset, with leftovers of removed entries
        for (std::size_t k = N(); k-- > 0;)
            if (g_rng.chance(1, 3))
                insert_one(b, m, 3, k, 700 + static_cast<int>(k));
        for (std::size_t k = 0; k < N(); k++)
            if (m.v[k] >= 0)
            {
                LIB(b->erase(keys()[k]));
                erase_key(m, k);
            }
        for (std::size_t k = 0; k < N(); k++)
            if ((mask >> (k % 64)) & 1)
                insert_one(b, m, 3, k, salt + static_cast<int>(k));
    }
    static std::uint64_t random_mask() { return g_rng.chance(1, 4) ? g_rng.next() & g_rng.next() & g_rng.next() : g_rng.chance(1, 4) ? ~std::uint64_t{0} : g_rng.next(); }

    static void add(const char* vname, std::size_t w)
    {
        const std::string id = std::string("enum_map<") + Keys<K>::name + "," + vname + ">";
        auto setup = [] { g_alloc_monitor_on = !El<V>::allocates; };
        if (VF_SUITES & 1)
            add_group("model",
                      id + "/model",
                      [=]
                      {
                          setup();
                          const std::size_t n = n_cases(w);
                          for (std::size_t i = 0; i < n; i++)
                              run_case(id,
                                       [&]
                                       {
                                           Box<C> b;
                                           Model m(N());
                                           const std::size_t steps = 5 + g_rng.below(60);
                                           for (std::size_t s = 0; s < steps; s++)
                                           {
                                               one_op(b, m);
                                               if (N() < 20 || s % 8 == 0)
                                                   verify(b, m);
                                           }
                                           verify(b, m);
                                       });
                      });
        if ((VF_SUITES & 1) && N() <= 7)
            add_group("model",
                      id + "/subsets",
                      [=]
                      {
                          setup();
                          // every subset x every iterator-returning operation
                          for (std::uint64_t mask = 0; mask < (std::uint64_t{1} << N()); mask++)
                          {
                              run_case(id,
                                       [&]
                                       {
                                           Box<C> b;
                                           Model m(N());
                                           build(b, m, mask, 10);
                                           verify(b, m);
                                       });
                              for (std::size_t a = 0; a <= N(); a++)
                                  for (std::size_t z = a; z <= N(); z++)
                                      run_case(id,
                                               [&]
                                               {
                                                   Box<C> b;
                                                   Model m(N());
                                                   build(b, m, mask, 20);
                                                   C& c = *b;
                                                   const std::size_t aa = m.next(a), zz = m.next(z);
                                                   trace("erase range [%zu,%zu)", aa, zz);
                                                   auto fi = [&](std::size_t i) { return i >= N() ? std::as_const(c).cend() : std::as_const(c).find(keys()[i]); };
                                                   auto it = LIB(c.erase(fi(aa), fi(zz)));
                                                   for (std::size_t i = aa; i < zz; i++)
                                                       erase_key(m, i);
                                                   check_it(c, it, m, zz, "erase(range)");
                                                   verify(b, m);
                                               });
                              for (std::size_t k = 0; k < N(); k++)
                                  for (int op = 0; op < 14; op++)
                                      run_case(id,
                                               [&]
                                               {
                                                   Box<C> b;
                                                   Model m(N());
                                                   build(b, m, mask, 30);
                                                   if (op < 13)
                                                       insert_one(b, m, op, k, 555);
                                                   else if (m.v[k] >= 0)
                                                   {
                                                       auto it = LIB(b->erase(b->find(keys()[k])));
                                                       erase_key(m, k);
                                                       check_it(*b, it, m, m.next(k), "erase(iterator)");
                                                   }
                                                   verify(b, m);
                                               });
                          }
                      });
        if (VF_SUITES & 8)
            add_group("iter",
                      id + "/iter",
                      [=]
                      {
                          setup();
                          const std::size_t n = n_cases(w / 4);
                          for (std::size_t i = 0; i < n; i++)
                              run_case(id, [&] { iter_case(); });
                      });
        if (VF_SUITES & 4)
            add_group("value",
                      id + "/value",
                      [=]
                      {
                          setup();
                          const std::size_t n = n_cases(w);
                          for (std::size_t i = 0; i < n; i++)
                              run_case(id, [&] { value_case(); });
                      });
        if (VF_SUITES & 2)
            add_group("ctor",
                      id + "/ctor",
                      [=]
                      {
                          setup();
                          const std::size_t n = n_cases(w / 2);
                          for (std::size_t i = 0; i < n; i++)
                              run_case(id, [&] { ctor_case(); });
                      });
        if (VF_SUITES & 64)
            add_group("check",
                      id + "/check",
                      [=]
                      {
                          setup();
                          const std::size_t n = n_cases(w / 2);
                          for (std::size_t i = 0; i < n; i++)
                              run_case(id, [&] { check_case(); });
                      });
        if constexpr (std::is_trivially_copyable_v<C>)
            if (VF_SUITES & 32)
                add_group("reloc",
                          id + "/reloc",
                          [=]
                          {
                              setup();
                              const std::size_t n = n_cases(w / 2);
                              for (std::size_t i = 0; i < n; i++)
                                  run_case(id, [&] { reloc_case(); });
                          });
    }

    static void iter_case()
    {
        Box<C> b;
        Model m(N());
        build(b, m, random_mask(), 40);
        C& c = *b;
        const C& cc = c;
        verify(b, m, "ITER");
        using It = typename C::iterator;
        using CIt = typename C::const_iterator;
        VF_CHECK("ITER", It{} == It{} && CIt{} == CIt{}, "value-initialised iterators differ");
        VF_CHECK("ITER", typename C::reverse_iterator{} == typename C::reverse_iterator{}, "value-initialised reverse iterators differ");
        std::vector<It> its;
        for (auto it = c.begin();; ++it)
        {
            its.push_back(it);
            if (it == c.end())
                break;
        }
        const std::size_t n = m.size();
        VF_CHECK("ITER", its.size() == n + 1, "range length");
        for (std::size_t i = 0; i <= n; i++)
            for (std::size_t j = 0; j <= n; j++)
            {
                VF_CHECK("ITER", (its[i] == its[j]) == (i == j), "iterator equality %zu %zu", i, j);
                VF_CHECK("ITER", (CIt(its[i]) == its[j]) == (i == j) && (its[i] == CIt(its[j])) == (i == j), "mixed iterator equality %zu %zu", i, j);
            }
        // reverse iterators
        auto rit = c.rbegin();
        for (std::size_t i = n;; i--)
        {
            VF_CHECK("ITER", rit.base() == its[i], "base() of reverse iterator %zu", n - i);
            typename C::const_reverse_iterator cr = rit;
            VF_CHECK("ITER", cr.base() == CIt(its[i]), "base() of converted reverse iterator %zu", n - i);
            VF_CHECK("ITER", (rit == c.rend()) == (i == 0), "rend");
            if (i == 0)
                break;
            VF_CHECK("ITER", rit->first == its[i - 1]->first && cr->first == its[i - 1]->first, "reverse iterator denotes the wrong entry");
            auto old = rit++;
            auto back = rit;
            --back;
            VF_CHECK("ITER", back == old, "reverse decrement does not undo increment");
        }
        VF_CHECK("ITER", std::distance(cc.begin(), cc.end()) == static_cast<std::ptrdiff_t>(n), "distance");
        VF_CHECK("ITER", std::distance(cc.rbegin(), cc.rend()) == static_cast<std::ptrdiff_t>(n), "reverse distance");
        // iterators stay valid over insertions and erasures of other keys
        if (n > 0)
        {
            const std::size_t k = m.next(g_rng.below(N()));
            if (k < N())
            {
                auto keep = c.find(keys()[k]);
                for (int s = 0; s < 6; s++)
                {
                    const std::size_t o = g_rng.below(N());
                    if (o == k)
                        continue;
                    if (g_rng.chance(1, 2))
                        insert_one(b, m, 3, o, 333);
                    else
                    {
                        LIB(c.erase(keys()[o]));
                        erase_key(m, o);
                    }
                }
                VF_CHECK("STABLE", keep == c.find(keys()[k]) && keep->first == keys()[k] && val(keep->second) == m.v[k], "iterator invalidated by changes of other entries");
                auto nx = keep;
                ++nx;
                check_it(c, nx, m, m.next(k + 1), "increment of a kept iterator");
            }
        }
    }
    static void value_case()
    {
        Box<C> a, b;
        Model ma(N()), mb(N());
        const std::uint64_t mask = random_mask();
        build(a, ma, mask, 50);
        const int how = static_cast<int>(g_rng.below(4));
        build(b, mb, how == 0 ? mask : random_mask(), how <= 1 ? 50 : 60);
        if (how == 3 && g_rng.chance(1, 2))
        {
            // same but for one value
            LIB(b->clear());
            mb = Model(N());
            for (std::size_t k = 0; k < N(); k++)
                if (ma.v[k] >= 0)
                    insert_one(b, mb, 3, k, ma.v[k]);
            const std::size_t k = mb.next(g_rng.below(N()));
            if constexpr (ASSIGN)
                if (k < N())
                    insert_one(b, mb, 9, k, 901);
        }
        auto eq = [](Model& x, Model& y) { return x.v == y.v; };
        VF_CHECK("VALUE", (*a == *b) == eq(ma, mb) && (*b == *a) == eq(ma, mb), "operator== is %d", *a == *b);
        VF_CHECK("VALUE", (*a != *b) == !eq(ma, mb), "operator!=");
        const int op = static_cast<int>(g_rng.below(7));
        auto refill = [&](Box<C>& x)
        {
            Model m(N());
            LIB(x->clear());
            verify(x, m, "VALUE");
            build(x, m, random_mask(), 70);
            verify(x, m, "VALUE");
        };
        switch (op)
        {
        case 0:
            if constexpr (COPY)
            {
                trace("copy construct");
                Box<C> d(std::in_place, std::as_const(*a));
                Model md = ma;
                std::fill(md.at.begin(), md.at.end(), nullptr);
                verify(d, md, "VALUE");
                VF_CHECK("VALUE", *d == *a, "copy differs");
                for (int s = 0; s < 8; s++)
                    one_op(d, md);
                verify(d, md, "VALUE");
                verify(a, ma, "VALUE");
            }
            break;
        case 1:
        {
            trace("move construct");
            Box<C> d(std::in_place, std::move(*a));
            Model md = ma;
            std::fill(md.at.begin(), md.at.end(), nullptr);
            verify(d, md, "VALUE");
            refill(a);
            verify(d, md, "VALUE");
            break;
        }
        case 2:
            if constexpr (COPY && CASSIGN)
            {
                trace("copy assign");
                LIB(*b = std::as_const(*a));
                mb = ma;
                std::fill(mb.at.begin(), mb.at.end(), nullptr);
                verify(b, mb, "VALUE");
                for (int s = 0; s < 8; s++)
                    one_op(b, mb);
                verify(b, mb, "VALUE");
                verify(a, ma, "VALUE");
            }
            break;
        case 3:
            if constexpr (ASSIGN)
            {
                trace("move assign");
                LIB(*b = std::move(*a));
                mb = ma;
                std::fill(mb.at.begin(), mb.at.end(), nullptr);
                verify(b, mb, "VALUE");
                refill(a);
                verify(b, mb, "VALUE");
            }
            break;
        case 4:
            if constexpr (COPY && CASSIGN)
            {
                trace("self assign");
                C& r = *a;
                LIB(*a = r);
                verify(a, ma, "VALUE");
                LIB(*a = std::move(r));
                refill(a);
            }
            break;
        case 5:
            if constexpr (ASSIGN)
            {
                trace("swap");
                LIB(std::swap(*a, *b));
                std::swap(ma, mb);
                std::fill(mb.at.begin(), mb.at.end(), nullptr);
                std::fill(ma.at.begin(), ma.at.end(), nullptr);
                verify(a, ma, "VALUE");
                verify(b, mb, "VALUE");
            }
            break;
        case 6:
            if constexpr (COPY)
            {
                fc::EnumMap<K, V> other(a->begin(), a->end());
                VF_CHECK("VALUE", (*a == other) && (*b == other) == eq(ma, mb), "operator== with another checking policy");
            }
            break;
        }
    }
    static void ctor_case()
    {
        if constexpr (COPY)
        {
            std::vector<PairV> src;
            Model m(N());
            const std::size_t cnt = g_rng.below(N() + 3);
            for (std::size_t i = 0; i < cnt; i++)
            {
                const std::size_t k = g_rng.below(N());
                const int v = static_cast<int>(1 + g_rng.below(900));
                src.emplace_back(keys()[k], V(v));
                if (m.v[k] < 0)
                    m.v[k] = v;
            }
            switch (g_rng.below(5))
            {
            case 0:
            {
                trace("range ctor");
                Box<C> b(std::in_place, src.begin(), src.end());
                verify(b, m);
                break;
            }
            case 1:
            {
                trace("ilist ctor");
                const std::size_t x = g_rng.below(N()), y = g_rng.below(N());
                Model m2(N());
                m2.v[x] = 5;
                if (m2.v[y] < 0)
                    m2.v[y] = 6;
                Box<C> b([&] { return C{PairV(keys()[x], V(5)), PairV(keys()[y], V(6)), PairV(keys()[x], V(7))}; });
                verify(b, m2);
                break;
            }
            case 2:
            {
                trace("create_with_keys");
                std::vector<K> ks;
                Model m2(N());
                for (std::size_t i = 0; i < N(); i++)
                    if (g_rng.chance(1, 2))
                    {
                        ks.push_back(keys()[i]);
                        m2.v[i] = 88;
                    }
                if (!ks.empty() && g_rng.chance(1, 2))
                    ks.push_back(ks[0]);
                const V value(88);
                Box<C> b([&] { return C::create_with_keys(ks, value); });
                verify(b, m2);
                break;
            }
            case 3:
            {
                trace("builder");
                Box<C> b(
                    [&]
                    {
                        typename C::Builder bl;
                        const auto how = g_rng.below(7);
                        auto pr = [&](std::size_t i) { return src[i]; };
                        if (how == 0)
                            bl.insert(src.begin(), src.end());
                        else if (how == 1)
                            return std::move(bl).insert(src.begin(), src.end()).build();
                        else
                            for (std::size_t i = 0; i < src.size(); i++)
                            {
                                const PairV e = pr(i);
                                typename C::Builder* r = nullptr;
                                if (how == 2)
                                    r = std::addressof(bl.insert(e));
                                else if (how == 3)
                                    r = std::addressof(bl.insert(PairV(e)));
                                else if (how == 4)
                                    r = std::addressof(bl.insert({e, e}));
                                else if (how == 5)
                                    r = (i % 2 ? [](auto&& x) { return std::addressof(x); }(std::move(bl).insert(e)) : [](auto&& x) { return std::addressof(x); }(std::move(bl).insert(PairV(e))));
                                else
                                    r = [](auto&& x) { return std::addressof(x); }(std::move(bl).insert({e}));
                                VF_CHECK("MODEL", r == &bl, "insert returned another builder");
                            }
                        if (g_rng.chance(1, 2))
                            return bl.build();
                        return std::move(bl).build();
                    });
                verify(b, m);
                break;
            }
            case 4:
            {
                trace("create_with_all_entries");
                std::vector<PairV> allp;
                Model m2(N());
                std::vector<std::size_t> ord2(N());
                for (std::size_t i = 0; i < N(); i++)
                    ord2[i] = i;
                for (std::size_t i = N(); i > 1; i--)
                    std::swap(ord2[i - 1], ord2[g_rng.below(i)]);
                for (std::size_t i : ord2)
                {
                    allp.emplace_back(keys()[i], V(100 + static_cast<int>(i)));
                    m2.v[i] = 100 + static_cast<int>(i);
                }
                Box<C> b([&] { return C::create_with_all_entries(allp); });
                verify(b, m2);
                break;
            }
            }
        }
    }
    static void check_case()
    {
        // misuse is abandoned with a long jump, so it runs on a scratch object that is then leaked
        Model m(N());
        auto* leak = new Box<C>();
        build(*leak, m, random_mask(), 80);
        C& c = **leak;
        const std::size_t k = g_rng.below(N());
        const bool has = m.v[k] >= 0;
        switch (g_rng.below(6))
        {
        case 4:
        {
            std::size_t p = g_rng.below(N()), q = g_rng.below(N());
            if (p > q)
                std::swap(p, q);
            if (p == q || m.v[p] < 0 || m.v[q] < 0)
                break;
            trace("erase(%zu, %zu)", q, p);
            auto h = catch_hit([&] { c.erase(c.find(keys()[q]), c.find(keys()[p])); });
            VF_CHECK("CHECK", h.hit == Hit::ABORT, "erase(last < first) ended with %s", hit_name(h.hit));
            break;
        }
        case 5:
        {
            if (!has)
                break;
            trace("erase %zu twice", k);
            auto it = c.find(keys()[k]);
            c.erase(it);
            m.v[k] = -1;
            m.at[k] = nullptr;
            const bool konst = g_rng.chance(1, 2);
            auto h = catch_hit([&] {
                if (konst)
                    c.erase(typename C::const_iterator{it});
                else
                    c.erase(it);
            });
            VF_CHECK("CHECK", h.hit == Hit::ABORT, "erasing an entry that is gone ended with %s", hit_name(h.hit));
            break;
        }
        case 0:
        {
            trace("at %zu", k);
            const unsigned line = __LINE__ + 1;
            auto h = catch_hit([&] { (void)c.at(keys()[k]); });
            VF_CHECK("CHECK", h.hit == (has ? Hit::NONE : Hit::OUT_OF_RANGE), "at of a %s key: handler %s", has ? "present" : "missing", hit_name(h.hit));
            if (!has)
            {
                VF_CHECK("CHECK", h.a == k && h.b == m.size(), "out_of_range reported with key %zu size %zu", h.a, h.b);
                VF_CHECK("CHECK", h.line == line && strcmp(h.file, __FILE__) == 0, "reported location is %s:%u", h.file, h.line);
            }
            break;
        }
        case 1:
        {
            trace("const at %zu", k);
            auto h = catch_hit([&] { (void)std::as_const(c).at(keys()[k]); });
            VF_CHECK("CHECK", h.hit == (has ? Hit::NONE : Hit::OUT_OF_RANGE), "const at of a %s key: handler %s", has ? "present" : "missing", hit_name(h.hit));
            if (!has)
                VF_CHECK("CHECK", h.a == k && h.b == m.size(), "out_of_range reported with key %zu size %zu", h.a, h.b);
            break;
        }
        case 2:
        {
            trace("erase end");
            auto h = catch_hit([&] { c.erase(c.cend()); });
            VF_CHECK("CHECK", h.hit == Hit::ABORT, "erase(end()) ended with %s", hit_name(h.hit));
            break;
        }
        case 3:
            if constexpr (COPY)
            {
                std::vector<PairV> p;
                std::vector<int> cnt(N(), 0);
                for (std::size_t i = 0; i < N(); i++)
                {
                    const int times = g_rng.chance(1, static_cast<unsigned>(N())) ? (g_rng.chance(1, 2) ? 0 : 2) : 1;
                    for (int t = 0; t < times; t++)
                        p.emplace_back(keys()[i], V(static_cast<int>(i)));
                    cnt[i] = times;
                }
                const bool dup = std::count(cnt.begin(), cnt.end(), 2) > 0, miss = std::count(cnt.begin(), cnt.end(), 0) > 0;
                trace("create_with_all_entries dup %d missing %d", dup, miss);
                g_ehit = EHit::NONE;
                auto* p2 = new std::vector<PairV>(p);
                auto h = catch_hit([&] { delete new C(C::create_with_all_entries(*p2)); });
                VF_CHECK("CHECK", (h.hit != Hit::NONE) == (dup || miss), "create_with_all_entries accepted=%d", h.hit == Hit::NONE);
                if (dup || miss)
                    VF_CHECK("CHECK", g_ehit == (dup ? EHit::DUPLICATE : EHit::MISSING), "wrong handler");
                if (h.hit == Hit::NONE)
                    delete p2;
                else
                    return;  // the abandoned call leaves live elements behind
            }
            break;
        }
        verify(*leak, m, "CHECK");
        delete leak;
    }
    static void reloc_case()
    {
        auto b = std::make_unique<Box<C>>();
        Model m(N());
        build(*b, m, random_mask(), 90);
        Box<C> d;
        memcpy(static_cast<void*>(std::addressof(*d)), static_cast<const void*>(std::addressof(**b)), sizeof(C));
        memset(static_cast<void*>(std::addressof(**b)), 0xEE, sizeof(C));
        b.reset();
        std::fill(m.at.begin(), m.at.end(), nullptr);
        trace("relocated");
        verify(d, m, "RELOC");
        for (int s = 0; s < 10; s++)
            one_op(d, m);
        verify(d, m, "RELOC");
    }
};

// ---------------------------------------------------------------- EnumSet
template <class K>
struct ES
{
    using C = fc::EnumSet<K>;
    using Model = std::vector<char>;
    static const std::vector<K>& keys()
    {
        static const std::vector<K> k = Keys<K>::all();
        return k;
    }
    static std::size_t N() { return keys().size(); }
    static std::size_t next(const Model& m, std::size_t i)
    {
        while (i < m.size() && !m[i])
            i++;
        return i;
    }
    static std::size_t size(const Model& m) { return static_cast<std::size_t>(std::count(m.begin(), m.end(), 1)); }
    static void verify(const C& c, const Model& m, const char* kind = "MODEL")
    {
        const std::size_t n = size(m);
        VF_CHECK(kind, c.size() == n && c.empty() == (n == 0) && c.max_size() == N() && C::static_max_size() == N() && fc::is_full(c) == (n == N()), "size() is %zu, expected %zu", c.size(), n);
        std::vector<K> want, got;
        for (std::size_t i = 0; i < N(); i++)
            if (m[i])
                want.push_back(keys()[i]);
        for (const K& k : c)
        {
            VF_CHECK("ITER", got.size() < want.size(), "iteration visits too many keys");
            got.push_back(k);
        }
        VF_CHECK(kind, got == want, "iteration visits the wrong keys");
        got.clear();
        for (auto it = c.rbegin(); it != c.rend(); ++it)
        {
            VF_CHECK("ITER", got.size() < want.size(), "reverse iteration visits too many keys");
            got.push_back(*it);
        }
        std::reverse(got.begin(), got.end());
        VF_CHECK("ITER", got == want, "reverse iteration visits the wrong keys");
        got.clear();
        for (auto it = c.end(); it != c.begin();)
            got.push_back(*--it);
        std::reverse(got.begin(), got.end());
        VF_CHECK("ITER", got == want, "backward iteration visits the wrong keys");
        for (std::size_t i = 0; i < N(); i++)
        {
            VF_CHECK(kind, c.contains(keys()[i]) == (m[i] != 0), "contains(%zu)", i);
            auto f = c.find(keys()[i]);
            VF_CHECK(kind, (f != c.end()) == (m[i] != 0), "find(%zu)", i);
            if (m[i])
                VF_CHECK(kind, *f == keys()[i] && std::addressof(*f) == f.operator->(), "find(%zu) denotes another key", i);
        }
        std::uint64_t h = 0;
        for (char x : m)
            h = h * 2 + static_cast<std::uint64_t>(x);
        cover(h);
    }
    static void check_it(const C& c, typename C::const_iterator it, const Model& m, std::size_t k, const char* what)
    {
        if (k >= N())
            VF_CHECK("MODEL", it == c.end(), "%s: result is not end()", what);
        else
            VF_CHECK("MODEL", it != c.end() && *it == keys()[k], "%s: result does not denote key %zu", what, k);
    }
    static void op(C& c, Model& m, int r, std::size_t k, std::size_t k2)
    {
        const K key = keys()[k];
        switch (r)
        {
        case 0:
        case 1:
        {
            trace("insert %zu", k);
            auto res = r == 0 ? LIB(c.insert(key)) : LIB(c.emplace(key));
            VF_CHECK("MODEL", res.second == !m[k], "insert returned %d", res.second);
            m[k] = 1;
            check_it(c, res.first, m, k, "insert");
            break;
        }
        case 2:
        {
            trace("insert hint %zu", k);
            auto it = g_rng.chance(1, 2) ? LIB(c.insert(c.begin(), key)) : LIB(c.emplace_hint(c.end(), key));
            m[k] = 1;
            check_it(c, it, m, k, "insert(hint)");
            break;
        }
        case 3:
            trace("insert list %zu %zu", k, k2);
            LIB(c.insert({keys()[k], keys()[k2], keys()[k]}));
            m[k] = m[k2] = 1;
            break;
        case 4:
        {
            trace("insert range from %zu", k);
            std::vector<K> v(keys().begin() + static_cast<std::ptrdiff_t>(std::min(k, k2)), keys().begin() + static_cast<std::ptrdiff_t>(std::max(k, k2)));
            LIB(c.insert(v.begin(), v.end()));
            for (std::size_t i = std::min(k, k2); i < std::max(k, k2); i++)
                m[i] = 1;
            break;
        }
        case 5:
        {
            trace("erase %zu", k);
            VF_CHECK("MODEL", LIB(c.erase(key)) == (m[k] ? 1u : 0u), "erase(key) result");
            m[k] = 0;
            break;
        }
        case 6:
        {
            const std::size_t e = next(m, k);
            if (e >= N())
                break;
            trace("erase it %zu", e);
            auto it = LIB(c.erase(c.find(keys()[e])));
            m[e] = 0;
            check_it(c, it, m, next(m, e), "erase(iterator)");
            break;
        }
        case 7:
        {
            std::size_t a = next(m, std::min(k, k2)), z = next(m, std::max(k, k2) + 1 > N() ? N() : std::max(k, k2) + (g_rng.chance(1, 2) ? 1 : 0));
            if (a > z)
                std::swap(a, z);
            trace("erase [%zu,%zu)", a, z);
            auto fi = [&](std::size_t i) { return i >= N() ? c.cend() : c.find(keys()[i]); };
            auto it = LIB(c.erase(fi(a), fi(z)));
            for (std::size_t i = a; i < z; i++)
                m[i] = 0;
            check_it(c, it, m, z, "erase(range)");
            break;
        }
        case 8:
            if (g_rng.chance(1, 4))
            {
                trace("clear");
                LIB(c.clear());
                std::fill(m.begin(), m.end(), 0);
            }
            break;
        case 9:
        {
            trace("erase_if");
            auto n = LIB(fc::erase_if(c, [&](const K& x) { return fc::rich_enums::EnumAdapter<K>::ordinal(x) % 2 == k % 2; }));
            std::size_t w = 0;
            for (std::size_t i = 0; i < N(); i++)
                if (m[i] && i % 2 == k % 2)
                {
                    m[i] = 0;
                    w++;
                }
            VF_CHECK("MODEL", n == w, "erase_if returned %zu", static_cast<std::size_t>(n));
            break;
        }
        }
    }
    static void fill(C& c, Model& m)
    {
        for (std::size_t i = 0; i < N(); i++)
            if (g_rng.chance(1, 2))
            {
                LIB(c.insert(keys()[i]));
                m[i] = 1;
            }
    }
    static void add(std::size_t w)
    {
        const std::string id = std::string("enum_set<") + Keys<K>::name + ">";
        if (VF_SUITES & 1)
            add_group("model",
                      id + "/model",
                      [=]
                      {
                          const std::size_t n = n_cases(w);
                          for (std::size_t i = 0; i < n; i++)
                              run_case(id,
                                       [&]
                                       {
                                           Box<C> b;
                                           Model m(N(), 0);
                                           for (std::size_t s = 0, e = 5 + g_rng.below(50); s < e; s++)
                                           {
                                               op(*b, m, static_cast<int>(g_rng.below(10)), g_rng.below(N()), g_rng.below(N()));
                                               verify(*b, m);
                                           }
                                       });
                          if (N() <= 7)
                              for (std::uint64_t mask = 0; mask < (1u << N()); mask++)
                                  for (int r = 0; r < 10; r++)
                                      for (std::size_t k = 0; k < N(); k++)
                                          for (std::size_t k2 = 0; k2 < N(); k2++)
                                              run_case(id,
                                                       [&]
                                                       {
                                                           Box<C> b;
                                                           Model m(N(), 0);
                                                           for (std::size_t i = 0; i < N(); i++)
                                                               if ((mask >> i) & 1)
                                                               {
                                                                   b->insert(keys()[i]);
                                                                   m[i] = 1;
                                                               }
                                                           op(*b, m, r, k, k2);
                                                           verify(*b, m);
                                                       });
                      });
        if (VF_SUITES & 8)
            add_group("iter",
                      id + "/iter",
                      [=]
                      {
                          const std::size_t n = n_cases(w);
                          for (std::size_t i = 0; i < n; i++)
                              run_case(id,
                                       [&]
                                       {
                                           Box<C> b;
                                           Model m(N(), 0);
                                           fill(*b, m);
                                           const C& c = *b;
                                           verify(c, m, "ITER");
                                           std::vector<typename C::const_iterator> its;
                                           for (auto it = c.begin();; it++)
                                           {
                                               its.push_back(it);
                                               if (it == c.end())
                                                   break;
                                           }
                                           const std::size_t sz = size(m);
                                           VF_CHECK("ITER", its.size() == sz + 1, "range length");
                                           for (std::size_t x = 0; x <= sz; x++)
                                               for (std::size_t y = 0; y <= sz; y++)
                                                   VF_CHECK("ITER", (its[x] == its[y]) == (x == y), "iterator equality");
                                           auto rit = c.rbegin();
                                           for (std::size_t x = sz;; x--)
                                           {
                                               VF_CHECK("ITER", rit.base() == its[x] && (rit == c.rend()) == (x == 0), "base of reverse iterator");
                                               if (x == 0)
                                                   break;
                                               VF_CHECK("ITER", *rit == *its[x - 1], "reverse iterator denotes the wrong key");
                                               auto old = rit++;
                                               auto bk = rit;
                                               VF_CHECK("ITER", --bk == old, "reverse decrement");
                                           }
                                           VF_CHECK("ITER", typename C::const_iterator{} == typename C::const_iterator{}, "value-initialised iterators");
                                           VF_CHECK("ITER", typename C::const_reverse_iterator{} == typename C::const_reverse_iterator{}, "value-initialised iterators");
                                       });
                      });
        if (VF_SUITES & (4 | 2))
            add_group("value",
                      id + "/value",
                      [=]
                      {
                          const std::size_t n = n_cases(w);
                          for (std::size_t i = 0; i < n; i++)
                              run_case(id, [&] { value_case(); });
                      });
        if (VF_SUITES & 64)
            add_group("check",
                      id + "/check",
                      [=]
                      {
                          const std::size_t n = n_cases(w / 2 + 5);
                          for (std::size_t i = 0; i < n; i++)
                              run_case(id,
                                       [&]
                                       {
                                           Box<C> b;
                                           Model m(N(), 0);
                                           fill(*b, m);
                                           C& c = *b;
                                           auto h = catch_hit([&] { c.erase(c.cend()); });
                                           VF_CHECK("CHECK", h.hit == Hit::ABORT, "erase(end()) ended with %s", hit_name(h.hit));
                                           verify(c, m, "CHECK");
                                           const std::size_t k = g_rng.below(N()), k2 = g_rng.below(N());
                                           trace("keys %zu %zu", k, k2);
                                           if (k > k2 && m[k] && m[k2])
                                           {
                                               h = catch_hit([&] { c.erase(c.find(keys()[k]), c.find(keys()[k2])); });
                                               VF_CHECK("CHECK", h.hit == Hit::ABORT, "erase(last < first) ended with %s", hit_name(h.hit));
                                               verify(c, m, "CHECK");
                                           }
                                           if (m[k])
                                           {
                                               const auto it = c.find(keys()[k]);
                                               c.erase(it);
                                               m[k] = 0;
                                               h = catch_hit([&] { c.erase(it); });
                                               VF_CHECK("CHECK", h.hit == Hit::ABORT, "erasing a key that is gone ended with %s", hit_name(h.hit));
                                               verify(c, m, "CHECK");
                                           }
                                           cover(mix(k, size(m)));
                                       });
                      });
        if (VF_SUITES & 32)
            add_group("reloc",
                      id + "/reloc",
                      [=]
                      {
                          const std::size_t n = n_cases(w / 4);
                          for (std::size_t i = 0; i < n; i++)
                              run_case(id,
                                       [&]
                                       {
                                           auto b = std::make_unique<Box<C>>();
                                           Model m(N(), 0);
                                           fill(**b, m);
                                           Box<C> d;
                                           memcpy(static_cast<void*>(std::addressof(*d)), static_cast<const void*>(std::addressof(**b)), sizeof(C));
                                           memset(static_cast<void*>(std::addressof(**b)), 0xEE, sizeof(C));
                                           b.reset();
                                           verify(*d, m, "RELOC");
                                           for (int s = 0; s < 8; s++)
                                               op(*d, m, static_cast<int>(g_rng.below(10)), g_rng.below(N()), g_rng.below(N()));
                                           verify(*d, m, "RELOC");
                                       });
                      });
    }
    static void value_case()
    {
        Box<C> a, b;
        Model ma(N(), 0), mb(N(), 0);
        fill(*a, ma);
        fill(*b, mb);
        if (g_rng.chance(1, 3))
        {
            for (std::size_t i = N(); i-- > 0;)
            {
                b->insert(keys()[i]);
                if (!ma[i])
                    b->erase(keys()[i]);
            }
            mb = ma;
        }
        VF_CHECK("VALUE", (*a == *b) == (ma == mb) && (*a != *b) == (ma != mb), "equality");
        if constexpr (requires { *a <=> *b; })
        {
            std::vector<K> ka, kb;
            for (std::size_t i = 0; i < N(); i++)
            {
                if (ma[i])
                    ka.push_back(keys()[i]);
                if (mb[i])
                    kb.push_back(keys()[i]);
            }
            const bool lt = std::lexicographical_compare(ka.begin(), ka.end(), kb.begin(), kb.end());
            const bool gt = std::lexicographical_compare(kb.begin(), kb.end(), ka.begin(), ka.end());
            VF_CHECK("VALUE", (*a < *b) == lt && (*a > *b) == gt && (*a <= *b) == !gt && (*a >= *b) == !lt, "ordering");
        }
        switch (g_rng.below(8))
        {
        case 0:
        {
            Box<C> d(std::in_place, std::as_const(*a));
            verify(*d, ma, "VALUE");
            d->clear();
            verify(*a, ma, "VALUE");
            break;
        }
        case 1:
            LIB(*b = *a);
            verify(*b, ma, "VALUE");
            break;
        case 2:
            LIB(std::swap(*a, *b));
            verify(*b, ma, "VALUE");
            verify(*a, mb, "VALUE");
            break;
        case 3:
        {
            auto d = C::all();
            verify(d, Model(N(), 1), "MODEL");
            auto e = C::none();
            verify(e, Model(N(), 0), "MODEL");
            break;
        }
        case 4:
        {
            auto d = C::complement_of(*a);
            Model md = ma;
            for (auto& x : md)
                x = !x;
            verify(d, md, "MODEL");
            std::vector<K> some{keys()[g_rng.below(N())]};
            some.push_back(some[0]);
            auto e = C::complement_of(some);
            VF_CHECK("MODEL", e.size() == N() - 1 && !e.contains(some[0]), "complement_of a vector");
            break;
        }
        case 5:
        {
            std::vector<K> v;
            for (std::size_t i = N(); i-- > 0;)
                if (ma[i])
                {
                    v.push_back(keys()[i]);
                    v.push_back(keys()[i]);
                }
            auto d = C::copy_of(v);
            verify(d, ma, "MODEL");
            C e(v.begin(), v.end());
            verify(e, ma, "MODEL");
            auto f = C::copy_of(*a);
            verify(f, ma, "MODEL");
            break;
        }
        case 6:
        {
            typename C::Builder bl;
            Model m(N(), 0);
            for (int s = 0; s < 10; s++)
            {
                const std::size_t k = g_rng.below(N());
                const std::size_t k2 = g_rng.below(N());
                auto same = [&](auto&& x) { VF_CHECK("MODEL", std::addressof(x) == &bl, "insert returned another builder"); };
                switch (g_rng.below(9))
                {
                case 4:
                    same(bl.insert({keys()[k], keys()[k2]}));
                    m[k] = m[k2] = 1;
                    break;
                case 5:
                    same(std::move(bl).insert({keys()[k], keys()[k2]}));
                    m[k] = m[k2] = 1;
                    break;
                case 6:
                    same(std::move(bl).insert(a->begin(), a->end()));
                    for (std::size_t i = 0; i < N(); i++)
                        m[i] |= ma[i];
                    break;
                case 7:
                    same(std::move(bl).insert(*a));
                    for (std::size_t i = 0; i < N(); i++)
                        m[i] |= ma[i];
                    break;
                case 8:
                    same(std::move(bl).insert(keys()[k]).erase(keys()[k2]));
                    m[k] = 1;
                    m[k2] = 0;
                    break;
                case 0:
                    bl.insert(keys()[k]);
                    m[k] = 1;
                    break;
                case 1:
                    bl.erase(keys()[k]);
                    m[k] = 0;
                    break;
                case 2:
                    bl.insert(*a);
                    for (std::size_t i = 0; i < N(); i++)
                        m[i] |= ma[i];
                    break;
                case 3:
                    bl.insert(a->begin(), a->end());
                    for (std::size_t i = 0; i < N(); i++)
                        m[i] |= ma[i];
                    break;
                }
            }
            auto d = bl.build();
            verify(d, m, "MODEL");
            auto e = std::move(bl).insert(keys()[0]).erase(keys()[0]).build();
            m[0] = 0;
            verify(e, m, "MODEL");
            break;
        }
        case 7:
        {
            const std::size_t x = g_rng.below(N()), y = g_rng.below(N());
            Model m(N(), 0);
            m[x] = m[y] = 1;
            C d{keys()[x], keys()[y], keys()[x]};
            verify(d, m, "MODEL");
            break;
        }
        }
    }
};

// ---------------------------------------------------------------- EnumArray
template <class L, class T>
struct EA
{
    using C = fc::EnumArray<L, T>;
    static const std::vector<L>& keys()
    {
        static const std::vector<L> k = Keys<L>::all();
        return k;
    }
    static std::size_t N() { return keys().size(); }
    static void verify(Box<C>& b, const std::vector<int>& m, const char* kind = "MODEL")
    {
        C& c = *b;
        const C& cc = c;
        VF_CHECK(kind, cc.size() == N() && cc.max_size() == N() && cc.empty() == (N() == 0), "size");
        if (El<T>::tracked)
            VF_CHECK("LIFE", b.live() == static_cast<long>(N()), "%ld values alive", b.live());
        for (std::size_t i = 0; i < N(); i++)
        {
            VF_CHECK(kind, val(cc[keys()[i]]) == m[i] && val(c[keys()[i]]) == m[i], "operator[] of label %zu is %d, expected %d", i, val(cc[keys()[i]]), m[i]);
            VF_CHECK(kind, val(cc.at(keys()[i])) == m[i] && val(c.at(keys()[i])) == m[i], "at of label %zu", i);
            VF_CHECK(kind, std::addressof(c[keys()[i]]) == c.data() + i && cc.labels()[i] == keys()[i], "layout of label %zu", i);
        }
        std::size_t i = 0;
        for (auto& x : cc)
            VF_CHECK("ITER", i < N() && val(x) == m[i++], "iteration");
        VF_CHECK("ITER", i == N(), "iteration length");
        for (auto it = cc.rbegin(); it != cc.rend(); ++it)
            VF_CHECK("ITER", i > 0 && val(*it) == m[--i], "reverse iteration");
        VF_CHECK(kind, val(cc.front()) == m.front() && val(cc.back()) == m.back(), "front/back");
        VF_CHECK(kind, std::addressof(c.front()) == c.data() && std::addressof(c.back()) == c.data() + (N() - 1) && std::addressof(cc.front()) == cc.data() && cc.data() == c.data(), "front/back/data of the mutable array");
        auto all = [&](const char* what, auto f, auto l, bool rev)
        {
            VF_CHECK("ITER", static_cast<std::size_t>(l - f) == N(), "%s covers %td of %zu entries", what, l - f, N());
            std::size_t j = 0;
            for (; f != l && j < N(); ++f, ++j)
                VF_CHECK("ITER", std::addressof(*f) == cc.data() + (rev ? N() - 1 - j : j), "%s refers to another entry at %zu", what, j);
            VF_CHECK("ITER", j == N() && f == l, "%s ends at %zu", what, j);
        };
        all("begin/end", c.begin(), c.end(), false);
        all("begin/end const", cc.begin(), cc.end(), false);
        all("cbegin/cend", c.cbegin(), c.cend(), false);
        all("rbegin/rend", c.rbegin(), c.rend(), true);
        all("rbegin/rend const", cc.rbegin(), cc.rend(), true);
        all("crbegin/crend", c.crbegin(), c.crend(), true);
    }
    static void add(const char* tn, std::size_t w)
    {
        const std::string id = std::string("enum_array<") + Keys<L>::name + "," + tn + ">";
        if (VF_SUITES & 1)
            add_group("model",
                      id + "/model",
                      [=]
                      {
                          g_alloc_monitor_on = !El<T>::allocates;
                          const std::size_t n = n_cases(w);
                          for (std::size_t i = 0; i < n; i++)
                              run_case(id, [&] { model_case(); });
                      });
        if (VF_SUITES & 4)
            add_group("value",
                      id + "/value",
                      [=]
                      {
                          g_alloc_monitor_on = !El<T>::allocates;
                          const std::size_t n = n_cases(w);
                          for (std::size_t i = 0; i < n; i++)
                              run_case(id,
                                       [&]
                                       {
                                           Box<C> a, b;
                                           std::vector<int> ma(N()), mb(N());
                                           for (std::size_t k = 0; k < N(); k++)
                                           {
                                               ma[k] = static_cast<int>(g_rng.below(3));
                                               mb[k] = g_rng.chance(1, 5) ? static_cast<int>(g_rng.below(3)) : ma[k];
                                               (*a)[keys()[k]] = T(ma[k]);
                                               (*b)[keys()[k]] = T(mb[k]);
                                           }
                                           VF_CHECK("VALUE", (*a == *b) == (ma == mb), "equality");
                                           VF_CHECK("VALUE", (*a < *b) == (ma < mb) && (*a > *b) == (ma > mb), "ordering");
                                           switch (g_rng.below(3))
                                           {
                                           case 0:
                                           {
                                               Box<C> d(std::in_place, std::as_const(*a));
                                               verify(d, ma, "VALUE");
                                               d->fill(T(7));
                                               verify(a, ma, "VALUE");
                                               break;
                                           }
                                           case 1:
                                               LIB(*b = *a);
                                               verify(b, ma, "VALUE");
                                               break;
                                           case 2:
                                               LIB(a->swap(*b));
                                               verify(a, mb, "VALUE");
                                               verify(b, ma, "VALUE");
                                               break;
                                           }
                                       });
                      });
    }
    static void model_case()
    {
        std::vector<int> m(N(), 0);
        std::unique_ptr<Box<C>> b;
        switch (g_rng.below(3))
        {
        case 0: b = std::make_unique<Box<C>>(); break;
        case 1:
        {
            const std::size_t x = g_rng.below(N()), y = g_rng.below(N());
            b = std::make_unique<Box<C>>([&] { return C{std::pair<const L, T>(keys()[x], T(4)), std::pair<const L, T>(keys()[y], T(9))}; });
            m[x] = 4;
            m[y] = 9;
            break;
        }
        case 2:
        {
            std::map<std::size_t, int> src;
            std::vector<std::pair<L, T>> pr;
            for (std::size_t i = 0; i < N(); i++)
                if (g_rng.chance(1, 2))
                {
                    m[i] = static_cast<int>(g_rng.below(900));
                    pr.emplace_back(keys()[i], T(m[i]));
                }
            std::reverse(pr.begin(), pr.end());
            b = std::make_unique<Box<C>>(std::in_place, fc::std_transition::from_range_t{}, pr);
            break;
        }
        }
        verify(*b, m);
        for (int s = 0; s < 20; s++)
        {
            const std::size_t k = g_rng.below(N());
            const int v = static_cast<int>(g_rng.below(900));
            switch (g_rng.below(7))
            {
            case 4:
                LIB((*b)->front() = T(v));
                m.front() = v;
                break;
            case 5:
                LIB((*b)->back() = T(v));
                m.back() = v;
                break;
            case 6:
                LIB(*((*b)->rbegin() + static_cast<std::ptrdiff_t>(k)) = T(v));
                m[N() - 1 - k] = v;
                break;
            case 0:
                LIB((**b)[keys()[k]] = T(v));
                m[k] = v;
                break;
            case 1:
                LIB((*b)->at(keys()[k]) = T(v));
                m[k] = v;
                break;
            case 2:
                if (g_rng.chance(1, 4))
                {
                    const T t(v);
                    LIB((*b)->fill(t));
                    std::fill(m.begin(), m.end(), v);
                }
                break;
            case 3:
                LIB(*((*b)->begin() + static_cast<std::ptrdiff_t>(k)) = T(v));
                m[k] = v;
                break;
            }
            verify(*b, m);
            cover(mix(k, static_cast<std::uint64_t>(v)));
        }
    }
};

// create_with_all_entries with an initializer list, a list that is a template argument and entries that are template arguments
template <class M>
static void same_as(const M& m, const std::vector<std::pair<E5, int>>& want, const char* what)
{
    VF_CHECK("MODEL", m.size() == want.size(), "%s: %zu entries", what, m.size());
    std::size_t i = 0;
    for (const auto& e : m)
    {
        VF_CHECK("MODEL", i < want.size() && e.first == want[i].first && val(e.second) == want[i].second, "%s: entry %zu", what, i);
        i++;
    }
    for (const auto& [k, v] : want)
        VF_CHECK("MODEL", m.contains(k) && val(m.at(k)) == v, "%s: value of key %d", what, static_cast<int>(k));
    cover(hash_str(what));
}
template <class V>
static void all_entries_of(const char* vn)
{
    using C = fc::EnumMap<E5, V, EnumChecking<E5>>;
    add_group("ctor", std::string("enum_map<E5,") + vn + ">/create_with_all_entries of a list",
              []
              {
                  for (std::size_t c = 0, n = n_cases(60); c < n; c++)
                      run_case("ilist",
                               []
                               {
                                   E5 o[5] = {E5::A, E5::B, E5::C, E5::D, E5::E};
                                   for (std::size_t i = 5; i > 1; i--)
                                       std::swap(o[i - 1], o[g_rng.below(i)]);
                                   std::vector<std::pair<E5, int>> want;
                                   for (int i = 0; i < 5; i++)
                                       want.emplace_back(o[i], 10 + i);
                                   std::sort(want.begin(), want.end());
                                   same_as(C::create_with_all_entries({{o[0], V(10)}, {o[1], V(11)}, {o[2], V(12)}, {o[3], V(13)}, {o[4], V(14)}}), want, "list of all entries");
                                   auto h = catch_hit([&] { (void)C::create_with_all_entries({{o[0], V(10)}, {o[1], V(11)}, {o[2], V(12)}, {o[4], V(14)}}); });
                                   VF_CHECK("CHECK", h.hit != Hit::NONE, "a list without one of the entries was accepted");
                                   h = catch_hit([&] { (void)C::create_with_all_entries({{o[0], V(10)}, {o[1], V(11)}, {o[2], V(12)}, {o[3], V(13)}, {o[4], V(14)}, {o[2], V(1)}}); });
                                   VF_CHECK("CHECK", h.hit != Hit::NONE, "a list with an entry twice was accepted");
                               });
              });
}
static void all_entries()
{
    all_entries_of<int>("int");
    all_entries_of<Ntv>("Ntv");
    add_group("ctor", "enum_map/create_with_all_entries of template arguments",
              []
              {
                  run_case("template arguments",
                           []
                           {
                               using P = std::pair<E5, int>;
                               using C = fc::EnumMap<E5, int>;
                               const std::vector<std::pair<E5, int>> want = {{E5::A, 4}, {E5::B, -7}, {E5::C, 0}, {E5::D, 9}, {E5::E, 1}};
                               same_as(C::create_with_all_entries<P{E5::A, 4}, P{E5::B, -7}, P{E5::C, 0}, P{E5::D, 9}, P{E5::E, 1}>(), want, "entries in order");
                               same_as(C::create_with_all_entries<P{E5::E, 1}, P{E5::B, -7}, P{E5::A, 4}, P{E5::D, 9}, P{E5::C, 0}>(), want, "entries in another order");
                               constexpr std::array<std::pair<const E5, int>, 5> L{{{E5::D, 9}, {E5::C, 0}, {E5::E, 1}, {E5::A, 4}, {E5::B, -7}}};
                               same_as(C::create_with_all_entries<L>(), want, "a list as an argument");
                               using T1 = fc::EnumMap<vfe::E1, int>;
                               const auto one = T1::create_with_all_entries<std::pair<vfe::E1, int>{vfe::E1::ONLY, 6}>();
                               VF_CHECK("MODEL", one.size() == 1 && one.at(vfe::E1::ONLY) == 6, "the only entry");
                           });
              });
}

// EnumArray of a type without default constructor: all entries, in order
static void strict_array()
{
    using C = fc::EnumArray<E5, TrkNoDef>;
    using P = std::pair<const E5, TrkNoDef>;
    add_group("ctor",
              "enum_array<E5,TrkNoDef>/ctor",
              []
              {
                  run_case("strict",
                           []
                           {
                               {
                                   Box<C> b([] { return C({P(E5::A, TrkNoDef(1)), P(E5::B, TrkNoDef(2)), P(E5::C, TrkNoDef(3)), P(E5::D, TrkNoDef(4)), P(E5::E, TrkNoDef(5))}); });
                                   for (int i = 0; i < 5; i++)
                                       VF_CHECK("MODEL", b->at(static_cast<E5>(i)).v == i + 1, "entry %d", i);
                                   VF_CHECK("LIFE", b.live() == 5, "live");
                                   cover(1);
                               }
                           });
                  // any other order is refused
                  for (int i = 0; i < 5; i++)
                      for (int j = 0; j < 5; j++)
                          run_case("strict order",
                                   [&]
                                   {
                                       using Q = std::pair<const E5, TrkNoDef>;
                                       int o[5] = {0, 1, 2, 3, 4};
                                       std::swap(o[i], o[j]);
                                       auto* q = new std::array<Q, 5>{Q(static_cast<E5>(o[0]), TrkNoDef(0)), Q(static_cast<E5>(o[1]), TrkNoDef(1)), Q(static_cast<E5>(o[2]), TrkNoDef(2)), Q(static_cast<E5>(o[3]), TrkNoDef(3)), Q(static_cast<E5>(o[4]), TrkNoDef(4))};
                                       auto h = catch_hit([&] { new C({(*q)[0], (*q)[1], (*q)[2], (*q)[3], (*q)[4]}); });
                                       VF_CHECK("CHECK", h.hit == (i == j ? Hit::NONE : Hit::ABORT), "order with %d and %d exchanged: %s", i, j, hit_name(h.hit));
                                       cover(static_cast<std::uint64_t>(10 + i * 5 + j));
                                   });
              });
}

template <class K>
void small_set(std::size_t w)
{
    ES<K>::add(w);
}

int main(int argc, char** argv)
{
#if PART == 0
    EM<E5, int>::add("int", 500);
    EM<ESparse, TrkAll>::add("TrkAll", 500);
    EM<E1, Pod>::add("Pod", 200);
    EM<RichSparse, Heavy>::add("Heavy", 400);
#elif PART == 1
    EM<EUnscoped, TrkMove>::add("TrkMove", 400);
    EM<E70, TrkAll>::add("TrkAll", 150);
    EM<RichNd, TrkCopy>::add("TrkCopy", 400);
    EM<Coin, TrkAll>::add("TrkAll", 400);
#elif PART == 2
    EM<RichBool, int>::add("int", 300);
    EM<RichLite, Pod>::add("Pod", 400);
    EM<E70, int>::add("int", 150);
    EM<Tone, int>::add("int", 80);
    EM<E5, TrkNoAssign>::add("TrkNoAssign", 400);
#elif PART == 3
    ES<E5>::add(500);
    ES<ESparse>::add(500);
    ES<EUnscoped>::add(300);
    ES<E1>::add(100);
    ES<E70>::add(200);
    ES<RichSparse>::add(400);
    ES<RichNd>::add(300);
    ES<RichBool>::add(200);
    ES<RichLite>::add(300);
    ES<Coin>::add(300);
    ES<Tone>::add(100);
    all_entries();
    EA<E5, int>::add("int", 300);
    EA<ESparse, TrkAll>::add("TrkAll", 300);
    EA<RichSparse, Heavy>::add("Heavy", 200);
    EA<E70, Pod>::add("Pod", 100);
    EA<Coin, int>::add("int", 200);
    EA<Tone, int>::add("int", 20);
    strict_array();
#endif
    return vf::driver_main(argc, argv);
}
