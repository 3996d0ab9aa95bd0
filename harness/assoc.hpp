// Monitors for the associative containers: FixedMap, FixedSet, FixedUnorderedMap, FixedUnorderedSet.
// The oracle is a flat list of (key, value) in the order iteration has to produce: sorted by the
// comparator for the ordered ones, by insertion for the hashed ones.
#pragma once
#include "fw.hpp"

#include <cmath>
#include <compare>
#include <map>

namespace vf
{
enum class Fam
{
    OMAP,
    OSET,
    UMAP,
    USET
};

// ---------------------------------------------------------------- comparators and hashes
inline std::uint64_t g_cmp_calls = 0;
inline std::uint64_t g_eq_calls = 0;
inline std::uint64_t g_hash_calls = 0;
inline bool g_path_on = false;
inline int g_path[1 << 12];
inline std::size_t g_path_n = 0;
inline int g_path_probe = 0;

template <class K>
int key_val(const K& k)
{
    const int v = val(k);
    if (v == DEAD)
        pend("LIFE", "comparator/hash/equality called with a key that is not alive");
    return v;
}
inline void note_path(int a, int b)
{
    if (!g_path_on)
        return;
    const int other = a == g_path_probe ? b : a;
    if (g_path_n > 0 && g_path[g_path_n - 1] == other)
        return;
    if (g_path_n < std::size(g_path))
        g_path[g_path_n++] = other;
}

// mode 0 ascending, 1 descending, 2 by (k % 7, k), 3 by k / 4 (equivalent but unequal keys)
constexpr int ORD_MODES = 4;
inline long long ord_of(int mode, int k)
{
    switch (mode)
    {
    case 1: return -static_cast<long long>(k);
    case 2: return (k % 7) * 10000000LL + k;
    case 3: return k / 4;
    default: return k;
    }
}
template <class K>
struct StateCmp
{
    int mode = 0;
    constexpr bool operator()(const K& a, const K& b) const
    {
        ++g_cmp_calls;
        const int x = key_val(a), y = key_val(b);
        note_path(x, y);
        return ord_of(mode, x) < ord_of(mode, y);
    }
};
template <class K>
struct LessCmp
{
    bool operator()(const K& a, const K& b) const
    {
        ++g_cmp_calls;
        const int x = key_val(a), y = key_val(b);
        note_path(x, y);
        return x < y;
    }
};
struct Probe
{
    int k;
};
struct Group8
{
    int g;  // equivalent to all keys with k / 8 == g
};
template <class K>
struct TransCmp
{
    using is_transparent = void;
    bool desc = false;
    bool lt(long long a, long long b) const
    {
        ++g_cmp_calls;
        return desc ? b < a : a < b;
    }
    bool operator()(const K& a, const K& b) const { return lt(key_val(a), key_val(b)); }
    bool operator()(const K& a, const Probe& b) const { return lt(key_val(a), b.k); }
    bool operator()(const Probe& a, const K& b) const { return lt(a.k, key_val(b)); }
    bool operator()(const K& a, const Group8& b) const { return lt(key_val(a) / 8, b.g); }
    bool operator()(const Group8& a, const K& b) const { return lt(a.g, key_val(b) / 8); }
};

// hash modes: 0 mixed, 1 identity, 2 constant, 3 bucket bits only, 4 fingerprint bits only,
// 5 few clusters, 6 all ones in the high half, 7 mixed over k/4 (equality is k/4)
constexpr int HASH_MODES = 8;
inline int canon_of(int mode, int k)
{
    return mode == 7 ? k / 4 : k;
}
inline std::uint64_t hash_of(int mode, int k)
{
    const auto u = static_cast<std::uint64_t>(canon_of(mode, k));
    switch (mode)
    {
    case 1: return u;
    case 2: return 0x1234;
    case 3: return u << 8;
    case 4: return u & 0xff;
    case 5: return ((u % 3) << 8) | (u & 1);
    case 6: return ~std::uint64_t{0} - u;
    default: return mix(77, u);
    }
}
template <class K>
struct StateHash
{
    int mode = 0;
    constexpr std::uint64_t operator()(const K& k) const
    {
        ++g_hash_calls;
        return hash_of(mode, key_val(k));
    }
};
template <class K>
struct StateEq
{
    int mode = 0;
    constexpr bool operator()(const K& a, const K& b) const
    {
        ++g_eq_calls;
        return canon_of(mode, key_val(a)) == canon_of(mode, key_val(b));
    }
};

// ---------------------------------------------------------------- policies: how to build and what to expect
template <class K>
struct PolState
{
    using Cmp = StateCmp<K>;
    static constexpr int MODES = ORD_MODES;
    static constexpr bool TRANSPARENT = false;
    static long long ord(int mode, int k) { return ord_of(mode, k); }
    static Cmp cmp(int mode) { return Cmp{mode}; }
};
template <class K>
struct PolLess
{
    using Cmp = LessCmp<K>;
    static constexpr int MODES = 1;
    static constexpr bool TRANSPARENT = false;
    static long long ord(int, int k) { return k; }
    static Cmp cmp(int) { return Cmp{}; }
};
template <class K>
struct PolTrans
{
    using Cmp = TransCmp<K>;
    static constexpr int MODES = 2;
    static constexpr bool TRANSPARENT = true;
    static long long ord(int mode, int k) { return mode == 0 ? k : -static_cast<long long>(k); }
    static Cmp cmp(int mode) { return Cmp{mode == 1}; }
};
template <class K>
struct PolHash
{
    using Hash = StateHash<K>;
    using Eq = StateEq<K>;
    static constexpr int MODES = HASH_MODES;
    static constexpr bool TRANSPARENT = false;
    static long long ord(int mode, int k) { return canon_of(mode, k); }
    static Hash hash(int mode) { return Hash{mode}; }
    static Eq eq(int mode) { return Eq{mode}; }
};

template <Fam F, class C, class K, class V, std::size_t N, bool STABLE, class Pol>
struct Assoc
{
    static constexpr bool ORD = F == Fam::OMAP || F == Fam::OSET;
    static constexpr bool MAP = F == Fam::OMAP || F == Fam::UMAP;
    static constexpr bool KCOPY = std::is_copy_constructible_v<K>;
    static constexpr bool VCOPY = std::is_copy_constructible_v<V>;
    static constexpr bool COPY = KCOPY && VCOPY;
    static constexpr bool VDEF = std::is_default_constructible_v<V>;
    static constexpr bool VASSIGN = std::is_move_assignable_v<V>;
    static constexpr bool TRACK = El<K>::tracked || (MAP && El<V>::tracked);
    using It = typename C::iterator;
    using CIt = typename C::const_iterator;
    using VT = typename C::value_type;

    struct Ent
    {
        int k;
        int v;
        const void* ka = nullptr;
        const void* va = nullptr;
        It it{};
        bool have_it = false;
    };
    struct Model
    {
        int mode = 0;
        std::vector<Ent> e;
        long long ord(int k) const { return Pol::ord(mode, k); }
        std::size_t size() const { return e.size(); }
        std::size_t find(int k) const
        {
            for (std::size_t i = 0; i < e.size(); i++)
                if (ord(e[i].k) == ord(k))
                    return i;
            return e.size();
        }
        bool has(int k) const { return find(k) != e.size(); }
        std::size_t lower(int k) const
        {
            std::size_t i = 0;
            while (i < e.size() && ord(e[i].k) < ord(k))
                i++;
            return i;
        }
        std::size_t upper(int k) const
        {
            std::size_t i = 0;
            while (i < e.size() && ord(e[i].k) <= ord(k))
                i++;
            return i;
        }
        // inserts if absent; returns position
        std::pair<std::size_t, bool> insert(int k, int v)
        {
            const std::size_t f = find(k);
            if (f != e.size())
                return {f, false};
            const std::size_t pos = ORD ? lower(k) : e.size();
            Ent n;
            n.k = k;
            n.v = v;
            e.insert(e.begin() + static_cast<std::ptrdiff_t>(pos), n);
            return {pos, true};
        }
        void erase(std::size_t a, std::size_t b)
        {
            e.erase(e.begin() + static_cast<std::ptrdiff_t>(a), e.begin() + static_cast<std::ptrdiff_t>(b));
            if (!STABLE && a != b)
                forget();
        }
        void forget()
        {
            for (auto& x : e)
            {
                x.ka = x.va = nullptr;
                x.have_it = false;
            }
        }
    };

    template <class R>
    static const K& key_of(const R& r)
    {
        if constexpr (MAP)
            return r.first;
        else
            return r;
    }
    template <class R>
    static int v_of(const R& r)
    {
        if constexpr (MAP)
            return val(r.second);
        else
            return 0;
    }
    template <class R>
    static const void* va_of(const R& r)
    {
        if constexpr (MAP)
            return std::addressof(r.second);
        else
            return nullptr;
    }
    static int VV(int v) { return MAP ? v : 0; }

    static std::unique_ptr<Box<C>> fresh(int mode)
    {
        if constexpr (ORD)
            return std::make_unique<Box<C>>(std::in_place, Pol::cmp(mode));
        else
            return std::make_unique<Box<C>>(std::in_place, Pol::hash(mode), Pol::eq(mode));
    }

    static VT entry(int k, int v)
    {
        if constexpr (MAP)
            return VT(K(k), V(v));
        else
            return K(k);
    }
    struct Derived : std::conditional_t<MAP, std::pair<const K, V>, std::pair<int, int>>
    {
        explicit Derived(int x)
            requires MAP
          : std::pair<const K, V>(K(x / 1000), V(x % 1000))
        {
        }
    };
    using InT = std::conditional_t<MAP, Derived, K>;
    static int encode(int k, int v) { return MAP ? k * 1000 + v : k; }

    // ------------------------------------------------------------ verification
    static void verify(Box<C>& b, Model& m, const char* kind)
    {
        C& c = *b;
        const C& cc = c;
        const std::size_t n = m.size();
        VF_CHECK(kind, cc.size() == n, "size() is %zu, expected %zu", cc.size(), n);
        VF_CHECK(kind, cc.empty() == (n == 0), "empty() wrong at size %zu", n);
        VF_CHECK(kind, cc.max_size() == N && C::static_max_size() == N, "max_size() wrong");
        VF_CHECK(kind, is_full(cc) == (n >= N), "is_full wrong at size %zu", n);
        std::size_t i = 0;
        for (It it = c.begin(), last = c.end(); it != last; ++it, ++i)
        {
            VF_CHECK(kind, i < n, "iteration visits more than the %zu entries", n);
            decltype(auto) r = *it;
            Ent& e = m.e[i];
            VF_CHECK(kind, val(key_of(r)) == e.k, "entry %zu has key %d, expected %d", i, val(key_of(r)), e.k);
            VF_CHECK(kind, v_of(r) == VV(e.v), "entry %zu (key %d) has value %d, expected %d", i, e.k, v_of(r), e.v);
            const void* ka = std::addressof(key_of(r));
            const void* va = va_of(r);
            if (e.ka != nullptr)
                VF_CHECK("STABLE", ka == e.ka && va == e.va, "entry with key %d moved in memory", e.k);
            e.ka = ka;
            e.va = va;
            VF_CHECK("LIFE", ka >= static_cast<void*>(b.p) && ka < static_cast<void*>(b.p + 1), "key lives outside the container object");
            if (!e.have_it)
            {
                e.it = it;
                e.have_it = true;
            }
        }
        VF_CHECK(kind, i == n, "iteration visits %zu of %zu entries", i, n);
        if constexpr (TRACK)
        {
            const long want = static_cast<long>(n) * ((El<K>::tracked ? 1 : 0) + (MAP && El<V>::tracked ? 1 : 0));
            VF_CHECK("LIFE", b.live() == want, "%ld objects alive inside the container, expected %ld", b.live(), want);
        }
        // a saved iterator still denotes its entry and its neighbour
        if (n > 0)
        {
            const std::size_t j = g_rng.below(n);
            It s = m.e[j].it;
            VF_CHECK("STABLE", std::addressof(key_of(*s)) == m.e[j].ka, "iterator saved earlier for key %d refers to another entry", m.e[j].k);
            ++s;
            VF_CHECK("STABLE", s == (j + 1 < n ? m.e[j + 1].it : c.end()), "successor of the saved iterator of key %d is wrong", m.e[j].k);
            if constexpr (ORD)
            {
                It p = j + 1 < n ? m.e[j + 1].it : c.end();
                --p;
                VF_CHECK("STABLE", p == m.e[j].it, "predecessor of position %zu is wrong", j + 1);
            }
        }
        if constexpr (ORD)
        {
            if (g_rng.chance(1, 4))
            {
                i = n;
                for (auto it = cc.rbegin(); it != cc.rend(); ++it)
                {
                    VF_CHECK(kind, i > 0, "reverse iteration visits more than the %zu entries", n);
                    --i;
                    VF_CHECK(kind, std::addressof(key_of(*it)) == m.e[i].ka, "reverse iteration at position %zu is at the wrong entry", i);
                }
                VF_CHECK(kind, i == 0, "reverse iteration stops %zu entries early", i);
            }
        }
    }

    template <class I, class CC>
    static void at_pos(CC& c, const Model& m, const I& it, std::size_t pos, const char* kind, const char* what)
    {
        if (pos >= m.size())
        {
            VF_CHECK(kind, it == c.end(), "%s: expected end()", what);
            return;
        }
        VF_CHECK(kind, it != c.end(), "%s: returned end(), expected key %d", what, m.e[pos].k);
        VF_CHECK(kind, val(key_of(*it)) == m.e[pos].k, "%s: returned key %d, expected %d", what, val(key_of(*it)), m.e[pos].k);
        VF_CHECK(kind, v_of(*it) == VV(m.e[pos].v), "%s: returned entry has value %d, expected %d", what, v_of(*it), m.e[pos].v);
        if (m.e[pos].ka != nullptr)
            VF_CHECK(kind, std::addressof(key_of(*it)) == m.e[pos].ka, "%s: returned iterator is not the entry in the container", what);
    }

    static void probe(Box<C>& b, Model& m, int k, const char* kind)
    {
        C& c = *b;
        const C& cc = c;
        const K key(k);
        const std::size_t f = m.find(k);
        const bool has = f != m.size();
        VF_CHECK(kind, LIB(cc.contains(key)) == has, "contains(%d) is %d", k, !has);
        VF_CHECK(kind, LIB(cc.count(key)) == (has ? 1u : 0u), "count(%d) wrong", k);
        at_pos(c, m, LIB(c.find(key)), f, kind, "find");
        at_pos(cc, m, LIB(cc.find(key)), f, kind, "find const");
        if constexpr (MAP)
            if (has && m.e[f].va != nullptr)
            {
                VF_CHECK(kind, std::addressof(LIB(c.at(key))) == m.e[f].va && std::addressof(LIB(cc.at(key))) == m.e[f].va, "at(%d) refers elsewhere", k);
            }
        if constexpr (ORD)
        {
            const std::size_t lo = m.lower(k), hi = m.upper(k);
            at_pos(c, m, LIB(c.lower_bound(key)), lo, kind, "lower_bound");
            at_pos(cc, m, LIB(cc.lower_bound(key)), lo, kind, "lower_bound const");
            at_pos(c, m, LIB(c.upper_bound(key)), hi, kind, "upper_bound");
            at_pos(cc, m, LIB(cc.upper_bound(key)), hi, kind, "upper_bound const");
            auto er = LIB(c.equal_range(key));
            at_pos(c, m, er.first, lo, kind, "equal_range.first");
            at_pos(c, m, er.second, hi, kind, "equal_range.second");
            auto cer = LIB(cc.equal_range(key));
            at_pos(cc, m, cer.first, lo, kind, "equal_range.first const");
            at_pos(cc, m, cer.second, hi, kind, "equal_range.second const");
        }
        if constexpr (Pol::TRANSPARENT)
        {
            const std::size_t lo = m.lower(k), hi = m.upper(k);
            const Probe p{k};
            VF_CHECK(kind, LIB(cc.contains(p)) == has && LIB(cc.count(p)) == (has ? 1u : 0u), "heterogeneous contains/count(%d) wrong", k);
            at_pos(c, m, LIB(c.find(p)), f, kind, "heterogeneous find");
            at_pos(cc, m, LIB(cc.find(p)), f, kind, "heterogeneous find const");
            at_pos(c, m, LIB(c.lower_bound(p)), lo, kind, "heterogeneous lower_bound");
            at_pos(cc, m, LIB(cc.lower_bound(p)), lo, kind, "heterogeneous lower_bound const");
            at_pos(c, m, LIB(c.upper_bound(p)), hi, kind, "heterogeneous upper_bound");
            at_pos(cc, m, LIB(cc.upper_bound(p)), hi, kind, "heterogeneous upper_bound const");
            auto er = LIB(c.equal_range(p));
            at_pos(c, m, er.first, lo, kind, "heterogeneous equal_range.first");
            at_pos(c, m, er.second, hi, kind, "heterogeneous equal_range.second");
            // a probe equivalent to several keys
            const Group8 g{k / 8};
            std::size_t a = 0;
            auto before = [&](int x) { return m.mode == 0 ? x / 8 < g.g : x / 8 > g.g; };
            while (a < m.size() && before(m.e[a].k))
                a++;
            std::size_t z = a;
            while (z < m.size() && m.e[z].k / 8 == g.g)
                z++;
            VF_CHECK(kind, LIB(cc.contains(g)) == (a != z), "contains(group %d) wrong", g.g);
            VF_CHECK(kind, LIB(cc.count(g)) == z - a, "count(group %d) is %zu, expected %zu", g.g, static_cast<std::size_t>(cc.count(g)), z - a);
            auto fi = LIB(c.find(g));
            VF_CHECK(kind, (fi == c.end()) == (a == z), "find(group %d) wrong", g.g);
            if (a != z)
                VF_CHECK(kind, val(key_of(*fi)) / 8 == g.g, "find(group %d) returned key %d", g.g, val(key_of(*fi)));
            at_pos(c, m, LIB(c.lower_bound(g)), a, kind, "lower_bound(group)");
            at_pos(cc, m, LIB(cc.lower_bound(g)), a, kind, "lower_bound(group) const");
            at_pos(c, m, LIB(c.upper_bound(g)), z, kind, "upper_bound(group)");
            at_pos(cc, m, LIB(cc.upper_bound(g)), z, kind, "upper_bound(group) const");
            auto ger = LIB(cc.equal_range(g));
            at_pos(cc, m, ger.first, a, kind, "equal_range(group).first");
            at_pos(cc, m, ger.second, z, kind, "equal_range(group).second");
        }
    }

    // ------------------------------------------------------------ one operation
    static constexpr int N_OPS = 30;
    static It pos_it(C& c, std::size_t pos)
    {
        It it = c.begin();
        for (std::size_t i = 0; i < pos; i++)
            ++it;
        return it;
    }
    template <class R>
    static void ins_result(C& c, Model& m, const R& r, std::pair<std::size_t, bool> want, const char* what)
    {
        VF_CHECK("MODEL", r.second == want.second, "%s: returned inserted=%d", what, r.second);
        at_pos(c, m, r.first, want.first, "MODEL", what);
    }
    static int pick_key(const Model& m, int U)
    {
        if (m.size() > 0 && g_rng.chance(2, 5))
            return m.e[g_rng.below(m.size())].k;
        return static_cast<int>(g_rng.below(static_cast<std::size_t>(U)));
    }
    // returns false if the operation was not applicable
    static bool step(Box<C>& b, Model& m, int op, int U)
    {
        C& c = *b;
        const int k = pick_key(m, U);
        const int v = static_cast<int>(g_rng.below(1000));
        const bool has = m.has(k);
        const bool room = m.size() < N;
        cover(mix(mix(static_cast<std::uint64_t>(op), m.size()), mix(has, m.mode)));
        if (op <= 13 && !has && !room)
            return false;
        switch (op)
        {
        case 0:
        case 1:
            if constexpr (COPY)
            {
                trace("insert(const&,%d,%d)", k, v);
                const VT e = entry(k, v);
                auto r = LIB(c.insert(e));
                ins_result(c, m, r, m.insert(k, v), "insert(const&)");
                if constexpr (El<K>::tracked)
                    VF_CHECK("MODEL", val(key_of(e)) == k, "insert(const&) modified its argument");
                break;
            }
            else
                return false;
        case 2:
            if constexpr (KCOPY || !MAP)
            {
                trace("insert(&&,%d,%d)", k, v);
                VT e = entry(k, v);
                auto r = LIB(c.insert(std::move(e)));
                ins_result(c, m, r, m.insert(k, v), "insert(&&)");
                break;
            }
            else
                return false;
        case 3:
            trace("emplace(%d,%d)", k, v);
            if constexpr (MAP)
            {
                auto r = g_rng.chance(1, 2) ? LIB(c.emplace(K(k), V(v))) : LIB(c.emplace(std::pair<K, V>(K(k), V(v))));
                ins_result(c, m, r, m.insert(k, v), "emplace");
            }
            else
            {
                auto r = LIB(c.emplace(K(k)));
                ins_result(c, m, r, m.insert(k, v), "emplace");
            }
            break;
        case 4:
            if constexpr (MAP)
            {
                trace("try_emplace(&&,%d,%d)", k, v);
                if (g_rng.chance(1, 2) || !KCOPY)
                {
                    K kk(k);
                    V vv(v);
                    auto r = LIB(c.try_emplace(std::move(kk), std::move(vv)));
                    const auto w = m.insert(k, v);
                    ins_result(c, m, r, w, "try_emplace(&&)");
                    // standard: arguments are not moved from when nothing is inserted
                    if (!w.second)
                        VF_CHECK("MODEL", val(kk) == k && val(vv) == v, "try_emplace of a present key consumed its arguments");
                }
                else if constexpr (KCOPY)
                {
                    const K kk(k);
                    auto r = [&] { if constexpr (std::is_integral_v<V>) return LIB(c.try_emplace(kk, v)); else return LIB(c.try_emplace(kk, v / 2, v - v / 2)); }();
                    ins_result(c, m, r, m.insert(k, v), "try_emplace(const&,args)");
                }
                break;
            }
            else if constexpr (requires { c.try_emplace(K(k)); })
            {
                const int variant = KCOPY ? static_cast<int>(g_rng.below(4)) : static_cast<int>(g_rng.below(2));
                trace("set try_emplace(%d) form %d", k, variant);
                const std::size_t hint = g_rng.below(m.size() + 1);
                if (variant < 2)
                {
                    K kk(k);
                    auto r = variant == 0 ? LIB(c.try_emplace(std::move(kk))) : LIB(c.try_emplace(pos_it(c, hint), std::move(kk)));
                    const auto w = m.insert(k, v);
                    ins_result(c, m, r, w, "set try_emplace(&&)");
                    if (!w.second)
                        VF_CHECK("MODEL", val(kk) == k, "try_emplace of a present key consumed its argument");
                }
                else if constexpr (KCOPY)
                {
                    const K kk(k);
                    auto r = variant == 2 ? LIB(c.try_emplace(kk)) : LIB(c.try_emplace(pos_it(c, hint), kk));
                    ins_result(c, m, r, m.insert(k, v), "set try_emplace(const&)");
                }
                break;
            }
            else
                return false;
        case 5:
            if constexpr (MAP && KCOPY)
            {
                trace("hinted(%d,%d)", k, v);
                const K kk(k);
                if constexpr (requires { c.try_emplace(c.cbegin(), kk, V(v)); })
                {
                    const bool give = g_rng.chance(1, 2);
                    const std::size_t hint = g_rng.below(m.size() + 1);
                    K ck(k);
                    auto r = give ? LIB(c.try_emplace(pos_it(c, hint), std::move(ck), V(v))) : LIB(c.try_emplace(pos_it(c, hint), kk, V(v)));
                    const auto w = m.insert(k, v);
                    if (!(give && w.second))
                        VF_CHECK("MODEL", val(ck) == k, "try_emplace(hint) of a present key consumed the key");
                    if constexpr (requires { r.second; r.first; requires !std::is_same_v<decltype(r), It>; })
                        at_pos(c, m, r.first, w.first, "MODEL", "try_emplace(hint)");
                    else
                        at_pos(c, m, r, w.first, "MODEL", "try_emplace(hint)");
                    break;
                }
                else
                    return false;
            }
            else if constexpr (!MAP && KCOPY)
            {
                trace("insert(hint,%d)", k);
                const K kk(k);
                auto r = g_rng.chance(1, 2) ? LIB(c.insert(pos_it(c, g_rng.below(m.size() + 1)), kk))
                                            : LIB(c.insert(pos_it(c, g_rng.below(m.size() + 1)), K(k)));
                const auto w = m.insert(k, v);
                at_pos(c, m, r, w.first, "MODEL", "insert(hint)");
                break;
            }
            else
                return false;
        case 6:
        case 7:
            if constexpr (MAP && VASSIGN)
            {
                trace("insert_or_assign(%d,%d)", k, v);
                const auto w = m.insert(k, v);
                m.e[w.first].v = v;
                const int variant = static_cast<int>(g_rng.below(4));
                if (variant == 0 || !KCOPY)
                {
                    K kk(k);
                    auto r = LIB(c.insert_or_assign(std::move(kk), V(v)));
                    ins_result(c, m, r, w, "insert_or_assign(&&)");
                    if (!w.second)
                        VF_CHECK("MODEL", val(kk) == k, "insert_or_assign of a present key consumed the key");
                }
                else if constexpr (KCOPY)
                {
                    const K kk(k);
                    if (variant == 1)
                    {
                        auto r = LIB(c.insert_or_assign(kk, V(v)));
                        ins_result(c, m, r, w, "insert_or_assign(const&)");
                    }
                    else if (variant == 2)
                    {
                        auto r = LIB(c.insert_or_assign(pos_it(c, g_rng.below(c.size() + 1)), kk, V(v)));
                        at_pos(c, m, r, w.first, "MODEL", "insert_or_assign(hint,const&)");
                    }
                    else
                    {
                        auto r = LIB(c.insert_or_assign(pos_it(c, g_rng.below(c.size() + 1)), K(k), V(v)));
                        at_pos(c, m, r, w.first, "MODEL", "insert_or_assign(hint,&&)");
                    }
                }
                break;
            }
            else
                return false;
        case 8:
        case 9:
            if constexpr (MAP && VDEF)
            {
                trace("operator[](%d)%s", k, op == 9 ? "=" : "");
                const auto w = m.insert(k, 0);
                V* p = nullptr;
                if (g_rng.chance(1, 2) || !KCOPY)
                    p = std::addressof(LIB(c[K(k)]));
                else if constexpr (KCOPY)
                {
                    const K kk(k);
                    p = std::addressof(LIB(c[kk]));
                }
                VF_CHECK("MODEL", val(*p) == m.e[w.first].v, "operator[](%d) yields %d, expected %d", k, val(*p), m.e[w.first].v);
                if constexpr (VASSIGN)
                    if (op == 9)
                    {
                        *p = V(v);
                        m.e[w.first].v = v;
                    }
                break;
            }
            else
                return false;
        case 10:
            if constexpr (MAP && KCOPY && VCOPY)
            {
                trace("emplace(piecewise,%d,%d)", k, v);
                auto r = [&] { if constexpr (std::is_integral_v<V>) return LIB(c.emplace(std::piecewise_construct, std::forward_as_tuple(K(k)), std::forward_as_tuple(v))); else return LIB(c.emplace(std::piecewise_construct, std::forward_as_tuple(K(k)), std::forward_as_tuple(v / 3, v - v / 3))); }();
                ins_result(c, m, r, m.insert(k, v), "emplace(piecewise)");
                break;
            }
            else
                return false;
        case 11:
            if constexpr (MAP)
            {
                trace("emplace_hint(%d,%d)", k, v);
                auto r = LIB(c.emplace_hint(pos_it(c, g_rng.below(m.size() + 1)), K(k), V(v)));
                const auto w = m.insert(k, v);
                if constexpr (std::is_same_v<decltype(r), It>)
                    at_pos(c, m, r, w.first, "MODEL", "emplace_hint");
                else
                    at_pos(c, m, r.first, w.first, "MODEL", "emplace_hint");
                break;
            }
            else if constexpr (requires { c.emplace_hint(c.cbegin(), K(k)); })
            {
                trace("set emplace_hint(%d)", k);
                auto r = LIB(c.emplace_hint(pos_it(c, g_rng.below(m.size() + 1)), K(k)));
                const auto w = m.insert(k, v);
                if constexpr (std::is_same_v<decltype(r), It>)
                    at_pos(c, m, r, w.first, "MODEL", "set emplace_hint");
                else
                    ins_result(c, m, r, w, "set emplace_hint");
                break;
            }
            else
                return false;
        case 12:
        case 13:  // range insertion
        {
            if constexpr (!COPY)
                return false;
            else
            {
                // as many entries as still fit, with duplicates and present keys
                std::vector<VT> src;
                std::vector<int> enc;
                std::vector<std::pair<int, int>> kv;
                Model t = m;
                const std::size_t want = g_rng.below(6);
                for (std::size_t i = 0; i < want; i++)
                {
                    const int kk = pick_key(t, U), vv = static_cast<int>(g_rng.below(1000));
                    if (!t.has(kk) && t.size() >= N)
                        continue;
                    t.insert(kk, vv);
                    kv.emplace_back(kk, vv);
                }
                for (auto [a, z] : kv)
                {
                    src.push_back(entry(a, z));
                    enc.push_back(encode(a, z));
                }
                trace("insert(range of %zu,%s)", kv.size(), op == 12 ? "forward" : "input");
                if (op == 12)
                    LIB(c.insert(src.data(), src.data() + src.size()));
                else
                {
                    typename InputIt<InT>::Src s{enc.data(), enc.data() + enc.size()};
                    LIB(c.insert(InputIt<InT>(&s), InputIt<InT>()));
                    VF_CHECK("MODEL", s.cur == s.end, "input range not consumed completely");
                }
                for (auto [a, z] : kv)
                    m.insert(a, z);
                break;
            }
        }
        case 14:
        case 15:
        case 16:
        {
            const K kk(k);
            trace("erase(key %d)", k);
            const auto r = LIB(c.erase(kk));
            VF_CHECK("MODEL", r == (has ? 1u : 0u), "erase(key) returned %zu", static_cast<std::size_t>(r));
            if (has)
            {
                const std::size_t f = m.find(k);
                m.erase(f, f + 1);
            }
            break;
        }
        case 17:  // erase through a key that is the stored one
        {
            if (m.size() == 0)
                return false;
            const std::size_t i = g_rng.below(m.size());
            trace("erase(own key @%zu)", i);
            It it = pos_it(c, i);
            const K& kr = key_of(*it);
            const auto r = LIB(c.erase(kr));
            VF_CHECK("MODEL", r == 1, "erase(reference to the stored key) returned %zu", static_cast<std::size_t>(r));
            m.erase(i, i + 1);
            break;
        }
        case 18:
        case 19:
        case 20:
        {
            if (m.size() == 0)
                return false;
            const std::size_t i = g_rng.below(m.size());
            trace("erase(it @%zu)", i);
            It it = m.e[i].have_it && g_rng.chance(1, 2) ? m.e[i].it : pos_it(c, i);
            It r;
            if (op == 18)
                r = LIB(c.erase(CIt(it)));
            else
                r = LIB(c.erase(it));
            m.erase(i, i + 1);
            at_pos(c, m, r, i, "MODEL", "erase(iterator)");
            break;
        }
        case 21:
        case 22:
        {
            const std::size_t a = g_rng.below(m.size() + 1);
            std::size_t z = a + g_rng.below(m.size() - a + 1);
            if (g_rng.chance(2, 3))
                z = std::min(z, a + g_rng.below(4));
            trace("erase(range @%zu..%zu of %zu)", a, z, m.size());
            It f = pos_it(c, a), l = pos_it(c, z);
            It r = LIB(c.erase(CIt(f), CIt(l)));
            m.erase(a, z);
            at_pos(c, m, r, a, "MODEL", "erase(range)");
            break;
        }
        case 23:
        {
            const int mod = static_cast<int>(g_rng.range(2, 5));
            trace("erase_if(k%%%d==0)", mod);
            std::size_t calls = 0;
            const std::size_t n = m.size();
            const auto r = LIB(erase_if(c,
                                        [&](const auto& e)
                                        {
                                            ++calls;
                                            return val(key_of(e)) % mod == 0;
                                        }));
            std::size_t want = 0;
            for (std::size_t i = 0; i < m.size();)
                if (m.e[i].k % mod == 0)
                {
                    m.erase(i, i + 1);
                    want++;
                }
                else
                    i++;
            VF_CHECK("MODEL", r == want, "erase_if returned %zu, expected %zu", static_cast<std::size_t>(r), want);
            VF_CHECK("MODEL", calls == n, "erase_if called the predicate %zu times for %zu entries", calls, n);
            break;
        }
        case 24:
            if (!g_rng.chance(1, 4))
                return false;
            trace("clear()");
            LIB(c.clear());
            m.erase(0, m.size());
            break;
        case 25:  // write through an iterator
            if constexpr (MAP && VASSIGN)
            {
                if (m.size() == 0)
                    return false;
                const std::size_t i = g_rng.below(m.size());
                trace("it->second = %d @%zu", v, i);
                It it = pos_it(c, i);
                it->second = V(v);
                m.e[i].v = v;
                break;
            }
            else
                return false;
        case 26:  // at() = v
            if constexpr (MAP && VASSIGN)
            {
                if (!has)
                    return false;
                trace("at(%d) = %d", k, v);
                const K kk(k);
                LIB(c.at(kk)) = V(v);
                m.e[m.find(k)].v = v;
                break;
            }
            else
                return false;
        case 27:  // value copied from another entry of the same container
            if constexpr (MAP && KCOPY && VCOPY && VASSIGN)
            {
                if (m.size() == 0 || (!has && !room))
                    return false;
                const std::size_t j = g_rng.below(m.size());
                trace("insert_or_assign(%d, own value @%zu)", k, j);
                It it = pos_it(c, j);
                const int vv = m.e[j].v;
                const K kk(k);
                const V& ref = it->second;
                auto r = LIB(c.insert_or_assign(kk, ref));
                const auto w = m.insert(k, vv);
                m.e[w.first].v = vv;
                ins_result(c, m, r, w, "insert_or_assign(own value)");
                break;
            }
            else
                return false;
        case 28:  // re-insert an entry that is already there / reference to own key
            if constexpr (COPY)
            {
                if (m.size() == 0)
                    return false;
                const std::size_t j = g_rng.below(m.size());
                trace("insert(own entry @%zu)", j);
                It it = pos_it(c, j);
                if constexpr (MAP)
                {
                    auto r = LIB(c.try_emplace(it->first, it->second));
                    ins_result(c, m, r, {j, false}, "try_emplace(own key)");
                }
                else
                {
                    auto r = LIB(c.insert(*it));
                    ins_result(c, m, r, {j, false}, "insert(own key)");
                }
                break;
            }
            else
                return false;
        case 29:
            if constexpr (COPY)
            {
                // initializer list
                const int k2 = pick_key(m, U), v2 = static_cast<int>(g_rng.below(1000));
                Model t = m;
                t.insert(k, v);
                t.insert(k2, v2);
                if (t.size() > N)
                    return false;
                trace("insert({%d,%d})", k, k2);
                LIB(c.insert({entry(k, v), entry(k2, v2)}));
                m.insert(k, v);
                m.insert(k2, v2);
                break;
            }
            else
                return false;
        default: return false;
        }
        return true;
    }

    static int universe()
    {
        switch (g_rng.below(4))
        {
        case 0: return static_cast<int>(N) + 3;
        case 1: return static_cast<int>(2 * N) + 6;
        case 2: return static_cast<int>(4 * N) + 20;
        default: return 900;
        }
    }

    // random fill to about n entries with some erasures in between (fragmented storage)
    static void fill(Box<C>& b, Model& m, std::size_t n, int U)
    {
        auto put = [&](int k)
        {
            const int v = static_cast<int>(g_rng.below(1000));
            if (m.has(k) || m.size() >= N)
                return;
            trace("put(%d,%d)", k, v);
            if constexpr (MAP)
                LIB(b->try_emplace(K(k), V(v)));
            else
                LIB(b->insert(K(k)));
            m.insert(k, v);
        };
        for (int round = 0; round < 2; round++)
        {
            for (std::size_t i = 0; i < 4 * N + 8 && m.size() < n; i++)
                put(static_cast<int>(g_rng.below(static_cast<std::size_t>(U))));
            if (round == 0)
            {
                const std::size_t del = g_rng.below(m.size() + 1);
                for (std::size_t i = 0; i < del; i++)
                {
                    const std::size_t j = g_rng.below(m.size());
                    trace("del(%d)", m.e[j].k);
                    const K kk(m.e[j].k);
                    LIB(b->erase(kk));
                    m.erase(j, j + 1);
                }
            }
        }
    }

    // ------------------------------------------------------------ suites
    static void mon() { g_alloc_monitor_on = !El<K>::allocates && !El<V>::allocates; }

    static void suite_model(std::size_t cases, std::size_t ops)
    {
        mon();
        cases = n_cases(cases);
        for (std::size_t k = 0; k < cases; k++)
            run_case("N=" + std::to_string(N),
                     [&]
                     {
                         Model m;
                         m.mode = static_cast<int>(g_rng.below(Pol::MODES));
                         trace("mode %d", m.mode);
                         auto bp = fresh(m.mode);
                         Box<C>& b = *bp;
                         const int U = universe();
                         verify(b, m, "MODEL");
                         bool grow = true;
                         for (std::size_t i = 0; i < ops; i++)
                         {
                             if (m.size() >= N || g_rng.chance(1, 25))
                                 grow = false;
                             if (m.size() == 0 || g_rng.chance(1, 25))
                                 grow = true;
                             int op = static_cast<int>(g_rng.below(N_OPS));
                             if (g_rng.chance(1, 3))
                                 op = grow ? static_cast<int>(g_rng.below(14)) : static_cast<int>(g_rng.range(14, 20));
                             if (!step(b, m, op, U))
                                 continue;
                             if (N <= 32 || i % 4 == 0)
                                 verify(b, m, "MODEL");
                             for (int p = 0; p < 2; p++)
                                 probe(b, m, pick_key(m, U), "MODEL");
                         }
                         verify(b, m, "MODEL");
                         if (U <= 200)
                             for (int x = 0; x < U; x++)
                                 probe(b, m, x, "MODEL");
                     });
    }

    // exhaustive-ish: insert permutations, erase permutations on small sets
    static void suite_perm(std::size_t cases)
    {
        mon();
        cases = n_cases(cases);
        for (std::size_t kk = 0; kk < cases; kk++)
            run_case("perm N=" + std::to_string(N),
                     [&]
                     {
                         Model m;
                         m.mode = static_cast<int>(g_rng.below(Pol::MODES));
                         auto bp = fresh(m.mode);
                         Box<C>& b = *bp;
                         std::vector<int> keys;
                         const std::size_t n = g_rng.chance(1, 2) ? N : g_rng.below(N + 1);
                         for (std::size_t i = 0; i < n; i++)
                             keys.push_back(static_cast<int>(i) * 4);
                         auto shuffle = [&](int how)
                         {
                             switch (how)
                             {
                             case 0: std::sort(keys.begin(), keys.end()); break;
                             case 1: std::sort(keys.rbegin(), keys.rend()); break;
                             default:
                                 for (std::size_t i = keys.size(); i > 1; i--)
                                     std::swap(keys[i - 1], keys[g_rng.below(i)]);
                             }
                         };
                         shuffle(static_cast<int>(g_rng.below(4)));
                         for (int k : keys)
                         {
                             trace("ins %d", k);
                             if constexpr (MAP)
                                 LIB(b->try_emplace(K(k), V(k % 1000)));
                             else
                                 LIB(b->insert(K(k)));
                             m.insert(k, k % 1000);
                         }
                         verify(b, m, "MODEL");
                         shuffle(static_cast<int>(g_rng.below(4)));
                         for (int k : keys)
                         {
                             trace("del %d", k);
                             const std::size_t f = m.find(k);
                             if (g_rng.chance(1, 2))
                             {
                                 const K key(k);
                                 LIB(b->erase(key));
                                 m.erase(f, f + 1);
                             }
                             else
                             {
                                 It r = LIB(b->erase(pos_it(*b, f)));
                                 m.erase(f, f + 1);
                                 at_pos(*b, m, r, f, "MODEL", "erase(iterator)");
                             }
                             if (N <= 40 || g_rng.chance(1, 6))
                                 verify(b, m, "MODEL");
                             probe(b, m, k, "MODEL");
                         }
                         cover(mix(n, hash_str(g_sh->trace)));
                     });
    }

    // ---- construction
    static void suite_ctor(std::size_t cases)
    {
        mon();
        if constexpr (COPY)
        {
            cases = n_cases(cases);
            for (std::size_t kk = 0; kk < cases; kk++)
                run_case("ctor N=" + std::to_string(N),
                         [&]
                         {
                             Model m;
                             m.mode = static_cast<int>(g_rng.below(Pol::MODES));
                             const int U = universe();
                             std::vector<VT> src;
                             std::vector<int> enc;
                             const std::size_t want = g_rng.below(N + 4);
                             for (std::size_t i = 0; i < want; i++)
                             {
                                 const int k = pick_key(m, U), v = static_cast<int>(g_rng.below(1000));
                                 if (!m.has(k) && m.size() >= N)
                                     continue;
                                 m.insert(k, v);
                                 src.push_back(entry(k, v));
                                 enc.push_back(encode(k, v));
                             }
                             const VT* f = src.data();
                             const VT* l = src.data() + src.size();
                             typename InputIt<InT>::Src s{enc.data(), enc.data() + enc.size()};
                             const int how = static_cast<int>(g_rng.below(3));
                             trace("ctor how=%d mode=%d n=%zu", how, m.mode, src.size());
                             std::unique_ptr<Box<C>> bp;
                             if constexpr (ORD)
                             {
                                 if (how == 0)
                                     bp = std::make_unique<Box<C>>(std::in_place, f, l, Pol::cmp(m.mode));
                                 else if (how == 1)
                                     bp = std::make_unique<Box<C>>(std::in_place, InputIt<InT>(&s), InputIt<InT>(), Pol::cmp(m.mode));
                             }
                             else
                             {
                                 if (how == 0)
                                     bp = std::make_unique<Box<C>>(std::in_place, f, l, Pol::hash(m.mode), Pol::eq(m.mode));
                                 else if (how == 1)
                                     bp = std::make_unique<Box<C>>(std::in_place, InputIt<InT>(&s), InputIt<InT>(), Pol::hash(m.mode), Pol::eq(m.mode));
                             }
                             if (how == 2)
                             {
                                 m = Model{};
                                 m.mode = static_cast<int>(g_rng.below(Pol::MODES));
                                 if constexpr (N >= 3)
                                 {
                                     const int a = static_cast<int>(g_rng.below(6)), z = static_cast<int>(g_rng.below(6)), y = static_cast<int>(g_rng.below(6));
                                     m.insert(a, 1);
                                     m.insert(z, 2);
                                     m.insert(y, 3);
                                     const std::initializer_list<VT> il{entry(a, 1), entry(z, 2), entry(y, 3)};
                                     if constexpr (ORD)
                                         bp = std::make_unique<Box<C>>(std::in_place, il, Pol::cmp(m.mode));
                                     else
                                         bp = std::make_unique<Box<C>>(std::in_place, il, Pol::hash(m.mode), Pol::eq(m.mode));
                                 }
                                 else
                                 {
                                     m.mode = 0;
                                     bp = std::make_unique<Box<C>>();
                                 }
                             }
                             verify(*bp, m, "MODEL");
                             for (int i = 0; i < 4; i++)
                                 probe(*bp, m, pick_key(m, U), "MODEL");
                             for (int i = 0; i < 6; i++)
                                 if (step(*bp, m, static_cast<int>(g_rng.below(N_OPS)), U))
                                     verify(*bp, m, "MODEL");
                         });
        }
    }

    // ---- copy, move, assignment, swap, equality, ordering
    static void suite_value(std::size_t cases)
    {
        mon();
        cases = n_cases(cases);
        for (std::size_t kk = 0; kk < cases; kk++)
            run_case("value N=" + std::to_string(N),
                     [&]
                     {
                         const int U = universe();
                         Model ma, mb;
                         ma.mode = static_cast<int>(g_rng.below(Pol::MODES));
                         mb.mode = g_rng.chance(1, 2) ? ma.mode : static_cast<int>(g_rng.below(Pol::MODES));
                         auto ap = fresh(ma.mode);
                         auto bp = fresh(mb.mode);
                         Box<C>&a = *ap, &b = *bp;
                         fill(a, ma, g_rng.below(N + 1), U);
                         fill(b, mb, g_rng.below(N + 1), U);
                         auto after = [&](Box<C>& x, Model& m)
                         {
                             m.forget();
                             verify(x, m, "VALUE");
                             for (int i = 0; i < 3; i++)
                                 probe(x, m, pick_key(m, U), "VALUE");
                         };
                         auto reuse = [&](Box<C>& x, Model& m)
                         {
                             // a moved-from container can be cleared and refilled
                             trace("clear moved-from");
                             LIB(x->clear());
                             m.e.clear();
                             verify(x, m, "VALUE");
                             fill(x, m, g_rng.below(N + 1), U);
                             after(x, m);
                         };
                         const int op = static_cast<int>(g_rng.below(9));
                         cover(mix(mix(static_cast<std::uint64_t>(op), ma.size()), mix(mb.size(), static_cast<std::uint64_t>(ma.mode * 10 + mb.mode))));
                         trace("value op %d modes %d %d", op, ma.mode, mb.mode);
                         switch (op)
                         {
                         case 0:
                             if constexpr (COPY)
                             {
                                 Model mc = ma;
                                 mc.forget();
                                 auto cp = std::make_unique<Box<C>>(std::in_place, static_cast<const C&>(*a));
                                 after(*cp, mc);
                                 after(a, ma);
                                 // independence
                                 for (int i = 0; i < 8; i++)
                                     if (step(*cp, mc, static_cast<int>(g_rng.below(N_OPS)), U))
                                     {
                                         verify(*cp, mc, "VALUE");
                                         verify(a, ma, "VALUE");
                                     }
                                 for (int i = 0; i < 8; i++)
                                     if (step(a, ma, static_cast<int>(g_rng.below(N_OPS)), U))
                                     {
                                         verify(*cp, mc, "VALUE");
                                         verify(a, ma, "VALUE");
                                     }
                             }
                             break;
                         case 1:
                         {
                             Model mc = ma;
                             mc.forget();
                             auto cp = std::make_unique<Box<C>>(std::in_place, std::move(*a));
                             after(*cp, mc);
                             if (g_rng.chance(1, 2))
                                 reuse(a, ma);
                             else
                             {
                                 if constexpr (COPY)
                                 {
                                     LIB(*a = static_cast<const C&>(*b));
                                     ma = mb;
                                     after(a, ma);
                                 }
                             }
                             after(*cp, mc);
                             break;
                         }
                         case 2:
                             if constexpr (COPY)
                             {
                                 LIB(*a = static_cast<const C&>(*b));
                                 ma = mb;
                                 after(a, ma);
                                 after(b, mb);
                                 for (int i = 0; i < 8; i++)
                                     if (step(a, ma, static_cast<int>(g_rng.below(N_OPS)), U))
                                     {
                                         verify(a, ma, "VALUE");
                                         verify(b, mb, "VALUE");
                                     }
                             }
                             break;
                         case 3:
                             LIB(*a = std::move(*b));
                             ma = mb;
                             after(a, ma);
                             reuse(b, mb);
                             after(a, ma);
                             break;
                         case 4:
                         {
                             C& alias = *a;
                             if constexpr (COPY)
                                 LIB(*a = static_cast<const C&>(alias));
                             verify(a, ma, "VALUE");
                             break;
                         }
                         case 5:
                         {
                             C& alias = *a;
                             LIB(*a = std::move(alias));
                             verify(a, ma, "VALUE");
                             break;
                         }
                         case 6:
                         {
                             using std::swap;
                             LIB(swap(*a, *b));
                             std::swap(ma, mb);
                             after(a, ma);
                             after(b, mb);
                             for (int i = 0; i < 8; i++)
                             {
                                 step(a, ma, static_cast<int>(g_rng.below(N_OPS)), U);
                                 step(b, mb, static_cast<int>(g_rng.below(N_OPS)), U);
                             }
                             verify(a, ma, "VALUE");
                             verify(b, mb, "VALUE");
                             break;
                         }
                         case 7:
                         case 8:
                             compare(a, ma, b, mb, U);
                             break;
                         }
                     });
    }
    static std::vector<std::pair<int, int>> contents(const Model& m)
    {
        std::vector<std::pair<int, int>> r;
        for (const auto& e : m.e)
            r.emplace_back(e.k, VV(e.v));
        return r;
    }
    static void compare(Box<C>& a, Model& ma, Box<C>& b, Model& mb, int U)
    {
        // equal contents reached through a different history (and maybe one difference)
        std::unique_ptr<Box<C>> hp;
        Model mh;
        Box<C>* rhs = &b;
        Model* mr = &mb;
        if (g_rng.chance(2, 3))
        {
            mh.mode = ma.mode;
            hp = fresh(mh.mode);
            if (g_rng.chance(1, 2))
            {
                fill(*hp, mh, g_rng.below(N + 1), U);
                while (mh.size() > 0)
                {
                    const K kk(mh.e[0].k);
                    LIB((*hp)->erase(kk));
                    mh.erase(0, 1);
                }
            }
            std::vector<std::size_t> idx(ma.size());
            for (std::size_t i = 0; i < idx.size(); i++)
                idx[i] = i;
            for (std::size_t i = idx.size(); i > 1; i--)
                std::swap(idx[i - 1], idx[g_rng.below(i)]);
            for (std::size_t i : idx)
            {
                if constexpr (MAP)
                    LIB((*hp)->try_emplace(K(ma.e[i].k), V(ma.e[i].v)));
                else
                    LIB((*hp)->insert(K(ma.e[i].k)));
                mh.insert(ma.e[i].k, ma.e[i].v);
            }
            if (g_rng.chance(1, 2))
                step(*hp, mh, static_cast<int>(g_rng.below(N_OPS)), U);
            rhs = hp.get();
            mr = &mh;
        }
        const C& x = *a;
        const C& y = **rhs;
        auto cx = contents(ma), cy = contents(*mr);
        if (ma.mode != mr->mode && !ORD)
            return;  // equality of hashed containers with different equality functors is not defined
        bool eq;
        if constexpr (ORD)
            eq = cx == cy;
        else
        {
            // entries match by key equality, values by ==
            eq = ma.size() == mr->size();
            for (const auto& e : ma.e)
            {
                const std::size_t f = mr->find(e.k);
                eq = eq && f != mr->size() && VV(mr->e[f].v) == VV(e.v);
            }
        }
        trace("compare");
        cover(mix(mix(991, eq), mix(cx.size(), cy.size())));
        if constexpr (requires { x == y; })
        {
            VF_CHECK("VALUE", LIB(x == y) == eq && LIB(y == x) == eq, "operator== is %d, contents %s", !eq, eq ? "equal" : "differ");
            VF_CHECK("VALUE", LIB(x != y) == !eq, "operator!= wrong");
            VF_CHECK("VALUE", LIB(x == x), "container differs from itself");
        }
        if constexpr (ORD && !MAP && requires { x <=> y; })
        {
            const auto want = cx <=> cy;
            VF_CHECK("VALUE", LIB(x <=> y) == want, "operator<=> wrong");
            VF_CHECK("VALUE", LIB(x < y) == (want < 0) && LIB(x <= y) == (want <= 0) && LIB(x > y) == (want > 0) && LIB(x >= y) == (want >= 0), "relational operators wrong");
        }
        verify(a, ma, "VALUE");
        verify(*rhs, *mr, "VALUE");
    }

    // ---- iterator laws
    template <class I, class CI>
    static void walk(I first, I last, CI cfirst, CI clast, const std::vector<Ent>& e, const char* d)
    {
        const auto n = static_cast<std::ptrdiff_t>(e.size());
        VF_CHECK("ITER", (std::is_convertible_v<I, CI>), "%s: iterator not convertible to const_iterator", d);
        VF_CHECK("ITER", std::distance(first, last) == n && std::distance(cfirst, clast) == n, "%s: distance(begin,end) is not %td", d, n);
        I a = first;
        CI ca = cfirst;
        for (std::ptrdiff_t i = 0; i < n; i++)
        {
            const Ent& x = e[static_cast<std::size_t>(i)];
            VF_CHECK("ITER", a != last && !(a == last) && ca != clast, "%s: end reached early at %td", d, i);
            VF_CHECK("ITER", std::addressof(key_of(*a)) == x.ka && va_of(*a) == x.va, "%s: step %td denotes another entry", d, i);
            VF_CHECK("ITER", std::addressof(key_of(*ca)) == x.ka && va_of(*ca) == x.va, "%s const: step %td denotes another entry", d, i);
            const CI conv = a;
            VF_CHECK("ITER", std::addressof(key_of(*conv)) == x.ka, "%s: conversion to const_iterator denotes another entry at %td", d, i);
            VF_CHECK("ITER", conv == ca && ca == conv, "%s: converted iterator differs from const_iterator at %td", d, i);
            CI asg = clast;
            asg = a;
            VF_CHECK("ITER", asg == ca, "%s: assignment to const_iterator wrong at %td", d, i);
            if constexpr (MAP)
                VF_CHECK("ITER", std::addressof(a->first) == x.ka && std::addressof(a->second) == x.va && std::addressof(ca->first) == x.ka && std::addressof(ca->second) == x.va, "%s: operator-> differs from operator* at %td", d, i);
            else
                VF_CHECK("ITER", a.operator->() == x.ka, "%s: operator-> differs from operator* at %td", d, i);
            I pre = a;
            I post = pre++;
            VF_CHECK("ITER", post == a && pre != a, "%s: post-increment returned the wrong position at %td", d, i);
            I pp = a;
            I& ret = ++pp;
            VF_CHECK("ITER", std::addressof(ret) == std::addressof(pp) && pp == pre, "%s: pre-increment differs from post-increment at %td", d, i);
            if constexpr (ORD)
            {
                I back = pp;
                VF_CHECK("ITER", --back == a, "%s: ++ then -- does not return at %td", d, i);
                I back2 = pp;
                VF_CHECK("ITER", back2-- == pp && back2 == a, "%s: post-decrement wrong at %td", d, i);
            }
            a = pp;
            ++ca;
        }
        VF_CHECK("ITER", a == last && ca == clast, "%s: end not reached after %td steps", d, n);
        if constexpr (ORD)
        {
            for (std::ptrdiff_t i = n; i-- > 0;)
            {
                --a;
                --ca;
                VF_CHECK("ITER", std::addressof(key_of(*a)) == e[static_cast<std::size_t>(i)].ka && std::addressof(key_of(*ca)) == e[static_cast<std::size_t>(i)].ka, "%s: walking back at %td denotes another entry", d, i);
            }
            VF_CHECK("ITER", a == first && ca == cfirst, "%s: walking back does not reach begin", d);
        }
        // pairs of positions
        std::vector<I> pos;
        for (I q = first;; ++q)
        {
            pos.push_back(q);
            if (q == last)
                break;
        }
        for (int t = 0; t < 12; t++)
        {
            const std::size_t x = g_rng.below(pos.size()), y = g_rng.below(pos.size());
            VF_CHECK("ITER", (pos[x] == pos[y]) == (x == y) && (pos[x] != pos[y]) == (x != y), "%s: equality of positions %zu and %zu wrong", d, x, y);
        }
        I v1{}, v2{};
        VF_CHECK("ITER", v1 == v2, "%s: value-initialised iterators differ", d);
        CI w1{}, w2{};
        VF_CHECK("ITER", w1 == w2, "%s: value-initialised const iterators differ", d);
    }
    static void suite_iter(std::size_t cases)
    {
        mon();
        cases = n_cases(cases);
        for (std::size_t kk = 0; kk < cases; kk++)
            run_case("iter N=" + std::to_string(N),
                     [&]
                     {
                         Model m;
                         m.mode = static_cast<int>(g_rng.below(Pol::MODES));
                         auto bp = fresh(m.mode);
                         Box<C>& b = *bp;
                         fill(b, m, kk < N + 1 ? kk : g_rng.below(N + 1), universe());
                         verify(b, m, "ITER");
                         const C& cc = *b;
                         VF_CHECK("ITER", cc.begin() == b->cbegin() && cc.end() == b->cend(), "const begin/end differ from cbegin/cend");
                         walk<It, CIt>(b->begin(), b->end(), b->cbegin(), b->cend(), m.e, "forward");
                         if constexpr (ORD)
                         {
                             auto rev = m.e;
                             std::reverse(rev.begin(), rev.end());
                             walk<decltype(b->rbegin()), typename C::const_reverse_iterator>(b->rbegin(), b->rend(), b->crbegin(), b->crend(), rev, "reverse");
                             VF_CHECK("ITER", cc.rbegin() == b->crbegin() && cc.rend() == b->crend(), "const rbegin/rend differ from crbegin/crend");
                             auto r = b->rbegin();
                             auto f = b->end();
                             auto cr = b->crbegin();
                             auto cf = b->cend();
                             for (std::size_t i = 0; i <= m.size(); i++)
                             {
                                 VF_CHECK("ITER", r.base() == f && cr.base() == cf, "reverse_iterator.base() wrong after %zu steps", i);
                                 if (i < m.size())
                                 {
                                     ++r;
                                     --f;
                                     ++cr;
                                     --cf;
                                 }
                             }
                             VF_CHECK("ITER", r == b->rend() && cr == b->crend(), "rend() not reached");
                         }
                         if constexpr (std::is_same_v<C, C> && ORD)
                             VF_CHECK("ITER", std::bidirectional_iterator<It> && std::bidirectional_iterator<CIt>, "not a bidirectional_iterator");
                         else
                             VF_CHECK("ITER", std::forward_iterator<It> && std::forward_iterator<CIt>, "not a forward_iterator");
                         cover(mix(515, m.size()));
                     });
    }

    // ---- byte-wise relocation
    static void suite_reloc(std::size_t cases, std::size_t ops)
    {
        mon();
        if constexpr (std::is_trivially_copyable_v<C>)
        {
            cases = n_cases(cases);
            for (std::size_t k = 0; k < cases; k++)
                run_case("reloc N=" + std::to_string(N),
                         [&]
                         {
                             Model m;
                             m.mode = static_cast<int>(g_rng.below(Pol::MODES));
                             auto bp = fresh(m.mode);
                             Box<C>& b = *bp;
                             const int U = universe();
                             fill(b, m, g_rng.below(N + 1), U);
                             for (std::size_t i = 0; i < ops; i++)
                             {
                                 if (i % 3 == 0)
                                 {
                                     trace("relocate");
                                     void* to = Box<C>::raw_alloc();
                                     memcpy(to, static_cast<void*>(b.p), sizeof(C));
                                     memset(static_cast<void*>(b.p), 0xCD, sizeof(C));
                                     free(b.p);
                                     b.p = static_cast<C*>(to);
                                     m.forget();
                                     verify(b, m, "RELOC");
                                     for (int p = 0; p < 3; p++)
                                         probe(b, m, pick_key(m, U), "RELOC");
                                 }
                                 if (step(b, m, static_cast<int>(g_rng.below(N_OPS)), U))
                                     verify(b, m, "RELOC");
                             }
                         });
        }
    }

    // ---- violated preconditions (recording policy; K and V trivially destructible)
    template <class Fn>
    static void expect(Box<C>& b, Model& m, const char* what, Hit h, long long a, long long bb, bool loc, Fn&& fn)
    {
        trace("%s", what);
        const HitInfo hi = catch_hit(fn);
        VF_CHECK("CHECK", hi.hit != Hit::NONE, "%s: violated precondition was not reported (size %zu)", what, m.size());
        VF_CHECK("CHECK", hi.hit == h, "%s: reported %s, expected %s", what, hit_name(hi.hit), hit_name(h));
        if (a >= 0)
            VF_CHECK("CHECK", hi.a == static_cast<std::size_t>(a), "%s: handler received %zu, expected %lld", what, hi.a, a);
        if (bb >= 0)
            VF_CHECK("CHECK", hi.b == static_cast<std::size_t>(bb), "%s: handler received size %zu, expected %lld", what, hi.b, bb);
        if (loc)
            VF_CHECK("CHECK", strstr(hi.file, "assoc.hpp") != nullptr, "%s: source location is %s, not the call site", what, hi.file);
        cover(mix(hash_str(what), m.size()));
        verify(b, m, "CHECK");
    }
    static void suite_check(std::size_t cases)
    {
        g_alloc_monitor_on = false;
        cases = n_cases(cases);
        for (std::size_t kk = 0; kk < cases; kk++)
            run_case("check N=" + std::to_string(N),
                     [&]
                     {
                         Model m;
                         m.mode = static_cast<int>(g_rng.below(Pol::MODES));
                         auto bp = fresh(m.mode);
                         Box<C>& b = *bp;
                         const int U = 4 * static_cast<int>(N) + 40;
                         fill(b, m, g_rng.chance(2, 3) ? N : g_rng.below(N + 1), U);
                         C& c = *b;
                         const C& cc = c;
                         int absent = 0;
                         while (m.has(absent))
                             absent++;
                         const K ak(absent);
                         const long long akv = std::is_integral_v<K> ? absent : -1;
                         const auto sz = static_cast<long long>(m.size());
                         if constexpr (MAP)
                         {
                             expect(b, m, "at(absent)", Hit::OUT_OF_RANGE, akv, sz, true, [&] { (void)c.at(ak); });
                             expect(b, m, "at(absent) const", Hit::OUT_OF_RANGE, akv, sz, true, [&] { (void)cc.at(ak); });
                         }
                         expect(b, m, "erase(end())", Hit::ABORT, -1, -1, false, [&] { c.erase(c.end()); });
                         expect(b, m, "erase(cend())", Hit::ABORT, -1, -1, false, [&] { c.erase(c.cend()); });
                         if constexpr (ORD)
                             if (m.size() >= 2)
                             {
                                 // a range whose ends are the wrong way round
                                 const std::size_t p = g_rng.below(m.size() - 1);
                                 const std::size_t q = p + 1 + g_rng.below(m.size() - p - 1);
                                 trace("erase(%zu, %zu)", q, p);
                                 expect(b, m, "erase(last<first)", Hit::ABORT, -1, -1, false, [&] { c.erase(std::next(c.cbegin(), static_cast<std::ptrdiff_t>(q)), std::next(c.cbegin(), static_cast<std::ptrdiff_t>(p))); });
                             }
                         const bool full = m.size() == N;
                         const auto over = static_cast<long long>(N) + 1;
                         if (full)
                         {
                             const VT e = entry(absent, 5);
                             expect(b, m, "insert(const&) full", Hit::LENGTH_ERROR, over, -1, true, [&] { c.insert(e); });
                             expect(b, m, "insert(&&) full", Hit::LENGTH_ERROR, over, -1, true, [&] { c.insert(entry(absent, 5)); });
                             expect(b, m, "insert(range) full", Hit::LENGTH_ERROR, over, -1, true, [&] { c.insert(&e, &e + 1); });
                             expect(b, m, "insert(ilist) full", Hit::LENGTH_ERROR, over, -1, true, [&] { c.insert({e}); });
                             if constexpr (MAP)
                             {
                                 expect(b, m, "operator[](const&) full", Hit::LENGTH_ERROR, over, -1, false, [&] { (void)c[ak]; });
                                 expect(b, m, "operator[](&&) full", Hit::LENGTH_ERROR, over, -1, false, [&] { (void)c[K(absent)]; });
                                 expect(b, m, "try_emplace full", Hit::LENGTH_ERROR, over, -1, false, [&] { c.try_emplace(ak, V(1)); });
                                 expect(b, m, "try_emplace(&&) full", Hit::LENGTH_ERROR, over, -1, false, [&] { c.try_emplace(K(absent), V(1)); });
                                 expect(b, m, "emplace full", Hit::LENGTH_ERROR, over, -1, false, [&] { c.emplace(K(absent), V(1)); });
                                 expect(b, m, "insert_or_assign full", Hit::LENGTH_ERROR, over, -1, true, [&] { c.insert_or_assign(ak, V(1)); });
                                 expect(b, m, "insert_or_assign(&&) full", Hit::LENGTH_ERROR, over, -1, true, [&] { c.insert_or_assign(K(absent), V(1)); });
                                 expect(b, m, "insert_or_assign(hint) full", Hit::LENGTH_ERROR, over, -1, true, [&] { c.insert_or_assign(c.begin(), ak, V(1)); });
                             }
                             else
                             {
                                 expect(b, m, "emplace full", Hit::LENGTH_ERROR, over, -1, false, [&] { c.emplace(K(absent)); });
                                 expect(b, m, "insert(hint) full", Hit::LENGTH_ERROR, over, -1, true, [&] { c.insert(c.begin(), ak); });
                             }
                             if (N > 0)
                             {
                                 // present keys are fine in a full container
                                 const int pk = m.e[g_rng.below(N)].k;
                                 auto r = c.insert(entry(pk, 9));
                                 VF_CHECK("CHECK", !r.second, "insert of a present key into a full container");
                                 if constexpr (MAP)
                                 {
                                     c[K(pk)] = V(77);
                                     m.e[m.find(pk)].v = 77;
                                     c.insert_or_assign(K(pk), V(78));
                                     m.e[m.find(pk)].v = 78;
                                 }
                                 verify(b, m, "CHECK");
                             }
                         }
                         else
                         {
                             // a range that does not fit: everything before the overflow is in place
                             std::vector<VT> src;
                             Model t = m;
                             for (int x = 0; x < U && src.size() < N + 1; x++)
                                 if (!t.has(x))
                                 {
                                     src.push_back(entry(x, 3));
                                     if (t.size() < N)
                                         t.insert(x, 3);
                                     else
                                         break;
                                 }
                             const HitInfo hi = catch_hit([&] { c.insert(src.data(), src.data() + src.size()); });
                             VF_CHECK("CHECK", hi.hit == Hit::LENGTH_ERROR, "insert(range) beyond capacity: reported %s", hit_name(hi.hit));
                             VF_CHECK("CHECK", c.size() <= N, "size exceeds capacity after a rejected range insert");
                             if (c.size() == N)
                             {
                                 m = t;
                                 m.forget();
                                 verify(b, m, "CHECK");
                             }
                         }
                         // construction from too many
                         {
                             std::vector<VT> src;
                             Model t;
                             t.mode = m.mode;
                             for (int x = 0; src.size() < N + 1; x++)
                                 if (!t.has(x))
                                 {
                                     src.push_back(entry(x, 3));
                                     t.insert(x, 3);
                                 }
                             void* mem = Box<C>::raw_alloc();
                             const HitInfo hi = catch_hit(
                                 [&]
                                 {
                                     if constexpr (ORD)
                                         ::new (mem) C(src.data(), src.data() + src.size(), Pol::cmp(m.mode));
                                     else
                                         ::new (mem) C(src.data(), src.data() + src.size(), Pol::hash(m.mode), Pol::eq(m.mode));
                                 });
                             free(mem);
                             VF_CHECK("CHECK", hi.hit == Hit::LENGTH_ERROR && hi.a == N + 1, "constructor from %zu distinct entries: reported %s(%zu)", N + 1, hit_name(hi.hit), hi.a);
                             VF_CHECK("CHECK", strstr(hi.file, "assoc.hpp") != nullptr, "constructor overflow: source location is %s", hi.file);
                         }
                     });
    }

    static void add(const char* id0, std::size_t weight)
    {
        const std::string id = std::string(id0) + "<" + std::to_string(N) + ">";
        const std::size_t w = weight;
        if constexpr ((VF_SUITES & 1) != 0)
        {
            add_group("model", id + "/model", [=] { suite_model(w, N > 64 ? 150 : 60); });
            add_group("model", id + "/perm", [=] { suite_perm(w); });
        }
        if constexpr ((VF_SUITES & 2) != 0 && COPY)
            add_group("ctor", id + "/ctor", [=] { suite_ctor(w * 2); });
        if constexpr ((VF_SUITES & 4) != 0)
            add_group("value", id + "/value", [=] { suite_value(w * 3); });
        if constexpr ((VF_SUITES & 8) != 0)
            add_group("iter", id + "/iter", [=] { suite_iter(N > 64 ? 30 : 40); });
        if constexpr ((VF_SUITES & 32) != 0 && std::is_trivially_copyable_v<C>)
            add_group("reloc", id + "/reloc", [=] { suite_reloc(w / 2 + 5, 30); });
        if constexpr ((VF_SUITES & 64) != 0 && std::is_trivially_copyable_v<K> && std::is_trivially_copyable_v<V> && (MAP || N > 0 || true))
            add_group("check", id + "/check", [=] { suite_check(w / 4 + 5); });
    }
};
}  // namespace vf
