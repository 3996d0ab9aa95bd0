// Element values whose equality, order and bytes disagree: signed zeroes, infinities, NaNs, negative and extreme integers,
// padding, case-insensitive equality, pointers, bytes with the high bit set. Everything a container does with them
// (equality, ordering, erase by value, lookups, and keeping the exact representation) is compared with the std containers.
// PART 0 vector  1 deque, stack, queue  2 circular  3 list  4 string  5 map, set  6 unordered  7 enum containers
#ifndef PART
#define PART 0
#endif
#include "fw.hpp"
#if PART == 0
#include "fixed_containers/fixed_vector.hpp"
#elif PART == 1
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_queue.hpp"
#include "fixed_containers/fixed_stack.hpp"
#elif PART == 2
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_circular_queue.hpp"
#elif PART == 3
#include "fixed_containers/fixed_list.hpp"
#elif PART == 4
#include "fixed_containers/fixed_string.hpp"
#elif PART == 5
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_set.hpp"
#elif PART == 6
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#else
#include "enums.hpp"
#include "fixed_containers/enum_array.hpp"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/enum_set.hpp"
#endif
#include <bit>
#include <limits>
#include <list>
#include <map>
#include <queue>
#include <set>
#include <stack>
using namespace vf;
namespace fc = fixed_containers;

template <class F>
void run_cases(std::size_t n, F&& f)
{
    for (std::size_t i = 0; i < n; i++)
        run_case("history", f);
}
inline std::size_t below(std::size_t n) { return g_rng.below(n); }

// trivially copyable, equal regardless of case
struct Ci
{
    char c = 'a';
    bool operator==(const Ci& o) const { return (c | 32) == (o.c | 32); }
    std::weak_ordering operator<=>(const Ci& o) const { return (c | 32) <=> (o.c | 32); }
};
// padding bytes
struct Pad
{
    char a = 0;
    int b = 0;
    Pad() = default;
    Pad(char x, int y)
    {
        memset(static_cast<void*>(this), static_cast<int>(below(256)), sizeof(Pad));
        a = x;
        b = y;
    }
    auto operator<=>(const Pad&) const = default;
};
// equal only by its key, the rest is carried along
struct Rec
{
    short key = 0;
    short load = 0;
    bool operator==(const Rec& o) const { return key == o.key; }
    auto operator<=>(const Rec& o) const { return o.key <=> key; }  // descending
};
inline int g_objs[5];

template <class T>
T pick(bool nan)
{
    if constexpr (std::is_floating_point_v<T>)
    {
        using L = std::numeric_limits<T>;
        const T pool[] = {T(0), -T(0), T(0), -T(0), T(1), T(-1), L::infinity(), -L::infinity(), L::denorm_min(), L::max(), L::lowest(), L::quiet_NaN()};
        return pool[below(nan ? 12 : 11)];
    }
    else if constexpr (std::is_same_v<T, bool>)
        return below(2) == 1;
    else if constexpr (std::is_integral_v<T>)
    {
        using L = std::numeric_limits<T>;
        const T pool[] = {T(0), T(1), T(-1), L::min(), L::max(), T(L::min() + 1), T(256 % (L::max() - 1)), T(2), T(-2)};
        return pool[below(9)];
    }
    else if constexpr (std::is_pointer_v<T>)
        return below(6) == 0 ? nullptr : &g_objs[below(5)];
    else if constexpr (std::is_same_v<T, Ci>)
        return Ci{"aAbBcC"[below(6)]};
    else if constexpr (std::is_same_v<T, Pad>)
        return Pad(static_cast<char>(below(3)) - 1, static_cast<int>(below(3)) - 1);
    else
        return Rec{static_cast<short>(static_cast<int>(below(4)) - 1), static_cast<short>(below(100))};
}
// the very same value, not only an equal one
template <class T>
bool same(const T& a, const T& b)
{
    if constexpr (std::is_floating_point_v<T>)
        return memcmp(&a, &b, sizeof(T)) == 0;
    else if constexpr (std::is_same_v<T, Ci>)
        return a.c == b.c;
    else if constexpr (std::is_same_v<T, Rec>)
        return a.key == b.key && a.load == b.load;
    else
        return a == b;
}
template <class O>
int code(O o)
{
    return o < 0 ? -1 : o > 0 ? 1 : o == 0 ? 0 : 2;
}
template <class T>
std::uint64_t bits(const T& v)
{
    if constexpr (std::is_same_v<T, Pad>)
        return static_cast<std::uint64_t>(v.a + 9) * 100 + static_cast<std::uint64_t>(v.b + 9);
    else if constexpr (std::is_pointer_v<T>)
        return v == nullptr ? 99 : static_cast<std::uint64_t>(v - g_objs);
    else
    {
        std::uint64_t r = 0;
        memcpy(&r, &v, sizeof v);
        return r;
    }
}

// every relational operator of two containers against the same operator of their models
template <class A, class B, class M>
void relations(const A& a, const B& b, const M& ma, const M& mb)
{
    VF_CHECK("VALUE", (a == b) == (ma == mb), "== gives %d", static_cast<int>(a == b));
    VF_CHECK("VALUE", (b == a) == (mb == ma), "== (swapped) gives %d", static_cast<int>(b == a));
    VF_CHECK("VALUE", (a != b) == (ma != mb), "!= gives %d", static_cast<int>(a != b));
    if constexpr (requires { a <=> b; ma <=> mb; })
    {
        VF_CHECK("VALUE", code(a <=> b) == code(ma <=> mb), "<=> gives %d, expected %d", code(a <=> b), code(ma <=> mb));
        VF_CHECK("VALUE", code(b <=> a) == code(mb <=> ma), "<=> (swapped) gives %d, expected %d", code(b <=> a), code(mb <=> ma));
        VF_CHECK("VALUE", (a < b) == (ma < mb), "< gives %d", static_cast<int>(a < b));
        VF_CHECK("VALUE", (a <= b) == (ma <= mb), "<= gives %d", static_cast<int>(a <= b));
        VF_CHECK("VALUE", (a > b) == (ma > mb), "> gives %d", static_cast<int>(a > b));
        VF_CHECK("VALUE", (a >= b) == (ma >= mb), ">= gives %d", static_cast<int>(a >= b));
    }
}

template <class C, class M>
void contents(const C& c, const M& m)
{
    VF_CHECK("MODEL", c.size() == m.size(), "size %zu, expected %zu", c.size(), m.size());
    std::size_t i = 0;
    std::uint64_t h = m.size();
    auto mi = m.begin();
    for (auto it = c.begin(); it != c.end(); ++it, ++mi, ++i)
    {
        VF_CHECK("MODEL", mi != m.end(), "too many elements");
        if constexpr (requires { mi->second; })
        {
            VF_CHECK("MODEL", same(it->first, mi->first) && same(it->second, mi->second), "entry %zu is not the one that was put in", i);
            h = mix(mix(h, bits(mi->first)), bits(mi->second));
        }
        else
        {
            VF_CHECK("MODEL", same(static_cast<const typename M::value_type&>(*it), *mi), "element %zu is not the one that was put in", i);
            h = mix(h, bits(typename M::value_type(*mi)));
        }
    }
    VF_CHECK("MODEL", mi == m.end(), "traversal ends early");
    cover(h);
}

#if PART <= 3
template <class T>
using Model = std::list<T>;

template <class C, class T, std::size_t N>
void mutate(C& c, Model<T>& m, bool nan, int steps)
{
    auto nth = [&](std::size_t i) { return std::next(c.begin(), static_cast<long>(i)); };
    auto mnth = [&](std::size_t i) { return std::next(m.begin(), static_cast<long>(i)); };
    for (int s = 0; s < steps; s++)
    {
        const T v = pick<T>(nan);
        const std::size_t room = N - m.size();
        switch (below(11))
        {
        case 0:
        case 1:
        case 2:
            if (room)
            {
                trace("push_back");
                LIB(c.push_back(v));
                m.push_back(v);
            }
            break;
        case 3:
            if (room)
            {
                const std::size_t p = below(m.size() + 1);
                trace("insert(%zu)", p);
                auto it = LIB(c.insert(nth(p), v));
                m.insert(mnth(p), v);
                VF_CHECK("MODEL", it == nth(p), "insert returns another position");
            }
            break;
        case 4:
        {
            const std::size_t n = below(N + 1);
            trace("assign(%zu)", n);
            LIB(c.assign(n, v));
            m.assign(n, v);
            break;
        }
        case 5:
        {
            const std::size_t n = below(N + 1);
            trace("resize(%zu)", n);
            LIB(c.resize(n, v));
            m.resize(n, v);
            break;
        }
        case 6:
        {
            std::vector<T> src;
            for (std::size_t i = below(room + 1); i > 0; i--)
                src.push_back(pick<T>(nan));
            const std::size_t p = below(m.size() + 1);
            trace("insert(%zu, range of %zu)", p, src.size());
            if constexpr (!std::is_same_v<T, bool>)
            {
                LIB(c.insert(nth(p), src.data(), src.data() + src.size()));
                m.insert(mnth(p), src.begin(), src.end());
            }
            break;
        }
        case 7:
        {
            trace("erase(value)");
            const std::size_t before = m.size();
            const std::size_t got = LIB(fc::erase(c, v));
            m.remove(v);
            VF_CHECK("MODEL", got == before - m.size(), "erase(value) reports %zu of %zu", got, before - m.size());
            break;
        }
        case 8:
        {
            trace("erase_if");
            const std::size_t before = m.size();
            const std::size_t got = LIB(fc::erase_if(c, [&](const T& e) { return e < v; }));
            m.remove_if([&](const T& e) { return e < v; });
            VF_CHECK("MODEL", got == before - m.size(), "erase_if reports %zu of %zu", got, before - m.size());
            break;
        }
        case 9:
            if (!m.empty())
            {
                const std::size_t p = below(m.size());
                trace("write %zu", p);
                *nth(p) = v;
                *mnth(p) = v;
            }
            break;
        case 10:
            if (!m.empty())
            {
                const std::size_t p = below(m.size());
                trace("erase %zu", p);
                LIB(c.erase(nth(p)));
                m.erase(mnth(p));
            }
            break;
        }
        if constexpr (requires { c.remove(v); })
            if (below(6) == 0)
            {
                trace("remove");
                const std::size_t before = m.size();
                const std::size_t got = LIB(c.remove(v));
                m.remove(v);
                VF_CHECK("MODEL", got == before - m.size(), "remove reports %zu of %zu", got, before - m.size());
            }
        contents(c, m);
    }
}

// another checking policy, same behaviour
template <class T, std::size_t N>
struct OtherSeq : fc::customize::SequenceContainerAbortChecking<T, N>
{
};

template <template <class, std::size_t> class C, template <class, std::size_t> class C2, class T>
void seq(const char* name, std::size_t n, bool nan = false)
{
    add_group("value",
              name,
              [=]
              {
                  run_cases(n_cases(n),
                            [&]
                            {
                                Box<C<T, 6>> a;
                                Box<C<T, 6>> b;
                                Box<C<T, 9>> d;
                                Model<T> ma, mb, md;
                                mutate<C<T, 6>, T, 6>(*a, ma, nan, static_cast<int>(1 + below(8)));
                                mutate<C<T, 6>, T, 6>(*b, mb, nan, static_cast<int>(below(4)));
                                if (below(2))  // equal or nearly so
                                {
                                    LIB(b->assign(a->begin(), a->end()));
                                    mb = ma;
                                    if (!mb.empty() && below(2))
                                    {
                                        const T v = pick<T>(nan);
                                        const long p = static_cast<long>(below(mb.size()));
                                        *std::next(b->begin(), p) = v;
                                        *std::next(mb.begin(), p) = v;
                                    }
                                }
                                for (const T& e : mb)
                                {
                                    d->push_back(e);
                                    md.push_back(e);
                                }
                                if (below(2))
                                {
                                    const T v = pick<T>(nan);
                                    d->push_back(v);
                                    md.push_back(v);
                                }
                                relations(*a, *b, ma, mb);
                                relations(*a, *d, ma, md);
                                relations(*b, *d, mb, md);
                                // the same capacity, another checking policy
                                Box<C2<T, 6>> o;
                                for (const T& e : mb)
                                    o->push_back(e);
                                relations(*a, *o, ma, mb);
                                relations(*o, *b, mb, mb);
                                relations(*o, *d, mb, md);
                                C<T, 6> copy(*a);
                                contents(copy, ma);
                                relations(copy, *a, ma, ma);
                                copy = *b;
                                contents(copy, mb);
                                relations(copy, *a, mb, ma);
                            });
              });
}
template <template <class, std::size_t> class C, template <class, std::size_t> class C2>
void all_seq(const std::string& f)
{
    seq<C, C2, double>((f + "<double>").c_str(), 1500);
    seq<C, C2, double>((f + "<double with NaN>").c_str(), 1000, true);
    seq<C, C2, float>((f + "<float>").c_str(), 1000);
    seq<C, C2, signed char>((f + "<signed char>").c_str(), 1000);
    seq<C, C2, int>((f + "<int>").c_str(), 1000);
    seq<C, C2, long long>((f + "<long long>").c_str(), 800);
    seq<C, C2, std::uint16_t>((f + "<u16>").c_str(), 800);
    seq<C, C2, int*>((f + "<int*>").c_str(), 800);
    seq<C, C2, Ci>((f + "<Ci>").c_str(), 1200);
    seq<C, C2, Pad>((f + "<Pad>").c_str(), 1200);
    seq<C, C2, Rec>((f + "<Rec>").c_str(), 1200);
}
template <class A, class A2, class SM, class T>
void adapter(const char* name, std::size_t cap, bool circular, std::size_t n)
{
    add_group("value",
              name,
              [=]
              {
                  run_cases(n_cases(n),
                            [&]
                            {
                                A a{}, b{};
                                std::deque<T> ma, mb;
                                for (int s = static_cast<int>(below(10)); s > 0; s--)
                                    for (auto [c, m] : {std::pair{&a, &ma}, std::pair{&b, &mb}})
                                    {
                                        const T v = pick<T>(false);
                                        if (below(4) == 0)
                                        {
                                            if (!m->empty())
                                            {
                                                LIB(c->pop());
                                                if constexpr (requires { c->top(); })
                                                    m->pop_back();
                                                else
                                                    m->pop_front();
                                            }
                                        }
                                        else if (m->size() < cap || circular)
                                        {
                                            LIB(c->push(v));
                                            if (m->size() == cap)
                                                m->pop_front();
                                            m->push_back(v);
                                        }
                                    }
                                relations(a, b, SM(ma), SM(mb));
                                A c(a);
                                relations(c, b, SM(ma), SM(mb));
                                relations(c, a, SM(ma), SM(ma));
                                A2 o{};
                                for (const T& e : mb)
                                    o.push(e);
                                relations(a, o, SM(ma), SM(mb));
                                relations(o, b, SM(mb), SM(mb));
                                std::uint64_t h = 7;
                                while (!ma.empty())
                                {
                                    VF_CHECK("MODEL", c.size() == ma.size(), "size %zu, expected %zu", c.size(), ma.size());
                                    if constexpr (requires { c.top(); })
                                    {
                                        VF_CHECK("MODEL", same(c.top(), ma.back()), "top is not what was pushed");
                                        ma.pop_back();
                                    }
                                    else
                                    {
                                        VF_CHECK("MODEL", same(c.front(), ma.front()) && same(c.back(), ma.back()), "front or back is not what was pushed");
                                        h = mix(h, bits(ma.front()));
                                        ma.pop_front();
                                    }
                                    c.pop();
                                }
                                cover(h);
                            });
              });
}
#endif

#if PART == 4
template <std::size_t N>
std::string chars()
{
    static const char pool[] = {'a', 'b', '\0', '\x7f', static_cast<char>(0x80), static_cast<char>(0xff), 'A', ' '};
    std::string r;
    for (std::size_t i = below(N + 1); i > 0; i--)
        r += pool[below(sizeof pool)];
    return r;
}
inline void strings(const char* name, std::size_t n)
{
    add_group("value",
              name,
              [=]
              {
                  run_cases(n_cases(n),
                            [&]
                            {
                                std::string ma = chars<5>(), mb = chars<5>(), md = chars<6>();
                                if (below(2))
                                    mb = ma;
                                if (below(2) && !mb.empty())
                                    mb[below(mb.size())] = static_cast<char>(below(256));
                                if (below(2))
                                    md = mb + (below(2) ? "" : "\x80");
                                trace("'%s' '%s' '%s'", ma.c_str(), mb.c_str(), md.c_str());
                                Box<fc::FixedString<5>> a, b;
                                Box<fc::FixedString<11>> d;
                                a->assign(std::string_view(ma));
                                b->assign(std::string_view(mb));
                                d->assign(std::string_view(md));
                                contents(*a, ma);
                                contents(*d, md);
                                relations(*a, *b, ma, mb);
                                relations(*a, *d, ma, md);
                                relations(*b, *d, mb, md);
                                relations(*a, std::string_view(mb), std::string_view(ma), std::string_view(mb));
                                const auto sign = [](int x) { return (x > 0) - (x < 0); };
                                VF_CHECK("VALUE", sign(a->compare(mb)) == sign(ma.compare(mb)), "compare gives %d", a->compare(mb));
                                VF_CHECK("VALUE", sign(a->compare(*d)) == sign(ma.compare(md)), "compare gives %d", a->compare(*d));
                                for (int s = 0; s < 4; s++)
                                {
                                    const char ch = ma.empty() || below(2) ? static_cast<char>(below(256)) : ma[below(ma.size())];
                                    const std::size_t p = below(7);
                                    VF_CHECK("VALUE", a->find(ch, p) == ma.find(ch, p) && a->rfind(ch, p) == ma.rfind(ch, p) && a->find_first_of(ch, p) == ma.find_first_of(ch, p) && a->find_last_of(ch, p) == ma.find_last_of(ch, p) &&
                                                 a->find_first_not_of(ch, p) == ma.find_first_not_of(ch, p) && a->find_last_not_of(ch, p) == ma.find_last_not_of(ch, p) && a->starts_with(ch) == ma.starts_with(ch) && a->ends_with(ch) == ma.ends_with(ch),
                                             "search for byte %d from %zu", static_cast<int>(ch), p);
                                    VF_CHECK("VALUE", a->find(std::string_view(mb), p) == ma.find(mb, p) && a->rfind(std::string_view(mb), p) == ma.rfind(mb, p) && a->find_first_of(*b, p) == ma.find_first_of(mb, p) && a->find_last_not_of(*d, p) == ma.find_last_not_of(md, p) &&
                                                 a->find(mb.data(), p, mb.size()) == ma.find(mb.data(), p, mb.size()),
                                             "search for a string from %zu", p);
                                }
                                std::uint64_t h = 3;
                                for (char x : ma + "|" + mb + "|" + md)
                                    h = mix(h, static_cast<unsigned char>(x));
                                cover(h);
                            });
              });
}
#endif

#if PART == 5 || PART == 6
// std::map's comparison of unordered models is by iteration order, so compare as sets of entries
template <class K, class V>
struct Entries
{
    std::vector<std::pair<K, V>> e;
    using value_type = std::pair<K, V>;
    auto begin() const { return e.begin(); }
    auto end() const { return e.end(); }
    std::size_t size() const { return e.size(); }
    int find(const K& k) const
    {
        for (std::size_t i = 0; i < e.size(); i++)
            if (e[i].first == k)
                return static_cast<int>(i);
        return -1;
    }
    bool operator==(const Entries& o) const
    {
        if (e.size() != o.e.size())
            return false;
        for (auto& [k, v] : e)
        {
            const int j = o.find(k);
            if (j < 0 || !(o.e[static_cast<std::size_t>(j)].second == v))
                return false;
        }
        return true;
    }
};
template <class C, class K, class V, std::size_t N>
struct MapRun
{
    using M = Entries<K, V>;
    static void put(M& m, const K& k, const V& v)
    {
#if PART == 6
        m.e.emplace_back(k, v);
#else
        std::size_t i = 0;
        while (i < m.e.size() && m.e[i].first < k)
            i++;
        m.e.insert(m.e.begin() + static_cast<long>(i), {k, v});
#endif
    }
    static void mutate(C& c, M& m, bool nan, int steps)
    {
        for (int s = 0; s < steps; s++)
        {
            const K k = pick<K>(false);
            const V v = pick<V>(nan);
            const int at = m.find(k);
            const bool room = m.size() < N;
            switch (below(8))
            {
            case 0:
            case 1:
                if (at >= 0 || room)
                {
                    trace("insert");
                    const auto r = LIB(c.insert({k, v}));
                    VF_CHECK("MODEL", r.second == (at < 0), "insert reports %d", static_cast<int>(r.second));
                    if (at < 0)
                        put(m, k, v);
                }
                break;
            case 2:
                if (at >= 0 || room)
                {
                    trace("insert_or_assign");
                    const auto r = LIB(c.insert_or_assign(k, v));
                    VF_CHECK("MODEL", r.second == (at < 0), "insert_or_assign reports %d", static_cast<int>(r.second));
                    if (at < 0)
                        put(m, k, v);
                    else
                        m.e[static_cast<std::size_t>(at)].second = v;
                }
                break;
            case 3:
                if (at >= 0 || room)
                {
                    trace("try_emplace");
                    const auto r = LIB(c.try_emplace(k, v));
                    VF_CHECK("MODEL", r.second == (at < 0), "try_emplace reports %d", static_cast<int>(r.second));
                    if (at < 0)
                        put(m, k, v);
                }
                break;
            case 4:
                if (at >= 0 || room)
                {
                    trace("[]");
                    c[k] = v;
                    if (at < 0)
                        put(m, k, v);
                    else
                        m.e[static_cast<std::size_t>(at)].second = v;
                }
                break;
            case 5:
            {
                trace("erase");
                const std::size_t r = LIB(c.erase(k));
                VF_CHECK("MODEL", r == (at >= 0 ? 1u : 0u), "erase reports %zu", r);
                if (at >= 0)
                    m.e.erase(m.e.begin() + at);
                break;
            }
            case 6:
            {
                trace("erase_if");
                const std::size_t r = LIB(fc::erase_if(c, [&](const auto& e) { return e.second == v; }));
                const std::size_t w = std::erase_if(m.e, [&](const auto& e) { return e.second == v; });
                VF_CHECK("MODEL", r == w, "erase_if reports %zu of %zu", r, w);
                break;
            }
            default:
                VF_CHECK("MODEL", c.contains(k) == (at >= 0) && c.count(k) == (at >= 0 ? 1u : 0u), "lookup");
                if (at >= 0)
                    VF_CHECK("MODEL", same(c.at(k), m.e[static_cast<std::size_t>(at)].second) && same(c.find(k)->first, m.e[static_cast<std::size_t>(at)].first), "lookup finds another entry");
                break;
            }
            contents(c, m);
        }
    }
    template <class D, class... O>
    static void add(const char* name, std::size_t n, bool nan = false)
    {
        add_group("value",
                  name,
                  [=]
                  {
                      run_cases(n_cases(n),
                                [&]
                                {
                                    Box<C> a, b;
                                    Box<D> d;
                                    M ma, mb, md;
                                    mutate(*a, ma, nan, static_cast<int>(2 + below(10)));
                                    mutate(*b, mb, nan, static_cast<int>(below(8)));
                                    if (below(2))
                                    {
                                        // the same entries, put in in another order and with equal rather than identical values
                                        b->clear();
                                        mb.e.clear();
                                        auto order = ma.e;
                                        for (std::size_t i = order.size(); i > 1; i--)
                                            std::swap(order[i - 1], order[below(i)]);
                                        for (auto& [k, v] : order)
                                        {
                                            const V w = below(4) == 0 ? pick<V>(nan) : v;
                                            b->insert({k, w});
                                            put(mb, k, w);
                                        }
                                    }
                                    for (auto& [k, v] : mb.e)
                                    {
                                        d->insert({k, v});
                                        put(md, k, v);
                                    }
                                    relations(*a, *b, ma, mb);
                                    if constexpr (requires { *a == *d; })
                                        relations(*a, *d, ma, md);
                                    // the same capacity, other policies
                                    (..., [&](auto& o)
                                     {
                                         for (auto& [k, v] : mb.e)
                                             o->insert({k, v});
                                         relations(*a, *o, ma, md);
                                         relations(*o, *b, md, mb);
                                     }(*std::make_unique<Box<O>>()));
                                    C copy(*a);
                                    contents(copy, ma);
                                    relations(copy, *b, ma, mb);
                                    copy = *b;
                                    contents(copy, mb);
                                    relations(copy, *a, mb, ma);
                                });
                  });
    }
};
template <class C, class K, std::size_t N>
struct SetRun
{
    using M = std::vector<K>;
    static int find(const M& m, const K& k)
    {
        for (std::size_t i = 0; i < m.size(); i++)
            if (m[i] == k)
                return static_cast<int>(i);
        return -1;
    }
    static void put(M& m, const K& k)
    {
#if PART == 6
        m.push_back(k);
#else
        std::size_t i = 0;
        while (i < m.size() && m[i] < k)
            i++;
        m.insert(m.begin() + static_cast<long>(i), k);
#endif
    }
    static void mutate(C& c, M& m, int steps)
    {
        for (int s = 0; s < steps; s++)
        {
            const K k = pick<K>(false);
            const int at = find(m, k);
            if (below(3) != 0)
            {
                if (at < 0 && m.size() == N)
                    continue;
                trace("insert");
                const auto r = LIB(c.insert(k));
                VF_CHECK("MODEL", r.second == (at < 0), "insert reports %d", static_cast<int>(r.second));
                if (at < 0)
                    put(m, k);
            }
            else
            {
                trace("erase");
                const std::size_t r = LIB(c.erase(k));
                VF_CHECK("MODEL", r == (at >= 0 ? 1u : 0u), "erase reports %zu", r);
                if (at >= 0)
                    m.erase(m.begin() + at);
            }
            VF_CHECK("MODEL", c.contains(k) == (find(m, k) >= 0) && (c.find(k) != c.end()) == (find(m, k) >= 0), "lookup");
            contents(c, m);
        }
    }
    // relations of ordered sets are those of the sorted sequences; unordered ones are equal as sets
    static auto as_model(const M& m)
    {
#if PART == 6
        Entries<K, int> e;
        for (auto& k : m)
            e.e.emplace_back(k, 0);
        return e;
#else
        return m;
#endif
    }
    template <class D, class... O>
    static void add(const char* name, std::size_t n)
    {
        add_group("value",
                  name,
                  [=]
                  {
                      run_cases(n_cases(n),
                                [&]
                                {
                                    Box<C> a, b;
                                    Box<D> d;
                                    M ma, mb;
                                    mutate(*a, ma, static_cast<int>(2 + below(10)));
                                    mutate(*b, mb, static_cast<int>(below(8)));
                                    if (below(2))
                                    {
                                        b->clear();
                                        mb.clear();
                                        auto order = ma;
                                        for (std::size_t i = order.size(); i > 1; i--)
                                            std::swap(order[i - 1], order[below(i)]);
                                        for (auto& k : order)
                                            if (below(6) != 0)
                                            {
                                                b->insert(k);
                                                put(mb, k);
                                            }
                                    }
                                    for (auto& k : mb)
                                        d->insert(k);
                                    relations(*a, *b, as_model(ma), as_model(mb));
                                    if constexpr (requires { *a == *d; })
                                        relations(*a, *d, as_model(ma), as_model(mb));
                                    (..., [&](auto& o)
                                     {
                                         for (auto& k : mb)
                                             o->insert(k);
                                         relations(*a, *o, as_model(ma), as_model(mb));
                                         relations(*o, *b, as_model(mb), as_model(mb));
                                     }(*std::make_unique<Box<O>>()));
                                    C copy(*a);
                                    contents(copy, ma);
                                    relations(copy, *b, as_model(ma), as_model(mb));
                                });
                  });
    }
};
#endif

#if PART == 6
struct H
{
    std::uint64_t operator()(const Ci& c) const { return static_cast<std::uint64_t>(c.c | 32) * 0x9E3779B97F4A7C15ULL; }
    std::uint64_t operator()(const Rec& r) const { return static_cast<std::uint64_t>(r.key) << 8; }
};
#endif

#if PART == 6
// Text keys of every length, each in a heap block of exactly its size at an arbitrary alignment: the container must read
// nothing but the characters, and equal text is one key wherever it is stored.
template <class Str, bool VIEW>
void text_keys(const char* name, std::size_t n)
{
    using Ch = typename Str::value_type;
    using View = std::basic_string_view<Ch>;
    using K = std::conditional_t<VIEW, View, Str>;
    add_group("value",
              name,
              [=]
              {
                  g_alloc_monitor_on = VIEW;  // owning texts allocate
                  run_cases(n_cases(n),
                            [&]
                            {
                                std::vector<std::unique_ptr<Ch[]>> arena;
                                auto place = [&](const Str& t) -> K
                                {
                                    if constexpr (VIEW)
                                    {
                                        const std::size_t pad = below(8);
                                        arena.emplace_back(new Ch[t.size() + pad]);
                                        std::copy(t.begin(), t.end(), arena.back().get() + pad);
                                        return View(arena.back().get() + pad, t.size());
                                    }
                                    else
                                    {
                                        K k(t);
                                        k.shrink_to_fit();
                                        return k;
                                    }
                                };
                                constexpr std::size_t N = 24;
                                Box<fc::FixedUnorderedMap<K, int, N>> c;
                                Box<fc::FixedUnorderedSet<K, N>> u;
                                std::vector<std::pair<Str, int>> m;
                                const std::size_t maxlen = below(3) == 0 ? 260 : 1 + below(70);
                                const std::size_t alphabet = below(2) ? 2 : 256;
                                auto random_text = [&]
                                {
                                    Str t(below(maxlen + 1), Ch());
                                    for (auto& ch : t)
                                        ch = static_cast<Ch>(below(alphabet));
                                    return t;
                                };
                                for (int step = 0; step < 60; step++)
                                {
                                    Str t = random_text();
                                    if (!m.empty() && below(3) != 0)
                                    {
                                        // a present text, or one that differs from it in one character or in its length
                                        t = m[below(m.size())].first;
                                        const std::size_t how = below(4);
                                        if (how == 0 && !t.empty())
                                            t[below(t.size())] ^= static_cast<Ch>(1);
                                        else if (how == 1)
                                            t.push_back(Ch());
                                        else if (how == 2 && !t.empty())
                                            t.pop_back();
                                    }
                                    std::size_t at = 0;
                                    while (at < m.size() && m[at].first != t)
                                        at++;
                                    const bool in = at < m.size();
                                    const K k = place(t);
                                    VF_CHECK("MODEL", LIB(c->contains(k)) == in && LIB(u->contains(k)) == in && (LIB(c->find(k)) != c->end()) == in && LIB(c->count(k)) == (in ? 1u : 0u), "lookup of a text of length %zu", t.size());
                                    if (in)
                                        VF_CHECK("MODEL", LIB(c->at(k)) == m[at].second, "value of a text of length %zu", t.size());
                                    if (below(3) != 0)
                                    {
                                        if (!in && m.size() == N)
                                            continue;
                                        trace("insert %zu", t.size());
                                        const auto r = LIB(c->try_emplace(k, step));
                                        const auto q = LIB(u->insert(k));
                                        VF_CHECK("MODEL", r.second == !in && q.second == !in && r.first->first == k && *q.first == k, "insert");
                                        if (!in)
                                            m.emplace_back(t, step);
                                    }
                                    else
                                    {
                                        trace("erase %zu", t.size());
                                        const std::size_t r = LIB(c->erase(k));
                                        const std::size_t q = LIB(u->erase(k));
                                        VF_CHECK("MODEL", r == (in ? 1u : 0u) && q == r, "erase");
                                        if (in)
                                            m.erase(m.begin() + static_cast<long>(at));
                                    }
                                    VF_CHECK("MODEL", c->size() == m.size() && u->size() == m.size(), "size");
                                    std::size_t i = 0;
                                    for (auto&& [key, val] : *c)
                                    {
                                        VF_CHECK("MODEL", i < m.size() && View(key) == View(m[i].first) && val == m[i].second, "entry %zu", i);
                                        i++;
                                    }
                                    cover(mix(t.size(), m.size()));
                                }
                                // the same texts in other memory and in another order make an equal container
                                Box<fc::FixedUnorderedMap<K, int, N>> d;
                                for (std::size_t i = m.size(); i > 0; i--)
                                    d->insert({place(m[i - 1].first), m[i - 1].second});
                                VF_CHECK("VALUE", *c == *d && !(*c != *d), "equal texts, unequal containers");
                            });
              });
}
// Owning pointers as keys: found again only by the very same pointer.
inline void owner_keys(const char* name, std::size_t n)
{
    add_group("value",
              name,
              [=]
              {
                  run_cases(n_cases(n),
                            [&]
                            {
                                constexpr std::size_t N = 9;
                                Box<fc::FixedUnorderedMap<std::shared_ptr<int>, int, N>> c;
                                Box<fc::FixedUnorderedSet<std::unique_ptr<int>, N>> u;
                                std::vector<std::pair<std::shared_ptr<int>, int>> m;
                                std::vector<int*> raw;
                                for (int step = 0; step < 40; step++)
                                {
                                    if (m.size() < N && below(3) != 0)
                                    {
                                        auto p = below(9) == 0 ? std::shared_ptr<int>() : std::make_shared<int>(step);
                                        std::size_t at = 0;
                                        while (at < m.size() && m[at].first != p)
                                            at++;
                                        trace("insert");
                                        const auto r = LIB(c->insert_or_assign(p, step));
                                        VF_CHECK("MODEL", r.second == (at == m.size()), "insert_or_assign");
                                        if (at == m.size())
                                            m.emplace_back(p, step);
                                        else
                                            m[at].second = step;
                                    }
                                    else if (!m.empty())
                                    {
                                        const std::size_t at = below(m.size());
                                        trace("erase %zu", at);
                                        VF_CHECK("MODEL", LIB(c->erase(m[at].first)) == 1, "erase");
                                        m.erase(m.begin() + static_cast<long>(at));
                                    }
                                    if (raw.size() < N && below(2))
                                    {
                                        auto o = std::make_unique<int>(step);
                                        raw.push_back(o.get());
                                        trace("insert unique");
                                        const auto r = LIB(u->insert(std::move(o)));
                                        VF_CHECK("MODEL", r.second && r.first->get() == raw.back(), "insert of a unique_ptr");
                                    }
                                    else if (!raw.empty())
                                    {
                                        const std::size_t at = below(raw.size());
                                        trace("erase unique %zu", at);
                                        auto it = u->begin();
                                        while (it->get() != raw[at])
                                            ++it;
                                        LIB(u->erase(it));
                                        raw.erase(raw.begin() + static_cast<long>(at));
                                    }
                                    std::size_t i = 0;
                                    for (auto&& [k, v] : *c)
                                    {
                                        VF_CHECK("MODEL", i < m.size() && k == m[i].first && v == m[i].second, "entry %zu", i);
                                        i++;
                                    }
                                    VF_CHECK("MODEL", i == m.size() && c->size() == i, "%zu entries", i);
                                    i = 0;
                                    for (auto& k : *u)
                                    {
                                        VF_CHECK("MODEL", i < raw.size() && k.get() == raw[i] && u->contains(k), "unique entry %zu", i);
                                        i++;
                                    }
                                    for (auto& [k, v] : m)
                                        VF_CHECK("MODEL", c->contains(k) && c->at(k) == v, "lookup");
                                    VF_CHECK("MODEL", !c->contains(std::make_shared<int>(1)), "phantom");
                                    cover(mix(m.size(), raw.size()));
                                }
                            });
              });
}
#endif

#if PART == 7
template <class E, class V>
void enum_values(const char* name, std::size_t n, bool nan = false)
{
    add_group("value",
              name,
              [=]
              {
                  constexpr std::size_t N = fc::rich_enums::EnumAdapter<E>::count();
                  const auto val = [](std::size_t i) -> decltype(auto) { return (fc::rich_enums::EnumAdapter<E>::values()[i]); };
                  run_cases(n_cases(n),
                            [&]
                            {
                                Box<fc::EnumMap<E, V>> a, b;
                                std::map<std::size_t, V> ma, mb;
                                Box<fc::EnumArray<E, V>> x, y;
                                std::vector<V> mx(N), my(N);
                                Box<fc::EnumSet<E>> s, t;
                                std::set<std::size_t> ms, mt;
                                const bool alike = below(2);
                                for (std::size_t i = 0; i < N; i++)
                                {
                                    const V v = pick<V>(nan), w = alike && below(5) ? v : pick<V>(nan);
                                    (*x)[val(i)] = v;
                                    mx[i] = v;
                                    (*y)[val(i)] = w;
                                    my[i] = w;
                                    const bool in = below(2), in2 = alike && below(6) ? in : below(2);
                                    if (in)
                                    {
                                        a->insert_or_assign(val(i), v);
                                        ma[i] = v;
                                        s->insert(val(i));
                                        ms.insert(i);
                                    }
                                    if (in2)
                                    {
                                        (*b)[val(i)] = w;
                                        mb[i] = w;
                                        t->insert(val(i));
                                        mt.insert(i);
                                    }
                                }
                                auto eq = [](const std::map<std::size_t, V>& p, const std::map<std::size_t, V>& q) { return p == q; };
                                VF_CHECK("VALUE", (*a == *b) == eq(ma, mb) && (*b == *a) == eq(mb, ma) && (*a != *b) == !eq(ma, mb), "EnumMap ==");
                                relations(*x, *y, mx, my);
                                relations(*s, *t, ms, mt);
                                for (std::size_t i = 0; i < N; i++)
                                {
                                    VF_CHECK("MODEL", same((*x)[val(i)], mx[i]) && same(x->at(val(i)), mx[i]), "EnumArray element %zu", i);
                                    VF_CHECK("MODEL", a->contains(val(i)) == (ma.count(i) == 1) && (ma.count(i) == 0 || same(a->at(val(i)), ma[i])), "EnumMap entry %zu", i);
                                }
                                const V v = pick<V>(nan);
                                const std::size_t r = LIB(fc::erase_if(*a, [&](const auto& e) { return e.second == v; }));
                                const std::size_t w = std::erase_if(ma, [&](const auto& e) { return e.second == v; });
                                VF_CHECK("MODEL", r == w && a->size() == ma.size(), "erase_if reports %zu of %zu", r, w);
                                fc::EnumMap<E, V> copy(*a);
                                VF_CHECK("VALUE", (copy == *b) == eq(ma, mb), "EnumMap == of a copy");
                                std::uint64_t h = 1;
                                for (auto& [i, q] : ma)
                                    h = mix(mix(h, i), bits(q));
                                cover(h);
                            });
              });
}
#endif

#if PART == 0
template <class T, std::size_t N>
using Vec = fc::FixedVector<T, N>;
template <class T, std::size_t N>
using Vec2 = fc::FixedVector<T, N, OtherSeq<T, N>>;
#elif PART == 1
template <class T, std::size_t N>
using Deq = fc::FixedDeque<T, N>;
template <class T, std::size_t N>
using Deq2 = fc::FixedDeque<T, N, OtherSeq<T, N>>;
#elif PART == 2
template <class T, std::size_t N>
using Circ = fc::FixedCircularDeque<T, N>;
template <class T, std::size_t N>
using Circ2 = fc::FixedCircularDeque<T, N, OtherSeq<T, N>>;
#elif PART == 3
template <class T, std::size_t N>
using Lst = fc::FixedList<T, N>;
template <class T, std::size_t N>
using Lst2 = fc::FixedList<T, N, OtherSeq<T, N>>;
#endif

#if PART == 5 || PART == 6
template <class K, class V, std::size_t N>
struct OtherMap : fc::customize::MapAbortChecking<K, V, N>
{
};
template <class K, std::size_t N>
struct OtherSet : fc::customize::SetAbortChecking<K, N>
{
};
#endif
#if PART == 5
using fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness;
template <class K, class V, class Less = std::less<K>>
using Map2 = fc::FixedMap<K, V, 7, Less, RedBlackTreeNodeColorCompactness::EMBEDDED_COLOR, fc::FixedIndexBasedPoolStorage, OtherMap<K, V, 7>>;
template <class K, class V, class Less = std::less<K>>
using Map3 = fc::FixedMap<K, V, 7, Less, RedBlackTreeNodeColorCompactness::DEDICATED_COLOR, fc::FixedIndexBasedContiguousStorage>;
template <class K, class Less = std::less<K>>
using Set2 = fc::FixedSet<K, 7, Less, RedBlackTreeNodeColorCompactness::EMBEDDED_COLOR, fc::FixedIndexBasedPoolStorage, OtherSet<K, 7>>;
template <class K, class Less = std::less<K>>
using Set3 = fc::FixedSet<K, 7, Less, RedBlackTreeNodeColorCompactness::DEDICATED_COLOR, fc::FixedIndexBasedContiguousStorage>;
#elif PART == 6
// other policies, another hash and another number of buckets
template <class K, class V, class Hash = fc::wyhash::hash<K>>
using UMap2 = fc::FixedUnorderedMap<K, V, 7, Hash, std::equal_to<K>, 19, OtherMap<K, V, 7>>;
template <class K, class Hash = fc::wyhash::hash<K>>
using USet2 = fc::FixedUnorderedSet<K, 7, Hash, std::equal_to<K>, 19, OtherSet<K, 7>>;
#endif

int main(int argc, char** argv)
{
#if PART == 0
    all_seq<Vec, Vec2>("vector");
#elif PART == 1
    all_seq<Deq, Deq2>("deque");
    adapter<fc::FixedStack<double, 6>, fc::FixedStack<double, 6, OtherSeq<double, 6>>, std::stack<double>, double>("stack<double>", 6, false, 1500);
    adapter<fc::FixedQueue<double, 6>, fc::FixedQueue<double, 6, OtherSeq<double, 6>>, std::queue<double>, double>("queue<double>", 6, false, 1500);
    adapter<fc::FixedStack<Rec, 6>, fc::FixedStack<Rec, 6, OtherSeq<Rec, 6>>, std::stack<Rec>, Rec>("stack<Rec>", 6, false, 1000);
    adapter<fc::FixedQueue<Ci, 6>, fc::FixedQueue<Ci, 6, OtherSeq<Ci, 6>>, std::queue<Ci>, Ci>("queue<Ci>", 6, false, 1000);
#elif PART == 2
    all_seq<Circ, Circ2>("circular_deque");
    adapter<fc::FixedCircularQueue<double, 4>, fc::FixedCircularQueue<double, 4, OtherSeq<double, 4>>, std::queue<double>, double>("circular_queue<double>", 4, true, 1500);
    adapter<fc::FixedCircularQueue<Rec, 4>, fc::FixedCircularQueue<Rec, 4, OtherSeq<Rec, 4>>, std::queue<Rec>, Rec>("circular_queue<Rec>", 4, true, 1000);
#elif PART == 3
    all_seq<Lst, Lst2>("list");
#elif PART == 4
    strings("string", 12000);
#elif PART == 5
    MapRun<fc::FixedMap<double, double, 7>, double, double, 7>::add<fc::FixedMap<double, double, 9>, Map2<double, double>, Map3<double, double, std::less<>>>("map<double,double>", 2500);
    MapRun<fc::FixedMap<int, double, 7>, int, double, 7>::add<fc::FixedMap<int, double, 9>, Map2<int, double>, Map3<int, double, std::less<>>>("map<int,double with NaN>", 1500, true);
    MapRun<fc::FixedMap<Ci, Rec, 7>, Ci, Rec, 7>::add<fc::FixedMap<Ci, Rec, 9>, Map2<Ci, Rec>, Map3<Ci, Rec, std::less<>>>("map<Ci,Rec>", 2000);
    MapRun<fc::FixedMap<Rec, Pad, 7>, Rec, Pad, 7>::add<fc::FixedMap<Rec, Pad, 9>, Map2<Rec, Pad>, Map3<Rec, Pad, std::less<>>>("map<Rec,Pad>", 2000);
    MapRun<fc::FixedMap<signed char, Ci, 7>, signed char, Ci, 7>::add<fc::FixedMap<signed char, Ci, 9>, Map2<signed char, Ci>, Map3<signed char, Ci, std::less<>>>("map<signed char,Ci>", 1500);
    MapRun<fc::FixedMap<long long, long long, 7>, long long, long long, 7>::add<fc::FixedMap<long long, long long, 9>, Map2<long long, long long>, Map3<long long, long long, std::less<>>>("map<long long,long long>", 1500);
    SetRun<fc::FixedSet<double, 7>, double, 7>::add<fc::FixedSet<double, 9>, Set2<double>, Set3<double, std::less<>>>("set<double>", 2500);
    SetRun<fc::FixedSet<Ci, 7>, Ci, 7>::add<fc::FixedSet<Ci, 9>, Set2<Ci>, Set3<Ci, std::less<>>>("set<Ci>", 1500);
    SetRun<fc::FixedSet<Rec, 7>, Rec, 7>::add<fc::FixedSet<Rec, 9>, Set2<Rec>, Set3<Rec, std::less<>>>("set<Rec>", 1500);
    SetRun<fc::FixedSet<Pad, 7>, Pad, 7>::add<fc::FixedSet<Pad, 9>, Set2<Pad>, Set3<Pad, std::less<>>>("set<Pad>", 1500);
    SetRun<fc::FixedSet<signed char, 7>, signed char, 7>::add<fc::FixedSet<signed char, 9>, Set2<signed char>, Set3<signed char, std::less<>>>("set<signed char>", 1500);
#elif PART == 6
    MapRun<fc::FixedUnorderedMap<double, double, 7>, double, double, 7>::add<fc::FixedUnorderedMap<double, double, 9>, UMap2<double, double>>("umap<double,double>", 2500);
    MapRun<fc::FixedUnorderedMap<int, double, 7>, int, double, 7>::add<fc::FixedUnorderedMap<int, double, 9>, UMap2<int, double>>("umap<int,double with NaN>", 1500, true);
    MapRun<fc::FixedUnorderedMap<Ci, Rec, 7, H>, Ci, Rec, 7>::add<fc::FixedUnorderedMap<Ci, Rec, 9, H>, UMap2<Ci, Rec, H>>("umap<Ci,Rec>", 2000);
    MapRun<fc::FixedUnorderedMap<Rec, Pad, 7, H>, Rec, Pad, 7>::add<fc::FixedUnorderedMap<Rec, Pad, 9, H>, UMap2<Rec, Pad, H>>("umap<Rec,Pad>", 2000);
    MapRun<fc::FixedUnorderedMap<signed char, Ci, 7>, signed char, Ci, 7>::add<fc::FixedUnorderedMap<signed char, Ci, 9>, UMap2<signed char, Ci>>("umap<signed char,Ci>", 1500);
    MapRun<fc::FixedUnorderedMap<long long, long long, 7>, long long, long long, 7>::add<fc::FixedUnorderedMap<long long, long long, 9>, UMap2<long long, long long>>("umap<long long,long long>", 1500);
    SetRun<fc::FixedUnorderedSet<double, 7>, double, 7>::add<fc::FixedUnorderedSet<double, 9>, USet2<double>>("uset<double>", 2500);
    SetRun<fc::FixedUnorderedSet<Ci, 7, H>, Ci, 7>::add<fc::FixedUnorderedSet<Ci, 9, H>, USet2<Ci, H>>("uset<Ci>", 1500);
    SetRun<fc::FixedUnorderedSet<Rec, 7, H>, Rec, 7>::add<fc::FixedUnorderedSet<Rec, 9, H>, USet2<Rec, H>>("uset<Rec>", 1500);
    SetRun<fc::FixedUnorderedSet<int*, 7>, int*, 7>::add<fc::FixedUnorderedSet<int*, 9>, USet2<int*>>("uset<int*>", 1500);
    text_keys<std::string, false>("keys<string>", 600);
    text_keys<std::string, true>("keys<string_view>", 600);
    text_keys<std::wstring, false>("keys<wstring>", 300);
    text_keys<std::u16string, true>("keys<u16string_view>", 300);
    owner_keys("keys<owners>", 500);
#else
    enum_values<vfe::E5, double>("enum<E5,double>", 1500);
    enum_values<vfe::E5, double>("enum<E5,double with NaN>", 1500, true);
    enum_values<vfe::ESparse, Rec>("enum<ESparse,Rec>", 1500);
    enum_values<vfe::RichSparse, Ci>("enum<RichSparse,Ci>", 1500);
    enum_values<vfe::RichSparse, signed char>("enum<RichSparse,signed char>", 1500);
    enum_values<vfe::E5, Pad>("enum<E5,Pad>", 1500);
#endif
    return driver_main(argc, argv);
}
