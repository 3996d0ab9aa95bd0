// FixedString against std::string.
#include "fw.hpp"
#include "fixed_containers/fixed_string.hpp"

#include <compare>
#include <list>
#include <sstream>
#include <string_view>
using namespace fixed_containers;
using namespace vf;
#ifndef PART
#define PART -1
#endif
using sv = std::string_view;

inline char rnd_char()
{
    static const char alphabet[] = {'a', 'b', 'c', '\0', '\xff', '\x80', ' ', 'Z', '0', 'a', 'b'};
    if (g_rng.chance(1, 12))
        return static_cast<char>(g_rng.below(256));
    return alphabet[g_rng.below(sizeof alphabet)];
}
inline std::string rnd_str(std::size_t maxlen)
{
    std::string s;
    const std::size_t n = g_rng.below(maxlen + 1);
    for (std::size_t i = 0; i < n; i++)
        s.push_back(rnd_char());
    return s;
}
// null-free variant
inline std::string rnd_cstr(std::size_t maxlen)
{
    std::string s = rnd_str(maxlen);
    for (auto& c : s)
        if (c == '\0')
            c = 'q';
    return s;
}
inline int sgn(int x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }
inline int sgn(std::strong_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }

template <std::size_t N>
struct St
{
    using C = FixedString<N, RecChecking<>>;
    template <std::size_t M>
    using Other = FixedString<M, RecChecking<>>;

    static void verify(Box<C>& b, const std::string& m, const char* kind)
    {
        C& c = *b;
        const C& cc = c;
        VF_CHECK(kind, c.size() == m.size() && cc.length() == m.size(), "size() is %zu, expected %zu", c.size(), m.size());
        VF_CHECK(kind, memcmp(cc.data(), m.data(), m.size()) == 0, "content differs from '%s'", m.c_str());
        VF_CHECK(kind, cc.data()[m.size()] == '\0', "no terminator after the last character (found %d)", cc.data()[m.size()]);
        VF_CHECK(kind, cc.c_str() == cc.data() && c.data() == cc.data(), "c_str()/data()");
        VF_CHECK(kind, cc.empty() == m.empty(), "empty()");
        VF_CHECK(kind, cc.max_size() == N && cc.capacity() == N && C::static_max_size() == N, "max_size()/capacity()");
        VF_CHECK(kind, is_full(cc) == (m.size() == N), "is_full()");
        const sv view = cc;
        VF_CHECK(kind, view == m, "conversion to string_view");
        VF_CHECK(kind, static_cast<std::size_t>(cc.end() - cc.begin()) == m.size(), "end() - begin()");
        VF_CHECK(kind, std::equal(cc.begin(), cc.end(), m.begin(), m.end()), "forward iteration");
        VF_CHECK(kind, std::equal(c.begin(), c.end(), m.begin(), m.end()), "forward iteration (mutable)");
        VF_CHECK(kind, std::equal(cc.rbegin(), cc.rend(), m.rbegin(), m.rend()), "reverse iteration");
        VF_CHECK(kind, std::equal(c.rbegin(), c.rend(), m.rbegin(), m.rend()), "reverse iteration (mutable)");
        VF_CHECK(kind, std::equal(cc.crbegin(), cc.crend(), m.rbegin(), m.rend()), "reverse iteration (const)");
        if (!m.empty())
        {
            const std::size_t i = g_rng.below(m.size());
            VF_CHECK(kind, c[i] == m[i] && cc[i] == m[i] && c.at(i) == m[i] && cc.at(i) == m[i], "[%zu]", i);
            VF_CHECK(kind, c.front() == m.front() && cc.front() == m.front(), "front()");
            VF_CHECK(kind, c.back() == m.back() && cc.back() == m.back(), "back()");
        }
    }
    static typename C::const_iterator at(C& c, std::size_t i) { return std::next(c.cbegin(), static_cast<std::ptrdiff_t>(i)); }
    static void ret(C& c, typename C::iterator it, std::size_t want, const char* what)
    {
        VF_CHECK("MODEL", static_cast<std::size_t>(it - c.begin()) == want, "%s returned position %td, expected %zu", what, it - c.begin(), want);
    }

    static constexpr std::size_t N_OPS = 36;
    static void step(Box<C>& b, std::string& m)
    {
        C& c = *b;
        const std::size_t free = N - m.size();
        const std::size_t op = g_rng.below(N_OPS);
        const std::size_t pos = g_rng.below(m.size() + 1);
        const char ch = rnd_char();
        cover(mix(mix(mix(3, op), pos), m.size()));
        switch (op)
        {
        case 0:
        case 1:
            if (free == 0)
                return;
            trace("push_back(%d)", ch);
            LIB(c.push_back(ch));
            m.push_back(ch);
            break;
        case 2:
            if (m.empty())
                return;
            trace("pop_back");
            LIB(c.pop_back());
            m.pop_back();
            break;
        case 3:
        {
            if (free == 0)
                return;
            trace("insert(@%zu,%d)", pos, ch);
            auto it = LIB(c.insert(at(c, pos), ch));
            ret(c, it, pos, "insert(char)");
            m.insert(pos, 1, ch);
            break;
        }
        case 4:
        case 5:
        {
            const std::string s = rnd_str(g_rng.chance(1, 6) ? free : std::min<std::size_t>(free, 8));
            trace("insert(@%zu,view n=%zu)", pos, s.size());
            auto it = LIB(c.insert(at(c, pos), sv(s)));
            ret(c, it, pos, "insert(view)");
            m.insert(pos, s);
            break;
        }
        case 6:
        {
            const std::string s = rnd_str(g_rng.chance(1, 6) ? free : std::min<std::size_t>(free, 8));
            const std::list<char> l(s.begin(), s.end());
            trace("insert(@%zu,list n=%zu)", pos, s.size());
            auto it = LIB(c.insert(at(c, pos), l.begin(), l.end()));
            ret(c, it, pos, "insert(range)");
            m.insert(pos, s);
            break;
        }
        case 7:
        {
            const std::string s = rnd_str(g_rng.chance(1, 6) ? free : std::min<std::size_t>(free, 8));
            std::vector<int> v(s.begin(), s.end());
            typename InputIt<char>::Src src{v.data(), v.data() + v.size()};
            trace("insert(@%zu,input n=%zu)", pos, s.size());
            auto it = LIB(c.insert(at(c, pos), InputIt<char>(&src), InputIt<char>()));
            ret(c, it, pos, "insert(input)");
            m.insert(pos, s);
            break;
        }
        case 8:
        {
            if (free < 3)
                return;
            trace("insert(@%zu,il)", pos);
            auto it = LIB(c.insert(at(c, pos), {'x', ch, 'y'}));
            ret(c, it, pos, "insert(il)");
            m.insert(pos, std::string{'x', ch, 'y'});
            break;
        }
        case 9:
        {
            if (m.empty())
                return;
            const std::size_t p = g_rng.below(m.size());
            trace("erase(@%zu)", p);
            auto it = LIB(c.erase(at(c, p)));
            ret(c, it, p, "erase(pos)");
            m.erase(p, 1);
            break;
        }
        case 10:
        case 11:
        {
            std::size_t f = g_rng.below(m.size() + 1), l = g_rng.below(m.size() + 1);
            if (f > l)
                std::swap(f, l);
            trace("erase(@%zu..%zu)", f, l);
            auto it = LIB(c.erase(at(c, f), at(c, l)));
            ret(c, it, f, "erase(range)");
            m.erase(f, l - f);
            break;
        }
        case 12:
            if (g_rng.chance(3, 4))
                return;
            trace("clear");
            LIB(c.clear());
            m.clear();
            break;
        case 13:
        case 14:
        {
            const std::size_t n = g_rng.below(N + 1);
            trace("resize(%zu,%d)", n, ch);
            if (op == 13)
            {
                LIB(c.resize(n, ch));
                m.resize(n, ch);
            }
            else
            {
                LIB(c.resize(n));
                m.resize(n);
            }
            break;
        }
        case 15:
        {
            const std::string s = rnd_str(free);
            trace("append(view n=%zu)", s.size());
            C& r = LIB(c.append(sv(s)));
            VF_CHECK("MODEL", &r == &c, "append result");
            m.append(s);
            break;
        }
        case 16:
        {
            const std::string s = rnd_str(free);
            const std::list<char> l(s.begin(), s.end());
            trace("append(list n=%zu)", s.size());
            C& r = LIB(c.append(l.begin(), l.end()));
            VF_CHECK("MODEL", &r == &c, "append result");
            m.append(s);
            break;
        }
        case 17:
            if (free < 2)
                return;
            trace("append(il)");
            LIB(c.append({ch, 'w'}));
            m += ch;
            m += 'w';
            break;
        case 18:
        {
            const std::string s = rnd_cstr(free);
            trace("+=(cstr n=%zu)", s.size());
            C& r = LIB(c += s.c_str());
            VF_CHECK("MODEL", &r == &c, "+= result");
            m += s;
            break;
        }
        case 19:
        {
            const std::string s = rnd_str(free);
            trace("+=(view n=%zu)", s.size());
            LIB(c += sv(s));
            m += s;
            break;
        }
        case 20:
            if (free == 0)
                return;
            trace("+=(char %d)", ch);
            {
                C& r = LIB(c += ch);
                VF_CHECK("MODEL", &r == &c, "+= result");
            }
            m += ch;
            break;
        case 21:
            if (free < 2)
                return;
            trace("+=(il)");
            LIB(c += {ch, ch});
            m += ch;
            m += ch;
            break;
        case 22:
        {
            const std::size_t n = g_rng.below(N + 1);
            trace("assign(%zu,%d)", n, ch);
            C& r = LIB(c.assign(n, ch));
            VF_CHECK("MODEL", &r == &c, "assign result");
            m.assign(n, ch);
            break;
        }
        case 23:
        {
            const std::string s = rnd_str(N);
            trace("assign(view n=%zu)", s.size());
            LIB(c.assign(sv(s)));
            m = s;
            break;
        }
        case 24:
        {
            const std::string s = rnd_str(N);
            const std::list<char> l(s.begin(), s.end());
            trace("assign(list n=%zu)", s.size());
            LIB(c.assign(l.begin(), l.end()));
            m = s;
            break;
        }
        case 25:
            if (N < 3)
                return;
            trace("assign(il)");
            LIB(c.assign({'p', ch, 'q'}));
            m = std::string{'p', ch, 'q'};
            break;
        case 26:  // assignment from a view / literal / other capacity
        {
            const std::string s = rnd_str(N);
            trace("= view n=%zu", s.size());
            LIB(c = sv(s));
            m = s;
            break;
        }
        case 27:
        {
            const std::string s = rnd_cstr(N);
            trace("= cstr n=%zu", s.size());
            LIB(c = s.c_str());
            m = s;
            break;
        }
        case 28:
        {
            const std::string s = rnd_str(N);
            Other<N + 7> o{sv(s)};
            trace("= FixedString<%zu> n=%zu", N + 7, s.size());
            LIB(c = sv(o));
            m = s;
            break;
        }
        case 29:  // write through references and iterators
            if (m.empty())
                return;
            {
                const std::size_t i = g_rng.below(m.size());
                trace("write @%zu %d", i, ch);
                switch (g_rng.below(5))
                {
                case 0: c[i] = ch; break;
                case 1: c.at(i) = ch; break;
                case 2: *std::next(c.begin(), static_cast<std::ptrdiff_t>(i)) = ch; break;
                case 3: c.data()[i] = ch; break;
                default: *std::next(c.rbegin(), static_cast<std::ptrdiff_t>(m.size() - 1 - i)) = ch; break;
                }
                m[i] = ch;
            }
            break;
        case 30:  // views into the string itself
        {
            const std::size_t f = g_rng.below(m.size() + 1);
            const std::size_t n = g_rng.below(std::min(m.size() - f, free) + 1);
            const std::string s = m.substr(f, n);
            trace("insert(@%zu,self[%zu,+%zu])", pos, f, n);
            auto it = LIB(c.insert(at(c, pos), sv(c).substr(f, n)));
            ret(c, it, pos, "insert(view of self)");
            m.insert(pos, s);
            break;
        }
        case 31:
        {
            const std::size_t f = g_rng.below(m.size() + 1);
            const std::size_t n = g_rng.below(std::min(m.size() - f, free) + 1);
            const std::string s = m.substr(f, n);
            if (g_rng.chance(1, 4))
            {
                trace("assign(self[%zu,+%zu])", f, n);
                C& r = LIB(c.assign(sv(c).substr(f, n)));
                VF_CHECK("MODEL", &r == &c, "assign result");
                m = s;
                break;
            }
            trace("append(self[%zu,+%zu])", f, n);
            if (g_rng.chance(1, 2))
                LIB(c.append(sv(c).substr(f, n)));
            else
                LIB(c += sv(c).substr(f, n));
            m += s;
            break;
        }
        case 32:  // fill to exactly the maximum
            if (g_rng.chance(2, 3))
                return;
            trace("fill");
            while (m.size() < N)
            {
                LIB(c.push_back(ch));
                m.push_back(ch);
            }
            break;
        case 33:
            trace("reserve");
            LIB(c.reserve(g_rng.below(N + 1)));
            break;
        case 34:
            trace("sort/reverse");
            if (g_rng.chance(1, 2))
            {
                std::sort(c.begin(), c.end());
                std::sort(m.begin(), m.end());
            }
            else
            {
                std::reverse(c.begin(), c.end());
                std::reverse(m.begin(), m.end());
            }
            break;
        case 35:
            if (m.empty())
                return;
            {
                // s = s.substr(...)
                const std::size_t f = g_rng.below(m.size());
                const std::size_t n = g_rng.below(N + 2);
                trace("= substr(%zu,%zu)", f, n);
                LIB(c = C(c.substr(f, n)));
                m = m.substr(f, n);
            }
            break;
        }
        raise_pending();
    }

    template <std::size_t M>
    static void queries(Box<C>& b, const std::string& m)
    {
        const C& c = *b;
        const std::string needle = g_rng.chance(1, 2) || m.empty() ? rnd_str(g_rng.chance(1, 6) ? M : std::min<std::size_t>(M, 3)) : m.substr(g_rng.below(m.size()), std::min<std::size_t>(M, g_rng.chance(1, 6) ? m.size() : g_rng.below(4)));
        std::string cs = needle;
        for (auto& x : cs)
            if (x == '\0')
                x = 'a';
        const char ch = m.empty() || g_rng.chance(1, 3) ? rnd_char() : m[g_rng.below(m.size())];
        const std::size_t pos = g_rng.chance(1, 6) ? (g_rng.chance(1, 2) ? std::string::npos : g_rng.below(1000)) : g_rng.below(m.size() + 2);
        const std::size_t cnt = g_rng.below(needle.size() + 1);
        const Other<M> fs{sv(needle)};
        // exact-size copy of the needle, not terminated: reading past it is an ASan report
        const std::vector<char> exact(needle.begin(), needle.end());
        const sv nv(exact.data(), exact.size());
        const char* const np = exact.empty() ? "" : exact.data();
        cover(mix(mix(mix(41, pos), needle.size()), m.size()));
        trace("query pos=%zu needle=%zu ch=%d", pos, needle.size(), ch);
#define Q(FN)                                                                                              \
    VF_CHECK("MODEL", LIB(c.FN(fs, pos)) == m.FN(needle, pos), #FN "(FixedString)");                     \
    VF_CHECK("MODEL", LIB(c.FN(fs)) == m.FN(needle), #FN "(FixedString) default pos");                   \
    VF_CHECK("MODEL", LIB(c.FN(nv, pos)) == m.FN(needle, pos), #FN "(view)");                    \
    VF_CHECK("MODEL", LIB(c.FN(nv)) == m.FN(needle), #FN "(view) default pos");                  \
    VF_CHECK("MODEL", LIB(c.FN(cs.c_str(), pos)) == m.FN(cs.c_str(), pos), #FN "(cstr)");                \
    VF_CHECK("MODEL", LIB(c.FN(cs.c_str())) == m.FN(cs.c_str()), #FN "(cstr) default pos");              \
    VF_CHECK("MODEL", LIB(c.FN(np, pos, cnt)) == m.FN(np, pos, cnt), #FN "(cstr,n)");    \
    VF_CHECK("MODEL", LIB(c.FN(ch, pos)) == m.FN(ch, pos), #FN "(char)");                                \
    VF_CHECK("MODEL", LIB(c.FN(ch)) == m.FN(ch), #FN "(char) default pos");
        Q(find)
        Q(rfind)
        Q(find_first_of)
        Q(find_first_not_of)
        Q(find_last_of)
        Q(find_last_not_of)
#undef Q
        VF_CHECK("MODEL", C::npos == std::string::npos, "npos");
        VF_CHECK("MODEL", LIB(c.starts_with(nv)) == m.starts_with(needle), "starts_with(view)");
        VF_CHECK("MODEL", LIB(c.starts_with(ch)) == m.starts_with(ch), "starts_with(char)");
        VF_CHECK("MODEL", LIB(c.starts_with(cs.c_str())) == m.starts_with(cs.c_str()), "starts_with(cstr)");
        VF_CHECK("MODEL", LIB(c.ends_with(nv)) == m.ends_with(needle), "ends_with(view)");
        VF_CHECK("MODEL", LIB(c.ends_with(ch)) == m.ends_with(ch), "ends_with(char)");
        VF_CHECK("MODEL", LIB(c.ends_with(cs.c_str())) == m.ends_with(cs.c_str()), "ends_with(cstr)");
        {
            const std::size_t k = g_rng.below(m.size() + 1);
            VF_CHECK("MODEL", LIB(c.starts_with(sv(m).substr(0, k))), "starts_with(own prefix)");
            VF_CHECK("MODEL", LIB(c.ends_with(sv(m).substr(k))), "ends_with(own suffix)");
            const std::string longer = m + "a";
            VF_CHECK("MODEL", !LIB(c.starts_with(sv(longer))) && !LIB(c.ends_with(sv(longer))), "longer prefix/suffix");
        }
        if (!m.empty())
        {
            const std::size_t p = g_rng.below(m.size());
            const std::size_t n = g_rng.chance(1, 5) ? std::string::npos : g_rng.below(N + 3);
            const sv r = LIB(c.substr(p, n));
            VF_CHECK("MODEL", r == sv(m).substr(p, n) && r.data() == c.data() + p, "substr(%zu,%zu)", p, n);
            VF_CHECK("MODEL", LIB(c.substr(p)) == sv(m).substr(p), "substr(%zu)", p);
            VF_CHECK("MODEL", LIB(c.substr()) == m, "substr()");
        }
        // comparisons with a related string
        std::string o = g_rng.chance(1, 3) ? rnd_str(g_rng.chance(1, 6) ? M : std::min<std::size_t>(M, 6)) : m.substr(0, std::min(m.size(), M));
        if (!o.empty() && g_rng.chance(1, 2))
            o[g_rng.below(o.size())] = rnd_char();
        else if (g_rng.chance(1, 4) && !o.empty())
            o.pop_back();
        const Other<M> fo{sv(o)};
        const int want = sgn(m.compare(o));
        VF_CHECK("MODEL", sgn(LIB(c.compare(sv(o)))) == want, "compare(view)");
        VF_CHECK("MODEL", sgn(LIB(c.compare(fo))) == want, "compare(FixedString)");
#define CMP(RHS)                                                                                             \
    VF_CHECK("MODEL", LIB(c == RHS) == (want == 0) && LIB(c != RHS) == (want != 0), "== / != " #RHS);      \
    VF_CHECK("MODEL", LIB(c < RHS) == (want < 0) && LIB(c <= RHS) == (want <= 0), "< / <= " #RHS);         \
    VF_CHECK("MODEL", LIB(c > RHS) == (want > 0) && LIB(c >= RHS) == (want >= 0), "> / >= " #RHS);         \
    VF_CHECK("MODEL", sgn(LIB(c <=> RHS)) == want, "<=> " #RHS);
        CMP(fo)
        CMP(sv(o))
#undef CMP
        VF_CHECK("MODEL", LIB(sv(o) == c) == (want == 0), "view == string");
        VF_CHECK("MODEL", LIB(sv(o) < c) == (want > 0), "view < string");
        const int wantc = sgn(m.compare(o.c_str()));
        VF_CHECK("MODEL", LIB(c == o.c_str()) == (wantc == 0), "== cstr");
        VF_CHECK("MODEL", sgn(LIB(c <=> o.c_str())) == wantc, "<=> cstr");
        VF_CHECK("MODEL", LIB(c < o.c_str()) == (wantc < 0) && LIB(c >= o.c_str()) == (wantc >= 0), "< cstr");
    }

    static void suite_model(std::size_t cases)
    {
        cases = n_cases(cases);
        for (std::size_t k = 0; k < cases; k++)
            run_case("model N=" + std::to_string(N),
                     [&]
                     {
                         Box<C> b;
                         std::string m;
                         verify(b, m, "MODEL");
                         const std::size_t ops = g_rng.range(1, 60);
                         for (std::size_t i = 0; i < ops; i++)
                         {
                             step(b, m);
                             verify(b, m, "MODEL");
                             if (g_rng.chance(1, 4))
                             {
                                 queries<N + 5>(b, m);
                                 queries<2>(b, m);
                             }
                         }
                     });
    }
    static void suite_ctor(std::size_t cases)
    {
        cases = n_cases(cases);
        for (std::size_t k = 0; k < cases; k++)
            run_case("ctor N=" + std::to_string(N),
                     [&]
                     {
                         const std::string s = g_rng.chance(1, 4) ? std::string(N, rnd_char()) : rnd_str(N);
                         const char ch = rnd_char();
                         const std::size_t which = g_rng.below(5);
                         cover(mix(mix(5, which), s.size()));
                         trace("ctor%zu n=%zu", which, s.size());
                         if (which == 0)
                         {
                             Box<C> b;
                             verify(b, "", "MODEL");
                         }
                         else if (which == 1)
                         {
                             Box<C> b(std::in_place, s.size(), ch);
                             verify(b, std::string(s.size(), ch), "MODEL");
                         }
                         else if (which == 2)
                         {
                             std::string t = s;
                             for (auto& x : t)
                                 if (x == 0)
                                     x = 'z';
                             Box<C> b(std::in_place, t.c_str());
                             verify(b, t, "MODEL");
                         }
                         else if (which == 3)
                         {
                             Box<C> b(std::in_place, sv(s));
                             std::string m = s;
                             verify(b, m, "MODEL");
                             step(b, m);
                             verify(b, m, "MODEL");
                         }
                         else if (N >= 3)
                         {
                             Box<C> b(std::in_place, std::initializer_list<char>{'k', ch, 'l'});
                             verify(b, std::string{'k', ch, 'l'}, "MODEL");
                         }
                         // deduced capacity
                         constexpr auto mk = make_fixed_string("hello\0x");
                         VF_CHECK("MODEL", mk.max_size() == 7 && mk.size() == 7 && sv(mk) == sv("hello\0x", 7), "make_fixed_string");
                         constexpr auto mk0 = make_fixed_string("");
                         VF_CHECK("MODEL", mk0.max_size() == 0 && mk0.empty() && *mk0.c_str() == 0, "make_fixed_string empty");
                     });
    }
    static void suite_stream(std::size_t cases)
    {
        g_alloc_monitor_on = false;
        cases = n_cases(cases);
        for (std::size_t k = 0; k < cases; k++)
            run_case("stream N=" + std::to_string(N),
                     [&]
                     {
                         // random text with words no longer than N
                         std::string text;
                         static const char ws[] = {' ', '\n', '\t', '\r', '\v', '\f'};
                         const std::size_t words = g_rng.below(5);
                         if (g_rng.chance(1, 3))
                             text += ws[g_rng.below(6)];
                         for (std::size_t i = 0; i < words; i++)
                         {
                             const std::size_t len = g_rng.chance(1, 3) ? N : g_rng.range(N == 0 ? 0 : 1, N);
                             for (std::size_t j = 0; j < len; j++)
                                 text += g_rng.chance(1, 12) ? static_cast<char>(0x80 + g_rng.below(0x80)) : static_cast<char>('a' + g_rng.below(26));
                             if (i + 1 < words || g_rng.chance(1, 2))
                                 for (std::size_t j = g_rng.range(1, 2); j > 0; j--)
                                     text += ws[g_rng.below(6)];
                         }
                         trace("stream text n=%zu words=%zu", text.size(), words);
                         cover(mix(mix(51, text.size()), words));
                         std::istringstream is1(text), is2(text);
                         if (g_rng.chance(1, 5))
                         {
                             is1.unsetf(std::ios::skipws);
                             is2.unsetf(std::ios::skipws);
                         }
                         Box<C> b(std::in_place, sv("q").substr(0, N));
                         std::string m(sv("q").substr(0, N));
                         for (int i = 0; i < 7; i++)
                         {
                             LIB(is1 >> *b);
                             is2 >> m;
                             VF_CHECK("MODEL", is1.eof() == is2.eof(), ">>: eof state %d, std::string gives %d", is1.eof(), is2.eof());
                             VF_CHECK("MODEL", is1.fail() == is2.fail() && is1.bad() == is2.bad(), ">>: fail state %d, std::string gives %d", is1.fail(), is2.fail());
                             verify(b, m, "MODEL");
                             if (is1.good())
                                 VF_CHECK("MODEL", is1.peek() == is2.peek(), ">>: next character left in the stream");
                         }
                         std::string x = rnd_str(N);
                         Box<C> o(std::in_place, sv(x));
                         std::ostringstream os1, os2;
                         const int w = static_cast<int>(g_rng.below(N + 4));
                         os1.width(w);
                         os2.width(w);
                         const char fill = static_cast<char>('*' + g_rng.below(3));
                         os1.fill(fill);
                         os2.fill(fill);
                         if (g_rng.chance(1, 2))
                         {
                             os1.setf(std::ios::left, std::ios::adjustfield);
                             os2.setf(std::ios::left, std::ios::adjustfield);
                         }
                         LIB(os1 << static_cast<const C&>(*o));
                         os2 << x;
                         VF_CHECK("MODEL", os1.str() == os2.str(), "<<");
                         // a word that does not fit is reported
                         const std::string too_long = (g_rng.chance(1, 2) ? " " : "") + std::string(N + 1 + g_rng.below(3), 'x') + (g_rng.chance(1, 2) ? " y" : "");
                         std::istringstream is3(too_long);
                         const HitInfo h = catch_hit([&] { is3 >> *b; });
                         VF_CHECK("CHECK", h.hit == Hit::LENGTH_ERROR, ">> of a word longer than the capacity: %s", hit_name(h.hit));
                     });
    }
    static void suite_value(std::size_t cases)
    {
        cases = n_cases(cases);
        for (std::size_t k = 0; k < cases; k++)
            run_case("value N=" + std::to_string(N),
                     [&]
                     {
                         Box<C> a, b;
                         std::string ma, mb;
                         for (std::size_t i = g_rng.below(8); i > 0; i--)
                             step(a, ma);
                         for (std::size_t i = g_rng.below(8); i > 0; i--)
                             step(b, mb);
                         const std::size_t op = g_rng.below(8);
                         cover(mix(mix(mix(61, op), ma.size()), mb.size()));
                         trace("value op%zu", op);
                         switch (op)
                         {
                         case 0:
                         {
                             Box<C> c(std::in_place, static_cast<const C&>(*a));
                             std::string mc = ma;
                             verify(c, mc, "VALUE");
                             step(c, mc);
                             verify(c, mc, "VALUE");
                             break;
                         }
                         case 1:
                         {
                             Box<C> c(std::in_place, std::move(*a));
                             verify(c, ma, "VALUE");
                             LIB(a->clear());
                             ma.clear();
                             break;
                         }
                         case 2:
                             LIB(*a = static_cast<const C&>(*b));
                             ma = mb;
                             break;
                         case 3:
                             LIB(*a = std::move(*b));
                             ma = mb;
                             LIB(b->assign(N > 0 ? "x" : ""));
                             mb = N > 0 ? "x" : "";
                             break;
                         case 4:
                         {
                             C& alias = *a;
                             LIB(*a = alias);
                             break;
                         }
                         case 5:
                         {
                             using std::swap;
                             LIB(swap(*a, *b));
                             std::swap(ma, mb);
                             break;
                         }
                         case 6:
                         {
                             // same content, different history
                             Box<C> c(std::in_place, N, 'J');
                             LIB(c->clear());
                             LIB(c->append(sv(ma)));
                             VF_CHECK("VALUE", LIB(*c == *a) && !(LIB(*c < *a)) && !(LIB(*c > *a)), "equal contents compare different");
                             break;
                         }
                         default:
                         {
                             const int w = sgn(ma.compare(mb));
                             VF_CHECK("VALUE", LIB(*a == *b) == (w == 0), "==");
                             VF_CHECK("VALUE", sgn(LIB(*a <=> *b)) == w, "<=>");
                             break;
                         }
                         }
                         if (op == 3 && N == 0)
                             return;
                         verify(a, ma, "VALUE");
                         verify(b, mb, "VALUE");
                         step(a, ma);
                         verify(a, ma, "VALUE");
                     });
    }
    static void suite_reloc(std::size_t cases)
    {
        static_assert(std::is_trivially_copyable_v<C>);
        cases = n_cases(cases);
        for (std::size_t k = 0; k < cases; k++)
            run_case("reloc N=" + std::to_string(N),
                     [&]
                     {
                         Box<C> a;
                         std::string m;
                         for (std::size_t i = g_rng.below(20); i > 0; i--)
                             step(a, m);
                         Box<C> b(std::in_place, sv(std::string(N, 'W')));
                         memcpy(static_cast<void*>(b.p), static_cast<const void*>(a.p), sizeof(C));
                         memset(static_cast<void*>(a.p), 0xEE, sizeof(C));
                         verify(b, m, "RELOC");
                         for (std::size_t i = g_rng.below(10); i > 0; i--)
                             step(b, m);
                         verify(b, m, "RELOC");
                         new (a.p) C();
                     });
    }
    template <class F>
    static void expect(Box<C>& b, const std::string& m, const char* what, Hit want, long av, long bv, unsigned line, bool keeps, F&& f)
    {
        trace("%s", what);
        const HitInfo h = catch_hit(f);
        VF_CHECK("CHECK", h.hit == want, "%s on size %zu: %s instead of %s", what, m.size(), hit_name(h.hit), hit_name(want));
        if (av >= 0)
            VF_CHECK("CHECK", h.a == static_cast<std::size_t>(av), "%s: reported %zu, expected %ld", what, h.a, av);
        if (bv >= 0)
            VF_CHECK("CHECK", h.b == static_cast<std::size_t>(bv), "%s: reported %zu, expected %ld", what, h.b, bv);
        if (line != 0)
            VF_CHECK("CHECK", h.line == line && std::string(h.file).find("d_string") != std::string::npos, "%s: location %s:%u is not the caller's (line %u)", what, h.file, h.line, line);
        if (keeps)
            verify(b, m, "CHECK");
    }
    static void suite_check(std::size_t cases)
    {
        cases = n_cases(cases);
        for (std::size_t k = 0; k < cases; k++)
            run_case("check N=" + std::to_string(N),
                     [&]
                     {
                         Box<C> b;
                         std::string m;
                         for (std::size_t i = g_rng.below(30); i > 0; i--)
                             step(b, m);
                         C& c = *b;
                         const C& cc = c;
                         const std::size_t n = m.size();
                         cover(mix(71, n));
                         {
                             // an array of characters that is not a literal has to end in a zero
                             char raw[6];
                             for (char& x : raw)
                                 x = static_cast<char>(g_rng.below(3));
                             trace("make_fixed_string of an array ending in %d", raw[5]);
                             volatile std::size_t sink = 0;
                             const auto h = catch_hit([&] { sink = make_fixed_string(raw).size(); });
                             VF_CHECK("CHECK", h.hit == (raw[5] ? Hit::ABORT : Hit::NONE) && (raw[5] || sink == 5), "make_fixed_string of an array ending in %d: %s", raw[5], hit_name(h.hit));
                         }
                         std::size_t idx[] = {n, n + 1, N, N + 1, N + 2, std::size_t{1} << 31, SIZE_MAX, SIZE_MAX - 1, SIZE_MAX / 2};
                         for (const std::size_t i : idx)
                         {
                             if (i < n)
                                 continue;
                             expect(b, m, "at", Hit::OUT_OF_RANGE, static_cast<long>(i), static_cast<long>(n), __LINE__, true, [&] { (void)c.at(i); });
                             expect(b, m, "at const", Hit::OUT_OF_RANGE, static_cast<long>(i), static_cast<long>(n), __LINE__, true, [&] { (void)cc.at(i); });
                             expect(b, m, "[]", Hit::OUT_OF_RANGE, static_cast<long>(i), static_cast<long>(n), 0, true, [&] { (void)c[i]; });
                             expect(b, m, "[] const", Hit::OUT_OF_RANGE, static_cast<long>(i), static_cast<long>(n), 0, true, [&] { (void)cc[i]; });
                             expect(b, m, "substr", Hit::OUT_OF_RANGE, static_cast<long>(i), static_cast<long>(n), __LINE__, true, [&] { (void)cc.substr(i, 1); });
                         }
                         for (const std::size_t i : {N + 1, N + 2, SIZE_MAX})
                             expect(b, m, "reserve", Hit::LENGTH_ERROR, static_cast<long>(i), -1, __LINE__, true, [&] { c.reserve(i); });
                         if (n == 0)
                         {
                             expect(b, m, "front", Hit::EMPTY_ACCESS, -1, -1, __LINE__, true, [&] { (void)c.front(); });
                             expect(b, m, "front const", Hit::EMPTY_ACCESS, -1, -1, __LINE__, true, [&] { (void)cc.front(); });
                             expect(b, m, "back", Hit::EMPTY_ACCESS, -1, -1, __LINE__, true, [&] { (void)c.back(); });
                             expect(b, m, "back const", Hit::EMPTY_ACCESS, -1, -1, __LINE__, true, [&] { (void)cc.back(); });
                             expect(b, m, "pop_back", Hit::EMPTY_ACCESS, -1, -1, __LINE__, true, [&] { c.pop_back(); });
                         }
                         for (const std::size_t i : {N + 2, N + 3, SIZE_MAX})
                             expect(b, m, "resize", Hit::LENGTH_ERROR, static_cast<long>(i), -1, __LINE__, true, [&] { c.resize(i, 'x'); });
                         if (n >= 1)
                         {
                             const auto p = static_cast<std::ptrdiff_t>(g_rng.below(n));
                             const auto q = p + 1 + static_cast<std::ptrdiff_t>(g_rng.below(n - static_cast<std::size_t>(p)));
                             expect(b, m, "erase(last<first)", Hit::INVALID_ARGUMENT, -1, -1, __LINE__, true, [&] { c.erase(c.cbegin() + q, c.cbegin() + p); });
                         }
                         if (n < N)
                         {
                             expect(b, m, "erase(end)", Hit::INVALID_ARGUMENT, -1, -1, __LINE__, true, [&] { c.erase(c.cend()); });
                             const auto beyond = static_cast<std::ptrdiff_t>(1 + g_rng.below(N - n));
                             const auto len = static_cast<std::ptrdiff_t>(g_rng.below(static_cast<std::size_t>(beyond) + n + 1));
                             expect(b, m, "erase(..end+k)", Hit::INVALID_ARGUMENT, -1, -1, __LINE__, true, [&] { c.erase(c.cend() + (beyond - len), c.cend() + beyond); });
                         }
                         // overflow by exactly one (and more): must be reported, memory safe
                         const std::size_t over = N + 1 - n + g_rng.below(3);
                         const std::string s(over, 'o');
                         const std::size_t which = g_rng.below(18);
                         switch (which)
                         {
                         case 0:
                             if (n == N)
                                 expect(b, m, "push_back", Hit::LENGTH_ERROR, -1, -1, __LINE__, false, [&] { c.push_back('x'); });
                             break;
                         case 1:
                             if (n == N)
                                 expect(b, m, "insert(char)", Hit::LENGTH_ERROR, -1, -1, 0, false, [&] { c.insert(c.cbegin(), 'x'); });
                             break;
                         case 2:
                             expect(b, m, "append", Hit::LENGTH_ERROR, -1, -1, __LINE__, false, [&] { c.append(sv(s)); });
                             break;
                         case 3:
                             expect(b, m, "insert(view)", Hit::LENGTH_ERROR, -1, -1, 0, false, [&] { c.insert(c.cbegin(), sv(s)); });
                             break;
                         case 4:
                             expect(b, m, "+=", Hit::LENGTH_ERROR, -1, -1, 0, false, [&] { c += sv(s); });
                             break;
                         case 5:
                             expect(b, m, "assign(n,c)", Hit::LENGTH_ERROR, -1, -1, __LINE__, false, [&] { c.assign(N + 1 + g_rng.below(2), 'x'); });
                             break;
                         case 6:
                             expect(b, m, "assign(view)", Hit::LENGTH_ERROR, -1, -1, __LINE__, false, [&] { c.assign(sv(std::string(N + 1, 'x'))); });
                             break;
                         case 7:
                             expect(b, m, "resize +1", Hit::LENGTH_ERROR, -1, -1, __LINE__, false, [&] { c.resize(N + 1); });
                             break;
                         case 8:
                         {
                             const std::list<char> l(s.begin(), s.end());
                             expect(b, m, "insert(range)", Hit::LENGTH_ERROR, -1, -1, 0, false, [&] { c.insert(std::next(c.cbegin(), static_cast<std::ptrdiff_t>(g_rng.below(n + 1))), l.begin(), l.end()); });
                             break;
                         }
                         case 9:
                         {
                             std::istringstream in(s);
                             expect(b, m, "insert(input)", Hit::LENGTH_ERROR, -1, -1, 0, false, [&] { c.insert(c.cbegin(), std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>()); });
                             break;
                         }
                         case 10:
                         {
                             const std::list<char> l(s.begin(), s.end());
                             expect(b, m, "append(range)", Hit::LENGTH_ERROR, -1, -1, __LINE__, false, [&] { c.append(l.begin(), l.end()); });
                             break;
                         }
                         case 11:
                         {
                             const std::string big(N + 1 + g_rng.below(3), 'q');
                             const std::list<char> l(big.begin(), big.end());
                             expect(b, m, "assign(range)", Hit::LENGTH_ERROR, -1, -1, __LINE__, false, [&] { c.assign(l.begin(), l.end()); });
                             break;
                         }
                         case 12:
                             expect(b, m, "+=(char*)", Hit::LENGTH_ERROR, -1, -1, 0, false, [&] { c += s.c_str(); });
                             break;
                         case 13:
                             if (n + 3 > N)
                                 expect(b, m, "append(il)", Hit::LENGTH_ERROR, -1, -1, __LINE__, false, [&] { c.append({'a', 'b', 'c'}); });
                             break;
                         case 14:
                             if (n + 2 > N)
                                 expect(b, m, "+=(il)", Hit::LENGTH_ERROR, -1, -1, 0, false, [&] { c += {'a', 'b'}; });
                             break;
                         case 15:
                             if (n + 2 > N)
                                 expect(b, m, "insert(il)", Hit::LENGTH_ERROR, -1, -1, 0, false, [&] { c.insert(c.cend(), {'a', 'b'}); });
                             break;
                         case 16:
                             if (n == N)
                                 expect(b, m, "+=(char)", Hit::LENGTH_ERROR, -1, -1, 0, false, [&] { c += 'x'; });
                             break;
                         default:
                         {
                             const std::string big(N + 1, 'x');
                             const HitInfo h3 = catch_hit([&] { C t(big.c_str()); (void)t; });
                             VF_CHECK("CHECK", h3.hit == Hit::LENGTH_ERROR, "constructor from an oversized char*: %s", hit_name(h3.hit));
                             if constexpr (N < 4)
                             {
                                 const HitInfo h4 = catch_hit([&] { C t{'a', 'b', 'c', 'd'}; (void)t; });
                                 VF_CHECK("CHECK", h4.hit == Hit::LENGTH_ERROR, "constructor from an oversized list: %s", hit_name(h4.hit));
                             }
                             const HitInfo h = catch_hit([&] { C t{sv(big)}; (void)t; });
                             VF_CHECK("CHECK", h.hit == Hit::LENGTH_ERROR, "constructor from an oversized view: %s", hit_name(h.hit));
                             const HitInfo h2 = catch_hit([&] { C t(N + 1, 'c'); (void)t; });
                             VF_CHECK("CHECK", h2.hit == Hit::LENGTH_ERROR, "constructor (count) oversized: %s", hit_name(h2.hit));
                         }
                         }
                         LIB(c.clear());
                         m.clear();
                         verify(b, m, "CHECK");
                         step(b, m);
                         verify(b, m, "CHECK");
                     });
    }
    static void reg(std::size_t w)
    {
        const std::string id = "string<" + std::to_string(N) + ">";
        add_group("model", id + "/model", [=] { suite_model(w); });
        add_group("ctor", id + "/ctor", [=] { suite_ctor(w); });
        add_group("stream", id + "/stream", [=] { suite_stream(w); });
        add_group("value", id + "/value", [=] { suite_value(w); });
        add_group("reloc", id + "/reloc", [=] { suite_reloc(w); });
        add_group("check", id + "/check", [=] { suite_check(w / 3 + 5); });
    }
};

int main(int argc, char** argv)
{
#if PART == 0 || PART == -1
    St<0>::reg(100);
    St<1>::reg(800);
    St<2>::reg(800);
#endif
#if PART == 1 || PART == -1
    St<7>::reg(2000);
    St<25>::reg(1500);
#endif
#if PART == 2 || PART == -1
    St<15>::reg(1500);
    St<260>::reg(300);
#endif
    return driver_main(argc, argv);
}
