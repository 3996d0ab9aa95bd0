// The same histories in constant evaluation and at run time (C15).
//
// Every history is a constexpr function from a seed to one digest per step (all return values and the whole
// contents are folded into it).  With CT=1 the histories are evaluated by the compiler and the digests are
// compared with those of the same histories at run time; with CT=0 only the run-time side is compiled, which
// tells "the constant evaluator rejects this" from "this does not compile at all".
// PART 0 vector  1 deque  2 circular deque  3 list, stack, queue  4 string  5 map, set  6 unordered map, set  7 enum containers
#ifndef PART
#define PART 0
#endif
#include "ct.hpp"

// ---------------------------------------------------------------- sequences
template <class C>
constexpr void digest_seq(Dig& d, const C& c)
{
    d.add(c.size());
    d.add(c.empty());
    for (auto it = c.begin(); it != c.end(); ++it)
        d.add(num(*it));
    for (auto it = c.rbegin(); it != c.rend(); ++it)
        d.add(num(*it));
}
constexpr std::size_t STEPS = 40;

// CIRC: inserting beyond the capacity drops elements instead of being an error
template <class C, class T, std::size_t N, bool CIRC>
constexpr auto seq_history(std::uint64_t seed)
{
    Digests<STEPS> out{};
    CRng r{seed * 1000003 + N};
    C c{};
    C other{};
    std::size_t rotate = r.below(N + 1);
    if constexpr (requires { c.push_front(T(1)); c.pop_back(); })
        for (; rotate > 0 && N > 0; --rotate)
        {
            c.push_front(T(static_cast<int>(rotate)));
            c.pop_back();
        }
    int next = 100;
    for (std::size_t step = 0; step < STEPS; step++)
    {
        Dig d;
        const std::size_t room = CIRC ? N : N - c.size();
        const std::size_t at = r.below(c.size() + 1);
        const std::size_t op = r.below(30);
        const auto pos = std::next(c.cbegin(), static_cast<std::ptrdiff_t>(at));
        d.add(op);
        const auto where = [&](auto it) { d.add(static_cast<std::uint64_t>(std::distance(c.begin(), it))); };
        switch (op)
        {
        case 0:
        case 1:
            if (room >= 1)
            {
                const T v(next++);
                c.push_back(v);
            }
            break;
        case 2:
            if (room >= 1)
                c.push_back(T(next++));
            break;
        case 3:
            if (room >= 1)
                d.add(num(c.emplace_back(next++)));
            break;
        case 4:
            if (!c.empty())
                c.pop_back();
            break;
        case 5:
            if constexpr (requires { c.push_front(T(1)); })
                if (room >= 1)
                {
                    const T v(next++);
                    if (r.below(2))
                        c.push_front(v);
                    else
                        c.push_front(T(next++));
                }
            break;
        case 6:
            if constexpr (requires { c.emplace_front(1); })
                if (room >= 1)
                    d.add(num(c.emplace_front(next++)));
            break;
        case 7:
            if constexpr (requires { c.pop_front(); })
                if (!c.empty())
                    c.pop_front();
            break;
        case 8:
        case 9:
            if (room >= 1)
            {
                const T v(next++);
                where(c.insert(pos, v));
            }
            break;
        case 10:
            if (room >= 1)
                where(c.insert(pos, T(next++)));
            break;
        case 11:
            if (room >= 1)
                where(c.emplace(pos, next++));
            break;
        case 12:
            if (room >= 3)
            {
                where(c.insert(pos, {T(next), T(next + 1), T(next + 2)}));
                next += 3;
            }
            break;
        case 13:
        {
            const std::array<T, 4> src{T(next), T(next + 1), T(next + 2), T(next + 3)};
            next += 4;
            const std::size_t n = r.below((room < 4 ? room : 4) + 1);
            if (n || !CIRC)
                where(c.insert(pos, src.begin(), src.begin() + static_cast<std::ptrdiff_t>(n)));
            break;
        }
        case 14:
            if (at < c.size())
                where(c.erase(pos));
            break;
        case 15:
        {
            const std::size_t n = r.below(c.size() - at + 1);
            where(c.erase(pos, std::next(pos, static_cast<std::ptrdiff_t>(n))));
            break;
        }
        case 16:
            if constexpr (requires { c.resize(std::size_t{1}); })
                c.resize(r.below(N + 1));
            break;
        case 17:
            if constexpr (requires(const T& v) { c.resize(std::size_t{1}, v); })
                c.resize(r.below(N + 1), T(next++));
            break;
        case 18:
            if (N >= 2)
                c.assign({T(next), T(next + 1)});
            next += 2;
            break;
        case 19:
        {
            const std::array<T, 3> src{T(next), T(next + 1), T(next + 2)};
            next += 3;
            c.assign(src.begin(), src.begin() + static_cast<std::ptrdiff_t>(r.below((N < 3 ? N : 3) + 1)));
            break;
        }
        case 20:
            c.assign(r.below(N + 1), T(next++));
            break;
        case 21:
            if (r.below(4) == 0)
                c.clear();
            break;
        case 22:
        {
            C copy(c);
            d.add(copy == c);
            digest_seq(d, copy);
            break;
        }
        case 23:
        {
            C moved(std::move(c));
            digest_seq(d, moved);
            c = std::move(moved);
            break;
        }
        case 24:
            other = c;
            break;
        case 25:
            d.add(c == other);
            d.add((c <=> other) < 0);
            d.add((c <=> other) > 0);
            c = other;
            break;
        case 26:
            if (!c.empty())
            {
                d.add(num(c.front()));
                d.add(num(c.back()));
                if constexpr (requires { c.at(std::size_t{0}); })
                {
                    d.add(num(c.at(r.below(c.size()))));
                    d.add(num(c[r.below(c.size())]));
                    c[r.below(c.size())] = T(next++);
                }
                else
                    c.front() = T(next++);
            }
            break;
        case 27:
            if constexpr (requires { fc::erase_if(c, [](const T&) { return true; }); })
                d.add(fc::erase_if(c, [&](const T& v) { return num(v) % 3 == seed % 3; }));
            break;
        case 28:
            if constexpr (requires { std::erase(c, T(1)); })
                if (!c.empty())
                {
                    const T v(c.front());
                    d.add(std::erase(c, v));
                }
            break;
        default:
            if constexpr (requires { c.begin() + 1; })
            {
                const auto b = c.begin() + static_cast<std::ptrdiff_t>(at);
                d.add(static_cast<std::uint64_t>(c.end() - b));
                d.add(b < c.end());
                const auto rb = c.rbegin() + static_cast<std::ptrdiff_t>(c.size() - at);
                d.add(static_cast<std::uint64_t>(c.rend() - rb));
                d.add(rb.base() == b);
            }
            {
                C x(c);
                std::swap(x, other);
                digest_seq(d, x);
                digest_seq(d, other);
                std::swap(x, other);
                digest_seq(d, x);
            }
            break;
        }
        d.add(c.size() == N);
        d.add(is_full(c));
        digest_seq(d, c);
        out[step] = d.h;
    }
    return out;
}
template <class C, class T, std::size_t N, bool CIRC = false>
void seq_groups(const std::string& id)
{
    ct_group<&seq_history<C, T, N, CIRC>, 14>(id);
}
template <class C, std::size_t N>
constexpr auto seq_ctors(std::uint64_t seed)
{
    using T = typename C::value_type;
    Digests<6> out{};
    const int v = static_cast<int>(seed) * 10;
    Dig d;
    C a{T(v), T(v + 1), T(v + 2)};
    digest_seq(d, a);
    out[0] = d.h;
    C b(seed % (N + 1), T(v));
    digest_seq(d, b);
    out[1] = d.h;
    C c(seed % (N + 1));
    digest_seq(d, c);
    out[2] = d.h;
    const std::array<T, 3> src{T(v), T(v + 1), T(v + 2)};
    C e(src.begin(), src.end());
    digest_seq(d, e);
    out[3] = d.h;
    a = {T(v + 5)};
    digest_seq(d, a);
    out[4] = d.h;
    C f(a);
    f = std::move(e);
    C g(std::move(f));
    digest_seq(d, g);
    d.add(g == a);
    d.add(C::static_max_size());
    d.add(g.max_size());
    out[5] = d.h;
    return out;
}

#if PART == 3
template <class A, class T, std::size_t N>
constexpr auto adapter_history(std::uint64_t seed)
{
    Digests<STEPS> out{};
    CRng r{seed * 77 + N};
    A a{};
    A other{};
    for (std::size_t step = 0; step < STEPS; step++)
    {
        Dig d;
        const std::size_t op = r.below(8);
        d.add(op);
        const int v = static_cast<int>(step);
        if (op <= 2 && a.size() < N)
        {
            if (op == 0)
                a.push(T(v));
            else if (op == 1)
                a.emplace(v);
            else
            {
                const T x(v);
                a.push(x);
            }
        }
        else if (op <= 4 && !a.empty())
            a.pop();
        else if (op == 5)
            other = a;
        else if (op == 6)
        {
            A moved(std::move(a));
            a = std::move(moved);
        }
        else
            d.add(a == other);
        d.add(a.size());
        d.add(a.empty());
        if (!a.empty())
        {
            if constexpr (requires { a.top(); })
                d.add(num(a.top()));
            else
            {
                d.add(num(a.front()));
                d.add(num(a.back()));
            }
        }
        out[step] = d.h;
    }
    return out;
}
template <class T, std::size_t N>
constexpr auto list_extra(std::uint64_t seed)
{
    Digests<STEPS> out{};
    CRng r{seed * 31 + N};
    fc::FixedList<T, N> c{};
    for (std::size_t step = 0; step < STEPS; step++)
    {
        Dig d;
        const std::size_t op = r.below(6);
        d.add(op);
        if (op <= 2)
        {
            while (c.size() < N && r.below(4))
                c.push_back(T(static_cast<int>(r.below(4))));
        }
        else if (op == 3)
            d.add(c.remove(T(static_cast<int>(r.below(4)))));
        else if (op == 4)
            d.add(c.remove_if([&](const T& v) { return num(v) % 2 == seed % 2; }));
        else if (!c.empty())
        {
            c.erase(std::next(c.begin(), static_cast<std::ptrdiff_t>(r.below(c.size()))));
            c.push_front(T(9));
        }
        digest_seq(d, c);
        out[step] = d.h;
    }
    return out;
}
#endif

#if PART == 4
template <std::size_t N>
constexpr auto string_history(std::uint64_t seed)
{
    Digests<STEPS> out{};
    CRng r{seed * 101 + N};
    fc::FixedString<N> s{};
    fc::FixedString<N> other{};
    const std::string_view text = "abcabcbbaaccabab";
    for (std::size_t step = 0; step < STEPS; step++)
    {
        Dig d;
        const std::size_t op = r.below(28);
        const std::size_t room = N - s.size();
        const std::size_t at = r.below(s.size() + 1);
        const std::size_t len = r.below(s.size() - at + 1);
        const std::size_t from = r.below(8);
        const std::string_view piece = text.substr(from, r.below((room < 6 ? room : 6) + 1));
        const char ch = static_cast<char>('a' + static_cast<char>(r.below(3)));
        d.add(op);
        switch (op)
        {
        case 0: s.append(piece); break;
        case 1: s += piece; break;
        case 2:
            if (room)
                s.push_back(ch);
            break;
        case 3:
            if (room)
                s += ch;
            break;
        case 4:
            if (room >= 2)
                s.append({ch, 'x'});
            break;
        case 5:
            if (!s.empty())
                s.pop_back();
            break;
        case 6: d.add(static_cast<std::uint64_t>(s.insert(s.cbegin() + static_cast<std::ptrdiff_t>(at), piece) - s.begin())); break;
        case 7:
            if (room)
                d.add(static_cast<std::uint64_t>(s.insert(s.cbegin() + static_cast<std::ptrdiff_t>(at), ch) - s.begin()));
            break;
        case 8:
            if (at < s.size())
                d.add(static_cast<std::uint64_t>(s.erase(s.cbegin() + static_cast<std::ptrdiff_t>(at)) - s.begin()));
            break;
        case 9: s.erase(s.cbegin() + static_cast<std::ptrdiff_t>(at), s.cbegin() + static_cast<std::ptrdiff_t>(at + len)); break;
        case 10: s.resize(r.below(N + 1)); break;
        case 11: s.resize(r.below(N + 1), ch); break;
        case 12: s = piece; break;
        case 13: s.assign(r.below(N + 1), ch); break;
        case 14: s.assign(piece); break;
        case 15:
            if (r.below(3) == 0)
                s.clear();
            break;
        case 16: other = s; break;
        case 17:
            d.add(s == other);
            d.add(s < other);
            d.add(s.compare(other) < 0);
            d.add(s.compare(piece) > 0);
            s = other;
            break;
        case 18:
            d.add(s.find(piece));
            d.add(s.find(ch, at));
            d.add(s.rfind(piece));
            d.add(s.rfind(ch, at));
            break;
        case 19:
            d.add(s.find_first_of(piece, at));
            d.add(s.find_first_not_of(piece));
            d.add(s.find_last_of(piece));
            d.add(s.find_last_not_of(piece, at));
            break;
        case 20:
            d.add(s.starts_with(piece));
            d.add(s.ends_with(piece));
            d.add(s.starts_with(ch));
            break;
        case 21:
            if (at < s.size())
            {
                auto sub = s.substr(at, len);
                for (char c : sub)
                    d.add(num(c));
                d.add(num(s.at(at)));
                s[at] = ch;
            }
            break;
        case 22:
        {
            fc::FixedString<N> m(std::move(s));
            s = std::move(m);
            break;
        }
        case 23:
            d.add(s.c_str()[s.size()] == '\0');
            d.add(std::string_view(s).size());
            break;
        case 24:
            if (room >= 2)
                s.insert(s.cbegin() + static_cast<std::ptrdiff_t>(at), {ch, 'y'});
            break;
        case 25: s.insert(s.cbegin() + static_cast<std::ptrdiff_t>(at), piece.begin(), piece.end()); break;
        case 26:
            if (N >= 2)
                s = {ch, 'z'};
            break;
        default: s.append(piece.begin(), piece.end()); break;
        }
        digest_seq(d, s);
        d.add(s.data()[s.size()] == '\0');
        d.add(s.length());
        out[step] = d.h;
    }
    return out;
}
#endif

#if PART == 5 || PART == 6
// ---------------------------------------------------------------- maps and sets
template <class M>
constexpr void digest_map(Dig& d, const M& m)
{
    d.add(m.size());
    for (auto it = m.begin(); it != m.end(); ++it)
    {
        d.add(num(it->first));
        d.add(num((*it).second));
    }
    if constexpr (requires { m.rbegin(); })
        for (auto it = m.rbegin(); it != m.rend(); ++it)
            d.add(num(it->first));
}
template <class S>
constexpr void digest_set(Dig& d, const S& s)
{
    d.add(s.size());
    for (auto it = s.begin(); it != s.end(); ++it)
        d.add(num(*it));
}
template <class M, class K, class V, std::size_t N>
constexpr auto map_history(std::uint64_t seed)
{
    Digests<STEPS> out{};
    CRng r{seed * 271 + N};
    M m{};
    M other{};
    int next = 1000;
    for (std::size_t step = 0; step < STEPS; step++)
    {
        Dig d;
        const K k(static_cast<int>(r.below(N * 2 + 1)));
        const bool room = m.size() < N;
        const std::size_t op = r.below(22);
        d.add(op);
        auto result = [&](const auto& p)
        {
            d.add(p.second);
            d.add(num(p.first->first));
            d.add(num(p.first->second));
        };
        switch (op)
        {
        case 0:
        case 1:
        case 2:
            if (room)
                result(m.try_emplace(k, next++));
            break;
        case 3:
        case 4:
            if (room)
                m[k] = V(next++);
            break;
        case 5:
            if (room)
                result(m.insert_or_assign(k, V(next++)));
            break;
        case 6:
            if (room)
                result(m.insert(typename M::value_type{k, V(next++)}));
            break;
        case 7:
            if (room)
                result(m.emplace(k, next++));
            break;
        case 8:
        case 9: d.add(m.erase(k)); break;
        case 10:
            if (!m.empty())
            {
                auto it = m.erase(std::next(m.begin(), static_cast<std::ptrdiff_t>(r.below(m.size()))));
                d.add(it == m.end());
                if (it != m.end())
                    d.add(num(it->first));
            }
            break;
        case 11:
        {
            const std::size_t a = r.below(m.size() + 1);
            const std::size_t n = r.below(m.size() - a + 1);
            auto first = std::next(m.begin(), static_cast<std::ptrdiff_t>(a));
            auto it = m.erase(first, std::next(first, static_cast<std::ptrdiff_t>(n)));
            d.add(it == m.end());
            break;
        }
        case 12:
            d.add(m.contains(k));
            d.add(m.count(k));
            d.add(m.find(k) == m.end());
            if (m.contains(k))
                d.add(num(m.at(k)));
            break;
        case 13:
            if constexpr (requires { m.lower_bound(k); })
            {
                d.add(static_cast<std::uint64_t>(std::distance(m.begin(), m.lower_bound(k))));
                d.add(static_cast<std::uint64_t>(std::distance(m.begin(), m.upper_bound(k))));
            }
            if constexpr (requires { m.equal_range(k); })
            {
                auto [a, b] = m.equal_range(k);
                d.add(a == b);
            }
            break;
        case 14:
            if (r.below(3) == 0)
                m.clear();
            break;
        case 15:
        {
            M copy(m);
            d.add(copy == m);
            digest_map(d, copy);
            break;
        }
        case 16:
        {
            M moved(std::move(m));
            digest_map(d, moved);
            m = std::move(moved);
            break;
        }
        case 17: other = m; break;
        case 18:
            d.add(m == other);
            m = other;
            break;
        case 19: d.add(fc::erase_if(m, [&](const auto& e) { return num(e.first) % 3 == seed % 3; })); break;
        case 20:
            for (auto it = m.begin(); it != m.end(); ++it)
                it->second = V(next++);
            break;
        default:
        {
            const K k2(static_cast<int>(r.below(N)));
            if (m.size() + 2 <= N)
                m.insert({typename M::value_type{k, V(next)}, typename M::value_type{k2, V(next + 1)}});
            next += 2;
            break;
        }
        }
        d.add(m.empty());
        d.add(is_full(m));
        digest_map(d, m);
        out[step] = d.h;
    }
    return out;
}
template <class S, class K, std::size_t N>
constexpr auto set_history(std::uint64_t seed)
{
    Digests<STEPS> out{};
    CRng r{seed * 277 + N};
    S m{};
    S other{};
    for (std::size_t step = 0; step < STEPS; step++)
    {
        Dig d;
        const K k(static_cast<int>(r.below(N * 2 + 1)));
        const bool room = m.size() < N;
        const std::size_t op = r.below(16);
        d.add(op);
        switch (op)
        {
        case 0:
        case 1:
        case 2:
        case 3:
            if (room)
            {
                auto p = m.insert(k);
                d.add(p.second);
                d.add(num(*p.first));
            }
            break;
        case 4:
            if (room)
                d.add(m.emplace(static_cast<int>(r.below(N))).second);
            break;
        case 5:
            if (room)
                d.add(m.insert(K(k)).second);
            break;
        case 6:
        case 7: d.add(m.erase(k)); break;
        case 8:
            if (!m.empty())
            {
                const auto after = m.erase(std::next(m.begin(), static_cast<std::ptrdiff_t>(r.below(m.size()))));
                d.add(after == m.end());
            }
            break;
        case 9:
            d.add(m.contains(k));
            d.add(m.count(k));
            d.add(m.find(k) == m.end());
            if constexpr (requires { m.lower_bound(k); })
                d.add(static_cast<std::uint64_t>(std::distance(m.begin(), m.lower_bound(k))));
            break;
        case 10:
        {
            S copy(m);
            d.add(copy == m);
            digest_set(d, copy);
            break;
        }
        case 11:
        {
            S moved(std::move(m));
            m = std::move(moved);
            break;
        }
        case 12: other = m; break;
        case 13:
            d.add(m == other);
            m = other;
            break;
        case 14: d.add(fc::erase_if(m, [&](const K& e) { return num(e) % 3 == seed % 3; })); break;
        default:
            if (r.below(3) == 0)
                m.clear();
            break;
        }
        digest_set(d, m);
        out[step] = d.h;
    }
    return out;
}
#endif
#if PART == 6
struct CHash
{
    constexpr std::uint64_t operator()(const int& v) const { return static_cast<std::uint64_t>(v) * 37; }
    constexpr std::uint64_t operator()(const Own& v) const { return static_cast<std::uint64_t>(*v.p) << 7; }
    constexpr std::uint64_t operator()(const Selfish& v) const { return static_cast<std::uint64_t>(v.get()) << 20; }
};
struct CBad
{
    constexpr std::uint64_t operator()(const int&) const { return 0; }
};
constexpr auto hash_history(std::uint64_t seed)
{
    Digests<8> out{};
    CRng r{seed};
    for (auto& o : out)
    {
        const std::uint64_t v = r.next() >> r.below(64);
        Dig d;
        d.add(fc::wyhash::hash<std::uint64_t>{}(v));
        d.add(fc::wyhash::hash<int>{}(static_cast<int>(v)));
        d.add(fc::wyhash::hash<short>{}(static_cast<short>(v)));
        d.add(fc::wyhash::hash<signed char>{}(static_cast<signed char>(v)));
        d.add(fc::wyhash::hash<bool>{}(v & 1));
        o = d.h;
    }
    return out;
}
#endif

#if PART == 7
template <class E>
constexpr std::uint64_t ord(const E& e)
{
    return static_cast<std::uint64_t>(fc::rich_enums::EnumAdapter<E>::ordinal(e));
}
template <class E>
constexpr const auto& values_of()
{
    return fc::rich_enums::EnumAdapter<E>::values();
}
template <class E, class V>
constexpr auto enum_map_history(std::uint64_t seed)
{
    using M = fc::EnumMap<E, V>;
    constexpr std::size_t N = fc::rich_enums::EnumAdapter<E>::count();
    Digests<STEPS> out{};
    CRng r{seed * 7 + N};
    M m{};
    M other{};
    int next = 10;
    for (std::size_t step = 0; step < STEPS; step++)
    {
        Dig d;
        const E k = values_of<E>()[r.below(N)];
        const std::size_t op = r.below(17);
        d.add(op);
        switch (op)
        {
        case 0:
        case 1: d.add(m.try_emplace(k, next++).second); break;
        case 2: m[k] = V(next++); break;
        case 3: d.add(m.insert_or_assign(k, V(next++)).second); break;
        case 4: d.add(m.insert({k, V(next++)}).second); break;
        case 5:
        case 6: d.add(m.erase(k)); break;
        case 7:
            if (!m.empty())
            {
                auto it = m.erase(std::next(m.begin(), static_cast<std::ptrdiff_t>(r.below(m.size()))));
                d.add(it == m.end() ? 999 : ord(it->first));
            }
            break;
        case 8:
            d.add(m.contains(k));
            d.add(m.count(k));
            if (m.contains(k))
                d.add(num(m.at(k)));
            d.add(m.find(k) == m.end());
            break;
        case 9: other = m; break;
        case 10:
            d.add(m == other);
            m = other;
            break;
        case 11:
        {
            M copy(m);
            M moved(std::move(copy));
            d.add(moved == m);
            break;
        }
        case 12:
            if (r.below(3) == 0)
                m.clear();
            break;
        case 13:
        {
            const std::size_t a = r.below(m.size() + 1);
            const std::size_t n = r.below(m.size() - a + 1);
            auto first = std::next(m.begin(), static_cast<std::ptrdiff_t>(a));
            auto it = m.erase(first, std::next(first, static_cast<std::ptrdiff_t>(n)));
            d.add(it == m.end() ? 999 : ord(it->first));
            break;
        }
        case 14: d.add(fc::erase_if(m, [&](const auto& e) { return (ord(e.first) + seed) % 3 == 0; })); break;
        case 15:
        {
            M moved(std::move(m));
            m = std::move(moved);
            break;
        }
        default:
            for (auto it = m.begin(); it != m.end(); ++it)
                it->second = V(next++);
            break;
        }
        d.add(m.size());
        for (auto it = m.cbegin(); it != m.cend(); ++it)
        {
            d.add(ord(it->first));
            d.add(num(it->second));
        }
        for (auto it = m.rbegin(); it != m.rend(); ++it)
            d.add(num(it->second));
        out[step] = d.h;
    }
    return out;
}
template <class E>
constexpr auto enum_set_history(std::uint64_t seed)
{
    using S = fc::EnumSet<E>;
    constexpr std::size_t N = fc::rich_enums::EnumAdapter<E>::count();
    Digests<STEPS> out{};
    CRng r{seed * 7 + N};
    S m{};
    S other{};
    for (std::size_t step = 0; step < STEPS; step++)
    {
        Dig d;
        const E k = values_of<E>()[r.below(N)];
        const std::size_t op = r.below(14);
        d.add(op);
        switch (op)
        {
        case 0:
        case 1:
        case 2: d.add(m.insert(k).second); break;
        case 3: d.add(m.emplace(k).second); break;
        case 4:
        case 5: d.add(m.erase(k)); break;
        case 6:
            if (!m.empty())
            {
                auto it = m.erase(std::next(m.begin(), static_cast<std::ptrdiff_t>(r.below(m.size()))));
                d.add(it == m.end() ? 999 : ord(*it));
            }
            break;
        case 7:
            d.add(m.contains(k));
            d.add(m.find(k) == m.end());
            break;
        case 8: other = m; break;
        case 9:
            d.add(m == other);
            m = other;
            break;
        case 10:
        {
            const auto c = S::complement_of(m);
            d.add(c.size());
            if (r.below(2))
                m = c;
            break;
        }
        case 11:
            if (r.below(3) == 0)
                m.clear();
            else
                m = r.below(2) ? S::all() : S::none();
            break;
        case 12: d.add(fc::erase_if(m, [&](const E& e) { return (ord(e) + seed) % 3 == 0; })); break;
        default:
        {
            S copy(m);
            S moved(std::move(copy));
            d.add(moved == m);
            break;
        }
        }
        d.add(m.size());
        for (auto it = m.begin(); it != m.end(); ++it)
            d.add(ord(*it));
        for (auto it = m.rbegin(); it != m.rend(); ++it)
            d.add(ord(*it));
        out[step] = d.h;
    }
    return out;
}
template <class E, class V>
constexpr auto enum_array_history(std::uint64_t seed)
{
    constexpr std::size_t N = fc::rich_enums::EnumAdapter<E>::count();
    Digests<STEPS> out{};
    CRng r{seed * 11 + N};
    fc::EnumArray<E, V> a{};
    fc::EnumArray<E, V> other{};
    int next = 1;
    for (std::size_t step = 0; step < STEPS; step++)
    {
        Dig d;
        const E k = values_of<E>()[r.below(N)];
        switch (r.below(6))
        {
        case 0: a[k] = V(next++); break;
        case 1: a.at(k) = V(next++); break;
        case 2: a.fill(V(next++)); break;
        case 3: other = a; break;
        case 4: d.add(a == other); break;
        default: std::swap(a, other); break;
        }
        d.add(a.size());
        for (const auto& v : a)
            d.add(num(v));
        for (const E& e : values_of<E>())
            d.add(num(a[e]));
        out[step] = d.h;
    }
    return out;
}
#endif

int main(int argc, char** argv)
{
#if PART == 0
    ct_group<&seq_ctors<fc::FixedVector<int, 4>, 4>, 5>("vector<int,4> ctors");
    ct_group<&seq_ctors<fc::FixedVector<Own, 4>, 4>, 5>("vector<Own,4> ctors");
    seq_groups<fc::FixedVector<int, 6>, int, 6>("vector<int,6>");
    seq_groups<fc::FixedVector<Own, 5>, Own, 5>("vector<Own,5>");
    seq_groups<fc::FixedVector<Selfish, 7>, Selfish, 7>("vector<Selfish,7>");
#elif PART == 1
    ct_group<&seq_ctors<fc::FixedDeque<int, 4>, 4>, 5>("deque<int,4> ctors");
    ct_group<&seq_ctors<fc::FixedDeque<Own, 4>, 4>, 5>("deque<Own,4> ctors");
    seq_groups<fc::FixedDeque<int, 6>, int, 6>("deque<int,6>");
    seq_groups<fc::FixedDeque<Own, 5>, Own, 5>("deque<Own,5>");
    seq_groups<fc::FixedDeque<Selfish, 7>, Selfish, 7>("deque<Selfish,7>");
#elif PART == 2
    ct_group<&seq_ctors<fc::FixedCircularDeque<int, 4>, 4>, 5>("circular<int,4> ctors");
    ct_group<&seq_ctors<fc::FixedCircularDeque<Own, 4>, 4>, 5>("circular<Own,4> ctors");
    seq_groups<fc::FixedCircularDeque<int, 6>, int, 6, true>("circular<int,6>");
    seq_groups<fc::FixedCircularDeque<Own, 5>, Own, 5, true>("circular<Own,5>");
    seq_groups<fc::FixedCircularDeque<Selfish, 4>, Selfish, 4, true>("circular<Selfish,4>");
#elif PART == 3
    ct_group<&seq_ctors<fc::FixedList<int, 4>, 4>, 5>("list<int,4> ctors");
    ct_group<&seq_ctors<fc::FixedList<Own, 4>, 4>, 5>("list<Own,4> ctors");
    seq_groups<fc::FixedList<int, 6>, int, 6>("list<int,6>");
    seq_groups<fc::FixedList<Own, 5>, Own, 5>("list<Own,5>");
    seq_groups<fc::FixedList<Selfish, 7>, Selfish, 7>("list<Selfish,7>");
    ct_group<&list_extra<int, 6>, 8>("list<int,6> remove");
    ct_group<&list_extra<Own, 6>, 8>("list<Own,6> remove");
    ct_group<&adapter_history<fc::FixedStack<int, 5>, int, 5>, 8>("stack<int,5>");
    ct_group<&adapter_history<fc::FixedStack<Own, 5>, Own, 5>, 8>("stack<Own,5>");
    ct_group<&adapter_history<fc::FixedQueue<int, 5>, int, 5>, 8>("queue<int,5>");
    ct_group<&adapter_history<fc::FixedQueue<Own, 5>, Own, 5>, 8>("queue<Own,5>");
    ct_group<&adapter_history<fc::FixedCircularQueue<int, 3>, int, 5>, 8>("circular_queue<int,3>");
    ct_group<&adapter_history<fc::FixedCircularQueue<Own, 3>, Own, 5>, 8>("circular_queue<Own,3>");
#elif PART == 4
    ct_group<&string_history<8>, 20>("string<8>");
    ct_group<&string_history<20>, 20>("string<20>");
#elif PART == 5
    ct_group<&map_history<fc::FixedMap<int, int, 8>, int, int, 8>, 14>("map<int,int,8>");
    ct_group<&map_history<fc::FixedMap<int, Own, 6>, int, Own, 6>, 10>("map<int,Own,6>");
    ct_group<&map_history<fc::FixedMap<Own, Selfish, 5>, Own, Selfish, 5>, 10>("map<Own,Selfish,5>");
    ct_group<&set_history<fc::FixedSet<int, 8>, int, 8>, 14>("set<int,8>");
    ct_group<&set_history<fc::FixedSet<Own, 6>, Own, 6>, 10>("set<Own,6>");
#elif PART == 6
    ct_group<&map_history<fc::FixedUnorderedMap<int, int, 8>, int, int, 8>, 14>("umap<int,int,8>");
    ct_group<&map_history<fc::FixedUnorderedMap<int, Own, 6, CBad>, int, Own, 6>, 10>("umap<int,Own,6>");
    ct_group<&map_history<fc::FixedUnorderedMap<Own, Selfish, 5, CHash>, Own, Selfish, 5>, 10>("umap<Own,Selfish,5>");
    ct_group<&set_history<fc::FixedUnorderedSet<int, 8, CHash>, int, 8>, 14>("uset<int,8>");
    ct_group<&set_history<fc::FixedUnorderedSet<Own, 6, CHash>, Own, 6>, 10>("uset<Own,6>");
    ct_group<&hash_history, 20>("hash");
#elif PART == 7
    ct_group<&enum_map_history<vfe::E5, int>, 20>("enum_map<E5,int>");
    ct_group<&enum_map_history<vfe::ESparse, Own>, 12>("enum_map<ESparse,Own>");
    ct_group<&enum_map_history<vfe::RichSparse, Selfish>, 12>("enum_map<RichSparse,Selfish>");
    ct_group<&enum_set_history<vfe::E5>, 20>("enum_set<E5>");
    ct_group<&enum_set_history<vfe::E70>, 12>("enum_set<E70>");
    ct_group<&enum_set_history<vfe::RichSparse>, 12>("enum_set<RichSparse>");
    ct_group<&enum_array_history<vfe::E5, int>, 12>("enum_array<E5,int>");
#ifdef __clang__
    ct_group<&enum_array_history<vfe::RichSparse, Own>, 12>("enum_array<RichSparse,Own>");
#else  // gcc 13 miscomputes moves of a plain std::array of non-trivial elements in constant evaluation
    ct_group<&enum_array_history<vfe::RichSparse, int>, 12>("enum_array<RichSparse,int>");
#endif
#endif
    return driver_main(argc, argv);
}
