// Every member of every container, in constant evaluation and at run time (C15).
//
// d_ct.cpp runs long random histories of the common operations; this driver sweeps over the whole public
// interface (const and non-const overloads, all kinds of iterators with all their operations, factories,
// builders, hinted and heterogeneous forms, storage layouts), again as constexpr functions of a seed whose
// digests are compared between the compiler and the run time.
// PART 0 vector, deque  1 circular deque, list, adapters  2 string  3 map, set  4 unordered map, set  5 enum containers
#ifndef PART
#define PART 0
#endif
#include "ct.hpp"
#include "fixed_containers/fixed_index_based_storage.hpp"

#include <algorithm>

struct Pt  // trivially copyable element
{
    int v;
    constexpr Pt(int x = 0) : v(x) {}
    constexpr auto operator<=>(const Pt&) const = default;
};
constexpr std::uint64_t num(const Pt& p) { return static_cast<std::uint64_t>(p.v); }
constexpr std::uint64_t num(std::size_t v) { return v; }
constexpr std::uint64_t num(bool v) { return v; }
template <class A, class B>
constexpr std::uint64_t num(const std::pair<A, B>& p);
template <class E>
    requires fc::rich_enums::has_enum_adapter<std::remove_cvref_t<E>>
constexpr std::uint64_t num(const E& e)
{
    return static_cast<std::uint64_t>(fc::rich_enums::EnumAdapter<std::remove_cvref_t<E>>::ordinal(e)) + 77;
}
template <class A, class B>
constexpr std::uint64_t num(const std::pair<A, B>& p)
{
    return num(p.first) * 1000003 + num(p.second);
}

// single-pass iterator
template <class T>
struct CIn
{
    using iterator_category = std::input_iterator_tag;
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using pointer = const T*;
    using reference = const T&;
    const T* p = nullptr;
    constexpr const T& operator*() const { return *p; }
    constexpr CIn& operator++()
    {
        ++p;
        return *this;
    }
    constexpr CIn operator++(int)
    {
        CIn t = *this;
        ++p;
        return t;
    }
    constexpr bool operator==(const CIn&) const = default;
};

// all operations of one kind of iterator
template <class It>
constexpr void sweep_iter(Dig& d, It b, It e)
{
    {
        It x{};
        It y{};
        d.add(x == y);
        x = b;
        y = It(std::move(x));
        d.add(y == b);
    }
    std::size_t n = 0;
    for (It it = b; it != e; ++it, n++)
        d.add(num(*it));
    d.add(n);
    for (It it = b; it != e;)
    {
        It old = it++;
        d.add(num(*old));
        d.add(old == it);
        if constexpr (requires { it.operator->(); })
        {
            if constexpr (std::is_pointer_v<decltype(old.operator->())>)
                d.add(num(*old.operator->()));
            else
                d.add(num(old->first));
        }
    }
    if constexpr (requires(It i) { --i; })
    {
        for (It it = e; it != b;)
        {
            --it;
            d.add(num(*it));
        }
        for (It it = e; it != b;)
        {
            It old = it--;
            d.add(old == e);
            d.add(num(*it));
        }
    }
    if constexpr (requires(It i) { i + 1; })
    {
        const auto k = static_cast<std::ptrdiff_t>(n / 2);
        d.add(static_cast<std::uint64_t>(e - b));
        It m = b + k;
        d.add(m == k + b);
        d.add(m == e - (static_cast<std::ptrdiff_t>(n) - k));
        d.add(static_cast<std::uint64_t>(m - b));
        d.add(static_cast<std::uint64_t>(b - e));
        d.add(b < m);
        d.add(b <= m);
        d.add(m > b);
        d.add(m >= e);
        if constexpr (requires { b <=> e; })
            d.add((b <=> e) < 0);
        if (n)
        {
            d.add(num(b[static_cast<std::ptrdiff_t>(n) - 1]));
            d.add(num(e[-1]));
        }
        m += 0;
        m -= k;
        d.add(m == b);
        m += static_cast<std::ptrdiff_t>(n);
        d.add(m == e);
    }
    if constexpr (requires { b.base(); })
    {
        d.add(static_cast<std::uint64_t>(std::distance(e.base(), b.base())));
    }
}
template <class C>
constexpr void sweep_iters(Dig& d, C& c)
{
    const C& k = c;
    sweep_iter(d, c.begin(), c.end());
    sweep_iter(d, k.begin(), k.end());
    sweep_iter(d, c.cbegin(), c.cend());
    typename C::const_iterator ci = c.begin();
    d.add(ci == c.cbegin());
    d.add(c.begin() == ci);
    if constexpr (requires { c.rbegin(); })
    {
        sweep_iter(d, c.rbegin(), c.rend());
        sweep_iter(d, k.rbegin(), k.rend());
        sweep_iter(d, c.crbegin(), c.crend());
        typename C::const_reverse_iterator cr = c.rbegin();
        d.add(cr == c.crbegin());
    }
    if constexpr (requires { c.begin() + 1; })
    {
        d.add(static_cast<std::uint64_t>(c.cend() - c.begin()));
        d.add(c.begin() < c.cend());
    }
}
// one digest per section
template <std::size_t K>
struct Sections
{
    Digests<K> out{};
    std::size_t i = 0;
    constexpr void done(Dig& d)
    {
        out[i++] = d.h;
        d = Dig{};
    }
    constexpr Digests<K> get() const { return out; }
};

#if PART <= 1
template <class C>
constexpr void digest(Dig& d, const C& c)
{
    d.add(c.size());
    for (const auto& e : c)
        d.add(num(e));
}
template <class C>
constexpr auto make_one(const typename C::value_type (&list)[3])
{
    using T = typename C::value_type;
#if PART == 0
    if constexpr (std::is_same_v<C, fc::FixedVector<T, C::static_max_size()>>)
        return fc::make_fixed_vector(list);
    else
        return fc::make_fixed_deque(list);
#else
    if constexpr (std::is_same_v<C, fc::FixedList<T, C::static_max_size()>>)
        return fc::make_fixed_list(list);
    else
        return fc::make_fixed_circular_deque(list);
#endif
}
template <class C>
constexpr auto make_none()
{
    using T = typename C::value_type;
#if PART == 0
    if constexpr (std::is_same_v<C, fc::FixedVector<T, C::static_max_size()>>)
        return fc::make_fixed_vector(std::array<T, 0>{});
    else
        return fc::make_fixed_deque(std::array<T, 0>{});
#else
    if constexpr (std::is_same_v<C, fc::FixedList<T, C::static_max_size()>>)
        return fc::make_fixed_list(std::array<T, 0>{});
    else
        return fc::make_fixed_circular_deque(std::array<T, 0>{});
#endif
}
template <template <class, std::size_t> class CT_, class T, std::size_t N>
constexpr auto seq_sweep(std::uint64_t seed)
{
    using C = CT_<T, N>;
    Sections<8> s;
    Dig d;
    CRng r{seed * 17 + N};
    const std::size_t n = seed % (N + 1);
    C c{};
    if constexpr (requires { c.push_front(T(1)); })
        for (std::size_t i = r.below(N + 1); i > 0; --i)
        {
            c.push_front(T(1));
            c.pop_back();
        }
    for (std::size_t i = 0; i < n; i++)
        c.push_back(T(static_cast<int>(r.below(5))));
    sweep_iters(d, c);
    s.done(d);

    {
        const C& k = c;
        d.add(k.max_size());
        d.add(C::static_max_size());
        d.add(k.size());
        d.add(k.empty());
        d.add(is_full(k));
        if constexpr (requires { k.capacity(); })
            d.add(k.capacity());
        if constexpr (requires { c.reserve(N); })
            c.reserve(N);
        if (n)
        {
            d.add(num(k.front()));
            d.add(num(k.back()));
            d.add(num(c.front()));
            d.add(num(c.back()));
            c.front() = T(7);
            c.back() = T(8);
            if constexpr (requires { k.at(std::size_t{0}); })
            {
                d.add(num(k.at(n / 2)));
                d.add(num(k[n / 2]));
                d.add(num(c.at(n / 2)));
                d.add(num(c[n / 2]));
                c.at(n / 2) = T(5);
                c[n - 1] = T(6);
            }
            if constexpr (requires { c.data(); })
            {
                d.add(num(*k.data()));
                d.add(num(*c.data()));
                d.add(c.data() == std::addressof(c.front()));
                if constexpr (std::is_arithmetic_v<T>)
                    d.add(num(k.data()[n - 1]));
            }
        }
        digest(d, c);
        s.done(d);
    }
    {
        C x(c);
        C y(c);
        const T v(static_cast<int>(r.below(5)));
        d.add(fc::erase(x, v));
        digest(d, x);
        d.add(fc::erase_if(y, [](const T& e) { return num(e) % 2 == 0; }));
        digest(d, y);
        d.add(x == y);
        d.add(x != c);
        d.add(x < y);
        d.add(x <= y);
        d.add(x > y);
        d.add(x >= y);
        CT_<T, N + 3> wide(c.begin(), c.end());
        d.add(wide == c);
        d.add((wide <=> x) == 0);
        d.add((wide <=> x) < 0);
        std::swap(x, y);
        digest(d, x);
        s.done(d);
    }
    {
        const std::array<T, 3> src{T(21), T(22), T(23)};
        C x(CIn<T>{src.data()}, CIn<T>{src.data() + 3});
        digest(d, x);
        x.assign(CIn<T>{src.data()}, CIn<T>{src.data() + 2});
        digest(d, x);
        for (std::size_t at = 0; at <= 2; at++)
        {
            C y(x);
            const auto it = y.insert(std::next(y.cbegin(), static_cast<std::ptrdiff_t>(at)), CIn<T>{src.data() + 1}, CIn<T>{src.data() + 1 + std::min<std::size_t>(2, N - 2)});
            d.add(static_cast<std::uint64_t>(std::distance(y.begin(), it)));
            digest(d, y);
            C z(x);
            z.insert(std::next(z.cbegin(), static_cast<std::ptrdiff_t>(at)), src.begin(), src.begin() + static_cast<std::ptrdiff_t>(std::min<std::size_t>(2, N - 2)));
            d.add(z == y);
        }
        s.done(d);
    }
    {
        const T list[] = {T(1), T(2), T(static_cast<int>(seed))};
        auto m = make_one<C>(list);
        digest(d, m);
        d.add(m.max_size());
        d.add(is_full(m));
        auto z = make_none<C>();
        d.add(z.size() + 10 * z.max_size());
        d.add(z.begin() == z.end());
        d.add(z.empty());
        auto z2(z);
        d.add(z2 == z);
        z2.clear();
        s.done(d);
    }
    {
        C a;  // default
        C b(n);
        C e(n, T(3));
        C f{T(1), T(2)};
        digest(d, a);
        digest(d, b);
        digest(d, e);
        digest(d, f);
        f = {T(4), T(5), T(6)};
        digest(d, f);
        f.assign({T(9)});
        f.assign(std::size_t{2}, T(8));
        digest(d, f);
        if constexpr (requires { f.resize(std::size_t{1}); })
        {
            f.resize(3);
            f.resize(1);
            f.resize(3, T(2));
            digest(d, f);
        }
        C g(std::move(f));
        C h;
        h = std::move(g);
        C i;
        i = h;
        i = static_cast<const C&>(i);
        digest(d, i);
        i.clear();
        d.add(i.empty());
        s.done(d);
    }
    {
        C x{};
        d.add(num(x.emplace_back(4)));
        if constexpr (requires { x.emplace_front(1); })
        {
            d.add(num(x.emplace_front(3)));
            x.pop_front();
        }
        x.emplace(x.cbegin(), 5);
        const T v(6);
        x.insert(x.cend(), v);
        if (x.size() < N)
            x.insert(x.cbegin(), T(7));
        x.erase(x.cbegin());
        x.erase(x.cbegin(), std::next(x.cbegin()));
        digest(d, x);
        if constexpr (requires { x.remove(v); })
        {
            d.add(x.remove(T(6)));
            d.add(x.remove_if([](const T&) { return true; }));
            d.add(x.empty());
        }
        s.done(d);
    }
    if constexpr (requires { typename C::Builder; })
    {
        using B = typename C::Builder;
        const std::array<T, 2> two{T(31), T(32)};
        const T v(30);
        B b{};
        b.push_back(v);
        b.push_back_all({T(33)});
        if (N >= 4)
            b.push_back_all(two.begin(), two.end());
        digest(d, static_cast<const B&>(b).build());
        digest(d, std::move(b).build());
        B e{};
        e.push_back_all(two);
        digest(d, e.build());
        digest(d, B{}.push_back(v).push_back_all({T(33)}).build());
        digest(d, B{}.push_back_all(two).build());
        digest(d, B{}.push_back_all(two.begin(), two.end()).build());
    }
    s.done(d);
    return s.get();
}
template <class T, std::size_t N>
using Vec = fc::FixedVector<T, N>;
template <class T, std::size_t N>
using Deq = fc::FixedDeque<T, N>;
template <class T, std::size_t N>
using Circ = fc::FixedCircularDeque<T, N>;
template <class T, std::size_t N>
using Lst = fc::FixedList<T, N>;
#endif

#if PART == 1
template <class A, class T, std::size_t N>
constexpr auto adapter_sweep(std::uint64_t seed)
{
    Sections<1> s;
    Dig d;
    const std::array<T, 3> src{T(1), T(2), T(static_cast<int>(seed))};
    A a(src.begin(), src.end());
    A e(CIn<T>{src.data()}, CIn<T>{src.data() + 2});
    const A& k = a;
    d.add(k.size());
    d.add(k.empty());
    d.add(k.max_size());
    d.add(A::static_max_size());
    d.add(is_full(k));
    a.emplace(11);
    a.push(T(12));
    if constexpr (requires { a.top(); })
    {
        d.add(num(a.top()));
        d.add(num(k.top()));
        a.top() = T(13);
        d.add(num(k.top()));
    }
    else
    {
        d.add(num(a.front()));
        d.add(num(k.front()));
        d.add(num(a.back()));
        d.add(num(k.back()));
        a.front() = T(14);
        a.back() = T(15);
        d.add(num(k.front()));
        d.add(num(k.back()));
    }
    A b(a);
    d.add(b == a);
    d.add(b == e);
    if constexpr (requires { b <=> e; })
        d.add((b <=> e) < 0);
    if constexpr (requires { b < e; })
    {
        d.add(b < e);
        d.add(b != e);
    }
    b.pop();
    d.add(b == a);
    std::swap(a, b);
    d.add(a.size());
    A m(std::move(b));
    e = m;
    e = std::move(m);
    d.add(e.size());
    s.done(d);
    return s.get();
}
#endif

#if PART == 2
template <std::size_t N>
constexpr auto string_sweep(std::uint64_t seed)
{
    Sections<5> s;
    Dig d;
    CRng r{seed * 19 + N};
    using S = fc::FixedString<N>;
    constexpr auto npos = S::npos;
    d.add(npos);
    auto whole = [&d](const auto& x)
    {
        d.add(x.size());
        for (char ch : x)
            d.add(num(ch));
        d.add(x.data()[x.size()] == '\0');
    };
    S c{};
    for (std::size_t i = seed % (N + 1); i > 0; --i)
        c.push_back("abc\0x"[r.below(5)]);
    sweep_iters(d, c);
    const S& k = c;
    d.add(k.max_size() + S::static_max_size() + k.capacity() + k.length());
    d.add(k.empty());
    d.add(is_full(k));
    c.reserve(N);
    if (!k.empty())
    {
        d.add(num(k.front()));
        d.add(num(k.back()));
        d.add(num(k.at(0)));
        d.add(num(k[0]));
        c.front() = 'f';
        c.back() = 'b';
        c.at(k.size() / 2) = 'm';
        c[0] = 'z';
        *c.data() = 'y';
        d.add(num(*k.data()));
        d.add(num(*k.c_str()));
    }
    whole(c);
    s.done(d);

    {
        const std::string_view sv = "bcab";
        const std::array<char, 3> src{'p', 'q', 'r'};
        whole(S(std::size_t{3}, 'w'));
        whole(S("lit"));
        whole(S(sv));
        whole(S{'i', 'l'});
        S x("abc");
        x.assign(std::size_t{2}, 'q');
        whole(x);
        x.assign(src.begin(), src.end());
        whole(x);
        x.assign(CIn<char>{src.data()}, CIn<char>{src.data() + 3});
        whole(x);
        x.assign({'1', '2'});
        whole(x);
        x.assign(sv);
        whole(x);
        x = "ptr";
        whole(x);
        x = sv;
        x = {'u'};
        whole(x);
        x.append("ab");
        x.append(src.begin(), src.begin() + 1);
        whole(x);
        x.clear();
        x.append(CIn<char>{src.data()}, CIn<char>{src.data() + 1});
        x.append({'i'});
        x.append(std::string_view("v"));
        whole(x);
        x.clear();
        x += 'c';
        x += "d";
        x += {'e'};
        x += std::string_view("f");
        whole(x);
        x.erase(x.cbegin());
        x.erase(x.cbegin(), x.cbegin() + 1);
        x.insert(x.cbegin(), 'h');
        x.insert(x.cbegin() + 1, {'i'});
        whole(x);
        x.clear();
        x.insert(x.cbegin(), src.begin(), src.end());
        x.insert(x.cend(), CIn<char>{src.data()}, CIn<char>{src.data() + 1});
        whole(x);
        x.clear();
        x.insert(x.cbegin(), sv);
        x.resize(2);
        x.resize(3, 'k');
        whole(x);
        x.pop_back();
        x.push_back('P');
        whole(x);
        S y(x);
        S z(std::move(y));
        y = z;
        y = std::move(z);
        std::swap(x, y);
        whole(x);
        d.add(fc::make_fixed_string("hello").size());
        whole(fc::make_fixed_string("hello"));
        whole(fc::make_fixed_string(""));
        s.done(d);
    }
    {
        const char* p = "abcab";
        const fc::FixedString<7> f("bca");
        const std::string_view sv = "cab";
        S t("abcabc");
        if (N > 8)
            t.append("ab");
        const S& q = t;
        for (std::size_t pos = 0; pos <= q.size() + 1; pos++)
        {
#define FIND(name)                      \
    d.add(q.name(f, pos));              \
    d.add(q.name(p, pos));              \
    d.add(q.name(p, pos, 2));           \
    d.add(q.name('b', pos));            \
    d.add(q.name(sv, pos));
            FIND(find)
            FIND(rfind)
            FIND(find_first_of)
            FIND(find_first_not_of)
            FIND(find_last_of)
            FIND(find_last_not_of)
#undef FIND
        }
#define FIND(name)        \
    d.add(q.name(f));     \
    d.add(q.name(p));     \
    d.add(q.name('c'));   \
    d.add(q.name(sv));
        FIND(find)
        FIND(rfind)
        FIND(find_first_of)
        FIND(find_first_not_of)
        FIND(find_last_of)
        FIND(find_last_not_of)
#undef FIND
        s.done(d);
    }
    {
        const std::string_view sv = "abd";
        const fc::FixedString<N + 4> wide("abc");
        for (const char* p : {"abc", "ab", "abcd", "", "b"})
        {
            const S q(p);
            d.add(static_cast<std::uint64_t>(q.compare(sv) < 0) + 2 * static_cast<std::uint64_t>(q.compare(sv) > 0));
            d.add(q == sv);
            d.add(q == "abc");
            d.add(q == wide);
            d.add((q <=> wide) < 0);
            d.add((q <=> "abc") < 0);
            d.add((q <=> sv) > 0);
            d.add(q < wide);
            d.add(q >= sv);
            d.add(q != "ab");
            d.add(q.starts_with("ab"));
            d.add(q.starts_with('a'));
            d.add(q.starts_with(std::string_view("abc")));
            d.add(q.ends_with("bc"));
            d.add(q.ends_with('c'));
            d.add(q.ends_with(std::string_view("c")));
            const std::string_view v = q;
            d.add(v.size());
            if (!q.empty())
            {
                d.add(q.substr(0).size());
                d.add(q.substr(0, 1).size());
                d.add(num(q.substr(q.size() - 1, 5).front()));
            }
            d.add(q.size());
        }
        s.done(d);
    }
    d.add(seed);
    s.done(d);
    return s.get();
}
#endif

#if PART == 3 || PART == 4
template <class M>
constexpr void digest(Dig& d, const M& m)
{
    d.add(m.size());
    for (auto it = m.begin(); it != m.end(); ++it)
    {
        if constexpr (requires { it->first; })
        {
            d.add(num(it->first));
            d.add(num(it->second));
        }
        else
            d.add(num(*it));
    }
}
struct Probe  // not a key; only a transparent comparator can look it up
{
    int v;
};
constexpr std::uint64_t num(const Probe& p) { return static_cast<std::uint64_t>(p.v); }
// transparent: compares keys with probes directly
struct TLess
{
    using is_transparent = void;
    template <class T>
    static constexpr int v(const T& t)
    {
        return static_cast<int>(num(t));
    }
    template <class A, class B>
    constexpr bool operator()(const A& a, const B& b) const
    {
        return v(a) < v(b);
    }
};
struct CHash
{
    int shift = 8;
    template <class T>
    constexpr std::uint64_t operator()(const T& v) const
    {
        return num(v) << shift;
    }
};
struct CEq
{
    template <class T>
    constexpr bool operator()(const T& a, const T& b) const
    {
        return num(a) == num(b);
    }
};
template <class M, class K, class V, std::size_t N>
constexpr auto map_sweep(std::uint64_t seed)
{
    Sections<6> s;
    Dig d;
    CRng r{seed * 23 + N};
    using P = typename M::value_type;
    M m{};
    while (m.size() < seed % (N + 1))
    {
        const int rk = static_cast<int>(r.below(50));
        const int rv = static_cast<int>(r.below(90));
        m.try_emplace(K(rk), rv);
    }
    sweep_iters(d, m);
    const M& k = m;
    d.add(k.max_size() + M::static_max_size() + k.size());
    d.add(k.empty());
    d.add(is_full(k));
    s.done(d);
    for (int i = 0; i < 50; i += 3)
    {
        const K key(i);
        d.add(k.contains(key));
        d.add(k.count(key));
        d.add(k.find(key) == k.end());
        d.add(m.find(key) == m.end());
        if (k.contains(key))
        {
            d.add(num(k.at(key)));
            d.add(num(m.at(key)));
            m.at(key) = V(i);
            d.add(num(k.find(key)->second));
            d.add(num(m.find(key)->second));
        }
        auto place = [&](auto a, auto it) { d.add(static_cast<std::uint64_t>(std::distance(a, it))); };
        if constexpr (requires { m.lower_bound(key); })
        {
            place(m.begin(), m.lower_bound(key));
            place(k.begin(), k.lower_bound(key));
            place(m.begin(), m.upper_bound(key));
            place(k.begin(), k.upper_bound(key));
            auto [a, b] = m.equal_range(key);
            place(a, b);
            place(m.begin(), a);
            auto [e, f] = k.equal_range(key);
            place(e, f);
            place(k.begin(), e);
        }
        if constexpr (const Probe pr{i}; requires { m.lower_bound(pr); })
        {
            place(m.begin(), m.lower_bound(pr));
            place(k.begin(), k.lower_bound(pr));
            place(m.begin(), m.upper_bound(pr));
            place(k.begin(), k.upper_bound(pr));
            auto [a, b] = m.equal_range(pr);
            place(a, b);
            auto [e, f] = k.equal_range(pr);
            place(e, f);
            d.add(k.contains(pr));
            d.add(k.count(pr));
            d.add(m.find(pr) == m.end());
            d.add(k.find(pr) == k.end());
        }
    }
    s.done(d);
    {
        M x{};
        auto result = [&](const auto& p)
        {
            d.add(p.second);
            d.add(num(p.first->first));
            d.add(num(p.first->second));
        };
        auto at = [&](const auto& it)
        {
            d.add(num(it->first));
            d.add(num(it->second));
        };
        const K a(1);
        const V v(2);
        for (int round = 0; round < 2; round++)
        {
            x[a] = V(round);
            x[K(2)] = V(3);
            result(x.insert(P{a, V(5)}));
            const P p{K(3), V(6)};
            result(x.insert(p));
            result(x.insert_or_assign(a, v));
            result(x.insert_or_assign(K(4), V(7)));
            at(x.insert_or_assign(x.cbegin(), a, V(8)));
            at(x.insert_or_assign(x.cbegin(), K(4), V(9)));
            digest(d, x);
            if (round == 0)
                x.clear();
            result(x.try_emplace(a, 10));
            result(x.try_emplace(K(5 - round), 11));
            result(x.try_emplace(x.cbegin(), a, 12));
            result(x.try_emplace(x.cbegin(), K(3), 13));
            result(x.emplace(a, 14));
            result(x.emplace(P{K(4), V(15)}));
            result(x.emplace(std::piecewise_construct, std::forward_as_tuple(2), std::forward_as_tuple(16)));
            result(x.emplace_hint(x.cbegin(), K(2), 17));
            digest(d, x);
            d.add(x.erase(K(2)));
            d.add(x.erase(K(99)));
            if (round == 0)
                x.clear();
        }
        s.done(d);
    }
    {
        const std::array<P, 3> src{P{K(5), V(1)}, P{K(3), V(2)}, P{K(9), V(3)}};
        M x(src.begin(), src.end());
        digest(d, x);
        M y{P{K(1), V(2)}, P{K(0), V(4)}};
        digest(d, y);
        y.insert(src.begin(), src.begin() + 2);
        digest(d, y);
        y.erase(y.begin());
        auto it = y.erase(y.cbegin());
        d.add(it == y.end());
        y.insert({P{K(1), V(2)}});
        y.insert(CIn<P>{src.data()}, CIn<P>{src.data() + 3});
        digest(d, y);
        y.erase(y.cbegin(), std::next(y.cbegin(), 2));
        digest(d, y);
        d.add(x == y);
        d.add(x != y);
        d.add(fc::erase_if(x, [](const auto& e) { return num(e.first) == 3; }));
        std::swap(x, y);
        digest(d, x);
        M z(x);
        M w(std::move(z));
        z = w;
        z = std::move(w);
        digest(d, z);
        d.add(z == x);
        s.done(d);
    }
    {
        const std::pair<K, V> list[] = {{K(4), V(1)}, {K(2), V(2)}};
#if PART == 3
        auto a = fc::make_fixed_map(list);
        auto b = fc::make_fixed_map(list, TLess{});
        auto c = fc::make_fixed_map(std::array<std::pair<K, V>, 0>{});
        auto e = fc::make_fixed_map(std::array<std::pair<K, V>, 0>{}, TLess{});
        fc::FixedMap<K, V, 4, TLess> given(TLess{});
        given.try_emplace(K(1), 2);
        digest(d, given);
        digest(d, fc::FixedMap<K, V, 4, TLess>(list, list + 2, TLess{}));
        d.add(given == given);
#else
        auto a = fc::make_fixed_unordered_map(list, CHash{}, CEq{});
        auto b = fc::make_fixed_unordered_map(list, CHash{9}, CEq{});
        auto c = fc::make_fixed_unordered_map(std::array<std::pair<K, V>, 0>{}, CHash{}, CEq{});
        auto e = fc::make_fixed_unordered_map(std::array<std::pair<K, V>, 0>{}, CHash{9}, CEq{});
        fc::FixedUnorderedMap<K, V, 4, CHash, CEq> given(CHash{4}, CEq{});
        given.try_emplace(K(1), 2);
        digest(d, given);
        digest(d, fc::FixedUnorderedMap<K, V, 4, CHash, CEq>(list, list + 2, CHash{4}, CEq{}));
#endif
        digest(d, a);
        digest(d, b);
        d.add(a.max_size());
        d.add(c.size() + c.max_size());
        d.add(e.size() + e.max_size());
        d.add(c.find(K(1)) == c.end());
        d.add(c.begin() == c.end());
        s.done(d);
    }
    d.add(seed);
    s.done(d);
    return s.get();
}
template <class S, class K, std::size_t N>
constexpr auto set_sweep(std::uint64_t seed)
{
    Sections<4> s;
    Dig d;
    CRng r{seed * 29 + N};
    S m{};
    while (m.size() < seed % (N + 1))
        m.insert(K(static_cast<int>(r.below(50))));
    sweep_iters(d, m);
    const S& k = m;
    d.add(k.max_size() + S::static_max_size() + k.size());
    d.add(k.empty());
    d.add(is_full(k));
    s.done(d);
    for (int i = 0; i < 50; i += 3)
    {
        const K key(i);
        d.add(k.contains(key));
        d.add(k.count(key));
        d.add(k.find(key) == k.end());
        d.add(m.find(key) == m.end());
        auto place = [&](auto a, auto it) { d.add(static_cast<std::uint64_t>(std::distance(a, it))); };
        if constexpr (requires { m.lower_bound(key); })
        {
            place(k.begin(), k.lower_bound(key));
            place(k.begin(), k.upper_bound(key));
            auto [e, f] = k.equal_range(key);
            place(e, f);
            place(k.begin(), e);
        }
        if constexpr (const Probe pr{i}; requires { m.lower_bound(pr); })
        {
            place(k.begin(), k.lower_bound(pr));
            place(k.begin(), k.upper_bound(pr));
            auto [e, f] = k.equal_range(pr);
            place(e, f);
            d.add(k.contains(pr));
            d.add(k.count(pr));
            d.add(k.find(pr) == k.end());
        }
    }
    s.done(d);
    {
        const std::array<K, 4> src{K(5), K(3), K(9), K(5)};
        S x(src.begin(), src.end());
        digest(d, x);
        S y{K(1), K(0)};
        y.insert(src.begin(), src.begin() + 2);
        digest(d, y);
        y.erase(y.begin());
        y.insert(CIn<K>{src.data()}, CIn<K>{src.data() + 3});
        const K a(1);
        d.add(num(*y.insert(y.cbegin(), a)));
        y.erase(K(0));
        d.add(num(*y.insert(y.cbegin(), K(1))));
        y.insert({K(3), K(5)});
        digest(d, y);
        d.add(y.insert(a).second);
        d.add(y.insert(K(9)).second);
        d.add(y.emplace(9).second);
        auto h = y.emplace_hint(y.cbegin(), 9);
        if constexpr (requires { h.second; })
            d.add(num(*h.first));
        else
            d.add(num(*h));
        if constexpr (requires { y.try_emplace(a); })
        {
            d.add(y.try_emplace(a).second);
            d.add(y.try_emplace(K(3)).second);
            d.add(num(*y.try_emplace(y.cbegin(), a).first));
            d.add(num(*y.try_emplace(y.cbegin(), K(3)).first));
        }
        const auto after = y.erase(y.cbegin(), std::next(y.cbegin(), 2));
        d.add(after == y.cend());
        digest(d, y);
        d.add(y.erase(K(77)));
        d.add(x == y);
        d.add(x != y);
        d.add(fc::erase_if(x, [](const K& e) { return num(e) == 3; }));
        std::swap(x, y);
        digest(d, x);
        S z(x);
        S w(std::move(z));
        z = w;
        z = std::move(w);
        digest(d, z);
        z.clear();
        d.add(z.empty());
        s.done(d);
    }
    {
        const K list[] = {K(4), K(2)};
#if PART == 3
        auto a = fc::make_fixed_set(list);
        auto b = fc::make_fixed_set(list, TLess{});
        auto c = fc::make_fixed_set(std::array<K, 0>{});
        auto e = fc::make_fixed_set(std::array<K, 0>{}, TLess{});
        fc::FixedSet<K, 4, TLess> given(TLess{});
        given.insert(K(1));
        digest(d, given);
        digest(d, fc::FixedSet<K, 4, TLess>(list, list + 2, TLess{}));
#else
        auto a = fc::make_fixed_unordered_set(list, CHash{}, CEq{});
        auto b = fc::make_fixed_unordered_set(list, CHash{9}, CEq{});
        auto c = fc::make_fixed_unordered_set(std::array<K, 0>{}, CHash{}, CEq{});
        auto e = fc::make_fixed_unordered_set(std::array<K, 0>{}, CHash{9}, CEq{});
        fc::FixedUnorderedSet<K, 4, CHash, CEq> given(CHash{4}, CEq{});
        given.insert(K(1));
        digest(d, given);
        digest(d, fc::FixedUnorderedSet<K, 4, CHash, CEq>(list, list + 2, CHash{4}, CEq{}));
#endif
        digest(d, a);
        digest(d, b);
        d.add(a.max_size());
        d.add(c.size() + c.max_size());
        d.add(e.size() + e.max_size());
        d.add(c.find(K(1)) == c.end());
        s.done(d);
    }
    return s.get();
}
#endif

#if PART == 3
using fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness;
constexpr auto EMB = RedBlackTreeNodeColorCompactness::EMBEDDED_COLOR;
constexpr auto DED = RedBlackTreeNodeColorCompactness::DEDICATED_COLOR;
static constexpr std::array<int, 6> TARGETS{1, 2, 3, 4, 5, 6};
constexpr auto ref_sweep(std::uint64_t seed)
{
    Sections<1> s;
    Dig d;
    fc::FixedMap<int, const int&, 5> m{};
    for (std::size_t i = 0; i < 4; i++)
        m.try_emplace(static_cast<int>((seed * 7 + i * 3) % 11), TARGETS[i]);
    for (auto it = m.begin(); it != m.end(); ++it)
        d.add(num(it->second));
    fc::FixedMap<int, const int&, 5> c(m);
    c.erase(c.begin());
    c.emplace(40, TARGETS[5]);
    for (auto it = c.begin(); it != c.end(); ++it)
        d.add(num(it->second));
    m = c;
    d.add(num(m.at(40)));
    d.add(std::addressof(m.at(40)) == std::addressof(TARGETS[5]));
    s.done(d);
    return s.get();
}
#endif
#if PART == 4
static constexpr std::array<int, 6> TARGETS{1, 2, 3, 4, 5, 6};
constexpr auto ref_sweep(std::uint64_t seed)
{
    Sections<1> s;
    Dig d;
    fc::FixedUnorderedMap<int, const int&, 5> m{};
    for (std::size_t i = 0; i < 4; i++)
        m.try_emplace(static_cast<int>((seed * 7 + i * 3) % 11), TARGETS[i]);
    for (auto it = m.begin(); it != m.end(); ++it)
        d.add(num(it->second));
    fc::FixedUnorderedMap<int, const int&, 5> c(m);
    c.erase(c.begin());
    c.emplace(40, TARGETS[5]);
    for (auto it = c.begin(); it != c.end(); ++it)
        d.add(num(it->second));
    m = c;
    d.add(num(m.at(40)));
    d.add(std::addressof(m.at(40)) == std::addressof(TARGETS[5]));
    s.done(d);
    return s.get();
}
enum class HE : short { A = -3, B = 4, C = 300 };
constexpr auto hash_sweep(std::uint64_t seed)
{
    Sections<1> s;
    Dig d;
    d.add(fc::wyhash::hash<HE>{}(seed % 2 ? HE::A : HE::C));
    d.add(fc::wyhash::hash<HE>{}(HE::B));
    d.add(fc::wyhash::hash<char>{}(static_cast<char>(seed)));
    d.add(fc::wyhash::hash<std::uint64_t>{}(seed * 0x9E3779B97F4A7C15ULL));
    fc::FixedUnorderedMap<HE, int, 3> m{{HE::A, 1}, {HE::C, 2}};
    d.add(num(m.at(HE::C)));
    d.add(m.contains(HE::B));
    s.done(d);
    return s.get();
}
#endif

#if PART == 5
template <class E>
constexpr const auto& vals()
{
    return fc::rich_enums::EnumAdapter<E>::values();
}
template <class C>
constexpr void digest(Dig& d, const C& c)
{
    d.add(c.size());
    for (auto it = c.begin(); it != c.end(); ++it)
    {
        if constexpr (requires { it->second; })
        {
            d.add(num(it->first));
            d.add(num(it->second));
        }
        else
            d.add(num(*it));
    }
}
template <class E, class V>
constexpr auto enum_map_sweep(std::uint64_t seed)
{
    using M = fc::EnumMap<E, V>;
    using P = typename M::value_type;
    constexpr std::size_t N = fc::rich_enums::EnumAdapter<E>::count();
    Sections<5> s;
    Dig d;
    M m{};
    for (std::size_t i = 0; i < N; i++)
        if ((seed >> (i % 8)) & 1)
            m.try_emplace(vals<E>()[i], static_cast<int>(i * 3));
    sweep_iters(d, m);
    const M& k = m;
    d.add(k.max_size() + M::static_max_size() + k.size());
    d.add(k.empty());
    d.add(is_full(k));
    s.done(d);
    for (std::size_t i = 0; i < N; i++)
    {
        const E e = vals<E>()[i];
        d.add(k.contains(e));
        if constexpr (requires { k.count(e); })
            d.add(k.count(e));
        d.add(k.find(e) == k.end());
        d.add(m.find(e) == m.end());
        if (k.contains(e))
        {
            d.add(num(k.at(e)));
            m.at(e) = V(6);
            d.add(num(k.find(e)->second));
            d.add(num(m.find(e)->second));
        }
    }
    s.done(d);
    {
        const E a = vals<E>()[0];
        const E z = vals<E>()[N - 1];
        M x{};
        auto result = [&](const auto& p)
        {
            d.add(p.second);
            d.add(num(p.first->first));
            d.add(num(p.first->second));
        };
        for (int round = 0; round < 2; round++)
        {
            x[a] = V(round);
            x[E(z)] = V(round + 3);
            const P p{a, V(5)};
            result(x.insert(p));
            result(x.insert(P{z, V(6)}));
            result(x.insert_or_assign(a, V(7)));
            d.add(num(x.insert_or_assign(x.cbegin(), z, V(8))->second));
            if (round == 0)
                x.clear();
            result(x.try_emplace(a, 9));
            result(x.try_emplace(x.cbegin(), z, 10));
            result(x.emplace(a, 11));
            result(x.emplace(P{z, V(12)}));
            result(x.emplace_hint(x.cbegin(), a, 13));
            if (round == 0)
                x.clear();
            result(x.emplace(a, 11));
            if (round == 0)
                x.clear();
            result(x.emplace(P{z, V(12)}));
            if (round == 0)
                x.clear();
            result(x.emplace_hint(x.cbegin(), a, 13));
            digest(d, x);
        }
        d.add(x.erase(a));
        x.insert({P{a, V(1)}, P{z, V(2)}});
        auto it = x.erase(x.begin());
        d.add(it == x.end());
        x.insert(P{a, V(1)});
        it = x.erase(x.cbegin());
        d.add(it == x.end());
        const std::array<P, 2> src{P{z, V(3)}, P{a, V(4)}};
        x.insert(src.begin(), src.end());
        digest(d, x);
        it = x.erase(x.cbegin(), x.cend());
        d.add(it == x.end());
        d.add(x.empty());
        s.done(d);
        M y(src.begin(), src.end());
        M w{P{a, V(4)}, P{z, V(3)}};
        d.add(y == w);
        d.add(y != w);
        d.add(fc::erase_if(y, [](const auto& e) { return num(e.second) == 4; }));
        std::swap(y, w);
        digest(d, y);
        M v(y);
        M u(std::move(v));
        v = u;
        v = std::move(u);
        digest(d, v);
        s.done(d);
        digest(d, M::create_with_keys(vals<E>(), V(5)));
        digest(d, M::create_with_keys(std::array<E, 1>{a}));
        auto all = [&]
        {
            return [&]<std::size_t... I>(std::index_sequence<I...>) { return std::array<P, N>{P{vals<E>()[N - 1 - I], V(static_cast<int>(I))}...}; }(std::make_index_sequence<N>{});
        }();
        digest(d, M::create_with_all_entries(all));
        using B = typename M::Builder;
        B b{};
        const P p{a, V(5)};
        b.insert(p);
        b.insert(P{z, V(6)});
        b.insert({P{z, V(7)}});
        b.insert(src.begin(), src.end());
        digest(d, static_cast<const B&>(b).build());
        digest(d, std::move(b).build());
        digest(d, B{}.insert(p).insert(P{z, V(6)}).insert({P{z, V(7)}}).insert(src.begin(), src.end()).build());
        s.done(d);
    }
    return s.get();
}
constexpr auto enum_map_ilist(std::uint64_t seed)
{
    using vfe::E5;
    Sections<1> s;
    Dig d;
    const int v = static_cast<int>(seed);
    const auto& e = vals<E5>();
    digest(d, fc::EnumMap<E5, int>::create_with_all_entries({{e[0], v}, {e[4], 2}, {e[2], 3}, {e[1], 4}, {e[3], 5}}));
    digest(d, fc::EnumMap<E5, Own>::create_with_all_entries({{e[0], Own(v)}, {e[4], Own(2)}, {e[2], Own(3)}, {e[1], Own(4)}, {e[3], Own(5)}}));
    fc::EnumMap<E5, Pt> p{{e[1], Pt(v)}};
    p.insert_or_assign(e[1], Pt(9));
    digest(d, p);
    s.done(d);
    return s.get();
}
template <class E>
constexpr auto enum_set_sweep(std::uint64_t seed)
{
    using S = fc::EnumSet<E>;
    constexpr std::size_t N = fc::rich_enums::EnumAdapter<E>::count();
    Sections<3> s;
    Dig d;
    S m{};
    for (std::size_t i = 0; i < N; i++)
        if ((seed >> (i % 8)) & 1)
            m.insert(vals<E>()[i]);
    sweep_iters(d, m);
    const S& k = m;
    d.add(k.max_size() + S::static_max_size() + k.size());
    d.add(k.empty());
    d.add(is_full(k));
    d.add(is_full(S::all()));
    for (std::size_t i = 0; i < N; i++)
    {
        const E e = vals<E>()[i];
        d.add(k.contains(e));
        if constexpr (requires { k.count(e); })
            d.add(k.count(e));
        d.add(k.find(e) == k.end());
    }
    s.done(d);
    const E a = vals<E>()[0];
    const E z = vals<E>()[N - 1];
    const std::array<E, 2> src{z, a};
    S x(src.begin(), src.end());
    S y{a};
    d.add(y.insert(z).second);
    d.add(num(*y.insert(y.cbegin(), z)));
    y.insert({a, z});
    y.insert(src.begin(), src.end());
    d.add(y.emplace(a).second);
    d.add(num(*y.emplace_hint(y.cbegin(), a)));
    digest(d, y);
    d.add(x == y);
    d.add(y.erase(a));
    d.add(x != y);
    const auto after1 = y.erase(y.cbegin());
    d.add(after1 == y.cend());
    y.insert({a, z});
    const auto after2 = y.erase(y.cbegin(), std::next(y.cbegin()));
    d.add(after2 == y.cbegin());
    digest(d, y);
    y.clear();
    d.add(y.empty());
    digest(d, S::all());
    digest(d, S::none());
    digest(d, S::complement_of(src));
    digest(d, S::copy_of(src));
    d.add(fc::erase_if(x, [&](const E& e) { return e == a; }));
    std::swap(x, m);
    digest(d, x);
    digest(d, m);
    S u(x);
    S v(std::move(u));
    u = v;
    u = std::move(v);
    digest(d, u);
    s.done(d);
    using B = typename S::Builder;
    B b{};
    b.insert(a);
    b.insert({z});
    b.insert(src.begin(), src.end());
    b.insert(src);
    b.erase(a);
    digest(d, static_cast<const B&>(b).build());
    digest(d, std::move(b).build());
    digest(d, B{}.insert(a).insert({z}).insert(src.begin(), src.end()).insert(src).erase(z).build());
    s.done(d);
    return s.get();
}
struct NoDefault
{
    int v;
    constexpr explicit NoDefault(int x) : v(x) {}
    constexpr bool operator==(const NoDefault&) const = default;
};
constexpr std::uint64_t num(const NoDefault& n) { return static_cast<std::uint64_t>(n.v); }
template <class E, class T>
constexpr auto enum_array_sweep(std::uint64_t seed)
{
    using A = fc::EnumArray<E, T>;
    using P = std::pair<const E, T>;
    constexpr std::size_t N = fc::rich_enums::EnumAdapter<E>::count();
    Sections<2> s;
    Dig d;
    A x{};
    const A& k = x;
    for (std::size_t i = 0; i < N; i++)
    {
        const E e = vals<E>()[i];
        x[e] = T(static_cast<int>(i + seed));
        d.add(num(k[e]));
        x.at(e) = T(static_cast<int>(i * 2 + seed));
        d.add(num(k.at(e)));
        d.add(num(x[e]));
        d.add(num(x.at(e)));
    }
    auto walk = [&d](auto b, auto e)
    {
        for (auto it = b; it != e; ++it)
            d.add(num(*it));
    };
    walk(x.begin(), x.end());
    walk(k.begin(), k.end());
    walk(x.cbegin(), x.cend());
    walk(x.rbegin(), x.rend());
    walk(k.rbegin(), k.rend());
    walk(x.crbegin(), x.crend());
    x.front() = T(50);
    x.back() = T(51);
    d.add(num(x.front()) + num(k.front()) + num(x.back()) + num(k.back()));
    d.add(num(*x.data()));
    d.add(num(*k.data()));
    d.add(k.empty());
    d.add(k.size() + k.max_size());
    d.add(num(k.labels()[N - 1]));
    s.done(d);
    const E a = vals<E>()[0];
    const E z = vals<E>()[N - 1];
    A y{P{a, T(1)}, P{z, T(2)}};
    walk(y.begin(), y.end());
    const std::array<std::pair<E, T>, 2> src{std::pair<E, T>{z, T(5)}, std::pair<E, T>{a, T(6)}};
    A w(fc::std_transition::from_range, src);
    walk(w.begin(), w.end());
    d.add(w == y);
    if constexpr (requires { w <=> y; })
        d.add((w <=> y) < 0);
    w.swap(y);
    walk(w.begin(), w.end());
    y.fill(T(3));
    walk(y.begin(), y.end());
    std::swap(y, w);
    d.add(num(w.at(z)));
    s.done(d);
    return s.get();
}
constexpr auto enum_array_strict(std::uint64_t seed)
{
    using vfe::E5;
    Sections<1> s;
    Dig d;
    const auto& e = vals<E5>();
    const int v = static_cast<int>(seed);
    using P = std::pair<const E5, NoDefault>;
    const fc::EnumArray<E5, NoDefault> a{{P{e[0], NoDefault(v)}, P{e[1], NoDefault(2)}, P{e[2], NoDefault(3)}, P{e[3], NoDefault(4)}, P{e[4], NoDefault(5)}}};
    for (const auto& x : a)
        d.add(num(x));
    s.done(d);
    return s.get();
}
#endif

int main(int argc, char** argv)
{
#if PART == 0
    ct_group<&seq_sweep<Vec, int, 5>, 4>("vector<int,5>");
    ct_group<&seq_sweep<Vec, Pt, 4>, 4>("vector<Pt,4>");
    ct_group<&seq_sweep<Vec, Own, 5>, 4>("vector<Own,5>");
    ct_group<&seq_sweep<Vec, Selfish, 4>, 4>("vector<Selfish,4>");
    ct_group<&seq_sweep<Deq, int, 5>, 4>("deque<int,5>");
    ct_group<&seq_sweep<Deq, Pt, 4>, 4>("deque<Pt,4>");
    ct_group<&seq_sweep<Deq, Own, 5>, 4>("deque<Own,5>");
    ct_group<&seq_sweep<Deq, Selfish, 4>, 4>("deque<Selfish,4>");
#elif PART == 1
    ct_group<&seq_sweep<Circ, int, 5>, 4>("circular<int,5>");
    ct_group<&seq_sweep<Circ, Own, 5>, 4>("circular<Own,5>");
    ct_group<&seq_sweep<Circ, Selfish, 4>, 4>("circular<Selfish,4>");
    ct_group<&seq_sweep<Lst, int, 5>, 4>("list<int,5>");
    ct_group<&seq_sweep<Lst, Pt, 4>, 4>("list<Pt,4>");
    ct_group<&seq_sweep<Lst, Own, 5>, 4>("list<Own,5>");
    ct_group<&seq_sweep<Lst, Selfish, 4>, 4>("list<Selfish,4>");
    ct_group<&adapter_sweep<fc::FixedStack<int, 6>, int, 6>, 3>("stack<int,6>");
    ct_group<&adapter_sweep<fc::FixedStack<Own, 6>, Own, 6>, 3>("stack<Own,6>");
    ct_group<&adapter_sweep<fc::FixedQueue<int, 6>, int, 6>, 3>("queue<int,6>");
    ct_group<&adapter_sweep<fc::FixedQueue<Own, 6>, Own, 6>, 3>("queue<Own,6>");
    ct_group<&adapter_sweep<fc::FixedCircularQueue<int, 4>, int, 4>, 3>("circular_queue<int,4>");
    ct_group<&adapter_sweep<fc::FixedCircularQueue<Own, 4>, Own, 4>, 3>("circular_queue<Own,4>");
#elif PART == 2
    ct_group<&string_sweep<6>, 5>("string<6>");
    ct_group<&string_sweep<17>, 5>("string<17>");
#elif PART == 3
    ct_group<&map_sweep<fc::FixedMap<int, int, 7>, int, int, 7>, 4>("map<int,int,7>");
    ct_group<&map_sweep<fc::FixedMap<Pt, Own, 7, TLess>, Pt, Own, 7>, 4>("map<Pt,Own,7,transparent>");
    ct_group<&map_sweep<fc::FixedMap<Own, Selfish, 6>, Own, Selfish, 6>, 3>("map<Own,Selfish,6>");
    ct_group<&map_sweep<fc::FixedMap<int, int, 7, std::less<int>, DED>, int, int, 7>, 3>("map<int,int,7,dedicated>");
    ct_group<&map_sweep<fc::FixedMap<int, Own, 7, std::less<int>, EMB, fc::FixedIndexBasedContiguousStorage>, int, Own, 7>, 3>("map<int,Own,7,contiguous>");
    ct_group<&map_sweep<fc::FixedMap<Own, int, 7, TLess, DED, fc::FixedIndexBasedContiguousStorage>, Own, int, 7>, 3>("map<Own,int,7,dedicated,contiguous>");
    ct_group<&set_sweep<fc::FixedSet<int, 7>, int, 7>, 4>("set<int,7>");
    ct_group<&set_sweep<fc::FixedSet<Own, 7, TLess>, Own, 7>, 4>("set<Own,7,transparent>");
    ct_group<&set_sweep<fc::FixedSet<int, 7, std::less<int>, DED>, int, 7>, 3>("set<int,7,dedicated>");
    ct_group<&set_sweep<fc::FixedSet<Own, 7, std::less<Own>, DED, fc::FixedIndexBasedContiguousStorage>, Own, 7>, 3>("set<Own,7,dedicated,contiguous>");
    ct_group<&ref_sweep, 4>("map of references");
#elif PART == 4
    ct_group<&map_sweep<fc::FixedUnorderedMap<int, int, 7>, int, int, 7>, 4>("umap<int,int,7>");
    ct_group<&map_sweep<fc::FixedUnorderedMap<Pt, Own, 7, CHash, CEq>, Pt, Own, 7>, 4>("umap<Pt,Own,7>");
    ct_group<&map_sweep<fc::FixedUnorderedMap<Own, Selfish, 6, CHash, CEq>, Own, Selfish, 6>, 4>("umap<Own,Selfish,6>");
    ct_group<&set_sweep<fc::FixedUnorderedSet<int, 7>, int, 7>, 4>("uset<int,7>");
    ct_group<&set_sweep<fc::FixedUnorderedSet<Own, 7, CHash, CEq>, Own, 7>, 4>("uset<Own,7>");
    ct_group<&ref_sweep, 4>("umap of references");
    ct_group<&hash_sweep, 4>("hash of enums");
#elif PART == 5
    ct_group<&enum_map_sweep<vfe::E5, int>, 4>("enum_map<E5,int>");
    ct_group<&enum_map_sweep<vfe::E5, Pt>, 4>("enum_map<E5,Pt>");
    ct_group<&enum_map_sweep<vfe::ESparse, Own>, 4>("enum_map<ESparse,Own>");
    ct_group<&enum_map_sweep<vfe::RichSparse, Selfish>, 4>("enum_map<RichSparse,Selfish>");
    ct_group<&enum_map_ilist, 3>("enum_map factories");
    ct_group<&enum_set_sweep<vfe::E5>, 4>("enum_set<E5>");
    ct_group<&enum_set_sweep<vfe::RichSparse>, 4>("enum_set<RichSparse>");
    ct_group<&enum_array_sweep<vfe::E5, int>, 3>("enum_array<E5,int>");
    ct_group<&enum_array_sweep<vfe::RichSparse, int>, 3>("enum_array<RichSparse,int>");
#ifdef __clang__
    ct_group<&enum_array_sweep<vfe::ESparse, Own>, 3>("enum_array<ESparse,Own>");
#endif
    ct_group<&enum_array_strict, 2>("enum_array strict");
#endif
    return driver_main(argc, argv);
}
