// Factories (make_fixed_*) and FixedVector's builder.
// PART 0 vector  1 deque  2 circular deque  3 list  4 map, set  5 unordered map, set
#ifndef PART
#define PART 0
#endif
#include "fw.hpp"
#if PART == 0
#include "fixed_containers/fixed_vector.hpp"
#elif PART == 1
#include "fixed_containers/fixed_deque.hpp"
#elif PART == 2
#include "fixed_containers/fixed_circular_deque.hpp"
#elif PART == 3
#include "fixed_containers/fixed_list.hpp"
#elif PART == 4
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_set.hpp"
#elif PART == 5
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#endif
#include <list>
#include <map>
#include <set>
using namespace vf;
namespace fc = fixed_containers;

inline int rv(int bound) { return static_cast<int>(g_rng.below(static_cast<std::size_t>(bound))); }

#if PART <= 3
#if PART == 0
template <class T, std::size_t N, class CH = RecChecking<>>
using Cont = fc::FixedVector<T, N, CH>;
#define MAKE make_fixed_vector
#elif PART == 1
template <class T, std::size_t N, class CH = RecChecking<>>
using Cont = fc::FixedDeque<T, N, CH>;
#define MAKE make_fixed_deque
#elif PART == 2
template <class T, std::size_t N, class CH = RecChecking<>>
using Cont = fc::FixedCircularDeque<T, N, CH>;
#define MAKE make_fixed_circular_deque
#else
template <class T, std::size_t N, class CH = RecChecking<>>
using Cont = fc::FixedList<T, N, CH>;
#define MAKE make_fixed_list
#endif

template <class C>
void same(const C& c, const std::vector<int>& m, std::size_t cap, const char* what)
{
    VF_CHECK("MODEL", c.size() == m.size() && C::static_max_size() == cap && c.max_size() == cap, "%s: size %zu capacity %zu, expected %zu of %zu", what, c.size(), c.max_size(), m.size(), cap);
    std::size_t i = 0;
    for (const auto& e : c)
    {
        VF_CHECK("MODEL", i < m.size() && val(e) == m[i], "%s: element %zu is %d", what, i, val(e));
        i++;
    }
    VF_CHECK("MODEL", i == m.size() && is_full(c) == (m.size() >= cap), "%s: traversal of %zu elements", what, i);
    std::uint64_t h = mix(hash_str(what), cap);
    for (int v : m)
        h = mix(h, static_cast<std::uint64_t>(v));
    cover(h);
}
template <std::size_t N>
std::vector<int> draw()
{
    std::vector<int> m(N);
    for (int& v : m)
        v = rv(50);
    return m;
}
template <class T, std::size_t... I>
void make_n(std::index_sequence<I...>)
{
    constexpr std::size_t N = sizeof...(I);
    const auto m = draw<N>();
    const T arr[N] = {T(m[I])...};
    trace("factory from an array of %zu", N);
    {
        auto c = fc::MAKE(arr);
        static_assert(std::is_same_v<decltype(c), Cont<T, N, fc::customize::SequenceContainerAbortChecking<T, N>>>);
        same(c, m, N, "factory");
        auto d = fc::MAKE<T, RecChecking<>>(arr);
        static_assert(std::is_same_v<decltype(d), Cont<T, N>>);
        same(d, m, N, "factory with a checking policy");
        if constexpr (N > 0)
        {
            d.pop_back();
            d.push_back(T(3));
            auto m2 = m;
            m2.back() = 3;
            same(d, m2, N, "changed result");
#if PART != 2
            const HitInfo hi = catch_hit([&] { d.push_back(arr[0]); });
            VF_CHECK("CHECK", hi.hit == Hit::LENGTH_ERROR, "the result of the factory has room for more than its elements");
#endif
        }
    }
    for (std::size_t i = 0; i < N; i++)
        VF_CHECK("MODEL", val(arr[i]) == m[i], "the factory changed its argument");
}
template <class T>
void make_all()
{
    {
        auto c = fc::MAKE(std::array<T, 0>{});
        static_assert(std::is_same_v<decltype(c), Cont<T, 0, fc::customize::SequenceContainerAbortChecking<T, 0>>>);
        same(c, {}, 0, "factory without elements");
        auto d = fc::MAKE<T, RecChecking<>>(std::array<T, 0>{});
        static_assert(std::is_same_v<decltype(d), Cont<T, 0>>);
        same(d, {}, 0, "factory without elements");
    }
    make_n<T>(std::make_index_sequence<1>{});
    make_n<T>(std::make_index_sequence<2>{});
    make_n<T>(std::make_index_sequence<3>{});
    make_n<T>(std::make_index_sequence<7>{});
    make_n<T>(std::make_index_sequence<16>{});
    make_n<T>(std::make_index_sequence<33>{});
}
#if PART == 0
template <class T, std::size_t N>
void builder()
{
    using C = Cont<T, N>;
    std::vector<int> m;
    typename C::Builder bl;
    const std::size_t target = g_rng.chance(1, 3) ? N : g_rng.below(N + 1);
    while (m.size() < target)
    {
        const std::size_t left = target - m.size();
        const int op = rv(7);
        std::size_t n = g_rng.below(left + 1);
        std::vector<int> vs;
        for (std::size_t i = 0; i < n; i++)
            vs.push_back(rv(60));
        typename C::Builder* self = std::addressof(bl);
        if (op == 0)
        {
            const int v = rv(60);
            trace("push_back(%d)", v);
            const T t(v);
            VF_CHECK("MODEL", std::addressof(bl.push_back(t)) == self, "push_back returns another builder");
            m.push_back(v);
        }
        else if (op == 1)
        {
            const int v = rv(60);
            trace("push_back(&&%d)", v);
            bl = std::move(bl).push_back(T(v));
            m.push_back(v);
        }
        else if (op == 2)
        {
            std::list<T> l;
            for (int v : vs)
                l.emplace_back(v);
            trace("push_back_all(list %zu)", n);
            VF_CHECK("MODEL", std::addressof(bl.push_back_all(l.begin(), l.end())) == self, "push_back_all returns another builder");
            m.insert(m.end(), vs.begin(), vs.end());
        }
        else if (op == 3)
        {
            trace("push_back_all(input %zu)", n);
            typename InputIt<T>::Src src{vs.data(), vs.data() + vs.size()};
            bl.push_back_all(InputIt<T>(&src), InputIt<T>());
            m.insert(m.end(), vs.begin(), vs.end());
        }
        else if (op == 4)
        {
            std::vector<T> l;
            for (int v : vs)
                l.emplace_back(v);
            trace("push_back_all(container %zu)", n);
            VF_CHECK("MODEL", std::addressof(bl.push_back_all(l)) == self, "push_back_all returns another builder");
            m.insert(m.end(), vs.begin(), vs.end());
        }
        else if (op == 5 && left >= 3)
        {
            const int a = rv(60);
            trace("push_back_all({%d,%d,%d})", a, a + 1, a + 2);
            VF_CHECK("MODEL", std::addressof(bl.push_back_all({T(a), T(a + 1), T(a + 2)})) == self, "push_back_all returns another builder");
            m.insert(m.end(), {a, a + 1, a + 2});
        }
        else if (op == 6)
        {
            // build() from an lvalue leaves the builder as it was
            C c = bl.build();
            same(c, m, N, "build() const&");
            same(bl.build(), m, N, "build() const& again");
        }
    }
    same(bl.build(), m, N, "build() const&");
    C c = std::move(bl).build();
    same(c, m, N, "build() &&");
    if constexpr (N >= 3)
    {
        C d = typename C::Builder{}.push_back(T(4)).push_back_all({T(1), T(2)}).build();
        same(d, {4, 1, 2}, N, "builder chain");
        const std::list<T> l(2, T(9));
        C e = typename C::Builder{}.push_back_all(l).push_back(T(8)).build();
        same(e, {9, 9, 8}, N, "builder chain");
        const std::vector<int> one = {6};
        typename InputIt<T>::Src src{one.data(), one.data() + 1};
        C f = typename C::Builder{}.push_back_all(l.begin(), l.end()).push_back_all(InputIt<T>(&src), InputIt<T>()).build();
        same(f, {9, 9, 6}, N, "builder chain");
    }
}
#endif
template <class T>
void reg(const char* t)
{
    add_group("model", std::string("factory ") + t, [] { for (std::size_t i = 0, e = n_cases(60); i < e; i++) run_case("factory", [] { make_all<T>(); }); });
#if PART == 0
    add_group("model", std::string("builder ") + t,
              []
              {
                  for (std::size_t i = 0, e = n_cases(200); i < e; i++)
                      run_case("builder", [] { builder<T, 1>(); builder<T, 3>(); builder<T, 9>(); builder<T, 40>(); });
              });
#endif
}
#endif

#if PART >= 4
// comparator, hash and equality with state
struct SLess
{
    int dir = 1;
    constexpr bool operator()(int a, int b) const { return dir > 0 ? a < b : b < a; }
};
struct SHash
{
    std::uint64_t salt = 0;
    constexpr std::uint64_t operator()(int a) const { return (static_cast<std::uint64_t>(a) / (salt == 2 ? 10 : 1)) * (salt == 1 ? 0x9E3779B97F4A7C15ULL : 1); }
};
struct SEq
{
    int div = 1;
    constexpr bool operator()(int a, int b) const { return a / div == b / div; }
};
// what the factory makes of a list: first entry of every key class, in the order of the container
struct Expect
{
    std::vector<std::pair<int, int>> v;
};
inline Expect expected(const std::vector<std::pair<int, int>>& in, bool sorted, int dir, int div)
{
    Expect e;
    for (const auto& p : in)
    {
        bool dup = false;
        for (const auto& q : e.v)
            dup = dup || q.first / div == p.first / div;
        if (!dup)
            e.v.push_back(p);
    }
    if (sorted)
        std::sort(e.v.begin(), e.v.end(), [&](auto a, auto b) { return dir > 0 ? a.first < b.first : b.first < a.first; });
    return e;
}
template <class P>
int k_of(const P& p)
{
    if constexpr (std::is_integral_v<P>)
        return p;
    else
        return p.first;
}
template <class C>
void same(C& c, const Expect& e, std::size_t cap, const char* what)
{
    VF_CHECK("MODEL", c.size() == e.v.size() && C::static_max_size() == cap && c.max_size() == cap, "%s: size %zu capacity %zu, expected %zu of %zu", what, c.size(), c.max_size(), e.v.size(), cap);
    std::size_t i = 0;
    std::uint64_t h = mix(hash_str(what), cap);
    for (auto it = c.begin(); it != c.end(); ++it)
    {
        VF_CHECK("MODEL", i < e.v.size() && k_of(*it) == e.v[i].first, "%s: entry %zu has key %d", what, i, k_of(*it));
        if constexpr (!std::is_integral_v<typename C::value_type>)
            VF_CHECK("MODEL", it->second == e.v[i].second, "%s: entry %zu has value %d", what, i, it->second);
        VF_CHECK("MODEL", c.find(e.v[i].first) == it && c.contains(e.v[i].first), "%s: entry %zu is not found", what, i);
        h = mix(h, static_cast<std::uint64_t>(e.v[i].first));
        i++;
    }
    VF_CHECK("MODEL", i == e.v.size(), "%s: traversal of %zu entries", what, i);
    cover(h);
}
template <class C>
void grow(C& c, const Expect& e, const char* what)
{
    // as full as its list: the next new key does not fit
    if (e.v.size() == C::static_max_size())
    {
        const HitInfo hi = catch_hit(
            [&]
            {
                if constexpr (std::is_integral_v<typename C::value_type>)
                    c.insert(100000);
                else
                    c.insert({100000, 1});
            });
        VF_CHECK("CHECK", hi.hit == Hit::LENGTH_ERROR, "%s: the result has room for more than its entries", what);
    }
}
template <std::size_t... I>
void make_n(std::index_sequence<I...>)
{
    constexpr std::size_t N = sizeof...(I);
    std::vector<std::pair<int, int>> in;
    const int range = g_rng.chance(1, 2) ? 1000 : static_cast<int>(N);
    while (in.size() < N)
        in.emplace_back(rv(range), rv(100));
    const std::pair<int, int> pa[N] = {in[I]...};
    const int ka[N] = {in[I].first...};
    trace("factory from %zu entries", N);
#if PART == 4
    using namespace fc::fixed_red_black_tree_detail;
    {
        const auto e = expected(in, true, 1, 1);
        auto m1 = fc::make_fixed_map(pa);
        static_assert(std::is_same_v<decltype(m1), fc::FixedMap<int, int, N>>);
        same(m1, e, N, "make_fixed_map");
        auto s1 = fc::make_fixed_set(ka);
        static_assert(std::is_same_v<decltype(s1), fc::FixedSet<int, N>>);
        same(s1, e, N, "make_fixed_set");
        auto m2 = fc::make_fixed_map<int, int, std::less<int>, RedBlackTreeNodeColorCompactness::DEDICATED_COLOR, fc::FixedIndexBasedContiguousStorage, RecChecking<>>(pa);
        static_assert(std::is_same_v<decltype(m2), fc::FixedMap<int, int, N, std::less<int>, RedBlackTreeNodeColorCompactness::DEDICATED_COLOR, fc::FixedIndexBasedContiguousStorage, RecChecking<>>>);
        same(m2, e, N, "make_fixed_map with a checking policy");
        grow(m2, e, "make_fixed_map");
        auto s2 = fc::make_fixed_set<int, std::less<int>, RedBlackTreeNodeColorCompactness::DEDICATED_COLOR, fc::FixedIndexBasedContiguousStorage, RecChecking<>>(ka);
        same(s2, e, N, "make_fixed_set with a checking policy");
        grow(s2, e, "make_fixed_set");
    }
    for (int dir : {1, -1})
    {
        const auto e = expected(in, true, dir, 1);
        auto m1 = fc::make_fixed_map(pa, SLess{dir});
        same(m1, e, N, "make_fixed_map with a comparator");
        auto s1 = fc::make_fixed_set(ka, SLess{dir});
        same(s1, e, N, "make_fixed_set with a comparator");
        auto m2 = fc::make_fixed_map<int, int, SLess, RedBlackTreeNodeColorCompactness::EMBEDDED_COLOR, fc::FixedIndexBasedPoolStorage, RecChecking<>>(pa, SLess{dir});
        same(m2, e, N, "make_fixed_map with a comparator and a checking policy");
        grow(m2, e, "make_fixed_map");
        auto s2 = fc::make_fixed_set<int, SLess, RedBlackTreeNodeColorCompactness::EMBEDDED_COLOR, fc::FixedIndexBasedPoolStorage, RecChecking<>>(ka, SLess{dir});
        same(s2, e, N, "make_fixed_set with a comparator and a checking policy");
        grow(s2, e, "make_fixed_set");
    }
#else
    {
        const auto e = expected(in, false, 1, 1);
        auto m1 = fc::make_fixed_unordered_map(pa);
        static_assert(std::is_same_v<decltype(m1), fc::FixedUnorderedMap<int, int, N>>);
        same(m1, e, N, "make_fixed_unordered_map");
        auto s1 = fc::make_fixed_unordered_set(ka);
        static_assert(std::is_same_v<decltype(s1), fc::FixedUnorderedSet<int, N>>);
        same(s1, e, N, "make_fixed_unordered_set");
        auto m2 = fc::make_fixed_unordered_map<int, int, SHash, SEq, RecChecking<>>(pa);
        same(m2, e, N, "make_fixed_unordered_map with a checking policy");
        grow(m2, e, "make_fixed_unordered_map");
        auto s2 = fc::make_fixed_unordered_set<int, SHash, SEq, RecChecking<>>(ka);
        same(s2, e, N, "make_fixed_unordered_set with a checking policy");
        grow(s2, e, "make_fixed_unordered_set");
    }
    for (int mode : {0, 1, 2})
    {
        const int div = mode == 2 ? 10 : 1;
        const auto e = expected(in, false, 1, div);
        const SHash h{static_cast<std::uint64_t>(mode)};
        const SEq q{div};
        auto m1 = fc::make_fixed_unordered_map(pa, h, q);
        same(m1, e, N, "make_fixed_unordered_map with hash and equality");
        auto s1 = fc::make_fixed_unordered_set(ka, h, q);
        same(s1, e, N, "make_fixed_unordered_set with hash and equality");
        auto m2 = fc::make_fixed_unordered_map<int, int, SHash, SEq, RecChecking<>>(pa, h, q);
        same(m2, e, N, "make_fixed_unordered_map with hash, equality and a checking policy");
        grow(m2, e, "make_fixed_unordered_map");
        auto s2 = fc::make_fixed_unordered_set<int, SHash, SEq, RecChecking<>>(ka, h, q);
        same(s2, e, N, "make_fixed_unordered_set with hash, equality and a checking policy");
        grow(s2, e, "make_fixed_unordered_set");
    }
#endif
}
inline void make_all()
{
    const Expect none;
#if PART == 4
    using namespace fc::fixed_red_black_tree_detail;
    auto m1 = fc::make_fixed_map(std::array<std::pair<int, int>, 0>{});
    same(m1, none, 0, "make_fixed_map without entries");
    auto m2 = fc::make_fixed_map(std::array<std::pair<int, int>, 0>{}, SLess{-1});
    same(m2, none, 0, "make_fixed_map without entries");
    auto m3 = fc::make_fixed_map<int, int, std::less<int>, RedBlackTreeNodeColorCompactness::EMBEDDED_COLOR, fc::FixedIndexBasedPoolStorage, RecChecking<>>(std::array<std::pair<int, int>, 0>{});
    same(m3, none, 0, "make_fixed_map without entries");
    grow(m3, none, "make_fixed_map without entries");
    auto s1 = fc::make_fixed_set(std::array<int, 0>{});
    same(s1, none, 0, "make_fixed_set without entries");
    auto s2 = fc::make_fixed_set(std::array<int, 0>{}, SLess{-1});
    same(s2, none, 0, "make_fixed_set without entries");
    VF_CHECK("MODEL", !s1.contains(3) && s1.lower_bound(3) == s1.end() && m2.find(1) == m2.end(), "lookups in an empty container");
#else
    auto m1 = fc::make_fixed_unordered_map(std::array<std::pair<int, int>, 0>{});
    same(m1, none, 0, "make_fixed_unordered_map without entries");
    auto m2 = fc::make_fixed_unordered_map(std::array<std::pair<int, int>, 0>{}, SHash{1}, SEq{10});
    same(m2, none, 0, "make_fixed_unordered_map without entries");
    auto s1 = fc::make_fixed_unordered_set(std::array<int, 0>{});
    same(s1, none, 0, "make_fixed_unordered_set without entries");
    auto s2 = fc::make_fixed_unordered_set(std::array<int, 0>{}, SHash{1}, SEq{10});
    same(s2, none, 0, "make_fixed_unordered_set without entries");
    VF_CHECK("MODEL", !s1.contains(3) && m2.find(1) == m2.end() && !m1.contains(1), "lookups in an empty container");
#endif
    make_n(std::make_index_sequence<1>{});
    make_n(std::make_index_sequence<2>{});
    make_n(std::make_index_sequence<5>{});
    make_n(std::make_index_sequence<12>{});
    make_n(std::make_index_sequence<40>{});
}
#endif

int main(int argc, char** argv)
{
#if PART <= 3
    reg<int>("int");
    reg<Ntv>("Ntv");
    reg<TrkAll>("Trk");
    reg<Heavy>("Heavy");
#else
    add_group("model", "factories", [] { for (std::size_t i = 0, e = n_cases(150); i < e; i++) run_case("factory", [] { make_all(); }); });
#endif
    return driver_main(argc, argv);
}
