// Raw (type-erased) views against the containers' own iterators (C16).
// PART 0: FixedDeque, FixedDoublyLinkedList.  PART 1: FixedMap/FixedSet.  PART 2: FixedUnorderedMap/Set.
#include "fw.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_deque_raw_view.hpp"
#include "fixed_containers/fixed_doubly_linked_list.hpp"
#include "fixed_containers/fixed_doubly_linked_list_raw_view.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_map_raw_view.hpp"
#include "fixed_containers/fixed_red_black_tree_view.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_map_raw_view.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include "fixed_containers/fixed_unordered_set_raw_view.hpp"

#include <compare>
#include <list>
#ifndef PART
#define PART -1
#endif
using namespace vf;
namespace fc = fixed_containers;
using Compact = fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness;
using Storage = fc::fixed_red_black_tree_detail::RedBlackTreeStorageType;

// S bytes, alignment A, every byte depends on the value
template <std::size_t S, std::size_t A>
struct alignas(A) By
{
    static_assert(S % A == 0);
    unsigned char b[S];
    By() : By(0) {}
    explicit By(int v)
    {
        for (std::size_t i = 0; i < S; i++)
            b[i] = static_cast<unsigned char>((v >> (8 * (i % 2))) + static_cast<int>(i) * 37);
    }
    bool operator==(const By& o) const { return memcmp(b, o.b, S) == 0; }
    bool operator<(const By& o) const { return memcmp(b, o.b, S) < 0; }
};
// same size and alignment, but not trivially copyable
template <std::size_t S, std::size_t A>
struct NtBy : By<S, A>
{
    NtBy() : By<S, A>(0) {}
    explicit NtBy(int v) : By<S, A>(v) {}
    NtBy(const NtBy& o) : By<S, A>(o) {}
    NtBy& operator=(const NtBy& o)
    {
        By<S, A>::operator=(o);
        return *this;
    }
    ~NtBy() { memset(this->b, 0xEE, S); }
};
struct HashBytes
{
    template <class T>
    std::uint64_t operator()(const T& t) const
    {
        std::uint64_t h = 0;
        for (unsigned char c : t.b)
            h = h * 31 + c;
        return h << 6;
    }
};
template <class T>
const void* addr(const T& t)
{
    return static_cast<const void*>(std::addressof(t));
}

// Compares the view with the expected element addresses (in order).
template <class View, class Get>
void compare_view(const View& view, std::size_t n, const std::vector<const void*>& want, Get get, const char* what)
{
    VF_CHECK("MODEL", view.size() == n, "%s: size() is %zu, expected %zu", what, static_cast<std::size_t>(view.size()), n);
    std::size_t i = 0;
    auto it = view.begin();
    const auto end = view.end();
    for (; !(it == end); ++it, ++i)
    {
        VF_CHECK("MODEL", i < want.size(), "%s: the view goes on after the last of %zu elements", what, want.size());
        const void* got = get(it);
        VF_CHECK("MODEL", got == want[i], "%s: element %zu of %zu is at %td, expected the container's element", what, i, n,
                 static_cast<const char*>(got) - static_cast<const char*>(want[i]));
    }
    VF_CHECK("MODEL", i == want.size(), "%s: the view ends after %zu of %zu elements", what, i, want.size());
    // iterator laws: copies and post-increment
    auto a = view.begin();
    std::size_t steps = 0;
    while (a != view.end() && steps <= n)
    {
        auto b = a;
        VF_CHECK("MODEL", b == a, "%s: copy of an iterator differs", what);
        auto c = a++;
        VF_CHECK("MODEL", c == b && a != b && get(c) == want[steps], "%s: post-increment", what);
        auto d = std::next(b);
        VF_CHECK("MODEL", d == a, "%s: two ways to the next element differ", what);
        steps++;
    }
    VF_CHECK("MODEL", steps == n, "%s: %zu steps for %zu elements", what, steps, n);
}
template <class It>
void default_iterators(const char* what)
{
    It a{};
    It b{};
    VF_CHECK("MODEL", a == b, "%s: default-constructed iterators differ", what);
    a = b;
    It c(a);
    VF_CHECK("MODEL", c == b, "%s: copied default-constructed iterators differ", what);
}

// ------------------------------------------------------------------ deque
template <class T, std::size_t N>
void deque_groups(const char* id, std::size_t cases)
{
    add_group("model", std::string("deque<") + id + "," + std::to_string(N) + ">",
              [=]
              {
                  using C = fc::FixedDeque<T, N>;
                  using View = fc::FixedDequeRawView<>;
                  for (std::size_t k = 0; k < n_cases(cases); k++)
                      run_case("deque",
                               [&]
                               {
                                   Box<C> b;
                                   const View view(addr(*b), sizeof(T), alignof(T), N);
                                   default_iterators<typename View::iterator>("deque view");
                                   int next = static_cast<int>(g_rng.below(1000));
                                   const std::size_t ops = g_rng.range(1, 5 * N + 10);
                                   for (std::size_t o = 0; o < ops; o++)
                                   {
                                       C& c = *b;
                                       const std::size_t w = g_rng.below(8);
                                       if (w == 0 && !c.empty())
                                           LIB(c.pop_back());
                                       else if (w == 1 && !c.empty())
                                           LIB(c.pop_front());
                                       else if (w == 2 && c.size() < N)
                                           LIB(c.push_front(T(next++)));
                                       else if (w == 3 && c.size() < N)
                                           LIB(c.insert(std::next(c.cbegin(), static_cast<std::ptrdiff_t>(g_rng.below(c.size() + 1))), T(next++)));
                                       else if (w == 4 && !c.empty())
                                           LIB(c.erase(std::next(c.cbegin(), static_cast<std::ptrdiff_t>(g_rng.below(c.size())))));
                                       else if (w == 5 && g_rng.chance(1, 10))
                                           LIB(c.clear());
                                       else if (c.size() < N)
                                           LIB(c.push_back(T(next++)));
                                       trace("%zu", w);
                                       std::vector<const void*> want;
                                       for (const auto& e : std::as_const(c))
                                           want.push_back(addr(e));
                                       cover(mix(mix(N, c.size()), (c.empty() ? 0 : static_cast<std::size_t>(static_cast<const char*>(want[0]) - reinterpret_cast<const char*>(b.p)))));
                                       compare_view(view, c.size(), want, [](auto& it) -> const void* { return *it; }, "deque view");
                                       for (std::size_t i = 0; i < c.size(); i++)
                                           VF_CHECK("MODEL", static_cast<const void*>(view.value_at(i)) == addr(c[i]), "deque view value_at(%zu)", i);
                                   }
                               });
              });
}

// ------------------------------------------------------------------ linked list
template <class T, std::size_t N, class Ix>
void list_groups(const char* id, std::size_t cases)
{
    add_group("model", std::string("dll<") + id + "," + std::to_string(N) + ",ix" + std::to_string(sizeof(Ix)) + ">",
              [=]
              {
                  using C = fc::fixed_doubly_linked_list_detail::FixedDoublyLinkedList<T, N, Ix>;
                  using View = fc::fixed_doubly_linked_list_detail::FixedDoublyLinkedListRawView<Ix>;
                  for (std::size_t k = 0; k < n_cases(cases); k++)
                      run_case("dll",
                               [&]
                               {
                                   Box<C> b;
                                   const View view(addr(*b), sizeof(T), alignof(T), N);
                                   default_iterators<typename View::iterator>("list view");
                                   std::list<Ix> order;
                                   int next = static_cast<int>(g_rng.below(1000));
                                   const std::size_t ops = g_rng.range(1, 5 * N + 10);
                                   for (std::size_t o = 0; o < ops; o++)
                                   {
                                       C& c = *b;
                                       const std::size_t w = g_rng.below(6);
                                       if (w <= 1 && !order.empty())
                                       {
                                           auto it = std::next(order.begin(), static_cast<std::ptrdiff_t>(g_rng.below(order.size())));
                                           LIB(c.delete_at_and_return_next_index(*it));
                                           order.erase(it);
                                       }
                                       else if (order.size() < N)
                                       {
                                           auto it = std::next(order.begin(), static_cast<std::ptrdiff_t>(g_rng.below(order.size() + 1)));
                                           const Ix at = it == order.end() ? static_cast<Ix>(N) : *it;
                                           const Ix ix = LIB(c.emplace_before_index_and_return_index(at, T(next++)));
                                           order.insert(it, ix);
                                       }
                                       trace("%zu", w);
                                       std::vector<const void*> want;
                                       std::vector<Ix> ixs(order.begin(), order.end());
                                       for (Ix ix : ixs)
                                           want.push_back(addr(std::as_const(c).at(ix)));
                                       std::size_t h = N;
                                       for (Ix ix : ixs)
                                           h = mix(h, ix);
                                       cover(h);
                                       compare_view(view, order.size(), want, [](auto& it) -> const void* { return *it; }, "list view");
                                   }
                               });
              });
}

// ------------------------------------------------------------------ ordered
template <class K, class V, std::size_t N, Compact CP, template <class, std::size_t> class St, Storage ST>
void map_groups(const char* id, std::size_t cases)
{
    add_group("model", std::string("map<") + id + "," + std::to_string(N) + ">",
              [=]
              {
                  using C = fc::FixedMap<K, V, N, std::less<K>, CP, St>;
                  using View = fc::FixedMapRawView;
                  for (std::size_t k = 0; k < n_cases(cases); k++)
                      run_case("map",
                               [&]
                               {
                                   Box<C> b;
                                   const View view(addr(*b), sizeof(K), alignof(K), sizeof(V), alignof(V), N, CP, ST);
                                   default_iterators<View::Iterator>("map view");
                                   std::size_t h = N;
                                   const std::size_t ops = g_rng.range(1, 4 * N + 10);
                                   for (std::size_t o = 0; o < ops; o++)
                                   {
                                       C& c = *b;
                                       const int v = static_cast<int>(g_rng.below(2 * N + 5));
                                       const K key(v);
                                       if (g_rng.chance(2, 5))
                                           LIB(c.erase(key));
                                       else if (c.size() < N)
                                           LIB(c.try_emplace(key, V(v + 1000)));
                                       trace("%d", v);
                                       std::vector<const void*> keys, values;
                                       for (auto it = c.cbegin(); it != c.cend(); ++it)
                                       {
                                           auto&& e = *it;
                                           keys.push_back(addr(e.first));
                                           values.push_back(addr(e.second));
                                           h = mix(h, static_cast<std::size_t>(static_cast<const char*>(keys.back()) - reinterpret_cast<const char*>(b.p)));
                                       }
                                       cover(h);
                                       h = N;
                                       compare_view(view, c.size(), keys, [](auto& it) -> const void* { return it->key(); }, "map view (keys)");
                                       compare_view(view, c.size(), values, [](auto& it) -> const void* { return (*it).value(); }, "map view (values)");
                                   }
                               });
              });
}
// A key or value that needs more alignment than the view can handle: the view is refused, or right, but never wrong.
template <class K, class V, std::size_t N, Compact CP, template <class, std::size_t> class St, Storage ST>
void refused_map_group(const char* id)
{
    add_group("model", std::string("map<") + id + "," + std::to_string(N) + ">/over-aligned",
              [=]
              {
                  using C = fc::FixedMap<K, V, N, std::less<K>, CP, St>;
                  for (std::size_t k = 0; k < n_cases(20); k++)
                      run_case("over-aligned",
                               [&]
                               {
                                   Box<C> b;
                                   for (std::size_t i = g_rng.range(1, N); i > 0; i--)
                                       LIB(b->try_emplace(K(static_cast<int>(i)), V(static_cast<int>(i))));
                                   trace("%zu", b->size());
                                   const auto h = catch_hit([&] { (void)fc::FixedMapRawView(addr(*b), sizeof(K), alignof(K), sizeof(V), alignof(V), N, CP, ST); });
                                   cover(mix(b->size(), h.hit == Hit::NONE));
                                   if (h.hit != Hit::NONE)
                                       return;
                                   const fc::FixedMapRawView view(addr(*b), sizeof(K), alignof(K), sizeof(V), alignof(V), N, CP, ST);
                                   std::vector<const void*> keys, values;
                                   for (auto it = b->cbegin(); it != b->cend(); ++it)
                                   {
                                       auto&& e = *it;
                                       keys.push_back(addr(e.first));
                                       values.push_back(addr(e.second));
                                   }
                                   compare_view(view, b->size(), keys, [](auto& it) -> const void* { return it->key(); }, "over-aligned map view (keys)");
                                   compare_view(view, b->size(), values, [](auto& it) -> const void* { return (*it).value(); }, "over-aligned map view (values)");
                               });
              });
}
template <class K, std::size_t N, Compact CP, template <class, std::size_t> class St, Storage ST>
void set_groups(const char* id, std::size_t cases)
{
    add_group("model", std::string("set<") + id + "," + std::to_string(N) + ">",
              [=]
              {
                  using C = fc::FixedSet<K, N, std::less<K>, CP, St>;
                  using View = fc::FixedRedBlackTreeRawView;
                  for (std::size_t k = 0; k < n_cases(cases); k++)
                      run_case("set",
                               [&]
                               {
                                   Box<C> b;
                                   const View view(addr(*b), sizeof(K), N, CP, ST);
                                   default_iterators<View::Iterator>("set view");
                                   const std::size_t ops = g_rng.range(1, 4 * N + 10);
                                   for (std::size_t o = 0; o < ops; o++)
                                   {
                                       C& c = *b;
                                       const int v = static_cast<int>(g_rng.below(2 * N + 5));
                                       const K key(v);
                                       if (g_rng.chance(2, 5))
                                           LIB(c.erase(key));
                                       else if (c.size() < N)
                                           LIB(c.insert(key));
                                       trace("%d", v);
                                       std::vector<const void*> keys;
                                       std::size_t h = N;
                                       for (auto it = c.cbegin(); it != c.cend(); ++it)
                                       {
                                           keys.push_back(addr(*it));
                                           h = mix(h, static_cast<std::size_t>(static_cast<const char*>(keys.back()) - reinterpret_cast<const char*>(b.p)));
                                       }
                                       cover(h);
                                       compare_view(view, c.size(), keys, [](auto& it) -> const void* { return *it; }, "set view");
                                       compare_view(view, c.size(), keys, [](auto& it) -> const void* { return *it.operator->(); }, "set view (arrow)");
                                   }
                               });
              });
}
// ------------------------------------------------------------------ hashed
template <class K, class V, std::size_t N>
void umap_groups(const char* id, std::size_t cases)
{
    add_group("model", std::string("umap<") + id + "," + std::to_string(N) + ">",
              [=]
              {
                  using C = fc::FixedUnorderedMap<K, V, N, HashBytes>;
                  using View = fc::FixedUnorderedMapRawView;
                  for (std::size_t k = 0; k < n_cases(cases); k++)
                      run_case("umap",
                               [&]
                               {
                                   Box<C> b;
                                   const View view(addr(*b), sizeof(K), alignof(K), sizeof(V), alignof(V), N);
                                   default_iterators<View::iterator>("umap view");
                                   const std::size_t ops = g_rng.range(1, 4 * N + 10);
                                   for (std::size_t o = 0; o < ops; o++)
                                   {
                                       C& c = *b;
                                       const int v = static_cast<int>(g_rng.below(2 * N + 5));
                                       const K key(v);
                                       if (g_rng.chance(2, 5))
                                           LIB(c.erase(key));
                                       else if (c.size() < N)
                                           LIB(c.try_emplace(key, V(v + 1000)));
                                       trace("%d", v);
                                       std::vector<const void*> keys, values;
                                       std::size_t h = N;
                                       for (auto it = c.cbegin(); it != c.cend(); ++it)
                                       {
                                           auto&& e = *it;
                                           keys.push_back(addr(e.first));
                                           values.push_back(addr(e.second));
                                           h = mix(h, static_cast<std::size_t>(static_cast<const char*>(keys.back()) - reinterpret_cast<const char*>(b.p)));
                                       }
                                       cover(h);
                                       compare_view(view, c.size(), keys, [](auto& it) -> const void* { return (*it).key(); }, "umap view (keys)");
                                       compare_view(view, c.size(), values, [](auto& it) -> const void* { return (*it).value(); }, "umap view (values)");
                                   }
                               });
              });
}
template <class K, std::size_t N>
void uset_groups(const char* id, std::size_t cases)
{
    add_group("model", std::string("uset<") + id + "," + std::to_string(N) + ">",
              [=]
              {
                  using C = fc::FixedUnorderedSet<K, N, HashBytes>;
                  using View = fc::FixedUnorderedSetRawView;
                  for (std::size_t k = 0; k < n_cases(cases); k++)
                      run_case("uset",
                               [&]
                               {
                                   Box<C> b;
                                   const View view(addr(*b), sizeof(K), alignof(K), N);
                                   default_iterators<View::iterator>("uset view");
                                   const std::size_t ops = g_rng.range(1, 4 * N + 10);
                                   for (std::size_t o = 0; o < ops; o++)
                                   {
                                       C& c = *b;
                                       const int v = static_cast<int>(g_rng.below(2 * N + 5));
                                       const K key(v);
                                       if (g_rng.chance(2, 5))
                                           LIB(c.erase(key));
                                       else if (c.size() < N)
                                           LIB(c.insert(key));
                                       trace("%d", v);
                                       std::vector<const void*> keys;
                                       std::size_t h = N;
                                       for (auto it = c.cbegin(); it != c.cend(); ++it)
                                       {
                                           keys.push_back(addr(*it));
                                           h = mix(h, static_cast<std::size_t>(static_cast<const char*>(keys.back()) - reinterpret_cast<const char*>(b.p)));
                                       }
                                       cover(h);
                                       compare_view(view, c.size(), keys, [](auto& it) -> const void* { return *it; }, "uset view");
                                   }
                               });
              });
}

#if PART == 3
// Containers with more entries than small index types can count: filled in a random order, thinned out and filled again.
template <class C, class View, class Fill, class Addrs>
void large_groups(const std::string& id, std::size_t n, View make_view, Fill fill, Addrs addrs)
{
    add_group("model",
              id,
              [=]
              {
                  for (std::size_t k = 0; k < n_cases(1); k++)
                      run_case("large",
                               [&]
                               {
                                   Box<C> b;
                                   const auto view = make_view(addr(*b));
                                   for (int round = 0; round < 3; round++)
                                   {
                                       trace("round %d", round);
                                       fill(*b, n, round);
                                       const std::vector<const void*> want = addrs(std::as_const(*b));
                                       VF_CHECK("MODEL", want.size() == b->size(), "size() %zu, iteration %zu", static_cast<std::size_t>(b->size()), want.size());
                                       cover(mix(mix(n, want.size()), static_cast<std::size_t>(round)));
                                       compare_view(view, want.size(), want, [](auto& it) -> const void* {
                                           if constexpr (requires { (*it).key(); })
                                               return (*it).key();
                                           else
                                               return *it;
                                       }, id.c_str());
                                   }
                               });
              });
}
// round 0: everything; round 1: a random half is erased; round 2: filled up again
template <class C>
void fill_keys(C& c, std::size_t n, int round)
{
    std::vector<int> keys(n);
    for (std::size_t i = 0; i < n; i++)
        keys[i] = static_cast<int>(i);
    for (std::size_t i = n; i > 1; i--)
        std::swap(keys[i - 1], keys[g_rng.below(i)]);
    if (round == 1)
        for (std::size_t i = 0; i < n / 2; i++)
            LIB(c.erase(keys[i]));
    else
        for (const int k : keys)
        {
            if constexpr (requires { typename C::mapped_type; })
                LIB(c.try_emplace(k, k));
            else
                LIB(c.insert(k));
        }
}
template <class C>
void fill_deque(C& c, std::size_t n, int round)
{
    if (round == 1)
        for (std::size_t i = 0; i < n / 2; i++)
        {
            LIB(c.pop_front());
            if (i % 3 == 0)
                LIB(c.push_back(7));
        }
    else
        while (c.size() < n)
        {
            if (g_rng.chance(1, 3))
                LIB(c.push_front(1));
            else
                LIB(c.push_back(2));
        }
}
template <std::size_t N>
void large()
{
    const std::string s = std::to_string(N);
    auto name = [&](const char* w) { return w + s; };
    auto keys = [](auto& c)
    {
        std::vector<const void*> r;
        for (auto it = c.cbegin(); it != c.cend(); ++it)
        {
            if constexpr (requires { it->first; })
            {
                auto&& e = *it;
                r.push_back(addr(e.first));
            }
            else
                r.push_back(addr(*it));
        }
        return r;
    };
    auto fk = [](auto& c, std::size_t n, int round) { fill_keys(c, n, round); };
    auto fd = [](auto& c, std::size_t n, int round) { fill_deque(c, n, round); };
    large_groups<fc::FixedDeque<int, N>>(name("deque "), N, [](const void* p) { return fc::FixedDequeRawView<>(p, sizeof(int), alignof(int), N); }, fd, keys);
    large_groups<fc::FixedDeque<char, N>>(name("deque<char> "), N, [](const void* p) { return fc::FixedDequeRawView<>(p, 1, 1, N); }, fd, keys);
    large_groups<fc::FixedMap<int, int, N>>(name("map "), N, [](const void* p) { return fc::FixedMapRawView(p, 4, 4, 4, 4, N, Compact::EMBEDDED_COLOR, Storage::FIXED_INDEX_POOL); }, fk, keys);
    large_groups<fc::FixedSet<int, N>>(name("set "), N, [](const void* p) { return fc::FixedRedBlackTreeRawView(p, 4, N, Compact::EMBEDDED_COLOR, Storage::FIXED_INDEX_POOL); }, fk, keys);
    large_groups<fc::FixedSet<int, N, std::less<int>, Compact::DEDICATED_COLOR, fc::FixedIndexBasedContiguousStorage>>(name("set,cont "), N, [](const void* p) { return fc::FixedRedBlackTreeRawView(p, 4, N, Compact::DEDICATED_COLOR, Storage::FIXED_INDEX_CONTIGUOUS); }, fk, keys);
    large_groups<fc::FixedUnorderedMap<int, int, N>>(name("umap "), N, [](const void* p) { return fc::FixedUnorderedMapRawView(p, 4, 4, 4, 4, N); }, fk, keys);
    large_groups<fc::FixedUnorderedSet<int, N>>(name("uset "), N, [](const void* p) { return fc::FixedUnorderedSetRawView(p, 4, 4, N); }, fk, keys);
}
#endif

#define T1(M) M(1, 1) M(2, 1) M(3, 1) M(7, 1) M(9, 1) M(2, 2) M(6, 2) M(4, 4) M(12, 4) M(20, 4) M(8, 8) M(24, 8)
#define T2(M) M(16, 16) M(48, 16) M(64, 64)

int main(int argc, char** argv)
{
#if PART == 0 || PART == -1
#define M(S, A)                                               \
    deque_groups<By<S, A>, 1>("By" #S "/" #A, 20);            \
    deque_groups<By<S, A>, 5>("By" #S "/" #A, 60);            \
    deque_groups<NtBy<S, A>, 7>("NtBy" #S "/" #A, 60);        \
    list_groups<By<S, A>, 1, std::size_t>("By" #S "/" #A, 20); \
    list_groups<By<S, A>, 6, std::size_t>("By" #S "/" #A, 60); \
    list_groups<NtBy<S, A>, 5, std::uint32_t>("NtBy" #S "/" #A, 60); \
    list_groups<By<S, A>, 4, std::uint32_t>("By" #S "/" #A, 60);
    T1(M)
    T2(M)
#undef M
    // elements that take more than 255 and more than 65535 bytes
    deque_groups<By<300, 4>, 5>("By300/4", 30);
    deque_groups<NtBy<70001, 1>, 4>("NtBy70001/1", 4);
    list_groups<By<300, 4>, 5, std::uint32_t>("By300/4", 30);
    list_groups<NtBy<70001, 1>, 4, std::size_t>("NtBy70001/1", 4);
#endif
#if PART == 1 || PART == -1
#define POOL fc::FixedIndexBasedPoolStorage, Storage::FIXED_INDEX_POOL
#define CONT fc::FixedIndexBasedContiguousStorage, Storage::FIXED_INDEX_CONTIGUOUS
#define M(S, A)                                                                          \
    set_groups<By<S, A>, 9, Compact::EMBEDDED_COLOR, POOL>("By" #S "/" #A ",emb", 80);   \
    set_groups<NtBy<S, A>, 6, Compact::DEDICATED_COLOR, POOL>("NtBy" #S "/" #A ",ded", 80); \
    set_groups<By<S, A>, 1, Compact::DEDICATED_COLOR, CONT>("By" #S "/" #A ",ded,cont", 20); \
    set_groups<By<S, A>, 5, Compact::EMBEDDED_COLOR, CONT>("By" #S "/" #A ",emb,cont", 60);
    T1(M)
#undef M
#define M(S, A, S2, A2)                                                                                            \
    map_groups<By<S, A>, By<S2, A2>, 8, Compact::EMBEDDED_COLOR, POOL>("By" #S "/" #A ",By" #S2 "/" #A2 ",emb", 60); \
    map_groups<By<S, A>, NtBy<S2, A2>, 5, Compact::DEDICATED_COLOR, CONT>("By" #S "/" #A ",NtBy" #S2 "/" #A2 ",ded,cont", 60);
    M(1, 1, 1, 1) M(1, 1, 4, 4) M(4, 4, 1, 1) M(1, 1, 8, 8) M(8, 8, 1, 1) M(12, 4, 2, 2) M(2, 2, 3, 1) M(3, 1, 2, 2) M(7, 1, 12, 4) M(24, 8, 20, 4) M(20, 4, 24, 8)
#undef M
    refused_map_group<By<16, 16>, By<4, 4>, 4, Compact::EMBEDDED_COLOR, POOL>("By16/16,By4/4,emb");
    refused_map_group<By<4, 4>, By<16, 16>, 4, Compact::EMBEDDED_COLOR, POOL>("By4/4,By16/16,emb");
    refused_map_group<By<1, 1>, By<48, 16>, 4, Compact::DEDICATED_COLOR, CONT>("By1/1,By48/16,ded,cont");
    refused_map_group<By<64, 64>, By<64, 64>, 3, Compact::EMBEDDED_COLOR, CONT>("By64/64,By64/64,emb,cont");
    set_groups<By<300, 4>, 5, Compact::EMBEDDED_COLOR, POOL>("By300/4,emb", 30);
    set_groups<By<70001, 1>, 4, Compact::EMBEDDED_COLOR, CONT>("By70001/1,emb,cont", 4);
    map_groups<By<300, 4>, NtBy<70001, 1>, 4, Compact::EMBEDDED_COLOR, POOL>("By300/4,NtBy70001/1,emb", 4);
    map_groups<By<70001, 1>, By<4, 4>, 4, Compact::DEDICATED_COLOR, POOL>("By70001/1,By4/4,ded", 4);
#endif
#if PART == 2 || PART == -1
#define M(S, A)                                        \
    uset_groups<By<S, A>, 9>("By" #S "/" #A, 80);      \
    uset_groups<NtBy<S, A>, 4>("NtBy" #S "/" #A, 80);  \
    uset_groups<By<S, A>, 1>("By" #S "/" #A, 20);
    T1(M)
    T2(M)
#undef M
#define M(S, A, S2, A2)                                                             \
    umap_groups<By<S, A>, By<S2, A2>, 8>("By" #S "/" #A ",By" #S2 "/" #A2, 60);     \
    umap_groups<NtBy<S, A>, NtBy<S2, A2>, 3>("NtBy" #S "/" #A ",NtBy" #S2 "/" #A2, 60);
    M(1, 1, 1, 1) M(1, 1, 4, 4) M(4, 4, 1, 1) M(1, 1, 8, 8) M(8, 8, 1, 1) M(12, 4, 2, 2) M(2, 2, 3, 1) M(3, 1, 2, 2) M(7, 1, 12, 4) M(24, 8, 20, 4) M(20, 4, 24, 8)
    M(16, 16, 4, 4) M(4, 4, 16, 16) M(64, 64, 1, 1) M(6, 2, 48, 16)
#undef M
    uset_groups<By<300, 4>, 5>("By300/4", 30);
    uset_groups<NtBy<70001, 1>, 4>("NtBy70001/1", 4);
    umap_groups<By<300, 4>, NtBy<70001, 1>, 4>("By300/4,NtBy70001/1", 4);
    umap_groups<By<70001, 1>, By<4, 4>, 4>("By70001/1,By4/4", 4);
#endif
#if PART == 3
    large<70000>();
    large<300>();
    large<255>();
#endif
    return driver_main(argc, argv);
}
