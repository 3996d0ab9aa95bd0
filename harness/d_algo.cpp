// The standard algorithms and views over the iterators of every container: each one is applied to a sub-range of the
// container and of a std container with the same elements, forwards and through reverse and const iterators, and the
// returned positions and the complete contents are compared.
// PART 0 vector, string  1 deque, stale rotations  2 circular, list  3 ordered, hashed and enum containers
#ifndef PART
#define PART 0
#endif
#include "fw.hpp"
#if PART == 0
#include "fixed_containers/fixed_string.hpp"
#include "fixed_containers/fixed_vector.hpp"
#elif PART == 1
#include "fixed_containers/fixed_deque.hpp"
#elif PART == 2
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#else
#include "enums.hpp"
#include "fixed_containers/enum_array.hpp"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/enum_set.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#endif
#include <algorithm>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <random>
#include <ranges>
#include <set>
#include <span>
#include <string>
#include <unordered_map>
using namespace vf;
namespace fc = fixed_containers;

inline std::size_t below(std::size_t n) { return g_rng.below(n); }
inline std::ptrdiff_t sd(std::size_t n) { return static_cast<std::ptrdiff_t>(n); }

using Two = std::pair<int, int>;  // the second part shows stability
using Own = std::unique_ptr<int>;
template <class T>
T make(int k, int serial)
{
    if constexpr (std::is_same_v<T, Two>)
        return Two(k, serial);
    else if constexpr (std::is_same_v<T, Own>)
        return std::make_unique<int>(k * 1000 + serial % 1000);
    else if constexpr (std::is_same_v<T, std::string>)
        return std::string(30, static_cast<char>('a' + k)) + std::to_string(serial);
    else
        return static_cast<T>(k);
}
inline int val(int x) { return x; }
inline int val(char x) { return x; }
inline int val(const Two& x) { return x.first; }
inline int val(const Own& x) { return x ? *x / 1000 : -1; }
inline int val(const std::string& x) { return x.empty() ? -1 : x[0]; }
inline bool same(const Own& a, const Own& b) { return a && b ? *a == *b : !a && !b; }
template <class T>
bool same(const T& a, const T& b)
{
    return a == b;
}
struct Less
{
    template <class T>
    bool operator()(const T& a, const T& b) const
    {
        return val(a) < val(b);
    }
};
struct Eq
{
    template <class T>
    bool operator()(const T& a, const T& b) const
    {
        return val(a) == val(b);
    }
};

template <class C, class M>
void contents(const C& c, const M& m, const char* what)
{
    VF_CHECK("ITER", c.size() == m.size(), "%s: size", what);
    std::size_t i = 0;
    for (const auto& e : c)
    {
        VF_CHECK("ITER", same(e, m[i]), "%s: element %zu of %zu", what, i, m.size());
        i++;
    }
    VF_CHECK("ITER", i == m.size(), "%s: traversal of %zu of %zu", what, i, m.size());
}

// One algorithm on [f, l) of the container and [g, k) of the model. Results are positions relative to f and g.
template <class T, bool RANDOM, class It, class Mt>
const char* apply(std::size_t which, It f, It l, Mt g, Mt k, std::size_t seed)
{
    const std::size_t n = static_cast<std::size_t>(std::distance(g, k));
    VF_CHECK("ITER", static_cast<std::size_t>(std::distance(f, l)) == n, "distance %td instead of %zu", static_cast<std::ptrdiff_t>(std::distance(f, l)), n);
    const std::size_t mid = seed % (n + 1);
    const int x = static_cast<int>(seed % 7) - 1;
    auto is = [&](const T& e) { return val(e) % 3 == x % 3; };
    auto pos = [&](It r, Mt s, const char* what) { VF_CHECK("ITER", std::distance(f, r) == std::distance(g, s), "%s returns position %td, expected %td of %zu", what, static_cast<std::ptrdiff_t>(std::distance(f, r)), static_cast<std::ptrdiff_t>(std::distance(g, s)), n); };
#define SAME(a, b, what) VF_CHECK("ITER", (a) == (b), "%s", what)
    switch (which)
    {
    case 0:
        std::reverse(f, l);
        std::reverse(g, k);
        return "reverse";
    case 1:
        pos(std::rotate(f, std::next(f, sd(mid)), l), std::rotate(g, std::next(g, sd(mid)), k), "rotate");
        return "rotate";
    case 2:
        pos(std::stable_partition(f, l, is), std::stable_partition(g, k, is), "stable_partition");
        return "stable_partition";
    case 3:
    {
        // what lies behind the result of remove_if is unspecified: only moved-from or old values, so restore it
        auto r = std::remove_if(f, l, is);
        auto s = std::remove_if(g, k, is);
        pos(r, s, "remove_if");
        for (int j = 0; r != l; ++r, ++s, ++j)
        {
            *r = make<T>(j % 5, j);
            *s = make<T>(j % 5, j);
        }
        return "remove_if";
    }
    case 4:
    {
        auto r = std::unique(f, l, Eq());
        auto s = std::unique(g, k, Eq());
        pos(r, s, "unique");
        for (int j = 0; r != l; ++r, ++s, ++j)
        {
            *r = make<T>(j % 5, j);
            *s = make<T>(j % 5, j);
        }
        return "unique";
    }
    case 5:
        pos(std::find_if(f, l, is), std::find_if(g, k, is), "find_if");
        pos(std::find_if_not(f, l, is), std::find_if_not(g, k, is), "find_if_not");
        pos(std::adjacent_find(f, l, Eq()), std::adjacent_find(g, k, Eq()), "adjacent_find");
        return "find";
    case 6:
        pos(std::min_element(f, l, Less()), std::min_element(g, k, Less()), "min_element");
        pos(std::max_element(f, l, Less()), std::max_element(g, k, Less()), "max_element");
        return "min/max_element";
    case 7:
        SAME(std::count_if(f, l, is), std::count_if(g, k, is), "count_if");
        SAME(std::any_of(f, l, is), std::any_of(g, k, is), "any_of");
        SAME(std::all_of(f, l, is), std::all_of(g, k, is), "all_of");
        SAME(std::accumulate(f, l, 0U, [](unsigned a, const T& b) { return a * 3U + static_cast<unsigned>(val(b)); }), std::accumulate(g, k, 0U, [](unsigned a, const T& b) { return a * 3U + static_cast<unsigned>(val(b)); }), "accumulate");
        return "count_if";
    case 8:
    {
        auto m1 = std::next(f, sd(mid));
        auto m2 = std::next(g, sd(mid));
        pos(std::search(f, l, m1, l, Eq()), std::search(g, k, m2, k, Eq()), "search");
        pos(std::find_end(f, l, m1, l, Eq()), std::find_end(g, k, m2, k, Eq()), "find_end");
        pos(std::find_first_of(f, m1, m1, l, Eq()), std::find_first_of(g, m2, m2, k, Eq()), "find_first_of");
        SAME(std::lexicographical_compare(f, m1, m1, l, Less()), std::lexicographical_compare(g, m2, m2, k, Less()), "lexicographical_compare");
        SAME(std::equal(f, m1, m1, l, Eq()), std::equal(g, m2, m2, k, Eq()), "equal");
        return "search";
    }
    case 9:
    {
        // exchange the front with the part in the middle, without overlap
        const std::size_t h = std::min(mid, n - mid);
        pos(std::swap_ranges(f, std::next(f, sd(h)), std::next(f, sd(n - h))), std::swap_ranges(g, std::next(g, sd(h)), std::next(g, sd(n - h))), "swap_ranges");
        return "swap_ranges";
    }
    case 10:
    {
        int i = 0, j = 0;
        std::generate(f, l, [&] { return make<T>(i++ % 5, i); });
        std::generate(g, k, [&] { return make<T>(j++ % 5, j); });
        return "generate";
    }
    case 11:
    {
        // shift the tail to the front; the moved-from rest is written again
        auto r = std::move(std::next(f, sd(mid)), l, f);
        auto s = std::move(std::next(g, sd(mid)), k, g);
        pos(r, s, "move");
        for (int j = 0; r != l; ++r, ++s, ++j)
        {
            *r = make<T>(j % 5, j);
            *s = make<T>(j % 5, j);
        }
        return "move";
    }
    case 12:
    {
        auto r = std::move_backward(f, std::next(f, sd(mid)), l);
        auto s = std::move_backward(g, std::next(g, sd(mid)), k);
        pos(r, s, "move_backward");
        auto a = f;
        auto b = g;
        for (int j = 0; a != r; ++a, ++b, ++j)
        {
            *a = make<T>(j % 5, j);
            *b = make<T>(j % 5, j);
        }
        return "move_backward";
    }
    case 13:
        if constexpr (std::is_copy_assignable_v<T>)
        {
            const std::size_t h = n - mid;
            pos(std::copy(std::next(f, sd(mid)), l, f), std::copy(std::next(g, sd(mid)), k, g), "copy");
            pos(std::copy_backward(f, std::next(f, sd(h)), l), std::copy_backward(g, std::next(g, sd(h)), k), "copy_backward");
            std::fill(f, std::next(f, sd(mid / 2)), make<T>(2, 7));
            std::fill(g, std::next(g, sd(mid / 2)), make<T>(2, 7));
            std::replace_if(f, l, is, make<T>(1, 8));
            std::replace_if(g, k, is, make<T>(1, 8));
            return "copy";
        }
        return nullptr;
    case 14:
        SAME(std::next_permutation(f, l, Less()), std::next_permutation(g, k, Less()), "next_permutation");
        return "next_permutation";
    case 15:
        SAME(std::prev_permutation(f, l, Less()), std::prev_permutation(g, k, Less()), "prev_permutation");
        return "prev_permutation";
    case 16:
        SAME(std::is_sorted(f, l, Less()), std::is_sorted(g, k, Less()), "is_sorted");
        pos(std::is_sorted_until(f, l, Less()), std::is_sorted_until(g, k, Less()), "is_sorted_until");
        SAME(std::is_partitioned(f, l, is), std::is_partitioned(g, k, is), "is_partitioned");
        return "is_sorted";
    case 17:
        std::ranges::reverse(f, l);
        std::ranges::reverse(g, k);
        {
            auto r = std::ranges::rotate(f, std::next(f, sd(mid)), l);
            auto s = std::ranges::rotate(g, std::next(g, sd(mid)), k);
            pos(r.begin(), s.begin(), "ranges::rotate");
            pos(r.end(), s.end(), "ranges::rotate (end)");
        }
        pos(std::ranges::find_if(f, l, is), std::ranges::find_if(g, k, is), "ranges::find_if");
        SAME(std::ranges::distance(f, l), std::ranges::distance(g, k), "ranges::distance");
        return "ranges";
    case 18:
    {
        const int lim = x + 2;
        auto low = [&](const T& e) { return val(e) % 5 < lim; };
        std::stable_partition(f, l, low);
        std::stable_partition(g, k, low);
        pos(std::partition_point(f, l, low), std::partition_point(g, k, low), "partition_point");
        return "partition_point";
    }
    default: break;
    }
    if constexpr (RANDOM)
        switch (which)
        {
        case 19:
            std::stable_sort(f, l, Less());
            std::stable_sort(g, k, Less());
            return "stable_sort";
        case 20:
        {
            std::sort(f, l, Less());
            VF_CHECK("ITER", std::is_sorted(f, l, Less()), "sort does not sort");
            // which of several equivalent elements comes first is unspecified: make it definite on both sides
            std::sort(g, k, Less());
            auto full = [](const T& a, const T& b)
            {
                if constexpr (std::is_same_v<T, Own>)
                    return *a < *b;
                else
                    return a < b;
            };
            std::sort(f, l, full);
            std::sort(g, k, full);
            return "sort";
        }
        case 21:
        {
            std::stable_sort(f, l, Less());
            std::stable_sort(g, k, Less());
            auto lb = [&](auto a, auto b) { return std::partition_point(a, b, [&](const T& e) { return val(e) < val(make<T>(x, 1)); }); };
            pos(lb(f, l), lb(g, k), "lower bound");
            if (n > 0)
            {
                auto& key = *std::next(g, sd(seed % n));
                pos(std::lower_bound(f, l, key, Less()), std::lower_bound(g, k, key, Less()), "lower_bound");
                pos(std::upper_bound(f, l, key, Less()), std::upper_bound(g, k, key, Less()), "upper_bound");
                SAME(std::binary_search(f, l, key, Less()), true, "binary_search");
            }
            return "lower_bound";
        }
        case 22:
        {
            auto a = std::next(f, sd(mid));
            auto b = std::next(g, sd(mid));
            std::stable_sort(f, a, Less());
            std::stable_sort(a, l, Less());
            std::stable_sort(g, b, Less());
            std::stable_sort(b, k, Less());
            std::inplace_merge(f, a, l, Less());
            std::inplace_merge(g, b, k, Less());
            return "inplace_merge";
        }
        case 23:
            // the same heap algorithm over the same values makes the same heap
            std::make_heap(f, l, Less());
            std::make_heap(g, k, Less());
            VF_CHECK("ITER", std::is_heap(f, l, Less()), "make_heap does not make a heap");
            if (n > 0)
            {
                std::pop_heap(f, l, Less());
                std::pop_heap(g, k, Less());
                std::push_heap(f, l, Less());
                std::push_heap(g, k, Less());
            }
            std::sort_heap(f, l, Less());
            std::sort_heap(g, k, Less());
            return "heap";
        case 24:
        {
            std::minstd_rand e1(static_cast<unsigned>(seed) + 1), e2(static_cast<unsigned>(seed) + 1);
            std::shuffle(f, l, e1);
            std::shuffle(g, k, e2);
            return "shuffle";
        }
        case 25:
        {
            if (n == 0)
                return nullptr;
            // random jumps: indexing, differences, order
            for (int j = 0; j < 12; j++)
            {
                const std::size_t a = (seed * 7 + static_cast<std::size_t>(j) * 13) % n, b = (seed * 3 + static_cast<std::size_t>(j) * 5) % n;
                auto ia = f + sd(a);
                auto ib = l - sd(n - b);
                SAME(ib - ia, sd(b) - sd(a), "difference");
                SAME(ia < ib, a < b, "order");
                VF_CHECK("ITER", same(f[sd(a)], g[sd(a)]) && same(ia[sd(b) - sd(a)], g[sd(b)]) && same(*(ib -= sd(b) - sd(a)), *ia), "jump");
            }
            return "jumps";
        }
        case 26:
            std::ranges::sort(f, l, Less());
            std::sort(g, k, Less());
            VF_CHECK("ITER", std::ranges::is_sorted(f, l, Less()), "ranges::sort does not sort");
            {
                auto full = [](const T& a, const T& b)
                {
                    if constexpr (std::is_same_v<T, Own>)
                        return *a < *b;
                    else
                        return a < b;
                };
                std::ranges::stable_sort(f, l, full);
                std::stable_sort(g, k, full);
            }
            return "ranges::sort";
        case 27:
        {
            if (n == 0)
                return nullptr;
            const std::size_t at = seed % n;
            std::nth_element(f, std::next(f, sd(at)), l, Less());
            for (std::size_t i = 0; i < n; i++)
                VF_CHECK("ITER", i <= at ? !Less()(f[sd(at)], f[sd(i)]) : !Less()(f[sd(i)], f[sd(at)]), "nth_element");
            auto full = [](const T& a, const T& b)
            {
                if constexpr (std::is_same_v<T, Own>)
                    return *a < *b;
                else
                    return a < b;
            };
            std::sort(f, l, full);
            std::sort(g, k, full);
            return "nth_element";
        }
        case 28:
        {
            auto r = std::shift_left(f, l, sd(mid));
            auto s = std::shift_left(g, k, sd(mid));
            pos(r, s, "shift_left");
            if (mid > 0 && mid < n)
                for (int j = 0; r != l; ++r, ++s, ++j)
                {
                    *r = make<T>(j % 5, j);
                    *s = make<T>(j % 5, j);
                }
            return "shift_left";
        }
        default: break;
        }
    return nullptr;
}

template <class C, class M, bool RANDOM>
void views(C& c, M& m)
{
    const C& cc = c;
    VF_CHECK("ITER", std::ranges::size(cc) == m.size() && std::size(cc) == m.size() && std::ranges::ssize(cc) == sd(m.size()) && std::empty(cc) == m.empty() && std::ranges::empty(cc) == m.empty(), "std::size/empty");
    auto twice = [](const auto& e) { return 2 * val(e); };
    auto odd = [](const auto& e) { return val(e) % 2 != 0; };
    auto eq = [](auto&& a, auto&& b)
    {
        auto i = a.begin();
        auto j = b.begin();
        for (; i != a.end() && j != b.end(); ++i, ++j)
            if (!(*i == *j))
                return false;
        return i == a.end() && j == b.end();
    };
    VF_CHECK("ITER", eq(cc | std::views::transform(twice), m | std::views::transform(twice)), "views::transform");
    VF_CHECK("ITER", eq(cc | std::views::reverse | std::views::transform(twice), m | std::views::reverse | std::views::transform(twice)), "views::reverse");
    const std::size_t k = below(m.size() + 2);
    VF_CHECK("ITER", eq(cc | std::views::drop(k) | std::views::transform(twice), m | std::views::drop(k) | std::views::transform(twice)), "views::drop");
    VF_CHECK("ITER", eq(cc | std::views::take(k) | std::views::transform(twice), m | std::views::take(k) | std::views::transform(twice)), "views::take");
    auto f1 = c | std::views::filter(odd) | std::views::transform(twice);
    auto f2 = m | std::views::filter(odd) | std::views::transform(twice);
    VF_CHECK("ITER", eq(f1, f2), "views::filter");
    if (!m.empty())
    {
        VF_CHECK("ITER", same((cc | std::views::all).front(), m.front()) && same((cc | std::views::all).back(), m.back()), "view front/back");
        if constexpr (RANDOM)
            VF_CHECK("ITER", same((cc | std::views::all)[sd(m.size() / 2)], m[m.size() / 2]), "view subscript");
    }
    if constexpr (std::ranges::contiguous_range<C>)
    {
        std::span<typename C::value_type> s(c);
        VF_CHECK("ITER", s.size() == m.size() && s.data() == c.data(), "span");
        for (std::size_t i = 0; i < m.size(); i++)
            VF_CHECK("ITER", same(s[i], m[i]) && std::to_address(c.begin() + sd(i)) == c.data() + i, "span element %zu", i);
    }
}

template <class C, bool RANDOM, bool CONTIG>
void seq(const char* name, std::size_t n)
{
    using T = typename C::value_type;
    add_group(
        "iter",
        name,
        [=]
        {
            using It = typename C::iterator;
            using CIt = typename C::const_iterator;
            using Want = std::conditional_t<CONTIG, std::contiguous_iterator_tag, std::conditional_t<RANDOM, std::random_access_iterator_tag, std::bidirectional_iterator_tag>>;
            for (std::size_t i = 0; i < n_cases(n); i++)
                run_case("algorithms",
                         [&]
                         {
                             if constexpr (true)
                             {
                                 constexpr bool cat = std::is_convertible_v<typename std::iterator_traits<It>::iterator_category, std::conditional_t<RANDOM, std::random_access_iterator_tag, std::bidirectional_iterator_tag>>;
                                 constexpr bool con = (!CONTIG || std::contiguous_iterator<It>) && (!RANDOM || (std::random_access_iterator<It> && std::random_access_iterator<CIt>)) && std::bidirectional_iterator<It>;
                                 constexpr bool ref = std::is_same_v<std::iter_reference_t<It>, T&> && std::is_same_v<std::iter_reference_t<CIt>, const T&> && std::is_same_v<std::iter_value_t<It>, T> && std::is_same_v<std::iter_value_t<CIt>, T> && std::is_same_v<std::iter_rvalue_reference_t<It>, T&&>;
                                 constexpr bool rng = std::ranges::sized_range<C> && std::ranges::common_range<C> && std::sized_sentinel_for<It, It> == RANDOM && std::permutable<It> && std::indirectly_writable<It, T> && !std::indirectly_writable<CIt, T> && std::is_convertible_v<It, CIt> && !std::is_convertible_v<CIt, It>;
                                 VF_CHECK("ITER", cat, "iterator_category");
                                 VF_CHECK("ITER", con, "iterator concept");
                                 VF_CHECK("ITER", ref, "iterator reference and value types");
                                 VF_CHECK("ITER", rng, "range concepts");
                                 (void)sizeof(Want);
                             }
                             Box<C> b;
                             C& c = *b;
                             std::vector<T> m;
                             const std::size_t cap = C::static_max_size();
                             // arbitrary rotation or order of slots
                             if constexpr (requires { c.push_front(make<T>(0, 0)); c.pop_front(); })
                             {
                                 for (std::size_t r = below(2 * cap + 1); r > 0; r--)
                                 {
                                     if (below(2))
                                         c.push_back(make<T>(0, 0));
                                     else
                                         c.push_front(make<T>(0, 0));
                                     if (c.size() == cap || below(2))
                                     {
                                         if (below(2))
                                             c.pop_front();
                                         else
                                             c.pop_back();
                                     }
                                 }
                                 c.clear();
                             }
                             const std::size_t len = below(4) == 0 ? cap : below(cap + 1);
                             int serial = 0;
                             while (m.size() < len)
                             {
                                 const int k = static_cast<int>(below(8));
                                 serial++;
                                 if constexpr (requires { c.push_front(make<T>(0, 0)); })
                                     if (below(3) == 0)
                                     {
                                         c.push_front(make<T>(k, serial));
                                         m.insert(m.begin(), make<T>(k, serial));
                                         continue;
                                     }
                                 c.push_back(make<T>(k, serial));
                                 m.push_back(make<T>(k, serial));
                             }
                             contents(c, m, "filled");
                             for (int step = 0; step < 6; step++)
                             {
                                 const std::size_t which = below(RANDOM ? 29 : 19);
                                 const std::size_t p = below(3) == 0 ? 0 : below(len + 1);
                                 const std::size_t q = below(3) == 0 ? len : p + below(len - p + 1);
                                 const std::size_t seed = below(1000);
                                 const char* done = nullptr;
                                 const bool rev = below(3) == 0;
                                 trace("%s#%zu[%zu,%zu)", rev ? "r" : "", which, p, q);
                                 if (rev)
                                     done = apply<T, RANDOM>(which, std::next(c.rbegin(), sd(p)), std::next(c.rbegin(), sd(q)), std::next(m.rbegin(), sd(p)), std::next(m.rbegin(), sd(q)), seed);
                                 else
                                     done = apply<T, RANDOM>(which, std::next(c.begin(), sd(p)), std::next(c.begin(), sd(q)), std::next(m.begin(), sd(p)), std::next(m.begin(), sd(q)), seed);
                                 contents(c, m, done ? done : "nothing");
                                 if (done)
                                     cover(mix(mix(which, mix(p, q)), mix(len, rev)));
                             }
                             views<C, std::vector<T>, RANDOM>(c, m);
                             // reading algorithms over const and reverse const iterators, copies to other memory
                             const C& cc = c;
                             std::vector<int> out1, out2;
                             std::transform(cc.begin(), cc.end(), std::back_inserter(out1), [](const T& e) { return val(e); });
                             std::transform(cc.rbegin(), cc.rend(), std::back_inserter(out2), [](const T& e) { return val(e); });
                             std::reverse(out2.begin(), out2.end());
                             VF_CHECK("ITER", out1 == out2 && out1.size() == m.size(), "transform forwards and backwards");
                             VF_CHECK("ITER", std::equal(cc.begin(), cc.end(), m.begin(), m.end(), [](const T& a, const T& e) { return same(a, e); }) && std::ranges::equal(cc, m, [](const T& a, const T& e) { return same(a, e); }), "equal");
                             if constexpr (std::is_copy_constructible_v<T>)
                             {
                                 const std::vector<T> copy(cc.begin(), cc.end());
                                 const std::list<T> back(cc.rbegin(), cc.rend());
                                 VF_CHECK("ITER", copy == m && std::equal(back.begin(), back.end(), m.rbegin(), m.rend()), "std containers built from the iterators");
                             }
                         });
        });
}

#if PART == 3
template <class C, class M, bool MAP, bool BIDI>
void assoc_case(const C& c, const M& m, C& mut)
{
    auto key = [](const auto& e) {
        if constexpr (MAP)
            return static_cast<int>(e.first);
        else
            return static_cast<int>(e);
    };
    std::vector<int> a, b;
    std::transform(c.begin(), c.end(), std::back_inserter(a), key);
    std::transform(m.begin(), m.end(), std::back_inserter(b), key);
    VF_CHECK("ITER", a == b, "transform");
    const std::size_t n = m.size();
    VF_CHECK("ITER", std::distance(c.begin(), c.end()) == sd(n) && std::ranges::distance(c) == sd(n) && std::ranges::size(c) == n && std::size(c) == n && std::empty(c) == (n == 0), "distance");
    const int x = static_cast<int>(below(9));
    auto is = [&](const auto& e) { return key(e) % 9 == x; };
    auto at = [](auto f, auto i) { return std::distance(f, i); };
    VF_CHECK("ITER", at(c.begin(), std::find_if(c.begin(), c.end(), is)) == at(m.begin(), std::find_if(m.begin(), m.end(), is)), "find_if");
    VF_CHECK("ITER", at(c.begin(), std::ranges::find_if(c, is)) == at(m.begin(), std::ranges::find_if(m, is)), "ranges::find_if");
    VF_CHECK("ITER", std::count_if(c.begin(), c.end(), is) == std::count_if(m.begin(), m.end(), is) && std::ranges::count_if(c, is) == std::ranges::count_if(m, is), "count_if");
    auto lt = [&](const auto& p, const auto& q) { return key(p) * 7 % 11 < key(q) * 7 % 11; };
    VF_CHECK("ITER", at(c.begin(), std::max_element(c.begin(), c.end(), lt)) == at(m.begin(), std::max_element(m.begin(), m.end(), lt)), "max_element");
    VF_CHECK("ITER", at(c.begin(), std::min_element(c.begin(), c.end(), lt)) == at(m.begin(), std::min_element(m.begin(), m.end(), lt)), "min_element");
    auto up = [&](const auto& p, const auto& q) { return key(p) > key(q) + 3; };
    VF_CHECK("ITER", at(c.begin(), std::adjacent_find(c.begin(), c.end(), up)) == at(m.begin(), std::adjacent_find(m.begin(), m.end(), up)), "adjacent_find");
    const std::size_t k = below(n + 1);
    VF_CHECK("ITER", at(c.begin(), std::search(c.begin(), c.end(), std::next(c.begin(), sd(k)), c.end(), [&](const auto& p, const auto& q) { return key(p) == key(q); })) == sd(k == n ? 0 : k), "search");
    auto add = [&](unsigned s, const auto& e) { return s * 5U + static_cast<unsigned>(key(e)); };
    VF_CHECK("ITER", std::accumulate(c.begin(), c.end(), 1U, add) == std::accumulate(m.begin(), m.end(), 1U, add), "accumulate");
    a.clear();
    b.clear();
    for (const int v : c | std::views::drop(k) | std::views::filter(is) | std::views::transform(key))
        a.push_back(v);
    for (const int v : m | std::views::drop(k) | std::views::filter(is) | std::views::transform(key))
        b.push_back(v);
    VF_CHECK("ITER", a == b, "views");
    if constexpr (BIDI)
    {
        a.clear();
        b.clear();
        for (const int v : c | std::views::reverse | std::views::transform(key))
            a.push_back(v);
        for (const int v : m | std::views::reverse | std::views::transform(key))
            b.push_back(v);
        VF_CHECK("ITER", a == b, "views::reverse");
        a.clear();
        std::transform(c.rbegin(), c.rend(), std::back_inserter(a), key);
        VF_CHECK("ITER", a == b, "reverse transform");
        a.clear();
        b.clear();
        for (auto it = std::next(c.begin(), sd(k)); it != c.begin();)
            a.push_back(key(*--it));
        for (auto it = std::next(m.begin(), sd(k)); it != m.begin();)
            b.push_back(key(*--it));
        VF_CHECK("ITER", a == b, "backwards from %zu", k);
        VF_CHECK("ITER", at(c.rbegin(), std::find_if(c.rbegin(), c.rend(), is)) == at(m.rbegin(), std::find_if(m.rbegin(), m.rend(), is)), "find_if backwards");
        const auto fe = std::find_end(c.begin(), c.end(), c.begin(), std::next(c.begin(), sd(k)), [&](const auto& p, const auto& q) { return key(p) == key(q); });
        VF_CHECK("ITER", at(c.begin(), fe) == sd(k == 0 ? n : 0), "find_end");
    }
    if constexpr (MAP)
    {
        // writing through the mutable iterators
        std::for_each(mut.begin(), mut.end(), [](auto&& e) { e.second += 1; });
        for (auto&& [kk, vv] : mut)
            vv += 1;
        std::vector<std::pair<int, int>> now, want;
        for (auto&& [kk, vv] : c)
            now.emplace_back(static_cast<int>(kk), vv);
        for (auto&& [kk, vv] : m)
            want.emplace_back(static_cast<int>(kk), vv + 2);
        VF_CHECK("ITER", now == want, "for_each");
        std::for_each(mut.begin(), mut.end(), [](auto&& e) { e.second -= 2; });
    }
    else if constexpr (BIDI)
    {
        std::vector<int> ks;
        for (const auto& e : m)
            if (below(2))
                ks.push_back(static_cast<int>(e));
        std::vector<int> other = ks;
        other.push_back(1000000);
        auto less = [&](const auto& p, const auto& q) { return static_cast<int>(p) < static_cast<int>(q); };
        if (std::is_sorted(m.begin(), m.end(), less))
        {
            VF_CHECK("ITER", std::includes(c.begin(), c.end(), ks.begin(), ks.end(), less) && !std::includes(c.begin(), c.end(), other.begin(), other.end(), less), "includes");
            std::vector<int> d1, d2;
            auto put = [](std::vector<int>& v) { return [&v](const auto& e) { v.push_back(static_cast<int>(e)); }; };
            auto diff = [&](const auto& s, std::vector<int>& v)
            {
                auto p = put(v);
                for (auto it = s.begin(); it != s.end(); ++it)
                    if (!std::binary_search(ks.begin(), ks.end(), static_cast<int>(*it)))
                        p(*it);
            };
            diff(c, d1);
            diff(m, d2);
            VF_CHECK("ITER", d1 == d2, "difference");
        }
    }
    cover(mix(mix(n, k), static_cast<std::size_t>(x)));
}
template <class C, class M, bool MAP, bool BIDI, class MK>
void assoc(const char* name, std::size_t cases, int keys, MK mk)
{
    add_group("iter",
              name,
              [=]
              {
                  using It = typename C::iterator;
                  using CIt = typename C::const_iterator;
                  constexpr bool con = BIDI ? (std::bidirectional_iterator<It> && std::bidirectional_iterator<CIt>) : (std::forward_iterator<It> && std::forward_iterator<CIt>);
                  constexpr bool rng = std::ranges::sized_range<C> && std::ranges::common_range<C> && std::ranges::forward_range<const C> && std::is_convertible_v<It, CIt>;
                  for (std::size_t i = 0; i < n_cases(cases); i++)
                      run_case("algorithms",
                               [&]
                               {
                                   VF_CHECK("ITER", con, "iterator concept");
                                   VF_CHECK("ITER", rng, "range concepts");
                                   Box<C> b;
                                   M m;
                                   for (int step = 0; step < 20; step++)
                                   {
                                       const auto k = mk(static_cast<int>(below(static_cast<std::size_t>(keys))));
                                       const int v = static_cast<int>(below(50));
                                       const bool era = below(3) == 0;
                                       trace("%s %d", era ? "erase" : "insert", static_cast<int>(k));
                                       if (era)
                                       {
                                           b->erase(k);
                                           m.erase(k);
                                       }
                                       else if (b->size() < b->max_size())
                                       {
                                           if constexpr (MAP)
                                           {
                                               b->try_emplace(k, v);
                                               m.try_emplace(k, v);
                                           }
                                           else
                                           {
                                               b->insert(k);
                                               m.insert(k);
                                           }
                                       }
                                       if (step % 4 == 3)
                                           assoc_case<C, M, MAP, BIDI>(*b, m, *b);
                                   }
                               });
              });
}
// std::map-like model in insertion order
template <class K>
struct OrderedSet
{
    std::vector<K> e;
    auto begin() const { return e.begin(); }
    auto end() const { return e.end(); }
    std::size_t size() const { return e.size(); }
    void insert(const K& k)
    {
        if (std::find(e.begin(), e.end(), k) == e.end())
            e.push_back(k);
    }
    void erase(const K& k) { std::erase(e, k); }
};
template <class K>
struct OrderedMap
{
    std::vector<std::pair<K, int>> e;
    auto begin() const { return e.begin(); }
    auto end() const { return e.end(); }
    std::size_t size() const { return e.size(); }
    void try_emplace(const K& k, int v)
    {
        for (auto& p : e)
            if (p.first == k)
                return;
        e.emplace_back(k, v);
    }
    void erase(const K& k)
    {
        std::erase_if(e, [&](auto& p) { return p.first == k; });
    }
};
struct ByNumber
{
    template <class E>
    bool operator()(const E& a, const E& b) const
    {
        return static_cast<int>(a) < static_cast<int>(b);
    }
};
#endif

int main(int argc, char** argv)
{
#if PART == 0
    seq<fc::FixedVector<int, 9>, true, true>("vector<int>", 2500);
    seq<fc::FixedVector<Two, 40>, true, true>("vector<pair>", 1000);
    seq<fc::FixedVector<std::string, 12>, true, true>("vector<string>", 1000);
    seq<fc::FixedVector<Own, 12>, true, true>("vector<unique_ptr>", 1000);
    seq<fc::FixedString<20>, true, true>("string", 1000);
#elif PART == 1
    seq<fc::FixedDeque<int, 9>, true, false>("deque<int>", 2500);
    seq<fc::FixedDeque<Two, 40>, true, false>("deque<pair>", 1000);
    seq<fc::FixedDeque<std::string, 12>, true, false>("deque<string>", 1000);
    seq<fc::FixedDeque<Own, 12>, true, false>("deque<unique_ptr>", 1000);
#elif PART == 2
    seq<fc::FixedCircularDeque<int, 9>, true, false>("circular_deque<int>", 2500);
    seq<fc::FixedCircularDeque<Two, 40>, true, false>("circular_deque<pair>", 1000);
    seq<fc::FixedCircularDeque<std::string, 12>, true, false>("circular_deque<string>", 1000);
    seq<fc::FixedCircularDeque<Own, 12>, true, false>("circular_deque<unique_ptr>", 1000);
    seq<fc::FixedList<int, 9>, false, false>("list<int>", 2500);
    seq<fc::FixedList<Two, 40>, false, false>("list<pair>", 1000);
    seq<fc::FixedList<std::string, 12>, false, false>("list<string>", 1000);
    seq<fc::FixedList<Own, 12>, false, false>("list<unique_ptr>", 1000);
#else
    auto plain = [](int k) { return k; };
    using Compact = fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness;
    assoc<fc::FixedMap<int, int, 12>, std::map<int, int>, true, true>("map", 2000, 20, plain);
    assoc<fc::FixedMap<int, int, 12, std::greater<int>, Compact::DEDICATED_COLOR, fc::FixedIndexBasedContiguousStorage>, std::map<int, int, std::greater<int>>, true, true>("map,contiguous", 2000, 20, plain);
    assoc<fc::FixedSet<int, 12>, std::set<int>, false, true>("set", 2000, 20, plain);
    assoc<fc::FixedUnorderedMap<int, int, 12>, OrderedMap<int>, true, false>("unordered_map", 2000, 20, plain);
    assoc<fc::FixedUnorderedSet<int, 12>, OrderedSet<int>, false, false>("unordered_set", 2000, 20, plain);
    auto e5 = [](int k) -> vfe::E5 { return fc::rich_enums::EnumAdapter<vfe::E5>::values()[static_cast<std::size_t>(k) % fc::rich_enums::EnumAdapter<vfe::E5>::count()]; };
    auto es = [](int k) -> vfe::ESparse { return fc::rich_enums::EnumAdapter<vfe::ESparse>::values()[static_cast<std::size_t>(k) % fc::rich_enums::EnumAdapter<vfe::ESparse>::count()]; };
    assoc<fc::EnumMap<vfe::E5, int>, std::map<vfe::E5, int, ByNumber>, true, true>("enum_map<E5>", 1500, 20, e5);
    assoc<fc::EnumMap<vfe::ESparse, int>, std::map<vfe::ESparse, int, ByNumber>, true, true>("enum_map<ESparse>", 1500, 20, es);
    assoc<fc::EnumSet<vfe::ESparse>, std::set<vfe::ESparse, ByNumber>, false, true>("enum_set<ESparse>", 1500, 20, es);
#endif
    return driver_main(argc, argv);
}
