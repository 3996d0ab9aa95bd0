// C19: integer ranges, circular indexing and integer arithmetic against exact 128-bit arithmetic.
#include "fw.hpp"

#include "fixed_containers/circular_indexing.hpp"
#include "fixed_containers/circular_integer_range_iterator.hpp"
#include "fixed_containers/filtered_integer_range_iterator.hpp"
#include "fixed_containers/int_math.hpp"
#include "fixed_containers/integer_range.hpp"
#include "fixed_containers/integer_range_iterator.hpp"

#include <compare>
#include <limits>

namespace fc = fixed_containers;
using namespace vf;
using i128 = __int128;

namespace
{
template <class T>
T pick()
{
    using L = std::numeric_limits<T>;
    static const T fixed[] = {T(0), T(1), T(2), T(3), T(5), T(7), T(8), T(10), T(63), T(64), T(100), L::max(), T(L::max() - 1), T(L::max() - 2), T(L::max() / 2), T(L::max() / 2 + 1), T(L::max() / 3),
                              L::min(), T(L::min() + 1), T(L::min() + 2), T(L::min() / 2), T(~T(0)), T(~T(1))};
    switch (g_rng.below(4))
    {
    case 0:
    case 1: return fixed[g_rng.below(sizeof fixed / sizeof *fixed)];
    case 2: return static_cast<T>(g_rng.next());
    default: return static_cast<T>(static_cast<T>(g_rng.next()) >> g_rng.below(sizeof(T) * 8));
    }
}
std::string s128(i128 v)
{
    if (v == 0)
        return "0";
    const bool neg = v < 0;
    std::string r;
    while (v != 0)
    {
        int d = static_cast<int>(v % 10);
        r.insert(r.begin(), static_cast<char>('0' + (d < 0 ? -d : d)));
        v /= 10;
    }
    return neg ? "-" + r : r;
}
template <class V>
bool fits(i128 v)
{
    return v >= static_cast<i128>(std::numeric_limits<V>::min()) && v <= static_cast<i128>(std::numeric_limits<V>::max());
}

template <class U>
i128 exact(const fc::int_math::UnsignedIntegralAndSign<U>& r)
{
    const i128 m = static_cast<i128>(r.unsigned_value());
    return r.is_negative() ? -m : m;
}

// every way to read a sign-and-magnitude result
template <class U>
void check_value(const fc::int_math::UnsignedIntegralAndSign<U>& r, i128 want, const char* what)
{
    VF_CHECK("MODEL", exact(r) == want, "%s: exact result %s, got %s", what, s128(want).c_str(), s128(exact(r)).c_str());
    VF_CHECK("MODEL", r.is_negative() == (want < 0), "%s: is_negative() %d for %s", what, r.is_negative(), s128(want).c_str());
    VF_CHECK("MODEL", r.is_non_negative() == (want >= 0), "%s: is_non_negative() %d for %s", what, r.is_non_negative(), s128(want).c_str());
    auto cast_to = [&]<class V>(V)
    {
        if (!fits<V>(want))
            return;
        const V got = LIB(r.template cast<V>());
        VF_CHECK("MODEL", static_cast<i128>(got) == want, "%s: cast of %s to a %zu-byte %s type gives %s", what, s128(want).c_str(), sizeof(V), std::is_signed_v<V> ? "signed" : "unsigned",
                 s128(static_cast<i128>(got)).c_str());
    };
    cast_to(std::int8_t{});
    cast_to(std::int16_t{});
    cast_to(std::int32_t{});
    cast_to(std::int64_t{});
    cast_to(std::uint8_t{});
    cast_to(std::uint16_t{});
    cast_to(std::uint32_t{});
    cast_to(std::uint64_t{});
    if (want < 0 && g_rng.chance(1, 50))
    {
        volatile U sink = 0;
        const auto h = catch_hit([&] { sink = r.template cast<U>(); });
        VF_CHECK("CHECK", h.hit != Hit::NONE, "%s: negative %s cast to unsigned was not reported", what, s128(want).c_str());
    }
}

template <class U>
void math_groups(const char* id)
{
    add_group("model", std::string("int_math unsigned ") + id,
              [=]
              {
                  using X = fc::int_math::UnsignedIntegralAndSign<U>;
                  for (std::size_t k = 0; k < n_cases(4000); k++)
                      run_case("int_math",
                               [&]
                               {
                                   const U a = pick<U>();
                                   const U b = g_rng.chance(1, 6) ? a : pick<U>();
                                   trace("a=%s b=%s", s128(a).c_str(), s128(b).c_str());
                                   cover(mix(static_cast<std::uint64_t>(a), static_cast<std::uint64_t>(b)));
                                   check_value(LIB(fc::int_math::safe_subtract<U>(a, b)), static_cast<i128>(a) - static_cast<i128>(b), "safe_subtract");
                                   check_value(LIB(X::create_positive(a)), a, "create_positive");
                                   check_value(LIB(X::create_negative(a)), -static_cast<i128>(a), "create_negative");
                                   check_value(LIB(X{}), 0, "default");
                                   if (b != 0)
                                   {
                                       const i128 want = (static_cast<i128>(a) + b - 1) / b;
                                       const U got = LIB(fc::int_math::divide_integers_rounding_up<U>(a, b));
                                       VF_CHECK("MODEL", static_cast<i128>(got) == want, "divide_integers_rounding_up(%s, %s) is %s, exact %s", s128(a).c_str(), s128(b).c_str(), s128(got).c_str(), s128(want).c_str());
                                   }
                                   else if (g_rng.chance(1, 20))
                                   {
                                       volatile U sink = 0;
                                       const auto h = catch_hit([&] { sink = fc::int_math::divide_integers_rounding_up<U>(a, b); });
                                       VF_CHECK("CHECK", h.hit == Hit::ABORT, "division by zero was not reported");
                                   }
                               });
              });
}
template <class U, class S>
void add_groups(const char* id)
{
    add_group("model", std::string("safe_add ") + id,
              [=]
              {
                  for (std::size_t k = 0; k < n_cases(4000); k++)
                      run_case("safe_add",
                               [&]
                               {
                                   const U a = pick<U>();
                                   const S b = pick<S>();
                                   const i128 want = static_cast<i128>(a) + static_cast<i128>(b);
                                   // both the operand's magnitude and the result's magnitude have to be representable
                                   const i128 mb = b < 0 ? -static_cast<i128>(b) : static_cast<i128>(b);
                                   if (!fits<U>(mb) || !fits<U>(want < 0 ? -want : want))
                                       return;
                                   trace("a=%s b=%s", s128(a).c_str(), s128(b).c_str());
                                   cover(mix(static_cast<std::uint64_t>(a), static_cast<std::uint64_t>(b)));
                                   check_value(LIB(fc::int_math::safe_add(a, b)), want, "safe_add");
                               });
              });
}
template <class S>
void sdiv_groups(const char* id)
{
    add_group("model", std::string("divide_integers_rounding_up signed ") + id,
              [=]
              {
                  for (std::size_t k = 0; k < n_cases(4000); k++)
                      run_case("sdiv",
                               [&]
                               {
                                   const S a = pick<S>();
                                   const S b = pick<S>();
                                   if (b == 0)
                                       return;
                                   const i128 q = static_cast<i128>(a) / b;
                                   const i128 r = static_cast<i128>(a) % b;
                                   const i128 want = q + ((r != 0 && ((r > 0) == (b > 0))) ? 1 : 0);
                                   if (!fits<S>(want))
                                       return;
                                   trace("a=%s b=%s", s128(a).c_str(), s128(b).c_str());
                                   cover(mix(static_cast<std::uint64_t>(a), static_cast<std::uint64_t>(b)));
                                   const S got = LIB(fc::int_math::divide_integers_rounding_up<S>(a, b));
                                   VF_CHECK("MODEL", static_cast<i128>(got) == want, "divide_integers_rounding_up(%s, %s) is %s, exact %s", s128(a).c_str(), s128(b).c_str(), s128(got).c_str(), s128(want).c_str());
                               });
              });
}

// ------------------------------------------------------------------ ranges
template <class R>
void check_range(const R& r, std::size_t s, std::size_t e)
{
    VF_CHECK("MODEL", LIB(r.start_inclusive()) == s && LIB(r.end_exclusive()) == e, "range [%zu,%zu) has bounds [%zu,%zu)", s, e, r.start_inclusive(), r.end_exclusive());
    VF_CHECK("MODEL", LIB(r.distance()) == e - s, "range [%zu,%zu) has distance %zu", s, e, r.distance());
    const std::size_t probes[] = {s, s - 1, s + 1, e, e - 1, e + 1, 0, ~std::size_t{0}, s / 2 + e / 2, pick<std::size_t>(), s + g_rng.below(e - s + 1)};
    for (const std::size_t p : probes)
    {
        VF_CHECK("MODEL", LIB(r.contains(p)) == (s <= p && p < e), "range [%zu,%zu) contains(%zu) is %d", s, e, p, r.contains(p));
#ifndef VF_NO_DETAIL
        VF_CHECK("MODEL", LIB(fc::integer_range_detail::contains_or_is_equal_to_end(r, p)) == (s <= p && p <= e), "range [%zu,%zu) contains_or_is_equal_to_end(%zu)", s, e, p);
#endif
    }
}
template <std::size_t S, std::size_t E, std::size_t S2, std::size_t E2>
void check_ct()
{
    run_case("compile-time range",
             [&]
             {
                 trace("[%zu,%zu)", S, E);
                 const auto r = fc::IntegerRange::closed_open<S, E>();
                 static_assert(fc::IsIntegerRange<std::remove_cvref_t<decltype(r)>>);
                 check_range(r, S, E);
                 const auto r2 = fc::IntegerRange::closed_open<S2, E2>();
                 VF_CHECK("MODEL", LIB(r == r2) == (S == S2 && E == E2), "equality of [%zu,%zu) and [%zu,%zu)", S, E, S2, E2);
                 cover(mix(S, E));
             });
}
void range_groups()
{
    add_group("model", "ranges",
              []
              {
                  for (std::size_t k = 0; k < n_cases(4000); k++)
                      run_case("range",
                               [&]
                               {
                                   std::size_t a = pick<std::size_t>();
                                   std::size_t b = g_rng.chance(1, 5) ? a : (g_rng.chance(1, 2) ? a + g_rng.below(9) : pick<std::size_t>());
                                   trace("%zu %zu", a, b);
                                   cover(mix(a, b));
                                   if (a > b)
                                   {
                                       if (g_rng.chance(1, 10))
                                       {
                                           volatile std::size_t sink = 0;
                                           const auto h = catch_hit([&] { sink = fc::IntegerRange::closed_open(a, b).distance(); });
                                           VF_CHECK("CHECK", h.hit == Hit::ABORT, "closed_open(%zu, %zu) was not reported", a, b);
                                       }
                                       std::swap(a, b);
                                   }
                                   const auto r = LIB(fc::IntegerRange::closed_open(a, b));
                                   check_range(r, a, b);
                                   VF_CHECK("MODEL", LIB(fc::StartingIntegerAndDistance{.start = a, .distance = b - a}.to_range()) == r, "to_range of (%zu, +%zu)", a, b - a);
                                   const std::size_t c = g_rng.chance(1, 2) ? a : a / 2;
                                   const std::size_t d = g_rng.chance(1, 2) ? b : (b == ~std::size_t{0} ? b : b + 1);
                                   VF_CHECK("MODEL", LIB(fc::IntegerRange::closed_open(c, d) == r) == (a == c && b == d), "equality of [%zu,%zu) and [%zu,%zu)", a, b, c, d);
                                   check_range(fc::IntegerRange{}, 0, 0);
                               });
                  constexpr std::size_t M = ~std::size_t{0};
                  check_ct<0, 0, 0, 0>();
                  check_ct<0, 1, 0, 2>();
                  check_ct<3, 9, 3, 9>();
                  check_ct<3, 9, 2, 9>();
                  check_ct<5, 5, 6, 6>();
                  check_ct<0, M, 0, M>();
                  check_ct<M, M, 0, M>();
                  check_ct<M - 3, M, M - 3, M - 1>();
              });
}

// ------------------------------------------------------------------ circular indexing
using RangeT = fc::IntegerRange;
void random_range(std::size_t& s, std::size_t& len)
{
    static const std::size_t lens[] = {1, 2, 3, 4, 5, 7, 8, 16, 100, 1000, std::size_t{1} << 31, (std::size_t{1} << 32) + 1, std::size_t{1} << 62};
    len = g_rng.chance(1, 3) ? g_rng.range(1, 12) : lens[g_rng.below(sizeof lens / sizeof *lens)];
    s = g_rng.chance(1, 3) ? 0 : (g_rng.chance(1, 2) ? g_rng.below(20) : pick<std::size_t>() >> 2);
}
std::size_t random_step(std::size_t len)
{
    switch (g_rng.below(6))
    {
    case 0: return g_rng.below(3);
    case 1: return len * g_rng.below(4) + g_rng.below(3);
    case 2: return g_rng.below(2 * len + 1);
    case 3: return pick<std::size_t>();
    case 4: return g_rng.below(100000);
    default: return (static_cast<std::size_t>(-1) >> 1) - g_rng.below(3);
    }
}
i128 floor_div(i128 a, i128 b)
{
    i128 q = a / b;
    if (a % b < 0)
        --q;
    return q;
}
template <class R>
void check_circular(const R& r, std::size_t s, std::size_t len, std::size_t idx, std::size_t n)
{
    constexpr i128 MAX = static_cast<i128>(~std::size_t{0});
    if (static_cast<i128>(idx) + static_cast<i128>(n) <= MAX)
    {
        const i128 off = static_cast<i128>(idx - s) + static_cast<i128>(n);
        const i128 cyc = off / static_cast<i128>(len);
        if (fits<std::int64_t>(cyc))
        {
            const auto got = LIB(fc::circular_indexing::increment_index_with_wraparound(r, idx, n));
            VF_CHECK("MODEL", static_cast<i128>(got.cycles) == cyc && static_cast<i128>(got.integer) == static_cast<i128>(s) + off % static_cast<i128>(len),
                     "increment in [%zu,+%zu) from %zu by %zu: cycles %lld index %zu, exact %s and %s", s, len, idx, n, static_cast<long long>(got.cycles), got.integer, s128(cyc).c_str(), s128(static_cast<i128>(s) + off % static_cast<i128>(len)).c_str());
        }
    }
    // step + one turn has to be representable
    if (static_cast<i128>(n) + static_cast<i128>(len) <= MAX && static_cast<i128>(idx) + static_cast<i128>(len) <= MAX)
    {
        const i128 off = static_cast<i128>(idx - s) - static_cast<i128>(n);
        const i128 cyc = floor_div(off, static_cast<i128>(len));
        const i128 rem = off - cyc * static_cast<i128>(len);
        if (fits<std::int64_t>(cyc))
        {
            const auto got = LIB(fc::circular_indexing::decrement_index_with_wraparound(r, idx, n));
            VF_CHECK("MODEL", static_cast<i128>(got.cycles) == cyc && static_cast<i128>(got.integer) == static_cast<i128>(s) + rem,
                     "decrement in [%zu,+%zu) from %zu by %zu: cycles %lld index %zu, exact %s and %s", s, len, idx, n, static_cast<long long>(got.cycles), got.integer, s128(cyc).c_str(), s128(static_cast<i128>(s) + rem).c_str());
        }
    }
    cover(mix(mix(s, len), mix(idx, n)));
}
void circular_groups()
{
    add_group("model", "circular indexing",
              []
              {
                  for (std::size_t k = 0; k < n_cases(8000); k++)
                      run_case("circular",
                               [&]
                               {
                                   std::size_t s, len;
                                   random_range(s, len);
                                   const auto r = fc::IntegerRange::closed_open(s, s + len);
                                   const std::size_t idx = s + (g_rng.chance(1, 4) ? len - 1 : g_rng.chance(1, 4) ? 0 : g_rng.below(len));
                                   const std::size_t n = random_step(len);
                                   trace("[%zu,+%zu) at %zu step %zu", s, len, idx, n);
                                   check_circular(r, s, len, idx, n);
                                   if (s > 0 && g_rng.chance(1, 40))
                                   {
                                       volatile std::size_t sink = 0;
                                       const auto h = catch_hit([&] { sink = fc::circular_indexing::increment_index_with_wraparound(r, 0, 0).integer; });
                                       VF_CHECK("CHECK", h.hit == Hit::ABORT, "an index before the range was not reported");
                                   }
                               });
                  // small ranges: every index x every small step, run-time and compile-time ranges
                  auto all = [](auto r)
                  {
                      run_case("circular exhaustive",
                               [&]
                               {
                                   const std::size_t s = r.start_inclusive(), len = r.distance();
                                   for (std::size_t i = s; i < s + len; i++)
                                       for (std::size_t n = 0; n < 5 * len + 7; n++)
                                           check_circular(r, s, len, i, n);
                               });
                  };
                  for (std::size_t s = 0; s < 5; s++)
                      for (std::size_t len = 1; len < 14; len++)
                          all(fc::IntegerRange::closed_open(s, s + len));
                  all(fc::IntegerRange::closed_open<0, 1>());
                  all(fc::IntegerRange::closed_open<0, 7>());
                  all(fc::IntegerRange::closed_open<3, 8>());
                  all(fc::IntegerRange::closed_open<100, 116>());
                  run_case("circular empty",
                           [&]
                           {
                               const auto z = LIB(fc::circular_indexing::increment_index_with_wraparound(fc::IntegerRange{}, 0, 0));
                               const auto y = LIB(fc::circular_indexing::decrement_index_with_wraparound(fc::IntegerRange{}, 0, 0));
                               VF_CHECK("MODEL", z.cycles == 0 && z.integer == 0 && y == z, "empty range wraparound");
                           });
                  for (std::size_t k = 0; k < n_cases(500); k++)
                      run_case("cycles ordering",
                               [&]
                               {
                                   const fc::circular_indexing::CyclesAndInteger a{.cycles = pick<std::int64_t>(), .integer = pick<std::size_t>()};
                                   const fc::circular_indexing::CyclesAndInteger b{.cycles = g_rng.chance(1, 2) ? a.cycles : pick<std::int64_t>(), .integer = g_rng.chance(1, 4) ? a.integer : pick<std::size_t>()};
                                   const int want = a.cycles != b.cycles ? (a.cycles < b.cycles ? -1 : 1) : a.integer != b.integer ? (a.integer < b.integer ? -1 : 1) : 0;
                                   VF_CHECK("MODEL", (a == b) == (want == 0), "CyclesAndInteger ==");
                                   VF_CHECK("MODEL", (a < b) == (want < 0) && (a > b) == (want > 0) && (a <= b) == (want <= 0), "CyclesAndInteger ordering");
                               });
              });
}

// ------------------------------------------------------------------ iterators over integers
// `at(i)` is the value that has to be found i steps from the first position of a range of `n` elements.
template <class It, class At>
void walk(const char* what, It first, std::ptrdiff_t n, bool circular, At at)
{
    // positions 0..n as iterators
    It cur = first;
    std::ptrdiff_t pos = 0;
    const std::ptrdiff_t lo = circular ? -2 * n - 3 : 0;
    const std::ptrdiff_t hi = circular ? 3 * n + 4 : n;
    const It last = LIB(first + n);
    for (int step = 0; step < 60; step++)
    {
        std::ptrdiff_t to = lo + static_cast<std::ptrdiff_t>(g_rng.below(static_cast<std::size_t>(hi - lo + 1)));
        if (g_rng.chance(1, 8))
            to = pos;
        const std::ptrdiff_t d = to - pos;
        const unsigned how = static_cast<unsigned>(g_rng.below(8));
        trace("%+td/%u", d, how);
        switch (how)
        {
        case 0: LIB(cur += d); break;
        case 1: LIB(cur -= -d); break;
        case 2: cur = LIB(cur + d); break;
        case 3: cur = LIB(d + cur); break;
        case 4: cur = LIB(cur - (-d)); break;
        case 5:
            if (pos == hi)
                continue;
            to = pos + 1;
            if (g_rng.chance(1, 2))
                LIB(++cur);
            else
            {
                const It before = cur;
                const It old = LIB(cur++);
                VF_CHECK("MODEL", old == before, "%s: it++ returned another position", what);
            }
            break;
        case 6:
            if (pos == lo)
                continue;
            to = pos - 1;
            if (g_rng.chance(1, 2))
                LIB(--cur);
            else
            {
                const It before = cur;
                const It old = LIB(cur--);
                VF_CHECK("MODEL", old == before, "%s: it-- returned another position", what);
            }
            break;
        default: cur = LIB(std::next(first, to)); break;
        }
        pos = to;
        VF_CHECK("MODEL", LIB(cur - first) == pos, "%s: distance from the first position %td, expected %td", what, cur - first, pos);
        VF_CHECK("MODEL", LIB(first - cur) == -pos, "%s: negative distance %td, expected %td", what, first - cur, -pos);
        VF_CHECK("MODEL", LIB(last - cur) == n - pos, "%s: distance to the last position %td, expected %td", what, last - cur, n - pos);
        VF_CHECK("MODEL", LIB(cur == first) == (pos == 0) && LIB(cur == last) == (pos == n), "%s: equality at position %td", what, pos);
        VF_CHECK("MODEL", LIB(cur < first) == (pos < 0) && LIB(cur > first) == (pos > 0) && LIB(cur <= first) == (pos <= 0), "%s: ordering against the first position at %td", what, pos);
        VF_CHECK("MODEL", LIB(cur < last) == (pos < n) && LIB(cur > last) == (pos > n) && LIB(cur >= last) == (pos >= n), "%s: ordering against the last position at %td of %td", what, pos, n);
        if (circular ? n > 0 : pos < n)
        {
            VF_CHECK("MODEL", LIB(*cur) == at(pos), "%s: position %td holds %zu, expected %zu", what, pos, static_cast<std::size_t>(*cur), at(pos));
        }
        const std::ptrdiff_t q = lo + static_cast<std::ptrdiff_t>(g_rng.below(static_cast<std::size_t>(hi - lo + 1)));
        if (circular ? n > 0 : q < n)
            VF_CHECK("MODEL", LIB(cur[q - pos]) == at(q), "%s: [%td] from position %td is %zu, expected %zu", what, q - pos, pos, static_cast<std::size_t>(cur[q - pos]), at(q));
        cover(mix(mix(hash_str(what), static_cast<std::uint64_t>(n)), static_cast<std::uint64_t>(pos)));
    }
}
template <class R>
void range_iter_case(const R& r)
{
    const std::size_t s = r.start_inclusive(), e = r.end_exclusive();
    const auto n = static_cast<std::ptrdiff_t>(e - s);
    trace("[%zu,%zu)", s, e);
    using F = fc::IntegerRangeIterator<fc::IteratorDirection::FORWARD, R>;
    using B = fc::IntegerRangeIterator<fc::IteratorDirection::REVERSE, R>;
    walk("IntegerRangeIterator", F{r, s}, n, false, [&](std::ptrdiff_t i) { return s + static_cast<std::size_t>(i); });
    walk("reverse IntegerRangeIterator", B{r, e}, n, false, [&](std::ptrdiff_t i) { return e - 1 - static_cast<std::size_t>(i); });
    // base()
    for (std::ptrdiff_t i = 0; i <= n && i < 6; i++)
    {
        const B b = LIB(B{r, e} + i);
        VF_CHECK("MODEL", LIB(b.base()) == F(r, e - static_cast<std::size_t>(i)), "base() of reverse position %td", i);
    }
    // full walks
    std::vector<std::size_t> got;
    for (F it{r, s}; it != F{r, e}; ++it)
        got.push_back(*it);
    VF_CHECK("MODEL", got.size() == e - s, "forward walk over [%zu,%zu) visits %zu", s, e, got.size());
    for (std::size_t i = 0; i < got.size(); i++)
        VF_CHECK("MODEL", got[i] == s + i, "forward walk");
    got.clear();
    for (B it{r, e}; it != B{r, s}; ++it)
        got.push_back(*it);
    VF_CHECK("MODEL", got.size() == e - s, "reverse walk over [%zu,%zu) visits %zu", s, e, got.size());
    for (std::size_t i = 0; i < got.size(); i++)
        VF_CHECK("MODEL", got[i] == e - 1 - i, "reverse walk");
    // a step over the end of the range, however long, stops there (or is reported), it never leads to another position
    if (n > 0)
    {
        const std::size_t p = g_rng.below(static_cast<std::size_t>(n));
        const auto rest = n - static_cast<std::ptrdiff_t>(p);
        const std::ptrdiff_t huge = std::numeric_limits<std::ptrdiff_t>::max();
        const auto more = static_cast<std::ptrdiff_t>(g_rng.below(100));
        for (const std::ptrdiff_t d : {rest, rest + 1, rest + more, huge - more, huge})
        {
            int where = 0;
            trace("over the end: %zu + %td", s + p, d);
            auto h = catch_hit([&] { F it{r, s + p}; it += d; where = it == F{r, e}; });
            VF_CHECK("MODEL", where == 1 || (h.hit == Hit::ABORT && d != rest), "%td steps from %td before the end lead to another position", d, rest);
            where = 0;
            h = catch_hit([&] { F it{r, s + p}; it -= -d; where = it == F{r, e}; });
            VF_CHECK("MODEL", where == 1 || (h.hit == Hit::ABORT && d != rest), "%td steps back from %td before the end lead to another position", -d, rest);
            where = 0;
            h = catch_hit([&] { B it{r, e - p}; it += d; where = it == B{r, s}; });
            VF_CHECK("MODEL", where == 1 || (h.hit == Hit::ABORT && d != rest), "%td reverse steps from %td before the end lead to another position", d, rest);
            where = 0;
            h = catch_hit([&] { B it{r, e - p}; it = it - (-d); where = it == B{r, s}; });
            VF_CHECK("MODEL", where == 1 || (h.hit == Hit::ABORT && d != rest), "%td reverse steps back from %td before the end lead to another position", -d, rest);
        }
        // the same over the start: from there, one step leads to the first element again
        const auto done = static_cast<std::ptrdiff_t>(p) + 1;
        for (const std::ptrdiff_t d : {done, done + 1, done + more, huge - more, huge})
        {
            std::size_t got = ~s;
            auto h = catch_hit([&] { F it{r, s + p}; it -= d; ++it; got = *it; });
            VF_CHECK("MODEL", got == s || h.hit == Hit::ABORT, "%td steps back from position %zu, then one forward, lead to %zu instead of the first", d, p, got);
            got = ~s;
            h = catch_hit([&] { F it{r, s + p}; it = it + (-d - (d == huge)); ++it; got = *it; });
            VF_CHECK("MODEL", got == s || h.hit == Hit::ABORT, "-%td steps from position %zu, then one forward, lead to %zu instead of the first", d, p, got);
        }
    }
    if (g_rng.chance(1, 8))
    {
        volatile std::size_t sink = 0;
        auto h = catch_hit([&] { F it{r, e}; sink = *it; });
        VF_CHECK("CHECK", h.hit == Hit::ABORT, "dereferencing the end of an integer range was not reported");
        h = catch_hit([&] { F it{r, e}; ++it; sink = 1; });
        VF_CHECK("CHECK", h.hit == Hit::ABORT, "advancing beyond the end of an integer range was not reported");
        if (e < ~std::size_t{0} - 2)
        {
            h = catch_hit([&] { F it{r, e + 1}; sink = 2; });
            VF_CHECK("CHECK", h.hit == Hit::ABORT, "an iterator outside its range was not reported");
        }
        if (s > 0)
        {
            h = catch_hit([&] { F it{r, s - 1}; sink = 3; });
            VF_CHECK("CHECK", h.hit == Hit::ABORT, "an iterator before its range was not reported");
        }
        h = catch_hit([&] { F it{r, s}; --it; sink = *it; });
        VF_CHECK("CHECK", h.hit == Hit::ABORT, "reading before an integer range was not reported");
        h = catch_hit([&] { F it{r, s}; --it; --it; sink = 4; });
        VF_CHECK("CHECK", h.hit == Hit::ABORT, "moving further before an integer range was not reported");
    }
}
// positions of two different ranges have no relation
template <class I, class J>
void foreign(const I& a, const J& b, const char* what)
{
    volatile long long sink = 0;
    VF_CHECK("CHECK", catch_hit([&] { sink = a == b; }).hit == Hit::ABORT, "%s: equality of positions in different ranges was not reported", what);
    VF_CHECK("CHECK", catch_hit([&] { sink = a != b; }).hit == Hit::ABORT, "%s: inequality of positions in different ranges was not reported", what);
    VF_CHECK("CHECK", catch_hit([&] { sink = a < b; }).hit == Hit::ABORT, "%s: order of positions in different ranges was not reported", what);
    VF_CHECK("CHECK", catch_hit([&] { sink = a >= b; }).hit == Hit::ABORT, "%s: order of positions in different ranges was not reported", what);
    VF_CHECK("CHECK", catch_hit([&] { sink = a - b; }).hit == Hit::ABORT, "%s: distance of positions in different ranges was not reported", what);
}
inline void foreign_groups()
{
    add_group("model", "positions of different ranges",
              []
              {
                  for (std::size_t k = 0; k < n_cases(150); k++)
                      run_case("foreign",
                               [&]
                               {
                                   const std::size_t s = g_rng.below(6), e = s + 1 + g_rng.below(6);
                                   std::size_t s2 = s, e2 = e;
                                   const bool start = g_rng.chance(1, 2);
                                   // the two ranges differ in one bound only, and both contain the position used
                                   if (start && s + 1 < e)
                                       s2 = s + 1;
                                   else
                                       e2 = e + 1 + g_rng.below(3);
                                   const std::size_t at = s2 + g_rng.below(std::min(e, e2) - s2);
                                   trace("[%zu,%zu) and [%zu,%zu) at %zu", s, e, s2, e2, at);
                                   cover(mix(mix(s, e), mix(s2, mix(e2, at))));
                                   const auto r = fc::IntegerRange::closed_open(s, e), r2 = fc::IntegerRange::closed_open(s2, e2);
                                   using F = fc::IntegerRangeIterator<fc::IteratorDirection::FORWARD, fc::IntegerRange>;
                                   using B = fc::IntegerRangeIterator<fc::IteratorDirection::REVERSE, fc::IntegerRange>;
                                   foreign(F{r, at}, F{r2, at}, "IntegerRangeIterator");
                                   foreign(B{r2, at}, B{r, at}, "reverse IntegerRangeIterator");
                                   using CF = fc::CircularIntegerRangeIterator<fc::IteratorDirection::FORWARD, fc::IntegerRange>;
                                   using CB = fc::CircularIntegerRangeIterator<fc::IteratorDirection::REVERSE, fc::IntegerRange>;
                                   const fc::StartingIntegerAndDistance sd{.start = at, .distance = 0};
                                   foreign(CF{r, sd}, CF{r2, sd}, "CircularIntegerRangeIterator");
                                   foreign(CB{r2, sd}, CB{r, sd}, "reverse CircularIntegerRangeIterator");
                                   // an empty range has no position but zero
                                   const std::size_t p = g_rng.below(4);
                                   const auto none = fc::IntegerRange::closed_open(0, 0);
                                   volatile std::size_t sink = 0;
                                   const std::size_t by = g_rng.below(5);
                                   for (const bool up : {true, false})
                                   {
                                       const auto h = catch_hit([&] { sink = up ? fc::circular_indexing::increment_index_with_wraparound(none, p, by).integer : fc::circular_indexing::decrement_index_with_wraparound(none, p, by).integer; });
                                       VF_CHECK("CHECK", h.hit == (p == 0 ? Hit::NONE : Hit::ABORT) && (p != 0 || sink == 0), "a circular step in an empty range from %zu: %s", p, hit_name(h.hit));
                                   }
                               });
              });
}
template <class R>
void circ_iter_case(const R& r)
{
    const std::size_t s = r.start_inclusive(), len = r.distance();
    const std::size_t start = s + g_rng.below(len);
    const std::size_t dist = g_rng.below(2 * len + 1);
    trace("circular [%zu,+%zu) from %zu +%zu", s, len, start, dist);
    using F = fc::CircularIntegerRangeIterator<fc::IteratorDirection::FORWARD, R>;
    using B = fc::CircularIntegerRangeIterator<fc::IteratorDirection::REVERSE, R>;
    const auto n = static_cast<std::ptrdiff_t>(len);
    auto val = [&](std::ptrdiff_t off)
    {
        std::ptrdiff_t m = (static_cast<std::ptrdiff_t>(start - s) + off) % n;
        if (m < 0)
            m += n;
        return s + static_cast<std::size_t>(m);
    };
    const auto pd = static_cast<std::ptrdiff_t>(dist);
    walk("CircularIntegerRangeIterator", F{r, fc::StartingIntegerAndDistance{.start = start, .distance = dist}}, n, true, [&](std::ptrdiff_t i) { return val(pd + i); });
    walk("reverse CircularIntegerRangeIterator", B{r, fc::StartingIntegerAndDistance{.start = start, .distance = dist}}, n, true, [&](std::ptrdiff_t i) { return val(pd - 1 - i); });
    // steps up to the extremes of the difference type
    {
        const F f0{r, fc::StartingIntegerAndDistance{.start = start, .distance = 0}};
        const B b0{r, fc::StartingIntegerAndDistance{.start = start, .distance = 0}};
        const std::ptrdiff_t lowest = std::numeric_limits<std::ptrdiff_t>::min();
        const auto more = static_cast<std::ptrdiff_t>(g_rng.below(100));
        const auto any = static_cast<std::ptrdiff_t>(g_rng.next());
        // the value `d` steps away from `start`, for steps whose sum with an offset is not representable
        const auto far = [&](std::ptrdiff_t d)
        {
            const __int128 m = ((static_cast<__int128>(start - s) + d) % n + n) % n;
            return s + static_cast<std::size_t>(m);
        };
        for (const std::ptrdiff_t d : {lowest, lowest + more, -1 - lowest, -1 - lowest - more, any})
        {
            trace("far %td", d);
            // index plus step has to be representable
            const unsigned __int128 top = static_cast<unsigned __int128>(start) + (d < 0 ? static_cast<std::size_t>(-(d + 1)) + 1 : static_cast<std::size_t>(d)) + len;
            if (top > ~std::size_t{0})
                continue;
            F a = f0;
            LIB(a += d);
            VF_CHECK("MODEL", LIB(*a) == far(d), "%td circular steps lead to %zu, expected %zu", d, static_cast<std::size_t>(*a), far(d));
            VF_CHECK("MODEL", LIB(a - f0) == d, "the distance after %td circular steps is %td", d, a - f0);
            VF_CHECK("MODEL", LIB(f0 < a) == (d > 0) && LIB(a == f0) == (d == 0), "order after %td circular steps", d);
            if (d != lowest)
            {
                F c = f0;
                LIB(c -= -d);
                VF_CHECK("MODEL", c == a && LIB(f0 - c) == -d, "-= %td leads elsewhere than += %td", -d, d);
                B b = b0;
                LIB(b += -d);
                // a reverse iterator is one further back
                VF_CHECK("MODEL", LIB(*b) == far(d - 1), "%td reverse circular steps lead to %zu", -d, static_cast<std::size_t>(*b));
                VF_CHECK("MODEL", LIB(b - b0) == -d, "the distance after %td reverse circular steps is %td", -d, b - b0);
            }
            else
            {
                F c = f0;
                LIB(c -= d);
                VF_CHECK("MODEL", LIB(*c) == s + static_cast<std::size_t>(((static_cast<__int128>(start - s) - d) % n + n) % n), "-= lowest leads to %zu", static_cast<std::size_t>(*c));
            }
        }
    }
    const B b{r, fc::StartingIntegerAndDistance{.start = start, .distance = dist}};
    VF_CHECK("MODEL", LIB(b.base()) == F(r, fc::StartingIntegerAndDistance{.start = start, .distance = dist}), "base() of a reverse circular iterator");
}
struct Mask
{
    std::uint64_t bits = 0;
    std::size_t off = 0;
    std::size_t end = 0;
    static inline std::size_t asked_outside = 0;
    constexpr bool operator()(std::size_t i) const
    {
        if (!std::is_constant_evaluated() && (i < off || i >= end))
            asked_outside++;
        return ((bits >> ((i - off) % 64)) & 1) != 0;
    }
    constexpr bool operator==(const Mask&) const = default;
};
template <class R>
void filtered_case(const R& r)
{
    const std::size_t s = r.start_inclusive(), e = r.end_exclusive();
    Mask m{g_rng.chance(1, 4) ? 0 : g_rng.chance(1, 4) ? ~std::uint64_t{0} : g_rng.next() & g_rng.next(), s, e};
    Mask::asked_outside = 0;
    trace("filtered [%zu,%zu) mask %llx", s, e, static_cast<unsigned long long>(m.bits));
    using F = fc::FilteredIntegerRangeIterator<Mask, fc::IteratorDirection::FORWARD, R>;
    using B = fc::FilteredIntegerRangeIterator<Mask, fc::IteratorDirection::REVERSE, R>;
    std::vector<std::size_t> want;
    for (std::size_t i = s; i < e; i++)
        if (m(i))
            want.push_back(i);
    const F end{r, e, m};
    auto walk_f = [&](auto it, auto stop, bool rev)
    {
        std::size_t k = 0;
        const std::size_t n = want.size();
        const auto first = it;
        for (int step = 0; step < 40; step++)
        {
            if (k < n)
            {
                const std::size_t w = rev ? want[n - 1 - k] : want[k];
                VF_CHECK("MODEL", LIB(*it) == w, "filtered %s position %zu is %zu, expected %zu", rev ? "reverse" : "forward", k, *it, w);
                VF_CHECK("MODEL", *LIB(it.operator->()) == w, "filtered arrow");
            }
            VF_CHECK("MODEL", LIB(it == stop) == (k == n) && LIB(it == first) == (k == 0), "filtered equality at %zu of %zu", k, n);
            cover(mix(mix(n, k), rev));
            if (k < n && (k == 0 || g_rng.chance(3, 5)))
            {
                if (g_rng.chance(1, 2))
                    LIB(++it);
                else
                    LIB(it++);
                k++;
            }
            else if (k > 0)
            {
                if (g_rng.chance(1, 2))
                    LIB(--it);
                else
                    LIB(it--);
                k--;
            }
        }
    };
    walk_f(F{r, s, m}, end, false);
    walk_f(B{r, e, m}, B{r, s, m}, true);
    // every starting index of the range lands on the next accepted one
    for (std::size_t i = s; i < e; i++)
    {
        std::size_t w = i;
        while (w < e && !m(w))
            w++;
        const F it = LIB(F{r, i, m});
        VF_CHECK("MODEL", w == e ? it == end : *it == w, "filtered start at %zu", i);
    }
    if (g_rng.chance(1, 6))
    {
        volatile std::size_t sink = 0;
        auto h = catch_hit([&] { F it{r, e, m}; sink = *it; });
        VF_CHECK("CHECK", h.hit == Hit::ABORT, "reading the end of a filtered range was not reported");
        h = catch_hit([&] { F it{r, e, m}; ++it; sink = 1; });
        VF_CHECK("CHECK", h.hit == Hit::ABORT, "advancing beyond the end of a filtered range was not reported");
        if (e < ~std::size_t{0} - 2)
        {
            h = catch_hit([&] { F it{r, e + 1, m}; sink = 2; });
            VF_CHECK("CHECK", h.hit == Hit::ABORT, "a filtered iterator behind its range was not reported");
        }
        if (s > 0)
        {
            h = catch_hit([&] { F it{r, s - 1, m}; sink = 3; });
            VF_CHECK("CHECK", h.hit == Hit::ABORT, "a filtered iterator before its range was not reported");
        }
        // from the first accepted position, back over the start, and back again
        h = catch_hit([&] { F it{r, s, m}; --it; sink = *it; });
        VF_CHECK("CHECK", h.hit == Hit::ABORT, "reading before a filtered range was not reported");
        h = catch_hit([&] { F it{r, s, m}; --it; --it; sink = 4; });
        VF_CHECK("CHECK", h.hit == Hit::ABORT, "moving further before a filtered range was not reported");
    }
    VF_CHECK("MODEL", Mask::asked_outside == 0, "the filter of [%zu,%zu) was asked %zu times about integers outside it", s, e, Mask::asked_outside);
}
void iter_groups()
{
    add_group("model", "range iterators",
              []
              {
                  for (std::size_t k = 0; k < n_cases(600); k++)
                      run_case("range iterators",
                               [&]
                               {
                                   const std::size_t len = g_rng.chance(1, 6) ? 0 : g_rng.range(1, 40);
                                   const std::size_t s = g_rng.chance(1, 2) ? 0 : g_rng.chance(1, 2) ? g_rng.below(10) : g_rng.chance(1, 2) ? (~std::size_t{0} - len - g_rng.below(3)) : (std::size_t{1} << 63) - g_rng.below(30);
                                   range_iter_case(fc::IntegerRange::closed_open(s, s + len));
                               });
                  for (std::size_t k = 0; k < n_cases(60); k++)
                  {
                      run_case("ct", [&] { range_iter_case(fc::IntegerRange::closed_open<0, 0>()); });
                      run_case("ct", [&] { range_iter_case(fc::IntegerRange::closed_open<0, 5>()); });
                      run_case("ct", [&] { range_iter_case(fc::IntegerRange::closed_open<4, 5>()); });
                      run_case("ct", [&] { range_iter_case(fc::IntegerRange::closed_open<7, 30>()); });
                  }
                  run_case("default",
                           [&]
                           {
                               using F = fc::IntegerRangeIterator<>;
                               VF_CHECK("MODEL", LIB(F{} == F{}) && LIB(F{} - F{}) == 0, "default constructed integer range iterators");
                           });
              });
    add_group("model", "circular range iterators",
              []
              {
                  for (std::size_t k = 0; k < n_cases(600); k++)
                      run_case("circular iterators",
                               [&]
                               {
                                   const std::size_t len = g_rng.range(1, 30);
                                   const std::size_t s = g_rng.chance(1, 2) ? 0 : g_rng.chance(1, 2) ? g_rng.below(10) : (std::size_t{1} << 63) - g_rng.below(30);
                                   circ_iter_case(fc::IntegerRange::closed_open(s, s + len));
                               });
                  for (std::size_t k = 0; k < n_cases(60); k++)
                  {
                      run_case("ct", [&] { circ_iter_case(fc::IntegerRange::closed_open<0, 1>()); });
                      run_case("ct", [&] { circ_iter_case(fc::IntegerRange::closed_open<0, 5>()); });
                      run_case("ct", [&] { circ_iter_case(fc::IntegerRange::closed_open<7, 30>()); });
                  }
              });
    add_group("model", "filtered range iterators",
              []
              {
                  for (std::size_t k = 0; k < n_cases(1500); k++)
                      run_case("filtered iterators",
                               [&]
                               {
                                   const std::size_t len = g_rng.chance(1, 6) ? 0 : g_rng.range(1, 40);
                                   const std::size_t s = g_rng.chance(1, 2) ? 0 : g_rng.chance(1, 2) ? g_rng.below(10) : (~std::size_t{0} - len - g_rng.below(3));
                                   filtered_case(fc::IntegerRange::closed_open(s, s + len));
                               });
                  for (std::size_t k = 0; k < n_cases(60); k++)
                  {
                      run_case("ct", [&] { filtered_case(fc::IntegerRange::closed_open<0, 0>()); });
                      run_case("ct", [&] { filtered_case(fc::IntegerRange::closed_open<0, 6>()); });
                      run_case("ct", [&] { filtered_case(fc::IntegerRange::closed_open<4, 5>()); });
                      run_case("ct", [&] { filtered_case(fc::IntegerRange::closed_open<7, 30>()); });
                  }
              });
}
}  // namespace

int main(int argc, char** argv)
{
    math_groups<std::uint8_t>("8");
    math_groups<std::uint16_t>("16");
    math_groups<std::uint32_t>("32");
    math_groups<std::uint64_t>("64");
    add_groups<std::uint8_t, std::int8_t>("8/8");
    add_groups<std::uint16_t, std::int8_t>("16/8");
    add_groups<std::uint32_t, std::int32_t>("32/32");
    add_groups<std::uint64_t, std::int32_t>("64/32");
    add_groups<std::uint64_t, std::int64_t>("64/64");
    add_groups<std::uint8_t, std::int64_t>("8/64");
    sdiv_groups<std::int8_t>("8");
    sdiv_groups<std::int32_t>("32");
    sdiv_groups<std::int64_t>("64");
    range_groups();
    circular_groups();
    foreign_groups();
    iter_groups();
    return driver_main(argc, argv);
}
