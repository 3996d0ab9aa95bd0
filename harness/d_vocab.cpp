// C20: OptionalReference, PairView, Pair, MapEntry, StringLiteral, ComparisonChain, in_out/out, tuple helpers.
#include "fw.hpp"

#include "fixed_containers/comparison_chain.hpp"
#include "fixed_containers/concepts.hpp"
#include "fixed_containers/consteval_compare.hpp"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/enum_set.hpp"
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_string.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include "fixed_containers/fixed_vector.hpp"
#include "fixed_containers/in_out.hpp"
#include "fixed_containers/map_entry.hpp"
#include "fixed_containers/max_size.hpp"
#include "fixed_containers/optional_reference.hpp"
#include "fixed_containers/out.hpp"
#include "fixed_containers/pair.hpp"
#include "fixed_containers/pair_view.hpp"
#include "fixed_containers/string_literal.hpp"
#include "fixed_containers/tuples.hpp"
#include "fixed_containers/type_name.hpp"
#include "fixed_containers/value_or_reference_storage.hpp"
#include "fixed_containers/variadic_templates.hpp"

#include <cmath>
#include <limits>
#include <map>
#include <optional>
#include <string>
#include <tuple>

namespace fc = fixed_containers;
using namespace vf;

namespace
{
struct RecOpt
{
    [[noreturn]] static void bad_optional_access_error(const fc::std_transition::source_location& loc) noexcept
    {
        hit(Hit::EMPTY_ACCESS, 0, 0, loc.file_name(), static_cast<unsigned>(loc.line()));
    }
};

// unfriendly value type: operator& and operator() are hijacked
struct Odd
{
    int v = 0;
    Odd() = default;
    Odd(int x) : v(x) {}
    Odd* operator&() { return nullptr; }
    const Odd* operator&() const { return nullptr; }
    Odd* operator()() const { return nullptr; }
    bool operator==(const Odd& o) const { return v == o.v; }
    std::weak_ordering operator<=>(const Odd& o) const { return v <=> o.v; }
};
inline double raw(double d) { return d; }
inline int raw(int d) { return d; }
inline long raw(long d) { return d; }
inline int raw(const Odd& o) { return o.v; }

template <class T>
T value_for(std::size_t i)
{
    return static_cast<T>(static_cast<int>(i % 4));
}
template <>
double value_for<double>(std::size_t i)
{
    static const double vals[] = {0.0, -0.0, 1.5, std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity()};
    return vals[i % 5];
}

// std::optional semantics of a comparison, `p`/`q` may be null
template <class A, class B, class L, class R>
void compare_both(const char* what, const L& l, const R& r, const A* p, const B* q)
{
    const bool eq = p && q ? (*p == *q) : (!p && !q);
    VF_CHECK("MODEL", LIB(l == r) == eq, "%s: == is %d", what, l == r);
    VF_CHECK("MODEL", LIB(l != r) == !eq, "%s: != is %d", what, l != r);
    const bool lt = p && q ? (*p < *q) : (!p && q);
    const bool gt = p && q ? (*p > *q) : (p && !q);
    const bool le = p && q ? (*p <= *q) : !p;
    const bool ge = p && q ? (*p >= *q) : !q;
    VF_CHECK("MODEL", LIB(l < r) == lt, "%s: < is %d (have %d %d)", what, l < r, p != nullptr, q != nullptr);
    VF_CHECK("MODEL", LIB(l > r) == gt, "%s: > is %d (have %d %d)", what, l > r, p != nullptr, q != nullptr);
    VF_CHECK("MODEL", LIB(l <= r) == le, "%s: <= is %d (have %d %d)", what, l <= r, p != nullptr, q != nullptr);
    VF_CHECK("MODEL", LIB(l >= r) == ge, "%s: >= is %d (have %d %d)", what, l >= r, p != nullptr, q != nullptr);
}

template <class T>
void optref_groups(const char* id)
{
    add_group("model", std::string("OptionalReference<") + id + ">",
              [=]
              {
                  using V = std::remove_const_t<T>;
                  using O = fc::OptionalReference<T, RecOpt>;
                  for (std::size_t k = 0; k < n_cases(400); k++)
                      run_case("optional_reference",
                               [&]
                               {
                                   constexpr std::size_t M = 6, R = 4;
                                   V objs[M];
                                   for (std::size_t i = 0; i < M; i++)
                                       objs[i] = value_for<V>(g_rng.below(8));
                                   std::unique_ptr<T> up(new V(value_for<V>(2)));
                                   std::unique_ptr<T> unull;
                                   O refs[R];
                                   T* want[R] = {};
                                   for (int op = 0; op < 40; op++)
                                   {
                                       const std::size_t a = g_rng.below(R), b = g_rng.below(R), o = g_rng.below(M);
                                       const unsigned w = static_cast<unsigned>(g_rng.below(16));
                                       trace("%u:%zu,%zu,%zu", w, a, b, o);
                                       V before[M];
                                       for (std::size_t i = 0; i < M; i++)
                                           before[i] = objs[i];
                                       bool wrote = false;
                                       switch (w)
                                       {
                                       case 0: refs[a] = LIB(O{objs[o]}); want[a] = std::addressof(objs[o]); break;
                                       case 1: refs[a] = LIB(O{static_cast<T*>(std::addressof(objs[o]))}); want[a] = std::addressof(objs[o]); break;
                                       case 2: refs[a] = LIB(O{static_cast<T*>(nullptr)}); want[a] = nullptr; break;
                                       case 3: refs[a] = LIB(O{up}); want[a] = up.get(); break;
                                       case 4: refs[a] = LIB(O{unull}); want[a] = nullptr; break;
                                       case 5: LIB(refs[a] = refs[b]); want[a] = want[b]; break;
                                       case 6:
                                       {
                                           O tmp(refs[b]);
                                           LIB(refs[a] = std::move(tmp));
                                           want[a] = want[b];
                                           break;
                                       }
                                       case 7: LIB(refs[a] = std::nullopt); want[a] = nullptr; break;
                                       case 8: LIB(refs[a].reset()); want[a] = nullptr; break;
                                       case 9:
                                       {
                                           T& r = LIB(refs[a].emplace(objs[o]));
                                           want[a] = std::addressof(objs[o]);
                                           VF_CHECK("MODEL", std::addressof(r) == want[a], "emplace returned another object");
                                           break;
                                       }
                                       case 10:
                                       {
                                           O tmp(std::nullopt);
                                           VF_CHECK("MODEL", !tmp.has_value(), "nullopt constructed reference has a value");
                                           O t2(refs[b]);
                                           O t3(std::move(t2));
                                           using std::swap;
                                           swap(refs[a], t3);
                                           want[a] = want[b];
                                           break;
                                       }
                                       case 11:
                                           if constexpr (!std::is_const_v<T>)
                                               if (want[a] != nullptr)
                                               {
                                                   const V nv = value_for<V>(g_rng.below(8));
                                                   switch (g_rng.below(3))
                                                   {
                                                   case 0: LIB(*refs[a] = nv); break;
                                                   case 1: LIB(refs[a].value() = nv); break;
                                                   default: *LIB(refs[a].operator->()) = nv; break;
                                                   }
                                                   wrote = true;
                                                   for (std::size_t i = 0; i < M; i++)
                                                       if (std::addressof(objs[i]) == want[a])
                                                           before[i] = nv;
                                               }
                                           break;
                                       default: break;
                                       }
                                       (void)wrote;
                                       for (std::size_t i = 0; i < M; i++)
                                       {
                                           const auto x = raw(objs[i]), y = raw(before[i]);
                                           VF_CHECK("MODEL", std::memcmp(&x, &y, sizeof x) == 0, "object %zu changed", i);
                                       }
                                       std::size_t h = w;
                                       for (std::size_t i = 0; i < R; i++)
                                       {
                                           O& r = refs[i];
                                           const O& cr = r;
                                           h = mix(h, want[i] == nullptr ? 0 : want[i] == up.get() ? 1 : 2);
                                           VF_CHECK("MODEL", LIB(cr.has_value()) == (want[i] != nullptr) && LIB(static_cast<bool>(cr)) == (want[i] != nullptr), "has_value of reference %zu", i);
                                           if (want[i] != nullptr)
                                           {
                                               VF_CHECK("MODEL", std::addressof(LIB(*r)) == want[i] && std::addressof(LIB(*cr)) == want[i], "* refers to another object");
                                               VF_CHECK("MODEL", std::addressof(LIB(r.value())) == want[i] && std::addressof(LIB(cr.value())) == want[i], "value() refers to another object");
                                               VF_CHECK("MODEL", LIB(r.operator->()) == want[i] && LIB(cr.operator->()) == want[i], "-> refers to another object");
                                           }
                                           T& dflt = objs[o];
                                           VF_CHECK("MODEL", std::addressof(LIB(cr.value_or(dflt))) == (want[i] != nullptr ? want[i] : std::addressof(objs[o])), "value_or refers to another object");
                                       }
                                       cover(h);
                                       compare_both("reference <=> reference", refs[a], refs[b], want[a], want[b]);
                                       const T* null = nullptr;
                                       compare_both("reference <=> nullopt", refs[a], std::nullopt, want[a], null);
                                       compare_both("reference <=> value", refs[a], objs[o], want[a], std::addressof(objs[o]));
                                       compare_both("value <=> reference", objs[o], refs[a], std::addressof(objs[o]), want[a]);
                                       if (g_rng.chance(1, 12))
                                           for (std::size_t i = 0; i < R; i++)
                                               if (want[i] == nullptr)
                                               {
                                                   O& r = refs[i];
                                                   const O& cr = r;
                                                   volatile const void* sink;
                                                   HitInfo hh;
                                                   hh = catch_hit([&] { sink = std::addressof(*r); });
                                                   VF_CHECK("CHECK", hh.hit == Hit::EMPTY_ACCESS, "* of an empty reference was not reported");
                                                   hh = catch_hit([&] { sink = std::addressof(*cr); });
                                                   VF_CHECK("CHECK", hh.hit == Hit::EMPTY_ACCESS, "const * of an empty reference was not reported");
                                                   hh = catch_hit([&] { sink = r.operator->(); });
                                                   VF_CHECK("CHECK", hh.hit == Hit::EMPTY_ACCESS, "-> of an empty reference was not reported");
                                                   hh = catch_hit([&] { sink = cr.operator->(); });
                                                   VF_CHECK("CHECK", hh.hit == Hit::EMPTY_ACCESS, "const -> of an empty reference was not reported");
                                                   unsigned line = 0;
                                                   hh = catch_hit([&] { line = __LINE__; sink = std::addressof(r.value()); });
                                                   VF_CHECK("CHECK", hh.hit == Hit::EMPTY_ACCESS && hh.line == line, "value() of an empty reference was not reported at the call site (line %u, call at %u)", hh.line, line);
                                                   hh = catch_hit([&] { line = __LINE__; sink = std::addressof(cr.value()); });
                                                   VF_CHECK("CHECK", hh.hit == Hit::EMPTY_ACCESS && hh.line == line, "const value() of an empty reference was not reported at the call site");
                                                   (void)sink;
                                                   fc::OptionalReference<T> ar;
                                                   hh = catch_hit([&] { sink = std::addressof(*ar); });
                                                   VF_CHECK("CHECK", hh.hit == Hit::ABORT, "the default checking does not abort on an empty reference");
                                                   break;
                                               }
                                   }
                               });
              });
}
// comparisons of references to different types
void optref_mixed()
{
    add_group("model", "OptionalReference mixed types",
              []
              {
                  for (std::size_t k = 0; k < n_cases(500); k++)
                      run_case("mixed",
                               [&]
                               {
                                   int i = static_cast<int>(g_rng.below(4)) - 2;
                                   long l = static_cast<long>(g_rng.below(4)) - 2;
                                   double d = g_rng.chance(1, 4) ? std::numeric_limits<double>::quiet_NaN() : static_cast<double>(g_rng.below(4)) - 1.5;
                                   const bool hi = g_rng.chance(3, 4), hl = g_rng.chance(3, 4), hd = g_rng.chance(3, 4);
                                   trace("%d %ld %f %d%d%d", i, l, d, hi, hl, hd);
                                   cover(mix(mix(static_cast<std::uint64_t>(i), static_cast<std::uint64_t>(l)), static_cast<std::uint64_t>(hi * 4 + hl * 2 + hd)));
                                   fc::OptionalReference<int> ri;
                                   fc::OptionalReference<const long, RecOpt> rl;
                                   fc::OptionalReference<double, RecOpt> rd;
                                   if (hi)
                                       ri = fc::OptionalReference<int>{i};
                                   if (hl)
                                       rl = fc::OptionalReference<const long, RecOpt>{l};
                                   if (hd)
                                       rd = fc::OptionalReference<double, RecOpt>{d};
                                   compare_both("int/long", ri, rl, hi ? &i : nullptr, hl ? &l : nullptr);
                                   compare_both("long/int", rl, ri, hl ? &l : nullptr, hi ? &i : nullptr);
                                   compare_both("long/double", rl, rd, hl ? &l : nullptr, hd ? &d : nullptr);
                                   compare_both("double/int", rd, ri, hd ? &d : nullptr, hi ? &i : nullptr);
                                   compare_both("double/value", rd, i, hd ? &d : nullptr, &i);
                               });
              });
}

// ------------------------------------------------------------------ pairs
void pair_groups()
{
    add_group("model", "PairView",
              []
              {
                  for (std::size_t k = 0; k < n_cases(600); k++)
                      run_case("pair_view",
                               [&]
                               {
                                   constexpr std::size_t M = 5;
                                   int keys[M];
                                   Odd vals[M];
                                   for (std::size_t i = 0; i < M; i++)
                                   {
                                       keys[i] = static_cast<int>(g_rng.below(3));
                                       vals[i] = static_cast<int>(g_rng.below(3));
                                   }
                                   using PV = fc::PairView<int, Odd>;
                                   using CPV = fc::PairView<const int, const Odd>;
                                   using HPV = fc::PairView<const int, Odd>;
                                   static_assert(std::is_copy_assignable_v<PV> && !std::is_copy_assignable_v<HPV> && !std::is_copy_assignable_v<CPV>);
                                   for (int op = 0; op < 25; op++)
                                   {
                                       const std::size_t a = g_rng.below(M), b = g_rng.below(M), c = g_rng.below(M), d = g_rng.below(M);
                                       trace("%zu %zu %zu %zu", a, b, c, d);
                                       PV p(&keys[a], std::addressof(vals[b]));
                                       const PV q(&keys[c], std::addressof(vals[d]));
                                       cover(mix(mix(static_cast<std::uint64_t>(keys[a]), static_cast<std::uint64_t>(vals[b].v)), mix(static_cast<std::uint64_t>(keys[c]), static_cast<std::uint64_t>(vals[d].v))));
                                       VF_CHECK("MODEL", &LIB(p.first()) == &keys[a] && std::addressof(LIB(p.second())) == std::addressof(vals[b]), "PairView refers to other objects");
                                       VF_CHECK("MODEL", &LIB(q.first()) == &keys[c] && std::addressof(LIB(q.second())) == std::addressof(vals[d]), "const PairView refers to other objects");
                                       VF_CHECK("MODEL", &LIB(p.get<0>()) == &keys[a] && std::addressof(LIB(p.get<1>())) == std::addressof(vals[b]), "get<> refers to other objects");
                                       VF_CHECK("MODEL", &LIB(q.get<0>()) == &keys[c] && std::addressof(LIB(q.get<1>())) == std::addressof(vals[d]), "const get<> refers to other objects");
                                       VF_CHECK("MODEL", &LIB(std::get<0>(p)) == &keys[a] && std::addressof(LIB(std::get<1>(q))) == std::addressof(vals[d]), "std::get refers to other objects");
                                       {
                                           auto& [x, y] = p;
                                           VF_CHECK("MODEL", &x == &keys[a] && std::addressof(y) == std::addressof(vals[b]), "structured binding refers to other objects");
                                           auto&& [cx, cy] = q;
                                           VF_CHECK("MODEL", &cx == &keys[c] && std::addressof(cy) == std::addressof(vals[d]), "const structured binding refers to other objects");
                                       }
                                       static_assert(std::is_same_v<decltype(q.second()), const Odd&> && std::is_same_v<decltype(p.second()), Odd&>);
                                       // equality is that of the referenced values
                                       const bool eq = keys[a] == keys[c] && vals[b].v == vals[d].v;
                                       VF_CHECK("MODEL", LIB(p == q) == eq && LIB(q == p) == eq && LIB(p != q) == !eq, "PairView equality");
                                       // conversions
                                       const CPV cp = LIB(CPV(q));
                                       VF_CHECK("MODEL", &cp.first() == &keys[c] && std::addressof(cp.second()) == std::addressof(vals[d]), "converted PairView refers to other objects");
                                       const std::pair<int, Odd> sp = LIB(static_cast<std::pair<int, Odd>>(p));
                                       VF_CHECK("MODEL", sp.first == keys[a] && sp.second.v == vals[b].v, "conversion to std::pair");
                                       const std::pair<int, Odd> sq = LIB(q.operator std::pair<int, Odd>());
                                       VF_CHECK("MODEL", sq.first == keys[c] && sq.second.v == vals[d].v, "conversion of a const PairView to std::pair");
                                       VF_CHECK("MODEL", &static_cast<const int&>(LIB(std::get<0>(PV(p)))) == &keys[a] && std::addressof(static_cast<const Odd&>(LIB(std::get<1>(PV(p))))) == std::addressof(vals[b]), "get<> of a temporary refers to other objects");
                                       VF_CHECK("MODEL", &static_cast<const int&>(LIB(std::get<0>(std::move(q)))) == &keys[c] && std::addressof(static_cast<const Odd&>(LIB(std::get<1>(std::move(q))))) == std::addressof(vals[d]), "get<> of a const temporary refers to other objects");
                                       const std::pair<long, Odd> spl = LIB(static_cast<std::pair<long, Odd>>(q));
                                       VF_CHECK("MODEL", spl.first == keys[c] && spl.second.v == vals[d].v, "conversion to another std::pair");
                                       const std::pair<const int&, const Odd&> spr = LIB(static_cast<std::pair<const int&, const Odd&>>(q));
                                       VF_CHECK("MODEL", &spr.first == &keys[c] && std::addressof(spr.second) == std::addressof(vals[d]), "conversion to a pair of references refers to other objects");
                                       // writing through
                                       const int nk = static_cast<int>(g_rng.below(3)), nv = static_cast<int>(g_rng.below(3));
                                       int ek[M];
                                       int ev[M];
                                       for (std::size_t i = 0; i < M; i++)
                                       {
                                           ek[i] = i == a ? nk : keys[i];
                                           ev[i] = i == b ? nv : vals[i].v;
                                       }
                                       p.first() = nk;
                                       p.get<1>() = Odd(nv);
                                       for (std::size_t i = 0; i < M; i++)
                                           VF_CHECK("MODEL", keys[i] == ek[i] && vals[i].v == ev[i], "writing through a PairView changed something else");
                                       // assignment rebinds, it does not write
                                       LIB(p = q);
                                       VF_CHECK("MODEL", &p.first() == &keys[c] && std::addressof(p.second()) == std::addressof(vals[d]), "assignment did not rebind");
                                       for (std::size_t i = 0; i < M; i++)
                                           VF_CHECK("MODEL", keys[i] == ek[i] && vals[i].v == ev[i], "assigning a PairView wrote to the referenced objects");
#ifndef VF_NO_DETAIL
                                       fc::pair_view_detail::AssignablePairView<const int, Odd> ap(&keys[a], std::addressof(vals[b]));
                                       const fc::pair_view_detail::AssignablePairView<const int, Odd> aq(&keys[c], std::addressof(vals[d]));
                                       LIB(ap = aq);
                                       VF_CHECK("MODEL", &ap.first() == &keys[c] && std::addressof(ap.second()) == std::addressof(vals[d]), "assignment of an AssignablePairView did not rebind");
#endif
                                       // Pair
                                       const fc::Pair<int, Odd> fp{keys[a], vals[b]};
                                       const std::pair<int, Odd> fsp = LIB(static_cast<std::pair<int, Odd>>(fp));
                                       const std::pair<long, Odd> fspl = LIB(static_cast<std::pair<long, Odd>>(fp));
                                       VF_CHECK("MODEL", fsp.first == keys[a] && fsp.second.v == vals[b].v && fspl.first == keys[a] && fspl.second.v == vals[b].v, "Pair converts to another std::pair");
                                       fc::Pair<int, int> mp{keys[a], vals[b].v};
                                       const std::pair<const int&, int&> mpr = mp;
                                       VF_CHECK("MODEL", &mpr.first == &mp.first && &mpr.second == &mp.second, "Pair converts to references to other objects");
                                   }
                               });
              });
    add_group("model", "MapEntry and reference storage",
              []
              {
                  for (std::size_t k = 0; k < n_cases(600); k++)
                      run_case("map_entry",
                               [&]
                               {
                                   std::string ks[3], vs[3];
                                   for (int i = 0; i < 3; i++)
                                   {
                                       ks[i] = std::string(g_rng.below(3), static_cast<char>('a' + g_rng.below(2)));
                                       vs[i] = std::string(g_rng.below(40), static_cast<char>('a' + g_rng.below(2)));
                                   }
                                   const std::size_t a = g_rng.below(3), b = g_rng.below(3), c = g_rng.below(3), d = g_rng.below(3);
                                   trace("%zu %zu %zu %zu %s %s", a, b, c, d, ks[a].c_str(), ks[c].c_str());
                                   cover(mix(hash_str(ks[a].c_str()), hash_str(vs[b].c_str())));
                                   using E = fc::MapEntry<std::string, std::string>;
                                   g_alloc_monitor_on = false;
                                   E e(ks[a], vs[b]);
                                   const E f{std::string{ks[c]}, vs[d]};
                                   VF_CHECK("MODEL", e.key() == ks[a] && e.value() == vs[b] && f.key() == ks[c] && f.value() == vs[d], "MapEntry contents");
                                   VF_CHECK("MODEL", LIB(e == f) == (ks[a] == ks[c] && vs[b] == vs[d]), "MapEntry equality");
                                   e.value() = "changed";
                                   VF_CHECK("MODEL", e.key() == ks[a] && e.value() == "changed", "MapEntry value write");
                                   using ER = fc::MapEntry<int, std::string&>;
                                   ER er(static_cast<int>(a), vs[b]);
                                   const ER fr(static_cast<int>(c), vs[d]);
                                   VF_CHECK("MODEL", std::addressof(er.value()) == std::addressof(vs[b]) && std::addressof(fr.value()) == std::addressof(vs[d]), "MapEntry of a reference refers to another object");
                                   VF_CHECK("MODEL", LIB(er == fr) == (a == c && vs[b] == vs[d]), "MapEntry of a reference equality");
                                   LIB(er = fr);
                                   VF_CHECK("MODEL", er.key() == static_cast<int>(c) && std::addressof(er.value()) == std::addressof(vs[d]), "assigning a MapEntry of a reference did not rebind");
                                   using ES = fc::MapEntry<std::string>;
                                   const ES s1(ks[a]), s2(ks[c]);
                                   VF_CHECK("MODEL", s1.key() == ks[a] && LIB(s1 == s2) == (ks[a] == ks[c]), "MapEntry without a value");
                                   ES s3(ks[a]);
                                   LIB(s3.key()) = ks[b];
                                   VF_CHECK("MODEL", std::as_const(s3).key() == ks[b], "MapEntry key write");
#ifndef VF_NO_DETAIL
                                   fc::value_or_reference_storage_detail::ValueOrReferenceStorage<std::string&> r1(vs[a]);
                                   const auto r2 = r1;
                                   VF_CHECK("MODEL", std::addressof(r1.get()) == std::addressof(vs[a]) && std::addressof(r2.get()) == std::addressof(vs[a]), "reference storage refers to another object");
                                   fc::value_or_reference_storage_detail::ValueOrReferenceStorage<std::string> v1(vs[a]);
                                   VF_CHECK("MODEL", v1.get() == vs[a], "value storage");
#endif
                               });
              });
}

// ------------------------------------------------------------------ literals
template <std::size_t N>
void literal(const fc::StringLiteral& l, const char (&text)[N], bool same_address)
{
    run_case("literal",
             [&]
             {
                 trace("%zu %s", N, text);
                 cover(mix(N, hash_str(text)));
                 VF_CHECK("MODEL", LIB(l.size()) == N - 1, "size() of a literal of %zu characters is %zu", N - 1, l.size());
                 VF_CHECK("MODEL", std::memcmp(LIB(l.c_str()), text, N) == 0, "characters of the literal");
                 VF_CHECK("MODEL", LIB(l.as_view()) == std::string_view(text, N - 1), "as_view()");
                 VF_CHECK("MODEL", LIB(static_cast<std::string_view>(l)) == std::string_view(text, N - 1), "conversion to string_view");
                 VF_CHECK("MODEL", LIB(static_cast<const char*>(l)) == l.c_str() && l.as_view().data() == l.c_str(), "conversions refer to another string");
                 if (same_address)
                     VF_CHECK("MODEL", l.c_str() == text, "the literal was copied");
                 const fc::StringLiteral copy = l;
                 fc::StringLiteral assigned;
                 VF_CHECK("MODEL", assigned.size() == 0 && *assigned.c_str() == 0 && assigned.as_view().empty(), "default literal");
                 assigned = l;
                 VF_CHECK("MODEL", copy.size() == N - 1 && assigned.size() == N - 1 && copy.c_str() == l.c_str() && assigned.c_str() == l.c_str(), "copied literal");
             });
}
constexpr char STATIC_TEXT[] = "static text";
constexpr char STATIC_NUL[] = "a\0b\0\0c";
void literal_groups()
{
    add_group("model", "StringLiteral",
              []
              {
#define L(T) literal(fc::StringLiteral(T), T, false)
                  L("");
                  L("a");
                  L("blah");
                  L("with spaces and \n newline");
                  L("\0");
                  L("\0x");
                  L("a\0b");
                  L("trailing\0");
                  L("\xff\x80\x01");
                  L("0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789"
                    "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789");
                  literal(fc::StringLiteral(STATIC_TEXT), STATIC_TEXT, true);
                  literal(fc::StringLiteral(STATIC_NUL), STATIC_NUL, true);
                  run_case("array",
                           [&]
                           {
                               static constexpr fc::StringLiteral ALL[] = {"x", "yy", "zzz", "", "a\0c"};
                               const std::size_t sizes[] = {1, 2, 3, 0, 3};
                               for (std::size_t i = 0; i < 5; i++)
                                   VF_CHECK("MODEL", ALL[i].size() == sizes[i], "literal in an array");
                           });
              });
}

// ------------------------------------------------------------------ comparison chain
struct OnlyLess
{
    int v;
    bool operator<(const OnlyLess& o) const { return v < o.v; }
};
struct Right;
struct Left
{
    int v;
    explicit Left(int x) : v(x) {}
    Left(const Left&) = delete;
    Left& operator=(const Left&) = delete;
    inline bool operator<(const Right& o) const;
};
struct Right
{
    int v;
    explicit Right(int x) : v(x) {}
    Right(const Right&) = delete;
    Right& operator=(const Right&) = delete;
    bool operator<(const Left& o) const { return v < o.v; }
};
inline bool Left::operator<(const Right& o) const { return v < o.v; }
template <class A, class B>
void mixed(const A& a, const B& b, const char* what)
{
    const int want = a < b ? -1 : b < a ? 1 : 0;
    VF_CHECK("MODEL", LIB(fc::ComparisonChain::start().compare(a, b).is_less()) == (want < 0), "%s: is_less, exact %d", what, want);
    VF_CHECK("MODEL", LIB(fc::ComparisonChain::start().compare(b, a).is_less()) == (want > 0), "%s: swapped is_less, exact %d", what, -want);
    VF_CHECK("MODEL", LIB(fc::ComparisonChain::start().compare(a, b).is_equal()) == (want == 0), "%s: is_equal, exact %d", what, want);
    VF_CHECK("MODEL", LIB(fc::ComparisonChain::start().compare(1, 1).compare(b, a).compare(2, 1).is_greater()) == (want <= 0), "%s: swapped is_greater, exact %d", what, -want);
    cover(mix(hash_str(what), static_cast<std::uint64_t>(want + 1)));
}
struct Mod
{
    int v;
    bool operator<(const Mod& o) const { return v / 10 < o.v / 10; }
    bool operator==(const Mod&) const = delete;
};
void chain_groups()
{
    add_group("model", "ComparisonChain",
              []
              {
                  for (std::size_t k = 0; k < n_cases(3000); k++)
                      run_case("chain",
                               [&]
                               {
                                   int l[6], r[6];
                                   for (int i = 0; i < 6; i++)
                                   {
                                       l[i] = static_cast<int>(g_rng.below(20)) - 10;
                                       r[i] = g_rng.chance(3, 4) ? l[i] : static_cast<int>(g_rng.below(20)) - 10;
                                   }
                                   const int n = static_cast<int>(g_rng.below(7));
                                   int want = 0;
                                   std::uint64_t h = static_cast<std::uint64_t>(n);
                                   for (int i = 0; i < n && want == 0; i++)
                                   {
                                       const int a = i == 3 ? l[i] / 10 : l[i], b = i == 3 ? r[i] / 10 : r[i];
                                       want = a < b ? -1 : a > b ? 1 : 0;
                                       h = mix(h, static_cast<std::uint64_t>(want + 1));
                                   }
                                   for (int i = 0; i < 6; i++)
                                       trace("%d/%d", l[i], r[i]);
                                   cover(h);
                                   // every prefix of: int, OnlyLess, mixed int/long, Mod, double, string
                                   auto chain = [&]
                                   {
                                       auto c = fc::ComparisonChain::start();
                                       if (n > 0)
                                           c = std::move(c).compare(l[0], r[0]);
                                       if (n > 1)
                                           c = std::move(c).compare(OnlyLess{l[1]}, OnlyLess{r[1]});
                                       if (n > 2)
                                           c = std::move(c).compare(l[2], static_cast<long>(r[2]));
                                       if (n > 3)
                                           c = std::move(c).compare(Mod{l[3]}, Mod{r[3]});
                                       if (n > 4)
                                           c = std::move(c).compare(l[4] * 0.5, r[4] * 0.5);
                                       if (n > 5)
                                           c = std::move(c).compare(std::string_view("abcdefghijklmnopqrstuvwxyz").substr(static_cast<std::size_t>(l[5] + 10)), std::string_view("abcdefghijklmnopqrstuvwxyz").substr(static_cast<std::size_t>(r[5] + 10)));
                                       return c;
                                   };
                                   VF_CHECK("MODEL", LIB(chain().is_equal()) == (want == 0), "is_equal, exact %d", want);
                                   VF_CHECK("MODEL", LIB(chain().is_not_equal()) == (want != 0), "is_not_equal, exact %d", want);
                                   VF_CHECK("MODEL", LIB(chain().is_less()) == (want < 0), "is_less, exact %d", want);
                                   VF_CHECK("MODEL", LIB(chain().is_less_or_equal()) == (want <= 0), "is_less_or_equal, exact %d", want);
                                   VF_CHECK("MODEL", LIB(chain().is_greater()) == (want > 0), "is_greater, exact %d", want);
                                   VF_CHECK("MODEL", LIB(chain().is_greater_or_equal()) == (want >= 0), "is_greater_or_equal, exact %d", want);
                               });
              });
    // operands of two types, compared as they are and never copied
    add_group("model", "ComparisonChain of different types",
              []
              {
                  for (std::size_t k = 0; k < n_cases(3000); k++)
                      run_case("mixed chain",
                               [&]
                               {
                                   static const double reals[] = {0.5, -0.5, 1.5, 1.0, -1.0, 0.0, -0.0, 300.0, 1e10, -1e10, 3e18, 1e300, std::nan("")};
                                   static const long long longs[] = {0, 1, -1, 127, 128, 255, 256, 1LL << 31, (1LL << 32) + 1, -(1LL << 40), (1LL << 53) + 1, std::numeric_limits<long long>::min(), std::numeric_limits<long long>::max()};
                                   const double d = reals[g_rng.below(std::size(reals))];
                                   const long long ll = longs[g_rng.below(std::size(longs))];
                                   const int i = static_cast<int>(g_rng.below(5)) - 2;
                                   const auto sc = static_cast<signed char>(g_rng.below(256));
                                   const float f = static_cast<float>(i) * 0.75F;
                                   trace("%g %lld %d %d", d, ll, i, static_cast<int>(sc));
                                   mixed(i, d, "int and double");
                                   mixed(ll, d, "long long and double");
                                   mixed(sc, ll, "signed char and long long");
                                   mixed(i, ll, "int and long long");
                                   mixed(f, d, "float and double");
                                   mixed(sc, i, "signed char and int");
                                   const std::string text(g_rng.below(4), static_cast<char>('a' + g_rng.below(3)));
                                   const std::string_view view = std::string_view("abcabcaaa").substr(g_rng.below(6), g_rng.below(4));
                                   mixed(text, view, "string and string_view");
                                   mixed(text, "ab", "string and literal");
                                   const Left a{i};
                                   const Right b{static_cast<int>(g_rng.below(5)) - 2};
                                   mixed(a, b, "types with nothing but < in common");
                               });
              });
    add_group("model", "OptionalReference of different types",
              []
              {
                  for (std::size_t k = 0; k < n_cases(1500); k++)
                      run_case("mixed references",
                               [&]
                               {
                                   static const double reals[] = {0.5, -0.5, 1.5, 1.0, -1.0, 0.0, -0.0, 300.0, 1e10, -1e10, 3e18, std::nan("")};
                                   double d = reals[g_rng.below(std::size(reals))];
                                   long long ll = static_cast<long long>(g_rng.below(5)) - 2;
                                   const bool has_d = g_rng.chance(4, 5), has_l = g_rng.chance(4, 5);
                                   const fc::OptionalReference<double> rd = has_d ? fc::OptionalReference<double>{d} : fc::OptionalReference<double>{};
                                   const fc::OptionalReference<long long> rl = has_l ? fc::OptionalReference<long long>{ll} : fc::OptionalReference<long long>{};
                                   const auto od = has_d ? std::optional<double>(d) : std::nullopt;
                                   const auto ol = has_l ? std::optional<long long>(ll) : std::nullopt;
                                   trace("%g/%d %lld/%d", d, has_d, ll, has_l);
                                   cover(mix(mix(hash_str("mixed references"), std::bit_cast<std::uint64_t>(d)), mix(static_cast<std::uint64_t>(ll), has_d * 2U + has_l)));
                                   const auto relations = [](const auto& x, const auto& y, const auto& mx, const auto& my, const char* what)
                                   {
                                       VF_CHECK("MODEL", LIB(x == y) == (mx == my) && LIB(x != y) == (mx != my), "%s: ==", what);
                                       VF_CHECK("MODEL", LIB(x < y) == (mx < my) && LIB(x <= y) == (mx <= my) && LIB(x > y) == (mx > my) && LIB(x >= y) == (mx >= my), "%s: ordering", what);
                                   };
                                   relations(rd, rl, od, ol, "references to double and long long");
                                   relations(rl, rd, ol, od, "references to long long and double");
                                   relations(rl, d, ol, d, "reference to long long and double");
                                   relations(rd, ll, od, ll, "reference to double and long long");
                                   relations(rd, rd, od, od, "a reference and itself");
                                   relations(rd, std::nullopt, od, std::nullopt, "reference and nullopt");
                               });
              });
}

// ------------------------------------------------------------------ out parameters and tuples
template <template <class> class W, class T>
void out_case(const char* what, T a, T b)
{
    T obj = a;
    {
        W<T> w{obj};
        VF_CHECK("MODEL", std::addressof(LIB(*w)) == std::addressof(obj), "%s: * refers to another object", what);
        VF_CHECK("MODEL", LIB(w.operator->()) == std::addressof(obj), "%s: -> refers to another object", what);
        VF_CHECK("MODEL", LIB(w.operator&()) == std::addressof(obj), "%s: & refers to another object", what);
        *w = b;
        VF_CHECK("MODEL", obj == b, "%s: write was lost", what);
        W<T> inner{*w};
        *inner = a;
        VF_CHECK("MODEL", obj == a && std::addressof(*inner) == std::addressof(obj), "%s: nested wrapper refers to another object", what);
    }
    VF_CHECK("MODEL", obj == a, "%s: object changed at the end of the wrapper's life", what);
    static_assert(!std::is_copy_constructible_v<W<T>> && !std::is_move_constructible_v<W<T>> && !std::is_copy_assignable_v<W<T>>);
}
void misc_groups()
{
    add_group("model", "in_out and out",
              []
              {
                  for (std::size_t k = 0; k < n_cases(200); k++)
                      run_case("out",
                               [&]
                               {
                                   const int a = static_cast<int>(g_rng.below(100)), b = static_cast<int>(g_rng.below(100));
                                   trace("%d %d", a, b);
                                   cover(mix(static_cast<std::uint64_t>(a), static_cast<std::uint64_t>(b)));
                                   out_case<fc::in_out, int>("in_out<int>", a, b);
                                   out_case<fc::out, int>("out<int>", a, b);
                                   out_case<fc::in_out, Odd>("in_out<Odd>", a, b);
                                   out_case<fc::out, Odd>("out<Odd>", a, b);
                                   out_case<fc::in_out, std::string>("in_out<string>", std::to_string(a), std::to_string(b));
                                   out_case<fc::out, std::string>("out<string>", std::to_string(a), std::to_string(b));
                               });
              });
    add_group("model", "tuple and argument helpers",
              []
              {
                  for (std::size_t k = 0; k < n_cases(300); k++)
                      run_case("tuples",
                               [&]
                               {
                                   int a = static_cast<int>(g_rng.below(100));
                                   double b = static_cast<double>(g_rng.below(100));
                                   long c = static_cast<long>(g_rng.below(100));
                                   trace("%d %f %ld", a, b, c);
                                   cover(mix(static_cast<std::uint64_t>(a), static_cast<std::uint64_t>(c)));
                                   std::tuple<int, double, long> t{a, b, c};
                                   std::vector<const void*> seen;
                                   std::vector<std::size_t> idx;
                                   auto visit = [&](auto& e) { seen.push_back(&e); e += 1; };
                                   auto visit_i = [&](std::size_t i, auto& e) { idx.push_back(i); seen.push_back(&e); e += static_cast<std::remove_cvref_t<decltype(e)>>(i + 1); };
                                   g_alloc_monitor_on = false;
                                   LIB(fc::tuples::for_each_entry(t, visit));
                                   VF_CHECK("MODEL", seen == (std::vector<const void*>{&std::get<0>(t), &std::get<1>(t), &std::get<2>(t)}), "for_each_entry does not visit each entry once in order");
                                   VF_CHECK("MODEL", t == std::make_tuple(a + 1, b + 1, c + 1), "for_each_entry does not write through");
                                   seen.clear();
                                   LIB(fc::tuples::for_each_entry(t, visit_i));
                                   VF_CHECK("MODEL", seen == (std::vector<const void*>{&std::get<0>(t), &std::get<1>(t), &std::get<2>(t)}) && idx == (std::vector<std::size_t>{0, 1, 2}), "indexed for_each_entry does not visit each entry once in order");
                                   VF_CHECK("MODEL", t == std::make_tuple(a + 2, b + 3, c + 4), "indexed for_each_entry does not write through");
                                   std::tuple<> none;
                                   LIB(fc::tuples::for_each_entry(none, visit));
                                   auto refs = std::tie(a, c);
                                   seen.clear();
                                   LIB(fc::tuples::for_each_entry(refs, visit));
                                   VF_CHECK("MODEL", seen == (std::vector<const void*>{&a, &c}), "for_each_entry over references");
                                   // arguments
                                   seen.clear();
                                   idx.clear();
                                   LIB(fc::variadic_templates::for_each_entry(visit, a, b, c));
                                   VF_CHECK("MODEL", seen == (std::vector<const void*>{&a, &b, &c}), "argument for_each_entry does not visit each argument once in order");
                                   seen.clear();
                                   LIB(fc::variadic_templates::for_each_entry(visit_i, a, b, c));
                                   VF_CHECK("MODEL", seen == (std::vector<const void*>{&a, &b, &c}) && idx == (std::vector<std::size_t>{0, 1, 2}), "indexed argument for_each_entry does not visit each argument once in order");
                                   LIB(fc::variadic_templates::for_each_entry(visit));
                                   static_assert(std::is_same_v<fc::variadic_templates::NthElementT<2, int, double&, const long>, const long>);
                                   static_assert(std::is_same_v<fc::variadic_templates::NthElementT<0, int&>, int&>);
                               });
              });
}
}  // namespace

// ------------------------------------------------------------------ compile-time helpers
// A table of types with known properties; every concept is evaluated on every type.
struct CPlain
{
    int a;
    double b;
};
struct CNoDefault
{
    int a;
    explicit CNoDefault(int x) : a(x) {}
};
struct CUserCtor
{
    int a;
    constexpr CUserCtor() : a(1) {}
};
struct CRuntimeCtor
{
    int a;
    CRuntimeCtor() : a(static_cast<int>(g_rng.below(2))) {}
};
struct CMoveOnly
{
    int a = 0;
    CMoveOnly() = default;
    CMoveOnly(CMoveOnly&&) = default;
    CMoveOnly& operator=(CMoveOnly&&) = default;
};
struct CFixed
{
    int a = 0;
    CFixed() = default;
    CFixed(const CFixed&) = delete;
    CFixed& operator=(const CFixed&) = delete;
};
struct CCopyCtorOnly
{
    const int a = 0;
};
struct CHeap
{
    std::string s;
};
struct CDtor
{
    ~CDtor() {}
};
struct CVirtual
{
    virtual void f() {}
};
class CPrivate
{
    int a = 0;

public:
    int b = 0;
};
template <class T>
void concept_row(const char* name)
{
#define ROW(C, want)                                                                                            \
    {                                                                                                           \
        constexpr bool got = fc::C<T>, neg = fc::Not##C<T>;                                                     \
        VF_CHECK("MODEL", got == (want) && neg == !(want), #C "<%s> is %d, Not" #C " %d", name, got, neg); \
        cover(mix(hash_str(#C), mix(hash_str(name), got)));                                                     \
    }
    ROW(Trivial, (__is_trivially_constructible(T) && __is_trivially_copyable(T)))
    ROW(StandardLayout, __is_standard_layout(T))
    ROW(DefaultConstructible, __is_constructible(T))
    ROW(TriviallyDefaultConstructible, __is_trivially_constructible(T))
    ROW(TriviallyCopyConstructible, __is_trivially_constructible(T, const T&))
    ROW(TriviallyMoveConstructible, __is_trivially_constructible(T, T &&))
    ROW(TriviallyCopyAssignable, __is_trivially_assignable(T&, const T&))
    ROW(TriviallyMoveAssignable, __is_trivially_assignable(T&, T&&))
    ROW(TriviallyCopyable, __is_trivially_copyable(T))
    ROW(CopyConstructible, __is_constructible(T, const T&))
    ROW(MoveConstructible, __is_constructible(T, T &&))
    ROW(CopyAssignable, __is_assignable(T&, const T&))
    ROW(MoveAssignable, __is_assignable(T&, T&&))
    ROW(TriviallyCopyableWithAtLeastOneNonDeleted, (__is_trivially_copyable(T) && (__is_constructible(T, const T&) || __is_constructible(T, T &&) || __is_assignable(T&, const T&) || __is_assignable(T&, T&&))))
    ROW(TriviallyDestructible, std::is_trivially_destructible_v<T>)
    ROW(Aggregate, __is_aggregate(T))
#undef ROW
}
void helper_groups()
{
    add_group("model",
              "helpers/concepts",
              []
              {
                  run_case("concepts",
                           []
                           {
#define T(X) concept_row<X>(#X);
                               T(int)
                               T(double*) T(CPlain) T(CNoDefault) T(CUserCtor) T(CRuntimeCtor) T(CMoveOnly) T(CFixed) T(CCopyCtorOnly) T(CHeap) T(CDtor) T(CVirtual) T(CPrivate) T(std::unique_ptr<int>) T(std::string)
#undef T
                               VF_CHECK("MODEL", fc::ConstexprDefaultConstructible<int> && fc::ConstexprDefaultConstructible<CUserCtor> && !fc::ConstexprDefaultConstructible<CRuntimeCtor> && !fc::ConstexprDefaultConstructible<CNoDefault>, "ConstexprDefaultConstructible");
                               VF_CHECK("MODEL", fc::NotConstexprDefaultConstructible<CRuntimeCtor> && !fc::NotConstexprDefaultConstructible<CUserCtor>, "NotConstexprDefaultConstructible");
                               VF_CHECK("MODEL", (fc::IsStructuralType<int> && fc::IsStructuralType<CPlain> && !fc::IsStructuralType<CPrivate> && !fc::IsStructuralType<CHeap> && fc::IsNotStructuralType<CPrivate> && !fc::IsNotStructuralType<CPlain>), "IsStructuralType");
                               VF_CHECK("MODEL", fc::IsReference<int&> && fc::IsReference<int&&> && !fc::IsReference<int> && fc::IsNotReference<int*> && !fc::IsNotReference<const int&>, "IsReference");
                               VF_CHECK("MODEL", (fc::Strict<double, double> && !fc::Strict<double, float> && !fc::Strict<int&, int> && !fc::Strict<const int, int>), "Strict");
                               VF_CHECK("MODEL", (fc::InputIterator<int*> && fc::InputIterator<std::map<int, int>::iterator> && !fc::InputIterator<std::back_insert_iterator<std::vector<int>>> && !fc::InputIterator<int>), "InputIterator");
                               VF_CHECK("MODEL", (fc::IsStdPair<std::pair<int, char>> && !fc::IsStdPair<std::tuple<int, char>> && !fc::IsStdPair<fc::PairView<int, char>>), "IsStdPair");
                               VF_CHECK("MODEL", fc::IsTransparent<std::less<>> && !fc::IsTransparent<std::less<int>>, "IsTransparent");
                               VF_CHECK("MODEL", fc::HasValueType<std::vector<int>> && !fc::HasValueType<int>, "HasValueType");
                               VF_CHECK("MODEL", fc::IsEmpty<fc::EmptyValue> && !std::is_default_constructible_v<fc::EmptyValue>, "EmptyValue");
                               for (int i = -3; i < 4; i++)
                               {
                                   const fc::Overloaded f{[](int x) { return x * 2; }, [](const char* t) { return static_cast<int>(t[0]); }};
                                   VF_CHECK("MODEL", f(i) == 2 * i && f("q") == 'q', "Overloaded");
                               }
                           });
              });
    add_group("model",
              "helpers/max_size",
              []
              {
                  run_case("max_size",
                           []
                           {
                               auto row = []<class... C>(std::size_t n) { VF_CHECK("MODEL", ((fc::max_size_v<C> == n && fc::max_size<C>::value == n && C::static_max_size() == n && C().max_size() == n) && ...), "max_size of a container of capacity %zu", n); cover(n); };
                               auto all = [&]<std::size_t N>()
                               {
                                   row.template operator()<fc::FixedVector<int, N>, fc::FixedVector<std::string, N>, fc::FixedDeque<int, N>, fc::FixedCircularDeque<char, N>, fc::FixedList<int, N>, fc::FixedList<std::string, N>, fc::FixedMap<int, int, N>,
                                                           fc::FixedMap<int, int, N, std::less<int>, fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::DEDICATED_COLOR, fc::FixedIndexBasedContiguousStorage>, fc::FixedSet<char, N>, fc::FixedUnorderedMap<int, char, N>, fc::FixedUnorderedSet<int, N>, fc::FixedString<N>>(N);
                               };
                               all.template operator()<0>();
                               all.template operator()<1>();
                               all.template operator()<2>();
                               all.template operator()<3>();
                               all.template operator()<7>();
                               all.template operator()<8>();
                               all.template operator()<255>();
                               all.template operator()<256>();
                               all.template operator()<1000>();
                           });
              });
    add_group("model",
              "helpers/consteval_compare",
              []
              {
                  run_case("consteval_compare",
                           []
                           {
                               auto row = []<auto A, auto B>()
                               {
                                   namespace cc = fc::consteval_compare;
                                   VF_CHECK("MODEL", (cc::equal<A, B> == (A == B) && cc::not_equal<A, B> == (A != B) && cc::less<A, B> == (A < B) && cc::less_or_equal<A, B> == (A <= B) && cc::greater<A, B> == (A > B) && cc::greater_or_equal<A, B> == (A >= B)), "consteval comparison");
                               };
                               row.template operator()<1, 1>();
                               row.template operator()<1, 2>();
                               row.template operator()<2, 1>();
                               row.template operator()<-1, 1>();
                               row.template operator()<'a', 98>();
                               row.template operator()<5U, 5L>();
                               cover(1);
                           });
              });
}
int main(int argc, char** argv)
{
    optref_groups<int>("int");
    optref_groups<const int>("const int");
    optref_groups<double>("double");
    optref_groups<Odd>("Odd");
    optref_groups<const Odd>("const Odd");
    optref_mixed();
    pair_groups();
    literal_groups();
    chain_groups();
    misc_groups();
    helper_groups();
    return driver_main(argc, argv);
}
