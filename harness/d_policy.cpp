// The checking policies that containers use when the user names none: every misuse ends the process with SIGABRT,
// at once, with the container as it was, and nothing that is allowed does.
#include "fw.hpp"

#include "fixed_containers/enum_array.hpp"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/enum_set.hpp"
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_circular_queue.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_queue.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_stack.hpp"
#include "fixed_containers/fixed_string.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include "fixed_containers/fixed_vector.hpp"
#include "fixed_containers/optional_reference.hpp"

#include <array>
#include <list>
#include <string>
#include <vector>

namespace fc = fixed_containers;
using namespace vf;

namespace
{
template <class F>
void for_cases(std::size_t quick, F&& f)
{
    const std::size_t n = n_cases(quick);
    for (std::size_t i = 0; i < n; i++)
        f(i);
}

volatile long g_sink = 0;

template <class T>
T mk(long v)
{
    if constexpr (std::is_same_v<T, Ntv>)
        return Ntv{static_cast<int>(v)};
    else
        return static_cast<T>(v);
}
template <class T>
long num(const T& t)
{
    if constexpr (requires { t.v; })
        return t.v;
    else
        return static_cast<long>(t);
}

// f is a misuse: with the default policy it has to abort.
template <class F>
void aborts(const char* what, F&& f)
{
    trace("%s", what);
    const HitInfo h = catch_hit(f);
    VF_CHECK("CHECK", h.hit == Hit::ABORT, "%s did not abort with the default policy (%s)", what, hit_name(h.hit));
    cover(hash_str(what));
}

template <class T>
struct Few
{
    std::vector<T> v;
    explicit Few(std::size_t n)
    {
        for (std::size_t i = 0; i < n; i++)
            v.push_back(mk<T>(static_cast<long>(i)));
    }
};

template <class C>
std::vector<long> dump(const C& c)
{
    std::vector<long> r;
    for (const auto& x : c)
        r.push_back(num(x));
    return r;
}

template <class C, class T, std::size_t N, bool CIRC, bool INDEXED>
void seq_case()
{
    const std::size_t sz = g_rng.chance(1, 3) ? 0 : g_rng.chance(1, 2) ? N : g_rng.below(N + 1);
    Box<C> b;
    C& c = *b.p;
    for (std::size_t i = 0; i < sz; i++)
        c.push_back(mk<T>(static_cast<long>(i * 3)));
    trace("capacity %zu size %zu", N, sz);
    const std::vector<long> before = dump(c);
    const Few<T> many(N + 1 + g_rng.below(4));
    const std::list<T> many_list(many.v.begin(), many.v.end());
    auto same = [&](const char* what) { VF_CHECK("CHECK", dump(c) == before && c.size() == sz, "%s changed the container", what); };
    if constexpr (INDEXED)
    {
        for (std::size_t i : {sz, sz + 1, N, N + 1, static_cast<std::size_t>(-1), static_cast<std::size_t>(-1) / 2})
            if (i >= sz)
            {
                aborts("at", [&] { g_sink = num(c.at(i)); });
                aborts("at const", [&] { g_sink = num(std::as_const(c).at(i)); });
                aborts("operator[]", [&] { g_sink = num(c[i]); });
                aborts("operator[] const", [&] { g_sink = num(std::as_const(c)[i]); });
            }
        same("an index out of range");
    }
    if (sz == 0)
    {
        aborts("front", [&] { g_sink = num(c.front()); });
        aborts("front const", [&] { g_sink = num(std::as_const(c).front()); });
        aborts("back", [&] { g_sink = num(c.back()); });
        aborts("back const", [&] { g_sink = num(std::as_const(c).back()); });
        aborts("pop_back", [&] { c.pop_back(); });
        if constexpr (requires { c.pop_front(); })
            aborts("pop_front", [&] { c.pop_front(); });
        same("an access to an empty container");
    }
    if constexpr (!CIRC)
    {
        if (sz == N)
        {
            const T t = mk<T>(1);
            aborts("push_back", [&] { c.push_back(t); });
            aborts("push_back &&", [&] { c.push_back(mk<T>(1)); });
            aborts("emplace_back", [&] { c.emplace_back(mk<T>(1)); });
            aborts("insert", [&] { c.insert(c.begin(), t); });
            aborts("insert &&", [&] { c.insert(c.end(), mk<T>(1)); });
            aborts("emplace", [&] { c.emplace(c.begin(), mk<T>(1)); });
            if constexpr (requires { c.push_front(t); })
            {
                aborts("push_front", [&] { c.push_front(t); });
                aborts("push_front &&", [&] { c.push_front(mk<T>(1)); });
                aborts("emplace_front", [&] { c.emplace_front(mk<T>(1)); });
            }
            aborts("insert ilist", [&] { c.insert(c.begin(), {t}); });
        }
        same("an insertion into a full container");
        aborts("insert range", [&] { c.insert(c.begin(), many.v.begin(), many.v.end()); });
        aborts("insert list range", [&] { c.insert(c.begin(), many_list.begin(), many_list.end()); });
        same("an insertion of too many elements");
        aborts("assign count", [&] { c.assign(N + 1, mk<T>(1)); });
        aborts("assign range", [&] { c.assign(many.v.begin(), many.v.end()); });
        same("an assignment of too many elements");
    }
    aborts("resize", [&] { c.resize(N + 1); });
    aborts("resize value", [&] { c.resize(N + 1 + g_rng.below(1000), mk<T>(1)); });
    same("resize beyond the capacity");
    if constexpr (requires { c.reserve(1); })
    {
        aborts("reserve", [&] { c.reserve(N + 1); });
        same("reserve beyond the capacity");
    }
    if constexpr (!CIRC)
    {
        aborts("constructor count", [&] { g_sink = static_cast<long>(C(N + 1).size()); });
        aborts("constructor count value", [&] { g_sink = static_cast<long>(C(N + 1, mk<T>(1)).size()); });
        aborts("constructor range", [&] { g_sink = static_cast<long>(C(many.v.begin(), many.v.end()).size()); });
        aborts("constructor list range", [&] { g_sink = static_cast<long>(C(many_list.begin(), many_list.end()).size()); });
    }
    // and what is allowed does not abort
    while (c.size() < N)
        c.push_back(mk<T>(1));
    if (N > 0)
    {
        g_sink = num(c.front()) + num(c.back());
        c.pop_back();
        c.push_back(mk<T>(2));
        c.assign(many.v.begin(), many.v.begin() + static_cast<std::ptrdiff_t>(N));
    }
    c.resize(N);
    c.clear();
}

template <class Cont, class T, std::size_t N, bool CIRC, bool INDEXED>
void seq_groups(const char* name)
{
    add_group("check", std::string("default/") + name + "/" + std::to_string(N), [name] { for_cases(12, [&](std::size_t) { run_case(name, [] { seq_case<Cont, T, N, CIRC, INDEXED>(); }); }); });
}

template <std::size_t N>
void seq_all()
{
    seq_groups<fc::FixedVector<int, N>, int, N, false, true>("FixedVector<int>");
    seq_groups<fc::FixedVector<Ntv, N>, Ntv, N, false, true>("FixedVector<Ntv>");
    seq_groups<fc::FixedDeque<int, N>, int, N, false, true>("FixedDeque<int>");
    seq_groups<fc::FixedDeque<Ntv, N>, Ntv, N, false, true>("FixedDeque<Ntv>");
    seq_groups<fc::FixedList<int, N>, int, N, false, false>("FixedList<int>");
    seq_groups<fc::FixedList<Ntv, N>, Ntv, N, false, false>("FixedList<Ntv>");
    if constexpr (N > 0)
    {
        seq_groups<fc::FixedCircularDeque<int, N>, int, N, true, true>("FixedCircularDeque<int>");
        seq_groups<fc::FixedCircularDeque<Ntv, N>, Ntv, N, true, true>("FixedCircularDeque<Ntv>");
    }
    add_group("check", "default/adapters/" + std::to_string(N),
              []
              {
                  for_cases(6,
                            [&](std::size_t)
                            {
                                run_case("adapters",
                                         []
                                         {
                                             auto empty = [](auto&& c, auto top)
                                             {
                                                 aborts("pop", [&] { c.pop(); });
                                                 aborts("top or front", [&] { g_sink = top(c); });
                                                 aborts("top or front const", [&] { g_sink = top(std::as_const(c)); });
                                             };
                                             auto full = [](auto&& c)
                                             {
                                                 for (std::size_t i = 0; i < N; i++)
                                                     c.push(static_cast<int>(i));
                                                 aborts("push", [&] { c.push(1); });
                                                 aborts("emplace", [&] { c.emplace(1); });
                                                 VF_CHECK("CHECK", c.size() == N, "a push that was reported changed the size");
                                             };
                                             auto front = [](auto& c) -> long { return c.front() + c.back(); };
                                             auto back = [](auto& c) -> long { return c.back(); };
                                             empty(fc::FixedStack<int, N>(), [](auto& c) -> long { return c.top(); });
                                             empty(fc::FixedQueue<int, N>(), front);
                                             empty(fc::FixedQueue<int, N>(), back);
                                             full(fc::FixedStack<int, N>());
                                             full(fc::FixedQueue<int, N>());
                                             if constexpr (N > 0)
                                             {
                                                 empty(fc::FixedCircularQueue<int, N>(), front);
                                                 empty(fc::FixedCircularQueue<int, N>(), back);
                                             }
                                         });
                            });
              });
    add_group("check", "default/FixedString/" + std::to_string(N),
              []
              {
                  for_cases(12,
                            [&](std::size_t)
                            {
                                run_case("string",
                                         []
                                         {
                                             using S = fc::FixedString<N>;
                                             const std::size_t sz = g_rng.chance(1, 3) ? 0 : g_rng.chance(1, 2) ? N : g_rng.below(N + 1);
                                             Box<S> b(std::in_place, sz, 'x');
                                             S& s = *b.p;
                                             const std::string before(sz, 'x');
                                             const std::string many(N + 1 + g_rng.below(5), 'q');
                                             auto same = [&](const char* what) { VF_CHECK("CHECK", std::string_view(s) == before && s.c_str()[sz] == 0, "%s changed the string", what); };
                                             aborts("at", [&] { g_sink = s.at(sz); });
                                             aborts("at const", [&] { g_sink = std::as_const(s).at(N + 1); });
                                             aborts("operator[]", [&] { g_sink = s[N + 1]; });
                                             same("an index out of range");
                                             if (sz == 0)
                                             {
                                                 aborts("front", [&] { g_sink = s.front(); });
                                                 aborts("back", [&] { g_sink = std::as_const(s).back(); });
                                                 aborts("pop_back", [&] { s.pop_back(); });
                                                 same("an access to an empty string");
                                             }
                                             // a string that does not fit is noticed when it is terminated: no character of the old one is lost by then
                                             auto on_copy = [&](const char* what, auto f)
                                             {
                                                 Box<S> d(std::in_place, sz, 'x');
                                                 S& t = *d.p;
                                                 aborts(what, [&] { f(t); });
                                             };
                                             if (sz == N)
                                             {
                                                 on_copy("push_back", [&](S& t) { t.push_back('c'); });
                                                 on_copy("insert", [&](S& t) { t.insert(t.begin(), 'c'); });
                                             }
                                             on_copy("resize", [&](S& t) { t.resize(N + 1); });
                                             on_copy("resize value", [&](S& t) { t.resize(N + 9, 'c'); });
                                             on_copy("reserve", [&](S& t) { t.reserve(N + 1); });
                                             on_copy("insert view", [&](S& t) { t.insert(t.begin(), std::string_view(many)); });
                                             on_copy("append", [&](S& t) { t.append(many); });
                                             on_copy("assign", [&](S& t) { t.assign(many); });
                                             on_copy("constructor count", [&](S&) { g_sink = static_cast<long>(S(N + 1, 'c').size()); });
                                             on_copy("constructor view", [&](S&) { g_sink = static_cast<long>(S(std::string_view(many)).size()); });
                                             on_copy("constructor c string", [&](S&) { g_sink = static_cast<long>(S(many.c_str()).size()); });
                                             same("another string");
                                             s.assign(N, 'c');
                                             s.resize(N);
                                             s.reserve(N);
                                         });
                            });
              });
}

template <class M, class K>
void map_case(std::size_t n, bool ordered)
{
    Box<M> b;
    M& m = *b.p;
    const std::size_t sz = g_rng.chance(1, 3) ? 0 : g_rng.chance(1, 2) ? n : g_rng.below(n + 1);
    for (std::size_t i = 0; i < sz; i++)
        m.try_emplace(mk<K>(static_cast<long>(i * 2)), static_cast<int>(i));
    auto same = [&](const char* what)
    {
        bool ok = m.size() == sz;
        for (std::size_t i = 0; i < sz; i++)
            ok = ok && m.contains(mk<K>(static_cast<long>(i * 2))) && m.at(mk<K>(static_cast<long>(i * 2))) == static_cast<int>(i);
        VF_CHECK("CHECK", ok, "%s changed the map", what);
    };
    for (long k : {-1L, 1L, static_cast<long>(sz) * 2, 5001L})
    {
        aborts("at", [&] { g_sink = m.at(mk<K>(k)); });
        aborts("at const", [&] { g_sink = std::as_const(m).at(mk<K>(k)); });
    }
    same("a missing key");
    if (ordered || sz == 0)
    {
        aborts("erase(end())", [&] { m.erase(m.end()); });
        aborts("erase(cend())", [&] { m.erase(m.cend()); });
        same("erase at the end");
    }
    if (sz == n)
    {
        const K k = mk<K>(999);
        const std::pair<K, int> kv(k, 1);
        aborts("insert", [&] { m.insert(kv); });
        aborts("insert &&", [&] { m.insert(std::pair<K, int>(k, 1)); });
        aborts("emplace", [&] { m.emplace(k, 1); });
        aborts("try_emplace", [&] { m.try_emplace(k, 1); });
        aborts("try_emplace &&", [&] { m.try_emplace(mk<K>(999), 1); });
        aborts("insert_or_assign", [&] { m.insert_or_assign(k, 1); });
        aborts("operator[]", [&] { m[k] = 1; });
        aborts("operator[] &&", [&] { m[mk<K>(999)] = 1; });
        aborts("insert ilist", [&] { m.insert({kv}); });
        same("an insertion into a full map");
        if (n > 0)
        {
            m.insert_or_assign(mk<K>(0), 0);
            m.try_emplace(mk<K>(0), 3);
            same("an insertion of a key that is there");
        }
    }
    std::vector<std::pair<K, int>> many;
    for (std::size_t i = 0; i <= n; i++)
        many.emplace_back(mk<K>(static_cast<long>(1000 + i)), 1);
    aborts("constructor range", [&] { g_sink = static_cast<long>(M(many.begin(), many.end()).size()); });
    g_sink = static_cast<long>(M(many.begin(), many.begin() + static_cast<std::ptrdiff_t>(n)).size());
}

template <class M, class K>
void set_case(std::size_t n, bool ordered)
{
    Box<M> b;
    M& m = *b.p;
    const std::size_t sz = g_rng.chance(1, 3) ? 0 : g_rng.chance(1, 2) ? n : g_rng.below(n + 1);
    for (std::size_t i = 0; i < sz; i++)
        m.insert(mk<K>(static_cast<long>(i * 2)));
    auto same = [&](const char* what)
    {
        bool ok = m.size() == sz;
        for (std::size_t i = 0; i < sz; i++)
            ok = ok && m.contains(mk<K>(static_cast<long>(i * 2)));
        VF_CHECK("CHECK", ok, "%s changed the set", what);
    };
    if (ordered || sz == 0)
    {
        aborts("erase(end())", [&] { m.erase(m.end()); });
        same("erase at the end");
    }
    if (sz == n)
    {
        const K k = mk<K>(999);
        aborts("insert", [&] { m.insert(k); });
        aborts("insert &&", [&] { m.insert(mk<K>(999)); });
        aborts("emplace", [&] { m.emplace(mk<K>(999)); });
        aborts("insert ilist", [&] { m.insert({k}); });
        same("an insertion into a full set");
        if (n > 0)
        {
            m.insert(mk<K>(0));
            same("an insertion of a key that is there");
        }
    }
    std::vector<K> many;
    for (std::size_t i = 0; i <= n; i++)
        many.push_back(mk<K>(static_cast<long>(1000 + i)));
    aborts("constructor range", [&] { g_sink = static_cast<long>(M(many.begin(), many.end()).size()); });
    g_sink = static_cast<long>(M(many.begin(), many.begin() + static_cast<std::ptrdiff_t>(n)).size());
}

template <std::size_t N>
void assoc_all()
{
    const std::string n = std::to_string(N);
    add_group("check", "default/FixedMap/" + n, [] { for_cases(12, [](std::size_t) { run_case("map", [] { map_case<fc::FixedMap<int, int, N>, int>(N, true); }); }); });
    add_group("check", "default/FixedSet/" + n, [] { for_cases(12, [](std::size_t) { run_case("set", [] { set_case<fc::FixedSet<int, N>, int>(N, true); }); }); });
    add_group("check", "default/FixedUnorderedMap/" + n, [] { for_cases(12, [](std::size_t) { run_case("umap", [] { map_case<fc::FixedUnorderedMap<int, int, N>, int>(N, false); }); }); });
    add_group("check", "default/FixedUnorderedSet/" + n, [] { for_cases(12, [](std::size_t) { run_case("uset", [] { set_case<fc::FixedUnorderedSet<int, N>, int>(N, false); }); }); });
}

enum class Few3
{
    A = 4,
    B = 1,
    C = 9
};

void enum_all()
{
    add_group("check", "default/EnumMap",
              []
              {
                  for_cases(8,
                            [](std::size_t bits)
                            {
                                run_case("enum map",
                                         [&]
                                         {
                                             fc::EnumMap<Few3, int> m;
                                             const Few3 all[] = {Few3::A, Few3::B, Few3::C};
                                             for (std::size_t i = 0; i < 3; i++)
                                                 if ((bits >> i) & 1U)
                                                     m.try_emplace(all[i], static_cast<int>(i));
                                             for (std::size_t i = 0; i < 3; i++)
                                                 if (!((bits >> i) & 1U))
                                                 {
                                                     aborts("at", [&] { g_sink = m.at(all[i]); });
                                                     aborts("at const", [&] { g_sink = std::as_const(m).at(all[i]); });
                                                 }
                                                 else
                                                     VF_CHECK("CHECK", m.at(all[i]) == static_cast<int>(i), "at of an entry that is there");
                                             VF_CHECK("CHECK", m.size() == static_cast<std::size_t>(__builtin_popcountll(bits & 7U)), "a missing key changed the map");
                                         });
                            });
              });
    add_group("check", "default/OptionalReference",
              []
              {
                  run_case("optional reference",
                           []
                           {
                               const fc::OptionalReference<int> o;
                               aborts("value", [&] { g_sink = o.value(); });
                               aborts("operator*", [&] { g_sink = *o; });
                               int x = 3;
                               const fc::OptionalReference<int> p(x);
                               VF_CHECK("CHECK", p.value() == 3 && *p == 3, "value of an engaged reference");
                           });
              });
}
}  // namespace

int main(int argc, char** argv)
{
    seq_all<0>();
    seq_all<1>();
    seq_all<2>();
    seq_all<5>();
    seq_all<40>();
    assoc_all<0>();
    assoc_all<1>();
    assoc_all<2>();
    assoc_all<5>();
    assoc_all<40>();
    enum_all();
    return driver_main(argc, argv);
}
