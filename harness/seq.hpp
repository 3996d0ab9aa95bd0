// Generic monitors for the sequence containers: every operation is executed on the real container
// and on a plain model (a std::vector of values); contents, return values, element lifetimes,
// address stability, allocations and sanitizers are checked after every operation.
#pragma once
#include "fw.hpp"

#include <compare>
#include <forward_list>
#include <list>
#include <numeric>
#include <ranges>
#include <span>

namespace vf
{
struct Ent
{
    int v;
    const void* a;
};
using Model = std::vector<Ent>;

inline std::vector<int> values(const Model& m)
{
    std::vector<int> r;
    for (const auto& e : m)
        r.push_back(e.v);
    return r;
}

enum class Fam
{
    VECTOR,
    DEQUE,
    CIRCULAR,
    LIST
};

template <class T>
const void* addr(const T& t)
{
    return static_cast<const void*>(std::addressof(t));
}

template <Fam F, class C, class T, std::size_t N>
struct Seq
{
    static constexpr bool RANDOM = F != Fam::LIST;
    static constexpr bool FRONT = F != Fam::VECTOR;
    static constexpr bool CIRC = F == Fam::CIRCULAR;
    static constexpr bool TRACKED = El<T>::tracked;
    static constexpr bool CP = std::is_copy_constructible_v<T>;
    static constexpr bool AS = std::is_move_assignable_v<T>;
    static constexpr bool DEF = std::is_default_constructible_v<T>;
    static constexpr int VALS = 40;

    static int rnd() { return static_cast<int>(g_rng.below(VALS)); }

    // ---------------------------------------------------------- verification
    static void verify(Box<C>& b, Model& m, const char* K = "MODEL")
    {
        C& c = *b;
        const C& cc = c;
        VF_CHECK(K, cc.size() == m.size(), "size() is %zu, expected %zu", cc.size(), m.size());
        VF_CHECK(K, cc.empty() == m.empty(), "empty() wrong at size %zu", m.size());
        VF_CHECK(K, cc.max_size() == N && C::static_max_size() == N, "max_size() wrong");
        VF_CHECK(K, is_full(cc) == (m.size() >= N), "is_full() wrong at size %zu", m.size());
        if constexpr (F == Fam::VECTOR)
            VF_CHECK(K, cc.capacity() == N, "capacity() wrong");
        if constexpr (TRACKED)
            VF_CHECK("LIFE",
                     b.live() == static_cast<long>(m.size()),
                     "%ld live elements inside the container, expected %zu",
                     b.live(),
                     m.size());
        std::size_t i = 0;
        for (auto it = cc.begin(); it != cc.end(); ++it, ++i)
        {
            VF_CHECK(K, i < m.size(), "iteration does not end after %zu elements", m.size());
            const T& e = *it;
            VF_CHECK(K, val(e) == m[i].v, "element %zu is %d, expected %d (size %zu)", i, val(e), m[i].v, m.size());
            if (m[i].a == nullptr)
                m[i].a = addr(e);
            else
                VF_CHECK("STABLE",
                         m[i].a == addr(e),
                         "element %zu changed its address although the operation does not invalidate references to it",
                         i);
            VF_CHECK("RELOC",
                     static_cast<const char*>(addr(e)) >= reinterpret_cast<const char*>(b.p) &&
                         static_cast<const char*>(addr(e)) + sizeof(T) <=
                             reinterpret_cast<const char*>(b.p) + sizeof(C),
                     "element %zu lives outside the container object",
                     i);
        }
        VF_CHECK(K, i == m.size(), "iteration ended after %zu of %zu elements", i, m.size());
        if (g_rng.chance(1, 3))
        {
            i = m.size();
            for (auto it = cc.crbegin(); it != cc.crend(); ++it)
            {
                VF_CHECK(K, i > 0, "reverse iteration does not end");
                --i;
                VF_CHECK(K, val(*it) == m[i].v, "reverse: element %zu is %d, expected %d", i, val(*it), m[i].v);
            }
            VF_CHECK(K, i == 0, "reverse iteration ended early at %zu", i);
        }
        if (g_rng.chance(1, 3))
        {
            i = 0;
            for (auto& e : c)
            {
                VF_CHECK(K, i < m.size() && addr(e) == m[i].a, "mutable iteration differs at %zu", i);
                ++i;
            }
            VF_CHECK(K, i == m.size(), "mutable iteration ended early");
        }
        if (!m.empty())
        {
            VF_CHECK(K, addr(cc.front()) == m.front().a && addr(c.front()) == m.front().a, "front() wrong");
            VF_CHECK(K, addr(cc.back()) == m.back().a && addr(c.back()) == m.back().a, "back() wrong");
        }
        if constexpr (RANDOM)
        {
            if (g_rng.chance(1, 3))
                for (i = 0; i < m.size(); i++)
                    VF_CHECK(K,
                             addr(c[i]) == m[i].a && addr(cc[i]) == m[i].a && addr(c.at(i)) == m[i].a &&
                                 addr(cc.at(i)) == m[i].a,
                             "operator[]/at(%zu) wrong",
                             i);
        }
        if constexpr (F == Fam::VECTOR && N > 0)
        {
            for (i = 0; i < m.size(); i++)
                VF_CHECK(K, addr(cc.data()[i]) == m[i].a && addr(c.data()[i]) == m[i].a, "data()[%zu] wrong", i);
        }
        std::uint64_t h = m.size();
        for (i = 0; i < m.size() && i < 12; i++)
            h = mix(h, static_cast<std::uint64_t>(m[i].v));
        cover(h);
    }

    // ---------------------------------------------------------- model helpers
    enum class Where
    {
        ENDS,    // operation at either end that keeps other elements in place
        MIDDLE,  // insertion/removal at index pos
        ALL      // everything may move
    };
    // forget the addresses of elements whose references std invalidates
    static void invalidate(Model& m, Where w, std::size_t pos)
    {
        if constexpr (F == Fam::LIST)
            return;
        if (w == Where::ENDS && F != Fam::VECTOR)
            return;
        if (w == Where::ENDS)
            return;
        for (std::size_t i = 0; i < m.size(); i++)
            if (w == Where::ALL || F != Fam::VECTOR || i >= pos)
                m[i].a = nullptr;
    }
    // insert values at pos; returns expected index of returned iterator
    static std::size_t model_insert(Model& m, std::size_t pos, const std::vector<int>& vs)
    {
        invalidate(m, Where::MIDDLE, pos);
        Model tmp;
        for (int v : vs)
            tmp.push_back(Ent{v, nullptr});
        m.insert(m.begin() + static_cast<std::ptrdiff_t>(pos), tmp.begin(), tmp.end());
        if constexpr (CIRC)
        {
            // as if the capacity were infinite, then trimmed to the last N
            if (m.size() > N)
            {
                const std::size_t drop = m.size() - N;
                m.erase(m.begin(), m.begin() + static_cast<std::ptrdiff_t>(drop));
                return drop >= pos ? 0 : pos - drop;
            }
        }
        return pos;
    }
    static std::vector<int> rnd_values(std::size_t n)
    {
        std::vector<int> r(n);
        for (auto& x : r)
            x = rnd();
        return r;
    }
    static auto pos_c(C& c, std::size_t i) { return std::next(c.cbegin(), static_cast<std::ptrdiff_t>(i)); }

    static std::vector<T> make_values(const std::vector<int>& vs)
        requires CP
    {
        std::vector<T> r;
        r.reserve(vs.size());
        for (int v : vs)
            r.emplace_back(v);
        return r;
    }
    template <class It>
    static void check_ret(Box<C>& b, const It& it, std::size_t idx, const char* what)
    {
        const auto d = std::distance(b->begin(), typename C::iterator(it));
        VF_CHECK("MODEL", d == static_cast<std::ptrdiff_t>(idx), "%s returned an iterator to index %td, expected %zu", what, d, idx);
    }
    static void check_ret_list(Box<C>& b, typename C::iterator it, std::size_t idx, const char* what)
    {
        auto e = b->begin();
        for (std::size_t i = 0; i < idx; i++)
            ++e;
        VF_CHECK("MODEL", it == e, "%s returned an iterator that does not refer to index %zu", what, idx);
    }
    static void ret(Box<C>& b, typename C::iterator it, std::size_t idx, const char* what)
    {
        if constexpr (F == Fam::LIST)
            check_ret_list(b, it, idx, what);
        else
            check_ret(b, it, idx, what);
    }

    // how many elements can be added
    static std::size_t room(const Model& m) { return CIRC ? N + 3 : N - m.size(); }
    // mostly short, sometimes as long as there is room for: some mistakes need a length
    static std::size_t some(std::size_t all, std::size_t few) { return g_rng.chance(1, 8) ? all : std::min(all, few); }

    // ---------------------------------------------------------- ops
    static constexpr int N_OPS = 34;
    // profile: relative preference of growing vs shrinking and of ends vs middle
    static bool step(Box<C>& b, Model& m, int op)
    {
        C& c = *b;
        const bool can_add = N > 0 && (CIRC || m.size() < N);
        const std::size_t sz = m.size();
        const std::size_t pos = g_rng.below(sz + 1);
        const int v = rnd();
        switch (op)
        {
        case 0:  // push_back const&
            if constexpr (CP)
            {
                if (!can_add)
                    return false;
                const T t(v);
                trace("push_back(%d)", v);
                LIB(c.push_back(t));
                VF_CHECK("MODEL", val(t) == v, "push_back(const&) modified its argument");
                push_back_model(m, v);
                return true;
            }
            return false;
        case 1:  // push_back &&
        {
            if (!can_add)
                return false;
            T t(v);
            trace("push_back(move %d)", v);
            LIB(c.push_back(std::move(t)));
            push_back_model(m, v);
            return true;
        }
        case 2:  // emplace_back
        {
            if (!can_add)
                return false;
            trace("emplace_back(%d)", v);
            T& r = v % 2 ? LIB(c.emplace_back(v)) : [&]() -> T& { if constexpr (std::is_integral_v<T>) return LIB(c.emplace_back(static_cast<T>(v))); else return LIB(c.emplace_back(v - 3, 3)); }();
            push_back_model(m, v);
            VF_CHECK("MODEL", addr(r) == addr(c.back()), "emplace_back() returned a reference to another element");
            return true;
        }
        case 3:
            if (sz == 0)
                return false;
            trace("pop_back");
            LIB(c.pop_back());
            m.pop_back();
            return true;
        case 4:
            if constexpr (FRONT && CP)
            {
                if (!can_add)
                    return false;
                const T t(v);
                trace("push_front(%d)", v);
                LIB(c.push_front(t));
                push_front_model(m, v);
                return true;
            }
            return false;
        case 5:
            if constexpr (FRONT)
            {
                if (!can_add)
                    return false;
                T t(v);
                trace("push_front(move %d)", v);
                LIB(c.push_front(std::move(t)));
                push_front_model(m, v);
                return true;
            }
            return false;
        case 6:
            if constexpr (FRONT)
            {
                if (!can_add)
                    return false;
                trace("emplace_front(%d)", v);
                T& r = LIB(c.emplace_front(v));
                push_front_model(m, v);
                VF_CHECK("MODEL", addr(r) == addr(c.front()), "emplace_front() returned a reference to another element");
                return true;
            }
            return false;
        case 7:
            if constexpr (FRONT)
            {
                if (sz == 0)
                    return false;
                trace("pop_front");
                LIB(c.pop_front());
                m.erase(m.begin());
                return true;
            }
            return false;
        case 8:  // insert const&
            if constexpr (CP)
            {
                if (!can_add)
                    return false;
                const T t(v);
                trace("insert(@%zu,%d)", pos, v);
                auto it = LIB(c.insert(pos_c(c, pos), t));
                ret(b, it, model_insert(m, pos, {v}), "insert(const&)");
                return true;
            }
            return false;
        case 9:  // insert &&
        {
            if (!can_add)
                return false;
            T t(v);
            trace("insert(@%zu,move %d)", pos, v);
            auto it = LIB(c.insert(pos_c(c, pos), std::move(t)));
            ret(b, it, model_insert(m, pos, {v}), "insert(&&)");
            return true;
        }
        case 10:  // emplace
        {
            if (!can_add)
                return false;
            trace("emplace(@%zu,%d)", pos, v);
            auto it = LIB(c.emplace(pos_c(c, pos), v));
            ret(b, it, model_insert(m, pos, {v}), "emplace");
            return true;
        }
        case 11:  // insert forward range (list / forward_list / pointer)
        case 12:
        case 13:
            if constexpr (CP && AS)
            {
                const std::size_t n = g_rng.below(some(room(m), 9) + 1);
                if (N == 0 && CIRC)
                    return false;
                const auto vs = rnd_values(n);
                auto ts = make_values(vs);
                trace("insert(@%zu,range%d n=%zu first=%d)", pos, op - 11, n, n ? vs[0] : -1);
                typename C::iterator it{};
                if (op == 11)
                {
                    std::list<T> l;
                    for (int x : vs)
                        l.emplace_back(x);
                    it = LIB(c.insert(pos_c(c, pos), l.begin(), l.end()));
                }
                else if (op == 12)
                {
                    std::forward_list<T> l;
                    for (std::size_t k = vs.size(); k-- > 0;)
                        l.emplace_front(vs[k]);
                    it = LIB(c.insert(pos_c(c, pos), l.cbegin(), l.cend()));
                }
                else
                {
                    it = LIB(c.insert(pos_c(c, pos), ts.data(), ts.data() + ts.size()));
                    for (std::size_t k = 0; k < n; k++)
                        VF_CHECK("MODEL", val(ts[k]) == vs[k], "insert(range) modified its source");
                }
                ret(b, it, model_insert(m, pos, vs), "insert(range)");
                return true;
            }
            return false;
        case 14:  // insert single-pass range
            if constexpr (AS)
            {
                if (N == 0)
                    return false;
                const std::size_t n = g_rng.below(some(room(m), 9) + 1);
                const auto vs = rnd_values(n);
                trace("insert(@%zu,input n=%zu)", pos, n);
                typename InputIt<T>::Src src{vs.data(), vs.data() + vs.size()};
                auto it = LIB(c.insert(pos_c(c, pos), InputIt<T>(&src), InputIt<T>()));
                VF_CHECK("MODEL", src.cur == src.end, "insert(input range) did not consume the range");
                ret(b, it, model_insert(m, pos, vs), "insert(input range)");
                if constexpr (F == Fam::VECTOR || F == Fam::LIST)
                {
                }
                return true;
            }
            return false;
        case 15:  // insert move iterators
            if constexpr (AS)
            {
                const std::size_t n = g_rng.below(some(room(m), 6) + 1);
                if (N == 0 && CIRC)
                    return false;
                const auto vs = rnd_values(n);
                std::vector<T> ts;
                ts.reserve(n);
                for (int x : vs)
                    ts.emplace_back(x);
                trace("insert(@%zu,move_iterator n=%zu)", pos, n);
                auto it = LIB(c.insert(pos_c(c, pos), std::make_move_iterator(ts.begin()), std::make_move_iterator(ts.end())));
                ret(b, it, model_insert(m, pos, vs), "insert(move_iterator)");
                return true;
            }
            return false;
        case 16:  // insert initializer_list
            if constexpr (CP && AS)
            {
                const std::size_t n = g_rng.below(std::min<std::size_t>(room(m), 3) + 1);
                if (N == 0 && CIRC)
                    return false;
                const auto vs = rnd_values(n);
                trace("insert(@%zu,il n=%zu)", pos, n);
                typename C::iterator it{};
                if (n == 0)
                    it = LIB(c.insert(pos_c(c, pos), std::initializer_list<T>{}));
                else if (n == 1)
                    it = LIB(c.insert(pos_c(c, pos), {T(vs[0])}));
                else if (n == 2)
                    it = LIB(c.insert(pos_c(c, pos), {T(vs[0]), T(vs[1])}));
                else
                    it = LIB(c.insert(pos_c(c, pos), {T(vs[0]), T(vs[1]), T(vs[2])}));
                ret(b, it, model_insert(m, pos, vs), "insert(initializer_list)");
                return true;
            }
            return false;
        case 17:  // erase one
        case 18:
            if constexpr (AS)
            {
                if (sz == 0)
                    return false;
                const std::size_t p = op == 17 ? g_rng.below(sz) : (g_rng.chance(1, 2) ? 0 : sz - 1);
                trace("erase(@%zu)", p);
                auto it = LIB(c.erase(pos_c(c, p)));
                invalidate(m, Where::MIDDLE, p);
                m.erase(m.begin() + static_cast<std::ptrdiff_t>(p));
                ret(b, it, p, "erase(pos)");
                return true;
            }
            return false;
        case 19:  // erase range
        case 20:
            if constexpr (AS)
            {
                std::size_t p = g_rng.below(sz + 1);
                std::size_t q = p + g_rng.below(std::min<std::size_t>(sz - p, op == 19 ? 4 : sz) + 1);
                if (op == 20 && g_rng.chance(1, 3))
                {
                    p = 0;
                    q = sz;
                }
                trace("erase(@%zu..%zu)", p, q);
                auto it = LIB(c.erase(pos_c(c, p), pos_c(c, q)));
                if (p != q)
                    invalidate(m, Where::MIDDLE, p);
                m.erase(m.begin() + static_cast<std::ptrdiff_t>(p), m.begin() + static_cast<std::ptrdiff_t>(q));
                ret(b, it, p, "erase(range)");
                return true;
            }
            return false;
        case 21:  // free erase(value) / member remove
            if constexpr (AS)
            {
                const T t(v);
                trace("erase_value(%d)", v);
                std::size_t removed;
                if constexpr (F == Fam::LIST)
                {
                    if (g_rng.chance(1, 2))
                        removed = LIB(c.remove(t));
                    else
                        removed = LIB(erase(c, t));
                }
                else
                    removed = LIB(erase(c, t));
                erase_if_model(m, removed, [&](int x) { return x == v; });
                return true;
            }
            return false;
        case 22:  // erase_if
            if constexpr (AS)
            {
                const int mod = 2 + static_cast<int>(g_rng.below(4));
                const int rem = static_cast<int>(g_rng.below(static_cast<std::size_t>(mod)));
                trace("erase_if(%%%d==%d)", mod, rem);
                std::size_t calls = 0;
                const std::size_t had = c.size();
                auto pred = [=, &calls](const T& x)
                {
                    ++calls;
                    return val(x) % mod == rem;
                };
                std::size_t removed;
                if constexpr (F == Fam::LIST)
                {
                    if (g_rng.chance(1, 2))
                        removed = LIB(c.remove_if(pred));
                    else
                        removed = LIB(erase_if(c, pred));
                }
                else
                    removed = LIB(erase_if(c, pred));
                VF_CHECK("MODEL", calls == had, "erase_if called the predicate %zu times for %zu elements", calls, had);
                erase_if_model(m, removed, [&](int x) { return x % mod == rem; });
                return true;
            }
            return false;
        case 23:  // resize
            if constexpr (CP && DEF)
            {
                const std::size_t n = g_rng.below(some(N, sz + 6) + 1);
                trace("resize(%zu)", n);
                LIB(c.resize(n));
                resize_model(m, n, 0);
                return true;
            }
            return false;
        case 24:
            if constexpr (CP)
            {
                const std::size_t n = g_rng.below(some(N, sz + 6) + 1);
                const T t(v);
                trace("resize(%zu,%d)", n, v);
                LIB(c.resize(n, t));
                resize_model(m, n, v);
                return true;
            }
            return false;
        case 25:  // assign n
            if constexpr (CP)
            {
                const std::size_t n = g_rng.below((CIRC ? N + 3 : N) + 1);
                const T t(v);
                trace("assign(%zu,%d)", n, v);
                LIB(c.assign(n, t));
                assign_model(m, std::vector<int>(std::min(n, N), v));
                return true;
            }
            return false;
        case 26:  // assign forward range
        case 27:  // assign input range
        case 28:  // assign il
            if constexpr (AS)
            {
                if (N == 0 && CIRC)
                    return false;
                std::size_t n = g_rng.below((CIRC ? N + 3 : N) + 1);
                if (op == 28)
                    n = std::min<std::size_t>(n, 2);
                const auto vs = rnd_values(n);
                trace("assign(range%d n=%zu)", op - 26, n);
                if (op == 27)
                {
                    typename InputIt<T>::Src src{vs.data(), vs.data() + vs.size()};
                    LIB(c.assign(InputIt<T>(&src), InputIt<T>()));
                }
                else if constexpr (CP)
                {
                    auto ts = make_values(vs);
                    if (op == 26)
                    {
                        if (g_rng.chance(1, 2))
                            LIB(c.assign(ts.begin(), ts.end()));
                        else
                        {
                            std::list<T> l(ts.begin(), ts.end());
                            LIB(c.assign(l.begin(), l.end()));
                        }
                    }
                    else if (n == 0)
                        LIB(c.assign(std::initializer_list<T>{}));
                    else if (n == 1)
                        LIB(c.assign({T(vs[0])}));
                    else
                        LIB(c.assign({T(vs[0]), T(vs[1])}));
                }
                else
                {
                    std::vector<T> ts;
                    for (int x : vs)
                        ts.emplace_back(x);
                    LIB(c.assign(std::make_move_iterator(ts.begin()), std::make_move_iterator(ts.end())));
                }
                std::vector<int> w = vs;
                if (CIRC && w.size() > N)
                    w.erase(w.begin(), w.begin() + static_cast<std::ptrdiff_t>(w.size() - N));
                assign_model(m, w);
                return true;
            }
            return false;
        case 29:
            if (!g_rng.chance(1, 8))
                return false;
            trace("clear");
            LIB(c.clear());
            m.clear();
            return true;
        case 30:  // write through an accessor
            if constexpr (AS)
            {
                if (sz == 0)
                    return false;
                const std::size_t p = g_rng.below(sz);
                trace("write(@%zu,%d)", p, v);
                T t(v);
                const unsigned how = static_cast<unsigned>(g_rng.below(4));
                if (how == 0)
                    *std::next(c.begin(), static_cast<std::ptrdiff_t>(p)) = std::move(t);
                else if (how == 1)
                    *std::next(c.rbegin(), static_cast<std::ptrdiff_t>(sz - 1 - p)) = std::move(t);
                else if constexpr (RANDOM)
                {
                    if (how == 2)
                        c[p] = std::move(t);
                    else
                        c.at(p) = std::move(t);
                }
                else
                    *std::prev(c.end(), static_cast<std::ptrdiff_t>(sz - p)) = std::move(t);
                m[p].v = v;
                return true;
            }
            return false;
        case 31:
            if constexpr (F == Fam::VECTOR)
            {
                const std::size_t n = g_rng.below(N + 1);
                trace("reserve(%zu)", n);
                LIB(c.reserve(n));
                return true;
            }
            return false;
        case 32:  // algorithms through iterators
            if constexpr (AS && RANDOM)
            {
                if (g_rng.chance(2, 3))
                    return false;
                trace("sort/reverse");
                auto vs = values(m);
                if (v % 2)
                {
                    std::sort(c.begin(), c.end(), [](const T& x, const T& y) { return val(x) < val(y); });
                    std::sort(vs.begin(), vs.end());
                }
                else
                {
                    std::reverse(c.begin(), c.end());
                    std::reverse(vs.begin(), vs.end());
                }
                for (std::size_t i = 0; i < vs.size(); i++)
                    m[i].v = vs[i];
                raise_pending();
                return true;
            }
            return false;
        case 33:  // emplace at both ends of a run
        {
            if (!can_add)
                return false;
            const std::size_t p = g_rng.chance(1, 2) ? 0 : sz;
            trace("emplace(@%zu end,%d)", p, v);
            auto it = LIB(c.emplace(pos_c(c, p), v));
            ret(b, it, model_insert(m, p, {v}), "emplace");
            return true;
        }
        default: return false;
        }
    }
    static void push_back_model(Model& m, int v)
    {
        if (CIRC && m.size() == N)
            m.erase(m.begin());
        invalidate(m, Where::ENDS, 0);
        m.push_back(Ent{v, nullptr});
    }
    static void push_front_model(Model& m, int v)
    {
        if (CIRC && m.size() == N)
            m.pop_back();
        invalidate(m, Where::ENDS, 0);
        m.insert(m.begin(), Ent{v, nullptr});
    }
    static void resize_model(Model& m, std::size_t n, int v)
    {
        invalidate(m, Where::ENDS, 0);
        if (n < m.size())
            m.erase(m.begin() + static_cast<std::ptrdiff_t>(n), m.end());
        while (m.size() < n)
            m.push_back(Ent{v, nullptr});
    }
    static void assign_model(Model& m, const std::vector<int>& vs)
    {
        m.clear();
        for (int v : vs)
            m.push_back(Ent{v, nullptr});
    }
    template <class P>
    static void erase_if_model(Model& m, std::size_t removed, P p)
    {
        std::size_t expect = 0;
        std::size_t first = m.size();
        for (std::size_t i = 0; i < m.size(); i++)
            if (p(m[i].v))
            {
                expect++;
                first = std::min(first, i);
            }
        VF_CHECK("MODEL", removed == expect, "erase/erase_if returned %zu, expected %zu", removed, expect);
        if (expect)
            invalidate(m, Where::MIDDLE, first);
        std::erase_if(m, [&](const Ent& e) { return p(e.v); });
    }

    // ---------------------------------------------------------- construction of a starting state
    // brings the container to `n` elements with a rotated internal layout
    static void seed_state(Box<C>& b, Model& m, std::size_t n, std::size_t rot)
    {
        C& c = *b;
        if constexpr (N > 0)
        {
            if constexpr (F == Fam::LIST)
            {
                // scramble the free list: fill, remove in random order, refill
                for (std::size_t i = 0; i < rot && i < N; i++)
                {
                    c.emplace_back(1);
                }
                while (!c.empty())
                {
                    if (g_rng.chance(1, 2))
                        c.pop_front();
                    else
                        c.pop_back();
                    if (g_rng.chance(1, 4))
                        c.emplace_front(2);
                    if (g_rng.chance(1, 4) && !c.empty())
                        c.pop_back();
                }
            }
            else if constexpr (FRONT)
            {
                for (std::size_t i = 0; i < rot; i++)
                {
                    if (rot % 2)
                    {
                        c.emplace_back(1);
                        c.pop_front();
                    }
                    else
                    {
                        c.emplace_front(1);
                        c.pop_back();
                    }
                }
            }
            for (std::size_t i = 0; i < n; i++)
            {
                const int v = rnd();
                c.emplace_back(v);
                m.push_back(Ent{v, nullptr});
            }
        }
        raise_pending();
        trace("seed(n=%zu,rot=%zu)", n, rot);
    }

    // ---------------------------------------------------------- suite: model
    static void suite_model(std::size_t cases, std::size_t ops)
    {
        g_alloc_monitor_on = !El<T>::allocates;
        cases = n_cases(cases);
        for (std::size_t k = 0; k < cases; k++)
        {
            const std::size_t profile = g_rng.below(5);
            run_case("model profile=" + std::to_string(profile) + " N=" + std::to_string(N),
                     [&]
                     {
                         Box<C> b;
                         Model m;
                         verify(b, m);
                         seed_state(b, m, g_rng.below(N + 1), g_rng.below(2 * N + 3));
                         verify(b, m);
                         const std::size_t nops = 1 + g_rng.below(ops);
                         for (std::size_t i = 0; i < nops; i++)
                         {
                             int op = static_cast<int>(g_rng.below(N_OPS));
                             // profiles bias the mix
                             if (profile == 1 && g_rng.chance(1, 2))  // churn at the ends
                             {
                                 static const int e[] = {0, 1, 2, 3, 4, 5, 6, 7, 3, 7};
                                 op = e[g_rng.below(10)];
                             }
                             else if (profile == 2 && m.size() * 2 < N)  // stay near full
                             {
                                 static const int e[] = {0, 2, 4, 6, 8, 9, 10, 11, 13, 14};
                                 op = e[g_rng.below(10)];
                             }
                             else if (profile == 3 && g_rng.chance(2, 3))  // middle heavy
                             {
                                 static const int e[] = {8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 17, 19, 19, 20};
                                 op = e[g_rng.below(14)];
                             }
                             const std::size_t before = m.size();
                             if (step(b, m, op))
                             {
                                 cover(mix(mix(static_cast<std::uint64_t>(op) + 1000, before), m.size()));
                                 raise_pending();
                                 if (N <= 64 || g_rng.chance(1, 4) || i + 1 == nops)
                                     verify(b, m);
                                 else
                                     VF_CHECK("MODEL", b->size() == m.size(), "size() is %zu, expected %zu", b->size(), m.size());
                             }
                         }
                         b.destroy(TRACKED);
                     });
        }
        // systematic grid: every (start layout, size, position) x every op, small capacities
        if constexpr (N <= 8)
        {
            const std::size_t reps = g_thorough ? 3 : 1;
            for (std::size_t rep = 0; rep < reps; rep++)
                for (std::size_t rot = 0; rot <= (FRONT ? 2 * N + 1 : 0); rot++)
                    for (std::size_t n = 0; n <= N; n++)
                        for (int op = 0; op < N_OPS; op++)
                            for (int again = 0; again < (N <= 4 ? 3 : 2); again++)
                                run_case("grid N=" + std::to_string(N),
                                         [&]
                                         {
                                             Box<C> b;
                                             Model m;
                                             seed_state(b, m, n, rot);
                                             if (step(b, m, op))
                                             {
                                                 cover(mix(mix(mix(static_cast<std::uint64_t>(op) + 5000, n), rot), m.size()));
                                                 verify(b, m);
                                                 // and one more arbitrary op from the resulting state
                                                 if (step(b, m, static_cast<int>(g_rng.below(N_OPS))))
                                                     verify(b, m);
                                             }
                                             b.destroy(TRACKED);
                                         });
        }
    }

    // ---------------------------------------------------------- suite: ctor (all constructors)
    static void suite_ctor(std::size_t cases)
    {
        g_alloc_monitor_on = !El<T>::allocates;
        cases = n_cases(cases);
        for (std::size_t k = 0; k < cases; k++)
            run_case("ctor N=" + std::to_string(N),
                     [&]
                     {
                         const std::size_t lim = (CIRC ? N + (N > 0 ? 4 : 0) : N);
                         const std::size_t n = g_rng.below(lim + 1);
                         const auto vs = rnd_values(n);
                         Model m;
                         auto keep_last = [&](const std::vector<int>& all)
                         {
                             m.clear();
                             for (std::size_t i = all.size() > N ? all.size() - N : 0; i < all.size(); i++)
                                 m.push_back(Ent{all[i], nullptr});
                         };
                         const int v = rnd();
                         const std::size_t which = g_rng.below(7);
                         trace("ctor%zu n=%zu", which, n);
                         if (which == 0)
                         {
                             if constexpr (CP)
                             {
                                 const T t(v);
                                 Box<C> b(std::in_place, n, t);
                                 m.assign(std::min(n, N), Ent{v, nullptr});
                                 verify(b, m);
                             }
                         }
                         else if (which == 1)
                         {
                             if constexpr (CP && DEF)
                             {
                                 Box<C> b(std::in_place, n);
                                 m.assign(std::min(n, N), Ent{0, nullptr});
                                 verify(b, m);
                             }
                         }
                         else if (which == 2)
                         {
                             if constexpr (CP && AS)
                             {
                                 auto ts = make_values(vs);
                                 Box<C> b(std::in_place, ts.begin(), ts.end());
                                 keep_last(vs);
                                 verify(b, m);
                             }
                         }
                         else if (which == 3)
                         {
                             if constexpr (AS)
                             {
                                 typename InputIt<T>::Src src{vs.data(), vs.data() + vs.size()};
                                 Box<C> b(std::in_place, InputIt<T>(&src), InputIt<T>());
                                 keep_last(vs);
                                 verify(b, m);
                             }
                         }
                         else if (which == 4)
                         {
                             if constexpr (CP && AS)
                             {
                                 std::list<T> l;
                                 for (int x : vs)
                                     l.emplace_back(x);
                                 Box<C> b(std::in_place, l.begin(), l.end());
                                 keep_last(vs);
                                 verify(b, m);
                             }
                         }
                         else if (which == 5)
                         {
                             if constexpr (CP && AS && N >= 3)
                             {
                                 const int a = rnd(), c2 = rnd(), d = rnd();
                                 Box<C> b([&] { return C{T(a), T(c2), T(d)}; });
                                 keep_last({a, c2, d});
                                 verify(b, m);
                             }
                         }
                         else
                         {
                             if constexpr (AS)
                             {
                                 std::vector<T> ts;
                                 for (int x : vs)
                                     ts.emplace_back(x);
                                 Box<C> b(std::in_place, std::make_move_iterator(ts.begin()), std::make_move_iterator(ts.end()));
                                 keep_last(vs);
                                 verify(b, m);
                             }
                         }
                     });
    }

    // ---------------------------------------------------------- suite: value semantics
    static void fill(Box<C>& b, Model& m, std::size_t n) { seed_state(b, m, n, g_rng.below(2 * N + 2)); }
    static void forget(Model& m)
    {
        for (auto& e : m)
            e.a = nullptr;
    }
    // a moved-from container must be consistent and reusable
    static void reuse(Box<C>& b)
    {
        C& c = *b;
        if constexpr (TRACKED)
            VF_CHECK("LIFE", b.live() == static_cast<long>(c.size()), "moved-from container: %ld live elements, size() %zu", b.live(), c.size());
        VF_CHECK("VALUE", c.size() <= N, "moved-from container reports size %zu > capacity", c.size());
        trace("reuse moved-from");
        Model m;
        if (g_rng.chance(1, 2))
        {
            LIB(c.clear());
        }
        else if constexpr (AS)
        {
            std::vector<T> ts;
            const std::size_t n = g_rng.below(N + 1);
            for (std::size_t i = 0; i < n; i++)
            {
                ts.emplace_back(static_cast<int>(i));
                m.push_back(Ent{static_cast<int>(i), nullptr});
            }
            LIB(c.assign(std::make_move_iterator(ts.begin()), std::make_move_iterator(ts.end())));
        }
        else
            LIB(c.clear());
        verify(b, m, "VALUE");
        for (int i = 0; i < 4; i++)
            if (step(b, m, static_cast<int>(g_rng.below(N_OPS))))
                verify(b, m, "VALUE");
    }
    static void suite_value(std::size_t cases)
    {
        g_alloc_monitor_on = !El<T>::allocates;
        cases = n_cases(cases);
        for (std::size_t k = 0; k < cases; k++)
            run_case("value N=" + std::to_string(N),
                     [&]
                     {
                         Box<C> a;
                         Model ma;
                         const std::size_t na = g_rng.below(N + 1);
                         fill(a, ma, na);
                         verify(a, ma, "VALUE");
                         const std::size_t which = g_rng.below(8);
                         cover(mix(mix(9000 + which, na), N));
                         switch (which)
                         {
                         case 0:  // copy construct
                             if constexpr (CP)
                             {
                                 trace("copy ctor");
                                 const C& ca = *a;
                                 Box<C> b(std::in_place, ca);
                                 Model mb = ma;
                                 forget(mb);
                                 verify(b, mb, "VALUE");
                                 verify(a, ma, "VALUE");
                                 mutate(b, mb);
                                 verify(a, ma, "VALUE");
                                 mutate(a, ma);
                                 verify(b, mb, "VALUE");
                             }
                             break;
                         case 1:  // move construct
                         {
                             trace("move ctor");
                             Box<C> b(std::in_place, std::move(*a));
                             forget(ma);
                             verify(b, ma, "VALUE");
                             reuse(a);
                             verify(b, ma, "VALUE");
                             mutate(b, ma);
                             break;
                         }
                         case 2:  // copy assign
                             if constexpr (CP && AS)
                             {
                                 Box<C> b;
                                 Model mb;
                                 fill(b, mb, g_rng.below(N + 1));
                                 trace("copy assign %zu <- %zu", mb.size(), ma.size());
                                 const C& ca = *a;
                                 C& r = LIB((*b) = ca);
                                 VF_CHECK("VALUE", &r == b.p, "operator= returned another object");
                                 mb = ma;
                                 forget(mb);
                                 verify(b, mb, "VALUE");
                                 verify(a, ma, "VALUE");
                                 mutate(b, mb);
                                 verify(a, ma, "VALUE");
                             }
                             break;
                         case 3:  // move assign
                             if constexpr (AS)
                             {
                                 Box<C> b;
                                 Model mb;
                                 fill(b, mb, g_rng.below(N + 1));
                                 trace("move assign %zu <- %zu", mb.size(), ma.size());
                                 C& r = LIB((*b) = std::move(*a));
                                 VF_CHECK("VALUE", &r == b.p, "operator= returned another object");
                                 mb = ma;
                                 forget(mb);
                                 verify(b, mb, "VALUE");
                                 reuse(a);
                                 verify(b, mb, "VALUE");
                                 mutate(b, mb);
                             }
                             break;
                         case 4:  // self assignment
                             if constexpr (CP && AS)
                             {
                                 trace("self copy assign");
                                 C& alias = *a;
                                 LIB(*a = alias);
                                 forget(ma);
                                 verify(a, ma, "VALUE");
                             }
                             if constexpr (AS)
                             {
                                 trace("self move assign");
                                 C& alias = *a;
                                 LIB(*a = std::move(alias));
                                 forget(ma);
                                 verify(a, ma, "VALUE");
                                 mutate(a, ma);
                             }
                             break;
                         case 5:  // swap
                             if constexpr (AS)
                             {
                                 Box<C> b;
                                 Model mb;
                                 fill(b, mb, g_rng.below(N + 1));
                                 trace("swap %zu <-> %zu", ma.size(), mb.size());
                                 {
                                     using std::swap;
                                     LIB(swap(*a, *b));
                                 }
                                 std::swap(ma, mb);
                                 forget(ma);
                                 forget(mb);
                                 verify(a, ma, "VALUE");
                                 verify(b, mb, "VALUE");
                                 mutate(a, ma);
                                 verify(b, mb, "VALUE");
                             }
                             break;
                         default:  // chains of copies/moves
                             if constexpr (CP && AS)
                             {
                                 Box<C> b;
                                 Model mb;
                                 fill(b, mb, g_rng.below(N + 1));
                                 for (int i = 0; i < 6; i++)
                                 {
                                     trace("chain");
                                     if (g_rng.chance(1, 2))
                                     {
                                         LIB(*a = std::as_const(*b));
                                         ma = mb;
                                         forget(ma);
                                     }
                                     else
                                     {
                                         Box<C> t(std::in_place, std::as_const(*a));
                                         LIB(*b = std::move(*t));
                                         mb = ma;
                                         forget(mb);
                                     }
                                     mutate(a, ma);
                                     verify(b, mb, "VALUE");
                                     mutate(b, mb);
                                     verify(a, ma, "VALUE");
                                 }
                             }
                             break;
                         }
                     });
    }
    static void mutate(Box<C>& b, Model& m)
    {
        for (int i = 0; i < 3; i++)
            if (step(b, m, static_cast<int>(g_rng.below(N_OPS))))
                verify(b, m, "VALUE");
    }

    // equality and ordering, same and different capacity
    template <class C2, std::size_t N2>
    static void suite_compare(std::size_t cases)
    {
        g_alloc_monitor_on = !El<T>::allocates;
        cases = n_cases(cases);
        for (std::size_t k = 0; k < cases; k++)
            run_case("compare N=" + std::to_string(N) + " N2=" + std::to_string(N2),
                     [&]
                     {
                         Box<C> a;
                         Box<C2> b;
                         Model ma, mb;
                         seed_state(a, ma, g_rng.below(std::min(N, N2) + 1), g_rng.below(2 * N + 2));
                         Seq<F, C2, T, N2>::seed_state(b, mb, 0, g_rng.below(2 * N2 + 2));
                         std::vector<int> vb = values(ma);
                         const std::size_t how = g_rng.below(5);
                         if (how == 1 && !vb.empty())
                             vb[g_rng.below(vb.size())] += static_cast<int>(g_rng.below(3)) - 1;
                         if (how == 2 && !vb.empty())
                             vb.pop_back();
                         if (how == 3 && vb.size() < N2)
                             vb.push_back(rnd());
                         if (how == 4)
                             vb = rnd_values(g_rng.below(N2 + 1));
                         for (int v : vb)
                             b->emplace_back(v);
                         const auto va = values(ma);
                         trace("compare %zu vs %zu how=%zu", va.size(), vb.size(), how);
                         const C& ca = *a;
                         const C2& cb = *b;
                         VF_CHECK("VALUE", LIB(ca == cb) == (va == vb), "operator== wrong");
                         VF_CHECK("VALUE", LIB(ca != cb) == (va != vb), "operator!= wrong");
                         VF_CHECK("VALUE", LIB(cb == ca) == (va == vb), "operator== not symmetric");
                         VF_CHECK("VALUE", LIB(ca < cb) == (va < vb), "operator< wrong");
                         VF_CHECK("VALUE", LIB(ca <= cb) == (va <= vb), "operator<= wrong");
                         VF_CHECK("VALUE", LIB(ca > cb) == (va > vb), "operator> wrong");
                         VF_CHECK("VALUE", LIB(ca >= cb) == (va >= vb), "operator>= wrong");
                         VF_CHECK("VALUE", LIB((ca <=> cb)) == (va <=> vb), "operator<=> wrong");
                         VF_CHECK("VALUE", (ca == ca) && !(ca < ca), "self comparison wrong");
                         cover(mix(mix(mix(7777, how), va.size()), vb.size()));
                     });
    }

    // ---------------------------------------------------------- suite: iterators
    static void suite_iter(std::size_t cases)
    {
        g_alloc_monitor_on = !El<T>::allocates;
        cases = n_cases(cases);
        for (std::size_t k = 0; k < cases; k++)
            run_case("iter N=" + std::to_string(N),
                     [&]
                     {
                         Box<C> b;
                         Model m;
                         fill(b, m, k < N + 1 ? k : g_rng.below(N + 1));
                         verify(b, m, "ITER");
                         iter_laws<typename C::iterator, typename C::const_iterator>(
                             b->begin(), b->end(), b->cbegin(), b->cend(), m, false);
                         std::reverse(m.begin(), m.end());
                         iter_laws<typename C::reverse_iterator, typename C::const_reverse_iterator>(
                             b->rbegin(), b->rend(), b->crbegin(), b->crend(), m, true);
                         std::reverse(m.begin(), m.end());
                         // base() of reverse iterators
                         auto r = b->rbegin();
                         auto f = b->end();
                         for (std::size_t i = 0; i <= m.size(); i++)
                         {
                             VF_CHECK("ITER", r.base() == f, "reverse_iterator.base() wrong after %zu steps", i);
                             if (i < m.size())
                             {
                                 ++r;
                                 --f;
                             }
                         }
                         const C& cc = *b;
                         auto cr = cc.rbegin();
                         auto cf = cc.end();
                         for (std::size_t i = 0; i <= m.size(); i++)
                         {
                             VF_CHECK("ITER", cr.base() == cf, "const_reverse_iterator.base() wrong after %zu steps", i);
                             if (i < m.size())
                             {
                                 ++cr;
                                 --cf;
                             }
                         }
                         VF_CHECK("ITER", cc.begin() == b->cbegin() && cc.end() == b->cend() && cc.rbegin() == b->crbegin() && cc.rend() == b->crend(), "const begin/end differ from cbegin/cend");
                         cover(mix(mix(4242, m.size()), N));
                     });
    }
    template <class It, class CIt>
    static void iter_laws(It first, It last, CIt cfirst, CIt clast, const Model& m, bool rev)
    {
        const char* d = rev ? "reverse" : "forward";
        const auto n = static_cast<std::ptrdiff_t>(m.size());
        VF_CHECK("ITER", std::bidirectional_iterator<It> && std::bidirectional_iterator<CIt>, "%s iterator does not model bidirectional_iterator", d);
        if constexpr (RANDOM)
            VF_CHECK("ITER", std::random_access_iterator<It> && std::random_access_iterator<CIt>, "%s iterator does not model random_access_iterator", d);
        VF_CHECK("ITER", (std::is_same_v<decltype(*first), T&>)&&(std::is_same_v<decltype(*cfirst), const T&>), "%s: reference types wrong", d);
        VF_CHECK("ITER", (std::is_convertible_v<It, CIt>)&&!(std::is_convertible_v<CIt, It>), "%s: iterator/const_iterator conversions wrong", d);
        VF_CHECK("ITER", std::distance(first, last) == n && std::distance(cfirst, clast) == n, "%s: distance(begin,end) wrong", d);
        // forward walk: pre/post increment, arrow, conversion
        It a = first;
        CIt ca = cfirst;
        for (std::ptrdiff_t i = 0; i < n; i++)
        {
            VF_CHECK("ITER", a != last && !(a == last), "%s: reached end early at %td", d, i);
            VF_CHECK("ITER", addr(*a) == m[static_cast<std::size_t>(i)].a, "%s: step %td dereferences another element", d, i);
            VF_CHECK("ITER", addr(*ca) == m[static_cast<std::size_t>(i)].a, "%s const: step %td dereferences another element", d, i);
            const CIt conv = a;
            VF_CHECK("ITER", addr(*conv) == m[static_cast<std::size_t>(i)].a, "%s: iterator converted to const_iterator refers to another element (step %td)", d, i);
            VF_CHECK("ITER", conv == ca && ca == conv, "%s: converted iterator differs from const_iterator at the same position %td", d, i);
            CIt asg = clast;
            asg = a;
            VF_CHECK("ITER", asg == ca, "%s: assignment iterator->const_iterator wrong at %td", d, i);
            VF_CHECK("ITER", a == ca && !(a != ca), "%s: mixed comparison wrong at %td", d, i);
            if constexpr (!std::is_integral_v<T> && !std::is_same_v<T, Heavy>)
                VF_CHECK("ITER", addr(a->v) == addr((*a).v) && addr(ca->v) == addr((*ca).v), "%s: operator-> wrong", d);
            It post = a++;
            VF_CHECK("ITER", addr(*post) == m[static_cast<std::size_t>(i)].a, "%s: post-increment returned the wrong position", d);
            CIt& pre = ++ca;
            VF_CHECK("ITER", &pre == &ca, "%s: pre-increment does not return itself", d);
            if (i + 1 < n)
            {
                It copy = a;
                It back = copy--;
                VF_CHECK("ITER", back == a && addr(*copy) == m[static_cast<std::size_t>(i)].a, "%s: post-decrement wrong", d);
                VF_CHECK("ITER", ++copy == a, "%s: ++/-- do not cancel", d);
            }
        }
        VF_CHECK("ITER", a == last && ca == clast && ca == last, "%s: did not reach end", d);
        for (std::ptrdiff_t i = n; i-- > 0;)
        {
            It& pre = --a;
            VF_CHECK("ITER", &pre == &a && addr(*a) == m[static_cast<std::size_t>(i)].a, "%s: backward step %td wrong", d, i);
            CIt post = ca--;
            VF_CHECK("ITER", i + 1 == n ? post == clast : addr(*post) == m[static_cast<std::size_t>(i + 1)].a, "%s: backward post-decrement wrong", d);
            VF_CHECK("ITER", addr(*ca) == m[static_cast<std::size_t>(i)].a, "%s const: backward step wrong", d);
        }
        VF_CHECK("ITER", a == first && ca == cfirst, "%s: did not return to begin", d);
        // default construction and copies
        {
            It x{};
            It y{};
            VF_CHECK("ITER", x == y, "%s: value-initialised iterators differ", d);
            x = first;
            VF_CHECK("ITER", x == first, "%s: assignment to a default iterator wrong", d);
            CIt z{};
            z = cfirst;
            VF_CHECK("ITER", z == cfirst, "%s: assignment to a default const_iterator wrong", d);
        }
        if constexpr (RANDOM)
        {
            const std::ptrdiff_t lim = n <= 20 ? n : 20;
            for (std::ptrdiff_t ii = 0; ii <= lim; ii++)
                for (std::ptrdiff_t jj = 0; jj <= lim; jj++)
                {
                    const std::ptrdiff_t i = n <= 20 ? ii : static_cast<std::ptrdiff_t>(g_rng.below(static_cast<std::size_t>(n + 1)));
                    const std::ptrdiff_t j = n <= 20 ? jj : static_cast<std::ptrdiff_t>(g_rng.below(static_cast<std::size_t>(n + 1)));
                    It x = first + i;
                    CIt y = cfirst + j;
                    It y2 = first;
                    y2 += j;
                    VF_CHECK("ITER", x - y == i - j && y - x == j - i && x - y2 == i - j && last - x == n - i, "%s: difference of positions %td and %td wrong", d, i, j);
                    VF_CHECK("ITER", (x < y) == (i < j) && (x <= y) == (i <= j) && (x > y) == (i > j) && (x >= y) == (i >= j) && (x == y) == (i == j) && (x != y) == (i != j), "%s: ordering of positions %td and %td wrong", d, i, j);
                    VF_CHECK("ITER", ((x <=> y2) == (i <=> j)), "%s: <=> of positions %td and %td wrong", d, i, j);
                    It w = x + (j - i);
                    VF_CHECK("ITER", w == y2 && (j - i) + x == w && w - (j - i) == x, "%s: arithmetic between %td and %td wrong", d, i, j);
                    CIt u = y;
                    u -= (j - i);
                    VF_CHECK("ITER", u == x, "%s: -= wrong between %td and %td", d, i, j);
                    if (j < n)
                    {
                        VF_CHECK("ITER", addr(x[j - i]) == m[static_cast<std::size_t>(j)].a, "%s: operator[] wrong (%td from %td)", d, j - i, i);
                        VF_CHECK("ITER", addr(*w) == m[static_cast<std::size_t>(j)].a, "%s: dereference after arithmetic wrong (%td -> %td)", d, i, j);
                        VF_CHECK("ITER", addr((cfirst + i)[j - i]) == m[static_cast<std::size_t>(j)].a, "%s const: operator[] wrong", d);
                    }
                }
        }
    }

    // ---------------------------------------------------------- suite: aliasing arguments
    static void suite_alias(std::size_t cases)
    {
        g_alloc_monitor_on = !El<T>::allocates;
        if constexpr (CP && AS && N > 0)
        {
            cases = n_cases(cases);
            for (std::size_t k = 0; k < cases; k++)
                run_case("alias N=" + std::to_string(N),
                         [&]
                         {
                             Box<C> b;
                             Model m;
                             const std::size_t n = 1 + g_rng.below(N);
                             fill(b, m, n);
                             verify(b, m, "ALIAS");
                             C& c = *b;
                             const bool can_add = CIRC || n < N;
                             const std::size_t i = g_rng.below(n);
                             const std::size_t pos = g_rng.below(n + 1);
                             const T& e = *std::next(c.begin(), static_cast<std::ptrdiff_t>(i));
                             const int v = m[i].v;
                             const std::size_t which = g_rng.below(10);
                             trace("alias op%zu elem=%zu pos=%zu n=%zu", which, i, pos, n);
                             cover(mix(mix(mix(mix(31, which), i), pos), n));
                             switch (which)
                             {
                             case 0:
                                 if (!can_add)
                                     return;
                                 LIB(c.push_back(e));
                                 push_back_model(m, v);
                                 break;
                             case 1:
                                 if (!can_add)
                                     return;
                                 LIB(c.emplace_back(e));
                                 push_back_model(m, v);
                                 break;
                             case 2:
                                 if constexpr (FRONT)
                                 {
                                     if (!can_add)
                                         return;
                                     LIB(c.push_front(e));
                                     push_front_model(m, v);
                                 }
                                 break;
                             case 3:
                                 if constexpr (FRONT)
                                 {
                                     if (!can_add)
                                         return;
                                     LIB(c.emplace_front(e));
                                     push_front_model(m, v);
                                 }
                                 break;
                             case 4:
                             {
                                 if (!can_add)
                                     return;
                                 auto it = LIB(c.insert(pos_c(c, pos), e));
                                 ret(b, it, model_insert(m, pos, {v}), "insert(alias)");
                                 break;
                             }
                             case 5:
                             {
                                 if (!can_add)
                                     return;
                                 auto it = LIB(c.emplace(pos_c(c, pos), e));
                                 ret(b, it, model_insert(m, pos, {v}), "emplace(alias)");
                                 break;
                             }
                             case 6:
                             {
                                 const std::size_t cnt = g_rng.below(N + 1);
                                 LIB(c.resize(cnt, e));
                                 resize_model(m, cnt, v);
                                 break;
                             }
                             case 8:
                                 if constexpr (F == Fam::LIST)
                                 {
                                     const std::size_t removed = LIB(c.remove(e));
                                     erase_if_model(m, removed, [&](int x) { return x == v; });
                                 }
                                 break;
                             default:  // value copied out first must equal the aliased call
                                 if (!can_add)
                                     return;
                                 LIB(c.insert(pos_c(c, pos), T(e)));
                                 model_insert(m, pos, {v});
                                 break;
                             }
                             verify(b, m, "ALIAS");
                             if (step(b, m, static_cast<int>(g_rng.below(N_OPS))))
                                 verify(b, m, "ALIAS");
                         });
        }
    }

    // ---------------------------------------------------------- suite: relocation of the bytes
    static void suite_reloc(std::size_t cases, std::size_t ops)
    {
        g_alloc_monitor_on = !El<T>::allocates;
        if constexpr (std::is_trivially_copyable_v<C>)
        {
            cases = n_cases(cases);
            for (std::size_t k = 0; k < cases; k++)
                run_case("reloc N=" + std::to_string(N),
                         [&]
                         {
                             void* cur = Box<C>::raw_alloc();
                             Box<C> b;
                             Model m;
                             fill(b, m, g_rng.below(N + 1));
                             free(cur);
                             for (std::size_t i = 0; i < ops; i++)
                             {
                                 if (i % 3 == 0)
                                 {
                                     trace("relocate");
                                     void* to = Box<C>::raw_alloc();
                                     memcpy(to, static_cast<void*>(b.p), sizeof(C));
                                     memset(static_cast<void*>(b.p), 0xCD, sizeof(C));
                                     free(b.p);
                                     b.p = static_cast<C*>(to);
                                     forget(m);
                                     verify(b, m, "RELOC");
                                 }
                                 if (step(b, m, static_cast<int>(g_rng.below(N_OPS))))
                                     verify(b, m, "RELOC");
                             }
                         });
        }
    }

    // ---------------------------------------------------------- suite: precondition violations
    // C is instantiated with the recording Checking policy; T is trivially destructible here, so
    // leaving through siglongjmp is harmless.
    template <class Fn>
    static void expect(Box<C>& b, Model& m, const char* what, Hit h, long long a, long long bb, bool loc, Fn&& fn)
    {
        trace("%s", what);
        const HitInfo hi = catch_hit(fn);
        VF_CHECK("CHECK", hi.hit != Hit::NONE, "%s: violated precondition was not reported (size %zu)", what, m.size());
        VF_CHECK("CHECK", hi.hit == h, "%s: reported %s, expected %s", what, hit_name(hi.hit), hit_name(h));
        if (a >= 0)
            VF_CHECK("CHECK", hi.a == static_cast<std::size_t>(a), "%s: handler received %zu, expected %lld", what, hi.a, a);
        if (bb >= 0)
            VF_CHECK("CHECK", hi.b == static_cast<std::size_t>(bb), "%s: handler received size %zu, expected %lld", what, hi.b, bb);
        if (loc)
            VF_CHECK("CHECK", strstr(hi.file, "seq.hpp") != nullptr, "%s: source location is %s, not the call site", what, hi.file);
        cover(mix(hash_str(what), m.size()));
        forget_if_needed(m);
        verify(b, m, "CHECK");
    }
    static void forget_if_needed(Model&) {}
    static const volatile char* touch(const T& t) { return reinterpret_cast<const volatile char*>(std::addressof(t)); }
    // the reported source location is the caller's
    static void here(const HitInfo& hi, const char* what)
    {
        if (hi.hit != Hit::NONE)
            VF_CHECK("CHECK", strstr(hi.file, "seq.hpp") != nullptr, "%s: source location is %s, not the call site", what, hi.file);
    }

    static void suite_check(std::size_t cases)
    {
        g_alloc_monitor_on = false;
        cases = n_cases(cases);
        for (std::size_t k = 0; k < cases; k++)
            run_case("check N=" + std::to_string(N),
                     [&]
                     {
                         Box<C> b;
                         Model m;
                         const std::size_t n = g_rng.chance(1, 3) ? N : g_rng.chance(1, 3) ? 0 : g_rng.below(N + 1);
                         fill(b, m, n);
                         verify(b, m, "CHECK");
                         C& c = *b;
                         const C& cc = c;
                         const T t(7);
                         const auto LN = static_cast<long long>(n);
                         if constexpr (F != Fam::VECTOR)
                         {
                             // positions without an element, and positions of two different containers
                             expect(b, m, "*end()", Hit::ABORT, -1, -1, false, [&] { (void)touch(*c.end()); });
                             expect(b, m, "*cend()", Hit::ABORT, -1, -1, false, [&] { (void)touch(*cc.cend()); });
                             expect(b, m, "*rend()", Hit::ABORT, -1, -1, false, [&] { (void)touch(*c.rend()); });
                             Box<C> other_box;
                             Model mo;
                             fill(other_box, mo, n);
                             C& other = *other_box;
                             const C& cother = other;
                             volatile bool sink = false;
                             expect(b, m, "begin() == begin() of another", Hit::ABORT, -1, -1, false, [&] { sink = c.begin() == other.begin(); });
                             expect(b, m, "cend() != end() of another", Hit::ABORT, -1, -1, false, [&] { sink = cc.cend() != other.end(); });
                             expect(b, m, "rbegin() == crbegin() of another", Hit::ABORT, -1, -1, false, [&] { sink = cc.rbegin() == cother.crbegin(); });
                             if constexpr (RANDOM)
                             {
                                 volatile std::ptrdiff_t dist = 0;
                                 expect(b, m, "begin() < end() of another", Hit::ABORT, -1, -1, false, [&] { sink = c.begin() < other.end(); });
                                 expect(b, m, "end() - begin() of another", Hit::ABORT, -1, -1, false, [&] { dist = cc.end() - cother.begin(); });
                             }
                         }
                         if constexpr (RANDOM)
                         {
                             static const std::size_t offs[] = {0, 1, 2, 7, 1000};
                             for (std::size_t o : offs)
                             {
                                 const std::size_t i = n + o;
                                 const auto li = static_cast<long long>(i);
                                 expect(b, m, "at", Hit::OUT_OF_RANGE, li, LN, true, [&] { (void)c.at(i); });
                                 expect(b, m, "at const", Hit::OUT_OF_RANGE, li, LN, true, [&] { (void)cc.at(i); });
                                 expect(b, m, "[]", Hit::OUT_OF_RANGE, li, LN, false, [&] { (void)c[i]; });
                                 expect(b, m, "[] const", Hit::OUT_OF_RANGE, li, LN, false, [&] { (void)cc[i]; });
                             }
                             static const std::size_t huge[] = {std::size_t(-1), std::size_t(-2), std::size_t(1) << 63, (std::size_t(1) << 63) + 1, std::size_t(1) << 32, std::size_t(-1) / 2};
                             for (std::size_t i : huge)
                             {
                                 expect(b, m, "at huge", Hit::OUT_OF_RANGE, -1, LN, true, [&] { (void)c.at(i); });
                                 expect(b, m, "at const huge", Hit::OUT_OF_RANGE, -1, LN, true, [&] { (void)cc.at(i); });
                                 expect(b, m, "[] huge", Hit::OUT_OF_RANGE, -1, LN, false, [&] { (void)c[i]; });
                                 expect(b, m, "[] const huge", Hit::OUT_OF_RANGE, -1, LN, false, [&] { (void)cc[i]; });
                             }
                         }
                         if (n == 0)
                         {
                             expect(b, m, "front", Hit::EMPTY_ACCESS, -1, -1, true, [&] { (void)c.front(); });
                             expect(b, m, "front const", Hit::EMPTY_ACCESS, -1, -1, true, [&] { (void)cc.front(); });
                             expect(b, m, "back", Hit::EMPTY_ACCESS, -1, -1, true, [&] { (void)c.back(); });
                             expect(b, m, "back const", Hit::EMPTY_ACCESS, -1, -1, true, [&] { (void)cc.back(); });
                             expect(b, m, "pop_back", Hit::EMPTY_ACCESS, -1, -1, true, [&] { c.pop_back(); });
                             if constexpr (FRONT)
                                 expect(b, m, "pop_front", Hit::EMPTY_ACCESS, -1, -1, true, [&] { c.pop_front(); });
                         }
                         const auto full1 = static_cast<long long>(N) + 1;
                         if (!CIRC && n == N)
                         {
                             expect(b, m, "push_back", Hit::LENGTH_ERROR, full1, -1, true, [&] { c.push_back(t); });
                             expect(b, m, "push_back&&", Hit::LENGTH_ERROR, full1, -1, true, [&] { c.push_back(T(3)); });
                             expect(b, m, "emplace_back", Hit::LENGTH_ERROR, full1, -1, false, [&] { c.emplace_back(3); });
                             if constexpr (FRONT)
                             {
                                 expect(b, m, "push_front", Hit::LENGTH_ERROR, full1, -1, true, [&] { c.push_front(t); });
                                 expect(b, m, "push_front&&", Hit::LENGTH_ERROR, full1, -1, true, [&] { c.push_front(T(3)); });
                                 expect(b, m, "emplace_front", Hit::LENGTH_ERROR, full1, -1, false, [&] { c.emplace_front(3); });
                             }
                             const std::size_t pos = g_rng.below(n + 1);
                             expect(b, m, "insert", Hit::LENGTH_ERROR, full1, -1, true, [&] { c.insert(pos_c(c, pos), t); });
                             expect(b, m, "insert&&", Hit::LENGTH_ERROR, full1, -1, true, [&] { c.insert(pos_c(c, pos), T(4)); });
                             expect(b, m, "emplace", Hit::LENGTH_ERROR, full1, -1, false, [&] { c.emplace(pos_c(c, pos), 4); });
                         }
                         if constexpr (!CIRC)
                         {
                             const std::size_t pos = g_rng.below(n + 1);
                             for (std::size_t over : {std::size_t{1}, std::size_t{2}, std::size_t{5}})
                             {
                                 const auto vs = rnd_values(N - n + over);
                                 const auto ts = make_values(vs);
                                 const auto tgt = static_cast<long long>(N + over);
                                 expect(b, m, "insert range", Hit::LENGTH_ERROR, tgt, -1, true, [&] { c.insert(pos_c(c, pos), ts.begin(), ts.end()); });
                                 const auto vs2 = rnd_values(N + over);
                                 const auto ts2 = make_values(vs2);
                                 expect(b, m, "assign n", Hit::LENGTH_ERROR, tgt, -1, true, [&] { c.assign(N + over, t); });
                                 expect(b, m, "assign range", Hit::LENGTH_ERROR, tgt, -1, true, [&] { c.assign(ts2.begin(), ts2.end()); });
                                 const std::list<T> tl(ts2.begin(), ts2.end());
                                 expect(b, m, "assign list range", Hit::LENGTH_ERROR, tgt, -1, true, [&] { c.assign(tl.begin(), tl.end()); });
                                 Box<C> b2;
                                 Model m2;
                                 fill(b2, m2, n);
                                 HitInfo hi;
                                 // single pass: may be partially inserted, must stay consistent
                                 typename InputIt<T>::Src src{vs.data(), vs.data() + vs.size()};
                                 hi = catch_hit([&] { b2->clear(); b2->insert(b2->cend(), InputIt<T>(&src), InputIt<T>()); });
                                 VF_CHECK("CHECK", (hi.hit == Hit::LENGTH_ERROR) == (vs.size() > N), "insert(input range): %s", hit_name(hi.hit));
                                 if (hi.hit != Hit::NONE)
                                     VF_CHECK("CHECK", hi.a == vs.size(), "insert(input range) reported %zu, expected %zu", hi.a, vs.size());
                                 here(hi, "insert(input range)");
                                 consistent(b2);
                                 void* mem = Box<C>::raw_alloc();
                                 hi = catch_hit([&] { ::new (mem) C(ts2.begin(), ts2.end()); });
                                 VF_CHECK("CHECK", hi.hit == Hit::LENGTH_ERROR, "range constructor beyond the capacity: %s", hit_name(hi.hit));
                                 here(hi, "range constructor");
                                 hi = catch_hit([&] { ::new (mem) C(N + over, t); });
                                 VF_CHECK("CHECK", hi.hit == Hit::LENGTH_ERROR && hi.a == N + over, "count/value constructor beyond the capacity: %s", hit_name(hi.hit));
                                 here(hi, "count/value constructor");
                                 hi = catch_hit([&] { ::new (mem) C(N + over); });
                                 VF_CHECK("CHECK", hi.hit == Hit::LENGTH_ERROR && hi.a == N + over, "count constructor beyond the capacity: %s", hit_name(hi.hit));
                                 here(hi, "count constructor");
                                 free(mem);
                             }
                             if constexpr (N < 20)
                             {
                                 const std::initializer_list<T> il = {t, t, t, t, t, t, t, t, t, t, t, t, t, t, t, t, t, t, t, t};
                                 const auto tgt = static_cast<long long>(n + 20);
                                 expect(b, m, "insert ilist", Hit::LENGTH_ERROR, tgt, -1, true, [&] { c.insert(pos_c(c, pos), il); });
                                 void* mem = Box<C>::raw_alloc();
                                 HitInfo hi = catch_hit([&] { ::new (mem) C(il); });
                                 VF_CHECK("CHECK", hi.hit == Hit::LENGTH_ERROR, "ilist constructor beyond the capacity: %s", hit_name(hi.hit));
                                 here(hi, "ilist constructor");
                                 free(mem);
                                 expect(b, m, "assign ilist", Hit::LENGTH_ERROR, 20, -1, true, [&] { c.assign(il); });
                             }
                             for (std::size_t huge : {std::size_t(-1), std::size_t(1) << 63, std::size_t(-1) - N, std::size_t(1) << 32})
                             {
                                 if (huge <= N)
                                     continue;
                                 expect(b, m, "assign huge", Hit::LENGTH_ERROR, -1, -1, true, [&] { c.assign(huge, t); });
                             }
                         }
                         for (std::size_t over : {std::size_t{1}, std::size_t{3}, std::size_t(-1) - N, (std::size_t(1) << 63)})
                         {
                             expect(b, m, "resize", Hit::LENGTH_ERROR, static_cast<long long>(N + over) >= 0 ? static_cast<long long>(N + over) : -1, -1, true, [&] { c.resize(N + over); });
                             expect(b, m, "resize v", Hit::LENGTH_ERROR, -1, -1, true, [&] { c.resize(N + over, t); });
                             if constexpr (F == Fam::VECTOR)
                                 expect(b, m, "reserve", Hit::LENGTH_ERROR, -1, -1, true, [&] { c.reserve(N + over); });
                         }
                         if constexpr (RANDOM)
                         {
                             if (n >= 1)
                             {
                                 const std::size_t p = g_rng.below(n);
                                 const std::size_t q = p + 1 + g_rng.below(n - p);
                                 expect(b, m, "erase(last<first)", Hit::INVALID_ARGUMENT, -1, -1, true, [&] { c.erase(pos_c(c, q), pos_c(c, p)); });
                             }
                             if (n < N)
                             {
                                 expect(b, m, "erase(end)", Hit::INVALID_ARGUMENT, -1, -1, true, [&] { c.erase(c.cend()); });
                                 expect(b, m, "erase(..end+1)", Hit::INVALID_ARGUMENT, -1, -1, true, [&] { c.erase(c.cbegin(), std::next(c.cend())); });
                                 // any range that ends behind the last element, however short it is
                                 const auto beyond = static_cast<std::ptrdiff_t>(1 + g_rng.below(N - n));
                                 const auto len = static_cast<std::ptrdiff_t>(g_rng.below(static_cast<std::size_t>(beyond) + n + 1));
                                 trace("erase(%td entries, end+%td)", len, beyond);
                                 expect(b, m, "erase(..end+k)", Hit::INVALID_ARGUMENT, -1, -1, true, [&] { c.erase(std::next(c.cend(), beyond - len), std::next(c.cend(), beyond)); });
                             }
                             if constexpr (F != Fam::VECTOR)
                             {
                                 expect(b, m, "erase(begin-1..)", Hit::INVALID_ARGUMENT, -1, -1, true, [&] { c.erase(std::prev(c.cbegin()), c.cend()); });
                                 // any range that starts before the first element, however short it is
                                 const auto back = static_cast<std::ptrdiff_t>(1 + g_rng.below(std::min<std::size_t>(N, 3)));
                                 const auto len = static_cast<std::ptrdiff_t>(g_rng.below(static_cast<std::size_t>(back) + n + 1));
                                 trace("erase(begin-%td, %td entries)", back, len);
                                 expect(b, m, "erase(begin-k..)", Hit::INVALID_ARGUMENT, -1, -1, true, [&] { c.erase(std::prev(c.cbegin(), back), std::prev(c.cbegin(), back - len)); });
                             }
                         }
                         else
                             expect(b, m, "erase(end)", Hit::INVALID_ARGUMENT, -1, -1, true, [&] { c.erase(c.cend()); });
                     });
    }
    // internal consistency without a model: size agrees with traversal, nothing beyond capacity
    static void consistent(Box<C>& b)
    {
        C& c = *b;
        std::size_t n = 0;
        for (auto it = c.cbegin(); it != c.cend() && n <= N; ++it)
            n++;
        VF_CHECK("CHECK", n == c.size() && n <= N, "after a rejected call: size() %zu, traversal %zu", c.size(), n);
        c.clear();
        VF_CHECK("CHECK", c.empty(), "clear() after a rejected call");
    }

    template <class C2, std::size_t N2>
    static void reg_compare(const char* tname, std::size_t weight)
    {
        if constexpr ((VF_SUITES & 4) != 0)
        add_group("value",
                  std::string("compare<") + tname + "," + std::to_string(N) + "," + std::to_string(N2) + ">",
                  [=] { suite_compare<C2, N2>(weight); });
    }
    // ---------------------------------------------------------- registration
    static void reg(const char* tname, std::size_t weight)
    {
        const std::string id = std::string(F == Fam::VECTOR ? "vector" : F == Fam::DEQUE ? "deque" : F == Fam::CIRCULAR ? "circular_deque" : "list") + "<" + tname + "," + std::to_string(N) + ">";
        if constexpr ((VF_SUITES & 1) != 0)
            add_group("model", id + "/model", [=] { suite_model(weight * 3, N > 64 ? 200 : 90); });
        if constexpr ((VF_SUITES & 2) != 0)
            add_group("ctor", id + "/ctor", [=] { suite_ctor(weight); });
        if constexpr ((VF_SUITES & 4) != 0)
            add_group("value", id + "/value", [=] { suite_value(weight * 2); });
        if constexpr ((VF_SUITES & 8) != 0)
            add_group("iter", id + "/iter", [=] { suite_iter(N > 64 ? 20 : 40); });
        if constexpr ((VF_SUITES & 16) != 0 && (CP && AS && N > 0))
            add_group("alias", id + "/alias", [=] { suite_alias(weight * 4); });
        if constexpr ((VF_SUITES & 32) != 0 && (std::is_trivially_copyable_v<C>))
            add_group("reloc", id + "/reloc", [=] { suite_reloc(weight / 2 + 5, 30); });
        if constexpr ((VF_SUITES & 64) != 0 && ((std::is_trivially_copyable_v<T> || std::is_same_v<T, Ntv>)&&DEF))
            add_group("check", id + "/check", [=] { suite_check(weight / 4 + 5); });
    }
};
}  // namespace vf
