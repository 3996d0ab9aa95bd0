// FixedQueue / FixedStack (PART 0) and FixedCircularQueue (PART 1) against a deque model.
#include "fw.hpp"
#include "fixed_containers/fixed_circular_queue.hpp"
#include "fixed_containers/fixed_queue.hpp"
#include "fixed_containers/fixed_stack.hpp"

#include <deque>
#include <stack>
using namespace fixed_containers;
using namespace vf;
#ifndef PART
#define PART -1
#endif

enum Kind
{
    QUEUE,
    STACK,
    CQUEUE
};

template <Kind K, class C, class T, std::size_t N, class C2, std::size_t N2>
struct Ad
{
    using Model = std::deque<int>;
    static constexpr bool CP = std::is_copy_constructible_v<T>;

    static void verify(Box<C>& b, const Model& m, const char* kind)
    {
        C& c = *b;
        const C& cc = c;
        VF_CHECK(kind, c.size() == m.size(), "size() is %zu, expected %zu", c.size(), m.size());
        VF_CHECK(kind, cc.empty() == m.empty(), "empty()");
        VF_CHECK(kind, cc.max_size() == N && C::static_max_size() == N, "max_size()");
        VF_CHECK(kind, is_full(cc) == (m.size() == N), "is_full()");
        if (El<T>::tracked)
            VF_CHECK("LIFE", b.live() == static_cast<long>(m.size()), "%ld live elements, expected %zu", b.live(), m.size());
        if (!m.empty())
        {
            if constexpr (K == STACK)
            {
                VF_CHECK(kind, val(c.top()) == m.back() && val(cc.top()) == m.back(), "top() is %d, expected %d", val(c.top()), m.back());
            }
            else
            {
                VF_CHECK(kind, val(c.front()) == m.front() && val(cc.front()) == m.front(), "front() is %d, expected %d", val(c.front()), m.front());
                VF_CHECK(kind, val(c.back()) == m.back() && val(cc.back()) == m.back(), "back() is %d, expected %d", val(c.back()), m.back());
            }
        }
    }
    static void push_model(Model& m, int v)
    {
        m.push_back(v);
        if (K == CQUEUE && m.size() > N)
            m.pop_front();
    }
    static void step(Box<C>& b, Model& m)
    {
        C& c = *b;
        const int v = static_cast<int>(g_rng.below(100));
        const std::size_t op = g_rng.below(10);
        cover(mix(mix(mix(7, op), m.size()), static_cast<std::uint64_t>(v % 4)));
        const bool can_add = N > 0 && (K == CQUEUE || m.size() < N);
        switch (op)
        {
        case 0:
        case 1:
            if (!can_add)
                return;
            if constexpr (CP)
            {
                trace("push(%d)", v);
                const T e = El<T>::make(v);
                LIB(c.push(e));
                push_model(m, v);
            }
            break;
        case 2:
        case 3:
            if (!can_add)
                return;
            trace("push(move %d)", v);
            {
                T e = El<T>::make(v);
                LIB(c.push(std::move(e)));
            }
            push_model(m, v);
            break;
        case 4:
            if (!can_add)
                return;
            trace("emplace(%d)", v);
            if constexpr (std::is_class_v<T>)
            {
                LIB(c.emplace(v, 1));
                push_model(m, v + 1);
            }
            else
            {
                LIB(c.emplace(v));
                push_model(m, v);
            }
            break;
        case 5:  // argument refers to an element
            if constexpr (CP)
            {
                if (!can_add || m.empty())
                    return;
                if constexpr (K == STACK)
                {
                    trace("push(top)");
                    const int x = m.back();
                    LIB(c.push(c.top()));
                    push_model(m, x);
                }
                else
                {
                    const bool fr = g_rng.chance(1, 2);
                    const int x = fr ? m.front() : m.back();
                    trace("push(%s)", fr ? "front" : "back");
                    LIB(c.push(fr ? c.front() : c.back()));
                    push_model(m, x);
                }
            }
            break;
        case 6:  // write through
            if (m.empty())
                return;
            if constexpr (std::is_assignable_v<T&, T>)
            {
                trace("write(%d)", v);
                if constexpr (K == STACK)
                {
                    c.top() = El<T>::make(v);
                    m.back() = v;
                }
                else if (g_rng.chance(1, 2))
                {
                    c.front() = El<T>::make(v);
                    m.front() = v;
                }
                else
                {
                    c.back() = El<T>::make(v);
                    m.back() = v;
                }
            }
            break;
        default:
            if (m.empty())
                return;
            trace("pop");
            LIB(c.pop());
            if (K == STACK)
                m.pop_back();
            else
                m.pop_front();
            break;
        }
        raise_pending();
    }
    // empties a container, checking the order
    static void drain(Box<C>& b, Model m, const char* kind)
    {
        C& c = *b;
        while (!m.empty())
        {
            verify(b, m, kind);
            LIB(c.pop());
            if (K == STACK)
                m.pop_back();
            else
                m.pop_front();
        }
        verify(b, m, kind);
    }
    static void suite_model(std::size_t cases)
    {
        g_alloc_monitor_on = !El<T>::allocates;
        cases = n_cases(cases);
        for (std::size_t k = 0; k < cases; k++)
            run_case("model N=" + std::to_string(N),
                     [&]
                     {
                         Model m;
                         std::vector<int> src;
                         const std::size_t len = g_rng.below(K == CQUEUE ? 2 * N + 3 : N + 1);
                         for (std::size_t i = 0; i < len; i++)
                             src.push_back(static_cast<int>(g_rng.below(100)));
                         const bool from_range = g_rng.chance(1, 2);
                         std::size_t mode = g_rng.below(2);
                         auto drive = [&](Box<C>& b)
                         {
                             if (from_range)
                                 for (const int x : src)
                                     push_model(m, x);
                             verify(b, m, "MODEL");
                             const std::size_t ops = g_rng.range(1, 4 * N + 20);
                             for (std::size_t i = 0; i < ops; i++)
                             {
                                 step(b, m);
                                 verify(b, m, "MODEL");
                             }
                             drain(b, m, "MODEL");
                             b.destroy(El<T>::tracked);
                         };
                         if (!from_range)
                         {
                             Box<C> b;
                             drive(b);
                         }
                         else if (mode == 0)
                         {
                             trace("ctor(input n=%zu)", len);
                             typename InputIt<T>::Src s{src.data(), src.data() + src.size()};
                             Box<C> b(std::in_place, InputIt<T>(&s), InputIt<T>());
                             drive(b);
                         }
                         else
                         {
                             trace("ctor(forward n=%zu)", len);
                             std::vector<T> v;
                             for (const int x : src)
                                 v.push_back(El<T>::make(x));
                             Box<C> b(std::in_place, std::make_move_iterator(v.begin()), std::make_move_iterator(v.end()));
                             drive(b);
                         }
                     });
    }
    static void suite_value(std::size_t cases)
    {
        g_alloc_monitor_on = !El<T>::allocates;
        cases = n_cases(cases);
        for (std::size_t k = 0; k < cases; k++)
            run_case("value N=" + std::to_string(N),
                     [&]
                     {
                         Model ma, mb;
                         Box<C> a, b;
                         const std::size_t ra = g_rng.below(3 * N + 6), rb = g_rng.below(3 * N + 6);
                         for (std::size_t i = 0; i < ra; i++)
                             step(a, ma);
                         for (std::size_t i = 0; i < rb; i++)
                             step(b, mb);
                         const std::size_t op = g_rng.below(5);
                         trace("value op%zu", op);
                         cover(mix(mix(mix(17, op), ma.size()), mb.size()));
                         if (op == 0)
                         {
                             if constexpr (CP)
                             {
                                 Box<C> c(std::in_place, static_cast<const C&>(*a));
                                 verify(c, ma, "VALUE");
                                 drain(c, ma, "VALUE");
                                 verify(a, ma, "VALUE");
                                 drain(a, ma, "VALUE");
                             }
                         }
                         else if (op == 1)
                         {
                             if constexpr (CP && std::is_copy_assignable_v<T>)
                             {
                                 LIB(*a = static_cast<const C&>(*b));
                                 verify(a, mb, "VALUE");
                                 drain(b, mb, "VALUE");
                                 drain(a, mb, "VALUE");
                             }
                         }
                         else if (op == 2)
                         {
                             Box<C> c(std::in_place, std::move(*a));
                             drain(c, ma, "VALUE");
                         }
                         else if (op == 3)
                         {
                             if constexpr (std::is_move_assignable_v<T>)
                             {
                                 LIB(*a = std::move(*b));
                                 drain(a, mb, "VALUE");
                             }
                         }
                         else
                         {
                             const C& ca = *a;
                             const C& cb = *b;
                             VF_CHECK("VALUE", LIB(ca == cb) == (ma == mb), "operator==");
                             VF_CHECK("VALUE", LIB(ca != cb) == (ma != mb), "operator!=");
                             VF_CHECK("VALUE", LIB(ca < cb) == (ma < mb), "operator<");
                             VF_CHECK("VALUE", LIB(ca <= cb) == (ma <= mb), "operator<=");
                             VF_CHECK("VALUE", LIB(ca > cb) == (ma > mb), "operator>");
                             VF_CHECK("VALUE", LIB(ca >= cb) == (ma >= mb), "operator>=");
                             // other capacity
                             Box<C2> c2;
                             Model m2;
                             for (const int x : ma)
                                 if (m2.size() < N2)
                                 {
                                     T e = El<T>::make(x);
                                     LIB(c2->push(std::move(e)));
                                     m2.push_back(x);
                                 }
                             const C2& cc2 = *c2;
                             VF_CHECK("VALUE", LIB(ca == cc2) == (ma == m2), "operator== (other capacity)");
                             VF_CHECK("VALUE", LIB(cc2 < ca) == (m2 < ma), "operator< (other capacity)");
                         }
                     });
    }
    template <class F>
    static void expect(Box<C>& b, const Model& m, const char* what, Hit want, long a, unsigned line, F&& f)
    {
        trace("%s", what);
        const HitInfo h = catch_hit(f);
        VF_CHECK("CHECK", h.hit == want, "%s on size %zu: %s instead of %s", what, m.size(), hit_name(h.hit), hit_name(want));
        if (a >= 0)
            VF_CHECK("CHECK", h.a == static_cast<std::size_t>(a), "%s: reported value %zu, expected %ld", what, h.a, a);
        if (line != 0)
            VF_CHECK("CHECK", h.line == line && std::string(h.file).find("d_adapters") != std::string::npos, "%s: reported location %s:%u is not the caller's (line %u)", what, h.file, h.line, line);
        verify(b, m, "CHECK");
    }
    static void suite_check(std::size_t cases)
    {
        cases = n_cases(cases);
        for (std::size_t k = 0; k < cases; k++)
            run_case("check N=" + std::to_string(N),
                     [&]
                     {
                         Box<C> b;
                         Model m;
                         const std::size_t r = g_rng.below(4 * N + 4);
                         for (std::size_t i = 0; i < r; i++)
                             step(b, m);
                         C& c = *b;
                         const C& cc = c;
                         cover(mix(mix(23, m.size()), r));
                         if (N > 0)
                         {
                             while (m.size() < N)  // every valid push must be accepted
                             {
                                 c.push(T(1));
                                 push_model(m, 1);
                             }
                             verify(b, m, "CHECK");
                         }
                         const T one(1);
                         if constexpr (K != CQUEUE)
                         {
                             expect(b, m, "push", Hit::LENGTH_ERROR, N + 1, __LINE__, [&] { c.push(one); });
                             expect(b, m, "push move", Hit::LENGTH_ERROR, N + 1, __LINE__, [&] { c.push(T(2)); });
                             expect(b, m, "emplace", Hit::LENGTH_ERROR, N + 1, 0, [&] { c.emplace(2); });
                         }
                         while (!m.empty())
                         {
                             c.pop();
                             if (K == STACK)
                                 m.pop_back();
                             else
                                 m.pop_front();
                         }
                         expect(b, m, "pop", Hit::EMPTY_ACCESS, -1, __LINE__, [&] { c.pop(); });
                         if constexpr (K == STACK)
                         {
                             expect(b, m, "top", Hit::EMPTY_ACCESS, -1, __LINE__, [&] { (void)c.top(); });
                             expect(b, m, "top const", Hit::EMPTY_ACCESS, -1, __LINE__, [&] { (void)cc.top(); });
                         }
                         else
                         {
                             expect(b, m, "front", Hit::EMPTY_ACCESS, -1, __LINE__, [&] { (void)c.front(); });
                             expect(b, m, "front const", Hit::EMPTY_ACCESS, -1, __LINE__, [&] { (void)cc.front(); });
                             expect(b, m, "back", Hit::EMPTY_ACCESS, -1, __LINE__, [&] { (void)c.back(); });
                             expect(b, m, "back const", Hit::EMPTY_ACCESS, -1, __LINE__, [&] { (void)cc.back(); });
                         }
                     });
    }
    static void reg(const char* tname, std::size_t w)
    {
        const std::string id = std::string(K == QUEUE ? "queue" : K == STACK ? "stack" : "circular_queue") + "<" + tname + "," + std::to_string(N) + ">";
        add_group("model", id + "/model", [=] { suite_model(w); });
        add_group("value", id + "/value", [=] { suite_value(w); });
        if constexpr (std::is_trivially_copyable_v<T>)
            add_group("check", id + "/check", [=] { suite_check(w / 8 + 10); });
    }
};

template <class T, std::size_t N>
using Q = Ad<QUEUE, FixedQueue<T, N, RecChecking<>>, T, N, FixedQueue<T, N + 3, RecChecking<>>, N + 3>;
template <class T, std::size_t N>
using S = Ad<STACK, FixedStack<T, N, RecChecking<>>, T, N, FixedStack<T, N + 3, RecChecking<>>, N + 3>;
template <class T, std::size_t N>
using CQ = Ad<CQUEUE, FixedCircularQueue<T, N, RecChecking<>>, T, N, FixedCircularQueue<T, N + 3, RecChecking<>>, N + 3>;

int main(int argc, char** argv)
{
#if PART == 0 || PART == -1
    Q<int, 0>::reg("int", 50);
    Q<int, 1>::reg("int", 1000);
    Q<int, 5>::reg("int", 3000);
    Q<TrkAll, 4>::reg("Trk", 2000);
    Q<TrkMove, 3>::reg("MoveOnly", 2000);
    Q<Heavy, 3>::reg("Heavy", 1000);
    Q<Pod, 33>::reg("Pod", 500);
    S<int, 0>::reg("int", 50);
    S<int, 1>::reg("int", 1000);
    S<int, 5>::reg("int", 3000);
    S<TrkAll, 4>::reg("Trk", 2000);
    S<TrkMove, 3>::reg("MoveOnly", 2000);
    S<Pod, 33>::reg("Pod", 500);
#endif
#if PART == 1 || PART == -1
    CQ<int, 1>::reg("int", 1000);
    CQ<int, 2>::reg("int", 2000);
    CQ<int, 5>::reg("int", 3000);
    CQ<TrkAll, 4>::reg("Trk", 2000);
    CQ<TrkMove, 3>::reg("MoveOnly", 2000);
    CQ<Heavy, 3>::reg("Heavy", 1000);
    CQ<Pod, 33>::reg("Pod", 500);
#endif
    return driver_main(argc, argv);
}
