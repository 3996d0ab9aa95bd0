// Traits of T that every container retains, and containers as template arguments (C12).
// PART 0: triviality, copyability, layout   PART 1: containers as non-type template arguments
#ifndef PART
#define PART 0
#endif
#include "fw.hpp"
#include "enums.hpp"
#include "fixed_containers/bidirectional_iterator.hpp"
#include "fixed_containers/enum_array.hpp"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/enum_set.hpp"
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_circular_queue.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_queue.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_stack.hpp"
#include "fixed_containers/fixed_string.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include "fixed_containers/fixed_vector.hpp"
using namespace vf;
namespace fc = fixed_containers;

#if PART == 0
#define CMP(N)                                                         \
    int v;                                                             \
    constexpr bool operator==(const N& o) const { return v == o.v; }   \
    constexpr auto operator<=>(const N& o) const { return v <=> o.v; }
// trivially copyable
struct Triv
{
    CMP(Triv)
};
struct TrivNoDefault
{
    constexpr explicit TrivNoDefault(int x) : v(x) {}
    CMP(TrivNoDefault)
};
struct TrivMoveOnly
{
    TrivMoveOnly(TrivMoveOnly&&) = default;
    TrivMoveOnly& operator=(TrivMoveOnly&&) = default;
    CMP(TrivMoveOnly)
};
struct TrivConstMember
{
    const int c;
    TrivConstMember(const TrivConstMember&) = default;
    CMP(TrivConstMember)
};
struct alignas(64) TrivWide
{
    char pad[100];
    CMP(TrivWide)
};
// not trivially copyable, each for one reason
struct UserCopyCtor
{
    UserCopyCtor(const UserCopyCtor& o) : v(o.v) {}
    UserCopyCtor& operator=(const UserCopyCtor&) = default;
    CMP(UserCopyCtor)
};
struct UserMoveCtor
{
    UserMoveCtor(const UserMoveCtor&) = default;
    UserMoveCtor(UserMoveCtor&& o) noexcept : v(o.v) {}
    UserMoveCtor& operator=(const UserMoveCtor&) = default;
    UserMoveCtor& operator=(UserMoveCtor&&) = default;
    CMP(UserMoveCtor)
};
struct UserCopyAssign
{
    UserCopyAssign(const UserCopyAssign&) = default;
    UserCopyAssign& operator=(const UserCopyAssign& o)
    {
        v = o.v;
        return *this;
    }
    CMP(UserCopyAssign)
};
struct UserMoveAssign
{
    UserMoveAssign(const UserMoveAssign&) = default;
    UserMoveAssign(UserMoveAssign&&) = default;
    UserMoveAssign& operator=(const UserMoveAssign&) = default;
    UserMoveAssign& operator=(UserMoveAssign&& o) noexcept
    {
        v = o.v;
        return *this;
    }
    CMP(UserMoveAssign)
};
struct UserDtor
{
    UserDtor(const UserDtor&) = default;
    UserDtor& operator=(const UserDtor&) = default;
    ~UserDtor() {}
    CMP(UserDtor)
};
struct MoveOnly
{
    MoveOnly(MoveOnly&& o) noexcept : v(o.v) {}
    MoveOnly& operator=(MoveOnly&& o) noexcept
    {
        v = o.v;
        return *this;
    }
    CMP(MoveOnly)
};
struct AllUser
{
    AllUser(const AllUser& o) : v(o.v) {}
    AllUser(AllUser&& o) noexcept : v(o.v) {}
    AllUser& operator=(const AllUser& o)
    {
        v = o.v;
        return *this;
    }
    AllUser& operator=(AllUser&& o) noexcept
    {
        v = o.v;
        return *this;
    }
    ~AllUser() {}
    CMP(AllUser)
};
struct THash
{
    template <class T>
    constexpr std::uint64_t operator()(const T& t) const
    {
        return static_cast<std::uint64_t>(t.v);
    }
};

struct Traits
{
    static constexpr const char* NAMES[] = {"trivially copyable", "trivially destructible", "trivially copy constructible", "trivially move constructible", "trivially copy assignable",
                                            "trivially move assignable", "copy constructible", "move constructible", "copy assignable", "move assignable", "nothrow move constructible", "nothrow move assignable",
                                            "standard layout"};
    static constexpr std::size_t COUNT = 13;
    static constexpr std::size_t TRIVIAL = 6;
    bool b[COUNT];
};
template <class X>
constexpr Traits traits_of()
{
    return {{std::is_trivially_copyable_v<X>, std::is_trivially_destructible_v<X>, std::is_trivially_copy_constructible_v<X>, std::is_trivially_move_constructible_v<X>, std::is_trivially_copy_assignable_v<X>,
             std::is_trivially_move_assignable_v<X>, std::is_copy_constructible_v<X>, std::is_move_constructible_v<X>, std::is_copy_assignable_v<X>, std::is_move_assignable_v<X>,
             std::is_nothrow_move_constructible_v<X>, std::is_nothrow_move_assignable_v<X>, std::is_standard_layout_v<X>}};
}
template <class X, class T>
void one(const char* container, const char* type)
{
    run_case(container,
             [&]
             {
                 constexpr Traits t = traits_of<T>();
                 constexpr Traits x = traits_of<X>();
                 trace("%s of %s", container, type);
                 ++g_sh->ops;
                 if (t.b[0])
                 {
                     // exactly the traits of T
                     for (std::size_t i = 0; i < Traits::COUNT; i++)
                         VF_CHECK("TRAIT", t.b[i] == x.b[i], "%s of %s (trivially copyable): the element is%s %s, the container is%s", container, type, t.b[i] ? "" : " not", Traits::NAMES[i], x.b[i] ? "" : " not");
                 }
                 else
                 {
                     VF_CHECK("TRAIT", !x.b[0], "%s of %s is trivially copyable although its elements are not", container, type);
                     for (std::size_t i = 1; i < Traits::TRIVIAL; i++)
                         VF_CHECK("TRAIT", t.b[i] || !x.b[i], "%s of %s is %s although its elements are not", container, type, Traits::NAMES[i]);
                     for (std::size_t i = Traits::TRIVIAL; i < Traits::COUNT; i++)
                         VF_CHECK("TRAIT", x.b[i] || !t.b[i], "%s of %s is not %s although its elements are", container, type, Traits::NAMES[i]);
                 }
                 // a container needs no more alignment than its elements and a word
                 VF_CHECK("TRAIT", alignof(X) <= std::max({alignof(T), alignof(std::size_t), alignof(void*)}), "%s of %s is over-aligned", container, type);
                 std::uint64_t h = 0;
                 for (std::size_t i = 0; i < Traits::COUNT; i++)
                     h = h * 2 + x.b[i];
                 cover(h * 1315423911u + std::hash<std::string>{}(std::string(container) + type));
             });
}
template <class T, std::size_t N>
void all(const char* type)
{
    add_group("model", std::string("traits ") + type + " N=" + std::to_string(N),
              [=]
              {
                  one<fc::FixedVector<T, N>, T>("FixedVector", type);
                  one<fc::FixedDeque<T, N>, T>("FixedDeque", type);
                  one<fc::FixedCircularDeque<T, N>, T>("FixedCircularDeque", type);
                  one<fc::FixedList<T, N>, T>("FixedList", type);
                  one<fc::FixedStack<T, N>, T>("FixedStack", type);
                  one<fc::FixedQueue<T, N>, T>("FixedQueue", type);
                  one<fc::FixedCircularQueue<T, N>, T>("FixedCircularQueue", type);
                  one<fc::FixedMap<int, T, N>, T>("FixedMap values", type);
                  one<fc::FixedMap<T, int, N>, T>("FixedMap keys", type);
                  one<fc::FixedSet<T, N>, T>("FixedSet", type);
                  one<fc::FixedSet<T, N, std::greater<>, fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::EMBEDDED_COLOR>, T>("FixedSet compact", type);
                  one<fc::FixedMap<int, T, N, std::less<int>, fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::DEDICATED_COLOR, fc::FixedIndexBasedContiguousStorage>, T>("FixedMap contiguous", type);
                  one<fc::FixedUnorderedMap<int, T, N>, T>("FixedUnorderedMap values", type);
                  one<fc::FixedUnorderedMap<T, int, N, THash>, T>("FixedUnorderedMap keys", type);
                  one<fc::FixedUnorderedSet<T, N, THash>, T>("FixedUnorderedSet", type);
                  one<fc::EnumMap<vfe::E5, T>, T>("EnumMap", type);
                  one<fc::EnumMap<vfe::RichSparse, T>, T>("EnumMap rich", type);
                  one<fc::EnumArray<vfe::E5, T>, T>("EnumArray", type);
              });
}
int main(int argc, char** argv)
{
#define BOTH(T)    \
    all<T, 4>(#T); \
    all<T, 1>(#T);
    BOTH(Triv)
    BOTH(TrivNoDefault)
    BOTH(TrivMoveOnly)
    BOTH(TrivConstMember)
    BOTH(TrivWide)
    BOTH(UserCopyCtor)
    BOTH(UserMoveCtor)
    BOTH(UserCopyAssign)
    BOTH(UserMoveAssign)
    BOTH(UserDtor)
    BOTH(MoveOnly)
    BOTH(AllUser)
    add_group("model", "traits of fixed element types",
              []
              {
                  one<fc::FixedString<5>, char>("FixedString", "char");
                  one<fc::FixedString<0>, char>("FixedString<0>", "char");
                  one<fc::EnumSet<vfe::E5>, vfe::E5>("EnumSet", "E5");
                  one<fc::EnumSet<vfe::E70>, vfe::E70>("EnumSet", "E70");
                  one<fc::EnumSet<vfe::RichSparse>, vfe::RichSparse>("EnumSet", "RichSparse");
                  one<fc::FixedVector<int, 0>, int>("FixedVector<0>", "int");
                  one<fc::FixedDeque<int, 0>, int>("FixedDeque<0>", "int");
                  one<fc::FixedList<int, 0>, int>("FixedList<0>", "int");
              });
    return driver_main(argc, argv);
}
#else
// The value is built by the same function in constant evaluation (where it becomes a template argument) and at
// run time; what the template sees has to be what the run-time object holds.
template <auto VALUE>
struct Holder
{
    static constexpr const auto& value() { return VALUE; }
};
template <class A, class B>
void same(const char* name, const A& a, const B& b, bool equal, std::uint64_t size)
{
    VF_CHECK("TRAIT", equal, "%s as a template argument is not the value it was built as", name);
    cover(std::hash<std::string>{}(name) + size);
}
template <unsigned K>
constexpr auto vec()
{
    fc::FixedVector<int, 7> c{};
    for (unsigned i = 0; i < 4 + K; i++)
        c.push_back(static_cast<int>(i * 3 + K));
    c.erase(c.begin() + 1);
    c.insert(c.begin(), static_cast<int>(90 + K));
    return c;
}
template <class C, unsigned K>
constexpr auto deq()
{
    C c{};
    for (unsigned i = 0; i < 3 + K; i++)
    {
        c.push_back(static_cast<int>(i * 3 + K));
        c.push_front(static_cast<int>(i));
        c.pop_back();
    }
    c.push_back(5);
    return c;
}
template <unsigned K>
constexpr auto lst()
{
    fc::FixedList<int, 7> c{};
    for (unsigned i = 0; i < 4 + K; i++)
        c.push_front(static_cast<int>(i * 3 + K));
    c.erase(std::next(c.begin(), 1));
    return c;
}
template <class C, unsigned K>
constexpr auto adapter()
{
    C c{};
    for (unsigned i = 0; i < 3 + K; i++)
        c.push(static_cast<int>(i + K));
    c.pop();
    return c;
}
template <unsigned K>
constexpr auto str()
{
    fc::FixedString<11> c{"abc"};
    c.append(std::string_view("xyzt").substr(0, K));
    c.erase(c.begin());
    return c;
}
template <class C, unsigned K>
constexpr auto map()
{
    C c{};
    for (unsigned i = 0; i < 4 + K; i++)
        c[static_cast<int>((i * 5 + K) % 8)] = static_cast<int>(i);
    c.erase(static_cast<int>(K % 8));
    return c;
}
template <class C, unsigned K>
constexpr auto set()
{
    C c{};
    for (unsigned i = 0; i < 4 + K; i++)
        c.insert(static_cast<int>((i * 5 + K) % 8));
    c.erase(static_cast<int>(K % 8));
    return c;
}
template <class E, unsigned K>
constexpr auto emap()
{
    fc::EnumMap<E, int> c{};
    const auto& values = fc::rich_enums::EnumAdapter<E>::values();
    for (std::size_t i = K % 2; i < values.size(); i += 2)
        c[values[i]] = static_cast<int>(i + K);
    c.erase(values[K % 2]);
    return c;
}
template <class E, unsigned K>
constexpr auto eset()
{
    fc::EnumSet<E> c{};
    const auto& values = fc::rich_enums::EnumAdapter<E>::values();
    for (std::size_t i = K % 2; i < values.size(); i += 2)
        c.insert(values[i]);
    c.erase(values[K % 2]);
    return c;
}
template <class E, unsigned K>
constexpr auto earr()
{
    fc::EnumArray<E, int> c{};
    int n = 0;
    for (const auto& e : fc::rich_enums::EnumAdapter<E>::values())
        c[e] = static_cast<int>(K) * 10 + n++;
    return c;
}
#define NTTP(NAME, EXPR)                                                                                        \
    run_case(NAME,                                                                                              \
             []                                                                                                 \
             {                                                                                                  \
                 ++g_sh->ops;                                                                                   \
                 using H = Holder<EXPR>;                                                                        \
                 const auto at_run_time = EXPR;                                                                 \
                 trace("%s %u", NAME, K);                                                                       \
                 same(NAME, H::value(), at_run_time, H::value() == at_run_time, K * 100 + sizeof(at_run_time)); \
                 constexpr bool AGAIN = std::is_same_v<H, Holder<EXPR>>;                                        \
                 VF_CHECK("TRAIT", AGAIN, "%s: equal arguments name different types", NAME);                    \
             });
template <unsigned K>
void nttp()
{
    add_group("model", "template arguments " + std::to_string(K),
              []
              {
                  NTTP("FixedVector", (vec<K>()));
                  NTTP("FixedDeque", (deq<fc::FixedDeque<int, 7>, K>()));
                  NTTP("FixedCircularDeque", (deq<fc::FixedCircularDeque<int, 4>, K>()));
                  NTTP("FixedList", (lst<K>()));
                  NTTP("FixedStack", (adapter<fc::FixedStack<int, 7>, K>()));
                  NTTP("FixedQueue", (adapter<fc::FixedQueue<int, 7>, K>()));
                  NTTP("FixedCircularQueue", (adapter<fc::FixedCircularQueue<int, 3>, K>()));
                  NTTP("FixedString", (str<K>()));
                  NTTP("FixedMap", (map<fc::FixedMap<int, int, 8>, K>()));
                  NTTP("FixedSet", (set<fc::FixedSet<int, 8>, K>()));
                  NTTP("FixedUnorderedMap", (map<fc::FixedUnorderedMap<int, int, 8>, K>()));
                  NTTP("FixedUnorderedSet", (set<fc::FixedUnorderedSet<int, 8>, K>()));
                  NTTP("EnumMap", (emap<vfe::E5, K>()));
                  NTTP("EnumSet", (eset<vfe::E5, K>()));
                  NTTP("EnumArray", (earr<vfe::E5, K>()));
                  NTTP("EnumMap rich", (emap<vfe::RichSparse, K>()));
                  NTTP("EnumSet rich", (eset<vfe::RichSparse, K>()));
                  NTTP("EnumArray rich", (earr<vfe::RichSparse, K>()));
              });
}
int main(int argc, char** argv)
{
    nttp<0>();
    nttp<1>();
    nttp<2>();
    nttp<3>();
    return driver_main(argc, argv);
}
#endif
