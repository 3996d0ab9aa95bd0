// Reflection, struct decomposition and struct views (C18).  clang only.
// PART 0: hand-written shapes, path strings, range views.  PART 1..9: generated shapes (structs_gen.hpp).
// PART 10..18: struct decomposition into 1..1024 fields.
#ifndef PART
#define PART 0
#endif
#if PART > 10
#define FIXED_CONTAINERS_EXTENDED_STRUCT_DECOMPOSITION_1024 1
#endif
#ifndef NDEBUG
#define NDEBUG 1  // the checks that C18 is about do not depend on assert()
#endif
#include "fw.hpp"
#include "fixed_containers/fixed_string.hpp"
#include "fixed_containers/fixed_vector.hpp"
#include "fixed_containers/recursive_reflection.hpp"
#include "fixed_containers/reflection.hpp"
#include "fixed_containers/struct_decomposition.hpp"
#include "fixed_containers/struct_view.hpp"
#include "fixed_containers/type_name.hpp"

#include <bitset>
#include <chrono>
#include <map>
#include <optional>
#include <set>
#include <span>
#include <string_view>
#include <typeinfo>
using namespace vf;
// views are made of std::any and std::function and the visitors of this driver allocate, so allocation is not monitored here
#define CALL(...) (++g_sh->ops, __VA_ARGS__)
namespace fc = fixed_containers;
namespace sv = fixed_containers::struct_view;
namespace rr = fixed_containers::recursive_reflection;

enum class Color : std::uint8_t
{
    RED = 3,
    GREEN = 7,
    BLUE = 100,
};
enum class Level : int
{
    LOW = -20,
    MID = 0,
    HIGH = 90,
};
inline const std::pair<Color, const char*> COLORS[] = {{Color::RED, "RED"}, {Color::GREEN, "GREEN"}, {Color::BLUE, "BLUE"}};
inline const std::pair<Level, const char*> LEVELS[] = {{Level::LOW, "LOW"}, {Level::MID, "MID"}, {Level::HIGH, "HIGH"}};
inline std::string_view want_name(Color c)
{
    for (auto& [v, n] : COLORS)
        if (v == c)
            return n;
    return "?";
}
inline std::string_view want_name(Level c)
{
    for (auto& [v, n] : LEVELS)
        if (v == c)
            return n;
    return "?";
}

template <class T>
struct Fields;
template <class T>
struct SubOf;
template <class... Ts>
struct Types
{
};

// ---------------------------------------------------------------- classification, independent of the library
template <class T>
struct IsOpt : std::false_type
{
};
template <class T>
struct IsOpt<std::optional<T>> : std::true_type
{
};
template <class T>
struct IsArr : std::false_type
{
};
template <class T, std::size_t N>
struct IsArr<std::array<T, N>> : std::true_type
{
};
template <class T>
struct IsVec : std::false_type
{
};
template <class T, std::size_t N>
struct IsVec<fc::FixedVector<T, N>> : std::true_type
{
};
template <class T>
concept HasFields = requires { Fields<T>::N; };

struct Node
{
    std::string path;
    std::vector<std::size_t> idx;
    const char* addr;
    std::size_t size;
    const std::type_info* type;
    char kind;  // p value/pointer, e enum, s string view, o optional, v resizable, a array, S struct
};
template <class T>
constexpr char kind_of()
{
    if constexpr (HasFields<T>)
        return 'S';
    else if constexpr (IsOpt<T>::value)
        return 'o';
    else if constexpr (IsVec<T>::value)
        return 'v';
    else if constexpr (IsArr<T>::value)
        return 'a';
    else if constexpr (std::is_enum_v<T>)
        return 'e';
    else if constexpr (std::is_same_v<T, std::string_view>)
        return 's';
    else
        return 'p';
}
inline std::string join(const std::string& p, const char* n) { return p.empty() ? std::string(n) : p + "." + n; }

// every node of a completely filled object, with every index
template <class T>
void enumerate(const T& t, const std::string& path, const std::vector<std::size_t>& idx, std::vector<Node>& out)
{
    constexpr char K = kind_of<T>();
    out.push_back({path, idx, reinterpret_cast<const char*>(std::addressof(t)), sizeof(T), &typeid(T), K});
    if constexpr (K == 'S')
        Fields<T>::each(t, [&](const char* n, const auto& f) { enumerate(f, join(path, n), idx, out); });
    else if constexpr (K == 'o')
        enumerate(*t, join(path, "value()"), idx, out);
    else if constexpr (K == 'v' || K == 'a')
    {
        std::vector<std::size_t> i2 = idx;
        i2.push_back(0);
        for (std::size_t i = 0; i < t.size(); i++)
        {
            i2.back() = i;
            enumerate(t[i], join(path, "data[:]"), i2, out);
        }
    }
}
// the order of a depth-first walk (first element of every range)
template <class T>
void dfs(const T& t, const std::string& path, std::vector<Node>& pre, std::vector<Node>& post)
{
    constexpr char K = kind_of<T>();
    const Node me{path, {}, reinterpret_cast<const char*>(std::addressof(t)), sizeof(T), &typeid(T), K};
    pre.push_back(me);
    if constexpr (K == 'S')
        Fields<T>::each(t, [&](const char* n, const auto& f) { dfs(f, join(path, n), pre, post); });
    else if constexpr (K == 'o')
        dfs(*t, join(path, "value()"), pre, post);
    else if constexpr (K == 'v' || K == 'a')
        dfs(t[0], join(path, "data[:]"), pre, post);
    post.push_back(me);
}

inline const std::int32_t SOME_INTS[8] = {};
inline double SOME_DOUBLES[8] = {};
template <class T>
void randomize(T& t)
{
    if constexpr (std::is_same_v<T, bool>)
        t = g_rng.chance(1, 2);
    else if constexpr (std::is_same_v<T, Color>)
        t = COLORS[g_rng.below(3)].first;
    else if constexpr (std::is_same_v<T, Level>)
        t = LEVELS[g_rng.below(3)].first;
    else if constexpr (std::is_same_v<T, std::string_view>)
        t = std::string_view("abcdefghij").substr(g_rng.below(5), g_rng.below(6));
    else if constexpr (std::is_same_v<T, const std::int32_t*>)
        t = SOME_INTS + g_rng.below(8);
    else if constexpr (std::is_same_v<T, double*>)
        t = SOME_DOUBLES + g_rng.below(8);
    else if constexpr (std::is_pointer_v<T>)
        t = nullptr;
    else if constexpr (std::is_floating_point_v<T>)
        t = static_cast<T>(g_rng.below(1 << 20));
    else if constexpr (std::is_integral_v<T>)
        t = static_cast<T>(g_rng.next());
    else if constexpr (requires { t.count(); t.flip(); })
        t = T(static_cast<unsigned long long>(g_rng.next()));
    else
        t = T(static_cast<typename T::rep>(g_rng.next() & 0x3fff));
}
// mode 0: everything engaged and full, 1: random shape, 2: everything empty
template <class T>
void fill(T& t, int mode)
{
    constexpr char K = kind_of<T>();
    if constexpr (K == 'S')
        Fields<T>::each(t, [&](const char*, auto& f) { fill(f, mode); });
    else if constexpr (K == 'o')
    {
        if (!t.has_value())
            t.emplace();
        fill(*t, mode);
        if (mode == 2 || (mode == 1 && g_rng.chance(1, 2)))
            t.reset();
    }
    else if constexpr (K == 'v')
    {
        t.resize(t.capacity());
        for (std::size_t i = 0; i < t.size(); i++)
            fill(t[i], mode);
        if (mode != 0)
            t.resize(mode == 2 ? 0 : g_rng.below(t.capacity() + 1));
    }
    else if constexpr (K == 'a')
        for (std::size_t i = 0; i < t.size(); i++)
            fill(t[i], mode);
    else
        randomize(t);
}
// the logical value
template <class T>
void snapshot(const T& t, std::string& out)
{
    constexpr char K = kind_of<T>();
    if constexpr (K == 'S')
        Fields<T>::each(t, [&](const char*, const auto& f) { snapshot(f, out); });
    else if constexpr (K == 'o')
    {
        out += t.has_value() ? 'Y' : 'N';
        if (t.has_value())
            snapshot(*t, out);
    }
    else if constexpr (K == 'v' || K == 'a')
    {
        out += static_cast<char>('0' + t.size());
        for (std::size_t i = 0; i < t.size(); i++)
            snapshot(t[i], out);
    }
    else if constexpr (K == 's')
    {
        out += t;
        out += '|';
    }
    else
        out.append(reinterpret_cast<const char*>(std::addressof(t)), sizeof(T));
}
template <class T>
std::string snap(const T& t)
{
    std::string s;
    snapshot(t, s);
    return s;
}

// zeroed storage for one object
template <class T>
struct Zeroed
{
    alignas(T) unsigned char mem[sizeof(T)];
    T* p;
    Zeroed()
    {
        memset(mem, 0, sizeof mem);
        p = new (mem) T{};
    }
    ~Zeroed() { p->~T(); }
    Zeroed(const Zeroed&) = delete;
    T& operator*() { return *p; }
    T* operator->() { return p; }
    const char* base() const { return reinterpret_cast<const char*>(mem); }
};

inline std::string str(const sv::PathNameChain& c)
{
    std::string s;
    for (std::size_t i = 0; i < c.size(); i++)
    {
        if (i)
            s += '.';
        s += c[i];
    }
    return s;
}
// own splitter, independent of path_from_string
inline sv::PathNameChain chain(const std::string& s)
{
    sv::PathNameChain c;
    std::size_t a = 0;
    while (a <= s.size() && !s.empty())
    {
        std::size_t e = s.find('.', a);
        if (e == std::string::npos)
            e = s.size();
        c.push_back(std::string_view(s).substr(a, e - a));
        a = e + 1;
    }
    return c;
}
inline sv::Indices indices(const std::vector<std::size_t>& v)
{
    sv::Indices r;
    for (auto i : v)
        r.push_back(i);
    return r;
}
inline std::string key(const std::string& p, const std::vector<std::size_t>& idx)
{
    std::string k = p + "#";
    for (auto i : idx)
        k += std::to_string(i) + ",";
    return k;
}

// ---------------------------------------------------------------- reflection of one level
template <class S>
void check_reflection(S& s)
{
    std::vector<Node> want;
    Fields<S>::each(s, [&](const char* n, auto& f)
                    { want.push_back({n, {}, reinterpret_cast<const char*>(std::addressof(f)), sizeof f, &typeid(f), '?'}); });
    VF_CHECK("MODEL", CALL(fc::reflection::field_count_of<S>()) == want.size(), "field_count_of: %zu instead of %zu", fc::reflection::field_count_of<S>(), want.size());
    const auto& names = CALL(fc::reflection::field_names_of<S>());
    VF_CHECK("MODEL", names.size() == want.size(), "field_names_of: %zu names instead of %zu", names.size(), want.size());
    for (std::size_t i = 0; i < want.size(); i++)
        VF_CHECK("MODEL", names[i] == want[i].path, "field_names_of: name %zu is '%s', expected '%s'", i, std::string(names[i]).c_str(), want[i].path.c_str());
    std::size_t i = 0;
    auto visit = [&](auto is_const, std::string_view name, auto&& f)
    {
        using F = std::remove_reference_t<decltype(f)>;
        VF_CHECK("MODEL", i < want.size(), "for_each_field visits more than %zu fields", want.size());
        VF_CHECK("MODEL", name == want[i].path, "for_each_field: field %zu is called '%s', expected '%s'", i, std::string(name).c_str(), want[i].path.c_str());
        VF_CHECK("MODEL", reinterpret_cast<const char*>(std::addressof(f)) == want[i].addr, "for_each_field: '%s' refers to another object", want[i].path.c_str());
        VF_CHECK("MODEL", typeid(std::remove_cv_t<F>) == *want[i].type, "for_each_field: '%s' has another type", want[i].path.c_str());
        VF_CHECK("MODEL", std::is_const_v<F> == decltype(is_const)::value, "for_each_field: constness of '%s'", want[i].path.c_str());
        i++;
    };
    CALL(fc::reflection::for_each_field(s, [&](const std::string_view& name, auto& f) { visit(std::false_type{}, name, f); }));
    VF_CHECK("MODEL", i == want.size(), "for_each_field visited %zu of %zu fields", i, want.size());
    i = 0;
    CALL(fc::reflection::for_each_field(std::as_const(s), [&](const std::string_view& name, const auto& f) { visit(std::true_type{}, name, f); }));
    VF_CHECK("MODEL", i == want.size(), "for_each_field on a const object visited %zu of %zu fields", i, want.size());
}

// ---------------------------------------------------------------- depth-first walk
template <class S>
void check_dfs(S& s, S& full)
{
    std::vector<Node> pre, post;
    dfs(full, "", pre, post);
    const char* fbase = reinterpret_cast<const char*>(&full);
    const char* base = reinterpret_cast<const char*>(&s);
    const std::string before = snap(s);
    std::size_t i = 0, j = 0;
    auto one = [&](const char* what, const std::vector<Node>& want, std::size_t& at, const auto& c, auto& f)
    {
        using F = std::remove_cvref_t<decltype(f)>;
        VF_CHECK("MODEL", at < want.size(), "%s: more than %zu paths", what, want.size());
        const Node& w = want[at];
        VF_CHECK("MODEL", str(c) == w.path, "%s: path %zu is '%s', expected '%s'", what, at, str(c).c_str(), w.path.c_str());
        VF_CHECK("MODEL", reinterpret_cast<const char*>(std::addressof(f)) - base == w.addr - fbase, "%s: '%s' refers to offset %td, expected %td", what,
                 w.path.c_str(), reinterpret_cast<const char*>(std::addressof(f)) - base, w.addr - fbase);
        VF_CHECK("MODEL", typeid(F) == *w.type, "%s: '%s' has another type", what, w.path.c_str());
        at++;
    };
    CALL(rr::for_each_path_dfs(s, [&](const auto& c, auto& f) { one("pre-order", pre, i, c, f); }, [&](const auto& c, auto& f) { one("post-order", post, j, c, f); }));
    VF_CHECK("MODEL", i == pre.size() && j == post.size(), "the walk visited %zu/%zu of %zu paths", i, j, pre.size());
    VF_CHECK("MODEL", snap(s) == before, "the walk changed the object");
    i = 0;
    CALL(rr::for_each_path_dfs(s, [&](const auto& c, auto& f) { one("pre-order only", pre, i, c, f); }));
    VF_CHECK("MODEL", i == pre.size() && snap(s) == before, "the pre-order walk visited %zu of %zu paths or changed the object", i, pre.size());
    const std::size_t count = CALL(sv::path_count_of(s));
    VF_CHECK("MODEL", count == pre.size(), "path_count_of: %zu instead of %zu", count, pre.size());
    auto paths = CALL(sv::extract_paths_of(s));
    std::set<std::string> want_set, got_set;
    for (auto& n : pre)
        want_set.insert(n.path);
    for (auto& c : paths)
        got_set.insert(str(c));
    VF_CHECK("MODEL", want_set == got_set && paths.size() == want_set.size(), "extract_paths_of: %zu paths instead of %zu", paths.size(), want_set.size());
    cover(hash_str(before.c_str()));
}

// ---------------------------------------------------------------- views
inline std::string_view want_metadata(char kind)
{
    using namespace fc::struct_view_detail;
    return kind == 'p' ? AS_PRIMITIVE : kind == 'e' ? AS_PRIMITIVE_ENUM : kind == 's' ? AS_PRIMITIVE_STRING_VIEW : kind == 'o' ? OPTIONAL : kind == 'v' ? ITERABLE_RESIZABLE : ITERABLE;
}
template <class S>
std::vector<Node> nodes_of(const S& full)
{
    std::vector<Node> all, out;
    enumerate(full, "", {}, all);
    for (auto& n : all)
        if (n.kind != 'S')
            out.push_back(n);
    return out;
}
// the view (made from any object) addresses exactly the nodes of 'full' (only those whose path is in 'only', if given)
template <class S, class V>
void check_view(const V& view, S& full, const std::set<std::string>* only, const char* what)
{
    const auto nodes = nodes_of(full);
    std::map<std::string, const Node*> want;
    std::set<std::string> want_paths;
    for (auto& n : nodes)
        if (!only || only->count(n.path))
        {
            want[key(n.path, n.idx)] = &n;
            want_paths.insert(n.path);
        }
    std::set<std::string> got_paths;
    for (const auto& [c, p] : view.get_path_map_ref())
        got_paths.insert(str(c));
    for (auto& p : want_paths)
        VF_CHECK("MODEL", got_paths.count(p), "%s: the view lacks '%s'", what, p.c_str());
    for (auto& p : got_paths)
        VF_CHECK("MODEL", want_paths.count(p), "%s: the view has '%s', which is no field", what, p.c_str());
    for (auto& [k, n] : want)
    {
        const auto c = chain(n->path);
        VF_CHECK("MODEL", CALL(view.contains(c)), "%s: contains('%s') is false", what, n->path.c_str());
        const auto props = CALL(view.at(c));
        VF_CHECK("MODEL", props.metadata.metadata_type == want_metadata(n->kind), "%s: '%s' is described as %s", what, n->path.c_str(), std::string(props.metadata.metadata_type).c_str());
        VF_CHECK("MODEL", props.offset.dim == n->idx.size(), "%s: '%s' has %zu dimensions, expected %zu", what, n->path.c_str(), props.offset.dim, n->idx.size());
        const void* got = CALL(view.get_field(&full, c, indices(n->idx)));
        VF_CHECK("MODEL", got == n->addr, "%s: '%s' is %td bytes away from the field", what, k.c_str(), static_cast<const char*>(got) - n->addr);
    }
    std::set<std::string> seen;
    CALL(sv::for_each_field(view, &full,
                           [&](const auto& c, const auto& props, const auto& idx, void* ptr)
                           {
                               std::vector<std::size_t> v(idx.begin(), idx.end());
                               const std::string k = key(str(c), v);
                               VF_CHECK("MODEL", seen.insert(k).second, "%s: for_each_field visits '%s' twice", what, k.c_str());
                               auto it = want.find(k);
                               VF_CHECK("MODEL", it != want.end(), "%s: for_each_field visits '%s', which is no field", what, k.c_str());
                               VF_CHECK("MODEL", ptr == it->second->addr, "%s: for_each_field: '%s' is %td bytes away from the field", what, k.c_str(),
                                        static_cast<const char*>(ptr) - it->second->addr);
                               VF_CHECK("MODEL", props.metadata.metadata_type == want_metadata(it->second->kind), "%s: for_each_field: '%s' has other metadata", what, k.c_str());
                           }));
    VF_CHECK("MODEL", seen.size() == want.size(), "%s: for_each_field visited %zu of %zu fields", what, seen.size(), want.size());
    cover(mix(want.size(), want_paths.size()));
}

template <class T>
void write_value(void* p)
{
    T t{};
    randomize(t);
    memcpy(p, &t, sizeof t);
}
// visits every leaf with a typed writer
template <class T, class F>
void for_leaves(T& t, const std::string& path, const std::vector<std::size_t>& idx, F&& f)
{
    constexpr char K = kind_of<T>();
    if constexpr (K == 'S')
        Fields<T>::each(t, [&](const char* n, auto& x) { for_leaves(x, join(path, n), idx, f); });
    else if constexpr (K == 'o')
        for_leaves(*t, join(path, "value()"), idx, f);
    else if constexpr (K == 'v' || K == 'a')
    {
        std::vector<std::size_t> i2 = idx;
        i2.push_back(0);
        for (std::size_t i = 0; i < t.size(); i++)
        {
            i2.back() = i;
            for_leaves(t[i], join(path, "data[:]"), i2, f);
        }
    }
    else
        f(path, idx, t);
}

template <class S>
void check_writes(const sv::StructView<>& view, S& full)
{
    // pick one leaf at random, write it through the view, and compare the whole object
    std::size_t leaves = 0;
    for_leaves(full, "", {}, [&](const auto&, const auto&, auto&) { leaves++; });
    const std::size_t pick = g_rng.below(leaves);
    std::vector<char> before(reinterpret_cast<const char*>(&full), reinterpret_cast<const char*>(&full) + sizeof(S));
    std::size_t at = 0, lo = 0, hi = 0;
    bool ok = true;
    std::string where;
    for_leaves(full, "", {},
               [&](const std::string& path, const std::vector<std::size_t>& idx, auto& leaf)
               {
                   if (at++ != pick)
                       return;
                   using L = std::remove_reference_t<decltype(leaf)>;
                   where = key(path, idx);
                   trace("write %s", where.c_str());
                   L value{};
                   randomize(value);
                   void* p = nullptr;
                   CALL(sv::for_each_field(view, &full,
                                          [&](const auto& c, const auto&, const auto& i, void* ptr)
                                          {
                                              if (str(c) == path && std::vector<std::size_t>(i.begin(), i.end()) == idx)
                                                  p = ptr;
                                          }));
                   VF_CHECK("MODEL", p != nullptr, "no pointer for '%s'", where.c_str());
                   *static_cast<L*>(p) = value;
                   ok = leaf == value;
                   lo = static_cast<std::size_t>(reinterpret_cast<const char*>(std::addressof(leaf)) - reinterpret_cast<const char*>(&full));
                   hi = lo + sizeof(L);
               });
    VF_CHECK("MODEL", ok, "a value written through the view to '%s' is not in the field", where.c_str());
    const char* now = reinterpret_cast<const char*>(&full);
    for (std::size_t i = 0; i < sizeof(S); i++)
        VF_CHECK("MODEL", (i >= lo && i < hi) || now[i] == before[i], "writing '%s' changed byte %zu outside the field", where.c_str(), i);
}

template <class S>
void check_call_interfaces(const sv::StructView<>& view, S& s, S& full)
{
    // interfaces are called on the live containers of s; the addresses come from full (same offsets)
    for (auto& n : nodes_of(full))
    {
        if (!n.idx.empty() || n.path.find("value()") != std::string::npos)
            continue;
        auto props = view.at(chain(n.path));
        const char* in_s = reinterpret_cast<const char*>(&s) + (n.addr - reinterpret_cast<const char*>(&full));
        Fields<S>::each(s,
                        [&](const char*, auto& f)
                        {
                            using F = std::remove_reference_t<decltype(f)>;
                            if (reinterpret_cast<const char*>(std::addressof(f)) != in_s || kind_of<F>() != n.kind)
                                return;
                            if constexpr (IsVec<F>::value)
                            {
                                auto api = std::any_cast<sv::ResizableInterableCallInterface>(props.metadata.call_interface);
                                VF_CHECK("MODEL", CALL(api.size(&f)) == f.size() && CALL(api.capacity(&f)) == f.capacity(), "size or capacity through the view of '%s'", n.path.c_str());
                                const std::size_t k = g_rng.below(f.capacity() + 1);
                                CALL(api.resize(&f, k));
                                VF_CHECK("MODEL", f.size() == k, "resize through the view of '%s'", n.path.c_str());
                            }
                            else if constexpr (IsOpt<F>::value)
                            {
                                auto api = std::any_cast<sv::OptionalCallInterface>(props.metadata.call_interface);
                                VF_CHECK("MODEL", CALL(api.has_value(&f)) == f.has_value(), "has_value through the view of '%s'", n.path.c_str());
                                CALL(api.emplace_default(&f));
                                VF_CHECK("MODEL", f.has_value(), "emplace through the view of '%s'", n.path.c_str());
                            }
                            else if constexpr (std::is_enum_v<F>)
                            {
                                auto api = std::any_cast<sv::EnumCallInterface>(props.metadata.call_interface);
                                VF_CHECK("MODEL", CALL(api.enum_name(&f)) == want_name(f), "enum_name through the view of '%s'", n.path.c_str());
                            }
                        });
    }
}

// ---------------------------------------------------------------- sub-structs
template <class P, class Q>
constexpr bool same_shape()
{
    return (HasFields<P> && HasFields<Q>) || (IsOpt<P>::value && IsOpt<Q>::value) || (IsArr<P>::value && IsArr<Q>::value) || (IsVec<P>::value && IsVec<Q>::value) ||
           (std::is_enum_v<P> && std::is_same_v<Q, std::string_view>) || (std::is_pointer_v<Q> && std::is_same_v<std::remove_const_t<std::remove_pointer_t<Q>>, P>);
}
// Does a resizable container or optional hold another one?  sub_struct_view_of walks up to the capacity and so
// also looks at inner containers that are not alive (a documented limitation), so such shapes are completely filled.
template <class T, bool INSIDE = false>
constexpr bool nested_dynamic()
{
    constexpr char K = kind_of<T>();
    if constexpr (K == 'S')
    {
        bool r = false;
        using All = typename Fields<T>::types;
        [&]<class... Fs>(Types<Fs...>) { r = (nested_dynamic<Fs, INSIDE>() || ... || false); }(All{});
        return r;
    }
    else if constexpr (K == 'o' || K == 'v')
    {
        if constexpr (INSIDE)
            return true;
        else
            return nested_dynamic<typename T::value_type, true>();
    }
    else if constexpr (K == 'a')
        return nested_dynamic<typename T::value_type, INSIDE>();
    else
        return false;
}
// fresh: the sub-struct was empty before
template <class P, class Q>
void check_sub(P& p, Q& q, bool fresh, const std::string& path)
{
    if constexpr (!same_shape<P, Q>())
        fail("HARNESS", "'%s' has another shape", path.c_str());
    else if constexpr (HasFields<P>)
        Fields<Q>::each(q, [&](const char* n, auto& qf)
                        { Fields<P>::each(p, [&](const char* m, auto& pf) { if (strcmp(n, m) == 0) check_sub(pf, qf, fresh, join(path, n)); }); });
    else if constexpr (IsOpt<P>::value)
    {
        if (p.has_value() || fresh)
            VF_CHECK("MODEL", p.has_value() == q.has_value(), "sub-struct: '%s' %s", path.c_str(), p.has_value() ? "is empty" : "has a value");
        if (p.has_value())
            check_sub(*p, *q, fresh, join(path, "value()"));
    }
    else if constexpr (IsVec<P>::value)
    {
        if (p.size() <= q.capacity())
            VF_CHECK("MODEL", p.size() == q.size(), "sub-struct: '%s' has %zu elements instead of %zu", path.c_str(), q.size(), p.size());
        for (std::size_t i = 0; i < p.size() && i < q.size(); i++)
            check_sub(p[i], q[i], fresh, join(path, "data[:]") + std::to_string(i));
    }
    else if constexpr (IsArr<P>::value)
    {
        for (std::size_t i = 0; i < p.size() && i < q.size(); i++)
            check_sub(p[i], q[i], fresh, join(path, "data[:]") + std::to_string(i));
    }
    else if constexpr (std::is_enum_v<P>)
        VF_CHECK("MODEL", q == want_name(p), "sub-struct: '%s' is not '%s'", path.c_str(), std::string(want_name(p)).c_str());
    else
        VF_CHECK("MODEL", q == std::addressof(p), "sub-struct: '%s' points %td bytes away from the field", path.c_str(),
                 reinterpret_cast<const char*>(q) - reinterpret_cast<const char*>(std::addressof(p)));
}

template <class S>
void shape_groups(const std::string& id, std::size_t cases)
{
    add_group("model", "reflection<" + id + ">",
              [=]
              {
                  for (std::size_t c = 0; c < n_cases(cases); c++)
                      run_case("fields",
                               [&]
                               {
                                   Zeroed<S> s, full;
                                   fill(*s, static_cast<int>(c % 3));
                                   fill(*full, 0);
                                   check_reflection(*s);
                                   check_dfs(*s, *full);
                                   check_dfs(*full, *full);
                               });
              });
    add_group("model", "view<" + id + ">",
              [=]
              {
                  for (std::size_t c = 0; c < n_cases(cases); c++)
                      run_case("view",
                               [&]
                               {
                                   Zeroed<S> s, full;
                                   fill(*s, static_cast<int>(c % 3));
                                   fill(*full, 0);
                                   const std::string before = snap(*s);
                                   const sv::StructView<> view = CALL(sv::StructView<>(*s));
                                   VF_CHECK("MODEL", snap(*s) == before, "making a view changed the object");
                                   check_view(view, *full, nullptr, "view");
                                   check_writes(view, *full);
                                   check_writes(view, *full);
                                   // views assembled from paths
                                   std::set<std::string> all, some;
                                   for (auto& n : nodes_of(*full))
                                       all.insert(n.path);
                                   for (auto& p : all)
                                       if (g_rng.chance(1, 2))
                                           some.insert(p);
                                   sv::StructView<> part;
                                   for (auto& p : some)
                                       VF_CHECK("MODEL", CALL(part.try_add_path(*s, chain(p))), "try_add_path('%s') failed", p.c_str());
                                   for (const char* bogus : {"no_such_field", "a.no_such_field", "data[:]", "value()"})
                                       if (!all.count(bogus))
                                           VF_CHECK("MODEL", !CALL(part.try_add_path(*s, chain(bogus))), "try_add_path('%s') succeeded", bogus);
                                   check_view(part, *full, &some, "try_add_path");
                                   sv::PathSet<> set;
                                   for (auto& p : some)
                                       set.insert(chain(p));
                                   sv::StructView<> many;
                                   VF_CHECK("MODEL", CALL(many.try_add_paths(*s, set)), "try_add_paths failed");
                                   check_view(many, *full, &some, "try_add_paths");
                                   if constexpr (std::is_default_constructible_v<S>)
                                   {
                                       sv::StructView<> typed;
                                       for (auto& p : some)
                                           VF_CHECK("MODEL", CALL(typed.template try_add_path<S>(chain(p))), "try_add_path<S>('%s') failed", p.c_str());
                                       VF_CHECK("MODEL", !CALL(typed.template try_add_path<S>(chain(std::string("no_such_field")))), "try_add_path<S> of an unknown path succeeded");
                                       check_view(typed, *full, &some, "try_add_path<S>");
                                       sv::StructView<> typed_many;
                                       VF_CHECK("MODEL", CALL(typed_many.template try_add_paths<S>(set)), "try_add_paths<S> failed");
                                       check_view(typed_many, *full, &some, "try_add_paths<S>");
                                   }
                                   const std::string bogus = "no_such_field";
                                   set.insert(chain(bogus));
                                   sv::StructView<> none;
                                   VF_CHECK("MODEL", !CALL(none.try_add_paths(*s, set)) && none.get_path_map_ref().empty(), "try_add_paths with an unknown path");
                                   check_call_interfaces(view, *s, *full);
                               });
              });
    if constexpr (requires { typename SubOf<S>::type; })
        add_group("model", "substruct<" + id + ">",
                  [=]
                  {
                      using Q = typename SubOf<S>::type;
                      for (std::size_t c = 0; c < n_cases(cases); c++)
                          run_case("substruct",
                                   [&]
                                   {
                                       Zeroed<S> s, other, full;
                                       Zeroed<Q> q, qfull;
                                       fill(*other, 1);
                                       fill(*full, 0);
                                       constexpr bool ALL_FULL = nested_dynamic<S>();
                                       fill(*s, 0);
                                       if (!ALL_FULL)
                                           fill(*s, 1);
                                       fill(*qfull, 0);
                                       const sv::StructView<> super_view = c % 2 ? CALL(sv::StructView<>(*other)) : CALL(sv::StructView<>(*other, *q));
                                       const sv::StructView<> sub_view = CALL(sv::StructView<>(*q));
                                       check_view(sub_view, *qfull, nullptr, "sub view");
                                       if (c % 2 == 0)
                                       {
                                           std::set<std::string> shared;
                                           std::vector<Node> qn;
                                           enumerate(*qfull, "", {}, qn);
                                           for (auto& n : qn)
                                               shared.insert(n.path);
                                           check_view(super_view, *full, &shared, "super view");
                                       }
                                       if (ALL_FULL)
                                           fill(*q, 0);
                                       const std::string before = snap(*s);
                                       CALL(sv::sub_struct_view_of(*s, super_view, fc::out<Q>{*q}, sub_view));
                                       VF_CHECK("MODEL", snap(*s) == before, "sub_struct_view_of changed the super-struct");
                                       check_sub(*s, *q, true, "");
                                       cover(hash_str(before.c_str()));
                                       for (int k = 0; k < 3; k++)
                                       {
                                           fill(*s, k == 1 || ALL_FULL ? 0 : 1);
                                           CALL(sv::sub_struct_view_of(*s, super_view, fc::out<Q>{*q}, sub_view));
                                           check_sub(*s, *q, false, "");
                                       }
                                   });
                  });
}

#if PART == 0
struct MisSuper
{
    int a;
    double b;
    float c[3];
};
struct MisGood
{
    const int* a;
    const double* b;
};
struct MisType
{
    const double* a;
};
struct MisName
{
    const int* z;
};
template <class T>
struct One
{
    T a;
};
struct TypeProbe
{
    std::string name;
    sv::StructView<> value, pointer, cpointer, cvpointer;
};
template <class... T>
void probes(std::vector<TypeProbe>& out)
{
    (out.push_back(TypeProbe{std::string(fc::type_name<T>()), sv::StructView<>(One<T>{}), sv::StructView<>(One<T*>{}), sv::StructView<>(One<const T*>{}), sv::StructView<>(One<const volatile T*>{})}), ...);
}
struct TenInts
{
    int a, b, c, d, e, f, g, h, i, j;
};
struct Many
{
    TenInts a, b, c, d, e, f, g, h, i, j, k, l;
};
void mismatch_groups()
{
    add_group("model", "fields of every type viewed as every type",
              []
              {
                  run_case("types",
                           []
                           {
                               std::vector<TypeProbe> p;
                               probes<bool, char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, float, double, long double, char16_t,
                                      char32_t, wchar_t, std::chrono::milliseconds, std::chrono::seconds, std::chrono::duration<double>, std::bitset<8>, std::bitset<80>>(p);
                               for (std::size_t f = 0; f < p.size(); ++f)
                                   for (std::size_t g = 0; g < p.size(); ++g)
                                       for (int form = 0; form < 4; ++form)
                                       {
                                           alignas(32) std::byte super[64]{};
                                           alignas(32) std::byte sub[96];
                                           std::memset(sub, 0x5A, sizeof sub);
                                           const void* const nothing = nullptr;
                                           if (form < 3) std::memcpy(sub, &nothing, sizeof nothing);
                                           const sv::StructView<>& view = form == 0 ? p[g].pointer : form == 1 ? p[g].cpointer : form == 2 ? p[g].cvpointer : p[g].value;
                                           trace("%s viewed as %s, form %d;", p[f].name.c_str(), p[g].name.c_str(), form);
                                           const auto hit = catch_hit([&] { sv::sub_struct_view_of(super, p[f].value, sub, view); }).hit;
                                           cover(mix(f * 64 + g, static_cast<std::uint64_t>(form)));
                                           const void* got{};
                                           std::memcpy(&got, sub, sizeof got);
                                           if (form < 3 && f == g)
                                               VF_CHECK("MODEL", hit != Hit::ABORT && got == super, "a pointer to %s was not filled from a field of that type", p[f].name.c_str());
                                           else
                                           {
                                               VF_CHECK("MODEL", hit == Hit::ABORT, "a field of type %s was viewed as %s%s", p[f].name.c_str(), p[g].name.c_str(), form < 3 ? "*" : "");
                                               std::byte untouched[96];
                                               std::memset(untouched, 0x5A, sizeof untouched);
                                               if (form < 3) std::memcpy(untouched, &nothing, sizeof nothing);
                                               VF_CHECK("MODEL", std::memcmp(sub, untouched, sizeof sub) == 0, "a view of another type was written to");
                                           }
                                       }
                               // the name of an enum value goes into a string_view and nothing else
                               One<Color> es{Color::RED};
                               One<std::string_view> en{};
                               const sv::StructView<> ev(es), env(en);
                               CALL(sv::sub_struct_view_of(es, ev, fc::out<One<std::string_view>>{en}, env));
                               VF_CHECK("MODEL", en.a == "RED", "name of an enum value");
                               for (const auto& q : p)
                               {
                                   alignas(32) std::byte sub[96]{};
                                   VF_CHECK("MODEL", catch_hit([&] { sv::sub_struct_view_of(&es, ev, sub, q.cpointer); }).hit == Hit::ABORT, "an enum was viewed as %s*", q.name.c_str());
                                   VF_CHECK("MODEL", std::all_of(sub, sub + sizeof sub, [](std::byte b) { return b == std::byte{}; }), "the name of an enum value was written over a %s*", q.name.c_str());
                               }
                           });
              });
    add_group("model", "views with other maximum sizes",
              []
              {
                  run_case("sizes",
                           []
                           {
                               Many m{};
                               const sv::StructView<150> all(m);
                               VF_CHECK("MODEL", all.get_path_map_ref().size() == 120, "a struct of 120 fields has %zu paths", all.get_path_map_ref().size());
                               sv::PathSet<150> paths{};
                               std::size_t k = 0;
                               std::vector<const void*> want;
                               for (TenInts* t : {&m.a, &m.b, &m.c, &m.d, &m.e, &m.f, &m.g, &m.h, &m.i, &m.j, &m.k, &m.l})
                                   for (int* x : {&t->a, &t->b, &t->c, &t->d, &t->e, &t->f, &t->g, &t->h, &t->i, &t->j}) want.push_back(x);
                               for (const auto& [path, props] : all.get_path_map_ref())
                               {
                                   const void* got = CALL(all.get_field(&m, path, {}));
                                   VF_CHECK("MODEL", got == want[k], "field %zu of 120 is at offset %td, expected %td", k, reinterpret_cast<const std::byte*>(got) - reinterpret_cast<const std::byte*>(&m),
                                            reinterpret_cast<const std::byte*>(want[k]) - reinterpret_cast<const std::byte*>(&m));
                                   paths.insert(path);
                                   ++k;
                               }
                               sv::StructView<121> some{};
                               VF_CHECK("MODEL", CALL(some.try_add_paths<Many>(paths)), "120 paths of the struct were rejected");
                               VF_CHECK("MODEL", some.get_path_map_ref().size() == 120, "120 paths were added, the view has %zu", some.get_path_map_ref().size());
                               paths.insert(sv::PathNameChain{"nothing"});
                               VF_CHECK("MODEL", !CALL(some.try_add_paths<Many>(paths)), "a path that does not exist was accepted");
                               MisSuper s{};
                               MisGood g{};
                               const sv::StructView<2> exact(g);
                               const sv::StructView<2> both(s, g);
                               CALL(sv::sub_struct_view_of(s, both, fc::out<MisGood>{g}, exact));
                               VF_CHECK("MODEL", g.a == &s.a && g.b == &s.b, "sub-struct of two fields with views of size two");
                               std::array<MisSuper, 5> arr{};
                               const sv::ContiguousRangeSubStructView<MisGood, 2> range(arr);
                               for (std::size_t i = 0; i < 5; ++i) VF_CHECK("MODEL", range.at(i).a == &arr[i].a && range.at(i).b == &arr[i].b, "element %zu of a range view of size two", i);
                           });
              });
    add_group("model", "sub-structs that do not fit",
              []
              {
                  run_case("mismatch",
                           []
                           {
                               MisSuper s{};
                               MisGood g{};
                               MisType t{};
                               MisName n{};
                               const sv::StructView<> super_view(s);
                               const sv::StructView<> good(g), type(t), name(n);
                               CALL(sv::sub_struct_view_of(s, super_view, fc::out<MisGood>{g}, good));
                               VF_CHECK("MODEL", g.a == &s.a && g.b == &s.b, "sub-struct of two fields");
                               VF_CHECK("MODEL", catch_hit([&] { sv::sub_struct_view_of(s, super_view, fc::out<MisType>{t}, type); }).hit == Hit::ABORT, "a field of another type was not reported");
                               VF_CHECK("MODEL", t.a == nullptr, "a field of another type was filled");
                               VF_CHECK("MODEL", catch_hit([&] { sv::sub_struct_view_of(s, super_view, fc::out<MisName>{n}, name); }).hit == Hit::ABORT, "a field that the super-struct does not have was not reported");
                               VF_CHECK("MODEL", n.z == nullptr, "a field that the super-struct does not have was filled");
                           });
              });
}
struct Pt
{
    std::int64_t x{}, y{}, z{};
};
struct PtXZ
{
    const std::int64_t* z{};
    std::int64_t* x{};
};
struct Pad
{
    char c{};
    double d{};
    bool b{};
    std::int32_t i{};
    Color e{Color::RED};
};
struct PadV
{
    const Color* unused() const { return nullptr; }
    const double* d{};
    std::string_view e{};
    const char* c{};
};
struct OneByte
{
    std::uint8_t v{};
};
struct OneByteV
{
    const std::uint8_t* v{};
};
struct alignas(32) Wide
{
    std::int16_t a{};
    std::array<std::int32_t, 3> arr{};
    std::int16_t b{};
};
struct WideV
{
    const std::int16_t* b{};
    std::array<const std::int32_t*, 2> arr{};
};
struct Deep5
{
    std::array<std::array<std::array<std::array<std::array<std::int16_t, 2>, 1>, 3>, 2>, 2> t{};
};
struct DeepMixed
{
    fc::FixedVector<std::array<fc::FixedVector<Pad, 2>, 3>, 2> t{};
    std::optional<std::array<std::optional<Pt>, 2>> o{};
};
// fields further than 64 KiB apart
struct alignas(4096) Page
{
    std::int32_t v{};
    std::int16_t w{};
};
struct PageV
{
    const std::int16_t* w{};
};
struct Pages
{
    char c{};
    std::array<std::array<Page, 3>, 8> m{};
    fc::FixedVector<Page, 18> v{};
    std::optional<Page> o{};
    std::int32_t tail{};
};
struct PrefixNames
{
    int a{};
    int aa{};
    struct In
    {
        int a{};
        int aa{};
        int b{};
    } b{}, bb{};
    int data{};
};
struct BaseA
{
    int x{};
    std::array<short, 2> y{};
};
struct MidA : BaseA
{
};
struct DerivedA : MidA
{
};
struct HoldsDerived
{
    char pad{};
    DerivedA d{};
    std::array<DerivedA, 2> ds{};
};
struct Empty
{
};
struct HoldsEmpty
{
    Empty e{};
    int x{};
    Empty f{};
};
struct Statics
{
    int a{};
    static constexpr int S = 3;
    int b{};
    static int method() { return 1; }
    using Alias = int;
    double c{};
};
#define UNPAREN(...) __VA_ARGS__
#define FIELDS(S, N_, T_, ...)                   \
    template <>                                  \
    struct Fields<S>                             \
    {                                            \
        static constexpr std::size_t N = N_;     \
        using types = Types<UNPAREN T_>;         \
        template <class X, class F>              \
        static void each(X& s, F&& f)            \
        {                                        \
            __VA_ARGS__                          \
        }                                        \
    };
#define FF(n) f(#n, s.n);
FIELDS(Pt, 3, (decltype(Pt::x), decltype(Pt::y), decltype(Pt::z)), FF(x) FF(y) FF(z))
FIELDS(Page, 2, (decltype(Page::v), decltype(Page::w)), FF(v) FF(w))
FIELDS(PageV, 1, (decltype(PageV::w)), FF(w))
FIELDS(Pages, 5, (decltype(Pages::c), decltype(Pages::m), decltype(Pages::v), decltype(Pages::o), decltype(Pages::tail)), FF(c) FF(m) FF(v) FF(o) FF(tail))
FIELDS(PtXZ, 2, (decltype(PtXZ::z), decltype(PtXZ::x)), FF(z) FF(x))
FIELDS(Pad, 5, (decltype(Pad::c), decltype(Pad::d), decltype(Pad::b), decltype(Pad::i), decltype(Pad::e)), FF(c) FF(d) FF(b) FF(i) FF(e))
FIELDS(PadV, 3, (decltype(PadV::d), decltype(PadV::e), decltype(PadV::c)), FF(d) FF(e) FF(c))
FIELDS(OneByte, 1, (decltype(OneByte::v)), FF(v))
FIELDS(OneByteV, 1, (decltype(OneByteV::v)), FF(v))
FIELDS(Wide, 3, (decltype(Wide::a), decltype(Wide::arr), decltype(Wide::b)), FF(a) FF(arr) FF(b))
FIELDS(WideV, 2, (decltype(WideV::b), decltype(WideV::arr)), FF(b) FF(arr))
FIELDS(Deep5, 1, (decltype(Deep5::t)), FF(t))
FIELDS(DeepMixed, 2, (decltype(DeepMixed::t), decltype(DeepMixed::o)), FF(t) FF(o))
FIELDS(PrefixNames::In, 3, (decltype(PrefixNames::In::a), decltype(PrefixNames::In::aa), decltype(PrefixNames::In::b)), FF(a) FF(aa) FF(b))
FIELDS(PrefixNames, 5, (decltype(PrefixNames::a), decltype(PrefixNames::aa), decltype(PrefixNames::b), decltype(PrefixNames::bb), decltype(PrefixNames::data)), FF(a) FF(aa) FF(b) FF(bb) FF(data))
FIELDS(DerivedA, 2, (decltype(DerivedA::x), decltype(DerivedA::y)), FF(x) FF(y))
FIELDS(HoldsDerived, 3, (decltype(HoldsDerived::pad), decltype(HoldsDerived::d), decltype(HoldsDerived::ds)), FF(pad) FF(d) FF(ds))
FIELDS(Empty, 0, (), )
FIELDS(HoldsEmpty, 3, (decltype(HoldsEmpty::e), decltype(HoldsEmpty::x), decltype(HoldsEmpty::f)), FF(e) FF(x) FF(f))
FIELDS(Statics, 3, (decltype(Statics::a), decltype(Statics::b), decltype(Statics::c)), FF(a) FF(b) FF(c))
template <>
struct SubOf<Pt>
{
    using type = PtXZ;
};
template <>
struct SubOf<Pad>
{
    using type = PadV;
};
template <>
struct SubOf<Wide>
{
    using type = WideV;
};

// ---- views of ranges of structs
template <class C, class Q>
void range_view_case(C& cont, const char* what)
{
    using S = typename C::value_type;
    using V = sv::ContiguousRangeSubStructView<Q>;
    const std::size_t n = cont.size();
    V view = CALL(V(cont));
    if (g_rng.chance(1, 3))
    {
        V copy(view);
        V assigned;
        VF_CHECK("MODEL", assigned.size() == 0 && CALL(assigned.begin() == assigned.end()), "%s: default-constructed view", what);
        assigned = copy;
        view = assigned;
    }
    VF_CHECK("MODEL", CALL(view.size()) == n, "%s: size %zu instead of %zu", what, view.size(), n);
    for (std::size_t i = 0; i < n; i++)
    {
        auto q = CALL(view.at(i));
        check_sub(cont.data()[i], q, true, std::string(what) + "at");
    }
    std::size_t i = 0;
    for (auto it = CALL(view.begin()); CALL(it != view.end()); ++it, ++i)
    {
        VF_CHECK("MODEL", i < n, "%s: iteration goes past %zu elements", what, n);
        auto q = CALL(*it);
        check_sub(cont.data()[i], q, true, std::string(what) + "iteration");
    }
    VF_CHECK("MODEL", i == n, "%s: iteration visits %zu of %zu elements", what, i, n);
    const V& cview = view;
    VF_CHECK("MODEL", CALL(cview.end() - cview.begin()) == static_cast<std::ptrdiff_t>(n), "%s: end - begin", what);
    if (n)
    {
        const std::size_t a = g_rng.below(n), b = g_rng.below(n);
        auto ia = CALL(cview.begin() + static_cast<std::ptrdiff_t>(a));
        auto ib = CALL(cview.cend() - static_cast<std::ptrdiff_t>(n - b));
        auto qa = CALL(*ia);
        auto qb = CALL(ia[static_cast<std::ptrdiff_t>(b) - static_cast<std::ptrdiff_t>(a)]);
        check_sub(cont.data()[a], qa, true, std::string(what) + "begin+n");
        check_sub(cont.data()[b], qb, true, std::string(what) + "subscript");
        VF_CHECK("MODEL", CALL(ia - ib) == static_cast<std::ptrdiff_t>(a) - static_cast<std::ptrdiff_t>(b) && CALL(ia < ib) == (a < b) && CALL(ia == ib) == (a == b) && CALL(ia >= ib) == (a >= b),
                 "%s: iterator order at %zu, %zu", what, a, b);
    }
    VF_CHECK("MODEL", catch_hit([&] { (void)view.at(n); }).hit == Hit::ABORT, "%s: at(size()) was not reported", what);
    VF_CHECK("MODEL", catch_hit([&] { (void)view.at(n + 1 + g_rng.below(5)); }).hit == Hit::ABORT, "%s: at(beyond size()) was not reported", what);
    {
        volatile std::ptrdiff_t sink = 0;
        const V other(cont);
        VF_CHECK("MODEL", catch_hit([&] { (void)*cview.end(); }).hit == Hit::ABORT, "%s: reading the end of a range view was not reported", what);
        VF_CHECK("MODEL", catch_hit([&] { sink = cview.begin() == other.begin(); }).hit == Hit::ABORT, "%s: comparing positions of two range views was not reported", what);
        VF_CHECK("MODEL", catch_hit([&] { sink = cview.begin() < other.end(); }).hit == Hit::ABORT, "%s: ordering positions of two range views was not reported", what);
        VF_CHECK("MODEL", catch_hit([&] { sink = cview.end() - other.begin(); }).hit == Hit::ABORT, "%s: the distance of positions of two range views was not reported", what);
    }
    cover(mix(n, sizeof(S)));
}
template <class S, class Q>
void range_groups(const char* id)
{
    add_group("model", std::string("range_view<") + id + ">",
              []
              {
                  for (std::size_t c = 0; c < n_cases(40); c++)
                      run_case("range view",
                               [&]
                               {
                                   fc::FixedVector<S, 9> v;
                                   v.resize(g_rng.below(10));
                                   for (auto& e : v)
                                       fill(e, 0);
                                   range_view_case<fc::FixedVector<S, 9>, Q>(v, "FixedVector ");
                                   std::array<S, 4> a{};
                                   for (auto& e : a)
                                       fill(e, 0);
                                   range_view_case<std::array<S, 4>, Q>(a, "std::array ");
                                   std::vector<S> sv_(g_rng.below(6));
                                   for (auto& e : sv_)
                                       fill(e, 0);
                                   range_view_case<std::vector<S>, Q>(sv_, "std::vector ");
                                   std::span<S> sp(sv_);
                                   range_view_case<std::span<S>, Q>(sp, "std::span ");
                               });
              });
}

void path_groups()
{
    add_group("model", "path strings",
              []
              {
                  for (std::size_t c = 0; c < n_cases(2000); c++)
                      run_case("path string",
                               [&]
                               {
                                   std::vector<std::string> comps;
                                   const std::size_t n = g_rng.below(17);
                                   for (std::size_t i = 0; i < n; i++)
                                   {
                                       std::string s;
                                       if (g_rng.chance(1, 4))
                                           s = g_rng.chance(1, 2) ? "data[:]" : "value()";
                                       else
                                           for (std::size_t k = g_rng.range(1, 4); k-- > 0;)
                                               s += "abz_09: "[g_rng.below(8)];
                                       comps.push_back(s);
                                   }
                                   std::string whole;
                                   for (std::size_t i = 0; i < n; i++)
                                       whole += (i ? "." : "") + comps[i];
                                   trace("path '%s'", whole.c_str());
                                   auto path = CALL(sv::path_from_string(whole));
                                   VF_CHECK("MODEL", path.size() == n, "path_from_string: %zu components instead of %zu", path.size(), n);
                                   for (std::size_t i = 0; i < n; i++)
                                       VF_CHECK("MODEL", path[i] == comps[i], "path_from_string: component %zu", i);
                                   VF_CHECK("MODEL", CALL(sv::path_to_string<std::string>(path)) == whole, "path_to_string does not restore the string");
                                   std::string prev = "previous";
                                   auto r = CALL(sv::path_to_string(path, fc::out<std::string>{prev}));
                                   VF_CHECK("MODEL", prev == whole && r == whole, "path_to_string into an existing string: '%s'", prev.c_str());
                                   fc::FixedString<128> fs("old");
                                   auto fr = CALL(sv::path_to_string(path, fc::out<fc::FixedString<128>>{fs}));
                                   VF_CHECK("MODEL", std::string_view(fs) == whole && std::string_view(fr) == whole, "path_to_string into a FixedString");
                                   cover(hash_str(whole.c_str()));
                               });
              });
    add_group("model", "tensor offsets",
              []
              {
                  for (std::size_t c = 0; c < n_cases(2000); c++)
                      run_case("tensor",
                               [&]
                               {
                                   sv::FixedTensorView t;
                                   // strides and indices are std::size_t: offsets beyond 16 and 32 bits as well
                                   const int wide = static_cast<int>(c % 3);
                                   t.base_offset = g_rng.below(wide == 2 ? std::size_t{1} << 40 : wide == 1 ? 200000 : 1000);
                                   t.dim = g_rng.below(6);
                                   sv::Indices idx;
                                   std::size_t want = t.base_offset;
                                   for (std::size_t i = 0; i < t.dim; i++)
                                   {
                                       const std::size_t stride = g_rng.below(wide == 2 ? std::size_t{1} << 36 : wide == 1 ? 100000 : 100);
                                       const std::size_t k = g_rng.below(wide == 2 ? 100000 : 50);
                                       t.strides.push_back(stride);
                                       t.capacity.push_back(wide == 2 ? 100000 : 50);
                                       idx.push_back(k);
                                       want += stride * k;
                                   }
                                   VF_CHECK("MODEL", CALL(t.get_offset(idx)) == want, "get_offset");
                                   cover(want);
                               });
              });
}
#endif

#if PART >= 1 && PART < 10
#include "structs_gen.hpp"
template <class... Ts>
void all_shapes(Types<Ts...>)
{
    int i = 0;
    (shape_groups<Ts>(std::to_string(i++), 12), ...);
}
#endif

#if PART >= 10
#if PART == 10
inline constexpr std::size_t LO = 1, HI = 128;
#else
inline constexpr std::size_t LO = 129 + (PART - 11) * 112, HI = LO + 111;
#endif
struct CollectInts
{
    std::vector<const void*>* out;
    template <class... A>
    std::size_t operator()(A&... a) const
    {
        const int* ptrs[] = {&a...};
        for (const int* p : ptrs)
            out->push_back(p);
        return sizeof...(A) + 7;
    }
};
template <std::size_t C>
void decompose_one()
{
    int a[C] = {};
    std::vector<const void*> seen;
    CollectInts f{&seen};
    const std::size_t r = CALL(fc::struct_decomposition::to_parameter_pack<C>(a, f));
    VF_CHECK("MODEL", r == C + 7, "decomposition into %zu fields: the function's result is lost", C);
    VF_CHECK("MODEL", seen.size() == C, "decomposition into %zu fields yields %zu", C, seen.size());
    for (std::size_t i = 0; i < C; i++)
        VF_CHECK("MODEL", seen[i] == &a[i], "decomposition into %zu fields: parameter %zu is another field", C, i);
    cover(C);
}
template <std::size_t C>
void decompose_from()
{
    if constexpr (C <= HI)
    {
        run_case("decompose", [] { decompose_one<C>(); });
        decompose_from<C + 1>();
    }
}
#endif

int main(int argc, char** argv)
{
#if PART == 0
    shape_groups<Pt>("Pt", 20);
    shape_groups<Pad>("Pad", 20);
    shape_groups<Wide>("Wide", 20);
    shape_groups<Deep5>("Deep5", 6);
    shape_groups<DeepMixed>("DeepMixed", 10);
    shape_groups<PrefixNames>("PrefixNames", 10);
    shape_groups<Pages>("Pages", 3);
    shape_groups<DerivedA>("DerivedA", 10);
    shape_groups<HoldsDerived>("HoldsDerived", 10);
    shape_groups<HoldsEmpty>("HoldsEmpty", 10);
    shape_groups<Statics>("Statics", 10);
    range_groups<Pt, PtXZ>("Pt");
    range_groups<Pad, PadV>("Pad");
    range_groups<OneByte, OneByteV>("OneByte");
    range_groups<Wide, WideV>("Wide");
    range_groups<Page, PageV>("Page");
    path_groups();
    mismatch_groups();
#elif PART < 10
    all_shapes(AllShapes{});
#else
    add_group("model", "decomposition " + std::to_string(LO) + ".." + std::to_string(HI), [] { decompose_from<LO>(); });
#endif
    return driver_main(argc, argv);
}
