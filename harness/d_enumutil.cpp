// C17: enum adapters, rich enums, lookups.
#include "fw.hpp"

#include "enums.hpp"
#include "fixed_containers/enum_utils.hpp"

#include <unordered_set>

namespace fc = fixed_containers;
namespace re = fixed_containers::rich_enums;
using namespace vf;
using namespace vfe;

namespace
{
// more shapes --------------------------------------------------------------------------------
enum class EBig : std::uint64_t
{
    zero = 0,
    one = 1,
    top = 127,
    mid = 64
};
enum class EBool : bool
{
    off,
    on
};
enum ELegacy
{
    legacy_b = 2,
    legacy_a = 1,
    legacy_neg = -5
};
enum class EPrefix
{
    abc,
    ab,
    a,
    abcd,
    Abc,
    ABC,
    abc_
};

// a rich enum that carries data
enum class PlanetBacking
{
    MERCURY,
    VENUS,
    EARTH,
    MARS
};
class Planet;
class Planet : public re::SkeletalRichEnum<Planet, PlanetBacking>
{
    friend SkeletalRichEnum::ValuesFriend;
    using SkeletalRichEnum::SkeletalRichEnum;

public:
    constexpr Planet() noexcept = default;
    [[nodiscard]] constexpr int mass() const
    {
        switch (backing_enum())
        {
        case PlanetBacking::MERCURY: return 3;
        case PlanetBacking::VENUS: return 48;
        case PlanetBacking::EARTH: return 59;
        case PlanetBacking::MARS: return 6;
        }
        return -1;
    }
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(Planet, MERCURY)
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(Planet, VENUS)
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(Planet, EARTH)
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(Planet, MARS)
};
// a rich enum whose values carry stored fields
enum class FieldBacking : std::uint8_t
{
    lo = 3,
    hi = 9,
    mid = 5
};
class Field;
class FieldValues;
class Field : public re::SkeletalRichEnumLite<Field, FieldBacking>
{
    friend class FieldValues;
    friend SkeletalRichEnumLite::ValuesFriend;
    constexpr Field(FieldBacking b, int payload, const char* label) : SkeletalRichEnumLite(b), payload_(payload), label_(label) {}

public:
    int payload_ = -1;
    const char* label_ = "none";
    constexpr Field() noexcept = default;
    static constexpr std::size_t count() { return 3; }
    static constexpr const std::array<Field, 3>& values();
    [[nodiscard]] constexpr std::size_t ordinal() const
    {
        return backing_enum() == FieldBacking::hi ? 0 : backing_enum() == FieldBacking::lo ? 1 : 2;
    }
    [[nodiscard]] constexpr std::string_view to_string() const
    {
        return backing_enum() == FieldBacking::hi ? "hi" : backing_enum() == FieldBacking::lo ? "lo" : "mid";
    }
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(Field, hi)
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(Field, lo)
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(Field, mid)
};
class FieldValues
{
    friend class Field;
    static constexpr std::array<Field, 3> VALUES{Field{FieldBacking::hi, 90, "H"}, Field{FieldBacking::lo, 30, "L"}, Field{FieldBacking::mid, 50, "M"}};
};
constexpr const std::array<Field, 3>& Field::values() { return FieldValues::VALUES; }

// backing values permuted inside [0, count): the optimistic index guess of a lookup finds the wrong one
enum class PermBacking : unsigned
{
    p2 = 2,
    p0 = 0,
    p3 = 3,
    p1 = 1
};
class Perm;
class PermValues;
class Perm : public re::SkeletalRichEnumLite<Perm, PermBacking>
{
    friend class PermValues;
    friend SkeletalRichEnumLite::ValuesFriend;
    using SkeletalRichEnumLite::SkeletalRichEnumLite;

public:
    constexpr Perm() noexcept = default;
    static constexpr std::size_t count() { return 4; }
    static constexpr const std::array<Perm, 4>& values();
    [[nodiscard]] constexpr std::size_t ordinal() const;
    [[nodiscard]] constexpr std::string_view to_string() const
    {
        constexpr std::string_view N[] = {"p0", "p1", "p2", "p3"};
        return N[static_cast<std::size_t>(backing_enum())];
    }
};
class PermValues
{
    friend class Perm;
    static constexpr std::array<Perm, 4> VALUES{Perm{PermBacking::p2}, Perm{PermBacking::p0}, Perm{PermBacking::p3}, Perm{PermBacking::p1}};
};
constexpr const std::array<Perm, 4>& Perm::values() { return PermValues::VALUES; }
constexpr std::size_t Perm::ordinal() const
{
    constexpr std::size_t O[] = {1, 3, 0, 2};
    return O[static_cast<std::size_t>(backing_enum())];
}
// a bool-backed rich enum declared the other way round
enum class FlipBacking : bool
{
    yes = true,
    no = false
};
class Flip : public re::NonDefaultConstructibleSkeletalRichEnum<Flip, FlipBacking>
{
    friend SkeletalRichEnum::ValuesFriend;
    using NonDefaultConstructibleSkeletalRichEnum::NonDefaultConstructibleSkeletalRichEnum;

public:
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(Flip, yes)
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(Flip, no)
};
class FlipLite;
class FlipLiteValues;
class FlipLite : public re::SkeletalRichEnumLite<FlipLite, FlipBacking>
{
    friend class FlipLiteValues;
    friend SkeletalRichEnumLite::ValuesFriend;
    using SkeletalRichEnumLite::SkeletalRichEnumLite;

public:
    constexpr FlipLite() noexcept = default;
    static constexpr std::size_t count() { return 2; }
    static constexpr const std::array<FlipLite, 2>& values();
    [[nodiscard]] constexpr std::size_t ordinal() const { return backing_enum() == FlipBacking::yes ? 0 : 1; }
    [[nodiscard]] constexpr std::string_view to_string() const { return backing_enum() == FlipBacking::yes ? "yes" : "no"; }
};
class FlipLiteValues
{
    friend class FlipLite;
    static constexpr std::array<FlipLite, 2> VALUES{FlipLite{FlipBacking::yes}, FlipLite{FlipBacking::no}};
};
constexpr const std::array<FlipLite, 2>& FlipLite::values() { return FlipLiteValues::VALUES; }
// extreme backing values
enum class EdgeBacking : std::int16_t
{
    lowest = -32768,
    minus = -1,
    zero = 0,
    almost = 32766
};
class Edge;
class EdgeValues;
class Edge : public re::SkeletalRichEnumLite<Edge, EdgeBacking>
{
    friend class EdgeValues;
    friend SkeletalRichEnumLite::ValuesFriend;
    using SkeletalRichEnumLite::SkeletalRichEnumLite;

public:
    constexpr Edge() noexcept = default;
    static constexpr std::size_t count() { return 4; }
    static constexpr const std::array<Edge, 4>& values();
    [[nodiscard]] constexpr std::size_t ordinal() const
    {
        switch (backing_enum())
        {
        case EdgeBacking::minus: return 0;
        case EdgeBacking::lowest: return 1;
        case EdgeBacking::almost: return 2;
        case EdgeBacking::zero: return 3;
        }
        return 99;
    }
    [[nodiscard]] constexpr std::string_view to_string() const
    {
        constexpr std::string_view N[] = {"minus", "lowest", "almost", "zero"};
        return N[ordinal()];
    }
};
class EdgeValues
{
    friend class Edge;
    static constexpr std::array<Edge, 4> VALUES{Edge{EdgeBacking::minus}, Edge{EdgeBacking::lowest}, Edge{EdgeBacking::almost}, Edge{EdgeBacking::zero}};
};
constexpr const std::array<Edge, 4>& Edge::values() { return EdgeValues::VALUES; }
}  // namespace

namespace vfe
{
#define KEYS(T, ALLV, NAMESV)                                        \
    template <>                                                      \
    struct Keys<T>                                                   \
    {                                                                \
        static constexpr const char* name = #T;                      \
        static std::vector<T> all() { return std::vector<T> ALLV; }  \
        static std::vector<std::string> names() { return NAMESV; }   \
    };
#define STRS(...) std::vector<std::string>{__VA_ARGS__}
KEYS(EBig, ({EBig::zero, EBig::one, EBig::mid, EBig::top}), STRS("zero", "one", "mid", "top"))
KEYS(EBool, ({EBool::off, EBool::on}), STRS("off", "on"))
KEYS(ELegacy, ({legacy_neg, legacy_a, legacy_b}), STRS("legacy_neg", "legacy_a", "legacy_b"))
KEYS(EPrefix, ({EPrefix::abc, EPrefix::ab, EPrefix::a, EPrefix::abcd, EPrefix::Abc, EPrefix::ABC, EPrefix::abc_}), STRS("abc", "ab", "a", "abcd", "Abc", "ABC", "abc_"))
KEYS(Planet, ({Planet::MERCURY(), Planet::VENUS(), Planet::EARTH(), Planet::MARS()}), STRS("MERCURY", "VENUS", "EARTH", "MARS"))
KEYS(Field, ({Field::hi(), Field::lo(), Field::mid()}), STRS("hi", "lo", "mid"))
KEYS(Perm, ({Perm::values()[0], Perm::values()[1], Perm::values()[2], Perm::values()[3]}), STRS("p2", "p0", "p3", "p1"))
KEYS(Flip, ({Flip::no(), Flip::yes()}), STRS("no", "yes"))
KEYS(FlipLite, ({FlipLite::values()[0], FlipLite::values()[1]}), STRS("yes", "no"))
KEYS(Edge, ({Edge::values()[0], Edge::values()[1], Edge::values()[2], Edge::values()[3]}), STRS("minus", "lowest", "almost", "zero"))
}  // namespace vfe

namespace
{
std::vector<std::string> near_misses(const std::vector<std::string>& names)
{
    std::vector<std::string> r{"", " ", "INVALID", std::string("\0", 1)};
    for (const auto& n : names)
    {
        r.push_back(n + " ");
        r.push_back(" " + n);
        r.push_back(n + n);
        r.push_back(n + std::string("\0", 1));
        r.push_back(n + std::string("\0x", 2));
        r.push_back(n.substr(0, n.size() - 1));
        r.push_back(n.substr(1));
        r.push_back(n + "_");
        std::string u = n;
        for (auto& c : u)
            c = static_cast<char>(c ^ 0x20);
        r.push_back(u);
        std::string v = n;
        v[g_rng.below(v.size())] = static_cast<char>('!' + g_rng.below(90));
        r.push_back(v);
        std::string w = n;
        std::reverse(w.begin(), w.end());
        r.push_back(w);
    }
    return r;
}
// a view of the same characters in an exact-size block, with nothing readable behind it
struct Exact
{
    std::unique_ptr<char[]> p;
    std::string_view v;
    explicit Exact(const std::string& s) : p(new char[s.size() + (s.empty() ? 1 : 0)])
    {
        std::memcpy(p.get(), s.data(), s.size());
        v = std::string_view(p.get(), s.size());
    }
};

template <class K>
void adapter_groups()
{
    add_group("model", std::string("adapter ") + Keys<K>::name,
              []
              {
                  using A = re::EnumAdapter<K>;
                  static_assert(re::has_enum_adapter<K>);
                  for (std::size_t k = 0; k < n_cases(20); k++)
                      run_case("adapter",
                               [&]
                               {
                                   const auto keys = Keys<K>::all();
                                   const auto names = Keys<K>::names();
                                   VF_CHECK("MODEL", LIB(A::count()) == keys.size(), "count() is %zu, declared %zu", A::count(), keys.size());
                                   const auto& vals = LIB(A::values());
                                   VF_CHECK("MODEL", vals.size() == keys.size(), "values() has %zu entries", vals.size());
                                   for (std::size_t i = 0; i < keys.size(); i++)
                                   {
                                       cover(mix(i, hash_str(names[i].c_str())));
                                       VF_CHECK("MODEL", vals[i] == keys[i], "values()[%zu] is not %s", i, names[i].c_str());
                                       VF_CHECK("MODEL", LIB(A::ordinal(keys[i])) == i, "ordinal of %s is %zu, expected %zu", names[i].c_str(), A::ordinal(keys[i]), i);
                                       VF_CHECK("MODEL", LIB(A::to_string(keys[i])) == names[i], "to_string of %s is %s", names[i].c_str(), std::string(A::to_string(keys[i])).c_str());
                                       for (std::size_t j = 0; j < keys.size(); j++)
                                           VF_CHECK("MODEL", (keys[i] == keys[j]) == (i == j), "%s == %s", names[i].c_str(), names[j].c_str());
                                   }
                                   VF_CHECK("MODEL", &A::values() == &vals, "values() moved");
                               });
              });
}

template <class R>
void rich_groups()
{
    adapter_groups<R>();
    add_group("model", std::string("rich ") + Keys<R>::name,
              []
              {
                  using B = typename R::BackingEnum;
                  using U = std::underlying_type_t<B>;
                  static_assert(re::is_rich_enum<R>);
                  for (std::size_t k = 0; k < n_cases(40); k++)
                      run_case("rich",
                               [&]
                               {
                                   const auto keys = Keys<R>::all();
                                   const auto names = Keys<R>::names();
                                   const std::size_t n = keys.size();
                                   VF_CHECK("MODEL", LIB(R::count()) == n && LIB(R::values()).size() == n, "count()");
                                   for (std::size_t i = 0; i < n; i++)
                                   {
                                       const R& r = keys[i];
                                       const B b = LIB(r.backing_enum());
                                       cover(mix(i, hash_str(names[i].c_str())));
                                       trace("%s", names[i].c_str());
                                       VF_CHECK("MODEL", LIB(R::values()[i]) == r, "values()[%zu]", i);
                                       VF_CHECK("MODEL", LIB(r.has_value()), "%s has no value", names[i].c_str());
                                       VF_CHECK("MODEL", LIB(static_cast<B>(r)) == b, "conversion to the backing enum");
                                       VF_CHECK("MODEL", LIB(r.ordinal()) == i, "ordinal of %s is %zu", names[i].c_str(), r.ordinal());
                                       VF_CHECK("MODEL", LIB(r.to_string()) == names[i], "to_string of %s", names[i].c_str());
                                       // lookups
                                       const Exact ex(names[i]);
                                       const auto by_name = LIB(R::value_of(ex.v));
                                       VF_CHECK("MODEL", by_name.has_value() && *by_name == r && by_name->backing_enum() == b, "value_of(\"%s\")", names[i].c_str());
                                       const auto by_backing = LIB(R::value_of(b));
                                       VF_CHECK("MODEL", by_backing.has_value() && *by_backing == r && by_backing->backing_enum() == b, "value_of(backing %s) finds %s", names[i].c_str(), by_backing ? std::string(by_backing->to_string()).c_str() : "nothing");
                                       const auto by_number = LIB(R::value_of(static_cast<U>(b)));
                                       VF_CHECK("MODEL", by_number.has_value() && *by_number == r && by_number->backing_enum() == b, "value_of(number of %s) finds %s", names[i].c_str(), by_number ? std::string(by_number->to_string()).c_str() : "nothing");
                                       VF_CHECK("MODEL", std::hash<R>{}(r) == std::hash<B>{}(b), "hash of %s differs from the hash of its backing enum", names[i].c_str());
                                       // copies
                                       R c(r);
                                       R d(keys[(i + 1) % n]);
                                       d = c;
                                       VF_CHECK("MODEL", c == r && d == r && d.backing_enum() == b, "copy");
                                       for (std::size_t j = 0; j < n; j++)
                                       {
                                           VF_CHECK("MODEL", LIB(r == keys[j]) == (i == j) && LIB(r != keys[j]) == (i != j), "%s == %s", names[i].c_str(), names[j].c_str());
                                       }
                                       // switch over the backing enum
                                       switch (r)
                                       {
                                       default: break;
                                       }
                                       if constexpr (std::is_same_v<U, bool>)
                                       {
                                           const R neg = LIB(!r);
                                           VF_CHECK("MODEL", static_cast<bool>(neg.backing_enum()) == !static_cast<bool>(b), "!%s is %s", names[i].c_str(), std::string(neg.to_string()).c_str());
                                           VF_CHECK("MODEL", LIB(!neg) == r, "!!%s", names[i].c_str());
                                       }
                                       if constexpr (std::is_default_constructible_v<R>)
                                       {
                                           R e{};
                                           VF_CHECK("MODEL", !LIB(e.has_value()), "a default constructed rich enum has a value");
                                           VF_CHECK("MODEL", !LIB(e == r) && !LIB(r == e) && LIB(e == R{}), "a default constructed rich enum compares equal to %s", names[i].c_str());
                                           e = r;
                                           VF_CHECK("MODEL", e.has_value() && e == r, "assignment to an empty rich enum");
                                           e = R{};
                                           VF_CHECK("MODEL", !e.has_value() && e == R{}, "assignment of an empty rich enum");
                                           volatile U sink{};
                                           auto h = catch_hit([&] { sink = static_cast<U>(R{}.backing_enum()); });
                                           VF_CHECK("CHECK", h.hit == Hit::ABORT, "backing_enum() of an empty rich enum was not reported");
                                           h = catch_hit([&] { sink = static_cast<U>(static_cast<B>(R{})); });
                                           VF_CHECK("CHECK", h.hit == Hit::ABORT, "conversion of an empty rich enum was not reported");
                                           (void)sink;
                                       }
                                   }
                                   // nothing else is found
                                   for (const auto& m : near_misses(names))
                                   {
                                       if (std::find(names.begin(), names.end(), m) != names.end())
                                           continue;
                                       const Exact ex(m);
                                       VF_CHECK("MODEL", !LIB(R::value_of(ex.v)).has_value(), "value_of(\"%s\") (%zu characters) finds a value", m.c_str(), m.size());
                                       cover(hash_str(m.c_str()));
                                   }
                                   if constexpr (!std::is_same_v<U, bool>)
                                       for (int t = 0; t < 40; t++)
                                       {
                                           U u;
                                           switch (g_rng.below(4))
                                           {
                                           case 0: u = static_cast<U>(g_rng.next()); break;
                                           case 1: u = static_cast<U>(static_cast<U>(keys[g_rng.below(n)].backing_enum()) + static_cast<U>(static_cast<int>(g_rng.below(5)) - 2)); break;
                                           case 2: u = static_cast<U>(g_rng.below(2 * n + 2)); break;
                                           // same low bits as a declared value
                                           default: u = static_cast<U>(static_cast<U>(keys[g_rng.below(n)].backing_enum()) ^ static_cast<U>(U{1} << g_rng.below(sizeof(U) * 8 - 1))); break;
                                           }
                                           bool declared = false;
                                           for (const auto& r : keys)
                                               declared = declared || static_cast<U>(r.backing_enum()) == u;
                                           trace("%lld", static_cast<long long>(u));
                                           cover(static_cast<std::uint64_t>(u) * 2 + 1);
                                           const auto f = LIB(R::value_of(u));
                                           VF_CHECK("MODEL", f.has_value() == declared, "value_of(%lld) %s a value", static_cast<long long>(u), declared ? "does not find" : "finds");
                                           if (declared)
                                               VF_CHECK("MODEL", static_cast<U>(f->backing_enum()) == u, "value_of(%lld) finds another value", static_cast<long long>(u));
                                           const auto g = LIB(R::value_of(static_cast<B>(u)));
                                           VF_CHECK("MODEL", g.has_value() == declared, "value_of(enumerator %lld) %s a value", static_cast<long long>(u), declared ? "does not find" : "finds");
                                       }
                               });
              });
}
void special_groups()
{
    add_group("model", "rich enum data",
              []
              {
                  run_case("data",
                           []
                           {
                               const Field f[] = {Field::hi(), Field::lo(), Field::mid()};
                               const int pay[] = {90, 30, 50};
                               const char* lab[] = {"H", "L", "M"};
                               for (int i = 0; i < 3; i++)
                               {
                                   VF_CHECK("MODEL", f[i].payload_ == pay[i] && std::string(f[i].label_) == lab[i], "payload of value %d", i);
                                   const auto v = Field::value_of(f[i].backing_enum());
                                   VF_CHECK("MODEL", v && v->payload_ == pay[i] && std::string(v->label_) == lab[i], "payload of looked up value %d", i);
                                   const auto w = Field::value_of(f[i].to_string());
                                   VF_CHECK("MODEL", w && w->payload_ == pay[i], "payload of value %d looked up by name", i);
                                   const auto x = Field::value_of(static_cast<std::uint8_t>(f[i].backing_enum()));
                                   VF_CHECK("MODEL", x && x->payload_ == pay[i], "payload of value %d looked up by number", i);
                               }
                               const int mass[] = {3, 48, 59, 6};
                               for (std::size_t i = 0; i < 4; i++)
                                   VF_CHECK("MODEL", Planet::values()[i].mass() == mass[i], "member function of value %zu", i);
                           });
                  run_case("empty names",
                           []
                           {
                               VF_CHECK("MODEL", LIB(Planet{}.to_string()) == "INVALID" && LIB(RichSparse{}.to_string()) == "INVALID", "to_string of an empty rich enum");
                           });
                  run_case("hash",
                           []
                           {
                               std::unordered_set<Planet> s(Planet::values().begin(), Planet::values().end());
                               VF_CHECK("MODEL", s.size() == 4 && s.count(Planet::EARTH()) == 1, "unordered_set of rich enums");
                           });
#ifndef VF_NO_DETAIL
                  run_case("get_backing_enum",
                           []
                           {
                               VF_CHECK("MODEL", fc::rich_enums_detail::get_backing_enum(E5::C) == E5::C && fc::rich_enums_detail::get_backing_enum(Planet::MARS()) == PlanetBacking::MARS, "get_backing_enum");
                           });
#endif
                  run_case("not enums",
                           []
                           {
                               VF_CHECK("TRAIT", !re::is_rich_enum<int> && !re::is_rich_enum<E5> && !re::has_enum_adapter<int> && !re::is_rich_enum<Coin> && re::has_enum_adapter<Coin> && re::has_enum_adapter<E0>, "what counts as an enum");
                               VF_CHECK("MODEL", re::EnumAdapter<E0>::count() == 0 && re::EnumAdapter<E0>::values().empty(), "adapter of an enum without enumerators");
                           });
              });
#ifndef VF_NO_DETAIL
    add_group("model", "compact storage",
              []
              {
                  run_case("reserved value",
                           []
                           {
                               using S = fc::rich_enums_detail::RichEnumStorage<PlanetBacking>;
                               using U = std::underlying_type_t<PlanetBacking>;
                               VF_CHECK("MODEL", !LIB(S{}).has_value() && S{PlanetBacking::MARS}.has_value() && S{PlanetBacking::MARS}.value() == PlanetBacking::MARS && S{} == S{} && !(S{} == S{PlanetBacking::MARS}), "storage of a rich enum");
                               volatile bool sink = false;
                               const auto h = catch_hit([&] { sink = S{static_cast<PlanetBacking>(std::numeric_limits<U>::max())}.has_value(); });
                               VF_CHECK("CHECK", h.hit == Hit::ABORT, "the reserved value was accepted (%d)", sink);
                           });
              });
    add_group("model", "optional storage",
              []
              {
                  for (std::size_t k = 0; k < n_cases(300); k++)
                      run_case("storage",
                               [&]
                               {
                                   using S = fc::rich_enums_detail::StructuralTypeOptional<int>;
                                   const int a = static_cast<int>(g_rng.below(3)), b = static_cast<int>(g_rng.below(3));
                                   const bool ha = g_rng.chance(1, 2), hb = g_rng.chance(1, 2);
                                   trace("%d %d %d %d", a, b, ha, hb);
                                   const S x = ha ? S(a) : S(), y = hb ? S(b) : S();
                                   cover(static_cast<std::uint64_t>(a * 100 + b * 10 + ha * 2 + hb));
                                   VF_CHECK("MODEL", LIB(x == y) == (ha && hb ? a == b : ha == hb), "equality of optionals");
                                   VF_CHECK("MODEL", x.has_value() == ha && (!ha || x.value() == a), "value of an optional");
                                   if (!ha)
                                   {
                                       volatile int sink = 0;
                                       const auto h = catch_hit([&] { sink = x.value(); });
                                       VF_CHECK("CHECK", h.hit == Hit::ABORT, "value() of an empty optional was not reported");
                                   }
                               });
              });
#endif
}
}  // namespace

int main(int argc, char** argv)
{
    adapter_groups<E5>();
    adapter_groups<ESparse>();
    adapter_groups<EUnscoped>();
    adapter_groups<E1>();
    adapter_groups<E70>();
    adapter_groups<EBig>();
    adapter_groups<EBool>();
    adapter_groups<ELegacy>();
    adapter_groups<EPrefix>();
    adapter_groups<Coin>();
    rich_groups<RichSparse>();
    rich_groups<RichNd>();
    rich_groups<RichBool>();
    rich_groups<RichLite>();
    rich_groups<Planet>();
    rich_groups<Field>();
    rich_groups<Perm>();
    rich_groups<Flip>();
    rich_groups<FlipLite>();
    rich_groups<Edge>();
    special_groups();
    return driver_main(argc, argv);
}
