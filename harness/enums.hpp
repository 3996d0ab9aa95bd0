// Enum shapes used by the enum drivers, with the order every adapter has to report.
#pragma once
#include "fw.hpp"

#include "fixed_containers/enum_utils.hpp"

#include <optional>
#include <string_view>

namespace vfe
{
enum class E5
{
    A,
    B,
    C,
    D,
    E
};
enum class ESparse : std::int8_t
{
    P = -100,
    Q = -3,
    S = 7,
    R = 0,
    V = 126,
    U = -127,
    T = 120
};
enum EUnscoped : std::uint64_t
{
    EU_c = 90,
    EU_a = 1,
    EU_b = 17
};
enum class E1 : short
{
    ONLY = 42
};
enum class E0
{
};
enum class E70 : unsigned char
{
#define R10(p) p##0, p##1, p##2, p##3, p##4, p##5, p##6, p##7, p##8, p##9
    R10(a),
    R10(b),
    R10(c),
    R10(d),
    R10(e),
    R10(f),
    R10(g)
#undef R10
};

enum class RichSparseBacking : std::uint16_t
{
    zz = 33,
    aa = 2,
    mm = 100,
    bb = 5,
    cc = 0
};
class RichSparse : public fixed_containers::rich_enums::SkeletalRichEnum<RichSparse, RichSparseBacking>
{
    friend SkeletalRichEnum::ValuesFriend;
    using SkeletalRichEnum::SkeletalRichEnum;

public:
    constexpr RichSparse() noexcept = default;
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(RichSparse, zz)
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(RichSparse, aa)
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(RichSparse, mm)
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(RichSparse, bb)
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(RichSparse, cc)
};
enum class RichNdBacking : int
{
    N0,
    N1,
    N2,
    N3
};
class RichNd : public fixed_containers::rich_enums::NonDefaultConstructibleSkeletalRichEnum<RichNd, RichNdBacking>
{
    friend SkeletalRichEnum::ValuesFriend;
    using NonDefaultConstructibleSkeletalRichEnum::NonDefaultConstructibleSkeletalRichEnum;

public:
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(RichNd, N0)
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(RichNd, N1)
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(RichNd, N2)
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(RichNd, N3)
};
enum class RichBoolBacking : bool
{
    no = false,
    yes = true
};
class RichBool : public fixed_containers::rich_enums::SkeletalRichEnum<RichBool, RichBoolBacking>
{
    friend SkeletalRichEnum::ValuesFriend;
    using SkeletalRichEnum::SkeletalRichEnum;

public:
    constexpr RichBool() noexcept = default;
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(RichBool, no)
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(RichBool, yes)
};
// lite rich enum: own values in descending order, negative backing values
enum class RichLiteBacking : long
{
    top = 1000000,
    mid = 3,
    low = -500
};
class RichLite : public fixed_containers::rich_enums::SkeletalRichEnumLite<RichLite, RichLiteBacking>
{
    friend SkeletalRichEnumLite::ValuesFriend;
    friend class RichLiteValues;
    using SkeletalRichEnumLite::SkeletalRichEnumLite;

public:
    constexpr RichLite() noexcept = default;
    static constexpr std::size_t count() { return 3; }
    static constexpr const std::array<RichLite, 3>& values();
    [[nodiscard]] constexpr std::size_t ordinal() const
    {
        switch (backing_enum())
        {
        case RichLiteBacking::top: return 0;
        case RichLiteBacking::mid: return 1;
        case RichLiteBacking::low: return 2;
        }
        return 99;
    }
    [[nodiscard]] constexpr std::string_view to_string() const
    {
        switch (backing_enum())
        {
        case RichLiteBacking::top: return "top";
        case RichLiteBacking::mid: return "mid";
        case RichLiteBacking::low: return "low";
        }
        return "?";
    }
    static constexpr RichLite make(RichLiteBacking b) { return RichLite{b}; }
};
class RichLiteValues
{
    friend class RichLite;
    static constexpr std::array<RichLite, 3> VALUES{RichLite{RichLiteBacking::top}, RichLite{RichLiteBacking::mid}, RichLite{RichLiteBacking::low}};
};
constexpr const std::array<RichLite, 3>& RichLite::values()
{
    return RichLiteValues::VALUES;
}

// not an enum at all: adapted through EnumAdapter
struct Coin
{
    int cents;
    constexpr bool operator==(const Coin&) const = default;
    constexpr auto operator<=>(const Coin&) const = default;
};
// more enumerators than eight bits can count, in descending order
struct Tone
{
    int hz;
    constexpr bool operator==(const Tone&) const = default;
    constexpr auto operator<=>(const Tone&) const = default;
};
inline constexpr std::size_t N_TONES = 600;
inline constexpr auto ALL_TONES = []
{
    std::array<Tone, N_TONES> a{};
    for (std::size_t i = 0; i < N_TONES; i++)
        a[i] = Tone{static_cast<int>(3 * (N_TONES - i))};
    return a;
}();
}  // namespace vfe

template <>
struct fixed_containers::rich_enums::EnumAdapter<vfe::Tone>
{
    using Enum = vfe::Tone;
    static constexpr std::size_t count() { return vfe::N_TONES; }
    static constexpr const std::array<vfe::Tone, vfe::N_TONES>& values() { return vfe::ALL_TONES; }
    static constexpr std::size_t ordinal(const vfe::Tone& t)
    {
        if (t.hz % 3 != 0 || t.hz < 3 || t.hz > static_cast<int>(3 * vfe::N_TONES))
            std::abort();
        return vfe::N_TONES - static_cast<std::size_t>(t.hz / 3);
    }
    static constexpr std::string_view to_string(const vfe::Tone& t) { return t.hz % 2 ? "odd" : "even"; }
};

template <>
struct fixed_containers::rich_enums::EnumAdapter<vfe::Coin>
{
    using Enum = vfe::Coin;
    static constexpr std::array<vfe::Coin, 4> ALL{vfe::Coin{25}, vfe::Coin{1}, vfe::Coin{100}, vfe::Coin{5}};
    static constexpr std::size_t count() { return 4; }
    static constexpr const std::array<vfe::Coin, 4>& values() { return ALL; }
    static constexpr std::size_t ordinal(const vfe::Coin& c)
    {
        for (std::size_t i = 0; i < 4; i++)
            if (ALL[i] == c)
                return i;
        std::abort();
    }
    static constexpr std::string_view to_string(const vfe::Coin& c)
    {
        constexpr std::string_view N[] = {"quarter", "penny", "dollar", "nickel"};
        return N[ordinal(c)];
    }
};

namespace vfe
{
// keys in the order their ordinals have to have
template <class K>
struct Keys;
template <>
struct Keys<Tone>
{
    static constexpr const char* name = "Tone";
    static std::vector<Tone> all() { return {ALL_TONES.begin(), ALL_TONES.end()}; }
    static std::vector<std::string> names()
    {
        std::vector<std::string> v;
        for (const Tone& t : ALL_TONES)
            v.push_back(t.hz % 2 ? "odd" : "even");
        return v;
    }
};
template <>
struct Keys<E5>
{
    static constexpr const char* name = "E5";
    static std::vector<E5> all() { return {E5::A, E5::B, E5::C, E5::D, E5::E}; }
    static std::vector<std::string> names() { return {"A", "B", "C", "D", "E"}; }
};
template <>
struct Keys<ESparse>
{
    static constexpr const char* name = "ESparse";
    static std::vector<ESparse> all() { return {ESparse::U, ESparse::P, ESparse::Q, ESparse::R, ESparse::S, ESparse::T, ESparse::V}; }
    static std::vector<std::string> names() { return {"U", "P", "Q", "R", "S", "T", "V"}; }
};
template <>
struct Keys<EUnscoped>
{
    static constexpr const char* name = "EUnscoped";
    static std::vector<EUnscoped> all() { return {EU_a, EU_b, EU_c}; }
    static std::vector<std::string> names() { return {"EU_a", "EU_b", "EU_c"}; }
};
template <>
struct Keys<E1>
{
    static constexpr const char* name = "E1";
    static std::vector<E1> all() { return {E1::ONLY}; }
    static std::vector<std::string> names() { return {"ONLY"}; }
};
template <>
struct Keys<E70>
{
    static constexpr const char* name = "E70";
    static std::vector<E70> all()
    {
        std::vector<E70> r;
        for (int i = 0; i < 70; i++)
            r.push_back(static_cast<E70>(i));
        return r;
    }
    static std::vector<std::string> names()
    {
        std::vector<std::string> r;
        for (int i = 0; i < 70; i++)
            r.push_back(std::string(1, static_cast<char>('a' + i / 10)) + static_cast<char>('0' + i % 10));
        return r;
    }
};
template <>
struct Keys<RichSparse>
{
    static constexpr const char* name = "RichSparse";
    static std::vector<RichSparse> all() { return {RichSparse::cc(), RichSparse::aa(), RichSparse::bb(), RichSparse::zz(), RichSparse::mm()}; }
    static std::vector<std::string> names() { return {"cc", "aa", "bb", "zz", "mm"}; }
};
template <>
struct Keys<RichNd>
{
    static constexpr const char* name = "RichNd";
    static std::vector<RichNd> all() { return {RichNd::N0(), RichNd::N1(), RichNd::N2(), RichNd::N3()}; }
    static std::vector<std::string> names() { return {"N0", "N1", "N2", "N3"}; }
};
template <>
struct Keys<RichBool>
{
    static constexpr const char* name = "RichBool";
    static std::vector<RichBool> all() { return {RichBool::no(), RichBool::yes()}; }
    static std::vector<std::string> names() { return {"no", "yes"}; }
};
template <>
struct Keys<RichLite>
{
    static constexpr const char* name = "RichLite";
    static std::vector<RichLite> all() { return {RichLite::make(RichLiteBacking::top), RichLite::make(RichLiteBacking::mid), RichLite::make(RichLiteBacking::low)}; }
    static std::vector<std::string> names() { return {"top", "mid", "low"}; }
};
template <>
struct Keys<Coin>
{
    static constexpr const char* name = "Coin";
    static std::vector<Coin> all() { return {Coin{25}, Coin{1}, Coin{100}, Coin{5}}; }
    static std::vector<std::string> names() { return {"quarter", "penny", "dollar", "nickel"}; }
};
}  // namespace vfe
