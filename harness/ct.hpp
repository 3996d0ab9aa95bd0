// Constant evaluation against run time: element types, digests and the comparison itself.
#pragma once
#ifndef CT
#define CT 1
#endif
#include "fw.hpp"
#include "enums.hpp"
#include "fixed_containers/bidirectional_iterator.hpp"
#include "fixed_containers/enum_array.hpp"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/enum_set.hpp"
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_circular_queue.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_queue.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_stack.hpp"
#include "fixed_containers/fixed_string.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include "fixed_containers/fixed_vector.hpp"
#include "fixed_containers/wyhash.hpp"

#include <compare>
using namespace vf;
namespace fc = fixed_containers;

struct CRng
{
    std::uint64_t s;
    constexpr std::uint64_t next()
    {
        s += 0x9E3779B97F4A7C15ULL;
        std::uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    constexpr std::size_t below(std::size_t n) { return n == 0 ? 0 : static_cast<std::size_t>(next() % n); }
};
struct Dig
{
    std::uint64_t h = 0x1234567;
    constexpr void add(std::uint64_t v)
    {
        h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2);
        h *= 0xBF58476D1CE4E5B9ULL;
        h ^= h >> 29;
    }
};

// owns heap memory: the constant evaluator reports leaks, double deletes and accesses outside the lifetime
struct Own
{
    int* p;
    constexpr Own() : p(new int(-1)) {}
    constexpr Own(int v) : p(new int(v)) {}
    constexpr Own(const Own& o) : p(new int(*o.p)) {}
    constexpr Own(Own&& o) noexcept : p(o.p) { o.p = new int(-7); }
    constexpr Own& operator=(const Own& o)
    {
        *p = *o.p;
        return *this;
    }
    constexpr Own& operator=(Own&& o) noexcept
    {
        if (this != &o)
        {
            delete p;
            p = o.p;
            o.p = new int(-8);
        }
        return *this;
    }
    constexpr ~Own() { delete p; }
    constexpr bool operator==(const Own& o) const { return *p == *o.p; }
    constexpr auto operator<=>(const Own& o) const { return *p <=> *o.p; }
};
// not trivial, holds a pointer to itself
struct Selfish
{
    int v;
    const Selfish* self;
    constexpr Selfish() : v(-1), self(this) {}
    constexpr Selfish(int x) : v(x), self(this) {}
    constexpr Selfish(const Selfish& o) : v(o.get()), self(this) {}
    constexpr Selfish(Selfish&& o) noexcept : v(o.get()), self(this) { o.v = -7; }
    constexpr Selfish& operator=(const Selfish& o)
    {
        v = o.get();
        return *this;
    }
    constexpr Selfish& operator=(Selfish&& o) noexcept
    {
        if (this != &o)
        {
            v = o.get();
            o.v = -8;
        }
        return *this;
    }
    constexpr ~Selfish() { self = nullptr; }
    constexpr int get() const { return self == this ? v : -99999; }
    constexpr bool operator==(const Selfish& o) const { return get() == o.get(); }
    constexpr auto operator<=>(const Selfish& o) const { return get() <=> o.get(); }
};
constexpr std::uint64_t num(int v) { return static_cast<std::uint64_t>(v); }
constexpr std::uint64_t num(char v) { return static_cast<std::uint64_t>(v); }
constexpr std::uint64_t num(const Own& v) { return static_cast<std::uint64_t>(*v.p); }
constexpr std::uint64_t num(const Selfish& v) { return static_cast<std::uint64_t>(v.get()); }

// ---------------------------------------------------------------- running
template <std::size_t K>
using Digests = std::array<std::uint64_t, K>;

// Evaluates hist(seed) for SEEDS seeds in both modes.
#ifndef MULT
#define MULT 3
#endif
#ifndef SEEDBASE
#define SEEDBASE 0
#endif
#if CT
// One constant evaluation (with its own step budget) per history.
template <auto HIST, std::size_t SEED>
inline constexpr auto CT_ONE = HIST(SEED);
#endif
template <auto HIST, std::size_t N_SEEDS>
void ct_group(const std::string& name)
{
    constexpr std::size_t SEEDS = N_SEEDS * MULT;
    constexpr std::size_t BASE = SEEDBASE * 1000;
#if CT
    static constexpr auto AT_COMPILE_TIME = []<std::size_t... I>(std::index_sequence<I...>) { return std::array{CT_ONE<HIST, BASE + I>...}; }(std::make_index_sequence<SEEDS>{});
#endif
    add_group("model", name,
              [=]
              {
                  for (std::size_t i = 0; i < SEEDS; i++)
                      run_case("history",
                               [&]
                               {
                                   volatile std::size_t seed = BASE + i;
                                   const auto at_run_time = HIST(seed);
                                   g_sh->ops += at_run_time.size();
                                   trace("seed %zu", BASE + i);
#if CT
                                   for (std::size_t k = 0; k < at_run_time.size(); k++)
                                       VF_CHECK("CONST", at_run_time[k] == AT_COMPILE_TIME[i][k], "history %zu differs between constant evaluation and run time at step %zu", BASE + i, k);
#else
                                   const auto again = HIST(seed);
                                   VF_CHECK("CONST", again == at_run_time, "history %zu is not deterministic", BASE + i);
#endif
                                   for (std::size_t k = 0; k < at_run_time.size(); k++)
                                       cover(at_run_time[k]);
                               });
              });
}
