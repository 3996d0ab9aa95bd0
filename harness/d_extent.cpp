// Reflection and struct views at the extents of their inputs: many fields, deep nesting, long names,
// the maximum number of paths and the maximum path length.
#ifndef PART
#define PART 0
#endif
#define FIXED_CONTAINERS_EXTENDED_STRUCT_DECOMPOSITION_1024 1
#ifndef NDEBUG
#define NDEBUG 1
#endif
#include "fw.hpp"

#include "fixed_containers/fixed_vector.hpp"
#include "fixed_containers/recursive_reflection.hpp"
#include "fixed_containers/reflection.hpp"
#include "fixed_containers/struct_view.hpp"

#include <memory>
#include <set>

namespace fc = fixed_containers;
namespace sv = fixed_containers::struct_view;
using namespace vf;
// views and the visitors of this driver allocate, so allocation is not monitored here
#define CALL(...) (++g_sh->ops, __VA_ARGS__)

#define D10(p) int p##0{}, p##1{}, p##2{}, p##3{}, p##4{}, p##5{}, p##6{}, p##7{}, p##8{}, p##9{};
#define D100(p) D10(p##0) D10(p##1) D10(p##2) D10(p##3) D10(p##4) D10(p##5) D10(p##6) D10(p##7) D10(p##8) D10(p##9)

struct W50
{
    D10(f00) D10(f01) D10(f02) D10(f03) D10(f04)
};
struct W99
{
    D10(f00) D10(f01) D10(f02) D10(f03) D10(f04) D10(f05) D10(f06) D10(f07) D10(f08)
    int f090{}, f091{}, f092{}, f093{}, f094{}, f095{}, f096{}, f097{}, f098{};
};
struct W130
{
    D100(f0) D10(f10) D10(f11) D10(f12)
};
struct W300
{
    D100(f0) D100(f1) D100(f2)
};
struct W600
{
    D100(f0) D100(f1) D100(f2) D100(f3) D100(f4) D100(f5)
};

template <std::size_t N>
std::string number(std::size_t i)
{
    char b[16];
    snprintf(b, sizeof b, "f%03zu", i);
    return b;
}

template <class W>
void wide(const char* id)
{
    add_group("model", std::string("fields of ") + id,
              []
              {
                  constexpr std::size_t N = sizeof(W) / sizeof(int);
                  run_case("names",
                           [&]
                           {
                               VF_CHECK("MODEL", CALL(fc::reflection::field_count_of<W>()) == N, "field_count_of is %zu, not %zu", fc::reflection::field_count_of<W>(), N);
                               const auto& names = CALL(fc::reflection::field_names_of<W>());
                               VF_CHECK("MODEL", names.size() == N, "%zu names of %zu fields", names.size(), N);
                               for (std::size_t i = 0; i < N; i++)
                                   VF_CHECK("MODEL", std::string(names[i]) == number<N>(i), "field %zu is called '%s'", i, std::string(names[i]).c_str());
                               cover(N);
                           });
                  for (std::size_t c = 0; c < n_cases(3); c++)
                      run_case("fields",
                               [&]
                               {
                                   auto w = std::make_unique<W>();
                                   std::size_t i = 0;
                                   CALL(fc::reflection::for_each_field(*w,
                                                                      [&](const std::string_view& n, int& f)
                                                                      {
                                                                          VF_CHECK("MODEL", i < N && std::string(n) == number<N>(i), "field %zu is called '%s'", i, std::string(n).c_str());
                                                                          VF_CHECK("MODEL", &f == reinterpret_cast<int*>(w.get()) + i, "'%s' is %td bytes away from the field", std::string(n).c_str(),
                                                                                   reinterpret_cast<char*>(&f) - reinterpret_cast<char*>(reinterpret_cast<int*>(w.get()) + i));
                                                                          f = static_cast<int>(i);
                                                                          i++;
                                                                      }));
                                   VF_CHECK("MODEL", i == N, "for_each_field visits %zu of %zu fields", i, N);
                                   for (i = 0; i < N; i++)
                                       VF_CHECK("MODEL", reinterpret_cast<int*>(w.get())[i] == static_cast<int>(i), "a write to field %zu went elsewhere", i);
                                   cover(mix(N, 1));
                               });
              });
}

// views of all fields of a flat struct with MAXIMUM paths
template <class W, std::size_t MAXIMUM>
void wide_view(const char* id)
{
    add_group("model", std::string("view of ") + id + ", at most " + std::to_string(MAXIMUM) + " paths",
              []
              {
                  constexpr std::size_t N = sizeof(W) / sizeof(int);
                  for (std::size_t c = 0; c < n_cases(3); c++)
                      run_case("view",
                               [&]
                               {
                                   auto w = std::make_unique<W>();
                                   const auto count = CALL(sv::path_count_of(*w));
                                   const sv::StructView<MAXIMUM> view = CALL(sv::StructView<MAXIMUM>(*w));
                                   VF_CHECK("MODEL", view.get_path_map_ref().size() == N && (count == N || count == N + 1), "a view of %zu of %zu paths, %zu counted", view.get_path_map_ref().size(), N, count);
                                   for (std::size_t i = 0; i < N; i++)
                                   {
                                       const std::string name = number<N>(i);
                                       const auto path = CALL(sv::path_from_string(name));
                                       VF_CHECK("MODEL", CALL(view.contains(path)), "contains('%s') is false", name.c_str());
                                       const void* got = CALL(view.get_field(w.get(), path, {}));
                                       VF_CHECK("MODEL", got == reinterpret_cast<int*>(w.get()) + i, "'%s' is %td bytes away from the field", name.c_str(),
                                                reinterpret_cast<const char*>(got) - reinterpret_cast<char*>(reinterpret_cast<int*>(w.get()) + i));
                                   }
                                   std::set<const void*> seen;
                                   CALL(sv::for_each_field(view, w.get(), [&](const auto&, const auto&, const auto&, void* p) { seen.insert(p); }));
                                   VF_CHECK("MODEL", seen.size() == N, "for_each_field reaches %zu of %zu fields", seen.size(), N);
                                   cover(mix(N, MAXIMUM));
                               });
              });
}

template <std::size_t N>
struct Nest
{
    char before{};
    Nest<N - 1> in{};
    short after{};
};
template <>
struct Nest<0>
{
    char before{};
    long leaf{};
    short after{};
};
template <std::size_t N>
const void* field_at(const Nest<N>& n, std::size_t depth, int which)
{
    if constexpr (N == 0)
        return depth != 0 ? nullptr : which == 0 ? static_cast<const void*>(&n.before) : which == 1 ? static_cast<const void*>(&n.leaf) : static_cast<const void*>(&n.after);
    else
        return depth == 0 ? (which == 0 ? static_cast<const void*>(&n.before) : which == 1 ? static_cast<const void*>(&n.in) : static_cast<const void*>(&n.after)) : field_at(n.in, depth - 1, which);
}

template <std::size_t N>
void deep()
{
    add_group("model", "nesting of " + std::to_string(N),
              []
              {
                  run_case("deep",
                           [&]
                           {
                               auto w = std::make_unique<Nest<N>>();
                               VF_CHECK("MODEL", CALL(fc::reflection::field_count_of<Nest<N>>()) == 3, "field_count_of");
                               std::size_t seen = 0, left = 0;
                               std::size_t depth_now = 0, deepest = 0;
                               CALL(fc::recursive_reflection::for_each_path_dfs(
                                   *w,
                                   [&]<class F>(const auto& chain, F& f)
                                   {
                                       seen++;
                                       depth_now++;
                                       deepest = std::max<std::size_t>(deepest, chain.size());
                                       if (chain.size() == 0)
                                           return;
                                       const std::size_t d = chain.size() - 1;
                                       for (std::size_t i = 0; i < d; i++)
                                           VF_CHECK("MODEL", chain[i] == "in", "component %zu", i);
                                       const std::string last(chain[d]);
                                       const int which = last == "before" ? 0 : last == "after" ? 2 : 1;
                                       VF_CHECK("MODEL", which != 1 || last == (d == N ? "leaf" : "in"), "unknown field '%s' at depth %zu", last.c_str(), d);
                                       VF_CHECK("MODEL", static_cast<const void*>(std::addressof(f)) == field_at(*w, d, which), "'%s' at depth %zu is another field", last.c_str(), d);
                                   },
                                   [&](const auto&, auto&) { left++; depth_now--; }));
                               const std::size_t want = 3 * (N + 1);
                               VF_CHECK("MODEL", (seen == want || seen == want + 1) && left == seen && depth_now == 0, "%zu fields entered, %zu left, of %zu", seen, left, want);
                               VF_CHECK("MODEL", deepest == N + 1, "depth %zu of %zu", deepest, N + 1);
                               const sv::StructView<> view = CALL(sv::StructView<>(*w));
                               for (std::size_t d = 0; d <= N; d++)
                                   for (int which = 0; which < 3; which++)
                                   {
                                       if (which == 1 && d < N)
                                           continue;  // views hold the leaves
                                       std::string p;
                                       for (std::size_t i = 0; i < d; i++)
                                           p += "in.";
                                       p += which == 0 ? "before" : which == 2 ? "after" : d == N ? "leaf" : "in";
                                       const auto path = CALL(sv::path_from_string(p));
                                       VF_CHECK("MODEL", CALL(view.contains(path)), "contains('%s') is false", p.c_str());
                                       VF_CHECK("MODEL", CALL(view.get_field(w.get(), path, {})) == field_at(*w, d, which), "'%s' is another field", p.c_str());
                                       cover(mix(N, d * 3 + static_cast<std::size_t>(which)));
                                   }
                           });
              });
}

#define X8(a) a##a##a##a##a##a##a##a
struct LongNames
{
    int a_name_of_thirty_one_characters{};
    int a_name_of_thirty_two_characters_{};
    int a_name_of_thirty_three_characters{};
    double a_name_of_considerably_more_than_sixty_four_characters_which_is_rather_much{};
    double a_name_of_considerably_more_than_sixty_four_characters_which_is_rather_much_and_another{};
    char a_name_with_more_than_one_hundred_and_twenty_eight_characters_is_not_what_anybody_wants_to_type_but_a_generator_of_code_does_not_mind_at_all_and{};
    short a_name_with_more_than_two_hundred_and_fifty_five_characters_is_not_what_anybody_wants_to_type_but_a_generator_of_code_does_not_mind_at_all_and_so_here_it_comes_in_its_full_length_without_any_hesitation_and_with_a_bit_of_padding_at_the_end_which_goes_on_and_on_and_on_until_enough{};
};
template <class F>
void each_long(LongNames& l, F&& f)
{
#define F1(n) f(#n, static_cast<const void*>(&l.n));
    F1(a_name_of_thirty_one_characters)
    F1(a_name_of_thirty_two_characters_)
    F1(a_name_of_thirty_three_characters)
    F1(a_name_of_considerably_more_than_sixty_four_characters_which_is_rather_much)
    F1(a_name_of_considerably_more_than_sixty_four_characters_which_is_rather_much_and_another)
    F1(a_name_with_more_than_one_hundred_and_twenty_eight_characters_is_not_what_anybody_wants_to_type_but_a_generator_of_code_does_not_mind_at_all_and)
    F1(a_name_with_more_than_two_hundred_and_fifty_five_characters_is_not_what_anybody_wants_to_type_but_a_generator_of_code_does_not_mind_at_all_and_so_here_it_comes_in_its_full_length_without_any_hesitation_and_with_a_bit_of_padding_at_the_end_which_goes_on_and_on_and_on_until_enough)
#undef F1
}
void long_names()
{
    add_group("model", "long names",
              []
              {
                  run_case("long names",
                           [&]
                           {
                               LongNames l;
                               const auto& names = CALL(fc::reflection::field_names_of<LongNames>());
                               VF_CHECK("MODEL", names.size() == 7, "%zu fields", names.size());
                               const sv::StructView<> view = CALL(sv::StructView<>(l));
                               std::size_t i = 0;
                               each_long(l,
                                         [&](const char* n, const void* p)
                                         {
                                             VF_CHECK("MODEL", names[i] == n, "field %zu has the name '%s'", i, std::string(names[i]).c_str());
                                             const auto path = CALL(sv::path_from_string(std::string_view(n)));
                                             VF_CHECK("MODEL", CALL(view.contains(path)) && CALL(view.get_field(&l, path, {})) == p, "'%s' is another field", n);
                                             cover(i++);
                                         });
                           });
              });
}

int main(int argc, char** argv)
{
#if PART == 0
    wide<W50>("50");
    wide<W99>("99");
    wide<W130>("130");
    wide_view<W50, 50>("50");
    wide_view<W99, sv::MAX_NUM_PATHS>("99");
    wide_view<W130, 130>("130");
    long_names();
#elif PART == 1
    wide<W300>("300");
    deep<1>();
    deep<8>();
    deep<15>();
#elif PART == 2
    wide<W600>("600");
#endif
    return driver_main(argc, argv);
}
