// Hashed associative containers.
#include "assoc.hpp"

#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"

namespace fc = fixed_containers;
using vf::Fam;
using namespace vf;

template <class K, class V, std::size_t N, std::size_t B>
void um(const char* id, std::size_t w)
{
    using P = PolHash<K>;
    using C = fc::FixedUnorderedMap<K, V, N, typename P::Hash, typename P::Eq, B, RecChecking<K>>;
    Assoc<Fam::UMAP, C, K, V, N, true, P>::add(id, w);
}
template <class K, std::size_t N, std::size_t B>
void us(const char* id, std::size_t w)
{
    using P = PolHash<K>;
    using C = fc::FixedUnorderedSet<K, N, typename P::Hash, typename P::Eq, B, RecChecking<K>>;
    Assoc<Fam::USET, C, K, int, N, true, P>::add(id, w);
}

int main(int argc, char** argv)
{
#if PART == 0
    um<int, int, 0, 0>("umap<int,int>", 40);
    um<int, int, 1, 1>("umap<int,int>", 300);
    um<int, Pod, 10, 13>("umap<int,Pod>", 900);
    um<int, int, 16, 16>("umap<int,int,exact>", 700);
#elif PART == 1
    um<TrkAll, TrkAll, 12, 15>("umap<TrkAll,TrkAll>", 800);
    um<int, int, 200, 260>("umap<int,int>", 60);
    um<TrkMove, TrkMove, 8, 8>("umap<TrkMove,TrkMove,exact>", 500);
#elif PART == 2
    um<Heavy, Heavy, 20, 26>("umap<Heavy,Heavy>", 250);
    um<int, int, 6, 64>("umap<int,int,sparse>", 600);
    us<int, 0, 0>("uset<int>", 40);
    us<int, 1, 1>("uset<int>", 300);
#elif PART == 3
    us<int, 20, 20>("uset<int,exact>", 600);
    us<TrkAll, 9, 11>("uset<TrkAll>", 700);
    us<int, 150, 195>("uset<int>", 60);
    us<TrkCopy, 7, 7>("uset<TrkCopy,exact>", 400);
#endif
    return vf::driver_main(argc, argv);
}
