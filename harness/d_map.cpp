// Ordered associative containers.
#include "assoc.hpp"

#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_set.hpp"

namespace fc = fixed_containers;
using Compact = fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness;
using vf::Fam;

template <class K, class V, std::size_t N, class Pol, Compact CP = Compact::EMBEDDED_COLOR>
using PoolMap = fc::FixedMap<K, V, N, typename Pol::Cmp, CP, fc::FixedIndexBasedPoolStorage, vf::RecChecking<K>>;
template <class K, class V, std::size_t N, class Pol, Compact CP = Compact::EMBEDDED_COLOR>
using ContMap = fc::FixedMap<K, V, N, typename Pol::Cmp, CP, fc::FixedIndexBasedContiguousStorage, vf::RecChecking<K>>;
template <class K, std::size_t N, class Pol, Compact CP = Compact::EMBEDDED_COLOR>
using PoolSet = fc::FixedSet<K, N, typename Pol::Cmp, CP, fc::FixedIndexBasedPoolStorage, vf::RecChecking<K>>;
template <class K, std::size_t N, class Pol, Compact CP = Compact::EMBEDDED_COLOR>
using ContSet = fc::FixedSet<K, N, typename Pol::Cmp, CP, fc::FixedIndexBasedContiguousStorage, vf::RecChecking<K>>;

template <class K, class V, std::size_t N, template <class> class P, Compact CP = Compact::EMBEDDED_COLOR>
void pm(const char* id, std::size_t w)
{
    vf::Assoc<Fam::OMAP, PoolMap<K, V, N, P<K>, CP>, K, V, N, true, P<K>>::add(id, w);
}
template <class K, class V, std::size_t N, template <class> class P, Compact CP = Compact::EMBEDDED_COLOR>
void cm(const char* id, std::size_t w)
{
    vf::Assoc<Fam::OMAP, ContMap<K, V, N, P<K>, CP>, K, V, N, false, P<K>>::add(id, w);
}
template <class K, std::size_t N, template <class> class P, Compact CP = Compact::EMBEDDED_COLOR>
void ps(const char* id, std::size_t w)
{
    vf::Assoc<Fam::OSET, PoolSet<K, N, P<K>, CP>, K, int, N, true, P<K>>::add(id, w);
}
template <class K, std::size_t N, template <class> class P, Compact CP = Compact::EMBEDDED_COLOR>
void cs(const char* id, std::size_t w)
{
    vf::Assoc<Fam::OSET, ContSet<K, N, P<K>, CP>, K, int, N, false, P<K>>::add(id, w);
}
constexpr auto DED = Compact::DEDICATED_COLOR;
using namespace vf;

int main(int argc, char** argv)
{
#if PART == 0
    pm<int, int, 0, PolLess>("map<int,int>", 200);
    pm<int, int, 1, PolState>("map<int,int,state>", 500);
    pm<int, Pod, 7, PolState>("map<int,Pod,state>", 1000);
    pm<int, int, 40, PolTrans>("map<int,int,trans>", 500);
#elif PART == 1
    pm<TrkAll, TrkAll, 10, PolState>("map<TrkAll,TrkAll,state>", 1000);
    pm<int, int, 300, PolLess, DED>("map<int,int,dedicated>", 120);
    pm<TrkMove, TrkMove, 9, PolLess>("map<TrkMove,TrkMove>", 700);
#elif PART == 2
    cm<int, int, 12, PolState>("map<int,int,state,contiguous>", 800);
    cm<TrkAll, TrkAll, 9, PolState, DED>("map<TrkAll,TrkAll,state,contiguous,dedicated>", 800);
    pm<Heavy, Heavy, 20, PolState, DED>("map<Heavy,Heavy,state,dedicated>", 500);
#elif PART == 3
    ps<int, 0, PolLess>("set<int>", 200);
    ps<int, 2, PolState>("set<int,state>", 500);
    ps<TrkAll, 11, PolState>("set<TrkAll,state>", 1000);
    ps<int, 33, PolTrans>("set<int,trans>", 500);
#elif PART == 4
    ps<int, 200, PolState, DED>("set<int,state,dedicated>", 150);
    cs<int, 15, PolState>("set<int,state,contiguous>", 800);
    cs<TrkAll, 8, PolLess, DED>("set<TrkAll,contiguous,dedicated>", 700);
    ps<TrkCopy, 6, PolState>("set<TrkCopy,state>", 500);
#endif
    return vf::driver_main(argc, argv);
}
