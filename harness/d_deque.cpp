#include "seq.hpp"
#include "fixed_containers/fixed_deque.hpp"
using namespace fixed_containers;
using namespace vf;

template <class T, std::size_t N>
using C = FixedDeque<T, N, RecChecking<>>;
template <class T, std::size_t N>
using S = Seq<Fam::DEQUE, C<T, N>, T, N>;

#ifndef PART
#define PART -1
#endif

int main(int argc, char** argv)
{
#if PART == 0 || PART == -1
    S<int, 0>::reg("int", 50);
    S<int, 1>::reg("int", 400);
    S<int, 2>::reg("int", 800);
    S<int, 5>::reg("int", 2000);
    S<int, 17>::reg("int", 1500);
    S<int, 300>::reg("int", 150);
    S<int, 5>::reg_compare<C<int, 5>, 5>("int", 2000);
    S<int, 5>::reg_compare<C<int, 9>, 9>("int", 2000);
#endif
#if PART == 1 || PART == -1
    S<TrkAll, 1>::reg("Trk", 400);
    S<TrkAll, 3>::reg("Trk", 1000);
    S<TrkAll, 8>::reg("Trk", 1500);
    S<TrkAll, 64>::reg("Trk", 250);
    S<TrkAll, 6>::reg_compare<C<TrkAll, 4>, 4>("Trk", 1000);
#endif
#if PART == 2 || PART == -1
    S<TrkMove, 1>::reg("MoveOnly", 300);
    S<TrkMove, 6>::reg("MoveOnly", 1500);
    S<TrkCopy, 5>::reg("CopyOnly", 1000);
    S<TrkBig, 4>::reg("Big", 800);
    S<TrkNoAssign, 4>::reg("NoAssign", 500);
#endif
#if PART == 3 || PART == -1
    S<Pod, 3>::reg("Pod", 800);
    S<Ntv, 6>::reg("Ntv", 500);
    S<Pod, 9>::reg("Pod", 1000);
    S<Heavy, 5>::reg("Heavy", 600);
    S<TrkNoDef, 4>::reg("NoDef", 500);
    S<std::uint8_t, 40>::reg("u8", 400);
#endif
    return driver_main(argc, argv);
}
