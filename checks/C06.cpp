// exp / expm1
#include "realmain.hpp"
using namespace mc;
template<class F> void all(Engine& e) {
  accuracy1_all<F>(e); ints1<F>(e); extra<F>(e, " [-800,800]", -800, 800, 160000); extra<F>(e, " [-4,4]", -4, 4, 160000); multiples<F>(e, " k ln2/2", 0.34657359027997265470861606072908828Q, 2200);
  edge<F, float>(e, " overflow edge", 88.0L, 89.5L, 40000); edge<F, double>(e, " overflow edge", 709.0L, 710.5L, 40000); edge<F, L>(e, " overflow edge", 11355.5L, 11357.5L, 20000);
  edge<F, float>(e, " underflow edge", -110.0L, -86.0L, 40000); edge<F, double>(e, " underflow edge", -750.0L, -707.0L, 40000); edge<F, L>(e, " underflow edge", -11420.0L, -11353.0L, 20000);
}
MC_MAIN(all<Fexp>(e); all<Fexpm1>(e))
