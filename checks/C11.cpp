// sinh / cosh / tanh
#include "realmain.hpp"
using namespace mc;
template<class F> void all(Engine& e) {
  accuracy1_all<F>(e); ints1<F>(e); extra<F>(e, " [-4,4]", -4, 4, 160000); extra<F>(e, " [-800,800]", -800, 800, 100000); extra<F>(e, " [-30,30]", -30, 30, 100000);
  edge<F, float>(e, " overflow edge", 87.0L, 90.5L, 30000); edge<F, double>(e, " overflow edge", 708.0L, 711.5L, 30000); edge<F, L>(e, " overflow edge", 11354.5L, 11358.5L, 20000);
}
MC_MAIN(all<Fsinh>(e); all<Fcosh>(e); all<Ftanh>(e))
