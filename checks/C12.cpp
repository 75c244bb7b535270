// asinh / acosh / atanh
#include "realmain.hpp"
using namespace mc;
template<class F> void all(Engine& e) { accuracy1_all<F>(e); ints1<F>(e); extra<F>(e, " [-1,1]", -1, 1, 160000); extra<F>(e, " [-40,40]", -40, 40, 100000); extra<F>(e, " near 1", 1 - 1.0L / 4096, 1 + 1.0L / 4096, 60000); }
MC_MAIN(all<Fasinh>(e); all<Facosh>(e); all<Fatanh>(e))
