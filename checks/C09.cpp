// sin / cos / tan
#include "realmain.hpp"
using namespace mc;
template<class F> void all(Engine& e) { accuracy1_all<F>(e); ints1<F>(e); extra<F>(e, " [-10,10]", -10, 10, 200000); extra<F>(e, " [-2000,2000]", -2000, 2000, 100000); multiples<F>(e, " k pi/4", 0.78539816339744830961566084581987572Q, 20000); multiples<F>(e, " k pi/6", 0.52359877559829887307710723054658381Q, 3000); multiples<F>(e, " k pi/16", 0.19634954084936207740391521145496893Q, 3000); }
MC_MAIN(all<Fsin>(e); all<Fcos>(e); all<Ftan>(e))
