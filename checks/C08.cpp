// sqrt / inv_sqrt / hypot
#include "realmain.hpp"
using namespace mc;
template<class T> void squares(Engine& e) {   // perfect squares are exact up to rounding; checked with the same tolerance, densely
  Space<T> s; std::vector<T> v; for (int k = 0; k <= (e.thorough ? 60000 : 4000); k++) for (int u = -1; u <= 1; u++) v.push_back(bump<T>((T)k * (T)k, u));
  uniq(v); s << v; accuracy1<Fsqrt, T>(e, " near perfect squares", s); accuracy1<Finv_sqrt, T>(e, " near perfect squares", s);
}
template<class T> void hyp(Engine& e) { std::vector<T> a = vals2<T>(e, -12, 12, e.thorough ? 6 : 3, 40), w = wide2<T>(e); accuracy2<Fhypot, T>(e, "", a, a); accuracy2<Fhypot, T>(e, " wide", w, w); accuracy2<Fhypot, T>(e, " mixed scale", a, w); accuracy2<Fhypot, T>(e, " mixed scale 2", w, a); }
MC_MAIN(accuracy1_all<Fsqrt>(e); accuracy1_all<Finv_sqrt>(e); ints1<Fsqrt>(e); ints1<Finv_sqrt>(e); ints2<Fhypot>(e); MC_FOR_FLT(squares, e); extra<Fsqrt>(e, " [0,20]", 0, 20, 100000); extra<Finv_sqrt>(e, " [0,20]", 0, 20, 100000); MC_FOR_FLT(hyp, e))
