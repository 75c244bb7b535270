// log / log1p / log2 / log10
#include "realmain.hpp"
using namespace mc;
template<class F> void all(Engine& e) { accuracy1_all<F>(e); ints1<F>(e); extra<F>(e, " [0,4]", 0, 4, 200000); extra<F>(e, " [0,2000]", 0, 2000, 100000); extra<F>(e, " 1+-2^-12", 1 - 1.0L / 4096, 1 + 1.0L / 4096, 60000); }
template<class T> void tens(Engine& e) {   // the decimal exponents, each with its neighbours
  Space<T> s; std::vector<T> v; int E = std::numeric_limits<T>::max_exponent10, st = sizeof(T) == 16 && !e.thorough ? 7 : 1;
  for (int k = -E; k <= E; k += st) { Q b = powq(10.0Q, (Q)k); for (int m = 1; m < 20; m++) for (int u = -3; u <= 3; u++) { T x = (T)(b * m / 2); if (fin(x)) v.push_back(bump<T>(x, u)); } }
  for (int k = std::numeric_limits<T>::min_exponent; k < std::numeric_limits<T>::max_exponent; k += st) for (int u = -3; u <= 3; u++) v.push_back(bump<T>(std::ldexp(T(1), k), u));
  uniq(v); s << v; accuracy1<Flog, T>(e, " powers of ten and two", s); accuracy1<Flog2, T>(e, " powers of ten and two", s); accuracy1<Flog10, T>(e, " powers of ten and two", s); accuracy1<Flog1p, T>(e, " powers of ten and two", s);
}
MC_MAIN(all<Flog>(e); all<Flog1p>(e); all<Flog2>(e); all<Flog10>(e); MC_FOR_FLT(tens, e); extra<Flog1p>(e, " [-1,1]", -1, 1, 200000); extra<Flog1p>(e, " +-1e-3", -1e-3L, 1e-3L, 100000))
