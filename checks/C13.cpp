// erf / erf_inv
#include "realmain.hpp"
using namespace mc;
template<class T> struct ErfQ { static L c(L x) { return erfcl(x); } static L e(L x) { return erfl(x); } };
template<> struct ErfQ<L> { static Q c(Q x) { return erfcq(x); } static Q e(Q x) { return erfq(x); } };
template<class T> void inv(Engine& e, const char* tag, const Space<T>& s) {
  typedef typename OT<T>::type O;
  e.add(std::string("erf_inv<") + TN<T>::n() + ">" + tag, s.size(), [s](uint64_t i, Worker& w) {
    T p = s.at(i);
    if (p != 0 && std::fabs(p) < 8 * std::numeric_limits<T>::min()) { w.outside++; return; }
    w.states++; w.calls++; w.validated++;
    T g = gcem::erf_inv(p); note_output(w, g);
    O P = (O)p, a = oabs(P), eps = (O)std::numeric_limits<T>::epsilon();
    double q = 0; O res = 0, tol = 1;
    if (!(a <= 1)) q = g == g ? HUGE_VAL : 0;                        // NaN and outside [-1,1]
    else if (a == 1) q = std::isinf(g) && (g > 0) == (p > 0) ? 0 : HUGE_VAL;
    else if (g != g || std::isinf(g) || (p > 0 && g < 0) || (p < 0 && g > 0)) q = HUGE_VAL;
    else {
      O G = oabs((O)g), c = 1 - a;
      res = a < O(0.5L) ? oabs(ErfQ<T>::e(G) - a) : oabs(c - ErfQ<T>::c(G));
      tol = a < O(0.5L) ? rel<T, O>(16, a, eps) : a < O(0.998L) ? (16 + O(0.25L) / (c * c)) * eps : (c < 5 * eps ? c * O(0.75L) : 4 * eps);
      q = (double)(res / tol);
    }
    note_ratio(w, q, i);
    if (w.sampling || (!(q <= 1))) w.fail(i, "erf_inv(" + show(p) + ") = " + show(g) + ": erf of it misses the argument by " + show(res) + ", allowed " + show(tol));
  });
}
template<class T> void invs(Engine& e) {
  inv<T>(e, "", Std<T>::make(e, 0));
  Space<T> s; uint64_t n = e.thorough ? 400000 : 30000;
  s << lin<T>(-1, 1, n) << lin<T>(0.9L, 1, n) << lin<T>(0.99L, 1, n) << lin<T>(-1, -0.99L, n) << lin<T>(0.9965L, 0.9985L, n);
  std::vector<T> v; for (int k = 1; k < std::numeric_limits<T>::digits + 2; k++) for (int m = 0; m < 32; m++) { T c = std::ldexp(T(1) + T(m) / 32, -k - 1); v.push_back(1 - c); v.push_back(c - 1); } // every distance to one
  for (int u = 0; u < 300; u++) { v.push_back(bump<T>(T(1), -u)); v.push_back(bump<T>(T(-1), u)); }
  uniq(v); s << v; inv<T>(e, " dense", s);
}
MC_MAIN(accuracy1_all<Ferf>(e); ints1<Ferf>(e); extra<Ferf>(e, " [-7,7]", -7, 7, 280000); extra<Ferf>(e, " [-2.5,2.5]", -2.5L, 2.5L, 200000); MC_FOR_FLT(invs, e))
