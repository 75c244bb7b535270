// incomplete_beta_inv, judged through the equation it solves
#include "special.hpp"
using namespace mc;
template<class T> void judge(T a, T b, T p, uint64_t i, Worker& w) {
    if (1 - (L)p < 1e-9L) { w.outside++; return; }
    w.states++; w.calls++; w.validated++;
    T g = gcem::incomplete_beta_inv(a, b, p); note_output(w, g);
    double q = HUGE_VAL; L err = 0, tol = 0;
    for (int arb = 0; arb < 2 && g >= 0 && g <= 1 && !(q <= 0.5); arb++) { // the second time by the arbiter
      auto I = [&](T x) -> L { return arb ? (L)ref_ibeta_q(a, b, x) : ref_ibeta(a, b, x); };
      L r = I(g), d = fabsl(I(std::min(T(1), bump<T>(g, 2))) - I(std::max(T(0), bump<T>(g, -2))));
      err = fabsl(r - (L)p); const L small = sizeof(T) == 4 ? 1e-10L : 1e-17L;
      tol = ((L)p < small ? small : (sizeof(T) == 4 ? 3 : 1) * ibeta_tol<T>(a, b, g, r)) + d; q = (double)(err / tol);
    }
    note_ratio(w, q, i);
    if (w.sampling || (!(q <= 1))) w.fail(i, "incomplete_beta_inv(" + show(a) + ", " + show(b) + ", " + show(p) + ") = " + show(g) + ": misses the argument by " + show(err) + ", allowed " + show(tol));
  }
// a finer grid of shape parameters, fewer probabilities
template<class T> void fine(Engine& e) {
  std::vector<T> v, p; int G = e.thorough ? 120 : 45; for (int k = 0; k <= G; k++) v.push_back((T)(0.5L * powl(1000.0L, (L)k / G))); for (int k = 1; k <= (e.thorough ? 60 : 24); k++) v.push_back(T(k) / 2); uniq(v);
  for (int k = 1; k < (e.thorough ? 80 : 20); k++) p.push_back((T)((L)k / (e.thorough ? 80 : 20))); for (int k = 2; k < 12; k += e.thorough ? 1 : 3) { p.push_back((T)powl(10.0L, -k)); if (k < 6) p.push_back((T)(1 - powl(10.0L, -k))); } uniq(p);
  product3<T>(e, std::string("incomplete_beta_inv<") + TN<T>::n() + "> finer shapes", v, v, p, judge<T>);
}
template<class T> void go(Engine& e) {
  fine<T>(e);
  std::vector<T> all = beta_abs<T>(e), ab, p = unit_zs<T>(e); for (T a : all) if ((L)a >= 0.5L) ab.push_back(a);
  product3<T>(e, std::string("incomplete_beta_inv<") + TN<T>::n() + ">", ab, ab, p, judge<T>);
  std::vector<T> s = ab; s.push_back(NAN); s.push_back(T(-1)); s.push_back(T(-0.25)); s.push_back(T(-3.5)); T pp[] = { T(0), T(-0.0), T(1), T(NAN), T(0.5), T(-1e-30L), T(-0.25), T(-3), T(1.5), T(1) + std::numeric_limits<T>::epsilon(), std::numeric_limits<T>::max(), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity() };
  product3<T>(e, std::string("incomplete_beta_inv<") + TN<T>::n() + "> limits", s, s, std::vector<T>(pp, pp + sizeof(pp) / sizeof(pp[0])), [](T a, T b, T p, uint64_t i, Worker& w) {
    T want; if (a != a || b != b || p != p || a < 0 || b < 0 || p < 0) want = NAN; else if (p > 1) { if (!(a >= T(0.5) && a <= 500 && b >= T(0.5) && b <= 500)) { w.outside++; return; } want = NAN; } else if (p == 0) want = 0; else if (p == 1) want = 1; else { w.outside++; return; }
    w.states++; w.calls++; w.validated++;
    T g = gcem::incomplete_beta_inv(a, b, p); note_output(w, g);
    if (w.sampling || (!(g == want || (g != g && want != want)))) w.fail(i, "incomplete_beta_inv(" + show(a) + ", " + show(b) + ", " + show(p) + ") = " + show(g) + ", must be " + show(want));
  });
}
MC_MAIN(MC_FOR_FLT(go, e))
