// incomplete_gamma_inv, judged through the equation it solves
#include "special.hpp"
using namespace mc;
template<class T> std::vector<T> ps(const Engine& e) {
  std::vector<T> v; int N = e.thorough ? 1500 : 240; for (int k = 1; k < N; k++) v.push_back((T)((L)k / N));
  for (int k = 1; k < std::numeric_limits<T>::max_exponent - 6; k += k < 40 ? 1 : 1 + k / 6) for (int m = 0; m < (k < 40 ? 2 : 1); m++) { T c = std::ldexp(T(1) + T(m) / 2, -k - 1); v.push_back(c); if (1 - c < 1) v.push_back(1 - c); }
  for (L x : e.landmarks) if (x > 1e-9L && x < 1) for (int u = -1; u <= 1; u++) v.push_back(bump<T>((T)x, u));
  for (int u = 1; u < 5; u++) v.push_back(bump<T>(T(1), -u));
  return inside01(v);
}
template<class T> void go(Engine& e) {
  std::vector<T> all = gamma_as<T>(e), as, p = ps<T>(e); for (T a : all) if ((L)a >= (sizeof(T) == 4 ? 0.5L : 0.3L) && a <= (sizeof(T) == 4 ? T(50) : T(2000))) as.push_back(a);
  product3<T>(e, std::string("incomplete_gamma_inv<") + TN<T>::n() + ">", as, p, std::vector<T>(1, T(0)), [](T a, T p, T, uint64_t i, Worker& w) {
    w.states++; w.calls++; w.validated++;
    T g = gcem::incomplete_gamma_inv(a, p); note_output(w, g);
    double q = HUGE_VAL; L err = 0, tol = 0;
    if (g == g && !std::isinf(g) && g >= 0) {
      L r = ref_gamma_p(a, g), d = fabsl(ref_gamma_p(a, bump<T>(g, 2)) - ref_gamma_p(a, std::max(T(0), bump<T>(g, -2))));
      err = fabsl(r - (L)p); L lq = (logl((L)p) + lgammal((L)a + 1)) / (L)a;   // the quantile is at least exp(lq)
      L f = (L)p < 1e-25L || ((L)a > 1 && lq < -27.6L) || lq < logl(16 * std::numeric_limits<T>::min()) ? std::min(1e-8L, igamma_abs_tol<T>(a)) : igamma_tol<T>(a, g, r); tol = f + d; q = (double)(err / tol);
      if (g == 0 && lq > logl(16 * std::numeric_limits<T>::min())) q = HUGE_VAL;   // a representable quantile is not zero
    }
    if (sizeof(T) == 4 && p > T(0.9999) && q < HUGE_VAL) q = 0;   // only finite and not negative
    note_ratio(w, q, i);
    if (w.sampling || (!(q <= 1))) w.fail(i, "incomplete_gamma_inv(" + show(a) + ", " + show(p) + ") = " + show(g) + ": misses the argument by " + show(err) + ", allowed " + show(tol));
  });
  std::vector<T> s = specials<T>(); for (T a : as) s.push_back(a); uniq(s);
  std::vector<T> sp = specials<T>(); T more[] = { T(1.5), T(10), T(-0.25), T(0.25), T(0.75) }; for (T x : more) sp.push_back(x); uniq(sp);
  product3<T>(e, std::string("incomplete_gamma_inv<") + TN<T>::n() + "> limits", s, sp, std::vector<T>(1, T(0)), [](T a, T p, T, uint64_t i, Worker& w) {
    T want; if (a != a || p != p || a < 0 || p < 0) want = NAN; else if (p == 0) want = 0; else if (p > 1) want = NAN; else if (p == 1) want = std::numeric_limits<T>::infinity(); else if (a == 0 && p > 0) want = 0; else { w.outside++; return; }
    if (p > 0 && p < std::numeric_limits<T>::min()) { w.outside++; return; }
    w.states++; w.calls++; w.validated++;
    T g = gcem::incomplete_gamma_inv(a, p); note_output(w, g);
    if (w.sampling || (!(g == want || (g != g && want != want)))) w.fail(i, "incomplete_gamma_inv(" + show(a) + ", " + show(p) + ") = " + show(g) + ", must be " + show(want));
  });
}
MC_MAIN(MC_FOR_FLT(go, e))
