// incomplete_gamma
#include "special.hpp"
using namespace mc;
// every a of the alphabet x { 0..a+12 sqrt(a)+15 in N steps, a + t sqrt(a), header thresholds, distances to a, specials }
template<class T> void zs(const Engine& e, T a, std::vector<T>& v) {
  int N = e.thorough ? 1200 : 400; L A = a, top = A + 12 * sqrtl(A) + 15;
  for (int k = 1; k <= N; k++) v.push_back((T)(top * k / N));
  for (int k = -(e.thorough ? 400 : 120); k <= (e.thorough ? 400 : 120); k++) v.push_back((T)(A + 12 * sqrtl(A) * k / (e.thorough ? 400 : 120)));
  L th[] = { 0, 1, 2, 3, 5, 9, 10, 11, 15, 0.5L, 0.1L, 0.01L, 0.001L };
  for (L t : th) for (int u = -1; u <= 1; u++) { v.push_back(bump<T>((T)(A + t), u)); v.push_back(bump<T>((T)(A - t), u)); }
  for (int k = 2; k < 8; k++) for (int u = -1; u <= 1; u++) { v.push_back(bump<T>((T)(A * k), u)); v.push_back(bump<T>((T)(A + k * sqrtl(A)), u)); v.push_back(bump<T>((T)(A - k * sqrtl(A)), u)); v.push_back(bump<T>((T)(A / k), u)); }
  for (int k = 1; k < 30; k++) v.push_back((T)ldexpl(1, -k));
  for (int k = 1; k < 12; k++) v.push_back((T)(A * ldexpl(1, -k)));
  for (L c : e.landmarks) if (c > 0 && c < top) v.push_back((T)c);
  std::vector<T> o; for (T z : v) if (z >= std::numeric_limits<T>::min() && (L)z <= top) o.push_back(z);
  uniq(o); v.swap(o);
}
template<class T> void go(Engine& e) {
  std::vector<T> as = gamma_as<T>(e, 16 * (L)std::numeric_limits<T>::min()); std::shared_ptr<std::vector<std::pair<T, T>>> az(new std::vector<std::pair<T, T>>);
  for (T a : as) { std::vector<T> z; zs<T>(e, a, z); for (T x : z) az->push_back(std::make_pair(a, x)); }
  e.add(std::string("incomplete_gamma<") + TN<T>::n() + ">", az->size(), [az](uint64_t i, Worker& w) {
    T a = (*az)[i].first, z = (*az)[i].second; w.states++; w.calls++; w.validated++;
    T g = gcem::incomplete_gamma(a, z); note_output(w, g);
    L r = ref_gamma_p(a, z), tol = igamma_tol<T>(a, z, r), err = fabsl((L)g - r);
    double q = g != g ? HUGE_VAL : (double)(err / tol);
    note_ratio(w, q, i);
    if (w.sampling || (!(q <= 1))) w.fail(i, "incomplete_gamma(" + show(a) + ", " + show(z) + ") = " + show(g) + ", model " + show(r) + ", allowed error " + show(tol));
  });
  // limits: NaN arguments, negative a, z <= 0, a = 0, infinite z
  std::vector<T> s = specials<T>(); for (T a : as) s.push_back(a); uniq(s);
  product3<T>(e, std::string("incomplete_gamma<") + TN<T>::n() + "> limits", s, s, std::vector<T>(1, T(0)), [](T a, T z, T, uint64_t i, Worker& w) {
    T want; if (a != a || z != z || a < 0) want = NAN; else if (z <= 0) want = 0; else if (std::isinf(a)) { w.outside++; return; } else if (std::isinf(z) || a == 0) want = 1; else { w.outside++; return; }
    if ((z != 0 && std::fabs(z) < std::numeric_limits<T>::min()) || (a != 0 && std::fabs(a) < std::numeric_limits<T>::min())) { w.outside++; return; }
    w.states++; w.calls++; w.validated++;
    T g = gcem::incomplete_gamma(a, z); note_output(w, g);
    if (w.sampling || (!(g == want || (g != g && want != want)))) w.fail(i, "incomplete_gamma(" + show(a) + ", " + show(z) + ") = " + show(g) + ", must be " + show(want));
  });
}
MC_MAIN(MC_FOR_FLT(go, e))
