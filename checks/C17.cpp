// incomplete_beta
#include "special.hpp"
using namespace mc;
inline L e_step(int ns) { return 12.0L / (ns / 2); }
template<class T> void judge(T a, T b, T z, uint64_t i, Worker& w) {
  w.states++; w.calls++; w.validated++;
  T g = gcem::incomplete_beta(a, b, z); note_output(w, g);
  L r = ref_ibeta(a, b, z), tol = ibeta_tol<T>(a, b, z, r), err = fabsl((L)g - r);
  double q = g != g ? HUGE_VAL : (double)(err / tol);
  if (q > 0.5 && g == g) { r = (L)ref_ibeta_q(a, b, z); tol = ibeta_tol<T>(a, b, z, r); err = fabsl((L)g - r); q = (double)(err / tol); }
  note_ratio(w, q, i);
  if (w.sampling || (!(q <= 1))) w.fail(i, "incomplete_beta(" + show(a) + ", " + show(b) + ", " + show(z) + ") = " + show(g) + ", model " + show(r) + ", allowed error " + show(tol));
}
// z at and around the switch to the complement, the mean and multiples of the standard deviation, for a finer grid of a and b
template<class T> void around(Engine& e) {
  std::vector<T> ab = beta_abs<T>(e); int G = e.thorough ? 120 : 50; for (int k = 0; k <= G; k++) ab.push_back((T)(0.05L * powl(10000.0L, (L)k / G)));
  for (int k = 1; k <= (e.thorough ? 60 : 24); k++) ab.push_back(T(k) / 2); std::vector<T> o; for (T x : ab) if ((L)x >= 0.0499L && x <= 500) o.push_back(x); uniq(o);
  const int NU = 9, NM = 15, NS = e.thorough ? 81 : 33, N = NU + NM + NS;
  std::shared_ptr<std::vector<T>> v(new std::vector<T>(o)); uint64_t m = v->size();
  e.add(std::string("incomplete_beta<") + TN<T>::n() + "> around the switch point and the mean", m * m * N, [v, m, NU, NM, NS, N](uint64_t i, Worker& w) {
    int k = int(i % N); T a = (*v)[i / N / m], b = (*v)[i / N % m]; L A = a, B = b, s = (A + 1) / (A + B + 2), mean = A / (A + B), sd = sqrtl(A * B / (A + B + 1)) / (A + B), z;
    if (k < NU) { T t = (T)s; z = bump<T>(t, k - NU / 2); }
    else if (k < NU + NM) { static const L f[] = { 0.5L, 0.7L, 0.8L, 0.9L, 0.95L, 0.98L, 0.99L, 0.999L, 1.001L, 1.01L, 1.02L, 1.05L, 1.1L, 1.2L, 1.5L }; z = s * f[k - NU]; }
    else z = mean + sd * (L)(k - NU - NM - NS / 2) * (e_step(NS));
    T Z = (T)z; if (!(Z >= std::numeric_limits<T>::min()) || !(Z < 1)) { w.outside++; return; }
    judge<T>(a, b, Z, i, w);
  }, 256);
}
template<class T> void go(Engine& e) {
  around<T>(e);
  std::vector<T> ab = beta_abs<T>(e), z = unit_zs<T>(e);
  product3<T>(e, std::string("incomplete_beta<") + TN<T>::n() + ">", ab, ab, z, judge<T>);
  std::vector<T> s = specials<T>(); for (T a : ab) s.push_back(a); uniq(s);
  T zz[] = { T(0), T(-0.0), T(1), T(NAN), T(-1), T(0.5) };
  product3<T>(e, std::string("incomplete_beta<") + TN<T>::n() + "> limits", s, s, std::vector<T>(zz, zz + 6), [](T a, T b, T z, uint64_t i, Worker& w) {
    T want; if (a != a || b != b || z != z) want = NAN; else if (z <= 0) want = 0; else if (z == 1 && a >= T(0.05) && b >= T(0.05) && a <= 500 && b <= 500) want = 1; else { w.outside++; return; }
    w.states++; w.calls++; w.validated++;
    T g = gcem::incomplete_beta(a, b, z); note_output(w, g);
    if (w.sampling || (!(g == want || (g != g && want != want)))) w.fail(i, "incomplete_beta(" + show(a) + ", " + show(b) + ", " + show(z) + ") = " + show(g) + ", must be " + show(want));
  });
}
MC_MAIN(MC_FOR_FLT(go, e))
