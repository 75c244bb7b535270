// Contracts judged through their defining equation (inverses) or against Boost.Math in long double.
#ifndef MC_SPECIAL_HPP
#define MC_SPECIAL_HPP
#include "realmain.hpp"
#include <boost/math/special_functions/gamma.hpp>
#include <boost/math/special_functions/beta.hpp>
namespace mc {
namespace bp = boost::math::policies;
typedef bp::policy<bp::promote_double<false>, bp::promote_float<false>, bp::domain_error<bp::ignore_error>, bp::pole_error<bp::ignore_error>, bp::overflow_error<bp::ignore_error>, bp::underflow_error<bp::ignore_error>, bp::denorm_error<bp::ignore_error>, bp::evaluation_error<bp::ignore_error>> BP;
inline L ref_gamma_p(L a, L z) { return boost::math::gamma_p(a, z, BP()); }
// (beyond one half through the complement: Boost's closed form for a = b = 1/2 loses digits next to one)
inline L ref_ibeta(L a, L b, L z) { if (z > 0.5L && z < 1) return 1 - boost::math::ibeta(b, a, 1 - z, BP()); return boost::math::ibeta(a, b, z, BP()); }

// arbiter: the same function by the continued fraction in binary128, consulted where an answer and Boost disagree
// (Boost's long double ibeta loses up to 2e-14 for large non-integral shape parameters)
inline Q ref_ibeta_q(Q a, Q b, Q z) {
  if (z <= 0) return 0; if (z >= 1) return 1;
  if (z > (a + 1) / (a + b + 2)) return 1 - ref_ibeta_q(b, a, 1 - z);
  Q lead = expq(a * logq(z) + b * log1pq(-z) - lgammaq(a) - lgammaq(b) + lgammaq(a + b)) / a;
  Q c = 1, d = 1 - (a + b) * z / (a + 1), tiny = 1e-4000Q; if (fabsq(d) < tiny) d = tiny; d = 1 / d; Q f = d;
  for (int m = 1; m < 20000; m++) {
    Q n = m * (b - m) * z / ((a + 2 * m - 1) * (a + 2 * m)); d = 1 + n * d; if (fabsq(d) < tiny) d = tiny; c = 1 + n / c; if (fabsq(c) < tiny) c = tiny; d = 1 / d; f *= c * d;
    n = -(a + m) * (a + b + m) * z / ((a + 2 * m) * (a + 2 * m + 1)); d = 1 + n * d; if (fabsq(d) < tiny) d = tiny; c = 1 + n / c; if (fabsq(c) < tiny) c = tiny; d = 1 / d; Q h = c * d; f *= h;
    if (fabsq(h - 1) < 1e-30Q) break;
  }
  return lead * f;
}

// generic judged obligation over a product of up to three alphabets
template<class T, class Step> void product3(Engine& e, const std::string& name, const std::vector<T>& A, const std::vector<T>& B, const std::vector<T>& C, Step step) {
  std::shared_ptr<std::vector<T>> a(new std::vector<T>(A)), b(new std::vector<T>(B)), c(new std::vector<T>(C));
  uint64_t nb = b->size(), nc = c->size();
  e.add(name, (uint64_t)a->size() * nb * nc, [a, b, c, nb, nc, step](uint64_t i, Worker& w) { step((*a)[i / nc / nb], (*b)[(i / nc) % nb], (*c)[i % nc], i, w); }, 256);
}
// shape parameters in [lowest, 2000]: every header literal and half integer with neighbours, a geometric ladder
template<class T> std::vector<T> gamma_as(const Engine& e, L lowest = 0.01L) {
  std::vector<T> v; L s[] = { 0.01L, 0.05L, 0.1L, 0.2L, 0.3L, 0.7L, 0.9L, 1.1L, 3.3L, 9.9L, 12.3L, 100.5L, 1999, 2000 };
  for (L x : s) v.push_back((T)x);
  int H = e.thorough ? 240 : 90; for (int k = 1; k <= H; k++) v.push_back(T(k) / 2);
  int G = e.thorough ? 600 : 160; for (int k = 0; k <= G; k++) v.push_back((T)(0.01L * powl(200000.0L, (L)k / G)));
  for (L x : e.landmarks) if (x >= 0.01L && x <= 2000) for (int u = -1; u <= 1; u++) v.push_back(bump<T>((T)x, u));
  for (int k = 1; k < std::numeric_limits<T>::max_exponent - 4; k += k < 70 ? 2 : 1 + k / 24) v.push_back(std::ldexp(T(1.25), -k));
  std::vector<T> o; for (T x : v) if ((L)x >= lowest * 0.999L && x <= 2000) o.push_back(x);
  uniq(o); return o;
}
template<class T> L igamma_abs_tol(T a) { return (160 + 16 * (L)a + 4 * fabsl(logl(a))) * (L)std::numeric_limits<T>::epsilon() + 8e-15L; }
// relative in the lower tail: fully for a < 10 (series / continued fraction), down to 1e-30 for the quadrature beyond
template<class T> L igamma_tol(T a, T z, L r) { L eps = std::numeric_limits<T>::epsilon(), t = igamma_abs_tol<T>(a), m = r + 8 * std::numeric_limits<T>::min(); if ((L)a < 10 ? (L)z >= (L)a + 2 : r > 0.5L) return t; if ((L)a >= 10) m = std::max(m, 1e-30L); return (t + 8 * fabsl(logl(m)) * eps) * m; }
// shape parameters in [0.05, 500]
template<class T> std::vector<T> beta_abs(const Engine& e) {
  std::vector<T> v; L s[] = { 0.05L, 0.1L, 0.3L, 0.5L, 0.7L, 0.9L, 1, 1.01L, 1.5L, 2, 2.5L, 3, 4, 5, 7.3L, 10, 20, 30.5L, 60, 100, 200, 333, 500 };
  for (L x : s) v.push_back((T)x);
  v.push_back(bump<T>(T(1), 1)); v.push_back(bump<T>(T(1), -1)); v.push_back(bump<T>(T(0.5), 1));
  if (e.thorough) { for (int k = 1; k <= 24; k++) v.push_back(T(k) / 2); for (int k = 0; k <= 30; k++) v.push_back((T)(0.05L * powl(10000.0L, (L)k / 30))); for (L x : e.landmarks) if (x >= 0.05L && x <= 500) v.push_back((T)x); }
  else { int n = 0; for (L x : e.landmarks) if (x >= 0.05L && x <= 500 && x == floorl(x) && n++ < 40) v.push_back((T)x); }
  uniq(v); std::vector<T> o; for (T x : v) if ((L)x >= 0.0499L && x <= 500) o.push_back(x); return o;
}
template<class T> std::vector<T> inside01(std::vector<T> v) { std::vector<T> o; for (T x : v) if (x > 0 && x < 1) o.push_back(x); uniq(o); return o; }
// (0,1): uniform steps, both tails down to 2^-40, header literals with neighbours
template<class T> std::vector<T> unit_zs(const Engine& e) {
  std::vector<T> v; int N = e.thorough ? 400 : 100; for (int k = 1; k < N; k++) v.push_back((T)((L)k / N));
  for (int k = 1; k < std::numeric_limits<T>::max_exponent - 6; k += k < 40 ? 1 : 1 + k / 6) { T c = std::ldexp(T(1), -k); v.push_back(c); if (1 - c < 1) v.push_back(1 - c); }
  for (L x : e.landmarks) if (x > 1e-9L && x < 1) for (int u = -1; u <= 1; u++) v.push_back(bump<T>((T)x, u));
  for (int u = 1; u < 4; u++) v.push_back(bump<T>(T(1), -u));
  return inside01(v);
}
template<class T> L ibeta_abs_tol(T a, T b) { return (64 + 16 * ((L)a + (L)b)) * (L)std::numeric_limits<T>::epsilon() + 1e-15L * (1 + (L)a + (L)b); }
// below the switch to the complement the result is accurate relative to itself
template<class T> L ibeta_tol(T a, T b, T z, L r) {
  L eps = std::numeric_limits<T>::epsilon(), t = ibeta_abs_tol<T>(a, b);
  if ((L)z * ((L)a + (L)b + 2) > 0.9L * ((L)a + 1) || z > T(0.5)) return t;
  return (t + 8 * fabsl(logl(r > 0 ? r : std::numeric_limits<T>::min())) * eps) * r + std::max(8 * (L)std::numeric_limits<T>::min(), 1e-4900L);
}
} // namespace mc
#endif
