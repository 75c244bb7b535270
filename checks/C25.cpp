// every call returns and none executes undefined behaviour (built with trapping UBSan)
#include "ints.hpp"
#include "gcem.hpp"
using namespace mc;
template<class T> Space<T> space(Engine& e) { Space<T> s; std::vector<T> v = specials<T>(), a = landmarks<T>(e, 2), h = halves<T>(150, 2); v.insert(v.end(), a.begin(), a.end()); v.insert(v.end(), h.begin(), h.end());
  for (int k = 0; k < 64; k++) for (int d = -3; d <= 3; d++) for (int sg = -1; sg <= 1; sg += 2) v.push_back(sg * bump<T>(std::ldexp(T(1), k), d));   // the edges of every integer type
  uniq(v); s << v; int b = sizeof(T) == 4 ? (e.thorough ? 15 : 9) : sizeof(T) == 8 ? (e.thorough ? 9 : 4) : (e.thorough ? 5 : 1); s << grid_all<T>(b); s << grid_exp<T>(-8, 12, e.thorough ? 13 : 9); return s; }
template<class T> void sink(T v) { asm volatile("" : : "m"(v)); }
#define ONE(F) template<class T> void u_##F(Engine& e) { Space<T> s = space<T>(e); e.add(std::string(#F "<") + TN<T>::n() + ">", s.size(), [s](uint64_t i, Worker& w) { T x = s.at(i); w.states++; w.calls++; w.validated++; sink(gcem::F(x)); }); } \
  template<class I> void n_##F(Engine& e) { std::vector<I> v = int_alphabet<I>(e, 200, 1); e.add(std::string(#F "<") + TN<I>::n() + ">", v.size(), [v](uint64_t i, Worker& w) { w.states++; w.calls++; w.validated++; sink(gcem::F(v[i])); }); }
#define R1(F) MC_FOR_FLT(u_##F, e); n_##F<signed char>(e); n_##F<int>(e); n_##F<unsigned>(e); n_##F<long long>(e); n_##F<unsigned long long>(e);
ONE(acos) ONE(acosh) ONE(asin) ONE(asinh) ONE(atan) ONE(atanh) ONE(ceil) ONE(cos) ONE(cosh) ONE(erf) ONE(erf_inv) ONE(exp) ONE(expm1) ONE(floor) ONE(inv_sqrt) ONE(lgamma) ONE(log) ONE(log10) ONE(log1p) ONE(log2) ONE(round) ONE(sin) ONE(sinh) ONE(sqrt) ONE(tan) ONE(tanh) ONE(tgamma) ONE(trunc) ONE(sgn)
template<class T> void fab(Engine& e) { Space<T> s = space<T>(e); e.add(std::string("abs/signbit/factorial<") + TN<T>::n() + ">", s.size(), [s](uint64_t i, Worker& w) { T x = s.at(i); w.states++; w.calls += 2; w.validated++; sink(gcem::abs(x)); sink(gcem::signbit(x)); if (x == x && x >= 0) { w.calls++; sink(gcem::factorial(x)); } }); }
template<class T> std::vector<T> small(Engine& e, bool ints) { std::vector<T> v = specials<T>(), h = halves<T>(e.thorough ? 40 : 12, 1); v.insert(v.end(), h.begin(), h.end()); Grid<T> g = grid_exp<T>(-40, 40, e.thorough ? 3 : 0, 1); for (uint64_t i = 0; i < g.size(); i++) v.push_back(g.at(i));
  int E = sizeof(T) == 4 ? 127 : sizeof(T) == 8 ? 1023 : 16383, st = E / 16; for (int k = -E; k <= E; k += st) { v.push_back(std::ldexp(T(1.5), k)); v.push_back(-std::ldexp(T(1.5), k)); }
  if (ints) for (int k = 30; k < 66; k++) for (int d = -1; d <= 1; d++) { v.push_back(bump<T>(std::ldexp(T(1), k), d)); v.push_back(-bump<T>(std::ldexp(T(1), k), d)); } uniq(v); return v; }
#define TWO(F, DOM) template<class T> void two_##F(Engine& e) { std::shared_ptr<std::vector<T>> v(new std::vector<T>(small<T>(e, true))); uint64_t n = v->size(); e.add(std::string(#F "<") + TN<T>::n() + ">", n * n, [v, n](uint64_t i, Worker& w) { T x = (*v)[i / n], y = (*v)[i % n]; if (!(DOM)) { w.outside++; return; } w.states++; w.calls++; w.validated++; sink(gcem::F(x, y)); }); }
TWO(atan2, true) TWO(hypot, true) TWO(pow, true) TWO(fmod, true) TWO(beta, true) TWO(lbeta, true) TWO(log_binomial_coef, true) TWO(incomplete_gamma, true) TWO(incomplete_gamma_inv, true) TWO(max, true) TWO(min, true) TWO(copysign, true)
template<class T> void tri(Engine& e) { std::shared_ptr<std::vector<T>> v(new std::vector<T>); typedef std::numeric_limits<T> N; T s[] = { N::quiet_NaN(), N::infinity(), -N::infinity(), T(0), T(-1), N::min(), N::denorm_min(), N::epsilon(), T(0.01L), T(0.1L), T(0.25), T(0.5), T(0.9L), 1 - N::epsilon(), T(1), 1 + N::epsilon(), T(2), T(3.5), T(10), T(100), T(1000), T(1e6L), N::max() }; for (T x : s) v->push_back(x); uint64_t n = v->size();
  e.add(std::string("incomplete_beta/inv<") + TN<T>::n() + ">", n * n * n, [v, n](uint64_t i, Worker& w) { T a = (*v)[i / n / n], b = (*v)[(i / n) % n], z = (*v)[i % n]; w.states++; w.calls += 2; w.validated++; sink(gcem::incomplete_beta(a, b, z)); sink(gcem::incomplete_beta_inv(a, b, z)); }, 16);
  std::vector<T> q = small<T>(e, false); e.add(std::string("lmgamma<") + TN<T>::n() + ">", q.size() * 40, [q](uint64_t i, Worker& w) { w.states++; w.calls++; w.validated++; sink(gcem::lmgamma(q[i / 40], int(i % 40) - 8)); }); }
// integral functions inside their domain (result representable)
template<class C> bool fit(I128 v) { return v >= (I128)std::numeric_limits<C>::min() && v <= (I128)std::numeric_limits<C>::max(); }
typedef unsigned __int128 U128;   // products of two 64-bit magnitudes do not fit the signed type
template<class C> bool pow_ok(I128 a, I128 b) { if (!fit<C>(a)) return false; if (b < 0) return a != 0; if (b == 0 || a == 0 || a == 1 || a == -1) return true; if (b > 64) return false;
  U128 m = a < 0 ? -a : a, r = 1, lim = (U128)std::numeric_limits<C>::max() + (a < 0 && (b & 1) ? 1 : 0); for (int j = 0; j < (int)b; j++) { r *= m; if (r > lim) return false; } return true; }
template<class C> bool lcm_ok(I128 a, I128 b, I128&) { if (a < 0) a = -a; if (b < 0) b = -b; if (!fit<C>(a) || !fit<C>(b)) return false; if (a == 0 || b == 0) return true; U128 x = a, y = b; while (y) { U128 t = x % y; x = y; y = t; } return (U128)a / x * (U128)b <= (U128)std::numeric_limits<C>::max(); }
// two types: the result is representable in their common type
template<class A, class B> void mixed(Engine& e) { typedef typename std::common_type<A, B>::type C; std::shared_ptr<std::vector<A>> v(new std::vector<A>(int_alphabet<A>(e, 60, 1))); std::shared_ptr<std::vector<B>> u(new std::vector<B>(int_alphabet<B>(e, 60, 1))); uint64_t m = u->size();
  e.add(std::string("gcd/lcm/pow/max/min<") + TN<A>::n() + "," + TN<B>::n() + ">", v->size() * m, [v, u, m](uint64_t i, Worker& w) { A a = (*v)[i / m]; B b = (*u)[i % m]; w.states++; w.calls += 2; w.validated++; sink(gcem::max(a, b)); sink(gcem::min(a, b));
    bool edge = (std::is_signed<A>::value && a == std::numeric_limits<A>::min()) || (std::is_signed<B>::value && b == std::numeric_limits<B>::min());
    I128 l = 0; if (!edge && fit<C>((I128)a < 0 ? -(I128)a : (I128)a) && fit<C>((I128)b < 0 ? -(I128)b : (I128)b)) { w.calls++; sink(gcem::gcd(a, b)); }
    if (!edge && lcm_ok<C>((I128)a, (I128)b, l)) { w.calls++; sink(gcem::lcm(a, b)); }
    if (pow_ok<C>((I128)a, (I128)b)) { w.calls++; sink(gcem::pow(a, b)); } }); }
// gcd and lcm of floating arguments, the edges of the integer types included
template<class T> void fgcd(Engine& e) { std::shared_ptr<std::vector<T>> v(new std::vector<T>(small<T>(e, true))); uint64_t n = v->size();
  e.add(std::string("gcd/lcm<") + TN<T>::n() + ">", n * n, [v, n](uint64_t i, Worker& w) { T a = (*v)[i / n], b = (*v)[i % n]; L la = fabsl((L)a), lb = fabsl((L)b); if (!(la < 0x1p63L) || !(lb < 0x1p63L)) { w.outside++; return; } w.states++; w.calls++; w.validated++; sink(gcem::gcd(a, b)); I128 l = 0; if (lcm_ok<long long>((I128)la, (I128)lb, l)) { w.calls++; sink(gcem::lcm(a, b)); } }); }
template<class A> void integral(Engine& e) { std::shared_ptr<std::vector<A>> v(new std::vector<A>(int_alphabet<A>(e, 60, 1))); uint64_t n = v->size();
  e.add(std::string("gcd/max/min/pow<") + TN<A>::n() + ">", n * n, [v, n](uint64_t i, Worker& w) { A a = (*v)[i / n], b = (*v)[i % n]; w.states++; w.calls += 2; w.validated++; sink(gcem::max(a, b)); sink(gcem::min(a, b));
    bool edge = std::is_signed<A>::value && (a == std::numeric_limits<A>::min() || b == std::numeric_limits<A>::min()); if (!edge) { w.calls++; sink(gcem::gcd(a, b)); }
    if (pow_ok<A>((I128)a, (I128)b)) { w.calls++; sink(gcem::pow(a, b)); }
    I128 l = 0; if (!edge && lcm_ok<A>((I128)a, (I128)b, l)) { w.calls++; sink(gcem::lcm(a, b)); }
    w.calls += 3; if (b > 0 || true) { sink(gcem::pow(1.5, b)); sink(gcem::pow(-0.75f, b)); sink(gcem::pow(1.25L, b)); } });
  std::vector<A> s = int_alphabet<A>(e, 200, 1); e.add(std::string("abs/sgn/factorial<") + TN<A>::n() + ">", s.size(), [s](uint64_t i, Worker& w) { A a = s[i]; w.states++; w.calls++; w.validated++; sink(gcem::sgn(a)); if (!(std::is_signed<A>::value && a == std::numeric_limits<A>::min())) sink(gcem::abs(a)); if (a >= 0 && a <= (sizeof(A) == 1 ? 5 : sizeof(A) == 2 ? 7 : sizeof(A) == 4 ? 12 : 20)) sink(gcem::factorial(a)); });
  e.add(std::string("binomial_coef<") + TN<A>::n() + ">", 22 * 24, [](uint64_t i, Worker& w) { unsigned n = i / 24, k = i % 24; L c = 1; for (unsigned j = 0; j < n / 2; j++) c = c * (n - j) / (j + 1); if (c > (L)std::numeric_limits<A>::max()) { w.outside++; return; } w.states++; w.calls++; w.validated++; sink(gcem::binomial_coef((A)n, (A)k)); sink(gcem::binomial_coef((double)n, (float)k)); }); }
#if defined(PART_A)
MC_MAIN(R1(acos) R1(acosh) R1(asin) R1(asinh) R1(atan) R1(atanh) R1(ceil) R1(cos) R1(cosh) R1(erf) R1(erf_inv) R1(exp) R1(expm1) R1(floor) R1(inv_sqrt))
#elif defined(PART_B)
MC_MAIN(R1(lgamma) R1(log) R1(log10) R1(log1p) R1(log2) R1(round) R1(sin) R1(sinh) R1(sqrt) R1(tan) R1(tanh) R1(tgamma) R1(trunc) R1(sgn) MC_FOR_FLT(fab, e))
#else
MC_MAIN(MC_FOR_FLT(two_atan2, e); MC_FOR_FLT(two_hypot, e); MC_FOR_FLT(two_pow, e); MC_FOR_FLT(two_fmod, e); MC_FOR_FLT(two_beta, e); MC_FOR_FLT(two_lbeta, e); MC_FOR_FLT(two_log_binomial_coef, e); MC_FOR_FLT(two_incomplete_gamma, e); MC_FOR_FLT(two_incomplete_gamma_inv, e); MC_FOR_FLT(two_max, e); MC_FOR_FLT(two_min, e); MC_FOR_FLT(two_copysign, e); MC_FOR_FLT(tri, e); MC_FOR_INT(integral, e); mixed<int, long long>(e); mixed<long long, int>(e); mixed<unsigned, int>(e); mixed<int, unsigned>(e); mixed<signed char, int>(e); mixed<short, unsigned char>(e); mixed<unsigned, long long>(e); mixed<unsigned long long, unsigned>(e); mixed<long long, unsigned long long>(e); MC_FOR_FLT(fgcd, e))
#endif
