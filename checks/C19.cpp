// NaN / domain / pole / limit behaviour of every function over the whole range of each type
#include "realmain.hpp"
using namespace mc;

enum { K_NAN, K_VAL, K_NOTNAN, K_FIN, K_FREE };           // what the model says about the answer
struct Want { int k; L v; };
inline Want wn() { return Want{ K_NAN, 0 }; }
inline Want wv(L v) { return Want{ K_VAL, v }; }
inline Want wa() { return Want{ K_NOTNAN, 0 }; }
inline Want wf() { return Want{ K_FIN, 0 }; }
inline Want wo() { return Want{ K_FREE, 0 }; }
static const L INF = HUGE_VALL;
// finite if a value with this logarithm of its magnitude can be represented (rel: relative error allowed for that logarithm)
template<class T> Want wl(L lg, L rel = 0) { return lg + fabsl(lg) * rel * (L)std::numeric_limits<T>::epsilon() < logl(std::numeric_limits<T>::max()) - 0.1L ? wf() : wa(); }
inline L lng(L x) { int sg; return lgammal_r(x, &sg); }

template<class R> std::string bad(R g, Want m) {
  bool n = g != g, i = std::isinf(g);
  if (m.k == K_NAN && !n) return "must be NaN";
  if (m.k == K_VAL && !((L)g == m.v)) return "must be " + show(m.v);
  if (m.k == K_NOTNAN && n) return "must not be NaN";
  if (m.k == K_FIN && (n || i)) return "must be finite";
  return "";
}
template<class T> bool sub(T x) { return x != 0 && std::fabs(x) < std::numeric_limits<T>::min(); }
template<class T> Space<T> space(Engine& e, const char* fn) { Space<T> s; std::vector<T> v = specials<T>(), a = landmarks<T>(e, 2), h = halves<T>(200, 2); v.insert(v.end(), a.begin(), a.end()); v.insert(v.end(), h.begin(), h.end()); uniq(v); s << v;
  int b = sizeof(T) == 4 ? (e.thorough ? 16 : 10) : sizeof(T) == 8 ? (e.thorough ? 10 : 5) : (e.thorough ? 5 : 1); s << grid_all<T>(b); s << grid_exp<T>(-8, 12, e.thorough ? 14 : 10);
  std::string f = fn; if (f == "sin" || f == "cos" || f == "tan") { long k = e.thorough ? 2800000 : 400000; s << mult<T>(3.14159265358979323846264338327950288Q, -k, k, 3) << mult<T>((Q)(T)3.14159265358979323846264338327950288Q, -k, k, 3); } // where the reduction is decided by a rounding
  return s; }

#define ONE(F, MODEL)                                                                                                            \
  template<class T> struct S_##F {                                                                                               \
    static Want want(T x) { typedef std::numeric_limits<T> N; (void)sizeof(N); return x != x ? wn() : MODEL; }                    \
    static void add(Engine& e) { Space<T> s = space<T>(e, #F); e.add(std::string(#F "<") + TN<T>::n() + ">", s.size(), [s](uint64_t i, Worker& w) { \
      T x = s.at(i); Want m = want(x); if (m.k == K_FREE) { w.outside++; return; }                                                \
      w.states++; w.calls++; w.validated++; T g = gcem::F(x); note_output(w, g); std::string b = bad(g, m);                       \
      if (w.sampling || (!b.empty())) w.fail(i, std::string(#F "(") + show(x) + ") = " + show(g) + ", " + b); }); } };
#define INTS(F) template<class I> void int_##F(Engine& e) { std::vector<I> v = int_alphabet<I>(e, 300, 1); e.add(std::string(#F "<") + TN<I>::n() + ">", v.size(), [v](uint64_t i, Worker& w) { \
      I n = v[i]; double x = (double)n; Want m = S_##F<double>::want(x); if (m.k == K_FREE) { w.outside++; return; } w.states++; w.calls++; w.validated++; double g = gcem::F(n); note_output(w, g); std::string b = bad(g, m); \
      if (w.sampling || (!b.empty())) w.fail(i, std::string(#F "(") + show(n) + " as " + TN<I>::n() + ") = " + show(g) + ", " + b); }); }
#define FUN(F, MODEL) ONE(F, MODEL) INTS(F)
#define RUN(F) S_##F<float>::add(e); S_##F<double>::add(e); S_##F<L>::add(e); MC_FOR_INT(int_##F, e)

FUN(acos, std::fabs(x) > 1 ? wn() : x == 1 ? wv(0) : wf())
FUN(acosh, x < 1 ? wn() : x == 1 ? wv(0) : std::isinf(x) ? wv(INF) : wf())
FUN(asin, std::fabs(x) > 1 ? wn() : x == 0 ? wv(0) : wf())
FUN(asinh, std::isinf(x) ? wv(x) : x == 0 ? wv(0) : wf())
FUN(atan, x == 0 ? wv(0) : wf())
FUN(atanh, std::fabs(x) > 1 ? wn() : x == 1 ? wv(INF) : x == -1 ? wv(-INF) : x == 0 ? wv(0) : wf())
FUN(ceil, std::isinf(x) ? wv(x) : wf())
FUN(floor, std::isinf(x) ? wv(x) : wf())
FUN(trunc, std::isinf(x) ? wv(x) : wf())
FUN(round, std::isinf(x) ? wv(x) : wf())
FUN(cos, std::isinf(x) ? wn() : x == 0 ? wv(1) : std::fabs(x) > 1 / N::epsilon() ? wo() : wf())
FUN(sin, std::isinf(x) ? wn() : x == 0 ? wv(0) : std::fabs(x) > 1 / N::epsilon() ? wo() : wf())
FUN(tan, std::isinf(x) ? wn() : x == 0 ? wv(0) : std::fabs(x) > 1 / N::epsilon() ? wo() : wa())
FUN(cosh, std::isinf(x) ? wv(INF) : x == 0 ? wv(1) : wl<T>(fabsl((L)x)))
FUN(sinh, std::isinf(x) ? wv(x) : x == 0 ? wv(0) : wl<T>(fabsl((L)x)))
FUN(tanh, std::isinf(x) ? wv(x > 0 ? 1 : -1) : x == 0 ? wv(0) : wf())
FUN(erf, std::isinf(x) ? wv(x > 0 ? 1 : -1) : x == 0 ? wv(0) : wf())
FUN(erf_inv, std::fabs(x) > 1 ? wn() : x == 1 ? wv(INF) : x == -1 ? wv(-INF) : x == 0 ? wv(0) : wf())
FUN(exp, std::isinf(x) ? wv(x > 0 ? INF : 0) : x == 0 ? wv(1) : wl<T>((L)x))
FUN(expm1, std::isinf(x) ? wv(x > 0 ? INF : -1) : x == 0 ? wv(0) : wl<T>((L)x))
FUN(log, x < 0 ? (sub(x) ? wo() : wn()) : x == 0 ? wv(-INF) : std::isinf(x) ? wv(INF) : x == 1 ? wv(0) : sub(x) ? wa() : wf())
FUN(log2, x < 0 ? (sub(x) ? wo() : wn()) : x == 0 ? wv(-INF) : std::isinf(x) ? wv(INF) : x == 1 ? wv(0) : sub(x) ? wa() : wf())
FUN(log10, x < 0 ? (sub(x) ? wo() : wn()) : x == 0 ? wv(-INF) : std::isinf(x) ? wv(INF) : x == 1 ? wv(0) : sub(x) ? wa() : wf())
FUN(log1p, x < -1 ? wn() : x == -1 ? wv(-INF) : std::isinf(x) ? wv(INF) : x == 0 ? wv(0) : wf())
FUN(sqrt, x < 0 ? (sub(x) ? wo() : wn()) : x == 0 ? wv(0) : std::isinf(x) ? wv(INF) : wf())
FUN(inv_sqrt, x < 0 ? (sub(x) ? wo() : wn()) : x == 0 ? wv(INF) : std::isinf(x) ? wv(0) : sub(x) ? wa() : wf())
FUN(lgamma, x <= 0 ? wv(INF) : std::isinf(x) ? wv(INF) : !sub(x) && (L)x * logl((L)x + 6) < 0.9L * N::max() ? wf() : wa())
FUN(tgamma, x == 0 ? wv(INF) : x < 0 && (std::isinf(x) || (x == std::floor(x) && x > -1000)) ? wn() : std::isinf(x) ? wv(INF) : x < 0 ? (x <= -1000 || sub(x) ? wo() : wl<T>(lng(x) + 1, 64)) : sub(x) ? wa() : wl<T>(lng(x), 64))
ONE(factorial, x < 0 ? wo() : std::isinf(x) ? wv(INF) : wl<T>(lng((L)x + 1), 64))
ONE(abs, std::isinf(x) ? wv(INF) : wf())

// ---- two arguments
template<class T> std::vector<T> small(Engine& e) { std::vector<T> v = specials<T>(), h = halves<T>(e.thorough ? 30 : 12, 1); v.insert(v.end(), h.begin(), h.end()); Grid<T> g = grid_exp<T>(-60, 60, e.thorough ? 3 : 1, 1); for (uint64_t i = 0; i < g.size(); i++) v.push_back(g.at(i));
  int E = sizeof(T) == 4 ? 127 : sizeof(T) == 8 ? 1023 : 16383, st = E / 16; for (int k = -E; k <= E; k += st) { v.push_back(std::ldexp(T(1.5), k)); v.push_back(-std::ldexp(T(1.5), k)); } uniq(v); return v; }
#define TWO(F, MODEL)                                                                                                            \
  template<class T> void two_##F(Engine& e) { std::shared_ptr<std::vector<T>> v(new std::vector<T>(small<T>(e))); uint64_t n = v->size();   \
    e.add(std::string(#F "<") + TN<T>::n() + ">", n * n, [v, n](uint64_t i, Worker& w) { T x = (*v)[i / n], y = (*v)[i % n];                    \
      typedef std::numeric_limits<T> N; (void)sizeof(N); Want m = MODEL; if (m.k == K_FREE) { w.outside++; return; }              \
      w.states++; w.calls++; w.validated++; T g = gcem::F(x, y); note_output(w, g); std::string b = bad(g, m);                    \
      if (w.sampling || (!b.empty())) w.fail(i, std::string(#F "(") + show(x) + ", " + show(y) + ") = " + show(g) + ", " + b); }); }
#define NN (x != x || y != y)
TWO(atan2, NN ? wn() : wf())
TWO(hypot, NN ? wn() : std::isinf(x) || std::isinf(y) ? wv(INF) : x == 0 && y == 0 ? wv(0) : hypotl((L)x, (L)y) < 0.99L * N::max() ? wf() : wa())
TWO(pow, y == 0 ? wv(1) : NN ? wn() : sub(x) || sub(y) ? wo() : x < 0 ? (std::isinf(x) || y == std::floor(y) ? wo() : wn()) : std::isinf(y) ? (x == 1 ? wo() : wv((x > 1) == (y > 0) ? INF : 0)) : x == 0 ? wv(y > 0 ? 0 : INF) : x == 1 ? wv(1) : std::isinf(x) ? wv(y > 0 ? INF : 0) : wl<T>(std::fabs((L)x - 1) < 0.01L ? (L)y * log1pl((L)x - 1) : (L)y * logl((L)x), 9))
TWO(fmod, NN || std::isinf(x) || y == 0 ? wn() : std::isinf(y) ? wv(x) : std::fabs(x) <= N::max() / 2 && fabsl((L)x / (L)y) <= 0.5L / N::epsilon() ? wf() : wo())
TWO(beta, NN ? wn() : x >= N::min() && y >= N::min() && x < 1e6 && y < 1e6 ? wl<T>(lng(x) + lng(y) - lng((L)x + y) + 2e-15L * (1 + fabsl(lng(x)) + fabsl(lng(y)) + fabsl(lng((L)x + y))) + 128 * N::epsilon() * (1 + fabsl(lng(x)) + fabsl(lng(y)) + fabsl(lng((L)x + y)))) : wo())
TWO(lbeta, NN ? wn() : x >= N::min() && y >= N::min() && x < 1e6 && y < 1e6 ? wf() : wo())
TWO(log_binomial_coef, NN ? wn() : x >= 0 && y >= 0 && y <= x && x < 1e6 ? wf() : wo())
TWO(incomplete_gamma, NN ? wn() : sub(x) || sub(y) ? wo() : x < 0 ? wn() : y <= 0 ? wv(0) : x == 0 ? wv(1) : x > 2000 ? wo() : std::isinf(y) ? wv(1) : wf())
TWO(incomplete_gamma_inv, NN ? wn() : x < 0 || y < 0 ? wn() : y == 0 ? wv(0) : sub(x) || sub(y) ? wo() : y > 1 ? wn() : y == 1 ? wv(INF) : x == 0 ? wv(0) : x >= (sizeof(T) == 4 ? 0.5 : 0.3) && x <= (sizeof(T) == 4 ? 50 : 2000) ? wf() : wo())
template<class T> void three(Engine& e) {
  std::shared_ptr<std::vector<T>> v(new std::vector<T>); T s[] = { T(NAN), T(0), T(0.05L), T(0.25), T(0.5), T(1), T(2), T(3.5), T(10), T(100), T(0.99L), T(0.75L), T(0.001L), T(-0.25), T(-1), T(-1e-30L), T(1e-30L), T(1.5), T(7.25), T(30.5), T(400), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), T(1) - std::numeric_limits<T>::epsilon() / 2, T(1) + std::numeric_limits<T>::epsilon(), std::numeric_limits<T>::min(), std::numeric_limits<T>::max() }; for (T x : s) v->push_back(x); uint64_t n = v->size();
  e.add(std::string("incomplete_beta/inv NaN<") + TN<T>::n() + ">", n * n * n, [v, n](uint64_t i, Worker& w) { T a = (*v)[i / n / n], b = (*v)[(i / n) % n], z = (*v)[i % n];
    bool nan = a != a || b != b || z != z; bool in = a >= 1e-3L && a <= 500 && b >= 1e-3L && b <= 500;
    if (!nan && !in && !(a < 0 || b < 0)) { w.outside++; return; }
    w.states++; std::string x;
    if (nan || in) { w.calls++; w.validated++; T g = gcem::incomplete_beta(a, b, z); Want m = nan ? wn() : z <= 0 ? wv(0) : z == 1 ? wv(1) : z > 1 ? wn() : wf(); x = bad(g, m);
    if (w.sampling || (!x.empty())) w.fail(i, "incomplete_beta(" + show(a) + ", " + show(b) + ", " + show(z) + ") = " + show(g) + ", " + x); }
    bool neg = a < 0 || b < 0 || z < 0, mid = in && a >= 0.5 && b >= 0.5 && z > 0 && z <= T(1 - 1e-6L); Want m = nan || neg || z > 1 ? wn() : z == 0 ? wv(0) : z == 1 ? wv(1) : wf();
    if (nan || neg || (in && (z == 0 || z >= 1)) || mid) { w.calls++; w.validated++; T h = gcem::incomplete_beta_inv(a, b, z); x = bad(h, m); if (w.sampling || (!x.empty())) w.fail(i, "incomplete_beta_inv(" + show(a) + ", " + show(b) + ", " + show(z) + ") = " + show(h) + ", " + x); }
  });
  std::vector<T> q = small<T>(e); e.add(std::string("lmgamma NaN<") + TN<T>::n() + ">", q.size() * 12, [q](uint64_t i, Worker& w) { T a = q[i / 12]; int p = int(i % 12) - 2; if (a == a && p >= 1) { w.outside++; return; }
    w.states++; w.calls++; w.validated++; T g = gcem::lmgamma(a, p); if (w.sampling || (g == g)) w.fail(i, "lmgamma(" + show(a) + ", " + show(p) + ") = " + show(g) + ", must be NaN"); });
}
MC_MAIN(RUN(acos) RUN(acosh) RUN(asin) RUN(asinh) RUN(atan) RUN(atanh) RUN(ceil) RUN(floor) RUN(trunc) RUN(round) RUN(cos) RUN(sin) RUN(tan) RUN(cosh) RUN(sinh) RUN(tanh) RUN(erf) RUN(erf_inv) RUN(exp) RUN(expm1) RUN(log) RUN(log2) RUN(log10) RUN(log1p) RUN(sqrt) RUN(inv_sqrt) RUN(lgamma) RUN(tgamma)
  S_factorial<float>::add(e); S_factorial<double>::add(e); S_factorial<L>::add(e); S_abs<float>::add(e); S_abs<double>::add(e); S_abs<L>::add(e);
  MC_FOR_FLT(two_atan2, e); MC_FOR_FLT(two_hypot, e); MC_FOR_FLT(two_pow, e); MC_FOR_FLT(two_fmod, e); MC_FOR_FLT(two_beta, e); MC_FOR_FLT(two_lbeta, e); MC_FOR_FLT(two_log_binomial_coef, e); MC_FOR_FLT(two_incomplete_gamma, e); MC_FOR_FLT(two_incomplete_gamma_inv, e); MC_FOR_FLT(three, e))
