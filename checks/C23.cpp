// exact symmetries and result ranges, over the whole range of each type
#include "special.hpp"
using namespace mc;
template<class T> bool same(T a, T b) { return a == b || (a != a && b != b); }
template<class T> bool near(T a, T b) { return same(a, b) || fabsl((L)a - (L)b) <= 4 * (L)std::numeric_limits<T>::epsilon() * fabsl((L)a); }
template<class T> Space<T> sp(Engine& e) { return Std<T>::make(e, 0); }
static const L INF = HUGE_VALL, PI = 3.14159265358979323846264338327950288L;
// f(-x) = s f(x) to 4 eps (A < 0: exactly, A > 0: to A eps of 1+|f|), and lo <= f(x) <= hi up to a relative slack of k eps
#define SYM(F, S, DOM, LO, HI, K) SYMT(F, S, DOM, LO, HI, K, 0)
#define SYMT(F, S, DOM, LO, HI, K, A) template<class T> void sym_##F(Engine& e) { Space<T> s = sp<T>(e); e.add(std::string(#F "<") + TN<T>::n() + ">", s.size(), [s](uint64_t i, Worker& w) { \
  T x = s.at(i); typedef std::numeric_limits<T> N; (void)sizeof(N); if (x != x || !(DOM)) { w.outside++; return; } w.states++; w.calls++; w.validated++; T g = gcem::F(x); note_output(w, g); \
  if (S != 0) { w.calls++; w.validated++; T h = gcem::F(-x); if (w.sampling || (!same<T>(h, S * g) && !((A) >= 0 && fabsl((L)h - S * (L)g) <= 4 * (L)N::epsilon() * fabsl((L)g)) && !((A) > 0 && fabsl((L)h - S * (L)g) <= (A) * (L)N::epsilon() * (1 + fabsl((L)g))))) w.fail(i, std::string(#F "(") + show(x) + ") = " + show(g) + " but " #F "(" + show(-x) + ") = " + show(h)); } \
  L k = (K) * (L)N::epsilon(), lo = (L)(LO), hi = (L)(HI); if (w.sampling || (!((L)g >= lo - k * (std::isinf(lo) ? 0 : fabsl(lo)) && (L)g <= hi + k * (std::isinf(hi) ? 0 : fabsl(hi))) && g == g)) w.fail(i, std::string(#F "(") + show(x) + ") = " + show(g) + " outside of its range"); }); }
SYM(sin, -1, std::fabs(x) < 1 / N::epsilon(), -1, 1, 4)
SYM(cos, 1, std::fabs(x) < 1 / N::epsilon(), -1, 1, 4)
SYM(tan, -1, std::fabs(x) < 1 / N::epsilon(), -INF, INF, 0)
SYM(asin, -1, true, -PI / 2, PI / 2, 2)
SYM(acos, 0, true, 0, PI, 2)
SYM(atan, -1, true, -PI / 2, PI / 2, 2)
SYM(sinh, -1, true, -INF, INF, 0)
SYM(cosh, 1, true, 1, INF, 0)
SYM(tanh, -1, true, -1, 1, 4)
SYM(asinh, -1, true, -INF, INF, 0)
SYM(acosh, 0, true, 0, INF, 0)
SYMT(atanh, -1, true, -INF, INF, 0, 16)   // formed from (1+x)/(1-x): symmetric up to rounding only
SYM(erf, -1, true, -1, 1, 4)
SYM(erf_inv, -1, true, -INF, INF, 0)
SYM(exp, 0, true, 0, INF, 0)
SYM(expm1, 0, true, -1, INF, 0)
SYM(sqrt, 0, true, 0, INF, 0)
SYM(inv_sqrt, 0, true, 0, INF, 0)
SYMT(round, -1, true, -INF, INF, 0, -1)
SYMT(trunc, -1, true, -INF, INF, 0, -1)
SYMT(abs, 1, true, 0, INF, 0, -1)
// floor(-x) = -ceil(x)
template<class T> void fc(Engine& e) { Space<T> s = sp<T>(e); e.add(std::string("floor/ceil<") + TN<T>::n() + ">", s.size(), [s](uint64_t i, Worker& w) { T x = s.at(i); w.states++; w.calls += 2; w.validated++; T f = gcem::floor(x), c = gcem::ceil(-x); if (w.sampling || (!same<T>(f, -c))) w.fail(i, "floor(" + show(x) + ") = " + show(f) + " but ceil(" + show(-x) + ") = " + show(c)); }); }
#define ALL(F) MC_FOR_FLT(sym_##F, e);

template<class T> void two(Engine& e) {
  std::shared_ptr<std::vector<T>> v(new std::vector<T>(vals2<T>(e, -10, 10, e.thorough ? 4 : 2, 20))); { std::vector<T> w = wide2<T>(e); v->insert(v->end(), w.begin(), w.end()); uniq(*v); } uint64_t n = v->size();
  e.add(std::string("hypot/max/min/atan2/fmod<") + TN<T>::n() + ">", n * n, [v, n](uint64_t i, Worker& w) {
    T x = (*v)[i / n], y = (*v)[i % n]; if (x != x || y != y) { w.outside++; return; }
    w.states++; w.calls += 12; w.validated += 6;
    bool nz = normal_or_zero(x) && normal_or_zero(y); T h = gcem::hypot(x, y), h2 = gcem::hypot(y, x), h3 = gcem::hypot(-x, y), h4 = gcem::hypot(x, -y);
    if (w.sampling || (nz && (!near(h, h2) || !near(h, h3) || !near(h, h4)))) w.fail(i, "hypot(" + show(x) + ", " + show(y) + ") = " + show(h) + ", swapped " + show(h2) + ", signs changed " + show(h3) + " / " + show(h4));
    if (w.sampling || (!(gcem::max(x, y) == gcem::max(y, x)) || !(gcem::min(x, y) == gcem::min(y, x)))) w.fail(i, "max/min(" + show(x) + ", " + show(y) + ") depend on the order");
    T a = gcem::atan2(x, y), b = gcem::atan2(-x, y); if (!(x == 0 && y == 0) && normal_or_zero(x) && normal_or_zero(y)) { if (w.sampling || (!near(a, -b))) w.fail(i, "atan2(" + show(x) + ", " + show(y) + ") = " + show(a) + " but atan2(" + show(-x) + ", same) = " + show(b)); if (w.sampling || (!(fabsl((L)a) <= PI * (1 + 2 * (L)std::numeric_limits<T>::epsilon())))) w.fail(i, "atan2(" + show(x) + ", " + show(y) + ") = " + show(a) + " outside of its range"); }
    if (nz && !std::isinf(x) && y != 0 && !std::isinf(y) && fabsl((L)x / (L)y) < 0.5L / std::numeric_limits<T>::epsilon()) { w.calls += 2; T f = gcem::fmod(x, y), g = gcem::fmod(-x, y); if (w.sampling || (!near(f, T(-g)))) w.fail(i, "fmod(" + show(x) + ", " + show(y) + ") = " + show(f) + " but fmod(" + show(-x) + ", same) = " + show(g)); }
  });
  std::shared_ptr<std::vector<T>> g(new std::vector<T>(gamma_as<T>(e, 0.001L))); uint64_t m = g->size();
  e.add(std::string("beta/lbeta<") + TN<T>::n() + ">", m * m, [g, m](uint64_t i, Worker& w) { T x = (*g)[i / m], y = (*g)[i % m]; w.states++; w.calls += 4; w.validated += 2;
    T b = gcem::beta(x, y), c = gcem::beta(y, x), d = gcem::lbeta(x, y), f = gcem::lbeta(y, x); L eps = std::numeric_limits<T>::epsilon();
    if (w.sampling || (!(fabsl((L)d - (L)f) <= 2 * eps * (L)lg_mag<L>(x, y)))) w.fail(i, "lbeta(" + show(x) + ", " + show(y) + ") = " + show(d) + ", swapped " + show(f));
    if (w.sampling || (!(b >= 0) || !(fabsl((L)b - (L)c) <= 4 * eps * (1 + (L)lg_mag<L>(x, y)) * fabsl((L)b) + 8 * (L)std::numeric_limits<T>::min()))) w.fail(i, "beta(" + show(x) + ", " + show(y) + ") = " + show(b) + ", swapped " + show(c)); });
  std::vector<T> ab = beta_abs<T>(e), z = unit_zs<T>(e);
  product3<T>(e, std::string("incomplete_beta range and reflection<") + TN<T>::n() + ">", ab, ab, z, [](T a, T b, T z, uint64_t i, Worker& w) { w.states++; w.calls++; w.validated++; T p = gcem::incomplete_beta(a, b, z); L eps = std::numeric_limits<T>::epsilon(), t = ibeta_tol<T>(a, b, z, p);
    if (w.sampling || (!((L)p >= -t && (L)p <= 1 + t))) w.fail(i, "incomplete_beta(" + show(a) + ", " + show(b) + ", " + show(z) + ") = " + show(p) + " outside of [0,1]");
    if (T(1 - T(1 - z)) == z) { w.calls++; w.validated++; T q = gcem::incomplete_beta(b, a, T(1 - z)); if (w.sampling || (!(fabsl((L)p + (L)q - 1) <= 2 * ibeta_abs_tol<T>(a, b) + eps))) w.fail(i, "incomplete_beta(" + show(a) + ", " + show(b) + ", " + show(z) + ") = " + show(p) + ", reflected " + show(q)); } });
}
template<class T> void ig(Engine& e) { std::vector<T> v = gamma_as<T>(e, 0.001L); std::vector<T> z; for (int k = 0; k <= 400; k++) z.push_back(T(k) / 100); // multiples of sqrt(a) around a, scaled
  product3<T>(e, std::string("incomplete_gamma range<") + TN<T>::n() + ">", v, z, std::vector<T>(1, T(0)), [](T a, T t, T, uint64_t i, Worker& w) { w.states++; w.calls++; w.validated++; T x = a * t, g = gcem::incomplete_gamma(a, x); L k = igamma_tol<T>(a, a + 5, 1); if (w.sampling || (!((L)g >= -k && (L)g <= 1 + k))) w.fail(i, "incomplete_gamma(" + show(a) + ", " + show(x) + ") = " + show(g) + " outside of [0,1]"); }); }
template<class A> void gl(Engine& e) { std::shared_ptr<std::vector<A>> v(new std::vector<A>(int_alphabet<A>(e, 120, 1))); uint64_t n = v->size();
  e.add(std::string("gcd symmetric<") + TN<A>::n() + ">", n * n, [v, n](uint64_t i, Worker& w) { A a = (*v)[i / n], b = (*v)[i % n]; if (std::is_signed<A>::value && (a == std::numeric_limits<A>::min() || b == std::numeric_limits<A>::min())) { w.outside++; return; }
    w.states++; w.calls += 2; w.validated++; auto g = gcem::gcd(a, b), h = gcem::gcd(b, a); if (w.sampling || (g != h)) w.fail(i, "gcd(" + show(a) + ", " + show(b) + ") = " + show(g) + ", swapped " + show(h)); }); }
MC_MAIN(ALL(sin) ALL(cos) ALL(tan) ALL(asin) ALL(acos) ALL(atan) ALL(sinh) ALL(cosh) ALL(tanh) ALL(asinh) ALL(acosh) ALL(atanh) ALL(erf) ALL(erf_inv) ALL(exp) ALL(expm1) ALL(sqrt) ALL(inv_sqrt) ALL(round) ALL(trunc) ALL(abs) MC_FOR_FLT(fc, e); MC_FOR_FLT(two, e); MC_FOR_FLT(ig, e); MC_FOR_INT(gl, e))
