// lgamma / tgamma / beta / lbeta / lmgamma / log_binomial_coef / factorial of real arguments
#include "special.hpp"
using namespace mc;
template<class T> std::vector<T> ab(Engine& e) {
  std::vector<T> v; T s[] = { T(1) / 1024, T(0.01L), T(0.1L), T(0.25L), T(0.3L), T(1) / 3, T(0.9L), T(1.1L), T(2.9L), T(12.3L), T(100.5L), T(4096) };
  for (T x : s) v.push_back(x);
  for (int k = 1; k <= (e.thorough ? 160 : 60); k++) { v.push_back(T(k) / 2); v.push_back(bump<T>(T(k) / 2, 1)); v.push_back(bump<T>(T(k) / 2, -1)); }
  for (int k = 0; k < (e.thorough ? 200 : 60); k++) v.push_back((T)(powl(2.0L, (L)k * 22 / (e.thorough ? 200 : 60) - 10)));
  for (L x : e.landmarks) if (x > 1e-3L && x < 4096) for (int u = -1; u <= 1; u++) v.push_back(bump<T>((T)x, u));
  uniq(v); return v;
}
template<class T> void two(Engine& e) { std::vector<T> v = ab<T>(e); accuracy2<Flbeta, T>(e, "", v, v); accuracy2<Fbeta, T>(e, "", v, v);
  std::vector<T> n; for (int k = 0; k <= (e.thorough ? 400 : 130); k++) n.push_back(k); int m[] = { 500, 512, 1000, 1024, 2000, 4095, 4096 }; for (int k : m) n.push_back(k);
  for (int k = 0; k < 40; k++) n.push_back(T(k) + T(0.5)); for (L x : e.landmarks) if (x > 0 && x < 4096) n.push_back((T)x); uniq(n);
  accuracy2<Flbinom, T>(e, "", n, n); }
template<class T> void lm(Engine& e) {
  typedef typename OT<T>::type O;
  std::vector<T> v = ab<T>(e); std::vector<int> ps; for (int p = -1; p <= 32; p++) ps.push_back(p); int more[] = { 40, 50, 64, 65, 100, 128, 200 }; for (int p : more) ps.push_back(p); for (L c : e.landmarks) if (c > 32 && c < 210 && c == floorl(c)) ps.push_back((int)c);
  std::sort(ps.begin(), ps.end()); ps.erase(std::unique(ps.begin(), ps.end()), ps.end()); uint64_t P = ps.size();
  e.add(std::string("lmgamma<") + TN<T>::n() + ">", v.size() * P, [v, P, ps](uint64_t i, Worker& w) {
    T a = v[i / P]; int p = ps[i % P];
    if (p >= 1 && !((L)a - (L)(p - 1) / 2 > 0)) { w.outside++; return; }
    w.states++; w.calls++; w.validated++;
    T g = gcem::lmgamma(a, p);
    if (p < 1) { if (w.sampling || (g == g)) w.fail(i, "lmgamma(" + show(a) + ", " + show(p) + ") = " + show(g) + ", must be NaN"); return; }
    // a - j/2 is formed in T: its rounding is part of the tolerance
    Q r = (Q)p * (p - 1) / 4 * logq(M_PIq), mag = r; Q eps = (Q)std::numeric_limits<T>::epsilon(), cond = 0;
    for (int j = 0; j < p; j++) { Q x = (Q)a - (Q)j / 2, l = lgammaq(x); r += l; mag += fabsq(l); cond += ((Q)a * eps) * (1 / x + (x > 1 ? logq(x) + 1 : 1)); }
    Q tol = (64 * eps + 1e-15Q) * (1 + mag) + cond;
    double q = g != g || std::isinf(g) ? HUGE_VAL : (double)(fabsq((Q)g - r) / tol); note_ratio(w, q, i);
    if (w.sampling || (!(q <= 1))) w.fail(i, "lmgamma(" + show(a) + ", " + show(p) + ") = " + show(g) + ", model " + show(r));
  });
}
// the limits: poles, infinities, NaN
template<class T> void limits(Engine& e) {
  std::vector<T> v = specials<T>(), h = halves<T>(1000, 0), g = landmarks<T>(e, 1); v.insert(v.end(), h.begin(), h.end()); v.insert(v.end(), g.begin(), g.end()); Grid<T> gr = grid_exp<T>(-20, 12, 4, 2); for (uint64_t i = 0; i < gr.size(); i++) v.push_back(gr.at(i)); uniq(v);
  e.add(std::string("limits<") + TN<T>::n() + ">", v.size(), [v](uint64_t i, Worker& w) {
    T x = v[i]; bool inf = std::isinf(x), sub = x != 0 && std::fabs(x) < std::numeric_limits<T>::min();
    if (x == x && x > 0 && !inf) { w.outside++; return; }
    w.states++; w.calls++; w.validated++; T g = gcem::lgamma(x);
    if (w.sampling || (x != x ? g == g : !(std::isinf(g) && g > 0))) w.fail(i, "lgamma(" + show(x) + ") = " + show(g) + (x != x ? ", must be NaN" : ", must be +inf"));
    if (x < 0 && (sub || x != std::floor(x))) return;
    w.calls++; w.validated++; T t = gcem::tgamma(x); bool wn = x != x || x < 0;
    if (w.sampling || (wn ? t == t : !(std::isinf(t) && t > 0))) w.fail(i, "tgamma(" + show(x) + ") = " + show(t) + (wn ? ", must be NaN" : ", must be +inf"));
    if (x != x) { w.calls += 6; w.validated += 6; T y = T(1.5); T r[] = { gcem::beta(x, y), gcem::beta(y, x), gcem::lbeta(x, y), gcem::lbeta(y, x), gcem::log_binomial_coef(x, y), gcem::log_binomial_coef(y, x), gcem::lmgamma(x, 2) };
      for (T q : r) if (w.sampling || q == q) w.fail(i, "beta/lbeta/log_binomial_coef/lmgamma of NaN = " + show(q)); }
  });
}
template<class F> void all(Engine& e) { accuracy1_all<F>(e, 0); ints1<F>(e); extra<F>(e, " (0,40]", 1.0L / 1024, 40, 100000); extra<F>(e, " (0,4]", 1.0L / 4096, 4, 100000); extra<F>(e, " (0,2000]", 0.125L, 2000, 50000); }
MC_MAIN(all<Flgamma>(e); all<Ftgamma>(e); extra<Ftgamma>(e, " [-40,0)", -40, -1.0L / 1024, 100000); ints2<Flbeta>(e); ints2<Fbeta>(e); ints2<Flbinom>(e); MC_FOR_FLT(two, e); MC_FOR_FLT(lm, e); MC_FOR_FLT(limits, e))
