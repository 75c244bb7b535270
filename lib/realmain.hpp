// spaces shared by the checks of one-argument real functions
#ifndef MC_REALMAIN_HPP
#define MC_REALMAIN_HPP
#include "fns.hpp"
#include "ints.hpp"
namespace mc {
template<class T> Lin<T> lin(L lo, L hi, uint64_t n) { Lin<T> x; x.lo = lo; x.hi = hi; x.n = n; return x; }
template<class T> Mult<T> mult(Q c, long k0, long k1, int u) { Mult<T> x; x.c = c; x.k0 = k0; x.k1 = k1; x.u = u; return x; }
// an extra obligation over [lo,hi] for the three types, n steps (x16 when thorough)
template<class F> void extra(Engine& e, const char* tag, L lo, L hi, uint64_t n) {
  if (e.thorough) n *= 16;
  { Space<float> s; s << lin<float>(lo, hi, n); accuracy1<F, float>(e, tag, s); }
  { Space<double> s; s << lin<double>(lo, hi, n); accuracy1<F, double>(e, tag, s); }
  { Space<L> s; s << lin<L>(lo, hi, e.thorough ? n / 4 : n / 2); accuracy1<F, L>(e, tag, s); }
}
template<class F> void multiples(Engine& e, const char* tag, Q c, long k) {
  if (e.thorough) k *= 16;
  { Space<float> s; s << mult<float>(c, -k, k, 4); accuracy1<F, float>(e, tag, s); }
  { Space<double> s; s << mult<double>(c, -k, k, 4); accuracy1<F, double>(e, tag, s); }
  { Space<L> s; s << mult<L>(c, -k, k, 3); accuracy1<F, L>(e, tag, s); }
}
template<class F, class T> void edge(Engine& e, const char* tag, L lo, L hi, uint64_t n) { Space<T> s; s << lin<T>(lo, hi, e.thorough ? n * 32 : n); accuracy1<F, T>(e, tag, s); }

// integral arguments count as doubles
template<class F, class I> void accuracy_int(Engine& e) {
  std::shared_ptr<std::vector<I>> v(new std::vector<I>(int_alphabet<I>(e, e.thorough ? 20000 : 1200, 2)));
  e.add(std::string(F::name()) + "<" + TN<I>::n() + ">", v->size(), [v](uint64_t i, Worker& w) {
    I n = (*v)[i]; double x = (double)n; if (!F::dom(x)) { w.outside++; return; }
    w.states++; w.calls++; double g = F::icall(n); note_output(w, g); L r = F::ref((L)x); w.validated++;
    double q = Judge<double, L>::ratio(g, r, F::tol(x, r, (L)std::numeric_limits<double>::epsilon())); note_ratio(w, q, i);
    if (w.sampling || (q > 1)) w.fail(i, std::string(F::name()) + "(" + show(n) + " as " + TN<I>::n() + ") = " + show(g) + ", model " + show(r) + ", error/tolerance " + std::to_string(q));
  });
}
template<class F> void ints1(Engine& e) { accuracy_int<F, signed char>(e); accuracy_int<F, unsigned char>(e); accuracy_int<F, short>(e); accuracy_int<F, unsigned short>(e); accuracy_int<F, int>(e); accuracy_int<F, unsigned>(e); accuracy_int<F, long>(e); accuracy_int<F, unsigned long>(e); accuracy_int<F, long long>(e); accuracy_int<F, unsigned long long>(e); }
template<class F, class I> void accuracy2_int(Engine& e) {
  std::shared_ptr<std::vector<I>> v(new std::vector<I>(int_alphabet<I>(e, e.thorough ? 200 : 40, 0))); uint64_t k = v->size();
  e.add(std::string(F::name()) + "<" + TN<I>::n() + ">", k * k, [v, k](uint64_t i, Worker& w) {
    I n = (*v)[i / k], m = (*v)[i % k]; double x = (double)n, y = (double)m; if (!F::dom(x, y)) { w.outside++; return; }
    w.states++; w.calls++; double g = F::icall(n, m); note_output(w, g); L r = F::ref((L)x, (L)y); w.validated++;
    double q = Judge<double, L>::ratio(g, r, F::tol(x, y, r, (L)std::numeric_limits<double>::epsilon())); note_ratio(w, q, i);
    if (w.sampling || (q > 1)) w.fail(i, std::string(F::name()) + "(" + show(n) + ", " + show(m) + " as " + TN<I>::n() + ") = " + show(g) + ", model " + show(r) + ", error/tolerance " + std::to_string(q));
  });
}
template<class F> void ints2(Engine& e) { accuracy2_int<F, signed char>(e); accuracy2_int<F, unsigned char>(e); accuracy2_int<F, short>(e); accuracy2_int<F, int>(e); accuracy2_int<F, unsigned>(e); accuracy2_int<F, long>(e); accuracy2_int<F, long long>(e); accuracy2_int<F, unsigned long long>(e); }

// values for two-argument products
template<class T> std::vector<T> vals2(Engine& e, int ea, int eb, int mb, int nh, bool lm = true) {
  std::vector<T> v = specials<T>(); if (lm) { std::vector<T> a = landmarks<T>(e, 1, false); v.insert(v.end(), a.begin(), a.end()); }
  std::vector<T> h = halves<T>(nh, 1); v.insert(v.end(), h.begin(), h.end());
  Grid<T> g = grid_exp<T>(ea, eb, mb, 2); for (uint64_t i = 0; i < g.size(); i++) v.push_back(g.at(i));
  uniq(v); return v;
}
template<class T> std::vector<T> wide2(Engine& e) { int E = sizeof(T) == 4 ? 127 : sizeof(T) == 8 ? 1023 : 16383, st = sizeof(T) == 4 ? 3 : sizeof(T) == 8 ? 31 : 509; if (e.thorough) st = sizeof(T) == 4 ? 1 : sizeof(T) == 8 ? 7 : 97;
  std::vector<T> v; for (int k = -E + 1; k <= E; k += st) for (int m = 0; m < 3; m++) for (int s = -1; s <= 1; s += 2) v.push_back(s * std::ldexp(T(1) + T(m) / 3, k)); std::vector<T> sp = specials<T>(); v.insert(v.end(), sp.begin(), sp.end()); uniq(v); return v; }
} // namespace mc
#endif
