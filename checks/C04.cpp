// factorial / binomial_coef: exact whenever the result is representable
#include "ints.hpp"
#include "gcem.hpp"
using namespace mc;
inline I128 fact(int n) { I128 r = 1; for (int i = 2; i <= n; i++) r *= i; return r; }
inline I128 binom(int n, int k) { if (k > n || k < 0) return 0; I128 r = 1; for (int i = 0; i < k; i++) r = r * (n - i) / (i + 1); return r; }

template<class T> void f(Engine& e) {
  int n = 0; while (n < 33 && fits<T>(fact(n))) n++;
  e.add(std::string("factorial<") + TN<T>::n() + ">", n, [](uint64_t i, Worker& w) {
    w.states++; w.calls++; w.validated++;
    static_assert(std::is_same<decltype(gcem::factorial(T(1))), T>::value, "factorial keeps the type");
    T g = gcem::factorial((T)i);
    if (w.sampling || ((I128)g != fact((int)i))) w.fail(i, "factorial(" + show((T)i) + ") = " + show(g) + ", must be " + show128(fact((int)i)));
  });
}
template<class T> void ff(Engine& e) {   // floating arguments: factorial(n) = n! up to the accuracy of the gamma function
  int n = sizeof(T) == 4 ? 34 : sizeof(T) == 8 ? 170 : 400;
  e.add(std::string("factorial<") + TN<T>::n() + ">", n + 1, [](uint64_t i, Worker& w) {
    w.states++; w.calls++; w.validated++;
    Q r = 1; for (uint64_t k = 2; k <= i; k++) r *= k;
    T g = gcem::factorial((T)i); Q l = logq(r); if (l < 0) l = -l;
    Q eps = (Q)std::numeric_limits<T>::epsilon(), tol = ((64 + 16 * l) * eps + 1e-15Q * (1 + l)) * r;
    Q d = fabsq((Q)g - r); double q = (double)(d / tol); if (w.sampling || (!(q <= 1))) w.fail(i, "factorial(" + show((T)i) + ") = " + show(g) + ", must be " + show(r));
    if (!w.worst_set || q > w.worst) { w.worst = q; w.worst_i = i; w.worst_set = true; }
  });
}
struct NK { int n, k; };
inline std::vector<NK> cases(const Engine& e) {
  std::vector<NK> v; double cap = e.thorough ? 4e7 : 3e5;
  for (int n = 0; n <= 70; n++) for (int k = 0; k <= n + 6; k++) {
    if (k > n) { if (n <= (e.thorough ? 18 : 12)) v.push_back(NK{ n, k }); continue; }
    if ((double)binom(n, k) <= cap) v.push_back(NK{ n, k });
  }
  for (int n = 71; n <= 400; n++) for (int k = 0; k <= n; k++) if ((double)(k < 4 || n - k < 4) && (double)binom(n, std::min(k, n - k)) <= cap) v.push_back(NK{ n, k });
  return v;
}
template<class A, class B> void b(Engine& e) {
  typedef typename std::common_type<A, B>::type C;
  std::vector<NK> all = cases(e), v;
  for (NK c : all) if (c.n <= (double)std::numeric_limits<A>::max() && c.k <= (double)std::numeric_limits<B>::max() && (double)binom(c.n, c.n > 70 ? std::min(c.k, c.n - c.k) : c.k) <= (double)std::numeric_limits<C>::max()
      && (std::is_integral<C>::value || (double)binom(c.n, c.n > 70 ? std::min(c.k, c.n - c.k) : c.k) < 16777216.0)) v.push_back(c);
  e.add(std::string("binomial_coef<") + TN<A>::n() + "," + TN<B>::n() + ">", v.size(), [v](uint64_t i, Worker& w) {
    NK c = v[i]; w.states++; w.calls++; w.validated++;
    static_assert(std::is_same<decltype(gcem::binomial_coef(A(1), B(1))), C>::value, "binomial_coef returns the common type");
    C g = gcem::binomial_coef((A)c.n, (B)c.k); I128 r = binom(c.n, c.k <= c.n ? std::min(c.k, c.n - c.k) : c.k);
    if (w.sampling || (!(g == (C)r))) w.fail(i, "binomial_coef(" + show((A)c.n) + ", " + show((B)c.k) + ") = " + show(g) + ", must be " + show128(r));
  }, 1);
}
// k > n, k = n and k = 0 for arguments as wide as their type (cheap for every width)
template<class A, class B> void wide(Engine& e) {
  typedef typename std::common_type<A, B>::type C; typedef long double L;
  std::vector<std::pair<A, B>> v; std::vector<L> big; for (int k = 7; k <= 63; k++) for (int d = -3; d <= 18; d++) { L x = ldexpl(1, k) + d; big.push_back(x); }
  for (L x : big) {
    B kb = (B)0; bool okb = x <= (L)std::numeric_limits<B>::max() && x <= (L)std::numeric_limits<C>::max() && x < 18446744073709551616.0L; if (okb) { kb = (B)x; okb = (L)kb == x && (L)(C)kb == x; }
    A na = (A)0; bool oka = x <= (L)std::numeric_limits<A>::max() && x <= (L)std::numeric_limits<C>::max() && x < 18446744073709551616.0L; if (oka) { na = (A)x; oka = (L)na == x && (L)(C)na == x; }
    if (okb) for (int n = 0; n <= (e.thorough ? 16 : 9); n++) v.push_back(std::make_pair((A)n, kb));
    if (oka) v.push_back(std::make_pair(na, (B)0));
    if (oka && okb) v.push_back(std::make_pair(na, kb));
  }
  e.add(std::string("binomial_coef<") + TN<A>::n() + "," + TN<B>::n() + "> wide arguments", v.size(), [v](uint64_t i, Worker& w) {
    w.states++; w.calls++; w.validated++; A n = v[i].first; B k = v[i].second; C g = gcem::binomial_coef(n, k), r = (L)k == 0 || (L)n == (L)k ? C(1) : C(0);
    if (w.sampling || (!(g == r))) w.fail(i, "binomial_coef(" + show(n) + ", " + show(k) + ") = " + show(g) + ", must be " + show(r));
  }, 16);
}
template<class A> void wrow(Engine& e) { wide<A, A>(e); wide<A, double>(e); wide<int, A>(e); wide<A, unsigned long long>(e); }
template<class A> void row(Engine& e) { b<A, A>(e); b<A, int>(e); b<A, long long>(e); b<int, A>(e); b<A, double>(e); }
MC_MAIN(MC_FOR_INT(f, e); MC_FOR_FLT(ff, e); MC_FOR_INT(row, e); row<float>(e); row<double>(e); row<L>(e); MC_FOR_INT(wrow, e); wrow<float>(e); wrow<double>(e); wrow<L>(e))
