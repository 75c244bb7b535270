// result types and promotion: integral arguments behave as the same numbers in double, mixed
// arguments as if both had been converted to the common type
#include "ints.hpp"
#include "gcem.hpp"
using namespace mc;
template<class T> bool same(T a, T b) { unsigned char x[16] = {0}, y[16] = {0}; size_t n = sizeof(T) == 16 ? 10 : sizeof(T); memcpy(x, &a, n); memcpy(y, &b, n); return memcmp(x, y, 16) == 0 || (a != a && b != b); }
template<class T> struct Prom { typedef typename std::conditional<std::is_integral<T>::value, double, T>::type type; };
template<class T> std::vector<T> ialpha(Engine& e) { return int_alphabet<T>(e, e.thorough ? 20000 : 2000, 2); }

#define F1(F) template<class I> void i_##F(Engine& e) { std::vector<I> v = ialpha<I>(e); e.add(std::string(#F "<") + TN<I>::n() + ">", v.size(), [v](uint64_t i, Worker& w) { I n = v[i]; w.states++; w.calls += 2; w.validated++; \
    typedef decltype(gcem::F(n)) R; if (!std::is_same<R, double>::value) { w.fail(i, std::string(#F "(") + TN<I>::n() + ") does not return double"); return; } \
    R g = gcem::F(n); double h = gcem::F(static_cast<double>(n)); if (w.sampling || (!same<double>((double)g, h))) w.fail(i, std::string(#F "(") + TN<I>::n() + " " + show(n) + ") = " + show((double)g) + " but " #F "(double) = " + show(h)); }); } \
  template<class T> void t_##F(Engine& e) { std::vector<T> v = specials<T>(); v.push_back(T(0.3L)); e.add(std::string(#F "<") + TN<T>::n() + ">", v.size(), [v](uint64_t i, Worker& w) { T x = v[i]; w.states++; w.calls += 3; w.validated += 2; \
    typedef decltype(gcem::F(x)) R; if (!std::is_same<R, T>::value) { w.fail(i, std::string(#F "(") + TN<T>::n() + ") does not return " + TN<T>::n()); return; } \
    const T& c = x; volatile T vx = x; T a = gcem::F(x), b = gcem::F(c), d = gcem::F(static_cast<T>(vx)); if (w.sampling || (!same<T>(a, b) || !same<T>(a, d))) w.fail(i, std::string(#F "(") + show(x) + ") depends on how it is called"); }); }
#define R1(F) MC_FOR_INT(i_##F, e); i_##F<char>(e); i_##F<bool>(e); MC_FOR_FLT(t_##F, e);
F1(acos) F1(acosh) F1(asin) F1(asinh) F1(atan) F1(atanh) F1(ceil) F1(cos) F1(cosh) F1(erf) F1(erf_inv) F1(exp) F1(expm1) F1(floor) F1(inv_sqrt) F1(lgamma) F1(log) F1(log10) F1(log1p) F1(log2) F1(round) F1(sin) F1(sinh) F1(sqrt) F1(tan) F1(tanh) F1(tgamma) F1(trunc)

// two arguments
template<class T, bool I = std::is_integral<T>::value> struct A2 { static std::vector<T> v(Engine& e) { std::vector<T> r; int s[] = { -128, -100, -12, -5, -2, -1, 0, 1, 2, 3, 4, 5, 7, 10, 17, 30, 31, 64, 100, 127 }; for (int x : s) if (fits<T>(x)) r.push_back((T)x); if (sizeof(T) > 1) { r.push_back((T)1000); r.push_back((T)32767); } if (sizeof(T) > 2) { r.push_back((T)70000); r.push_back((T)16777217); } if (sizeof(T) > 4) r.push_back((T)9007199254740993LL);
  if (e.thorough) for (int k = -60; k <= 60; k++) if (fits<T>(k)) r.push_back((T)k); return r; } };
template<class T> struct A2<T, false> { static std::vector<T> v(Engine& e) { std::vector<T> r; L s[] = { -3.5L, -2, -1, -0.5L, 0, 0.1L, 0.25L, 0.5L, 0.9L, 1, 1.5L, 2, 3.3L, 7, 10, 12.75L, 50, 101.5L }; for (L x : s) r.push_back((T)x); r.push_back(std::numeric_limits<T>::quiet_NaN()); r.push_back(std::numeric_limits<T>::infinity()); r.push_back(-std::numeric_limits<T>::infinity());
  if (e.thorough) for (int k = 1; k < 60; k++) r.push_back((T)(k * 0.37L)); return r; } };
#define F2(F, DOM) template<class A, class B> void m_##F(Engine& e) { typedef typename Prom<typename std::common_type<A, B>::type>::type C; std::shared_ptr<std::vector<A>> a(new std::vector<A>(A2<A>::v(e))); std::shared_ptr<std::vector<B>> b(new std::vector<B>(A2<B>::v(e))); \
  e.add(std::string(#F "<") + TN<A>::n() + "," + TN<B>::n() + ">", a->size() * b->size(), [a, b](uint64_t i, Worker& w) { A xa = (*a)[i / b->size()]; B yb = (*b)[i % b->size()]; \
    typedef typename std::common_type<A, B>::type M; C x = static_cast<C>(static_cast<M>(xa)), y = static_cast<C>(static_cast<M>(yb)); (void)x; (void)y; if (!(DOM)) { w.outside++; return; } \
    w.states++; w.calls += 2; w.validated++; typedef decltype(gcem::F(xa, yb)) R; if (!std::is_same<R, C>::value) { w.fail(i, std::string(#F "(") + TN<A>::n() + ", " + TN<B>::n() + ") must return " + TN<C>::n()); return; } \
    C cx = static_cast<C>(xa), cy = static_cast<C>(yb); C g = gcem::F(xa, yb), h = gcem::F(cx, cy); \
    if (w.sampling || (!same<C>(g, h))) w.fail(i, std::string(#F "(") + TN<A>::n() + " " + show(xa) + ", " + TN<B>::n() + " " + show(yb) + ") = " + show(g) + " but with " + TN<C>::n() + " arguments " + show(h)); }); } \
  template<class A> void r_##F(Engine& e) { m_##F<A, signed char>(e); m_##F<A, short>(e); m_##F<A, int>(e); m_##F<A, unsigned>(e); m_##F<A, long long>(e); m_##F<A, unsigned long long>(e); m_##F<A, float>(e); m_##F<A, double>(e); m_##F<A, L>(e); }
#define R2(F) r_##F<signed char>(e); r_##F<short>(e); r_##F<int>(e); r_##F<unsigned>(e); r_##F<long long>(e); r_##F<unsigned long long>(e); r_##F<float>(e); r_##F<double>(e); r_##F<L>(e);
F2(atan2, true) F2(hypot, true) F2(beta, x > 0 && y > 0 && x < 200 && y < 200) F2(lbeta, x > 0 && y > 0 && x < 200 && y < 200) F2(log_binomial_coef, x >= 0 && y >= 0 && y <= x && x < 200) F2(incomplete_gamma, x > 0 && x < 200 && y < 2000) F2(incomplete_gamma_inv, x > 0 && x < 60 && y <= 2)
// fmod and pow of a real base follow the common type as well
F2(fmod, true)
F2(pow, true)
template<class A> void rpow(Engine& e) { m_pow<A, float>(e); m_pow<A, double>(e); m_pow<A, L>(e); }
// a floating base with an integral exponent: the exponent's type does not matter
template<class A, class I> void pi(Engine& e) { std::shared_ptr<std::vector<A>> a(new std::vector<A>(A2<A>::v(e))); std::shared_ptr<std::vector<I>> b(new std::vector<I>(A2<I>::v(e))); typedef typename std::common_type<A, I>::type C;
  e.add(std::string("pow<") + TN<A>::n() + "," + TN<I>::n() + "> integral exponent", a->size() * b->size(), [a, b](uint64_t i, Worker& w) { A x = (*a)[i / b->size()]; I n = (*b)[i % b->size()]; if ((n < 0 ? -(L)n : (L)n) > 40) { w.outside++; return; } w.states++; w.calls += 2; w.validated++;
    if (!std::is_same<decltype(gcem::pow(x, n)), C>::value) { w.fail(i, std::string("pow(") + TN<A>::n() + ", " + TN<I>::n() + ") must return " + TN<C>::n()); return; }
    C g = gcem::pow(x, n), h = gcem::pow(x, (long long)n); if (w.sampling || (!same<C>(g, h))) w.fail(i, std::string("pow(") + show(x) + ", " + TN<I>::n() + " " + show(n) + ") = " + show(g) + " but with a long long exponent " + show(h)); }); }
template<class I> void pis(Engine& e) { pi<float, I>(e); pi<double, I>(e); pi<L, I>(e); }
template<class A, class B, class D> void tri(Engine& e) { typedef typename Prom<typename std::common_type<A, B, D>::type>::type C; std::shared_ptr<std::vector<A>> a(new std::vector<A>(A2<A>::v(e))); std::shared_ptr<std::vector<B>> b(new std::vector<B>(A2<B>::v(e))); std::shared_ptr<std::vector<D>> d(new std::vector<D>(A2<D>::v(e))); uint64_t nb = b->size(), nd = d->size();
  e.add(std::string("incomplete_beta/inv<") + TN<A>::n() + "," + TN<B>::n() + "," + TN<D>::n() + ">", a->size() * nb * nd, [a, b, d, nb, nd](uint64_t i, Worker& w) { A x = (*a)[i / nd / nb]; B y = (*b)[(i / nd) % nb]; D z = (*d)[i % nd]; C cx = (C)x, cy = (C)y, cz = (C)z;
    if (!(cx > 0 && cy > 0 && cz >= 0 && cz <= 1 && cx < 150 && cy < 150)) { w.outside++; return; } w.states++; w.calls += 4; w.validated += 2;
    if (!std::is_same<decltype(gcem::incomplete_beta(x, y, z)), C>::value || !std::is_same<decltype(gcem::incomplete_beta_inv(x, y, z)), C>::value) { w.fail(i, std::string("incomplete_beta/inv(") + TN<A>::n() + ", " + TN<B>::n() + ", " + TN<D>::n() + ") must return " + TN<C>::n()); return; }
    C g = gcem::incomplete_beta(x, y, z), h = gcem::incomplete_beta(cx, cy, cz); if (w.sampling || (!same<C>(g, h))) w.fail(i, "incomplete_beta(" + show(x) + ", " + show(y) + ", " + show(z) + ") = " + show(g) + " but with " + TN<C>::n() + " arguments " + show(h));
    g = gcem::incomplete_beta_inv(x, y, z), h = gcem::incomplete_beta_inv(cx, cy, cz); if (w.sampling || (!same<C>(g, h))) w.fail(i, "incomplete_beta_inv(" + show(x) + ", " + show(y) + ", " + show(z) + ") = " + show(g) + " but with " + TN<C>::n() + " arguments " + show(h)); }); }
template<class A> void tri1(Engine& e) { tri<A, int, int>(e); tri<A, int, float>(e); tri<A, int, double>(e); tri<A, int, L>(e); tri<A, float, float>(e); tri<A, float, double>(e); tri<A, double, float>(e); tri<A, double, int>(e); tri<A, L, int>(e); tri<A, unsigned, double>(e); }
template<class A> void lm(Engine& e) { std::vector<A> v = A2<A>::v(e); typedef typename Prom<A>::type C; e.add(std::string("lmgamma<") + TN<A>::n() + ">", v.size() * 8, [v](uint64_t i, Worker& w) { A a = v[i / 8]; int p = int(i % 8) + 1; C c = (C)a; if (!(c > (p - 1) / 2.0)) { w.outside++; return; } w.states++; w.calls += 3; w.validated++;
    if (!std::is_same<decltype(gcem::lmgamma(a, p)), C>::value) { w.fail(i, "lmgamma result type"); return; } C g = gcem::lmgamma(a, p), h = gcem::lmgamma(c, p), k = gcem::lmgamma(a, (long long)p); if (w.sampling || (!same<C>(g, h) || !same<C>(g, k))) w.fail(i, "lmgamma(" + show(a) + ", " + show(p) + ") = " + show(g) + " but with " + TN<C>::n() + " " + show(h) + " / " + show(k)); }); }
// sgn: int; abs: argument type; factorial / gcd / lcm / binomial_coef of integers: integers
template<class I> void misc(Engine& e) { e.add(std::string("result types of integral functions<") + TN<I>::n() + ">", 1, [](uint64_t i, Worker& w) { w.states++; w.calls += 6; w.validated += 6; I x = 3, y = 2; typedef typename std::common_type<I, I>::type C; typedef typename std::common_type<I, int>::type D;
    if (w.sampling || (!std::is_same<decltype(gcem::sgn(x)), int>::value)) w.fail(i, "sgn must return int"); if (w.sampling || (!std::is_same<decltype(gcem::abs(x)), I>::value)) w.fail(i, "abs must return the type of its argument");
    if (w.sampling || (!std::is_same<decltype(gcem::factorial(x)), I>::value)) w.fail(i, "factorial of an integer must return its type"); if (w.sampling || (!std::is_same<decltype(gcem::gcd(x, y)), C>::value || !std::is_same<decltype(gcem::lcm(x, y)), C>::value || !std::is_same<decltype(gcem::gcd(x, 2)), D>::value)) w.fail(i, "gcd/lcm must return the common type");
    if (w.sampling || (!std::is_same<decltype(gcem::binomial_coef(x, y)), C>::value || !std::is_same<decltype(gcem::binomial_coef(x, 2)), D>::value)) w.fail(i, "binomial_coef must return the common type"); if (w.sampling || (!std::is_same<decltype(gcem::pow(x, y)), C>::value || !std::is_same<decltype(gcem::pow(x, 2)), D>::value || !std::is_same<decltype(gcem::pow(x, 2.5)), double>::value || !std::is_same<decltype(gcem::pow(2.5f, x)), float>::value || !std::is_same<decltype(gcem::pow(2.5L, x)), L>::value)) w.fail(i, "pow must return the common type"); }); }
// max, min of any two types, and the integral functions of two integral types: common type, values as converted
#define MX(F, DOM) if (DOM) { w.calls += 2; w.validated++; if (!std::is_same<decltype(gcem::F(x, y)), C>::value) { w.fail(i, std::string(#F "(") + TN<A>::n() + ", " + TN<B>::n() + ") must return " + TN<C>::n()); return; } \
    C g = gcem::F(x, y), h = gcem::F(cx, cy); if (w.sampling || !same<C>(g, h)) w.fail(i, std::string(#F "(") + TN<A>::n() + " " + show(x) + ", " + TN<B>::n() + " " + show(y) + ") = " + show(g) + " but with " + TN<C>::n() + " arguments " + show(h)); }
template<class A, class B> void mm(Engine& e) { std::shared_ptr<std::vector<A>> a(new std::vector<A>(A2<A>::v(e))); std::shared_ptr<std::vector<B>> b(new std::vector<B>(A2<B>::v(e))); typedef typename std::common_type<A, B>::type C;
  e.add(std::string("max/min<") + TN<A>::n() + "," + TN<B>::n() + ">", a->size() * b->size(), [a, b](uint64_t i, Worker& w) { A x = (*a)[i / b->size()]; B y = (*b)[i % b->size()]; C cx = (C)x, cy = (C)y; if (cx != cx || cy != cy) { w.outside++; return; } w.states++; MX(max, true) MX(min, true) }); }
template<class A, class B> void gg(Engine& e) { std::shared_ptr<std::vector<A>> a(new std::vector<A>(A2<A>::v(e))); std::shared_ptr<std::vector<B>> b(new std::vector<B>(A2<B>::v(e))); typedef typename std::common_type<A, B>::type C;
  e.add(std::string("gcd/lcm/binomial_coef/pow<") + TN<A>::n() + "," + TN<B>::n() + ">", a->size() * b->size(), [a, b](uint64_t i, Worker& w) { A x = (*a)[i / b->size()]; B y = (*b)[i % b->size()]; C cx = (C)x, cy = (C)y; if (x < 0 || y < 0 || cx > C(30000) || cy > C(30000)) { w.outside++; return; } w.states++;
    MX(gcd, true) MX(lcm, cx < C(10000) && cy < C(10000)) MX(binomial_coef, cx <= C(17) && cy <= C(40)) MX(pow, cy <= C(7) && cx <= C(17)) }); }
template<class A> void mm1(Engine& e) { mm<A, signed char>(e); mm<A, short>(e); mm<A, int>(e); mm<A, unsigned>(e); mm<A, long>(e); mm<A, unsigned long long>(e); mm<A, float>(e); mm<A, double>(e); mm<A, L>(e); }
template<class A> void gg1(Engine& e) { gg<A, signed char>(e); gg<A, unsigned char>(e); gg<A, short>(e); gg<A, unsigned short>(e); gg<A, int>(e); gg<A, unsigned>(e); gg<A, long>(e); gg<A, unsigned long>(e); gg<A, long long>(e); gg<A, unsigned long long>(e); }
// copysign keeps the type of its first argument, signbit is bool, and a const reference is a value
template<class T> void cs(Engine& e) { e.add(std::string("copysign/signbit/max types<") + TN<T>::n() + ">", 1, [](uint64_t i, Worker& w) { w.states++; w.calls += 8; w.validated += 8; T x = T(2.5L), y = T(-3); const T& cx = x; const T& cy = y;
  bool ok = std::is_same<decltype(gcem::copysign(x, y)), T>::value && std::is_same<decltype(gcem::copysign(x, 1.0f)), T>::value && std::is_same<decltype(gcem::copysign(x, 1.0L)), T>::value && std::is_same<decltype(gcem::copysign(cx, cy)), T>::value && std::is_same<decltype(gcem::signbit(x)), bool>::value
    && std::is_same<decltype(gcem::sgn(cx)), int>::value && std::is_same<decltype(gcem::abs(cx)), T>::value && std::is_same<decltype(gcem::max(cx, cy)), T>::value && std::is_same<decltype(gcem::min(cx, 2)), T>::value && std::is_same<decltype(gcem::factorial(x)), T>::value && std::is_same<decltype(gcem::gcd(x, y)), T>::value && std::is_same<decltype(gcem::lcm(cx, 6)), T>::value && std::is_same<decltype(gcem::binomial_coef(x, 2)), T>::value;
  if (w.sampling || !ok) w.fail(i, std::string("result types of copysign, signbit, sgn, abs, max, min, factorial, gcd, lcm, binomial_coef for ") + TN<T>::n()); }); }
// every public function is noexcept: a table of (name, operator noexcept) per type
template<class T> void nx(Engine& e) { e.add(std::string("noexcept<") + TN<T>::n() + ">", 1, [](uint64_t i, Worker& w) { T x = 1, y = 1, z = 1; (void)x; (void)y; (void)z;
#define NX1(F) { #F, noexcept(gcem::F(x)) },
#define NX2(F) { #F, noexcept(gcem::F(x, y)) && noexcept(gcem::F(x, 2)) && noexcept(gcem::F(2.5, y)) },
#define NX3(F) { #F, noexcept(gcem::F(x, y, z)) && noexcept(gcem::F(2, y, 1.5f)) },
  static const struct { const char* n; bool ok; } t[] = { NX1(acos) NX1(acosh) NX1(asin) NX1(asinh) NX1(atan) NX1(atanh) NX1(ceil) NX1(cos) NX1(cosh) NX1(erf) NX1(erf_inv) NX1(exp) NX1(expm1) NX1(floor) NX1(inv_sqrt) NX1(lgamma) NX1(log) NX1(log10) NX1(log1p) NX1(log2) NX1(round) NX1(sin) NX1(sinh) NX1(sqrt) NX1(tan) NX1(tanh) NX1(tgamma) NX1(trunc) NX1(abs) NX1(sgn) NX1(factorial) NX2(atan2) NX2(hypot) NX2(beta) NX2(lbeta) NX2(log_binomial_coef) NX2(incomplete_gamma) NX2(incomplete_gamma_inv) NX2(fmod) NX2(pow) NX2(max) NX2(min) NX2(gcd) NX2(lcm) NX2(binomial_coef) NX2(lmgamma) NX3(incomplete_beta) NX3(incomplete_beta_inv) };
  for (auto& r : t) { w.states++; w.calls++; w.validated++; if (w.sampling || !r.ok) w.fail(i, std::string(r.n) + " is not noexcept for " + TN<T>::n()); } }); }
#ifdef PART_A
MC_MAIN(R1(acos) R1(acosh) R1(asin) R1(asinh) R1(atan) R1(atanh) R1(ceil) R1(cos) R1(cosh) R1(erf) R1(erf_inv) R1(exp) R1(expm1) R1(floor))
#elif defined(PART_B)
MC_MAIN(R1(inv_sqrt) R1(lgamma) R1(log) R1(log10) R1(log1p) R1(log2) R1(round) R1(sin) R1(sinh) R1(sqrt) R1(tan) R1(tanh) R1(tgamma) R1(trunc))
#elif defined(PART_C)
MC_MAIN(R2(atan2) R2(hypot) R2(beta) R2(lbeta) MC_FOR_INT(misc, e); MC_FOR_INT(rpow, e); MC_FOR_FLT(rpow, e); MC_FOR_INT(pis, e); MC_FOR_INT(nx, e); MC_FOR_FLT(nx, e); e.add("noexcept signbit, copysign", 1, [](uint64_t i, Worker& w) { w.states++; w.calls++; w.validated++; if (w.sampling || !(noexcept(gcem::signbit(1.0)) && noexcept(gcem::copysign(1.0f, 2.0f)) && noexcept(gcem::copysign(1.0L, 2.0L)) && noexcept(gcem::signbit(1.0f)))) w.fail(i, "signbit or copysign is not noexcept"); }))
#elif defined(PART_D)   // the remaining integral types, in pairs that differ in width, signedness and kind
#define X2(F) m_##F<bool, double>(e); m_##F<float, bool>(e); m_##F<unsigned char, float>(e); m_##F<double, unsigned char>(e); m_##F<char, L>(e); m_##F<double, char>(e); m_##F<long, L>(e); m_##F<float, long>(e); m_##F<unsigned short, int>(e); m_##F<L, unsigned short>(e); m_##F<unsigned long, float>(e); m_##F<long, unsigned long>(e); m_##F<unsigned char, unsigned char>(e); m_##F<bool, bool>(e); m_##F<unsigned, long>(e);
MC_MAIN(X2(atan2) X2(hypot) X2(beta) X2(lbeta) X2(log_binomial_coef) X2(incomplete_gamma) X2(incomplete_gamma_inv) X2(fmod) rpow<char>(e); rpow<bool>(e); pis<char>(e); pis<bool>(e); tri<bool, long, float>(e); tri<unsigned char, double, long>(e); tri<long, unsigned long, L>(e); lm<char>(e); lm<bool>(e); misc<char>(e); MC_FOR_FLT(cs, e); mm1<bool>(e); mm1<signed char>(e); mm1<unsigned short>(e); mm1<int>(e); mm1<unsigned>(e); mm1<long long>(e); mm1<unsigned long>(e); mm1<float>(e); mm1<double>(e); mm1<L>(e); gg1<signed char>(e); gg1<unsigned char>(e); gg1<short>(e); gg1<int>(e); gg1<unsigned>(e); gg1<long>(e); gg1<unsigned long long>(e))
#else
MC_MAIN(R2(log_binomial_coef) R2(incomplete_gamma) R2(incomplete_gamma_inv) R2(fmod) tri1<int>(e); tri1<unsigned char>(e); tri1<float>(e); tri1<double>(e); tri1<L>(e); MC_FOR_INT(lm, e); MC_FOR_FLT(lm, e))
#endif
