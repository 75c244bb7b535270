// The accuracy contract of every real function: domain, reference model, tolerance.
#ifndef MC_FNS_HPP
#define MC_FNS_HPP
#include "accuracy.hpp"
#include "gcem.hpp"

namespace mc {

template<class T> inline bool normal_or_zero(T x) { return x == 0 || x != x || std::fabs(x) >= std::numeric_limits<T>::min(); }
template<class T> inline bool fin(T x) { return x == x && !std::isinf(x); }
template<class T> inline typename OT<T>::type lim_min() { return (typename OT<T>::type)std::numeric_limits<T>::min(); }

// relative, with results below eight times the smallest normal number allowed to flush to zero
template<class T, class O> inline O rel(O k, O r, O eps) { return k * eps * oabs(r) + 8 * lim_min<T>(); }
// the library's own mixed measure |f-r|/(1+|r|)
template<class T> inline int byT(int f, int d, int l) { return sizeof(T) == 4 ? f : sizeof(T) == 8 ? d : l; }
template<class O> inline O mix(O k, O r, O eps) { return k * eps * (1 + oabs(r)); }

#define FN1(NM, EXPR, LREF, QREF, DOM, TOL)                                        \
  struct NM {                                                                      \
    static const char* name() { return #EXPR; }                                    \
    template<class T> static T call(T x) { return gcem::EXPR(x); }                 \
    template<class I> static double icall(I x) { return gcem::EXPR(x); }           \
    static L ref(L x) { return LREF; }                                             \
    static Q ref(Q x) { return QREF; }                                             \
    template<class T> static bool dom(T x) { typedef std::numeric_limits<T> N; (void)sizeof(N); return DOM; } \
    template<class T, class O> static O tol(T xt, O r, O eps) { O x = (O)xt; (void)x; (void)r; return TOL; } \
  };
#define FN2(NM, EXPR, LREF, QREF, DOM, TOL)                                        \
  struct NM {                                                                      \
    static const char* name() { return #EXPR; }                                    \
    template<class T> static T call(T x, T y) { return gcem::EXPR(x, y); }         \
    template<class I> static double icall(I x, I y) { return gcem::EXPR(x, y); }   \
    static L ref(L x, L y) { return LREF; }                                        \
    static Q ref(Q x, Q y) { return QREF; }                                        \
    template<class T> static bool dom(T x, T y) { typedef std::numeric_limits<T> N; (void)sizeof(N); return DOM; } \
    template<class T, class O> static O tol(T xt, T yt, O r, O eps) { O x = (O)xt, y = (O)yt; (void)x; (void)y; (void)r; return TOL; } \
  };

// --- exponentials and logarithms -------------------------------------------------------
// within 3% of overflow the answer may already be infinite
template<class T, class O> inline O exp_tol(O x, O r, O eps) { O m = (O)std::numeric_limits<T>::max(); return oabs(r) <= m && oabs(r) > m / O(1.03L) ? m - oabs(r) : 0; }
FN1(Fexp, exp, expl(x), expq(x), true, (rel<T, O>(24 + oabs(x) / 2, r, eps) + exp_tol<T, O>(x, r, eps)))
FN1(Fexpm1, expm1, expm1l(x), expm1q(x), true, (oabs(x) < O(1e-4L) ? rel<T, O>(16, r, eps) : (24 + oabs(x) / 2) * eps * (1 + oabs(r)) + exp_tol<T, O>(x, r, eps)))
FN1(Flog, log, logl(x), logq(x), normal_or_zero(x), (rel<T, O>(24, r, eps)))
FN1(Flog1p, log1p, log1pl(x), log1pq(x), true, (oabs(x) < O(1e-4L) ? rel<T, O>(16, r, eps) : mix<O>(8, r, eps)))
FN1(Flog2, log2, log2l(x), log2q(x), normal_or_zero(x), (rel<T, O>(24, r, eps)))
FN1(Flog10, log10, log10l(x), log10q(x), normal_or_zero(x), (rel<T, O>(24, r, eps)))

// --- roots -----------------------------------------------------------------------------
FN1(Fsqrt, sqrt, sqrtl(x), sqrtq(x), normal_or_zero(x), (32 * eps * oabs(r)))
FN1(Finv_sqrt, inv_sqrt, 1 / sqrtl(x), 1 / sqrtq(x), normal_or_zero(x) && !(x == 0 && std::signbit(x)), (32 * eps * oabs(r)))
FN2(Fhypot, hypot, hypotl(x, y), hypotq(x, y), normal_or_zero(x) && normal_or_zero(y) && !(std::isinf(x) && y != y) && !(x != x && std::isinf(y)), (32 * eps * oabs(r)))

// --- trigonometric: the error grows with |x| because the argument is reduced in T ----------
FN1(Fsin, sin, sinl(x), sinq(x), !fin(x) || std::fabs(x) <= 1 / std::sqrt(N::epsilon()), (oabs(x) <= 1 ? rel<T, O>(16, r, eps) : (8 + 2 * oabs(x)) * eps))
FN1(Fcos, cos, cosl(x), cosq(x), !fin(x) || std::fabs(x) <= 1 / std::sqrt(N::epsilon()), ((8 + 2 * oabs(x)) * eps))
template<class O> inline O tan_tol(O x, O r, O eps) { O d = (8 + 2 * oabs(x)) * eps; O q = 1 + r * r; return oabs(r) * d > O(0.25) ? (O)1e300 : 2 * d * q; }  // near a pole only NaN-freedom is required
FN1(Ftan, tan, tanl(x), tanq(x), !fin(x) || std::fabs(x) <= 1 / std::sqrt(N::epsilon()), (oabs(x) <= 1 ? rel<T, O>(16, r, eps) : tan_tol<O>(x, r, eps)))
FN1(Fasin, asin, asinl(x), asinq(x), true, (rel<T, O>(byT<T>(32, 32, 256), r, eps)))
FN1(Facos, acos, acosl(x), acosq(x), true, mix<O>(byT<T>(16, 16, 128), r, eps))
FN1(Fatan, atan, atanl(x), atanq(x), true, (rel<T, O>(byT<T>(32, 32, 256), r, eps)))
FN2(Fatan2, atan2, atan2l(x, y), atan2q(x, y), normal_or_zero(x) && normal_or_zero(y), mix<O>(byT<T>(16, 16, 128), r, eps))

// --- hyperbolic ------------------------------------------------------------------------
template<class T, class O> inline O hyp_tol(O x, O r, O eps) { return oabs(r) >= (O)std::numeric_limits<T>::max() / O(2.1) ? oabs(r) * 2 : (24 + oabs(x) / 2) * eps * (1 + oabs(r)); }  // exp(|x|) may overflow first
FN1(Fsinh, sinh, sinhl(x), sinhq(x), true, (hyp_tol<T, O>(x, r, eps)))
FN1(Fcosh, cosh, coshl(x), coshq(x), true, (hyp_tol<T, O>(x, r, eps)))
FN1(Ftanh, tanh, tanhl(x), tanhq(x), true, (rel<T, O>(16, r, eps)))
FN1(Fasinh, asinh, asinhl(x), asinhq(x), true, mix<O>(16, r, eps))
FN1(Facosh, acosh, acoshl(x), acoshq(x), true, mix<O>(16, r, eps))
FN1(Fatanh, atanh, atanhl(x), atanhq(x), true, mix<O>(16, r, eps))

// (between 1 and 2.1 the error grows like exp(2x^2) eps, at most 8192 eps)
// --- error function and gamma family -----------------------------------------------------
template<class T, class O> inline O erf_tol(O x, O r, O eps) { O a = oabs(x); return a > 1 && a < O(2.11L) ? mix<O>(64 + (O)expl(2 * (L)a * (L)a), r, eps) : rel<T, O>(64, r, eps); }
FN1(Ferf, erf, erfl(x), erfq(x), true, (erf_tol<T, O>(x, r, eps)))

// the gamma family rests on coefficients good to about 1e-15, whatever the type
template<class O> inline O gfloor() { return O(1e-15L); }
inline L olog(L x) { return logl(x); }
inline Q olog(Q x) { return logq(x); }
template<class T> inline bool far_from_overflow(typename OT<T>::type r) { typedef typename OT<T>::type O; return !(oabs(r) < (O)std::numeric_limits<T>::max() / 2) ? oinf(r) || oabs(r) > (O)std::numeric_limits<T>::max() * 2 : true; }

FN1(Flgamma, lgamma, lgammal(x), lgammaq(x), x > 0 && normal_or_zero(x) && (std::isinf(x) || x < N::max() / 1024), ((64 * eps + gfloor<O>()) * (1 + oabs(r))))
template<class T, class O> inline O tgamma_tol(O x, O r, O eps) {
  O m = (O)std::numeric_limits<T>::max();
  if (oabs(r) > m / 2) return oabs(r);                       // may already be reported as infinite
  O l = r == 0 ? 0 : oabs(olog(oabs(r)));
  O k = (64 + 16 * l) * eps + gfloor<O>() * (1 + l);
  if (x < 0) { O d = oabs(x - (O)rintl((L)x)); k += 32 * (1 + oabs(x)) * eps / d; }
  return k * oabs(r) + 8 * lim_min<T>();
}
// positive arguments, and negative ones at least 2^-10 away from a pole
template<class T> inline bool tgamma_dom(T x) { return x > 0 ? normal_or_zero(x) : x < 0 && x > -2 * (T)std::numeric_limits<T>::max_exponent10 && std::fabs(x - std::rint(x)) >= T(0.0009765625); }
FN1(Ftgamma, tgamma, tgammal(x), tgammaq(x), tgamma_dom(x), (tgamma_tol<T, O>(x, r, eps)))

inline L lbeta_ref(L a, L b) { return (L)(lgammaq(a) + lgammaq(b) - lgammaq((Q)a + b)); }
inline Q lbeta_ref(Q a, Q b) { return lgammaq(a) + lgammaq(b) - lgammaq(a + b); }
// log beta is a difference of log gammas: the error is relative to the largest of them
template<class O> inline O lg_mag(O a, O b) { return oabs((O)lgammaq(a)) + oabs((O)lgammaq(b)) + oabs((O)lgammaq((Q)a + b)); }
template<class T> inline bool beta_dom(T a, T b) { return a >= T(1) / 1024 && b >= T(1) / 1024 && a <= 4096 && b <= 4096; }
FN2(Flbeta, lbeta, lbeta_ref(x, y), lbeta_ref(x, y), beta_dom(x, y), ((64 * eps + gfloor<O>()) * (1 + lg_mag<O>(x, y))))
FN2(Fbeta, beta, expq(lbeta_ref((Q)x, (Q)y)), expq(lbeta_ref(x, y)), beta_dom(x, y), ((128 * eps + 2 * gfloor<O>()) * (1 + lg_mag<O>(x, y)) * oabs(r) + 8 * lim_min<T>()))
template<class O> inline O lbinom_ref(O n, O k) { return (O)(lgammaq((Q)n + 1) - lgammaq((Q)k + 1) - lgammaq((Q)n - k + 1)); }
FN2(Flbinom, log_binomial_coef, lbinom_ref<L>(x, y), lbinom_ref<Q>(x, y), x >= 0 && y >= 0 && y <= x && x <= 4096, ((64 * eps + gfloor<O>()) * (1 + oabs((O)lgammaq((Q)x + 1)) + oabs((O)lgammaq((Q)y + 1)) + oabs((O)lgammaq((Q)x - y + 1)))))

// --- powers and remainders ---------------------------------------------------------------
template<class T, class O> inline O pow_tol(O x, O y, O r, O eps) {
  O t = x > 0 ? oabs(y * olog(x)) : 0;
  O m = (O)std::numeric_limits<T>::max();
  if (!(oabs(r) <= m / 2)) return oinf(r) ? 0 : oabs(r);
  return (48 + 8 * t) * eps * oabs(r) + 8 * lim_min<T>();
}
template<class T> inline bool pow_dom(T x, T y) { return x >= 0 && fin(x) && fin(y) && normal_or_zero(x) && !(x == 0 && std::signbit(x)); }
FN2(Fpow, pow, powl(x, y), powq(x, y), pow_dom(x, y), (pow_tol<T, O>(x, y, r, eps)))

} // namespace mc
#endif
