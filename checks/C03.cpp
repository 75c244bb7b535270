// gcd / lcm: exact for every pair of integers whose result is representable
#include "ints.hpp"
#include "gcem.hpp"
using namespace mc;
inline I128 mod_gcd(I128 a, I128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { I128 t = a % b; a = b; b = t; } return a; }

template<class A, class B> void pr(Engine& e, const std::vector<A>& va, const std::vector<B>& vb, const char* tag) {
  typedef typename std::common_type<A, B>::type C;
  std::shared_ptr<std::vector<A>> a(new std::vector<A>(va)); std::shared_ptr<std::vector<B>> b(new std::vector<B>(vb));
  e.add(std::string("gcd/lcm<") + TN<A>::n() + "," + TN<B>::n() + ">" + tag, a->size() * b->size(), [a, b](uint64_t i, Worker& w) {
    A x = (*a)[i / b->size()]; B y = (*b)[i % b->size()];
    static_assert(std::is_same<decltype(gcem::gcd(x, y)), C>::value && std::is_same<decltype(gcem::lcm(x, y)), C>::value, "gcd/lcm return the common type");
    // domain: both magnitudes representable in their own type and in the common type
    I128 X = (I128)x, Y = (I128)y; if (X < 0) X = -X; if (Y < 0) Y = -Y;
    if (!fits<A>(X) || !fits<B>(Y) || !fits<C>(X) || !fits<C>(Y)) { w.outside++; return; }
    w.states++; w.calls++; w.validated++;
    I128 r = mod_gcd(X, Y);
    C g = gcem::gcd(x, y);
    if (w.sampling || ((I128)g != r)) w.fail(i, "gcd(" + show(x) + ", " + show(y) + ") = " + show(g) + ", must be " + show128(r));
    I128 l = r == 0 ? 0 : (X / r) * Y;
    if (!fits<C>(l)) return;
    w.calls++; w.validated++;
    C h = gcem::lcm(x, y);
    if (w.sampling || ((I128)h != l)) w.fail(i, "lcm(" + show(x) + ", " + show(y) + ") = " + show(h) + ", must be " + show128(l));
  });
}
// integral-valued floating arguments
template<class T> void fl(Engine& e) {
  std::shared_ptr<std::vector<T>> a(new std::vector<T>);
  for (int k = -200; k <= 200; k++) a->push_back((T)k);
  for (int k = 8; k < std::numeric_limits<T>::digits && k < 63; k++) for (int d = -2; d <= 2; d++) a->push_back(std::ldexp(T(1), k) + d);
  for (L x : e.landmarks) if (x == std::floor(x) && (L)(T)x == x && x < std::ldexp(1.0L, std::numeric_limits<T>::digits - 1) && x < 9e18L) a->push_back((T)x);
  uniq(*a);
  e.add(std::string("gcd/lcm<") + TN<T>::n() + "> of integral values", a->size() * a->size(), [a](uint64_t i, Worker& w) {
    T x = (*a)[i / a->size()], y = (*a)[i % a->size()]; w.states++; w.calls++; w.validated++;
    I128 X = (I128)x, Y = (I128)y, r = mod_gcd(X, Y); if (X < 0) X = -X; if (Y < 0) Y = -Y;
    T g = gcem::gcd(x, y);
    if (w.sampling || (!(g == (T)r))) w.fail(i, "gcd(" + show(x) + ", " + show(y) + ") = " + show(g) + ", must be " + show128(r));
    I128 l = r == 0 ? 0 : (X / r) * Y;
    if (l >= ((I128)1 << std::min(63, std::numeric_limits<T>::digits))) return;
    w.calls++; w.validated++;
    T h = gcem::lcm(x, y);
    if (w.sampling || (!(h == (T)l))) w.fail(i, "lcm(" + show(x) + ", " + show(y) + ") = " + show(h) + ", must be " + show128(l));
  });
}
template<class A, class B> void p(Engine& e) { pr<A, B>(e, int_alphabet<A>(e, e.thorough ? 1500 : 150, 1), int_alphabet<B>(e, e.thorough ? 1500 : 150, 1), ""); }
template<class A> void row(Engine& e) { p<A, signed char>(e); p<A, unsigned char>(e); p<A, short>(e); p<A, unsigned short>(e); p<A, int>(e); p<A, unsigned>(e); p<A, long>(e); p<A, unsigned long>(e); p<A, long long>(e); p<A, unsigned long long>(e); }
template<class T> void box(Engine& e) { std::vector<T> v; int n = e.thorough ? 8000 : 1200; for (int i = std::is_signed<T>::value ? -n : 0; i <= n; i++) v.push_back((T)i); pr<T, T>(e, v, v, " box"); }
MC_MAIN(MC_FOR_INT(row, e); box<int>(e); box<unsigned>(e); box<long>(e); box<long long>(e); MC_FOR_FLT(fl, e))
