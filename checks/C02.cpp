// abs / sgn / signbit / copysign / max / min
#include "ints.hpp"
#include "gcem.hpp"
using namespace mc;
template<class T> bool same(T a, T b) { return a == b || (a != a && b != b); }
template<class T> bool sb(T x) { return std::signbit(x); }

template<class T> void fl(Engine& e) {
  Space<T> s = Std<T>::make(e, 1);
  e.add(std::string("abs/sgn/signbit<") + TN<T>::n() + ">", s.size(), [s](uint64_t i, Worker& w) {
    T x = s.at(i); w.states++; w.calls += 3; w.validated += 3;
    T a = gcem::abs(x), m = x != x ? x : x < 0 ? -x : x == 0 ? T(0) : x;
    if (w.sampling || (!same(a, m) || (x == x && sb(a)))) w.fail(i, "abs(" + show(x) + ") = " + show(a) + ", must be " + show(m));
    int g = gcem::sgn(x), r = x > 0 ? 1 : x < 0 ? -1 : 0;
    if (w.sampling || (g != r)) w.fail(i, "sgn(" + show(x) + ") = " + show(g) + ", must be " + show(r));
    bool b = gcem::signbit(x);
    if (w.sampling || (b != sb(x))) w.fail(i, "signbit(" + show(x) + ") = " + show(b));
  });
}
template<class T> std::vector<T> pairvals(Engine& e) { std::vector<T> v = specials<T>(), a = landmarks<T>(e, 1, false), h = halves<T>(e.thorough ? 200 : 60, 1); v.insert(v.end(), a.begin(), a.end()); v.insert(v.end(), h.begin(), h.end());
  Grid<T> g = grid_exp<T>(-40, 40, e.thorough ? 2 : 0); for (uint64_t i = 0; i < g.size(); i++) v.push_back(g.at(i)); uniq(v); return v; }
template<class T> std::vector<T> intvals(Engine& e) { return int_alphabet<T>(e, e.thorough ? 400 : 100, 1); }
template<class T, bool I = std::is_integral<T>::value> struct Vals { static std::vector<T> v(Engine& e) { return intvals<T>(e); } };
template<class T> struct Vals<T, false> { static std::vector<T> v(Engine& e) { return pairvals<T>(e); } };

template<class A, class B> void cs(Engine& e) {
  std::shared_ptr<std::vector<A>> a(new std::vector<A>(Vals<A>::v(e))); std::shared_ptr<std::vector<B>> b(new std::vector<B>(Vals<B>::v(e)));
  e.add(std::string("copysign<") + TN<A>::n() + "," + TN<B>::n() + ">", a->size() * b->size(), [a, b](uint64_t i, Worker& w) {
    A x = (*a)[i / b->size()]; B y = (*b)[i % b->size()]; w.states++; w.calls++; w.validated++;
    static_assert(std::is_same<decltype(gcem::copysign(x, y)), A>::value, "copysign returns the type of its first argument");
    A g = gcem::copysign(x, y), r = sb(y) ? -std::fabs(x) : std::fabs(x);
    if (w.sampling || (!same(g, r) || sb(g) != sb(y))) w.fail(i, "copysign(" + show(x) + ", " + show(y) + ") = " + show(g) + ", must be " + show(r));
  });
}
template<class A, class B> void mm(Engine& e) {
  typedef typename std::common_type<A, B>::type C;
  std::shared_ptr<std::vector<A>> a(new std::vector<A>(Vals<A>::v(e))); std::shared_ptr<std::vector<B>> b(new std::vector<B>(Vals<B>::v(e)));
  e.add(std::string("max/min<") + TN<A>::n() + "," + TN<B>::n() + ">", a->size() * b->size(), [a, b](uint64_t i, Worker& w) {
    A x = (*a)[i / b->size()]; B y = (*b)[i % b->size()];
    C cx = (C)x, cy = (C)y;
    if (cx != cx || cy != cy) { w.outside++; return; }   // order with NaN is not specified
    w.states++; w.calls += 2; w.validated += 2;
    static_assert(std::is_same<decltype(gcem::max(x, y)), C>::value && std::is_same<decltype(gcem::min(x, y)), C>::value, "max/min return the common type");
    C g = gcem::max(x, y), r = cx < cy ? cy : cx;
    if (w.sampling || (!(g == r))) w.fail(i, "max(" + show(x) + ", " + show(y) + ") = " + show(g) + ", must be " + show(r));
    C h = gcem::min(x, y), q = cy < cx ? cy : cx;
    if (w.sampling || (!(h == q))) w.fail(i, "min(" + show(x) + ", " + show(y) + ") = " + show(h) + ", must be " + show(q));
  });
}
template<class T> void in(Engine& e) {
  std::vector<T> v = int_alphabet<T>(e, 20000, 3);
  e.add(std::string("abs/sgn<") + TN<T>::n() + ">", v.size(), [v](uint64_t i, Worker& w) {
    T x = v[i]; w.states++; w.calls += 1; w.validated++;
    int g = gcem::sgn(x), r = x > 0 ? 1 : x == 0 ? 0 : -1;
    if (w.sampling || (g != r)) w.fail(i, "sgn(" + show(x) + ") = " + show(g) + ", must be " + show(r));
    if (std::is_signed<T>::value && x == std::numeric_limits<T>::min()) { w.outside++; return; }
    T a = gcem::abs(x); w.calls++; w.validated++;
    I128 m = (I128)x < 0 ? -(I128)x : (I128)x;
    if (w.sampling || ((I128)a != m)) w.fail(i, "abs(" + show(x) + ") = " + show(a));
  });
}
template<class A> void row(Engine& e) { mm<A, signed char>(e); mm<A, unsigned char>(e); mm<A, short>(e); mm<A, int>(e); mm<A, unsigned>(e); mm<A, long>(e); mm<A, unsigned long>(e); mm<A, long long>(e); mm<A, float>(e); mm<A, double>(e); mm<A, L>(e); }
MC_MAIN(MC_FOR_FLT(fl, e); MC_FOR_INT(in, e);
  cs<float, float>(e); cs<float, double>(e); cs<float, L>(e); cs<double, float>(e); cs<double, double>(e); cs<double, L>(e); cs<L, float>(e); cs<L, double>(e); cs<L, L>(e);
  MC_FOR_INT(row, e); MC_FOR_FLT(row, e))
