// asin / acos / atan / atan2
#include "realmain.hpp"
using namespace mc;
template<class F> void all(Engine& e) { accuracy1_all<F>(e); ints1<F>(e); extra<F>(e, " [-1,1]", -1, 1, 200000); extra<F>(e, " [-4,4]", -4, 4, 100000); extra<F>(e, " near 1", 1 - 1.0L / 4096, 1 + 1.0L / 65536, 40000); }
template<class T> void zz(Engine& e) { // two zeros: the result is zero or pi with the sign of y
  e.add(std::string("atan2 of zeros<") + TN<T>::n() + ">", 4, [](uint64_t i, Worker& w) { w.states++; w.calls++; w.validated++; volatile T vy = (i & 1) ? -T(0) : T(0), vx = (i & 2) ? -T(0) : T(0); T y = vy, x = vx, g = gcem::atan2(y, x), m = std::atan2(y, x);
    if (w.sampling || !(std::fabs(g - m) <= 4 * std::numeric_limits<T>::epsilon()) || std::signbit(g) != std::signbit(m)) w.fail(i, "atan2(" + show(y) + ", " + show(x) + ") = " + show(g) + ", model " + show(m)); }); }
template<class T> void a2(Engine& e) { zz<T>(e); std::vector<T> a = vals2<T>(e, -12, 12, e.thorough ? 6 : 3, 40), w = wide2<T>(e); accuracy2<Fatan2, T>(e, "", a, a); accuracy2<Fatan2, T>(e, " wide", w, w); accuracy2<Fatan2, T>(e, " mixed scale", a, w); accuracy2<Fatan2, T>(e, " mixed scale 2", w, a); }
MC_MAIN(all<Fasin>(e); all<Facos>(e); all<Fatan>(e); MC_FOR_FLT(a2, e); ints2<Fatan2>(e); multiples<Fatan>(e, " k/64", 0.015625Q, 3000))
