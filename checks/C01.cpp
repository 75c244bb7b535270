// floor / ceil / trunc / round: exact on every input
#include "ints.hpp"
#include "gcem.hpp"
using namespace mc;

// libm is exact for these four functions by definition
#define RF(NM, REF) struct R##NM { static const char* name() { return #NM; } template<class T> static T call(T x) { return gcem::NM(x); } \
  template<class T> static double calli(T x) { static_assert(std::is_same<decltype(gcem::NM(x)), double>::value, "integral arguments give double"); return gcem::NM(x); } \
  template<class T> static T ref(T x) { return REF(x); } };
RF(floor, std::floor) RF(ceil, std::ceil) RF(trunc, std::trunc) RF(round, std::round)

template<class F, class T> void one(Engine& e, const Space<T>& s) {
  e.add(std::string(F::name()) + "<" + TN<T>::n() + ">", s.size(), [s](uint64_t i, Worker& w) {
    T x = s.at(i); T g = F::template call<T>(x), r = F::template ref<T>(x);
    w.states++; w.calls++; w.validated++;
    bool ok = (r != r) ? (g != g) : (g == r);
    if (w.sampling || (!ok)) w.fail(i, std::string(F::name()) + "(" + show(x) + ") = " + show(g) + ", must be " + show(r));
  });
}
template<class F, class T> void onei(Engine& e) {
  std::vector<T> v = int_alphabet<T>(e, 5000, 3);
  e.add(std::string(F::name()) + "<" + TN<T>::n() + ">", v.size(), [v](uint64_t i, Worker& w) {
    T x = v[i]; double g = F::template calli<T>(x), r = (double)x; w.states++; w.calls++; w.validated++;
    if (w.sampling || (!(g == r))) w.fail(i, std::string(F::name()) + "(" + show(x) + ") = " + show(g) + ", must be " + show(r));
  });
}
template<class T> Space<T> sp(Engine& e);
template<class T> void common(Engine& e, Space<T>& s) { std::vector<T> v = specials<T>(), a = landmarks<T>(e, 4), h = halves<T>(5000, 3);
  v.insert(v.end(), a.begin(), a.end()); v.insert(v.end(), h.begin(), h.end());
  // integers and half integers next to powers of two (where the spacing of T changes)
  for (int k = 0; k < Bits<T>::MB + 70; k++) for (int d = -8; d <= 8; d++) for (int sg = -1; sg <= 1; sg += 2) { T b = std::ldexp(T(1), k); T x = sg * (b + T(d) / 2); for (int u = -2; u <= 2; u++) v.push_back(bump<T>(x, u)); }
  uniq(v); s << v; }
template<> Space<float> sp<float>(Engine& e) { Space<float> s; common(e, s); s << grid_all<float>(e.thorough ? 23 : 17); if (!e.thorough) s << grid_exp<float>(-3, 25, 23); return s; }
template<> Space<double> sp<double>(Engine& e) { Space<double> s; common(e, s); s << grid_all<double>(e.thorough ? 16 : 9, 4) << grid_exp<double>(-3, 66, e.thorough ? 22 : 14, 4); return s; }
template<> Space<L> sp<L>(Engine& e) { Space<L> s; common(e, s); s << grid_all<L>(e.thorough ? 12 : 5, 4) << grid_exp<L>(-3, 66, e.thorough ? 21 : 13, 4); return s; }
template<class F> void fn(Engine& e) {
  one<F, float>(e, sp<float>(e)); one<F, double>(e, sp<double>(e)); one<F, L>(e, sp<L>(e));
  onei<F, signed char>(e); onei<F, unsigned char>(e); onei<F, short>(e); onei<F, unsigned short>(e); onei<F, int>(e); onei<F, unsigned>(e);
  onei<F, long>(e); onei<F, unsigned long>(e); onei<F, long long>(e); onei<F, unsigned long long>(e);
}
MC_MAIN(fn<Rfloor>(e); fn<Rceil>(e); fn<Rtrunc>(e); fn<Rround>(e))
