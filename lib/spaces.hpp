// Finite input spaces.  Every space is complete for its definition: it is indexable and the
// engine visits every index.
#ifndef MC_SPACES_HPP
#define MC_SPACES_HPP
#include "engine.hpp"

namespace mc {

template<class T> struct Bits;
template<> struct Bits<float> {
  enum { MB = 23, EMAXF = 255 };
  static float make(bool s, uint64_t e, uint64_t m) { uint32_t b = (uint32_t(s) << 31) | (uint32_t(e) << 23) | uint32_t(m); float f; memcpy(&f, &b, 4); return f; }
  static int bias() { return 127; }
};
template<> struct Bits<double> {
  enum { MB = 52, EMAXF = 2047 };
  static double make(bool s, uint64_t e, uint64_t m) { uint64_t b = (uint64_t(s) << 63) | (e << 52) | m; double f; memcpy(&f, &b, 8); return f; }
  static int bias() { return 1023; }
};
template<> struct Bits<L> {
  enum { MB = 63, EMAXF = 32767 };
  static L make(bool s, uint64_t e, uint64_t m) { unsigned char b[16]; memset(b, 0, 16); uint64_t mm = m | (e ? (uint64_t(1) << 63) : 0); uint16_t se = uint16_t((s ? 0x8000 : 0) | e); memcpy(b, &mm, 8); memcpy(b + 8, &se, 2); L f = 0; memcpy(&f, b, 16); return f; }
  static int bias() { return 16383; }
};

template<class T> T bump(T x, int k) {  // k ulps away from x
  T inf = std::numeric_limits<T>::infinity();
  for (; k > 0; k--) x = std::nextafter(x, inf);
  for (; k < 0; k++) x = std::nextafter(x, -inf);
  return x;
}

// every sign x exponent field in [e0,e1] x leading `mbits` significand bits x
// {remaining bits 0, 1, all ones, 10101..}
template<class T> struct Grid {
  uint64_t e0, e1; int mbits, pats; int signs;
  uint64_t size() const { return uint64_t(signs) * (e1 - e0 + 1) * pats * (uint64_t(1) << mbits); }
  T at(uint64_t i) const {
    uint64_t top = i & ((uint64_t(1) << mbits) - 1); i >>= mbits;
    uint64_t p = i % pats; i /= pats;
    uint64_t e = e0 + i % (e1 - e0 + 1); i /= (e1 - e0 + 1);
    int rest = Bits<T>::MB - mbits;
    uint64_t mask = rest ? ((uint64_t(1) << rest) - 1) : 0;
    uint64_t low = p == 0 ? 0 : p == 1 ? (1 & mask) : p == 2 ? mask : (0xAAAAAAAAAAAAAAAAull & mask);
    return Bits<T>::make(signs == 2 ? i != 0 : signs == -1, e, (top << rest) | low);
  }
};
template<class T> Grid<T> grid_all(int mbits, int pats = 3) { Grid<T> g; g.e0 = 0; g.e1 = Bits<T>::EMAXF; g.mbits = mbits; g.pats = (mbits == Bits<T>::MB) ? 1 : pats; g.signs = 2; return g; }
// unbiased exponents [a,b]
template<class T> Grid<T> grid_exp(int a, int b, int mbits, int pats = 3) { Grid<T> g; g.e0 = std::max(0, a + Bits<T>::bias()); g.e1 = std::min<int>(Bits<T>::EMAXF, b + Bits<T>::bias()); g.mbits = mbits; g.pats = (mbits == Bits<T>::MB) ? 1 : pats; g.signs = 2; return g; }

// lo + i*(hi-lo)/n, i = 0..n
template<class T> struct Lin { L lo, hi; uint64_t n; uint64_t size() const { return n + 1; } T at(uint64_t i) const { return (T)(lo + (hi - lo) * ((L)i / (L)n)); } };

// multiples of a real constant:  (k0+i)*c  with +-u ulps
template<class T> struct Mult { Q c; long k0, k1; int u; uint64_t size() const { return uint64_t(k1 - k0 + 1) * (2 * u + 1); } T at(uint64_t i) const { int d = int(i % (2 * u + 1)) - u; long k = k0 + long(i / (2 * u + 1)); return bump<T>((T)(c * (Q)k), d); } };

template<class T> struct Space {
  std::vector<Grid<T>> g; std::vector<Lin<T>> l; std::vector<Mult<T>> m; std::shared_ptr<std::vector<T>> v;
  Space() : v(new std::vector<T>) {}
  Space& operator<<(const Grid<T>& x) { g.push_back(x); return *this; }
  Space& operator<<(const Lin<T>& x) { l.push_back(x); return *this; }
  Space& operator<<(const Mult<T>& x) { m.push_back(x); return *this; }
  Space& operator<<(const std::vector<T>& x) { v->insert(v->end(), x.begin(), x.end()); return *this; }
  uint64_t size() const { uint64_t s = v->size(); for (auto& x : g) s += x.size(); for (auto& x : l) s += x.size(); for (auto& x : m) s += x.size(); return s; }
  T at(uint64_t i) const {
    if (i < v->size()) return (*v)[i];
    i -= v->size();
    for (auto& x : l) { if (i < x.size()) return x.at(i); i -= x.size(); }
    for (auto& x : m) { if (i < x.size()) return x.at(i); i -= x.size(); }
    for (auto& x : g) { if (i < x.size()) return x.at(i); i -= x.size(); }
    return T(0);
  }
  std::vector<T> all() const { std::vector<T> r; uint64_t n = size(); for (uint64_t i = 0; i < n; i++) r.push_back(at(i)); return r; }
};

template<class T> struct BitLess { bool operator()(const T& a, const T& b) const { unsigned char x[16] = {0}, y[16] = {0}; size_t n = sizeof(T) == 16 ? 10 : sizeof(T); memcpy(x, &a, n); memcpy(y, &b, n); return memcmp(x, y, 16) < 0; } };
template<class T> void uniq(std::vector<T>& v) { std::sort(v.begin(), v.end(), BitLess<T>()); v.erase(std::unique(v.begin(), v.end(), [](const T& a, const T& b) { return !BitLess<T>()(a, b) && !BitLess<T>()(b, a); }), v.end());
  std::stable_sort(v.begin(), v.end(), [](const T& a, const T& b) { T x = a < 0 ? -a : a, y = b < 0 ? -b : b; bool na = a != a, nb = b != b; if (na || nb) return nb && !na; return x < y; }); }

template<class T> std::vector<T> specials() {
  typedef std::numeric_limits<T> N;
  std::vector<T> r; T b[] = { T(0), N::denorm_min(), N::min(), N::min() / 2, N::epsilon(), N::epsilon() / 2, T(1), T(0.5), T(2), T(1) - N::epsilon() / 2, T(1) + N::epsilon(), N::max(), N::max() / 2, N::infinity() };
  for (T x : b) { r.push_back(x); r.push_back(-x); }
  r.push_back(N::quiet_NaN()); r.push_back(-N::quiet_NaN());
  return r;
}

// values the code itself singles out: every numeric literal found in the headers, its
// negation, half, double, reciprocal and square, each with its +-u ulp neighbourhood
template<class T> std::vector<T> landmarks(const Engine& e, int u, bool transforms = true) {
  std::vector<T> r;
  for (L c : e.landmarks) {
    L t[7] = { c, c / 2, c * 2, c != 0 ? 1 / c : 0, c * c, c > 0 ? sqrtl(c) : 0, c + 1 };
    for (int k = 0; k < (transforms ? 7 : 1); k++) {
      T x = (T)t[k];
      if (!std::isfinite(x)) continue;
      for (int d = -u; d <= u; d++) { T y = bump<T>(x, d); r.push_back(y); r.push_back(-y); }
    }
  }
  uniq(r); return r;
}
// integers and half integers in [-n,n] with +-u ulps
template<class T> std::vector<T> halves(int n, int u) { std::vector<T> r; for (int k = -2 * n; k <= 2 * n; k++) for (int d = -u; d <= u; d++) r.push_back(bump<T>((T)k / 2, d)); return r; }

// the standard one-argument space
template<class T> struct Std;
template<> struct Std<float> { static Space<float> make(const Engine& e, int lvl) { Space<float> s; std::vector<float> v = specials<float>(), a = landmarks<float>(e, 6), h = halves<float>(300, 3); v.insert(v.end(), a.begin(), a.end()); v.insert(v.end(), h.begin(), h.end()); uniq(v); s << v; s << grid_all<float>(e.thorough ? (lvl > 0 ? 23 : 16) : (lvl > 0 ? 14 : 11)); return s; } };
template<> struct Std<double> { static Space<double> make(const Engine& e, int lvl) { Space<double> s; std::vector<double> v = specials<double>(), a = landmarks<double>(e, 6), h = halves<double>(300, 3); v.insert(v.end(), a.begin(), a.end()); v.insert(v.end(), h.begin(), h.end()); uniq(v); s << v; s << grid_all<double>(e.thorough ? (lvl > 0 ? 13 : 8) : (lvl > 0 ? 7 : 4)); s << grid_exp<double>(-20, 12, e.thorough ? (lvl > 0 ? 20 : 14) : (lvl > 0 ? 13 : 10)); return s; } };
template<> struct Std<L> { static Space<L> make(const Engine& e, int lvl) { Space<L> s; std::vector<L> v = specials<L>(), a = landmarks<L>(e, 3), h = halves<L>(300, 2); v.insert(v.end(), a.begin(), a.end()); v.insert(v.end(), h.begin(), h.end()); uniq(v); s << v; s << grid_exp<L>(-1100, 1100, e.thorough ? 8 : 3); s << grid_all<L>(e.thorough ? 3 : 0); s << grid_exp<L>(-20, 12, e.thorough ? (lvl > 0 ? 16 : 11) : (lvl > 0 ? 11 : 8)); return s; } };

} // namespace mc
#endif
