// Integer alphabets and the bit-exact reference arithmetic for them.
#ifndef MC_INTS_HPP
#define MC_INTS_HPP
#include "spaces.hpp"

namespace mc {
typedef __int128 I128;

inline std::string show128(I128 v) { if (v == 0) return "0"; bool n = v < 0; unsigned __int128 u = n ? (unsigned __int128)0 - (unsigned __int128)v : (unsigned __int128)v; std::string s; while (u) { s += char('0' + int(u % 10)); u /= 10; } if (n) s += '-'; return std::string(s.rbegin(), s.rend()); }

template<class T> inline bool fits(I128 v) { return v >= (I128)std::numeric_limits<T>::min() && v <= (I128)std::numeric_limits<T>::max(); }

inline std::vector<I128> clean(std::vector<I128>& v) {
  std::sort(v.begin(), v.end(), [](I128 a, I128 b) { I128 x = a < 0 ? -a : a, y = b < 0 ? -b : b; return x != y ? x < y : a < b; });
  v.erase(std::unique(v.begin(), v.end()), v.end()); return v;
}

// every value of 8-bit types; |v| <= small, powers of two, limits, header literals (each +-nb)
// and a few structured values for wider types
template<class T> std::vector<T> int_alphabet(const Engine& e, int small, int nb) {
  std::vector<I128> v;
  if (sizeof(T) == 1) { for (int i = -128; i < 256; i++) v.push_back(i); }
  else {
    for (int i = -small; i <= small; i++) v.push_back(i);
    std::vector<I128> c;
    for (int k = 0; k <= 64; k++) c.push_back((I128)1 << k);
    c.push_back((I128)std::numeric_limits<T>::max());
    c.push_back((I128)std::numeric_limits<T>::max() / 2); c.push_back((I128)std::numeric_limits<T>::max() / 3);
    for (L x : e.landmarks) if (x >= 0 && x < 1.8e19L) c.push_back((I128)x);
    I128 t = 1; for (int k = 0; k < 20; k++) { c.push_back(t); t *= 10; }
    t = 1; for (int k = 0; k < 41; k++) { c.push_back(t); t *= 3; }
    I128 a = 0, b = 1; for (int k = 0; k < 92; k++) { c.push_back(b); I128 n = a + b; a = b; b = n; }   // Fibonacci: longest Euclid chains
    t = 1; for (int k = 1; k < 21; k++) { t *= k; c.push_back(t); }
    I128 p[] = { 46341, 46340, 65537, 2147483629, 4294967291LL, 3037000499LL, 3037000500LL };
    for (I128 q : p) c.push_back(q);
    for (I128 q : c) for (int d = -nb; d <= nb; d++) { v.push_back(q + d); v.push_back(-q + d); }
    v.push_back((I128)std::numeric_limits<T>::min());
  }
  clean(v);
  std::vector<T> r; for (I128 q : v) if (fits<T>(q)) r.push_back((T)q);
  return r;
}

// run F<T>::go(e, ...) for every listed integral type
#define MC_FOR_INT(F, ARG) F<signed char>(ARG); F<unsigned char>(ARG); F<short>(ARG); F<unsigned short>(ARG); F<int>(ARG); F<unsigned>(ARG); F<long>(ARG); F<unsigned long>(ARG); F<long long>(ARG); F<unsigned long long>(ARG);
#define MC_FOR_FLT(F, ARG) F<float>(ARG); F<double>(ARG); F<L>(ARG);
} // namespace mc

#define MC_MAIN(...) MC_MAIN_DEFS int main(int argc, char** argv) { mc::Engine e; e.args(argc, argv); __VA_ARGS__; return e.go(); }
#endif
