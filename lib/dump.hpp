#ifndef MC_DUMP_HPP
#define MC_DUMP_HPP
// Self-contained (only C++11 strict features): enumerates calls and digests the answers.
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <string>
#include <thread>
#include <atomic>
#include <vector>
typedef long double L;
namespace dump {
template<class T> T nxt(T x, int k) { T inf = std::numeric_limits<T>::infinity(); for (; k > 0; k--) x = std::nextafter(x, inf); for (; k < 0; k++) x = std::nextafter(x, -inf); return x; }
inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; return h; }
template<class T> uint64_t dig(uint64_t h, T v) { unsigned char b[16]; std::memset(b, 0, 16); if (v != v) v = std::numeric_limits<T>::quiet_NaN(); if (v != v) { b[0] = 0x7f; } else if (v == 0) { b[0] = 0; } else std::memcpy(b, &v, sizeof(T) == 16 ? 10 : sizeof(T)); uint64_t p, q; std::memcpy(&p, b, 8); std::memcpy(&q, b + 8, 8); return mix(mix(h, p), q); }
template<class T> std::string str(T v) { char b[100]; std::snprintf(b, sizeof b, "%.21Lg(%La)", (L)v, (L)v); return v != v ? "nan" : v == 0 ? "0" : b; }
template<class T> struct Nm; template<> struct Nm<float> { static const char* n() { return "float"; } }; template<> struct Nm<double> { static const char* n() { return "double"; } }; template<> struct Nm<L> { static const char* n() { return "long double"; } };
struct Ob { std::string name; uint64_t n; std::function<uint64_t(uint64_t, uint64_t)> digest; std::function<std::string(uint64_t)> text; };
struct All { std::vector<Ob> v; std::vector<L> lm; bool thorough; };
template<class T> std::vector<T> vals(const All& a, int e0, int e1, int mb, bool neg) {
  std::vector<T> v; T one = 1; typedef std::numeric_limits<T> N;
  T s[] = { T(0), N::min(), N::epsilon(), N::max(), N::infinity(), N::quiet_NaN() }; for (T x : s) v.push_back(x);
  for (L c : a.lm) { T x = (T)c; if (x == x && std::fabs(x) <= N::max()) for (int d = -2; d <= 2; d++) v.push_back(nxt<T>(x, d)); }
  for (int k = 0; k <= 240; k++) v.push_back(T(k) / 4);
  for (int e = e0; e <= e1; e++) for (int m = 0; m < (1 << mb); m++) v.push_back(std::ldexp(one + (T)m / (T)(1 << mb) + (T)(m % 3) / (T)(1 << (mb + 3)), e));
  if (neg) { std::vector<T> w; for (T x : v) { w.push_back(x); w.push_back(-x); } v.swap(w); }
  return v;
}
template<class T> void one(All& a, const char* nm, T (*f)(T), const std::vector<T>& v) { std::string n = std::string(nm) + "<" + Nm<T>::n() + ">";
  a.v.push_back(Ob{ n, v.size(), [f, v](uint64_t lo, uint64_t hi) { uint64_t h = 1; for (uint64_t i = lo; i < hi; i++) h = dig<T>(h, f(v[i])); return h; }, [f, v, nm](uint64_t i) { return std::string(nm) + "(" + str(v[i]) + ") = " + str(f(v[i])); } }); }
template<class T> void two(All& a, const char* nm, T (*f)(T, T), const std::vector<T>& v, const std::vector<T>& u) { std::string n = std::string(nm) + "<" + Nm<T>::n() + ">"; uint64_t m = u.size();
  a.v.push_back(Ob{ n, v.size() * m, [f, v, u, m](uint64_t lo, uint64_t hi) { uint64_t h = 1; for (uint64_t i = lo; i < hi; i++) h = dig<T>(h, f(v[i / m], u[i % m])); return h; }, [f, v, u, m, nm](uint64_t i) { return std::string(nm) + "(" + str(v[i / m]) + ", " + str(u[i % m]) + ") = " + str(f(v[i / m], u[i % m])); } }); }
#define G1(F) template<class T> T w_##F(T x) { return gcem::F(x); }
#define G2(F) template<class T> T w_##F(T x, T y) { return gcem::F(x, y); }
G1(abs) G1(acos) G1(acosh) G1(asin) G1(asinh) G1(atan) G1(atanh) G1(ceil) G1(cos) G1(cosh) G1(erf) G1(erf_inv) G1(exp) G1(expm1) G1(floor) G1(inv_sqrt) G1(lgamma) G1(log) G1(log10) G1(log1p) G1(log2) G1(round) G1(sgn) G1(sin) G1(sinh) G1(sqrt) G1(tan) G1(tanh) G1(tgamma) G1(trunc) G1(factorial) G1(signbit)
G2(atan2) G2(hypot) G2(pow) G2(fmod) G2(beta) G2(lbeta) G2(max) G2(min) G2(copysign) G2(incomplete_gamma) G2(incomplete_gamma_inv) G2(log_binomial_coef)
template<class T> T w_powi(T x, T y) { return gcem::pow(x, (int)y); }
template<class T> T w_powu(T x, T y) { return gcem::pow(x, (unsigned long long)y); }
template<class T> T w_gcd(T x, T y) { return (T)gcem::gcd((long long)x, (long long)y); }
template<class T> T w_lcm(T x, T y) { return (T)gcem::lcm((long long)x, (long long)y); }
template<class T> T w_ipow(T x, T y) { return (T)gcem::pow((long long)x, (long long)y); }
template<class T> T w_binom(T x, T y) { return (T)gcem::binomial_coef((long long)x, (long long)y); }
template<class T> T w_ifac(T x) { return (T)gcem::factorial((long long)x); }
template<class T> T w_lmgamma(T x, T y) { return gcem::lmgamma(x, (int)y); }
template<class T> void build(All& a) {
  int E = sizeof(T) == 4 ? 127 : sizeof(T) == 8 ? 1023 : 1100; std::vector<T> f = vals<T>(a, -E + 1, E, a.thorough ? 6 : 3, true), d = vals<T>(a, -14, 10, a.thorough ? 11 : 8, true), g = d; g.insert(g.end(), f.begin(), f.end());
#define O(F) one<T>(a, #F, w_##F<T>, g);
  O(abs) O(acos) O(acosh) O(asin) O(asinh) O(atan) O(atanh) O(ceil) O(cos) O(cosh) O(erf) O(exp) O(expm1) O(floor) O(inv_sqrt) O(lgamma) O(log) O(log10) O(log1p) O(log2) O(round) O(sgn) O(sin) O(sinh) O(sqrt) O(tan) O(tanh) O(tgamma) O(trunc) O(signbit)
#undef O
  one<T>(a, "erf_inv", w_erf_inv<T>, d);
  { std::vector<T> v; for (int k = 0; k < 200; k++) v.push_back(T(k) / 4); one<T>(a, "factorial", w_factorial<T>, v); std::vector<T> n; for (int k = 0; k <= 20; k++) n.push_back(k); one<T>(a, "factorial(integer)", w_ifac<T>, n); }
  std::vector<T> s = vals<T>(a, -10, 8, 2, true), sp; for (T x : s) if (!(x < 0)) sp.push_back(x);
#define W(F) two<T>(a, #F, w_##F<T>, s, s);
  W(atan2) W(hypot) W(pow) W(fmod) W(max) W(min) W(copysign)
#undef W
  std::vector<T> ab; for (int k = 1; k < (a.thorough ? 120 : 40); k++) { ab.push_back(T(k) / 4); ab.push_back(T(k * k) / 3); } for (L c : a.lm) if (c > 0.01L && c < 300) ab.push_back((T)c);
  two<T>(a, "beta", w_beta<T>, ab, ab); two<T>(a, "lbeta", w_lbeta<T>, ab, ab); two<T>(a, "incomplete_gamma", w_incomplete_gamma<T>, ab, ab);
  std::vector<T> p; for (int k = 1; k < (a.thorough ? 100 : 20); k++) p.push_back(T(k) / (a.thorough ? 100 : 20)); p.push_back(T(0)); p.push_back(T(1)); p.push_back(T(2));
  { std::vector<T> q; for (T x : ab) if (x >= T(0.5) && x <= 100) q.push_back(x); two<T>(a, "incomplete_gamma_inv", w_incomplete_gamma_inv<T>, q, p); }
  std::vector<T> nn, n10, ni; for (int k = 0; k <= 60; k++) nn.push_back(k); for (int k = 0; k <= 16; k++) n10.push_back(k); for (int k = -40; k <= 40; k++) ni.push_back(k);
  { std::vector<T> m; for (T x : nn) for (T y : nn) if (y <= x) { m.push_back(x); (void)y; } two<T>(a, "log_binomial_coef", w_log_binomial_coef<T>, nn, std::vector<T>(1, T(0))); for (int k = 1; k < 20; k++) { std::vector<T> b; for (int n = k; n < 60; n++) b.push_back(n); two<T>(a, (k % 2 ? "log_binomial_coef odd" : "log_binomial_coef even"), w_log_binomial_coef<T>, b, std::vector<T>(1, T(k))); } }
  two<T>(a, "pow(real,int)", w_powi<T>, s, ni); two<T>(a, "pow(real,unsigned)", w_powu<T>, s, nn); two<T>(a, "binomial_coef(integer)", w_binom<T>, n10, n10);
  { std::vector<T> gg; for (int k = -60; k <= 60; k++) gg.push_back(k); T x1 = 1, x2 = 1; for (int k = 0; k < 30; k++) { T t = x1 + x2; x1 = x2; x2 = t; if (x2 < 8e6) { gg.push_back(x2); gg.push_back(-x2); } } two<T>(a, "gcd", w_gcd<T>, gg, gg); two<T>(a, "lcm", w_lcm<T>, gg, gg); }
  { std::vector<T> b, x; for (int k = -9; k <= 9; k++) if (k) b.push_back(k); for (int k = 0; k <= 19; k++) x.push_back(k); two<T>(a, "pow(integer,integer)", w_ipow<T>, b, x); }
  { std::vector<T> b, x; for (int k = 0; k < 60; k++) b.push_back(T(10) + T(k) / 3); for (int k = 0; k <= 12; k++) x.push_back(k); two<T>(a, "lmgamma", w_lmgamma<T>, b, x); }
  { std::vector<T> q; T c[] = { T(0.3L), T(0.5), T(0.9L), T(1), T(1.5), T(2), T(3), T(7), T(20), T(51), T(100) }; for (T x : c) q.push_back(x); uint64_t n = q.size(), m = p.size();
    for (int inv = 0; inv < 2; inv++) { auto call = [q, p, n, m, inv](uint64_t i) { T x = q[i / m / n], y = q[(i / m) % n], z = p[i % m]; if (z > 1) z = T(0.999L); return inv ? gcem::incomplete_beta_inv(x, y, z) : gcem::incomplete_beta(x, y, z); };
      a.v.push_back(Ob{ std::string(inv ? "incomplete_beta_inv<" : "incomplete_beta<") + Nm<T>::n() + ">", n * n * m, [call](uint64_t lo, uint64_t hi) { uint64_t h = 1; for (uint64_t i = lo; i < hi; i++) h = dig<T>(h, call(i)); return h; }, [call, q, p, n, m, inv](uint64_t i) { return std::string(inv ? "incomplete_beta_inv(" : "incomplete_beta(") + str(q[i / m / n]) + ", " + str(q[(i / m) % n]) + ", " + str(p[i % m]) + ") = " + str(call(i)); } }); } }
}
} // namespace dump
// usage: prog LANDMARKS OUT quick|thorough   |   prog LANDMARKS - quick|thorough OB LO HI (prints the answers)
int main(int c, char** v) {
  if (c < 4) return 2;
  dump::All a; a.thorough = std::string(v[3]) == "thorough"; FILE* f = std::fopen(v[1], "r"); if (!f) return 2; char b[256]; while (std::fgets(b, sizeof b, f)) a.lm.push_back(std::strtold(b, 0)); std::fclose(f);
  dump::build<float>(a); dump::build<double>(a); dump::build<L>(a);
  if (c > 6) { size_t o = std::strtoull(v[4], 0, 10); uint64_t lo = std::strtoull(v[5], 0, 10), hi = std::strtoull(v[6], 0, 10); for (uint64_t i = lo; i < hi && i < a.v[o].n; i++) std::printf("%llu\t%s\n", (unsigned long long)i, a.v[o].text(i).c_str()); return 0; }
  const uint64_t B = 256; struct It { size_t o; uint64_t lo; }; std::vector<It> it; for (size_t o = 0; o < a.v.size(); o++) for (uint64_t lo = 0; lo < a.v[o].n; lo += B) it.push_back(It{ o, lo });
  std::vector<uint64_t> r(it.size()); std::atomic<size_t> nx(0); std::vector<std::thread> th; unsigned nt = std::thread::hardware_concurrency(); if (nt < 1) nt = 4;
  for (unsigned t = 0; t < nt; t++) th.emplace_back([&] { for (;;) { size_t k = nx.fetch_add(1); if (k >= it.size()) return; dump::Ob& o = a.v[it[k].o]; uint64_t hi = it[k].lo + B; if (hi > o.n) hi = o.n; r[k] = o.digest(it[k].lo, hi); } });
  for (auto& t : th) t.join();
  f = std::fopen(v[2], "w"); if (!f) return 2; for (size_t k = 0; k < it.size(); k++) std::fprintf(f, "%zu %llu %llu %016llx %s\n", it[k].o, (unsigned long long)it[k].lo, (unsigned long long)a.v[it[k].o].n, (unsigned long long)r[k], a.v[it[k].o].name.c_str()); std::fclose(f); return 0;
}
#endif
