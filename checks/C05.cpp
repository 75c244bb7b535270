// pow with an integral exponent: exact for integral bases, accurate for floating ones
#include "ints.hpp"
#include "accuracy.hpp"
#include "gcem.hpp"
using namespace mc;

// base^n for n >= 0, or ok=false on overflow of 126 bits
inline bool ipow(I128 b, unsigned __int128 n, I128& r) {
  r = 1; I128 lim = (I128)1 << 100;
  if (b == 0) { r = n == 0; return true; }
  if (b == 1) return true;
  if (b == -1) { r = (n & 1) ? -1 : 1; return true; }
  if (n > 100) return false;
  for (unsigned i = 0; i < (unsigned)n; i++) { r *= b; if (r > lim || r < -lim) return false; }
  return true;
}
template<class N> std::vector<N> exps(const Engine& e) { std::vector<N> v = int_alphabet<N>(e, e.thorough ? 300 : 140, 1); return v; }

template<class B, class N> void ii(Engine& e) {
  typedef typename std::common_type<B, N>::type C;
  std::shared_ptr<std::vector<B>> b(new std::vector<B>(int_alphabet<B>(e, e.thorough ? 1500 : 130, 1))); std::shared_ptr<std::vector<N>> n(new std::vector<N>(exps<N>(e)));
  e.add(std::string("pow<") + TN<B>::n() + "," + TN<N>::n() + ">", b->size() * n->size(), [b, n](uint64_t i, Worker& w) {
    B x = (*b)[i / n->size()]; N y = (*n)[i % n->size()];
    I128 r; I128 Y = (I128)y;
    if (!fits<C>((I128)x)) { w.outside++; return; }
    if (Y < 0) { if (x == 0) { w.outside++; return; } r = (I128)x == 1 ? 1 : (I128)x == -1 ? (Y % 2 ? -1 : 1) : 0; }   // the quotient 1/x^|y|, truncated: representable even where x^|y| is not
    else if (!ipow((I128)x, Y, r) || !fits<C>(r)) { w.outside++; return; }
    w.states++; w.calls++; w.validated++;
    static_assert(std::is_same<decltype(gcem::pow(x, y)), C>::value, "pow returns the common type");
    C g = gcem::pow(x, y);
    if (w.sampling || ((I128)g != r)) w.fail(i, "pow(" + show(x) + ", " + show(y) + ") = " + show(g) + ", must be " + show128(r));
  });
}
template<class O> struct RP { static O p(O x, O y) { return powl(x, y); } };
template<> struct RP<Q> { static Q p(Q x, Q y) { return powq(x, y); } };
template<class B, class N> void fi(Engine& e) {
  typedef typename std::common_type<B, N>::type C; typedef typename OT<C>::type O;
  std::vector<B> v = specials<B>(), a = landmarks<B>(e, 1, false), h = halves<B>(30, 1);
  v.insert(v.end(), a.begin(), a.end()); v.insert(v.end(), h.begin(), h.end());
  Grid<B> g1 = grid_exp<B>(-6, 6, e.thorough ? 9 : 5), g2 = grid_exp<B>(-130, 130, e.thorough ? 2 : 0);
  for (uint64_t i = 0; i < g1.size(); i++) v.push_back(g1.at(i));
  for (uint64_t i = 0; i < g2.size(); i++) v.push_back(g2.at(i));
  uniq(v);
  std::shared_ptr<std::vector<B>> b(new std::vector<B>(v)); std::shared_ptr<std::vector<N>> n(new std::vector<N>(int_alphabet<N>(e, e.thorough ? 400 : 70, 1)));
  e.add(std::string("pow<") + TN<B>::n() + "," + TN<N>::n() + ">", b->size() * n->size(), [b, n](uint64_t i, Worker& w) {
    B x = (*b)[i / n->size()]; N y = (*n)[i % n->size()];
    w.states++; w.calls++; w.validated++;
    static_assert(std::is_same<decltype(gcem::pow(x, y)), C>::value, "pow returns the common type");
    C g = gcem::pow(x, y);
    if (x != x) { if (w.sampling || (y == 0 ? !(g == 1) : (g == g))) w.fail(i, "pow(nan, " + show(y) + ") = " + show(g)); return; }
    // very large exponents: sign and limit behaviour only
    O r = RP<O>::p((O)x, (O)y); note_output(w, g);
    if (std::isinf(x) && y != 0) { O want = y < 0 ? O(0) : (x < 0 && y % 2 != 0) ? -(O)HUGE_VALQ : (O)HUGE_VALQ; if (w.sampling || (!((O)g == want))) w.fail(i, "pow(" + show(x) + ", " + show(y) + ") = " + show(g)); return; }
    O ay = y < 0 ? -(O)y : (O)y;
    O eps = (O)std::numeric_limits<C>::epsilon(), mn = (O)std::numeric_limits<C>::min(), mx = (O)std::numeric_limits<C>::max();
    if (std::fabs(x) == 1) { if (w.sampling || (!((O)g == ((y % 2 == 0 || x > 0) ? 1 : -1)))) w.fail(i, "pow(" + show(x) + ", " + show(y) + ") = " + show(g)); return; }
    O k = (8 + 2 * ay) * eps;
    if (k > O(0.01)) { // too many roundings for a bound: overflow / underflow must still be right when it is clear cut
      O t = x == 0 || std::isinf(x) ? 0 : (O)logq(fabsq((Q)x)) * (O)y, big = (O)logq((Q)mx);
      if (x == 0 || std::isinf(x)) { /* exact limits below */ }
      else if (t > 2 * big) { if (w.sampling || (!std::isinf(g) || ((g < 0) != (x < 0 && y % 2 != 0)))) w.fail(i, "pow(" + show(x) + ", " + show(y) + ") = " + show(g) + ", must overflow"); return; }
      else if (t < -2 * big) { if (w.sampling || (!(oabs((O)g) <= mn))) w.fail(i, "pow(" + show(x) + ", " + show(y) + ") = " + show(g) + ", must underflow"); return; }
      else { w.outside++; return; }
    }
    O tol = k * oabs(r) + 8 * mn;
    if (oabs(r) > mx * (1 - 2 * k) && !oinf(r)) tol = oabs(r);          // on the verge of overflow either answer is accepted
    if (oabs(r) > mx && !oinf(r)) r = r > 0 ? (O)HUGE_VALQ : -(O)HUGE_VALQ;
    double q = (std::isinf(g) && oinf(r) && ((g > 0) == (r > 0))) ? 0 : Judge<C, O>::ratio(g, r, tol);
    if (oinf(r) && !std::isinf(g) && tol > 0 && oabs((O)g) > mx / 2) q = 0;
    note_ratio(w, q, i);
    if (w.sampling || (q > 1)) w.fail(i, "pow(" + show(x) + ", " + show(y) + ") = " + show(g) + ", model " + show(r));
  });
}
template<class B> void row(Engine& e) { ii<B, bool>(e); ii<B, signed char>(e); ii<B, unsigned char>(e); ii<B, short>(e); ii<B, int>(e); ii<B, unsigned>(e); ii<B, long long>(e); ii<B, unsigned long long>(e); }
template<class B> void frow(Engine& e) { fi<B, bool>(e); fi<B, signed char>(e); fi<B, unsigned char>(e); fi<B, short>(e); fi<B, int>(e); fi<B, unsigned>(e); fi<B, long long>(e); fi<B, unsigned long long>(e); }
MC_MAIN(row<signed char>(e); row<unsigned char>(e); row<short>(e); row<int>(e); row<unsigned>(e); row<long>(e); row<long long>(e); row<unsigned long long>(e); MC_FOR_FLT(frow, e))
