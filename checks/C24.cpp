// pow with a real exponent, fmod
#include "realmain.hpp"
using namespace mc;
template<class T> void pw(Engine& e) {
  std::vector<T> a = vals2<T>(e, -10, 10, e.thorough ? 7 : 4, 40), b = vals2<T>(e, -8, 6, e.thorough ? 7 : 4, 60), w = wide2<T>(e);
  accuracy2<Fpow, T>(e, "", a, b); accuracy2<Fpow, T>(e, " wide base", w, b); accuracy2<Fpow, T>(e, " wide", w, w);
  std::vector<T> n1; for (int u = -200; u <= 200; u++) n1.push_back(bump<T>(T(1), u)); accuracy2<Fpow, T>(e, " base next to one", n1, w);
}
// fmod against an exact rational model: x = n*y + g with integer n, |g| < |y|, sign of x
template<class T> struct FQ { static Q rem(T x, T y) { return fmodq((Q)x, (Q)y); } };
template<class T> void fm(Engine& e, const char* tag, const std::vector<T>& A, const std::vector<T>& B) {
  std::shared_ptr<std::vector<T>> a(new std::vector<T>(A)), b(new std::vector<T>(B)); uint64_t nb = b->size();
  e.add(std::string("fmod<") + TN<T>::n() + ">" + tag, a->size() * nb, [a, b, nb](uint64_t i, Worker& w) {
    T x = (*a)[i / nb], y = (*b)[i % nb]; T ax = std::fabs(x), ay = std::fabs(y), eps = std::numeric_limits<T>::epsilon();
    bool ex;  // exact case: both integers that T represents exactly with an exact quotient
    if (x != x || y != y || std::isinf(x) || y == 0) { w.states++; w.calls++; w.validated++; T g = gcem::fmod(x, y); if (w.sampling || (g == g)) w.fail(i, "fmod(" + show(x) + ", " + show(y) + ") = " + show(g) + ", must be NaN"); return; }
    if (std::isinf(y)) { w.states++; w.calls++; w.validated++; T g = gcem::fmod(x, y); if (w.sampling || (!(g == x))) w.fail(i, "fmod(" + show(x) + ", " + show(y) + ") = " + show(g)); return; }
    if (!normal_or_zero(x) || ax > std::numeric_limits<T>::max() / 2 || !normal_or_zero(y) || (L)ax / (L)ay > 0.5L / eps || (ax > 0 && (L)ax / (L)ay < (L)std::numeric_limits<T>::min()) || (L)ay < 4 * (L)std::numeric_limits<T>::min() / eps) { w.outside++; return; }
    w.states++; w.calls++; w.validated++;
    T g = gcem::fmod(x, y);
    Q Y = fabsq((Q)y), r = fabsq(fmodq((Q)x, (Q)y)), d, G = x < 0 ? -(Q)g : (Q)g;
    d = fabsq(G - r); if (fabsq(d - Y) < d) d = fabsq(d - Y);           // congruent modulo y
    Q tol = 2 * (Q)eps * (Q)ax;
    ex = x == std::floor(x) && y == std::floor(y) && ax < 1 / eps && ay < 1 / eps;
    if (ex) { tol = 0; d = fabsq(G - r); }
    double q = tol == 0 ? (d == 0 ? 0 : HUGE_VAL) : (double)(d / tol);
    if (g != g || G > Y + tol || G < -tol) q = HUGE_VAL;
    note_ratio(w, q, i);
    if (w.sampling || (!(q <= 1))) w.fail(i, "fmod(" + show(x) + ", " + show(y) + ") = " + show(g) + ", model " + show(fmodq((Q)x, (Q)y)));
  });
}
template<class T> void fms(Engine& e) {
  std::vector<T> a = vals2<T>(e, -12, 14, e.thorough ? 6 : 3, 60), w = wide2<T>(e); fm<T>(e, "", a, a); fm<T>(e, " wide", w, w);
  std::vector<T> n; for (int k = -(e.thorough ? 2000 : 400); k <= (e.thorough ? 2000 : 400); k++) n.push_back(k); fm<T>(e, " integers", n, n);
}
MC_MAIN(MC_FOR_FLT(pw, e); MC_FOR_FLT(fms, e))
