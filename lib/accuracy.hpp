// Judging one answer of the library against the reference model.
#ifndef MC_ACCURACY_HPP
#define MC_ACCURACY_HPP
#include "spaces.hpp"

namespace mc {

template<class T, class O> struct Judge {
  // err/tol; > 1 is a violation.  r is the model's answer, tol an absolute tolerance.
  static double ratio(T g, O r, O tol) {
    typedef std::numeric_limits<T> N;
    if (onan(r)) return g != g ? 0 : HUGE_VAL;
    if (g != g) return HUGE_VAL;
    O mx = (O)N::max();
    if (std::isinf(g)) {
      if ((g > 0) != (r > 0)) return HUGE_VAL;
      return oabs(r) + tol >= mx ? 0 : HUGE_VAL;
    }
    if (oinf(r)) return HUGE_VAL;
    O e = oabs((O)g - r);
    if (e == 0) return 0;
    if (tol == 0) return HUGE_VAL;
    return (double)(e / tol);
  }
};

template<class T> inline void note_output(Worker& w, T g) { if (g != g) w.nan_out++; else if (std::isinf(g)) w.inf_out++; }
inline void note_ratio(Worker& w, double q, uint64_t i) { if (!w.worst_set || q > w.worst) { if (q < 1e290) { w.worst = q; w.worst_i = i; w.worst_set = true; } } }

// One-argument accuracy obligation.
//   F::call(T) -> library, F::ref(O) -> model, F::dom(T), F::tol(T x, O r, O eps) absolute tolerance
template<class F, class T> void accuracy1(Engine& e, const std::string& tag, const Space<T>& s) {
  typedef typename OT<T>::type O;
  std::string name = std::string(F::name()) + "<" + TN<T>::n() + ">" + tag;
  e.add(name, s.size(), [s](uint64_t i, Worker& w) {
    T x = s.at(i);
    if (!F::dom(x)) { w.outside++; return; }
    w.states++;
    T g = F::call(x); w.calls++;
    note_output(w, g);
    O r = F::ref((O)x); w.validated++;
    O eps = (O)std::numeric_limits<T>::epsilon();
    O tol = F::tol(x, r, eps);
    double q = Judge<T, O>::ratio(g, r, tol);
    note_ratio(w, q, i);
    if (w.sampling || (q > 1)) w.fail(i, std::string(F::name()) + "(" + show(x) + ") = " + show(g) + ", model " + show(r) + ", error/tolerance " + std::to_string(q));
  });
}
template<class F> void accuracy1_all(Engine& e, int lvl = 1) {
  accuracy1<F, float>(e, "", Std<float>::make(e, lvl));
  accuracy1<F, double>(e, "", Std<double>::make(e, lvl));
  accuracy1<F, L>(e, "", Std<L>::make(e, lvl));
}

// Two-argument accuracy obligation over a full product of two spaces.
template<class F, class T> void accuracy2(Engine& e, const std::string& tag, const std::vector<T>& A, const std::vector<T>& B) {
  typedef typename OT<T>::type O;
  std::string name = std::string(F::name()) + "<" + TN<T>::n() + ">" + tag;
  std::shared_ptr<std::vector<T>> a(new std::vector<T>(A)), b(new std::vector<T>(B));
  uint64_t nb = b->size();
  e.add(name, (uint64_t)a->size() * nb, [a, b, nb](uint64_t i, Worker& w) {
    T x = (*a)[i / nb], y = (*b)[i % nb];
    if (!F::dom(x, y)) { w.outside++; return; }
    w.states++;
    T g = F::call(x, y); w.calls++;
    note_output(w, g);
    O r = F::ref((O)x, (O)y); w.validated++;
    O eps = (O)std::numeric_limits<T>::epsilon();
    O tol = F::tol(x, y, r, eps);
    double q = Judge<T, O>::ratio(g, r, tol);
    note_ratio(w, q, i);
    if (w.sampling || (q > 1)) w.fail(i, std::string(F::name()) + "(" + show(x) + ", " + show(y) + ") = " + show(g) + ", model " + show(r) + ", error/tolerance " + std::to_string(q));
  });
}

} // namespace mc
#endif
