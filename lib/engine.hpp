// Bounded-exhaustive exploration engine (gnu++11 and later).
//
// A check registers "obligations".  An obligation is a finite, indexable space of input
// tuples of the *real* library functions (all of it is enumerated, nothing is sampled) plus
// a step that calls the library on tuple number i and compares every answer with a reference
// model.  The engine explores all obligations on all cores, survives crashes and hangs of
// the code under test (they are violations too), and writes one JSON result.
#ifndef MC_ENGINE_HPP
#define MC_ENGINE_HPP

#include <atomic>
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <string>
#include <thread>
#include <type_traits>
#include <vector>
#include <pthread.h>
#include <time.h>
#include <unistd.h>
#include <quadmath.h>

typedef __float128 Q;
typedef long double L;

namespace mc {

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

// ------------------------------------------------------------------ printing
inline std::string hexld(L x) { char b[80]; snprintf(b, sizeof b, "%.21Lg", x); return b; }
template<class T> struct Show { static std::string s(T v) { return std::is_signed<T>::value ? std::to_string((long long)v) : std::to_string((unsigned long long)v); } };
template<> struct Show<bool> { static std::string s(bool v) { return v ? "true" : "false"; } };
template<> struct Show<float> { static std::string s(float v) { char b[96]; snprintf(b, sizeof b, "%.9g(%a)", (double)v, (double)v); return b; } };
template<> struct Show<double> { static std::string s(double v) { char b[96]; snprintf(b, sizeof b, "%.17g(%a)", v, v); return b; } };
template<> struct Show<L> { static std::string s(L v) { char b[120]; snprintf(b, sizeof b, "%.21Lg(%La)", v, v); return b; } };
template<> struct Show<Q> { static std::string s(Q v) { char b[120]; quadmath_snprintf(b, sizeof b, "%.30Qg", v); return b; } };
template<class T> std::string show(T v) { return Show<T>::s(v); }

template<class T> struct TN { static const char* n() { return "?"; } };
#define MC_TN(T, s) template<> struct TN<T> { static const char* n() { return s; } };
MC_TN(float, "float") MC_TN(double, "double") MC_TN(L, "long double") MC_TN(signed char, "signed char")
MC_TN(unsigned char, "unsigned char") MC_TN(char, "char") MC_TN(short, "short") MC_TN(unsigned short, "unsigned short") MC_TN(int, "int")
MC_TN(unsigned, "unsigned") MC_TN(long, "long") MC_TN(unsigned long, "unsigned long") MC_TN(long long, "long long")
MC_TN(unsigned long long, "unsigned long long") MC_TN(bool, "bool")

// oracle type: float and double are judged in long double, long double in binary128
template<class T> struct OT { typedef L type; };
template<> struct OT<L> { typedef Q type; };
inline L oabs(L x) { return fabsl(x); }
inline Q oabs(Q x) { return fabsq(x); }
inline bool onan(L x) { return x != x; }
inline bool onan(Q x) { return x != x; }
inline bool oinf(L x) { return std::isinf(x); }
inline bool oinf(Q x) { return isinfq(x); }

// ------------------------------------------------------------------ engine
struct Violation { uint64_t index; std::string what; };

struct Worker;
struct Obligation {
  std::string name;
  uint64_t n;            // number of tuples
  uint64_t chunk;
  std::function<void(uint64_t, uint64_t, Worker&)> run;  // [lo,hi)
  // results
  std::atomic<uint64_t> states, calls, validated, outside, nan_out, inf_out, nviol, done;
  double worst; std::string worst_at;
  std::vector<Violation> viols;
  std::vector<std::string> samples;
  pthread_mutex_t mu;
  Obligation() : n(0), chunk(4096), states(0), calls(0), validated(0), outside(0), nan_out(0), inf_out(0), nviol(0), done(0), worst(0) { pthread_mutex_init(&mu, 0); }
};

struct Worker {
  // what this worker is evaluating right now (read by the crash handler / the watchdog)
  Obligation* volatile ob; volatile uint64_t idx; volatile uint64_t beat; volatile bool busy;
  // local accumulation, flushed per chunk
  uint64_t states, calls, validated, outside, nan_out, inf_out;
  double worst; uint64_t worst_i; bool worst_set;
  sigjmp_buf jb; volatile bool armed; bool sampling; std::string sample;
  Worker() : ob(0), idx(0), beat(0), busy(false), armed(false), sampling(false) { reset(); }
  void reset() { states = calls = validated = outside = nan_out = inf_out = 0; worst = -1; worst_i = 0; worst_set = false; }
  void fail(uint64_t i, const std::string& what) {
    if (sampling) { if (sample.empty()) sample = what; return; }
    Obligation* o = ob;
    uint64_t k = o->nviol.fetch_add(1);
    pthread_mutex_lock(&o->mu);
    if (o->viols.size() < 64) o->viols.push_back(Violation{ i, what });
    else if (k > 64) { size_t m = 0; for (size_t j = 1; j < o->viols.size(); j++) if (o->viols[j].index > o->viols[m].index) m = j; if (i < o->viols[m].index) o->viols[m] = Violation{ i, what }; }
    pthread_mutex_unlock(&o->mu);
  }
};

extern thread_local Worker* tl_worker;
inline const char* signame(int s) { return s == SIGSEGV ? "SIGSEGV (stack overflow or bad memory access)" : s == SIGFPE ? "SIGFPE (integer division by zero or overflow)" : s == SIGILL ? "SIGILL" : s == SIGBUS ? "SIGBUS" : s == SIGABRT ? "SIGABRT" : "signal"; }

struct Engine {
  std::vector<std::unique_ptr<Obligation>> obs;
  int nthreads; bool thorough; std::string out; std::vector<L> landmarks; std::string only; bool profile;
  double deadline, hang_s; bool capped;
  std::string replay_name; uint64_t replay_i; bool replaying;
  static Engine*& inst() { static Engine* e = 0; return e; }

  Engine() : nthreads(8), thorough(false), profile(false), deadline(0), hang_s(25), capped(false), replay_i(0), replaying(false) { inst() = this; }

  void args(int c, char** v) {
    long nc = sysconf(_SC_NPROCESSORS_ONLN); nthreads = nc > 0 ? (int)std::min(nc, 16L) : 8;
    double budget = 600;
    for (int i = 1; i < c; i++) {
      std::string a = v[i];
      if (a == "--thorough") thorough = true;
      else if (a == "--profile") profile = true;
      else if (a == "--out") out = v[++i];
      else if (a == "--only") only = v[++i];
      else if (a == "--threads") nthreads = atoi(v[++i]);
      else if (a == "--budget") budget = atof(v[++i]);
      else if (a == "--hang") hang_s = atof(v[++i]);
      else if (a == "--replay") { replaying = true; replay_name = v[++i]; replay_i = strtoull(v[++i], 0, 10); }
      else if (a == "--landmarks") { FILE* f = fopen(v[++i], "r"); if (!f) { perror("landmarks"); exit(2); } char b[256]; while (fgets(b, sizeof b, f)) { L x = strtold(b, 0); landmarks.push_back(x); } fclose(f); }
      else { fprintf(stderr, "unknown argument %s\n", v[i]); exit(2); }
    }
    deadline = now() + budget;
  }

  // step(i, worker): evaluates tuple i
  template<class Step> void add(const std::string& name, uint64_t n, Step step, uint64_t chunk = 4096) {
    if (n == 0) { fprintf(stderr, "empty obligation %s\n", name.c_str()); exit(2); }
    if (!only.empty() && name.find(only) == std::string::npos) return;
    std::unique_ptr<Obligation> o(new Obligation);
    o->name = name; o->n = n; o->chunk = std::max<uint64_t>(1, std::min<uint64_t>(chunk, n / 64 + 1));
    o->run = [step](uint64_t lo, uint64_t hi, Worker& w) {
      for (uint64_t i = lo; i < hi; i++) { w.idx = i; w.beat = w.beat + 1; step(i, w); }
    };
    obs.push_back(std::move(o));
  }

  std::atomic<size_t> cur_ob; std::atomic<uint64_t> next_chunk;
  struct Item { Obligation* o; uint64_t lo, hi; };
  std::vector<Item> items; std::atomic<size_t> next_item; std::atomic<bool> stop;
  std::vector<std::unique_ptr<Worker>> workers;

  void run_range(Worker& w, Obligation* o, uint64_t lo, uint64_t hi) {
    uint64_t i = lo;
    while (i < hi) {
      w.reset(); w.ob = o; w.idx = i; w.busy = true;
      int sig = sigsetjmp(w.jb, 1);
      if (sig == 0) { w.armed = true; o->run(i, hi, w); w.armed = false; i = hi; }
      else {
        uint64_t at = w.idx;
        w.fail(at, std::string("crash: ") + signame(sig) + " while evaluating this input");
        w.states++; i = at + 1;
        if (o->nviol.load() > 200) i = hi;
      }
      w.busy = false;
      o->states += w.states; o->calls += w.calls; o->validated += w.validated; o->outside += w.outside; o->nan_out += w.nan_out; o->inf_out += w.inf_out;
      if (w.worst_set) { pthread_mutex_lock(&o->mu); if (w.worst > o->worst) { o->worst = w.worst; o->worst_at = std::to_string(w.worst_i); } pthread_mutex_unlock(&o->mu); }
    }
  }

  void worker_main(int k) {
    Worker& w = *workers[k]; tl_worker = &w;
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_size = 1 << 16; ss.ss_sp = malloc(ss.ss_size); sigaltstack(&ss, 0);
    for (;;) {
      size_t t = next_item.fetch_add(1);
      if (t >= items.size() || stop) break;
      if (now() > deadline) { capped = true; break; }
      Item it = items[t];
      if (it.o->nviol.load() > 2000) { continue; }   // enough evidence for this obligation
      run_range(w, it.o, it.lo, it.hi);
      it.o->done += it.hi - it.lo;
    }
    w.busy = false;
  }

  static void handler(int s) {
    Worker* w = tl_worker;
    if (w && w->armed) { w->armed = false; siglongjmp(w->jb, s); }
    signal(s, SIG_DFL); raise(s);
  }
  static void* tmain(void* p) { std::pair<Engine*, int>* a = (std::pair<Engine*, int>*)p; a->first->worker_main(a->second); return 0; }

  static std::string esc(const std::string& s) { std::string r; for (size_t i = 0; i < s.size(); i++) { unsigned char c = s[i]; if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) r += ' '; else r += c; } return r; }

  static void* smain(void* p) { ((Engine*)p)->collect(); return 0; }
  void collect() {
    size_t k = 0, step = obs.size() > 12 ? obs.size() / 12 : 1;
    for (; k < obs.size(); k += step) {
      Obligation& o = *obs[k]; if (o.nviol.load() || o.done.load() < o.n) continue;
      Worker w; w.ob = &o; w.sampling = true;
      uint64_t i = o.worst_at.empty() ? o.n / 3 : strtoull(o.worst_at.c_str(), 0, 10);
      for (int t = 0; t < 64 && w.sample.empty() && i < o.n; t++, i++) o.run(i, i + 1, w);
      if (!w.sample.empty()) o.samples.push_back(w.sample);
    }
  }

  int finish(double t0, const std::string& hang) {
    FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
    if (!f) { perror("out"); return 2; }
    uint64_t V = 0;
    fprintf(f, "{\"capped\": %s, \"wall_s\": %.3f, \"std\": %ld, \"obligations\": [\n", capped ? "true" : "false", now() - t0, (long)__cplusplus);
    for (size_t k = 0; k < obs.size(); k++) {
      Obligation& o = *obs[k];
      std::sort(o.viols.begin(), o.viols.end(), [](const Violation& a, const Violation& b) { return a.index < b.index; });
      V += o.nviol;
      fprintf(f, "%s{\"name\": \"%s\", \"space\": %llu, \"explored\": %llu, \"states\": %llu, \"calls\": %llu, \"validated\": %llu, \"outside\": %llu, \"nan\": %llu, \"inf\": %llu, \"worst\": %.6g, \"worst_at\": \"%s\", \"nviol\": %llu, \"viols\": [",
        k ? ",\n" : "", esc(o.name).c_str(), (unsigned long long)o.n, (unsigned long long)o.done, (unsigned long long)o.states, (unsigned long long)o.calls, (unsigned long long)o.validated, (unsigned long long)o.outside,
        (unsigned long long)o.nan_out, (unsigned long long)o.inf_out, (std::isfinite(o.worst) ? o.worst : 1e300), esc(o.worst_at).c_str(), (unsigned long long)o.nviol);
      for (size_t j = 0; j < o.viols.size() && j < 64; j++) fprintf(f, "%s{\"index\": %llu, \"what\": \"%s\"}", j ? ", " : "", (unsigned long long)o.viols[j].index, esc(o.viols[j].what).c_str());
      fprintf(f, "], \"samples\": [");
      for (size_t j = 0; j < o.samples.size(); j++) fprintf(f, "%s\"%s\"", j ? ", " : "", esc(o.samples[j]).c_str());
      fprintf(f, "]}");
    }
    fprintf(f, "\n], \"violations\": %llu, \"hang\": \"%s\"}\n", (unsigned long long)V, esc(hang).c_str());
    if (f != stdout) fclose(f); else fflush(f);
    return V ? 1 : 0;
  }

  int go() {
    double t0 = now();
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = handler; sa.sa_flags = SA_ONSTACK | SA_NODEFER; sigemptyset(&sa.sa_mask);
    int sg[] = { SIGSEGV, SIGFPE, SIGILL, SIGBUS, SIGABRT };
    for (int s : sg) sigaction(s, &sa, 0);
    // (replay: one tuple only)
    for (auto& o : obs) {
      if (replaying) { if (o->name != replay_name) continue; if (replay_i >= o->n) { fprintf(stderr, "replay index out of range\n"); return 2; } items.push_back(Item{ o.get(), replay_i, replay_i + 1 }); continue; }
      for (uint64_t lo = 0; lo < o->n; lo += o->chunk) items.push_back(Item{ o.get(), lo, std::min(o->n, lo + o->chunk) });
    }
    if (replaying && items.empty()) { fprintf(stderr, "no such obligation\n"); return 2; }
    next_item = 0; stop = false;
    int nt = replaying ? 1 : nthreads;
    std::vector<pthread_t> th(nt); std::vector<std::pair<Engine*, int>> ar(nt);
    for (int i = 0; i < nt; i++) { workers.emplace_back(new Worker); }
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 64u << 20);
    for (int i = 0; i < nt; i++) { ar[i] = std::make_pair(this, i); if (pthread_create(&th[i], &at, tmain, &ar[i])) { perror("pthread_create"); return 2; } }
    // watchdog
    std::vector<uint64_t> last(nt, 0); std::vector<double> since(nt, now());
    std::atomic<bool> fin(false);
    std::thread joiner([&] { for (int i = 0; i < nt; i++) pthread_join(th[i], 0); fin = true; });
    joiner.detach();
    std::string hang;
    while (!fin) {
      usleep(20000);
      for (int i = 0; i < nt; i++) {
        Worker& w = *workers[i];
        if (!w.busy || w.beat != last[i]) { last[i] = w.beat; since[i] = now(); }
        else if (now() - since[i] > hang_s) {
          char b[128]; snprintf(b, sizeof b, "hang: no answer within %.0f s on this input", hang_s);
          w.fail(w.idx, b); hang = w.ob->name; stop = true;
          int r = finish(t0, hang); fflush(0); _exit(r);
        }
      }
    }
    // a few of the explored cases, written out
    if (!replaying) { pthread_t st; if (pthread_create(&st, &at, smain, this) == 0) pthread_join(st, 0); }
    int r = finish(t0, "");
    fflush(0); _exit(r);
  }
};

} // namespace mc

#define MC_MAIN_DEFS namespace mc { thread_local Worker* tl_worker = 0; }
#endif
