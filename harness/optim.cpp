// The real optimizer loop run on an abstract parameter and an arbitrary ("contract") solver.
// vf_* are the specification's view of the solver, the user function, the clock and the parameter update:
// external for the verifier (any behaviour allowed by their contract), scripted for native replays.
#ifdef VF_LOGS
#include "vflog.h"
#else
#include "vfmt.h"
#endif
#include <chrono>
#include <cstddef>
#include <new>
#include <tinyopt/math.h>
#include <tinyopt/cost.h>
#include <tinyopt/optimizers/optimizer.h>
#undef ostringstream
using namespace tinyopt;

struct GX { double v; };

extern "C" {
bool vf_resize(int dims);                               // may throw bad_alloc or invalid_argument
bool vf_build(const double *x, double *cost, int *n);
bool vf_solve(double *dx);
double vf_grad2();
void vf_good(double q);
void vf_bad();
void vf_failed();
void vf_rebuild(bool b);
void vf_plus(double *x, const double *d);
int vf_dims();
double vf_std();
void vf_hess(double *h);                                // Hessian accumulated by an evaluation
}

namespace tinyopt::traits {
template <>
struct params_trait<GX> {
  using Scalar = double;
  static constexpr Index Dims = Dynamic;
  static Index dims(const GX &) { return vf_dims(); }
  template <typename T2> static GX cast(const GX &x) { return x; }
  static void PlusEq(GX &x, const auto &d) {
    Vector<double, 1> e = d;
    vf_plus(&x.v, e.data());
  }
};
}  // namespace tinyopt::traits

// Solver whose answers are arbitrary
struct CSolver {
  using Scalar = double;
  static constexpr Index Dims = 1;
#if defined(VF_LOGS) || defined(VF_HESS)   // second order: log more, export a Hessian
  static constexpr bool FirstOrder = false, IsNLLS = true;
  Matrix<double, 1, 1> h_;
  const auto &H() const { return h_; }
  const auto &Hessian() const { return h_; }
  double MaxStdDev(bool = true) const { return vf_std(); }
#else
  static constexpr bool FirstOrder = true, IsNLLS = false;
#endif
  CSolver(const Options &) {}
  void reset() {}
  bool resize(int d = 1) { return vf_resize(d); }
  template <class X, class A> bool Build(const X &x, const A &, bool = true) {
#ifdef VF_HESS
    vf_hess(h_.data());
#endif
    return vf_build(&x.v, &cost_.cost, &cost_.num_resisuals);
  }
  std::optional<Vector<double, 1>> Solve() const {
    Vector<double, 1> d;
    if (vf_solve(d.data())) return d;
    return std::nullopt;
  }
  const Cost &cost() const { return cost_; }
  double GradientSquaredNorm() const { return vf_grad2(); }
  double GradientNorm() const { return std::sqrt(vf_grad2()); }
  void GoodStep(double q = 0) { vf_good(q); }
  void BadStep(double = 0) { vf_bad(); }
  void FailedStep() { vf_failed(); }
  void Rebuild(bool b) { vf_rebuild(b); }
  const auto &Gradient() const { return g_; }
  std::string stateAsString() const { return std::string(); }
  int dims() const { return 1; }
  Cost cost_;
  Vector<double, 1> g_;
};
using Opt = Optimizer_<CSolver>;

extern "C" void h_opt(Opt *opt, GX *x, int max_iters, Output *out, int *flags) {
  new (out) Output(opt->OptimizeAcc(*x, [](const auto &, auto &) { return 0.0; }, max_iters));
  flags[0] = out->Succeeded();
  flags[1] = out->Converged();
}

struct Peek : Opt {
  static const Options &o(const Opt &t) { return ((const Peek &)t).options_; }
};
#ifdef VF_HESS
// f: result has a Hessian, it is 1x1, it was requested; v: Hessian of the result, Hessian of the solver
static void hess(Opt &opt, const Output &u, int *f, double *v) {
  f[0] = u.has_final_hessian();
  f[1] = f[0] && u.final_hessian_dense().size() == 1;
  f[2] = Peek::o(opt).hessian.save_last;
  v[0] = f[1] ? u.final_hessian_dense()(0, 0) : 0.0;
  v[1] = opt.solver().Hessian()(0, 0);
}
extern "C" void h_hess(Opt *opt, GX *x, int max_iters, Output *out, int *f, double *v) {
  new (out) Output(opt->OptimizeAcc(*x, [](const auto &, auto &, auto &) { return 0.0; }, max_iters));
  hess(*opt, *out, f, v);
}
#endif

// layout of the observed structures (run natively)
extern "C" void n_layout(int *o) {
  alignas(Opt) static char ob[sizeof(Opt)];
  const Opt &t = *(Opt *)ob;
  const Options &p = Peek::o(t);
  const char *b = (const char *)&t;
#define OFF(f) (int)((const char *)&(f) - b)
  int k = 0;
  o[k++] = OFF(p.check_final_cost); o[k++] = OFF(p.use_step_quality_approx); o[k++] = OFF(p.max_iters);
  o[k++] = OFF(p.min_error); o[k++] = OFF(p.min_rerr_dec); o[k++] = OFF(p.min_step_norm2); o[k++] = OFF(p.min_grad_norm2);
  o[k++] = OFF(p.max_total_failures); o[k++] = OFF(p.max_consec_failures); o[k++] = OFF(p.max_duration_ms);
  o[k++] = OFF(p.stop_callback); o[k++] = OFF(p.stop_callback2); o[k++] = OFF(p.log.enable);
  alignas(Output) static char oc[sizeof(Output)];
  const Output &u = *(Output *)oc;
  b = (const char *)&u;
  o[k++] = OFF(u.final_cost.cost); o[k++] = OFF(u.final_cost.num_resisuals); o[k++] = OFF(u.final_rerr_dec); o[k++] = OFF(u.stop_reason);
  o[k++] = OFF(u.num_residuals); o[k++] = OFF(u.num_iters); o[k++] = OFF(u.num_failures); o[k++] = OFF(u.num_consec_failures);
  o[k++] = OFF(u.duration_ms); o[k++] = OFF(u.num_diff_used); o[k++] = OFF(u.errs); o[k++] = OFF(u.deltas2); o[k++] = OFF(u.successes);
  o[k++] = sizeof(Opt); o[k++] = sizeof(Output); o[k++] = OFF(u.start_time);
  o[k++] = sizeof(u.num_iters); o[k++] = sizeof(u.num_failures); o[k++] = sizeof(u.num_consec_failures); o[k++] = sizeof(u.stop_reason);
  o[k++] = sizeof(p.max_iters); o[k++] = sizeof(p.max_total_failures); o[k++] = sizeof(p.max_consec_failures);
  b = (const char *)&t;
  o[k++] = OFF(p.log); o[k++] = sizeof(p.log);
}

#ifdef VF_NATIVE
// ------------------------------------------------------------------ scripted environment for native runs
#include <cmath>
#include <stdexcept>
struct VfStop {};
static const double *sc;
static int sp[12], sl, nbuild, maxbuild;   // one stream of answers per kind of question
static double *tr;
static int tn, tcap;
static long long now_;
static double grad2_;
static double nxt(int k) { return sc[k * sl + sp[k]++ % sl]; }
static void ev(std::initializer_list<double> l) {
  for (double v : l) if (tn < tcap) tr[tn++] = v;
}
namespace std::chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
  ev({8, (double)now_});
  return system_clock::time_point(system_clock::duration(now_));
} } }
extern "C" {
bool vf_resize(int) {
  const int c = (int)nxt(1);
  ev({7, (double)c});
  if (c == 1) throw std::bad_alloc();
  if (c == 2) throw std::invalid_argument("scripted");
  return c == 3;
}
bool vf_build(const double *x, double *cost, int *n) {
  if (++nbuild > maxbuild) throw VfStop();
  now_ += (long long)(nxt(0)) * 1000;   // only evaluations take time (us)
  bool ok = nxt(2) != 0;
  *cost = nxt(3); *n = (int)nxt(4); grad2_ = nxt(5);
  if (*n <= 0) ok = false;
  if (*cost == std::numeric_limits<double>::max()) ok = false;
  ev({1, *x, (double)ok, *cost, (double)*n, grad2_, now_ * 1e-6});
  return ok;
}
bool vf_solve(double *d) {
  const bool ok = nxt(6) != 0;
  *d = nxt(7);
  ev({2, (double)ok, *d});
  return ok;
}
double vf_grad2() { return grad2_; }
double vf_std() { return 1; }
void vf_hess(double *h) { *h = 1 + nbuild; }
void vf_good(double q) { ev({9, q}); }
void vf_bad() { ev({10}); }
void vf_failed() { ev({11}); }
void vf_rebuild(bool b) { ev({6, (double)b}); }
void vf_plus(double *x, const double *d) { ev({3, *x, *d}); *x += *d; }
int vf_dims() { const int d = (int)nxt(10); ev({12, (double)d}); return d; }

// o: options; s: script; t: trace; f: final values
void n_run(const double *o, const double *s, int slen, double *t, int cap, double *f) {
  sc = s; sl = slen; for (int &q : sp) q = 0; tr = t; tcap = cap; tn = 0; nbuild = 0; now_ = 0; maxbuild = (int)o[14];
  Options p;
  const int lg = (int)o[13];
  p.log.enable = lg != 0;
  if (lg > 1) { p.log.print_emoji = lg & 2; p.log.print_x = lg & 4; p.log.print_dx = lg & 8; p.log.print_inliers = lg & 16; p.log.print_t = lg & 32; p.log.print_max_stdev = lg & 64; p.log.print_failure = lg & 128; }
  p.check_final_cost = o[0] != 0; p.use_step_quality_approx = o[1] != 0; p.max_iters = (uint16_t)o[2];
  p.min_error = o[3]; p.min_rerr_dec = o[4]; p.min_step_norm2 = o[5]; p.min_grad_norm2 = o[6];
  p.max_total_failures = (uint8_t)o[7]; p.max_consec_failures = (uint8_t)o[8]; p.max_duration_ms = o[9];
  if (o[10] != 0) p.stop_callback = [](double e, double d, double g) { const bool r = nxt(8) != 0; ev({4, e, d, g, (double)r}); return r; };
  if (o[11] != 0) p.stop_callback2 = [](float e, const VecXf &d, const VecXf &) { const bool r = nxt(9) != 0; ev({5, (double)e, (double)d[0], (double)r}); return r; };
#ifdef VF_HESS
  p.hessian.save_last = s[11 * slen] == 0;
#endif
  GX x{0.0};
  for (int i = 0; i < 64; ++i) f[i] = 0;
  try {
    Opt opt(p);
    opt.solver().Rebuild(false); tn = 0;
    const int runs = o[15] != 0 ? 2 : 1;
    for (int r = 0; r < runs; ++r) {
      if (r) { tn = 0; nbuild = 0; now_ = 0; }
      x.v = 0;
      const Output u = opt.OptimizeAcc(x, [](const auto &, auto &) { return 0.0; }, (int)o[12]);
      int k = 0;
      f[k++] = 0; f[k++] = tn; f[k++] = x.v; f[k++] = u.final_cost.cost; f[k++] = u.final_cost.num_resisuals; f[k++] = (int)u.stop_reason;
      f[k++] = u.num_iters; f[k++] = u.num_failures; f[k++] = u.num_consec_failures; f[k++] = u.duration_ms; f[k++] = u.Succeeded(); f[k++] = u.Converged();
      f[k++] = u.errs.size(); f[k++] = u.deltas2.size(); f[k++] = u.successes.size(); f[k++] = u.final_rerr_dec; f[k++] = u.num_residuals; f[k++] = u.num_diff_used;
#ifdef VF_HESS
      int q[3];
      hess(opt, u, q, f + 35);
      for (int i = 0; i < 3; ++i) f[32 + i] = q[i];
      f[37] = nbuild;
#endif
      // histories after the trace
      for (auto v : u.errs) ev({v});
      for (auto v : u.deltas2) ev({v});
      for (bool v : u.successes) ev({(double)v});
    }
  } catch (const VfStop &) { f[0] = 1; f[1] = tn;
  } catch (const std::exception &) { f[0] = 2; f[1] = tn;
  } catch (...) { f[0] = 3; f[1] = tn; }
}
}
#endif
