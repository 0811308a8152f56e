// The real solvers started from an arbitrary internal state, with a callback that records what it receives.
#ifdef VF_LOGS
#include "vflog.h"
#else
#include "vfmt.h"
#endif
#include <tinyopt/math.h>
#include <tinyopt/cost.h>
#include <tinyopt/solvers/gd.h>
#include <tinyopt/solvers/gn.h>
#include <tinyopt/solvers/lm.h>
using namespace tinyopt;
using namespace tinyopt::solvers;

// D: compile time dimension, N: run time dimension, LDLT/FULL: options, OLD: dimension before
struct In { const double *p; double operator()() { return *p++; } };
struct Out { double *p; void operator()(double v) { *p++ = v; } };

template <class S> struct Open : S {   // internal damping state, when it is stored under these names
  using S::S;
  template <class T> static consteval bool has() { return requires(T &t) { t.lambda_; t.prev_lambda_; t.bad_factor_; }; }
  template <class T = Open> bool set(double l, double p, double b) {
    if constexpr (has<T>()) { T &t = *this; t.lambda_ = l; t.prev_lambda_ = p; t.bad_factor_ = b; }
    return has<T>();
  }
  template <class T = Open> void get(double *o) {
    if constexpr (has<T>()) { T &t = *this; o[0] = t.lambda_; o[1] = t.bad_factor_; o[2] = t.prev_lambda_; }
    else o[0] = o[1] = o[2] = 0;
  }
};

// callback: records the system it is given, adds the given one
template <int N> struct Acc {
  const double *H, *g;
  double cost, n, ratio;
  double *rec;   // calls, asked for derivatives, rows(H), cols(H), rows(g), H..., g...
  Cost put(const auto &, auto &gr, auto &Hs) const {
    rec[0] += 1;
    using G = std::decay_t<decltype(gr)>;
    if constexpr (!traits::is_nullptr_v<G>) {
      rec[1] += 1;
      rec[4] = gr.size();
      for (int i = 0; i < N; ++i) { rec[5 + N * N + i] = gr[i]; gr[i] += g[i]; }
      if constexpr (!traits::is_nullptr_v<std::decay_t<decltype(Hs)>>) {
        rec[2] = Hs.rows(); rec[3] = Hs.cols();
        for (int i = 0; i < N * N; ++i) {
          rec[5 + i] = Hs.coeff(i / N, i % N);
          Hs.coeffRef(i / N, i % N) += H[i];
        }
      }
    }
    return Cost(cost, (int)n, (float)ratio);
  }
  Cost operator()(const auto &x, auto &gr, auto &Hs) const { return put(x, gr, Hs); }
};

// logging: disabled, or with the given options followed by the calls the optimizer makes to describe the solver
static bool vf_on = false;
static const double *vf_flags;
static void logs(Options &o) {
  o.log.enable = false;
#ifdef VF_LOGS
  if (!vf_on) return;
  auto &l = o.log;
  auto f = [](int k) { return vf_flags[k] > 0; };
  l.enable = f(0); l.print_emoji = f(1); l.print_x = f(2); l.print_dx = f(3); l.print_inliers = f(4); l.print_t = f(5); l.print_max_stdev = f(6); l.print_failure = f(7);
#endif
}
template <class S> static void look(S &s) {
#ifdef VF_LOGS
  if (!vf_on) return;
  s.stateAsString();
  s.cost().toString();
  if constexpr (!S::FirstOrder && S::Dims == 1) s.MaxStdDev();
#endif
}
// what the next steps depend on besides the system
template <class S> static void after(S &s, Out &out) {
#ifdef VF_LOGS
  double d[3];
  s.get(d);
  for (double v : d) out(v);
  if constexpr (S::Dims == 1) {
    const auto dx = s.Solve();
    out(dx.has_value());
    out(dx ? (*dx)[0] : 0.0);
  }
  look(s);
  s.BadStep(); s.GoodStep(0); s.FailedStep();
  look(s);
  s.get(d);
  for (double v : d) out(v);
#endif
}

static Options opts(In &in, bool ldlt, bool full) {
  Options o;
  logs(o);
  o.hessian.use_ldlt = ldlt;
  o.hessian.H_is_full = full;
  o.grad_clipping = in(); o.hessian.check_min_H_diag = in();
  o.lm.damping_init = in();
  o.lm.damping_range = {{(float)in(), (float)in()}};
  o.lm.good_factor = in(); o.lm.bad_factor = in();
  o.gd.lr = in();
  o.cost.use_squared_norm = in() > 0; o.cost.downscale_by_2 = in() > 0; o.cost.normalize = in() > 0;
  return o;
}
static constexpr int kOpt = 11;

// in: options(11), old H, old g, added H, added g, cost, n, inlier ratio, [applied damping, bad factor]
// (the damping is the initial one)
// out: ok, record(5+N*N+N), cost, n, ratio, H, g, exported H, state is accessible
template <template <class> class S, int N, int D, bool LDLT, bool FULL, bool LM, int OLD = N, bool REBUILD = true, class M = Matrix<double, D, D>>
static void second(const double *pi, double *po) {
  In in{pi};
  Out out{po};
  const Options o = opts(in, LDLT, FULL);
  Open<S<M>> s(o);
  if constexpr (D == Dynamic) s.resize(OLD);
  if constexpr (OLD == N) {
    for (int i = 0; i < N * N; ++i) s.H().coeffRef(i / N, i % N) = in();
    for (int i = 0; i < N; ++i) s.Gradient()[i] = in();
  } else
    in.p += N * N + N;
  Acc<N> a;
  a.H = in.p; in.p += N * N;
  a.g = in.p; in.p += N;
  a.cost = in(); a.n = in(); a.ratio = in();
  bool open = false;
  if constexpr (LM) {
    const double applied = in(), bad = in();
    open = s.set(o.lm.damping_init, applied, bad);
    s.Rebuild(REBUILD);
  }
  out.p++;
  a.rec = out.p; out.p += 5 + N * N + N;
  for (int i = 0; i < 5 + N * N + N; ++i) a.rec[i] = 0;
  Vector<double, D> x = Vector<double, D>::Zero(N);
  const bool ok = s.Build(x, a);
  look(s);
  po[0] = ok;
  out(s.cost().cost); out(s.cost().num_resisuals); out(s.cost().inlier_ratio);
  for (int i = 0; i < N * N; ++i) out(s.H().coeff(i / N, i % N));
  for (int i = 0; i < N; ++i) out(s.Gradient()[i]);
  const M H = s.Hessian();
  for (int i = 0; i < N * N; ++i) out(H.coeff(i / N, i % N));
  out(open);
  after(s, out);
}
// step of a solver whose last evaluation was valid (or not), for any system; in: H, g; out: has step, step
template <template <class> class S, int N, int D, bool LDLT, bool VALID = true, class M = Matrix<double, D, D>>
static void solve(const double *pi, double *po) {
  Options o;
  logs(o);
  o.hessian.use_ldlt = LDLT;
  Open<S<M>> s(o);
  if constexpr (D == Dynamic) s.resize(N);
  double rec[5 + N * N + N] = {0}, H[N * N], g[N];
  for (int i = 0; i < N * N; ++i) H[i] = i % (N + 1) == 0;
  for (int i = 0; i < N; ++i) g[i] = 1;
  Acc<N> a{H, g, 1.0, VALID ? 1.0 : 0.0, 1.0, rec};
  Vector<double, D> x = Vector<double, D>::Zero(N);
  s.Build(x, a);
  for (int i = 0; i < N * N; ++i) s.H().coeffRef(i / N, i % N) = pi[i];
  for (int i = 0; i < N; ++i) s.Gradient()[i] = pi[N * N + i];
  const auto dx = s.Solve();
  po[0] = dx.has_value();
  look(s);
  for (int i = 0; i < N; ++i) po[1 + i] = dx ? (*dx)[i] : 0.0;
}
#define SECOND2(name, S, LM)                                                                                      \
  extern "C" void h_##name##2_lf(const double *i, double *o) { second<S, 2, 2, true, true, LM>(i, o); }           \
  extern "C" void h_##name##2_lu(const double *i, double *o) { second<S, 2, 2, true, false, LM>(i, o); }          \
  extern "C" void h_##name##2_if(const double *i, double *o) { second<S, 2, 2, false, true, LM>(i, o); }          \
  extern "C" void h_##name##2_iu(const double *i, double *o) { second<S, 2, 2, false, false, LM>(i, o); }         \
  extern "C" void h_##name##1_l(const double *i, double *o) { second<S, 1, 1, true, true, LM>(i, o); }            \
  extern "C" void h_##name##1_i(const double *i, double *o) { second<S, 1, 1, false, true, LM>(i, o); }
#define SECONDX(name, S, LM)                                                                                      \
  extern "C" void h_##name##2x_lf(const double *i, double *o) { second<S, 2, Dynamic, true, true, LM>(i, o); }    \
  extern "C" void h_##name##2x_iu(const double *i, double *o) { second<S, 2, Dynamic, false, false, LM>(i, o); }  \
  extern "C" void h_##name##2x_grow(const double *i, double *o) { second<S, 2, Dynamic, true, true, LM, 1>(i, o); } \
  extern "C" void h_##name##2x_shrink(const double *i, double *o) { second<S, 2, Dynamic, true, true, LM, 3>(i, o); }
#define SOLVE(name, S)                                                                                            \
  extern "C" void h_##name##_solve1_l(const double *i, double *o) { solve<S, 1, 1, true>(i, o); }                 \
  extern "C" void h_##name##_solve1_i(const double *i, double *o) { solve<S, 1, 1, false>(i, o); }                \
  extern "C" void h_##name##_solve2_l(const double *i, double *o) { solve<S, 2, 2, true>(i, o); }                 \
  extern "C" void h_##name##_solve2_i(const double *i, double *o) { solve<S, 2, 2, false>(i, o); }                \
  extern "C" void h_##name##_solve2x_l(const double *i, double *o) { solve<S, 2, Dynamic, true>(i, o); }          \
  extern "C" void h_##name##_solve2_none(const double *i, double *o) { solve<S, 2, 2, true, false>(i, o); }       \
  extern "C" void h_##name##_solve1_none(const double *i, double *o) { solve<S, 1, 1, false, false>(i, o); }
#ifdef VF_GN
SECOND2(gn, SolverGN, false)
#endif
#ifdef VF_GNX
SECONDX(gn, SolverGN, false)
#endif
#ifdef VF_LM
SECOND2(lm, SolverLM, true)
extern "C" void h_lm1_eval(const double *i, double *o) { second<SolverLM, 1, 1, true, true, true, 1, false>(i, o); }
extern "C" void h_lm2_eval(const double *i, double *o) { second<SolverLM, 2, 2, true, true, true, 2, false>(i, o); }
#endif
#ifdef VF_LMX
SECONDX(lm, SolverLM, true)
extern "C" void h_lm2x_eval(const double *i, double *o) { second<SolverLM, 2, Dynamic, true, true, true, 2, false>(i, o); }
#endif
#ifdef VF_SP   // sparse systems
using Sp = SparseMatrix<double>;
#define SPARSE(name, S, LM) \
  extern "C" void h_##name##1s(const double *i, double *o) { second<S, 1, Dynamic, true, true, LM, 1, true, Sp>(i, o); }    \
  extern "C" void h_##name##2s(const double *i, double *o) { second<S, 2, Dynamic, true, true, LM, 2, true, Sp>(i, o); }    \
  extern "C" void h_##name##2s_grow(const double *i, double *o) { second<S, 2, Dynamic, true, true, LM, 1, true, Sp>(i, o); } \
  extern "C" void h_##name##_solve1s(const double *i, double *o) { solve<S, 1, Dynamic, true, true, Sp>(i, o); }            \
  extern "C" void h_##name##_solve2s(const double *i, double *o) { solve<S, 2, Dynamic, true, true, Sp>(i, o); }
SPARSE(gn, SolverGN, false)
SPARSE(lm, SolverLM, true)
extern "C" void h_lm2s_eval(const double *i, double *o) { second<SolverLM, 2, Dynamic, true, true, true, 2, false, Sp>(i, o); }
#endif
#ifdef VF_SOLVE
SOLVE(gn, SolverGN)
SOLVE(lm, SolverLM)
#endif

#ifdef VF_GD
// in: options, old g, added g, cost, n, ratio; out: ok, record, cost, n, ratio, g, has step, step
template <int N, int D, int OLD = N>
static void first(const double *pi, double *po) {
  In in{pi};
  Out out{po};
  const Options o = opts(in, true, true);
  Open<SolverGD<Vector<double, D>>> s(o);
  if constexpr (D == Dynamic) s.resize(OLD);
  if constexpr (OLD == N)
    for (int i = 0; i < N; ++i) s.Gradient()[i] = in();
  else
    in.p += N;
  Acc<N> a;
  a.H = nullptr;
  a.g = in.p; in.p += N;
  a.cost = in(); a.n = in(); a.ratio = in();
  out.p++;
  a.rec = out.p; out.p += 5 + N * N + N;
  for (int i = 0; i < 5 + N * N + N; ++i) a.rec[i] = 0;
  Vector<double, D> x = Vector<double, D>::Zero(N);
  const bool ok = s.Build(x, a);
  look(s);
  po[0] = ok;
  out(s.cost().cost); out(s.cost().num_resisuals); out(s.cost().inlier_ratio);
  for (int i = 0; i < N; ++i) out(s.Gradient()[i]);
  const auto dx = s.Solve();
  out(dx.has_value());
  for (int i = 0; i < N; ++i) out(dx ? (*dx)[i] : 0.0);
  look(s);
}
extern "C" void h_gd1(const double *i, double *o) { first<1, 1>(i, o); }
extern "C" void h_gd2(const double *i, double *o) { first<2, 2>(i, o); }
extern "C" void h_gd2x(const double *i, double *o) { first<2, Dynamic>(i, o); }
extern "C" void h_gd2x_grow(const double *i, double *o) { first<2, Dynamic, 1>(i, o); }
extern "C" void h_gd2x_shrink(const double *i, double *o) { first<2, Dynamic, 3>(i, o); }

#endif
#ifdef VF_DAMP
// damping updates: in: options, lambda, applied, bad factor, quality, event (0 good, 1 bad, 2 failed)
// out: lambda, bad factor, applied, state is accessible
extern "C" void h_damp(const double *pi, double *po) {
  In in{pi};
  const Options o = opts(in, true, true);
  Open<SolverLM<Matrix<double, 1, 1>>> s(o);
  const double l = in(), p = in(), b = in();
  po[3] = s.set(l, p, b);
  const double q = in(), e = in();
  if (e < 0.5) s.GoodStep(q);
  else if (e < 1.5) s.BadStep();
  else s.FailedStep();
  s.get(po);
}
// a run of the damping seen from outside: H = g = 1, the damping is read from the damped Hessian
// in: options, events(2), qualities(2); out: damped H - 1 after each build, exported H after each event and build
extern "C" void h_seq(const double *pi, double *po) {
  In in{pi};
  Out out{po};
  const Options o = opts(in, true, true);
  const double one = 1;
  double rec[8];
  Acc<1> a{&one, &one, 1, 1, 1, rec};
  Open<SolverLM<Matrix<double, 1, 1>>> s(o);
  Vector<double, 1> x(0);
  const double e[2] = {in(), in()}, q[2] = {in(), in()};
  for (int k = 0; k < 3; ++k) {
    s.Build(x, a);
    out(s.H()(0, 0) - 1);
    out(s.Hessian()(0, 0));
    if (k == 2) break;
    if (e[k] < 0.5) s.GoodStep(q[k]);
    else if (e[k] < 1.5) s.BadStep();
    else s.FailedStep();
    out(s.Hessian()(0, 0));
  }
}
// the same, with evaluations only after the first build; the second evaluation fails when there is no residual
// in: options, events(2), n of each evaluation (2)
extern "C" void h_seq_eval(const double *pi, double *po) {
  In in{pi};
  Out out{po};
  const Options o = opts(in, true, true);
  const double one = 1;
  double rec[8];
  Acc<1> a{&one, &one, 1, 1, 1, rec};
  Open<SolverLM<Matrix<double, 1, 1>>> s(o);
  Vector<double, 1> x(0);
  const double e[2] = {in(), in()}, n[2] = {in(), in()};
  s.Build(x, a);
  for (int k = 0; k < 2; ++k) {
    if (e[k] < 0.5) s.GoodStep(0);
    else if (e[k] < 1.5) s.BadStep();
    else s.FailedStep();
    s.Rebuild(false);
    a.n = n[k];
    out(s.Build(x, a));
    out(s.H()(0, 0) - 1);
    out(s.Hessian()(0, 0));
  }
}
// state after construction, and after reset of a used solver: damping of the next build
extern "C" void h_reset(const double *pi, double *po) {
  In in{pi};
  const Options o = opts(in, true, true);
  const double one = 1;
  double rec[8];
  Acc<1> a{&one, &one, 1, 1, 1, rec};
  Vector<double, 1> x(0);
  Open<SolverLM<Matrix<double, 1, 1>>> s(o);
  s.Build(x, a);
  po[0] = s.H()(0, 0) - 1;
  s.BadStep(); s.BadStep();
  s.Rebuild(false);
  s.reset();
  po[1] = s.H()(0, 0); po[2] = s.Gradient()[0];
  rec[1] = 0;
  s.Build(x, a);
  po[3] = rec[1];
  po[4] = s.H()(0, 0) - 1;
  s.BadStep();
  s.Build(x, a);
  po[5] = s.H()(0, 0) - 1;
}
#endif

#ifdef VF_LOGS
// each run twice, with the given log options (8 inputs) and without logging
template <int NOUT> static void twice(void (*f)(const double *, double *), const double *pi, double *po) {
  vf_flags = pi;
  vf_on = true;
  f(pi + 8, po);
  vf_on = false;
  f(pi + 8, po + NOUT);
}
#define TWICE(fn, n) extern "C" void h_log_##fn(const double *i, double *o) { twice<n>(h_##fn, i, o); }
#ifdef VF_GN
TWICE(gn1_l, 23) TWICE(gn1_i, 23) TWICE(gn2_lf, 32) TWICE(gn2_iu, 32)
#endif
#ifdef VF_LM
TWICE(lm1_l, 23) TWICE(lm1_i, 23) TWICE(lm2_lf, 32) TWICE(lm2_iu, 32) TWICE(lm1_eval, 23) TWICE(lm2_eval, 32)
#endif
#ifdef VF_SOLVE
TWICE(gn_solve1_l, 2) TWICE(gn_solve1_i, 2) TWICE(gn_solve2_l, 3) TWICE(gn_solve2_i, 3) TWICE(lm_solve1_l, 2) TWICE(lm_solve1_i, 2) TWICE(lm_solve2_l, 3) TWICE(lm_solve2_i, 3)
#endif
#ifdef VF_GD
TWICE(gd1, 14) TWICE(gd2, 20)
#endif
#endif
