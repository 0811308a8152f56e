// Covariances: of the result of a run and of the solvers.
#include "vfmt.h"
#include <tinyopt/math.h>
#include <tinyopt/output.h>
#include <tinyopt/solvers/gn.h>
#include <tinyopt/solvers/lm.h>
using namespace tinyopt;

// in: H (N*N), final cost, number of residuals, rescaled; out: has, cov (N*N)
template <int N>
static void cov(const double *in, double *out) {
  Output o;
  MatX H(N, N);
  for (int i = 0; i < N * N; ++i) H(i / N, i % N) = in[i];
  o.final_hessian = H;
  o.final_cost = Cost(in[N * N], (int)in[N * N + 1]);
  o.num_residuals = (int)in[N * N + 1];
  const auto c = o.Covariance(in[N * N + 2] > 0);
  out[0] = c.has_value();
  for (int i = 0; i < N * N; ++i) out[1 + i] = c ? (*c)(i / N, i % N) : 0.0;
}
extern "C" void h_cov1(const double *in, double *out) { cov<1>(in, out); }
extern "C" void h_cov2(const double *in, double *out) { cov<2>(in, out); }
extern "C" void h_cov_none(const double *in, double *out) {
  Output o;
  o.final_cost = Cost(in[0], 3);
  o.num_residuals = 3;
  out[0] = o.Covariance(in[1] > 0).has_value();
  out[1] = o.has_final_hessian();
}

struct Acc {
  const double *H;
  int n;
  Cost operator()(const auto &, auto &g, auto &h) const {
    if constexpr (!traits::is_nullptr_v<std::decay_t<decltype(g)>>) {
      for (int i = 0; i < n * n; ++i) h(i / n, i % n) += H[i];
      for (int i = 0; i < n; ++i) g[i] += 1;
    }
    return Cost(1.0, 1);
  }
};
// covariance of a solver after a build; in: H, damping; out: has, cov, damped max std dev, un-damped max std dev
template <class S, int N>
static void scov(const double *in, double *out) {
  Options o;
  o.log.enable = false;
  o.lm.damping_init = in[N * N];
  S s(o);
  s.Build(Vector<double, N>(Vector<double, N>::Zero()), Acc{in, N});
  const auto c = s.Covariance();
  out[0] = c.has_value();
  for (int i = 0; i < N * N; ++i) out[1 + i] = c ? (*c)(i / N, i % N) : 0.0;
}
extern "C" void h_gncov1(const double *in, double *out) { scov<solvers::SolverGN<Matrix<double, 1, 1>>, 1>(in, out); }
extern "C" void h_gncov2(const double *in, double *out) { scov<solvers::SolverGN<Matrix<double, 2, 2>>, 2>(in, out); }
extern "C" void h_lmcov1(const double *in, double *out) { scov<solvers::SolverLM<Matrix<double, 1, 1>>, 1>(in, out); }
extern "C" void h_lmcov2(const double *in, double *out) { scov<solvers::SolverLM<Matrix<double, 2, 2>>, 2>(in, out); }
