// Short runs of the real optimizers with the real solvers.
#include "vfmt.h"
#include <tinyopt/tinyopt.h>
using namespace tinyopt;

// in: damping, iterations' systems: (H, g, cost) each; out: x, final cost, has Hessian, Hessian, stop reason, iterations
template <class Opt, int ITERS>
static void run(const double *in, double *out) {
  Options o;
  o.log.enable = false;
  o.lm.damping_init = in[0];
  o.min_error = 0; o.min_rerr_dec = 0; o.min_step_norm2 = 0; o.min_grad_norm2 = 0;
  Opt opt(o);
  Vector<double, 1> x(0.0);
  int k = 0;
  const auto acc = [&](const auto &, auto &g, auto &H) {
    const double *p = in + 1 + 3 * k++;
    if constexpr (!traits::is_nullptr_v<std::decay_t<decltype(g)>>) { H(0, 0) += p[0]; g[0] += p[1]; }
    return Cost(p[2], 1);
  };
  const Output u = opt.OptimizeAcc(x, acc, ITERS);
  out[0] = x[0]; out[1] = u.final_cost.cost; out[2] = u.has_final_hessian();
  out[3] = u.has_final_hessian() ? u.final_hessian_dense()(0, 0) : 0.0;
  out[4] = (int)u.stop_reason; out[5] = u.num_iters; out[6] = k;
}
extern "C" void h_lm1(const double *in, double *out) { run<lm::Optimizer<Matrix<double, 1, 1>>, 1>(in, out); }
extern "C" void h_gn1(const double *in, double *out) { run<gn::Optimizer<Matrix<double, 1, 1>>, 1>(in, out); }
