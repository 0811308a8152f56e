// The same run with an arbitrary logging configuration and with logging disabled.
#include "vflog.h"
#include <tinyopt/tinyopt.h>
#undef ostringstream
using namespace tinyopt;
using V1 = Vector<double, 1>;
using V2 = Vector<double, 2>;
template <class X> constexpr int N = std::is_floating_point_v<X> ? 1 : traits::params_trait<X>::Dims == 2 ? 2 : 1;

static int g_calls;
// a user function returning arbitrary systems: per call cost, number of residuals, gradient, Hessian
template <class X> struct System {
  const double *p;
  static constexpr int S = 2 + N<X> + N<X> * N<X>;
  const double *row() const { const int k = g_calls++; return p + (k < 2 ? k : 2) * S; }
  Cost cost(const double *q) const { Cost c(q[0], q[1] > 0 ? 2 : 0, 0.5f); return c; }
  template <class G> static void grad(G &g, const double *q) {
    if constexpr (!traits::is_nullptr_v<std::decay_t<G>>) for (int i = 0; i < N<X>; ++i) g[i] += q[2 + i];
  }
};
template <class X> struct Second : System<X> {
  template <class G, class H> Cost operator()(const X &, G &g, H &h) const {
    const double *q = this->row();
    this->grad(g, q);
    if constexpr (!traits::is_nullptr_v<std::decay_t<G>>)
      for (int i = 0; i < N<X>; ++i)
        for (int j = 0; j < N<X>; ++j) h(i, j) += q[2 + N<X> + (i < j ? i * N<X> + j : j * N<X> + i)];
    return this->cost(q);
  }
};
template <class X> struct First : System<X> {
  template <class G> Cost operator()(const X &, G &g) const { const double *q = this->row(); this->grad(g, q); return this->cost(q); }
};
// affine residuals to be differentiated automatically
template <class X, int M> struct Residuals {
  const double *p;
  template <class T> auto operator()(const T &x) const {
    using S = std::decay_t<decltype([&] { if constexpr (requires { x[0]; }) return x[0]; else return x; }())>;
    g_calls++;
    Vector<S, M> r;
    for (int k = 0; k < M; ++k) {
      if constexpr (requires { x[0]; }) r[k] = p[2 * k] * x[0] + p[2 * k + 1];
      else r[k] = p[2 * k] * x + p[2 * k + 1];
    }
    return r;
  }
};
// in: enable, emoji, x, dx, inliers, t, J, stdev, failure flags, then thresholds and start
static Options options(const double *in, bool logs, bool ldlt) {
  Options o;
  auto f = [&](int k) { return in[k] > 0; };
  o.log.enable = logs && f(0);
  if (logs) {
    o.log.print_emoji = f(1); o.log.print_x = f(2); o.log.print_dx = f(3); o.log.print_inliers = f(4); o.log.print_t = f(5);
    o.log.print_J_jet = f(6); o.log.print_max_stdev = f(7); o.log.print_failure = f(8);
  }
  o.min_error = in[9]; o.min_rerr_dec = in[10]; o.min_step_norm2 = in[11]; o.min_grad_norm2 = in[12];
  o.max_iters = 1; o.max_consec_failures = 2;
  o.hessian.use_ldlt = ldlt;
  o.hessian.save_last = true;
  return o;
}
template <class X> static X start(const double *in) {
  if constexpr (std::is_floating_point_v<X>) return in[13];
  else if constexpr (N<X> == 2) return X(in[13], in[14]);
  else return X::Constant(1, in[13]);
}
// out: x (2), final cost, residuals, stop reason, iterations, failures, history size, first cost, last decrease, evaluations, first entry of the exported Hessian
constexpr int kOut = 12;
template <class X> static void put(const X &x, const Output &u, double *out) {
  if constexpr (std::is_floating_point_v<X>) { out[0] = x; out[1] = 0; }
  else { out[0] = x[0]; out[1] = x.size() > 1 ? x[1] : 0.0; }
  out[2] = u.final_cost.cost; out[3] = u.num_residuals; out[4] = (int)u.stop_reason; out[5] = u.num_iters; out[6] = u.num_failures;
  out[7] = u.errs.size(); out[8] = u.errs.empty() ? 0.0 : u.errs.front(); out[9] = u.final_rerr_dec; out[10] = g_calls;
  out[11] = u.has_final_hessian() ? u.final_hessian_dense()(0, 0) : 0.0;
}
template <class X, class Run> static void both(const double *in, double *out, bool ldlt, const Run &run) {
  for (int k = 0; k < 2; ++k) {
    g_calls = 0;
    X x = start<X>(in);
    const Options o = options(in, k == 0, ldlt);
    put(x, run(x, o), out + k * kOut);
  }
}
template <class X> using HT = Matrix<double, traits::params_trait<X>::Dims, traits::params_trait<X>::Dims>;
template <class X> using GT = Vector<double, traits::params_trait<X>::Dims>;
#define RUN2(name, X, OPT, LDLT) extern "C" void h_##name(const double *in, double *out) { \
  both<X>(in, out, LDLT, [&](X &x, const Options &o) { OPT<HT<X>> opt(o); return opt(x, Second<X>{{in + 15}}); }); }
#define RUN1(name, X) extern "C" void h_##name(const double *in, double *out) { \
  both<X>(in, out, true, [&](X &x, const Options &o) { gd::Optimizer<GT<X>> opt(o); return opt(x, First<X>{{in + 15}}); }); }
#define RUNA(name, X, S) extern "C" void h_##name(const double *in, double *out) { \
  both<X>(in, out, true, [&](X &x, Options o) { o.solver_type = Options::Solver::S; return Optimize(x, Residuals<X, 2>{in + 15}, o); }); }
#define FAM(n, X) RUN2(gn_##n, X, gn::Optimizer, true) RUN2(gni_##n, X, gn::Optimizer, false) RUN2(lm_##n, X, lm::Optimizer, true) RUN2(lmi_##n, X, lm::Optimizer, false) RUN1(gd_##n, X)
#ifdef VF_S
FAM(s, double)
#elif defined(VF_V1)
FAM(v1, V1)
#elif defined(VF_V2)
FAM(v2, V2)
#elif defined(VF_AD)
RUNA(ad_gn_s, double, GaussNewton) RUNA(ad_lm_s, double, LevenbergMarquardt) RUNA(ad_gn_v1, V1, GaussNewton) RUNA(ad_lm_v1, V1, LevenbergMarquardt)
#endif
