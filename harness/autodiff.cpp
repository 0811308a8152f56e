// Systems assembled by automatic differentiation, for residuals with arbitrary value and Jacobian.
#include "vfmt.h"
#include <tinyopt/math.h>
#include <tinyopt/cost.h>
#include <tinyopt/optimizers/options.h>
#include <tinyopt/diff/optimize_autodiff.h>
#include <tinyopt/diff/auto_diff.h>
#include "params_types.h"


// residual i: c_i + sum_k A_ik (x_k - x0_k), hence value c_i and Jacobian A at x0; in: A (M*N), c (M), x0 (N)
template <int M, int N> struct Aff {
  const double *in;
  double cst(int i) const { return in[M * N + i]; }
  template <class X> auto row(const X &x, int i) const {
    auto s = (at(x, 0) - in[M * N + M]) * in[i * N];
    for (int k = 1; k < N; ++k) s += (at(x, k) - in[M * N + M + k]) * in[i * N + k];
    s += in[M * N + i];
    return s;
  }
};
#include "shapes.h"

// out: gradient, cost, number of residuals, cost and number when asked alone, Hessian (least squares)
template <bool NLLS, class X, int M, int N, template <int, int> class F>
static void sys(const double *in, double *out) {
  constexpr int D = traits::params_trait<X>::Dims;
  X x = make<X>(N);
  const F<M, N> f{{in}};
  struct O { struct { bool enable = false, print_J_jet = false; } log; } o;
  const auto optimize = [&](auto &x, const auto &acc, const auto &) {
    for (int rep = 0; rep < 2; ++rep) {   // first elsewhere: nothing may leak from one evaluation to the next
      if (rep) put<X, N>(x, in + M * N + M);
      std::nullptr_t nul;
      Vector<double, D> g = Vector<double, D>::Zero(N);
      Cost c, e;
      if constexpr (NLLS) {
        Matrix<double, D, D> H = Matrix<double, D, D>::Zero(N, N);
        c = acc(x, g, H);
        for (int i = 0; i < N * N; ++i) out[4 + N + i] = H(i / N, i % N);
        e = acc(x, nul, H);
      } else {
        c = acc(x, g, nul);
        e = acc(x, nul, nul);
      }
      for (int i = 0; i < N; ++i) out[i] = g[i];
      out[N] = c.cost; out[N + 1] = c.num_resisuals; out[N + 2] = e.cost; out[N + 3] = e.num_resisuals;
    }
    return 0;
  };
  OptimizeWithAutoDiff<NLLS>(x, f, optimize, o);
}
#define SYS(name, X, M, N, F) extern "C" void h_##name(const double *in, double *out) { sys<true, X, M, N, F>(in, out); }
#ifdef VF_A
SYS(s_s, X1, 1, 1, Scal) SYS(s_v2, X1, 2, 1, Vec) SYS(s_vd, X1, 2, 1, VecD)
SYS(v1_s, V1, 1, 1, Scal) SYS(v2_s, V2, 1, 2, Scal) SYS(v2_v1, V2, 1, 2, Vec) SYS(v2_v2, V2, 2, 2, Vec) SYS(v2_v3, V2, 3, 2, Vec) SYS(v2_vd, V2, 3, 2, VecD)
#endif
#ifdef VF_B
SYS(v2_m, V2, 4, 2, Mat) SYS(v2_md, V2, 4, 2, MatD) SYS(m_v, M22, 2, 4, Vec)
SYS(u_s, U, 1, 2, Scal) SYS(u_v, U, 2, 2, Vec)
#endif
#ifdef VF_C
SYS(vx_s, VX, 1, 2, Scal) SYS(vx_v, VX, 2, 2, Vec) SYS(vx_vd, VX, 2, 2, VecD) SYS(vx_unc, VX, 2, 2, Unc)
#endif
#ifdef VF_D
#define GD(name, X, N) extern "C" void h_##name(const double *in, double *out) { sys<false, X, 1, N, Scal>(in, out); }
GD(gd_s, X1, 1) GD(gd_v1, V1, 1) GD(gd_v2, V2, 2) GD(gd_vx, VX, 2) GD(gd_u, U, 2)

// diff::Eval and diff::CalculateJac; out: residuals, Jacobian, Jacobian
template <class X, int M, int N, template <int, int> class F>
static void eval(const double *in, double *out) {
  X x = make<X>(N);
  put<X, N>(x, in + M * N + M);
  const F<M, N> f{{in}};
  const auto [r, J] = diff::Eval(x, f);
  const auto J2 = diff::CalculateJac(x, f);
  for (int i = 0; i < M; ++i) {
    if constexpr (std::is_floating_point_v<std::decay_t<decltype(r)>>) out[i] = r;
    else out[i] = r[i];
    for (int k = 0; k < N; ++k) { out[M + i * N + k] = J(i, k); out[M + M * N + i * N + k] = J2(i, k); }
  }
}
#define EV(name, X, M, N, F) extern "C" void h_##name(const double *in, double *out) { eval<X, M, N, F>(in, out); }
EV(ev_s_s, X1, 1, 1, Scal) EV(ev_s_v, X1, 2, 1, Vec) EV(ev_v2_s, V2, 1, 2, Scal) EV(ev_v2_v3, V2, 3, 2, Vec) EV(ev_v2_md, V2, 4, 2, MatD) EV(ev_v2_m, V2, 4, 2, Mat)
// functions that also take a gradient, a gradient and a Hessian, or a sparse Hessian
template <int M, int N> struct Arg2 : Aff<M, N> { template <class X, class G> auto operator()(const X &x, G &) const { return Vec<M, N>{{*this}}(x); } };
template <int M, int N> struct Arg3 : Aff<M, N> { template <class X, class G, class H> auto operator()(const X &x, G &, H &) const { return Vec<M, N>{{*this}}(x); } };
template <int M, int N> struct Arg3S : Aff<M, N> { template <class X, class G> auto operator()(const X &x, G &, SparseMatrix<double> &) const { return Scal<M, N>{{*this}}(x); } };
EV(ev_s_a2, X1, 2, 1, Arg2) EV(ev_v2_a2, V2, 2, 2, Arg2) EV(ev_v2_a3, V2, 2, 2, Arg3) EV(ev_v2_as, V2, 1, 2, Arg3S)
EV(ev_vx_v, VX, 2, 2, Vec) EV(ev_vx_unc, VX, 2, 2, Unc) EV(ev_u_v, U, 2, 2, Vec) EV(ev_m_v, M22, 2, 4, Vec)
#endif
