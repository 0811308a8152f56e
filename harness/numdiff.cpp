// Numerical differentiation of cubic functions of the parameters.
#include "vfmt.h"
#include <tinyopt/math.h>
#include <tinyopt/cost.h>
#include <tinyopt/diff/num_diff.h>
#include "params_types.h"

// residual i with t = x - x0: c_i + sum_k (A_ik t_k + B_ik t_k^2 + D_ik t_k^3) + E_i t_0 t_1
// in: h, A, B, D (M*N each), E (M), c (M), x0 (N)
template <int M, int N> struct Aff {
  const double *in;
  double *far;   // largest distance to x0 of the points where the function was evaluated
  double cst(int i) const { return in[1 + 3 * M * N + M + i]; }
  template <class X> double row(const X &x, int i) const {
    double t[N], s = cst(i), d = 0;
    const double *p = in + 1 + i * N;
    for (int k = 0; k < N; ++k) {
      t[k] = at(x, k) - in[1 + 3 * M * N + 2 * M + k];
      s += t[k] * (p[k] + t[k] * (p[M * N + k] + t[k] * p[2 * M * N + k]));
      d += std::abs(t[k]);
    }
    if (d > *far) *far = d;
    if (N > 1) s += in[1 + 3 * M * N + i] * t[0] * t[1 % N];
    return s;
  }
};
#include "shapes.h"

template <class J_t, int M, int N> static void jac(const J_t &J, double *out) {
  for (int i = 0; i < M; ++i)
    for (int k = 0; k < N; ++k) out[i * N + k] = J(i, k);
}
template <class R_t> static double res(const R_t &r, int i) {
  if constexpr (std::is_floating_point_v<R_t>) return r;
  else return r(i % r.rows(), i / r.rows());
}
// out: Jacobian (M*N), residuals (M), distance, x (N), rows, cols
template <diff::Method Me, class X, int M, int N, template <int, int> class F>
static void nd(const double *in, double *out) {
  X x = make<X>(N);
  put<X, N>(x, in + 1 + 3 * M * N + 2 * M);
  double far = 0;
  const F<M, N> f{{in, &far}};
  const auto [r, J] = diff::NumEval(x, f, Me, in[0]);
  jac<decltype(J), M, N>(J, out);
  for (int i = 0; i < M; ++i) out[M * N + i] = res(r, i);
  out[M * N + M] = far;
  for (int k = 0; k < N; ++k) out[M * N + M + 1 + k] = at(x, k);
  out[M * N + M + N + 1] = J.rows();
  out[M * N + M + N + 2] = J.cols();
}
#define ND(name, X, M, N, F) \
  extern "C" void h_f_##name(const double *in, double *out) { nd<diff::kForward, X, M, N, F>(in, out); } \
  extern "C" void h_c_##name(const double *in, double *out) { nd<diff::kCentral, X, M, N, F>(in, out); } \
  extern "C" void h_q_##name(const double *in, double *out) { nd<diff::kFastCentral, X, M, N, F>(in, out); }
#ifdef VF_A
ND(s_s, X1, 1, 1, Scal) ND(s_v, X1, 2, 1, Vec) ND(v1_s, V1, 1, 1, Scal) ND(v2_s, V2, 1, 2, Scal) ND(v2_v1, V2, 1, 2, Vec) ND(v2_v2, V2, 2, 2, Vec) ND(v2_v3, V2, 3, 2, Vec)
#endif
#ifdef VF_B
ND(v2_vd, V2, 3, 2, VecD) ND(vx_s, VX, 1, 2, Scal) ND(vx_v, VX, 2, 2, Vec) ND(vx_vd, VX, 3, 2, VecD) ND(u_s, U, 1, 2, Scal) ND(u_v, U, 2, 2, Vec) ND(m_v, M22, 2, 4, Vec)
#endif
#ifdef VF_C
ND(v2_m, V2, 4, 2, Mat) ND(v2_md, V2, 4, 2, MatD) ND(s_m, X1, 4, 1, Mat)
#endif
#ifdef VF_D
// Functions that also take a gradient (and Hessian); the default method and step of EstimateNumJac, out: Jacobian, x
template <class F> static void acc(const double *in, double *out, const F &f) {
  Vector<double, 2> x;
  put<V2, 2>(x, in + 9);
  const auto J = diff::EstimateNumJac(x, f, diff::kCentral, in[0]);
  const auto J2 = diff::EstimateNumJac(x, f, diff::kForward, in[0]);
  for (int k = 0; k < 2; ++k) { out[k] = J(0, k); out[2 + k] = x[k]; out[4 + k] = J2(0, k); }
}
extern "C" void h_acc1(const double *in, double *out) {
  double far = 0;
  const Scal<1, 2> f{{in, &far}};
  acc(in, out, [&](const auto &x, auto &g) { if constexpr (!std::is_null_pointer_v<std::decay_t<decltype(g)>>) g.setConstant(7); return f(x); });
}
extern "C" void h_acc2(const double *in, double *out) {
  double far = 0;
  const Scal<1, 2> f{{in, &far}};
  acc(in, out, [&](const auto &x, auto &g, auto &H) {
    if constexpr (!std::is_null_pointer_v<std::decay_t<decltype(g)>>) g.setConstant(7);
    if constexpr (!std::is_null_pointer_v<std::decay_t<decltype(H)>>) H.setConstant(7);
    return f(x);
  });
}
extern "C" void h_acc3(const double *in, double *out) {
  double far = 0;
  const Scal<1, 2> f{{in, &far}};
  acc(in, out, [&](const auto &x, auto &, SparseMatrix<double> &) { return f(x); });
}
// default method and step; in as above (in[0] unused), out: Jacobian, x
extern "C" void h_default(const double *in, double *out) {
  double far = 0;
  const Vec<2, 2> f{{in, &far}};
  V2 x;
  put<V2, 2>(x, in + 17);
  const auto J = diff::EstimateNumJac(x, f);
  jac<decltype(J), 2, 2>(J, out);
  out[4] = x[0]; out[5] = x[1];
}
#endif
#ifdef VF_E
// Systems. out: gradient (N) of the first and second order function, Hessian (N*N), numbers of residuals, costs, x (N)
static Cost as_cost(const Cost &c) { return c; }
template <diff::Method Me, class X, int M, int N, template <int, int> class F>
static void sys(const double *in, double *out) {
  constexpr int D = traits::params_trait<X>::Dims;
  X x = make<X>(N), z = make<X>(N);
  put<X, N>(x, in + 1 + 3 * M * N + 2 * M);
  double far = 0;
  const F<M, N> f{{in, &far}};
  const auto f1 = diff::CreateNumDiffFunc1(z, f, Me, in[0]);
  const auto f2 = diff::CreateNumDiffFunc2(z, f, Me, in[0]);
  Vector<double, D> g1 = Vector<double, D>::Constant(N, 3), g2 = g1;
  Matrix<double, D, D> H = Matrix<double, D, D>::Constant(N, N, 5);
  std::nullptr_t nul;
  const Cost c1 = as_cost(f1(x, g1)), c2 = as_cost(f2(x, g2, H));
  const Cost e1 = as_cost(f1(x, nul)), e2 = as_cost(f2(x, nul, H)), e3 = as_cost(f2(x, nul, nul));
  for (int k = 0; k < N; ++k) { out[k] = g1[k]; out[N + k] = g2[k]; }
  for (int k = 0; k < N * N; ++k) out[2 * N + k] = H(k / N, k % N);
  double *o = out + 2 * N + N * N;
  for (const auto &c : {c1, c2, e1, e2, e3}) { *o++ = c.num_resisuals; *o++ = c.cost; }
  for (int k = 0; k < N; ++k) *o++ = at(x, k);
}
#define SY(name, X, M, N, F) \
  extern "C" void h_sf_##name(const double *in, double *out) { sys<diff::kForward, X, M, N, F>(in, out); } \
  extern "C" void h_sc_##name(const double *in, double *out) { sys<diff::kCentral, X, M, N, F>(in, out); }
SY(s_s, X1, 1, 1, Scal) SY(s_v, X1, 2, 1, Vec) SY(v2_s, V2, 1, 2, Scal) SY(v2_v3, V2, 3, 2, Vec) SY(vx_vd, VX, 2, 2, VecD) SY(u_v, U, 2, 2, Vec) SY(v2_m, V2, 4, 2, Mat) SY(v2_md, V2, 4, 2, MatD)
#endif
