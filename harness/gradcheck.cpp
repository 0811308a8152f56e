// Gradient checker.
#include "vfmt.h"
#include <tinyopt/math.h>
#include <tinyopt/cost.h>
#include <tinyopt/diff/gradient_check.h>
#include "params_types.h"

// Objective with t = x - x0: c + sum_k (A_k t_k + B_k t_k^2) + E t_0 t_1, user gradient G
// in: eps, verbose, c, E, A (N), B (N), x0 (N), G (N)
template <int N> struct Obj {
  const double *in;
  template <class X> double value(const X &x) const {
    double t[N], s = in[2];
    for (int k = 0; k < N; ++k) {
      t[k] = at(x, k) - in[4 + 2 * N + k];
      s += t[k] * (in[4 + k] + t[k] * in[4 + N + k]);
    }
    if (N > 1) s += in[3] * t[0] * t[1 % N];
    return s;
  }
  template <class G> void grad(G &g) const {
    if constexpr (!std::is_null_pointer_v<std::decay_t<G>>)
      for (int k = 0; k < N; ++k) g[k] = in[4 + 3 * N + k];
  }
};
template <int N> struct Obj1 : Obj<N> {
  template <class X, class G> double operator()(const X &x, G &g) const { this->grad(g); return this->value(x); }
};
template <int N> struct Obj2 : Obj<N> {
  template <class X, class G, class H_t> double operator()(const X &x, G &g, H_t &H) const {
    this->grad(g);
    if constexpr (!std::is_null_pointer_v<std::decay_t<G>> && !std::is_null_pointer_v<std::decay_t<H_t>>) H(0, 0) = 3;
    return this->value(x);
  }
};
// out: answer, x
template <diff::Method Me, class X, int N, template <int> class F> static void check(const double *in, double *out) {
  X x = make<X>(N);
  put<X, N>(x, in + 4 + 2 * N);
  const F<N> f{{in}};
  out[0] = diff::CheckGradient(x, f, in[0], Me, in[1] != 0);
  for (int k = 0; k < N; ++k) out[1 + k] = at(x, k);
}
#define CG(name, X, N, F) \
  extern "C" void h_c_##name(const double *in, double *out) { check<diff::kCentral, X, N, F>(in, out); } \
  extern "C" void h_q_##name(const double *in, double *out) { check<diff::kFastCentral, X, N, F>(in, out); } \
  extern "C" void h_f_##name(const double *in, double *out) { check<diff::kForward, X, N, F>(in, out); }
#ifdef VF_A
CG(s, X1, 1, Obj1) CG(v1, V1, 1, Obj1) CG(v2, V2, 2, Obj1) CG(vx, VX, 2, Obj1) CG(u, U, 2, Obj1) CG(s_h, X1, 1, Obj2) CG(v2_h, V2, 2, Obj2) CG(vx_h, VX, 3, Obj2)
using V3 = Vector<double, 3>;
CG(v3, V3, 3, Obj1)
#endif
#ifdef VF_N
// user gradient with arbitrary machine numbers, of a constant function; in: G (N)
template <class X, int N, bool Hess> static void nan(const double *in, double *out) {
  X x = make<X>(N);
  const auto grad = [&](auto &g) {
    if constexpr (!std::is_null_pointer_v<std::decay_t<decltype(g)>>)
      for (int k = 0; k < N; ++k) g[k] = in[k];
  };
  if constexpr (Hess) out[0] = diff::CheckGradient(x, [&](const auto &, auto &g, auto &) { grad(g); return 1.0; }, 0.125, diff::kCentral, false);
  else out[0] = diff::CheckGradient(x, [&](const auto &, auto &g) { grad(g); return 1.0; }, 0.125, diff::kCentral, false);
}
#define CN(name, X, N, H) extern "C" void h_n_##name(const double *in, double *out) { nan<X, N, H>(in, out); }
using V3 = Vector<double, 3>;
CN(s, X1, 1, false) CN(v2, V2, 2, false) CN(v3, V3, 3, false) CN(vx, VX, 3, false) CN(u, U, 2, false) CN(v2_h, V2, 2, true)
// user gradient and Hessian of constant residuals; in: G (2), H (4)
template <class H_t> static void nanr(const double *in, double *out) {
  V2 x = V2::Zero();
  const auto f = [&](const auto &, auto &g, H_t &H) {
    if constexpr (!std::is_null_pointer_v<std::decay_t<decltype(g)>>) {
      for (int k = 0; k < 2; ++k) g[k] = in[k];
      if constexpr (std::is_same_v<H_t, SparseMatrix<double>>) {
        for (int k = 0; k < 4; ++k) H.coeffRef(k / 2, k % 2) = in[2 + k];
      } else
        for (int k = 0; k < 4; ++k) H(k / 2, k % 2) = in[2 + k];
    }
    return V2(1, 2);
  };
  out[0] = diff::CheckResidualsGradient(x, f, 0.125, diff::kCentral, false);
}
extern "C" void h_n_res(const double *in, double *out) { nanr<Matrix<double, 2, 2>>(in, out); }
extern "C" void h_n_ress(const double *in, double *out) { nanr<SparseMatrix<double>>(in, out); }
#endif
#ifdef VF_R
// residuals c + A (x - x0); the user gradient and Hessian are the right ones plus G and H
// in: eps, verbose, check_H, downscale, A (M*N), c (M), x0 (N), G (N), H (N*N)
// out: answer, x
template <diff::Method Me, class X, int M, int N, class H_t> static void rcheck(const double *in, double *out) {
  X x = make<X>(N);
  const double *A = in + 4, *c = A + M * N, *x0 = c + M, *G = x0 + N, *UH = G + N;
  put<X, N>(x, x0);
  const auto f = [&](const auto &x, auto &g, H_t &H) {
    Vector<double, M> r;
    for (int i = 0; i < M; ++i) {
      r[i] = c[i];
      for (int k = 0; k < N; ++k) r[i] += A[i * N + k] * (at(x, k) - x0[k]);
    }
    if constexpr (!std::is_null_pointer_v<std::decay_t<decltype(g)>>) {
      for (int k = 0; k < N; ++k) {
        double s = 0;
        for (int i = 0; i < M; ++i) s += A[i * N + k] * c[i];
        g[k] = G[k] + (in[3] != 0 ? s : 2 * s);
      }
      for (int k = 0; k < N * N; ++k) {
        double s = UH[k];
        for (int i = 0; i < M; ++i) s += A[i * N + k / N] * A[i * N + k % N];
        if constexpr (std::is_same_v<H_t, SparseMatrix<double>>) H.coeffRef(k / N, k % N) = s;
        else H(k / N, k % N) = s;
      }
    }
    if constexpr (M == 1) return r[0];
    else return r;
  };
  out[0] = diff::CheckResidualsGradient(x, f, in[0], Me, in[1] != 0, in[2] != 0, in[3] != 0);
  for (int k = 0; k < N; ++k) out[1 + k] = at(x, k);
}
#define CR(name, X, M, N, H) extern "C" void h_r_##name(const double *in, double *out) { rcheck<diff::kCentral, X, M, N, H>(in, out); }
using H1 = Matrix<double, 1, 1>;
using HX = Matrix<double, Dynamic, Dynamic>;
using HS = SparseMatrix<double>;
CR(s, X1, 1, 1, H1) CR(s2, X1, 2, 1, H1) CR(v2, V2, 2, 2, M22) CR(v2_1, V2, 1, 2, M22) CR(vx, VX, 2, 2, HX) CR(v2s, V2, 2, 2, HS) CR(ss, X1, 1, 1, HS) CR(u, U, 2, 2, M22)
#endif
