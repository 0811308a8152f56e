// Wrappers exposing the linear algebra helpers of math.h on flat arrays.
#include "vfmt.h"
#include <tinyopt/math.h>
using namespace tinyopt;

template <int N, int M>
static void inv(const double *in, double *out) {
  Matrix<double, M, M> A(N, N);
  for (int i = 0; i < N * N; ++i) A(i / N, i % N) = in[i];
  const auto r = InvCov(A);
  out[0] = r.has_value();
  if (r)
    for (int i = 0; i < N * N; ++i) out[1 + i] = (*r)(i / N, i % N);
}
extern "C" void h_inv2(const double *in, double *out) { inv<2, 2>(in, out); }
extern "C" void h_inv2x(const double *in, double *out) { inv<2, Dynamic>(in, out); }
extern "C" void h_inv1(const double *in, double *out) { inv<1, Dynamic>(in, out); }
extern "C" void h_inv1s(const double *in, double *out) { inv<1, 1>(in, out); }

template <int N, int M>
static void solve(const double *in, double *out) {
  Matrix<double, M, M> A(N, N);
  Vector<double, M> b(N);
  for (int i = 0; i < N * N; ++i) A(i / N, i % N) = in[i];
  for (int i = 0; i < N; ++i) b[i] = in[N * N + i];
  const auto r = SolveLDLT(A, b);
  out[0] = r.has_value();
  if (r)
    for (int i = 0; i < N; ++i) out[1 + i] = (*r)[i];
}
extern "C" void h_solve1(const double *in, double *out) { solve<1, 1>(in, out); }
extern "C" void h_solve2(const double *in, double *out) { solve<2, 2>(in, out); }
extern "C" void h_solve2x(const double *in, double *out) { solve<2, Dynamic>(in, out); }
