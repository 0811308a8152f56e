// Sparse linear algebra helpers on flat arrays (all entries stored).
#include "vfmt.h"
#include <tinyopt/math.h>
using namespace tinyopt;

template <int N>
static void fill(SparseMatrix<double> &A, const double *in) {
  A.resize(N, N);
  A.reserve(Eigen::VectorXi::Constant(N, N));
  for (int c = 0; c < N; ++c)
    for (int r = 0; r < N; ++r) A.insert(r, c) = in[r * N + c];
  A.makeCompressed();
}
extern "C" void h_spsolve2(const double *in, double *out) {
  SparseMatrix<double> A;
  fill<2>(A, in);
  Vector<double, Dynamic> b(2);
  b << in[4], in[5];
  const auto r = SolveLDLT(A, b);
  out[0] = r.has_value();
  if (r) out[1] = (*r)[0], out[2] = (*r)[1];
}
extern "C" void h_spinv2(const double *in, double *out) {
  SparseMatrix<double> A;
  fill<2>(A, in);
  const auto r = InvCov(A);
  out[0] = r.has_value();
  if (r)
    for (int i = 0; i < 4; ++i) out[1 + i] = r->coeff(i / 2, i % 2);
}
// in: matrix, shift added to the diagonal when the matrix cannot be decomposed
extern "C" void h_spinv2s(const double *in, double *out) {
  SparseMatrix<double> A;
  fill<2>(A, in);
  const auto r = SparseInvCov(A, in[4]);
  out[0] = r.has_value();
  if (r)
    for (int i = 0; i < 4; ++i) out[1 + i] = r->coeff(i / 2, i % 2);
}
extern "C" void h_maxdiff2(const double *in, double *out) {
  SparseMatrix<double> A, B;
  fill<2>(A, in);
  fill<2>(B, in + 4);
  out[0] = MaxAbsDiff(A, B);
}
// every pair of sparsity patterns: bit r + 2 c of P (Q) tells that the entry is stored; out: per Q the difference
static void fill(SparseMatrix<double> &A, const double *in, int P) {
  A.resize(2, 2);
  A.reserve(Eigen::VectorXi::Constant(2, 2));
  for (int c = 0; c < 2; ++c)
    for (int r = 0; r < 2; ++r)
      if (P >> (r + 2 * c) & 1) A.insert(r, c) = in[r * 2 + c];
  A.makeCompressed();
}
template <int P> static void pattern(const double *in, double *out) {
  SparseMatrix<double> A;
  fill(A, in, P);
  for (int Q = 0; Q < 16; ++Q) {
    SparseMatrix<double> B;
    fill(B, in + 4, Q);
    out[Q] = MaxAbsDiff(A, B);
  }
}
#define PAT(P) extern "C" void h_maxdiff_p##P(const double *i, double *o) { pattern<P>(i, o); }
PAT(0) PAT(1) PAT(2) PAT(3) PAT(4) PAT(5) PAT(6) PAT(7) PAT(8) PAT(9) PAT(10) PAT(11) PAT(12) PAT(13) PAT(14) PAT(15)
