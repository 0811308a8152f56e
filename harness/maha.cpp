// Wrappers exposing the Mahalanobis norms and whitening on flat arrays.
#include "vfmt.h"
#include <tinyopt/losses/mahalanobis.h>
using namespace tinyopt;
using namespace tinyopt::losses;

template <int N, int M>
static Matrix<double, M, M> mat(const double *in) {
  Matrix<double, M, M> A(N, N);
  for (int i = 0; i < N * N; ++i) A(i / N, i % N) = in[i];
  return A;
}
template <int N, int M>
static Vector<double, M> vec(const double *in) {
  Vector<double, M> v(N);
  for (int i = 0; i < N; ++i) v[i] = in[i];
  return v;
}
template <typename J>
static void put(const J &j, double *out) {
  for (int r = 0; r < j.rows(); ++r)
    for (int c = 0; c < j.cols(); ++c) out[r * j.cols() + c] = j(r, c);
}

// scalar: in = x, var, jx
template <typename F>
static void scalar(const F &f, const double *in, double *out) {
  const double x = in[0], var = in[1], jx = in[2];
  out[0] = f(x, var, nullptr);
  const auto [v, J] = f(x, var, true);
  out[1] = v, out[2] = J;
  const auto [v2, J2] = f(x, var, jx);
  out[3] = v2, out[4] = J2;
}
// vector: in = x[2], cov (2 variances or 2x2), Jx[2x2] row major; out = v, v, J[2], v, JJx[2]
template <int M, bool Full, typename F>
static void vector(const F &f, const double *in, double *out) {
  const auto x = vec<2, M>(in);
  const auto go = [&](const auto &c, const double *jin) {
    const auto Jx = mat<2, M>(jin);
    out[0] = f(x, c, nullptr);
    const auto [v, J] = f(x, c, true);
    out[1] = v;
    put(J, out + 2);
    const auto [v2, J2] = f(x, c, Jx);
    out[4] = v2;
    put(J2, out + 5);
    out[7] = J.size() == 2 && J2.size() == 2;
  };
  if constexpr (Full) go(mat<2, M>(in + 2), in + 6);
  else go(vec<2, M>(in + 2), in + 4);
}
#define SQ [](const auto &...a) { return MahaSquaredNorm(a...); }
#define NO [](const auto &...a) { return MahaNorm(a...); }
extern "C" void h_sq_scalar(const double *in, double *out) { scalar(SQ, in, out); }
extern "C" void h_no_scalar(const double *in, double *out) { scalar(NO, in, out); }
extern "C" void h_sq_var(const double *in, double *out) { vector<2, false>(SQ, in, out); }
extern "C" void h_no_var(const double *in, double *out) { vector<2, false>(NO, in, out); }
extern "C" void h_sq_varx(const double *in, double *out) { vector<Dynamic, false>(SQ, in, out); }
extern "C" void h_no_varx(const double *in, double *out) { vector<Dynamic, false>(NO, in, out); }
#ifdef COV
extern "C" void h_sq_cov(const double *in, double *out) { vector<2, true>(SQ, in, out); }
extern "C" void h_no_cov(const double *in, double *out) { vector<2, true>(NO, in, out); }
#endif
#ifdef COVX
// covariances of dynamic size: a matrix, or one column of variances
template <bool Full, typename F>
static void dynamic(const F &f, const double *in, double *out) {
  const auto x = vec<2, 2>(in);
  const MatX c = Full ? MatX(mat<2, 2>(in + 2)) : MatX(vec<2, 2>(in + 2));
  const auto Jx = mat<2, 2>(in + (Full ? 6 : 4));
  out[0] = f(x, c, nullptr);
  const auto [v, J] = f(x, c, true);
  out[1] = v;
  put(J, out + 2);
  const auto [v2, J2] = f(x, c, Jx);
  out[4] = v2;
  put(J2, out + 5);
  out[7] = J.size() == 2 && J2.size() == 2;
}
extern "C" void h_sq_covx(const double *in, double *out) { dynamic<true>(SQ, in, out); }
extern "C" void h_no_covx(const double *in, double *out) { dynamic<true>(NO, in, out); }
extern "C" void h_sq_varm(const double *in, double *out) { dynamic<false>(SQ, in, out); }
extern "C" void h_no_varm(const double *in, double *out) { dynamic<false>(NO, in, out); }
#endif
extern "C" void h_sq_noscale(const double *in, double *out) {
  const auto x = vec<2, 2>(in), c = vec<2, 2>(in + 2);
  const auto [v, J] = MahaSquaredNorm(x, c, true, false);
  out[0] = v;
  put(J, out + 1);
  const auto [v2, J2] = MahaSquaredNorm(in[0], in[2], true, false);
  out[3] = v2, out[4] = J2;
}

// whitening: out = r[2], r[2], J[4], r[2], JJx[4]
template <typename F>
static void whit(const F &f, const double *jin, double *out) {
  const auto Jx = mat<2, 2>(jin);
  put(f(nullptr), out);
  const auto [v, J] = f(true);
  put(v, out + 2);
  if constexpr (std::is_same_v<std::decay_t<decltype(J)>, double>) put(Matrix<double, 2, 2>(J * Matrix<double, 2, 2>::Identity()), out + 4);
  else put(J, out + 4);
  const auto [v2, J2] = f(Jx);
  put(v2, out + 8);
  put(J2, out + 10);
}
extern "C" void h_w_iso(const double *in, double *out) {
  const auto x = vec<2, 2>(in);
  whit([&](const auto &e) { return MahaWhitened(x, in[2], e); }, in + 3, out);
}
extern "C" void h_w_std(const double *in, double *out) {
  const auto x = vec<2, 2>(in), s = vec<2, 2>(in + 2);
  whit([&](const auto &e) { return MahaWhitened(x, s, e); }, in + 4, out);
}
extern "C" void h_w_stdx(const double *in, double *out) {
  const auto x = vec<2, Dynamic>(in), s = vec<2, Dynamic>(in + 2);
  whit([&](const auto &e) { return MahaWhitened(x, s, e); }, in + 4, out);
}
extern "C" void h_w_cov(const double *in, double *out) {
  const auto x = vec<2, 2>(in);
  const auto c = mat<2, 2>(in + 2);
  whit([&](const auto &e) { return MahaWhitened(x, c, e); }, in + 6, out);
}
extern "C" void h_w_covx(const double *in, double *out) {
  const auto x = vec<2, Dynamic>(in);
  const auto c = mat<2, Dynamic>(in + 2);
  whit([&](const auto &e) { return MahaWhitened(x, c, e); }, in + 6, out);
}
extern "C" void h_w_info(const double *in, double *out) {
  const auto x = vec<2, 2>(in);
  const auto c = mat<2, 2>(in + 2);
  whit([&](const auto &e) { return MahaWhitenedInfoU(x, c, e); }, in + 6, out);
}
