// Wrappers exposing the activations and softmax on flat arrays.
#include "vfmt.h"
#include <tinyopt/losses/activations.h>
#include <tinyopt/losses/classif.h>
using namespace tinyopt;
using namespace tinyopt::losses;

template <int N, int M, int C = N>
static Matrix<double, M, (M == Dynamic ? Dynamic : C)> mat(const double *in) {
  Matrix<double, M, (M == Dynamic ? Dynamic : C)> A(N, C);
  for (int i = 0; i < N * C; ++i) A(i / C, i % C) = in[i];
  return A;
}
template <int N, int M>
static Vector<double, M> vec(const double *in) {
  Vector<double, M> v(N);
  for (int i = 0; i < N; ++i) v[i] = in[i];
  return v;
}
template <typename J>
static void put(const J &j, double *out) {
  if constexpr (std::is_arithmetic_v<J>) out[0] = j;
  else
    for (int r = 0; r < j.rows(); ++r)
      for (int c = 0; c < j.cols(); ++c) out[r * j.cols() + c] = j(r, c);
}
// out = v[2], v[2], J[4], v[2], JJx[4], sizes
template <typename F, typename X, typename JX>
static void vect(const F &f, const X &x, const JX &jx, double *out) {
  put(f(x), out);
  const auto [v, J] = f(x, true);
  put(v, out + 2);
  put(J, out + 4);
  const auto [v2, J2] = f(x, jx);
  put(v2, out + 8);
  put(J2, out + 10);
  out[14] = v.size() == 2 && J.rows() == 2 && J.cols() == 2 && J2.rows() == 2 && J2.cols() == 2;
}
// in = x, jx; out = v, v, J, v, J*jx, v, J via pair, v, J*Jx row (2)
template <typename F>
static void scal(const F &f, const double *in, double *out) {
  put(f(in[0]), out);
  const auto [v, J] = f(in[0], true);
  put(v, out + 1);
  put(J, out + 2);
  const auto [v2, J2] = f(in[0], in[1]);
  put(v2, out + 3);
  put(J2, out + 4);
  const Matrix<double, 1, 2> row(in[1], 2 * in[1]);
  const auto [v3, J3] = f(in[0], row);
  put(v3, out + 5);
  put(J3, out + 6);
}
#define ONE(name, fn)                                                                                                     \
  extern "C" void h_##name##_s(const double *in, double *out) { scal([](const auto &...a) { return fn(a...); }, in, out); } \
  extern "C" void h_##name##_v(const double *in, double *out) {                                                           \
    vect([](const auto &...a) { return fn(a...); }, vec<2, 2>(in), mat<2, 2>(in + 2), out);                               \
  }                                                                                                                       \
  extern "C" void h_##name##_x(const double *in, double *out) {                                                           \
    vect([](const auto &...a) { return fn(a...); }, vec<2, Dynamic>(in), mat<2, Dynamic>(in + 2), out);                   \
  }                                                                                                                       \
  extern "C" void h_##name##_p(const double *in, double *out) {                                                           \
    const auto [v, J] = fn(std::make_pair(vec<2, 2>(in), mat<2, 2>(in + 2)));                                             \
    put(v, out);                                                                                                          \
    put(J, out + 2);                                                                                                      \
    const auto [s, K] = fn(std::make_pair(in[0], true));                                                                  \
    put(s, out + 6);                                                                                                      \
    put(K, out + 7);                                                                                                      \
  }
ONE(sigmoid, Sigmoid)
ONE(tanh, Tanh)
ONE(relu, ReLU)
ONE(softmax, Softmax)
ONE(safesoftmax, SafeSoftmax)
#define LK [a](const auto &x, const auto &...j) { return LeakyReLU(x, a, j...); }
extern "C" void h_leaky_s(const double *in, double *out) { const double a = in[2]; scal(LK, in, out); }
extern "C" void h_leaky_v(const double *in, double *out) { const double a = in[6]; vect(LK, vec<2, 2>(in), mat<2, 2>(in + 2), out); }
extern "C" void h_leaky_x(const double *in, double *out) { const double a = in[6]; vect(LK, vec<2, Dynamic>(in), mat<2, Dynamic>(in + 2), out); }
extern "C" void h_leaky_p(const double *in, double *out) {
  const double a = in[6];
  const auto [v, J] = LeakyReLU(std::make_pair(vec<2, 2>(in), mat<2, 2>(in + 2)), a);
  put(v, out);
  put(J, out + 2);
  const auto [s, K] = LeakyReLU(std::make_pair(in[0], true), a);
  put(s, out + 6);
  put(K, out + 7);
}
// three entries: value and Jacobian
template <typename F>
static void soft3(const F &f, const double *in, double *out) {
  const auto [v, J] = f(vec<3, 3>(in), true);
  put(v, out);
  put(J, out + 3);
}
extern "C" void h_softmax3(const double *in, double *out) { soft3([](const auto &...a) { return Softmax(a...); }, in, out); }
extern "C" void h_safesoftmax3(const double *in, double *out) { soft3([](const auto &...a) { return SafeSoftmax(a...); }, in, out); }
