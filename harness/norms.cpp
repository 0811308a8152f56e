// Wrappers exposing the norms of losses/norms.h on flat arrays.
#include "vfmt.h"
#include <tinyopt/losses/norms.h>
using namespace tinyopt;
using namespace tinyopt::losses;

#define NORM(NAME, ID)                                                                       \
  /* in: x, j0, j1 (a 1x2 Jacobian of x) */                                                  \
  extern "C" void h_##ID##_scalar(const double *in, double *out) {                           \
    out[0] = NAME(in[0]);                                                                    \
    const auto r = NAME(in[0], true);                                                        \
    out[1] = r.first;                                                                        \
    out[2] = r.second;                                                                       \
    out[3] = NAME(in[0], nullptr);                                                           \
    const float f = (float)in[0];                                                            \
    const auto q = NAME(f, true);                                                            \
    out[4] = q.first;                                                                        \
    out[5] = q.second;                                                                       \
  }                                                                                          \
  extern "C" void h_##ID##_scalar_chain(const double *in, double *out) {                     \
    const RowVector<double, 2> Jx(in[1], in[2]);                                             \
    const auto r = NAME(in[0], Jx);                                                          \
    out[0] = r.first;                                                                        \
    const RowVector<double, 2> J = RowVector<double, 2>::Ones().cwiseProduct(                \
        RowVector<double, 2>::Zero() + RowVector<double, 2>(at(r.second, 0), at(r.second, 1)));   \
    out[1] = J[0];                                                                           \
    out[2] = J[1];                                                                           \
  }                                                                                          \
  /* in: x(3), Jx(3x2 row-major) ; out: l, l, J(3), l, J*Jx (2), pair l, pair J*Jx (2) */     \
  extern "C" void h_##ID##_vec3(const double *in, double *out) {                             \
    const Vec3 x(in[0], in[1], in[2]);                                                       \
    out[0] = NAME(x);                                                                        \
    const auto r = NAME(x, true);                                                            \
    out[1] = r.first;                                                                        \
    for (int i = 0; i < 3; ++i) out[2 + i] = r.second[i];                                    \
    out[5] = r.second.size();                                                                \
  }                                                                                          \
  extern "C" void h_##ID##_vec3_chain(const double *in, double *out) {                       \
    const Vec3 x(in[0], in[1], in[2]);                                                       \
    Matrix<double, 3, 2> Jx;                                                                 \
    Jx << in[3], in[4], in[5], in[6], in[7], in[8];                                          \
    const auto s = NAME(x, Jx);                                                              \
    out[0] = s.first;                                                                        \
    out[1] = s.second(0);                                                                    \
    out[2] = s.second(1);                                                                    \
    out[3] = s.second.size();                                                                \
  }                                                                                          \
  extern "C" void h_##ID##_dyn2(const double *in, double *out) {                             \
    VecX x(2);                                                                               \
    x << in[0], in[1];                                                                       \
    const auto r = NAME(x, true);                                                            \
    out[0] = r.first;                                                                        \
    out[1] = r.second[0];                                                                    \
    out[2] = r.second[1];                                                                    \
    out[3] = r.second.size();                                                                \
    out[4] = NAME(x);                                                                        \
  }
// entry i of a Jacobian row (a lone scalar stands for a row that ignored the supplied Jacobian)
template <class T>
double at(const T &v, int i) {
  if constexpr (requires { v(0); }) return v(i);
  else return v;
}
NORM(SquaredL2, sql2)
NORM(L2, l2)
NORM(L1, l1)
NORM(Linf, linf)

extern "C" void h_sql2_unscaled(const double *in, double *out) {
  const Vec3 x(in[0], in[1], in[2]);
  const auto r = SquaredL2(x, true, false);
  out[0] = r.first;
  for (int i = 0; i < 3; ++i) out[1 + i] = r.second[i];
  const auto s = SquaredL2(in[0], true, false);
  out[4] = s.first;
  out[5] = s.second;
}
