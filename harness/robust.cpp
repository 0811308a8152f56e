// Wrappers exposing the robust losses of losses/robust_norms.h on flat arrays.
#include "vfmt.h"
#include <tinyopt/losses/robust_norms.h>
using namespace tinyopt;
using namespace tinyopt::losses;

// in: n2, th2, j0, j1 ; out: value, value(with scale), scale, value(with J), scaled row(2), float value, float scale
#define ROBUST(NAME, LOSS, ID)                                                             \
  extern "C" void h_##ID##_scalar(const double *in, double *out) {                         \
    out[0] = NAME(in[0], in[1]);                                                           \
    const auto r = NAME(in[0], in[1], true);                                               \
    out[1] = r.first;                                                                      \
    out[2] = r.second;                                                                     \
    const RowVector<double, 2> J(in[2], in[3]);                                            \
    const auto s = NAME(in[0], in[1], J);                                                  \
    out[3] = s.first;                                                                      \
    out[4] = s.second[0];                                                                  \
    out[5] = s.second[1];                                                                  \
    const auto p = NAME(std::make_pair(in[0], RowVector<double, 2>(in[2], in[3])), in[1]); \
    out[6] = p.first;                                                                      \
    out[7] = p.second[0];                                                                  \
    out[8] = p.second[1];                                                                  \
  }                                                                                        \
  extern "C" void h_##ID##_float(const double *in, double *out) {                          \
    const float n2 = in[0], th2 = in[1];                                                   \
    out[0] = NAME(n2, th2);                                                                \
    const auto r = NAME(n2, th2, true);                                                    \
    out[1] = r.first;                                                                      \
    out[2] = r.second;                                                                     \
  }                                                                                        \
  /* in: x(3), th2, Jx(3x2 row-major) ; out: value, J(3), value, J*Jx (2) */               \
  extern "C" void h_##ID##_vec3(const double *in, double *out) {                           \
    const Vec3 x(in[0], in[1], in[2]);                                                     \
    out[0] = LOSS(x, in[3]);                                                               \
    const auto r = LOSS(x, in[3], true);                                                   \
    out[1] = r.first;                                                                      \
    for (int i = 0; i < 3; ++i) out[2 + i] = r.second[i];                                  \
    Matrix<double, 3, 2> Jx;                                                               \
    Jx << in[4], in[5], in[6], in[7], in[8], in[9];                                        \
    const auto s = LOSS(x, in[3], Jx);                                                     \
    out[5] = s.first;                                                                      \
    out[6] = s.second[0];                                                                  \
    out[7] = s.second[1];                                                                  \
  }                                                                                        \
  /* dynamic size 2 */                                                                     \
  extern "C" void h_##ID##_dyn2(const double *in, double *out) {                           \
    VecX x(2);                                                                             \
    x << in[0], in[1];                                                                     \
    const auto r = LOSS(x, in[2], true);                                                   \
    out[0] = r.first;                                                                      \
    out[1] = r.second[0];                                                                  \
    out[2] = r.second[1];                                                                  \
    out[3] = r.second.size();                                                              \
  }                                                                                        \
  /* scalar residual x, th2 */                                                             \
  extern "C" void h_##ID##_res1(const double *in, double *out) {                           \
    out[0] = LOSS(in[0], in[1]);                                                           \
  }

ROBUST(Truncated, TruncatedLoss, truncated)
ROBUST(Huber, HuberLoss, huber)
ROBUST(Tukey, TukeyLoss, tukey)
ROBUST(Arctan, ArctanLoss, arctan)
ROBUST(Cauchy, CauchyLoss, cauchy)
ROBUST(GemanMcClure, GemanMcClureLoss, geman)
ROBUST(BlakeZisserman, BlakeZissermanLoss, blake)
