// Wrappers exposing distances.h on flat arrays.
#include "vfmt.h"
#include <tinyopt/distances.h>
using namespace tinyopt;
using namespace tinyopt::distances;

#define DIST(NAME, ID)                                                     \
  extern "C" void h_##ID##_scalar(const double *in, double *out) {         \
    out[0] = NAME(in[0], in[1]);                                           \
    const auto [d, Ja, Jb] = NAME(in[0], in[1], true);                     \
    out[1] = d;                                                            \
    out[2] = Ja;                                                           \
    out[3] = Jb;                                                           \
  }                                                                        \
  VECDIST(NAME, ID)
#define VECDIST(NAME, ID)                                                  \
  extern "C" void h_##ID##_vec3(const double *in, double *out) {           \
    const Vec3 a(in[0], in[1], in[2]), b(in[3], in[4], in[5]);             \
    out[0] = NAME(a, b);                                                   \
    const auto [d, Ja, Jb] = NAME(a, b, true);                             \
    out[1] = d;                                                            \
    for (int i = 0; i < 3; ++i) out[2 + i] = Ja(i), out[5 + i] = Jb(i);    \
    out[8] = Ja.size();                                                    \
    out[9] = Jb.size();                                                    \
    out[10] = NAME(b, a);                                                  \
  }                                                                        \
  extern "C" void h_##ID##_dyn2(const double *in, double *out) {           \
    VecX a(2), b(2);                                                       \
    a << in[0], in[1];                                                     \
    b << in[2], in[3];                                                     \
    out[0] = NAME(a, b);                                                   \
    const auto [d, Ja, Jb] = NAME(a, b, true);                             \
    out[1] = d;                                                            \
    for (int i = 0; i < 2; ++i) out[2 + i] = Ja(i), out[4 + i] = Jb(i);    \
    out[6] = Ja.size();                                                    \
    out[7] = Jb.size();                                                    \
    out[8] = NAME(b, a);                                                   \
  }
DIST(Euclidean, euclidean)
DIST(Manhattan, manhattan)
DIST(distances::L1, l1)
DIST(distances::L2, l2)
DIST(distances::Linf, linf)
VECDIST(Cosine, cosine)

// in: a, b, var
extern "C" void h_maha_scalar(const double *in, double *out) {
  out[0] = distances::MahaNorm(in[0], in[1], in[2]);
  const auto [d, Ja, Jb] = distances::MahaNorm(in[0], in[1], in[2], true);
  out[1] = d;
  out[2] = Ja;
  out[3] = Jb;
}
// in: a(2), b(2), variances(2)
extern "C" void h_maha_vars(const double *in, double *out) {
  const Vec2 a(in[0], in[1]), b(in[2], in[3]), v(in[4], in[5]);
  out[0] = distances::MahaNorm(a, b, v);
  const auto [d, Ja, Jb] = distances::MahaNorm(a, b, v, true);
  out[1] = d;
  for (int i = 0; i < 2; ++i) out[2 + i] = Ja(i), out[4 + i] = Jb(i);
}
// in: a(2), b(2), covariance(2x2)
#ifdef COV
extern "C" void h_maha_cov(const double *in, double *out) {
  const Vec2 a(in[0], in[1]), b(in[2], in[3]);
  Mat2 c;
  c << in[4], in[5], in[6], in[7];
  out[0] = distances::MahaNorm(a, b, c);
  const auto [d, Ja, Jb] = distances::MahaNorm(a, b, c, true);
  out[1] = d;
  for (int i = 0; i < 2; ++i) out[2 + i] = Ja(i), out[4 + i] = Jb(i);
}
#endif
