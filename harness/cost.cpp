// Cost: residual counts, inlier counts and accumulation.
#include "vfmt.h"
#include <tinyopt/cost.h>
using namespace tinyopt;

static void put(double *o, const Cost &c) {
  o[0] = c.cost; o[1] = c.num_resisuals; o[2] = c.NumInliers(); o[3] = c.NumOutliers(); o[4] = c.inlier_ratio;
}
static Cost mk(const double *i) {
  const int n = (int)i[1], k = (int)i[2];
  return Cost(i[0], n, (float)k / (float)n);
}
// in = cost, n, k (inliers)
extern "C" void h_one(const double *in, double *out) { put(out, mk(in)); out[5] = (double)mk(in); out[6] = mk(in).isValid(); }
extern "C" void h_sum(const double *in, double *out) { Cost a = mk(in); a += mk(in + 3); put(out, a); }
extern "C" void h_sum3(const double *in, double *out) { Cost a = mk(in); a += mk(in + 3); a += mk(in + 6); put(out, a); }
extern "C" void h_empty_l(const double *in, double *out) { Cost a; a += mk(in); put(out, a); }
extern "C" void h_empty_r(const double *in, double *out) { Cost a = mk(in); a += Cost(); put(out, a); }
extern "C" void h_empty(const double *in, double *out) { Cost a; put(out, a); a += Cost(); put(out + 5, a); out[10] = Cost().isValid(); }
extern "C" void h_value(const double *in, double *out) { Cost a(in[0]); put(out, a); Cost b; b = in[0]; put(out + 5, b); }
// residual vectors
extern "C" void h_vec(const double *in, double *out) {
  Vector<double, 3> r(in[3], in[4], in[5]);
  Cost a(r); put(out, a);
  Cost b = mk(in); b += r; put(out + 5, b);
  Cost c; c = r; put(out + 10, c);
}
extern "C" void h_vecx(const double *in, double *out) {
  Vector<double, Dynamic> r(2); r << in[3], in[4];
  Cost a(r); put(out, a);
  Cost b = mk(in); b += r; put(out + 5, b);
  Cost c; c = r; put(out + 10, c);
}
extern "C" void h_mat(const double *in, double *out) {
  Matrix<double, 2, 2> r; r << in[3], in[4], in[5], in[6];
  Cost a(r); put(out, a);
  Cost b = mk(in); b += r; put(out + 5, b);
  Cost c; c = r; put(out + 10, c);
}
extern "C" void h_cmp(const double *in, double *out) {
  const Cost a = mk(in), b = mk(in + 3);
  out[0] = a < b; out[1] = a <= b; out[2] = a < b.cost; out[3] = a <= b.cost; out[4] = b < a; out[5] = b <= a;
  out[6] = a < (float)2.5f; out[7] = a <= (float)2.5f;
}
