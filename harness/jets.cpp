// Automatic differentiation numbers: value and derivative of every operation.
#include "vfmt.h"
#include <tinyopt/math.h>
#include <tinyopt/diff/jet_traits.h>
#include <tinyopt/diff/jet.h>
#include <cmath>
using namespace tinyopt;
using F2 = ceres::Jet<double, 2>;
using DX = ceres::Jet<double, Eigen::Dynamic>;

template <class J> static J arg(const double *in, bool connected) {
  if constexpr (std::is_same_v<J, F2>) return J(in[0], Eigen::Vector2d(in[1], in[2]));
  else return connected ? J(in[0], Eigen::VectorXd(Eigen::Vector2d(in[1], in[2]))) : J(in[0]);
}
// in: x, dx (2), y, dy (2), z, dz (2), scalar; mask: operands that depend on the variables. out: value, derivatives, number of them
template <class J, class Op> static void run(const double *in, double *out, int mask) {
  const J x = arg<J>(in, mask & 1), y = arg<J>(in + 3, mask & 2), z = arg<J>(in + 6, mask & 4);
  const J r = Op::f(x, y, z, in[9]);
  out[0] = r.a;
  for (int i = 0; i < 2; ++i) out[1 + i] = i < r.v.size() ? r.v[i] : 0.0;
  out[3] = r.v.size();
}
#define OP(name, e) \
  template <class J> struct op_##name { static J f(const J &x, const J &y, const J &z, double s) { (void)x; (void)y; (void)z; (void)s; using namespace std; return e; } };
#define FIX(name) extern "C" void h_##name(const double *in, double *out) { run<F2, op_##name<F2>>(in, out, 7); }
#define DYN(name, m) extern "C" void h_d##m##_##name(const double *in, double *out) { run<DX, op_##name<DX>>(in, out, m); }
#define U(name, e) OP(name, e) FIX(name) DYN(name, 1)
#define B(name, e) OP(name, e) FIX(name) DYN(name, 3) DYN(name, 1) DYN(name, 2)
#define T3(name, e) OP(name, e) FIX(name) DYN(name, 7) DYN(name, 1) DYN(name, 2) DYN(name, 4)
#ifdef VF_A
template <class J, class E> static J cmp(J x, const E &e) { e(x); return x; }
U(pos, +x) U(neg, -x) B(add, x + y) B(sub, x - y) B(mul, x *y) B(div, x / y)
U(add_s, x + s) U(s_add, s + x) U(sub_s, x - s) U(s_sub, s - x) U(mul_s, x *s) U(s_mul, s *x) U(div_s, x / s) U(s_div, s / x)
B(cadd, (cmp(x, [&](J &a) { a += y; }))) B(csub, (cmp(x, [&](J &a) { a -= y; }))) B(cmul, (cmp(x, [&](J &a) { a *= y; }))) B(cdiv, (cmp(x, [&](J &a) { a /= y; })))
U(cadd_s, (cmp(x, [&](J &a) { a += s; }))) U(csub_s, (cmp(x, [&](J &a) { a -= s; }))) U(cmul_s, (cmp(x, [&](J &a) { a *= s; }))) U(cdiv_s, (cmp(x, [&](J &a) { a /= s; })))
U(add_self, (cmp(x, [&](J &a) { a += a; }))) U(mul_self, (cmp(x, [&](J &a) { a *= a; }))) U(div_self, (cmp(x, [&](J &a) { a /= a; }))) U(sub_self, (cmp(x, [&](J &a) { a -= a; })))
OP(seed, J(s, 1)) FIX(seed)
OP(constant, J(s)) FIX(constant) DYN(constant, 1)
OP(zero, J()) FIX(zero) DYN(zero, 1)
#endif
#ifdef VF_B
U(abs, abs(x)) U(log, log(x)) U(log10, log10(x)) U(log1p, log1p(x)) U(exp, exp(x)) U(expm1, expm1(x)) U(sqrt, sqrt(x)) U(cos, cos(x)) U(acos, acos(x)) U(sin, sin(x)) U(asin, asin(x)) U(tan, tan(x)) U(atan, atan(x))
U(sinh, sinh(x)) U(cosh, cosh(x)) U(tanh, tanh(x)) U(floor, floor(x)) U(ceil, ceil(x)) U(cbrt, cbrt(x)) U(exp2, exp2(x)) U(log2, log2(x)) U(erf, erf(x)) U(erfc, erfc(x)) U(norm, norm(x))
#endif
#ifdef VF_C
B(hypot, hypot(x, y)) T3(hypot3, hypot(x, y, z)) T3(fma, fma(x, y, z)) B(fmax, fmax(x, y)) B(fmin, fmin(x, y)) B(fdim, fdim(x, y)) B(copysign, copysign(x, y)) B(atan2, atan2(x, y))
T3(lerp, lerp(x, y, z)) B(midpoint, midpoint(x, y))
#endif
#ifdef VF_D
U(pow_s, pow(x, s)) U(s_pow, pow(s, x)) B(pow, pow(x, y))
#endif
#ifdef VF_E
// comparisons and classification; out: answers for jet-jet, jet-scalar, scalar-jet (scalar: value of the other operand)
extern "C" void h_cmp(const double *in, double *out) {
  const F2 x = arg<F2>(in, true), y = arg<F2>(in + 3, true);
  const double a = in[0], b = in[3];
  int k = 0;
#define CMP(o) out[k++] = x o y; out[k++] = x o b; out[k++] = a o y;
  CMP(<) CMP(<=) CMP(>) CMP(>=) CMP(==) CMP(!=)
}
extern "C" void h_dcmp(const double *in, double *out) {
  const DX x = arg<DX>(in, true), y = arg<DX>(in + 3, false);
  const double a = in[0], b = in[3];
  int k = 0;
  CMP(<) CMP(<=) CMP(>) CMP(>=) CMP(==) CMP(!=)
}
extern "C" void h_class(const double *in, double *out) {
  const F2 x = arg<F2>(in, true), y = arg<F2>(in + 3, true);
  using namespace std;
  out[0] = isfinite(x); out[1] = isinf(x); out[2] = isnan(x); out[3] = signbit(x); out[4] = isless(x, y); out[5] = isgreater(x, y); out[6] = islessequal(x, y);
  out[7] = isgreaterequal(x, y); out[8] = islessgreater(x, y); out[9] = isunordered(x, y);
  out[10] = isnormal(x); out[11] = ceres::IsFinite(x); out[12] = ceres::IsInfinite(x); out[13] = ceres::IsNaN(x); out[14] = ceres::IsNormal(x);
}
#endif
