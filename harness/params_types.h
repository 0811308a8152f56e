// Parameter types of the differentiation contracts.
#pragma once
#include <tinyopt/math.h>
#include <tinyopt/traits.h>
using namespace tinyopt;

struct U {   // user defined parameters: a scalar and a pair, updated in reverse order
  double a, b;
};
template <class T> struct UT { T a, b; };
namespace tinyopt::traits {
template <>
struct params_trait<U> {
  using Scalar = double;
  static constexpr Index Dims = 2;
  template <class T2> static UT<T2> cast(const U &x) { return UT<T2>{T2(x.a), T2(x.b)}; }
  static void PlusEq(U &x, const auto &d) { x.b += d[0]; x.a += d[1]; }
};
template <class T>
struct params_trait<UT<T>> {
  using Scalar = T;
  static constexpr Index Dims = 2;
  static void PlusEq(UT<T> &x, const auto &d) { x.b += d[0]; x.a += d[1]; }
};
}  // namespace tinyopt::traits

// x[k]: k-th parameter
template <class X> static auto at(const X &x, int k) {
  if constexpr (requires { x.b; x.a; } && !requires { x.v; }) return k == 0 ? x.b : x.a;
  else if constexpr (requires { x.v; } || std::is_floating_point_v<X>) return x;
  else if constexpr (X::ColsAtCompileTime != 1) return x(k % x.rows(), k / x.rows());
  else return x[k];
}
template <class X, int N> static void put(X &x, const double *p) {
  if constexpr (std::is_floating_point_v<X>) x = p[0];
  else if constexpr (std::is_same_v<X, U>) x = U{p[1], p[0]};
  else for (int k = 0; k < N; ++k) x(k % x.rows(), k / x.rows()) = p[k];
}
template <class X> static X make(int n) {
  if constexpr (std::is_floating_point_v<X> || std::is_same_v<X, U>) return X{};
  else if constexpr (X::ColsAtCompileTime == 1) return X::Zero(n);
  else return X::Zero(2, n / 2);
}
using X1 = double;
using V1 = Vector<double, 1>;
using V2 = Vector<double, 2>;
using VX = Vector<double, Dynamic>;
using M22 = Matrix<double, 2, 2>;
