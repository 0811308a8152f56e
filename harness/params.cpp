// Parameter containers: dimension, step update and scalar conversion on flat arrays.
#include "vfmt.h"
#include <array>
#include <utility>
#include <vector>
#include <tinyopt/math.h>
#include <tinyopt/traits.h>
using namespace tinyopt;
using namespace tinyopt::traits;

// A user defined type with a static dimension, and one with a dynamic dimension
struct User3 {
  using Scalar = double;
  static constexpr Index Dims = 3;
  User3 &operator+=(const auto &d) { for (int i = 0; i < 3; ++i) v[i] += d[i]; return *this; }
  double v[3];
};
struct UserX {
  using Scalar = double;
  Index dims() const { return 2; }
  UserX &operator+=(const auto &d) { for (int i = 0; i < 2; ++i) v[i] += d[i]; return *this; }
  double v[2];
};

// user defined types of any scalar, converted by a member, by a static function or by a constructor; with and without a static dimension
template <class S> struct UserM {
  using Scalar = S;
  static constexpr Index Dims = 2;
  template <class T> UserM<T> cast() const { return {{T(v[0]), T(v[1])}}; }
  S v[2];
};
template <class S> struct UserS {
  using Scalar = S;
  static constexpr Index Dims = 2;
  template <class T> static UserS<T> cast(const UserS &x) { return {{T(x.v[0]), T(x.v[1])}}; }
  S v[2];
};
template <class S> struct UserXM {
  using Scalar = S;
  Index dims() const { return 2; }
  template <class T> UserXM<T> cast() const { return {{T(v[0]), T(v[1])}}; }
  S v[2];
};

// storage order traversal
template <class S, typename F> void each(UserM<S> &x, const F &f) { for (auto &v : x.v) f(v); }
template <class S, typename F> void each(UserS<S> &x, const F &f) { for (auto &v : x.v) f(v); }
template <class S, typename F> void each(UserXM<S> &x, const F &f) { for (auto &v : x.v) f(v); }
template <typename F> void each(double &x, const F &f) { f(x); }
template <typename F> void each(float &x, const F &f) { f(x); }
template <typename F> void each(User3 &x, const F &f) { for (auto &v : x.v) f(v); }
template <typename F> void each(UserX &x, const F &f) { for (auto &v : x.v) f(v); }
template <typename D, typename F> void each(Eigen::PlainObjectBase<D> &x, const F &f) { for (Index i = 0; i < x.size(); ++i) f(x.data()[i]); }
template <typename A, typename B, typename F> void each(std::pair<A, B> &x, const F &f);
template <typename A, typename F> void each(std::vector<A> &x, const F &f);
template <typename A, std::size_t N, typename F> void each(std::array<A, N> &x, const F &f);
template <typename A, typename B, typename F> void each(std::pair<A, B> &x, const F &f) { each(x.first, f); each(x.second, f); }
template <typename A, typename F> void each(std::vector<A> &x, const F &f) { for (auto &v : x) each(v, f); }
template <typename A, std::size_t N, typename F> void each(std::array<A, N> &x, const F &f) { for (auto &v : x) each(v, f); }

// in = x[N], delta[N]; out = x after update [N], dims, DynDims, compile-time dims, x after the opposite update [N]
template <int N, int DD, typename T>
static void upd(T x, const double *in, double *out) {
  int k = 0;
  each(x, [&](auto &v) { v = in[k++]; });
  Vector<double, DD> d(N);
  for (int i = 0; i < N; ++i) d[i] = in[N + i];
  params_trait<T>::PlusEq(x, d);
  k = 0;
  each(x, [&](auto &v) { out[k++] = v; });
  out[N] = DynDims(x);
  out[N + 1] = params_trait<T>::Dims;
  d = (-d).eval();
  params_trait<T>::PlusEq(x, d);
  k = 0;
  each(x, [&](auto &v) { out[N + 2 + k++] = v; });
  out[N + 2 + N] = k;
}
#define UPD(name, N, DD, ...) \
  extern "C" void h_upd_##name(const double *in, double *out) { upd<N, DD>(__VA_ARGS__, in, out); }
using V2 = Vector<double, 2>;
using V3 = Vector<double, 3>;
using VX = Vector<double, Dynamic>;
using M23 = Matrix<double, 2, 3>;
using MX = Matrix<double, Dynamic, Dynamic>;
UPD(scalar, 1, 1, double())
UPD(vec3, 3, 3, V3())
UPD(vecx, 3, Dynamic, VX(3))
UPD(mat23, 6, 6, M23())
UPD(matx, 6, Dynamic, MX(3, 2))
UPD(arr, 3, 3, std::array<double, 3>())
UPD(arr_v2, 6, 6, std::array<V2, 3>())
UPD(arr_vx, 6, Dynamic, std::array<VX, 3>{VX(1), VX(3), VX(2)})
UPD(vector, 3, Dynamic, std::vector<double>(3))
UPD(vector_v2, 6, Dynamic, std::vector<V2>(3))
UPD(vector_vx, 5, Dynamic, std::vector<VX>{VX(2), VX(3)})
UPD(pair, 5, 5, std::pair<V2, V3>())
UPD(pair_s, 4, 4, std::pair<double, V3>())
UPD(pair_s2, 3, 3, std::pair<V2, double>())
UPD(pair_same, 4, 4, std::pair<V2, V2>())
UPD(pair_x1, 4, Dynamic, std::pair<VX, V2>(VX(2), V2()))
UPD(pair_x2, 5, Dynamic, std::pair<V2, VX>(V2(), VX(3)))
UPD(pair_xx, 5, Dynamic, std::pair<VX, VX>(VX(2), VX(3)))
UPD(pair_mat, 8, 8, std::pair<M23, V2>())
UPD(nested, 7, 7, std::pair<std::array<V2, 2>, V3>())
UPD(nested2, 8, 8, std::array<std::pair<V2, V2>, 2>())
UPD(nested3, 6, Dynamic, std::vector<std::array<V3, 2>>(1))
UPD(user3, 3, 3, User3())
UPD(userx, 2, Dynamic, UserX())
UPD(arr_user3, 6, 6, std::array<User3, 2>())
UPD(pair_user, 5, 5, std::pair<User3, V2>())

// conversion of the scalar type: double -> float -> values
template <int N, typename T>
static void cst(T x, const double *in, double *out) {
  int k = 0;
  each(x, [&](auto &v) { v = in[k++]; });
  auto y = params_trait<T>::template cast<float>(x);
  k = 0;
  each(y, [&](auto &v) { out[k++] = v; });
  out[N] = k;
  out[N + 1] = params_trait<decltype(y)>::Dims;
  out[N + 2] = params_trait<T>::Dims;
}
#define CST(name, N, ...) \
  extern "C" void h_cst_##name(const double *in, double *out) { cst<N>(__VA_ARGS__, in, out); }
CST(scalar, 1, double())
CST(vec3, 3, V3())
CST(mat23, 6, M23())
CST(matx, 6, MX(3, 2))
CST(arr, 3, std::array<double, 3>())
CST(arr_v2, 6, std::array<V2, 3>())
CST(arr_vx, 6, std::array<VX, 3>{VX(1), VX(3), VX(2)})
CST(vector, 3, std::vector<double>(3))
CST(vector_vx, 5, std::vector<VX>{VX(2), VX(3)})
CST(pair, 5, std::pair<V2, V3>())
CST(pair_xs, 3, std::pair<VX, double>(VX(2), 0.))
CST(nested, 7, std::pair<std::array<V2, 2>, V3>())
CST(user_m, 2, UserM<double>())
CST(user_s, 2, UserS<double>())
CST(user_xm, 2, UserXM<double>())
