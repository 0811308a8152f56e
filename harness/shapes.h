// Residual shapes over a class Aff<M, N> giving residual i of M.
#pragma once

template <int M, int N> struct Scal : Aff<M, N> { template <class X> auto operator()(const X &x) const { return this->row(x, 0); } };
template <int M, int N> struct Vec : Aff<M, N> {
  template <class X> auto operator()(const X &x) const {
    using T = decltype(this->row(x, 0));
    Vector<T, M> r;
    for (int i = 0; i < M; ++i) r[i] = this->row(x, i);
    return r;
  }
};
template <int M, int N> struct VecD : Aff<M, N> {
  template <class X> auto operator()(const X &x) const {
    using T = decltype(this->row(x, 0));
    Vector<T, Dynamic> r(M);
    for (int i = 0; i < M; ++i) r[i] = this->row(x, i);
    return r;
  }
};
template <int M, int N> struct Mat : Aff<M, N> {   // M = 4
  template <class X> auto operator()(const X &x) const {
    using T = decltype(this->row(x, 0));
    Matrix<T, 2, 2> r;
    for (int i = 0; i < M; ++i) r(i % 2, i / 2) = this->row(x, i);
    return r;
  }
};
template <int M, int N> struct MatD : Aff<M, N> {
  template <class X> auto operator()(const X &x) const {
    using T = decltype(this->row(x, 0));
    Matrix<T, Dynamic, Dynamic> r(2, M / 2);
    for (int i = 0; i < M; ++i) r(i % 2, i / 2) = this->row(x, i);
    return r;
  }
};
template <int M, int N> struct Unc : Aff<M, N> {   // the last residual does not depend on the parameters
  template <class X> auto operator()(const X &x) const {
    using T = decltype(this->row(x, 0));
    Vector<T, M> r;
    for (int i = 0; i + 1 < M; ++i) r[i] = this->row(x, i);
    r[M - 1] = T(this->cst(M - 1));
    return r;
  }
};
