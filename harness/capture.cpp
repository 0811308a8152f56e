// Every entry point and user function signature with the solvers replaced by their contract: the solver that
// is chosen, the options, start and accumulator it is given.
#include "vfmt.h"
#include <array>
#include <tinyopt/tinyopt.h>
using namespace tinyopt;
using V1 = Vector<double, 1>;
using V2 = Vector<double, 2>;
using VX = Vector<double, Dynamic>;
using A2 = std::array<double, 2>;
template <class X> inline constexpr int kN = std::is_same_v<X, double> || std::is_same_v<X, V1> ? 1 : 2;

template <class X> static auto &at(X &x, int i) {
  if constexpr (requires { x[0]; }) return x[i];
  else return x;
}
template <class X> static X point(const double *p) {
  X x{};
  if constexpr (std::is_same_v<X, VX>) x.resize(2);
  for (int i = 0; i < kN<X>; ++i) at(x, i) = p[i];
  return x;
}

static int g_jets, g_plain, g_acc, g_builds, g_kind;
static const double *g_in;
static double *g_out;
static constexpr int kProbe = 9;  // gradient (2), Hessian (4), cost, residuals, cost of an evaluation without derivatives
template <int N, class H, class A, class X> static void probe(const X &y, const A &acc, double *out) {
  Vector<double, N> g;
  if constexpr (N == Dynamic) g.resize(2);
  g.setZero();
  std::nullptr_t nul;
  Cost c;
  double e;
  if constexpr (std::is_same_v<H, std::nullptr_t>) {
    if constexpr (std::is_invocable_v<A, const X &, Vector<double, N> &>) {
      c = acc(y, g);
      e = Cost(acc(y, nul)).cost;
    } else {
      c = acc(y, g, nul);
      e = Cost(acc(y, nul, nul)).cost;
    }
  } else {
    H h, h2;
    if constexpr (N == Dynamic || traits::is_sparse_matrix_v<H>) h.resize(g.size(), g.size()), h2.resize(g.size(), g.size());
    h.setZero(); h2.setZero();
    c = acc(y, g, h);
    e = Cost(acc(y, nul, h2)).cost;
    for (int i = 0; i < g.size(); ++i)
      for (int j = 0; j < g.size(); ++j) out[2 + 2 * i + j] = h.coeff(i, j);
  }
  for (int i = 0; i < g.size(); ++i) out[i] = g[i];
  out[6] = c.cost; out[7] = c.num_resisuals; out[8] = e;
}

// in: options (7), start (2), unused (4), points (3 x 2), residuals
// out: kind of the solver, builds, start seen (2), options seen (6), then one probe per build (3) and its reference
template <int N, bool First, class H> struct Cap {
  using Scalar = double;
  static constexpr Index Dims = N;
  static constexpr bool FirstOrder = First, IsNLLS = !First;
  using H_t = std::conditional_t<First, Matrix<double, 1, 1>, H>;
  H_t h_ = H_t(1, 1);
  Cap(const Options &o) {
    double *q = g_out + 4;
    q[0] = o.lm.damping_init; q[1] = o.gd.lr; q[2] = o.lm.good_factor; q[3] = o.max_iters; q[4] = o.max_total_failures; q[5] = o.hessian.use_ldlt;
  }
  void reset() {}
  bool resize(int = N) { return false; }
  template <class X, class A> bool Build(const X &x, const A &acc, bool = true) {
    const int k = g_builds++;
    cost_ = Cost(9.0 - k, 1);
    if (k == 0) for (int i = 0; i < kN<X>; ++i) g_out[2 + i] = at(x, i);
    if (k < 3) probe<N, std::conditional_t<First, std::nullptr_t, H>>(point<X>(g_in + 13 + 2 * k), acc, g_out + 10 + 2 * kProbe * k);
    return true;
  }
  std::optional<Vector<double, N>> Solve() const {
    Vector<double, N> d;
    if constexpr (N == Dynamic) d.resize(2);
    for (int i = 0; i < d.size(); ++i) d[i] = 0.25;
    return d;
  }
  const Cost &cost() const { return cost_; }
  double GradientSquaredNorm() const { return 1; }
  double GradientNorm() const { return 1; }
  void clear() {}
  void GoodStep(double = 0) {}
  void BadStep(double = 0) {}
  void FailedStep() {}
  void Rebuild(bool) {}
  double MaxStdDev(bool = true) const { return 1; }
  const H_t &Hessian() const { return h_; }
  const Vector<double, N> &Gradient() const { return g_; }
  int dims() const { return g_.size(); }
  std::string stateAsString() const { return std::string(); }
  Cost cost_;
  Vector<double, N> g_;
};
#define SOLVER(name, T, N, First, K) \
  template <> class tinyopt::solvers::name<T> : public Cap<N, First, T> { \
   public: \
    explicit name(const Options &o = {}) : Cap(o) { g_kind = K; } \
    const auto &H() const { return this->h_; } \
  };
using M1 = Matrix<double, 1, 1>; using M2 = Matrix<double, 2, 2>; using MX = Matrix<double, Dynamic, Dynamic>; using MS = SparseMatrix<double>;
#define SOLVERS(M, V, N) SOLVER(SolverGN, M, N, false, 1) SOLVER(SolverLM, M, N, false, 2) SOLVER(SolverGD, V, N, true, 3)
SOLVERS(M1, V1, 1)
SOLVERS(M2, V2, 2)
SOLVERS(MX, VX, Dynamic)
SOLVER(SolverGN, MS, Dynamic, false, 4)
SOLVER(SolverLM, MS, Dynamic, false, 5)

// affine residuals: p = rows of (coefficients, constant)
template <class X, int M> struct Res {
  const double *p;
  template <class T> auto row(const T &x, int r) const {
    const double *q = p + r * (kN<X> + 1);
    using S = std::decay_t<decltype(at(x, 0))>;
    S v = q[0] * at(x, 0) + q[kN<X>];
    if constexpr (kN<X> == 2) v += q[1] * at(x, 1);
    return v;
  }
  template <class T> auto eval(const T &x) const {
    using S = decltype(row(x, 0));
    (traits::is_jet_type_v<S> ? g_jets : g_plain)++;
    if constexpr (M == 1) return row(x, 0);
    else return Vector<S, M>(row(x, 0), row(x, 1));
  }
};
template <class X, int M> struct Auto : Res<X, M> {
  template <class T> auto operator()(const T &x) const { return this->eval(x); }
};
template <class X, int M> struct Num : Res<X, M> {
  template <class T> requires std::is_same_v<T, X> auto operator()(const T &x) const { return this->eval(x); }
};
// the same problem, derivatives filled by the user
template <class X, int M, bool Square = true> struct System : Res<X, M> {
  template <class G, class H> auto fill(const X &x, G &g, H &h) const {
    constexpr int N = kN<X>;
    g_acc++;
    double c = 0;
    for (int r = 0; r < M; ++r) {
      const double e = this->row(x, r), *q = this->p + r * (N + 1);
      c += Square ? e * e : e;
      if constexpr (!traits::is_nullptr_v<std::decay_t<G>>)
        for (int i = 0; i < N; ++i) {
          g[i] += q[i] * e;
          if constexpr (!traits::is_nullptr_v<std::decay_t<H>>)
            for (int j = 0; j < N; ++j) {
              if constexpr (traits::is_sparse_matrix_v<std::decay_t<H>>) h.coeffRef(i, j) += q[i] * q[j];
              else h(i, j) += q[i] * q[j];
            }
        }
    }
    return Cost(c, M);
  }
};
template <class X, int M> struct Acc3 : System<X, M> {
  template <class G, class H> auto operator()(const X &x, G &g, H &h) const { return this->fill(x, g, h); }
};
template <class X, int M> struct Acc3Sparse : System<X, M> {
  template <class G> auto operator()(const X &x, G &g, MS &h) const { return this->fill(x, g, h); }
};
template <class X> struct Acc2 : System<X, 1, false> {
  template <class G> auto operator()(const X &x, G &g) const { std::nullptr_t h; return this->fill(x, g, h); }
};

enum Entry { kFree, kCall, kMethod, kMax };  // Optimize(), optimizer(), optimizer.Optimize(), limited number of iterations
constexpr auto kGN = Options::Solver::GaussNewton, kLM = Options::Solver::LevenbergMarquardt, kGD = Options::Solver::GradientDescent;
// out[64..]: numerical differentiation reported, evaluations with differentiation numbers, without, of the user's system
template <class X, int N, class H, class Opt, Options::Solver S, Entry E, class F, class R> static void run(const double *in, double *out, const F &f, const R &ref) {
  g_jets = g_plain = g_acc = g_builds = g_kind = 0;
  for (int i = 0; i < 70; ++i) out[i] = 0;
  g_in = in; g_out = out;
  Options o;
  o.solver_type = S;
  o.log.enable = false;
  o.lm.damping_init = in[0]; o.gd.lr = in[1]; o.min_error = 0; o.lm.good_factor = in[2];
  o.max_iters = E == kMax ? 7 : 1; o.max_total_failures = 6; o.hessian.use_ldlt = in[3] > 0;
  o.min_rerr_dec = 0; o.min_step_norm2 = 0; o.min_grad_norm2 = 0; o.check_final_cost = true;
  X x = point<X>(in + 7);
  bool nd;
  if constexpr (E == kFree) nd = Optimize(x, f, o).num_diff_used;
  else {
    Opt opt(o);
    if constexpr (E == kCall) nd = opt(x, f).num_diff_used;
    else if constexpr (E == kMethod) nd = opt.Optimize(x, f).num_diff_used;
    else nd = opt(x, f, 1).num_diff_used;
  }
  out[0] = g_kind; out[1] = g_builds;
  out[64] = nd; out[65] = g_jets; out[66] = g_plain; out[67] = g_acc;
  const auto acc = ref(x);
  for (int k = 0; k < 3; ++k) probe<N, H>(point<X>(in + 13 + 2 * k), acc, out + 10 + 2 * kProbe * k + kProbe);
}
template <class X> inline constexpr int kD = std::is_same_v<X, VX> ? Dynamic : kN<X>;
template <class X> using HT = Matrix<double, kD<X>, kD<X>>;
template <class X> using GT = Vector<double, kD<X>>;
#define RUN(name, X, H, OPT, S, E, FN, REF) \
  extern "C" void h_##name(const double *in, double *out) { \
    const FN f{in + 19}; \
    run<X, kD<X>, H, OPT, S, E>(in, out, f, [&](X &x) { (void)x; return REF; }); \
  }
template <class X> using Auto1 = Auto<X, 1>; template <class X> using Auto2 = Auto<X, 2>;
template <class X> using Num1 = Num<X, 1>; template <class X> using Num2 = Num<X, 2>;
template <class X> using Sys1 = Acc3<X, 1>; template <class X> using Sys2 = Acc3<X, 2>;
using SparseAcc = Acc3Sparse<VX, 2>;
#define ALL(k, X, M, n, FN, REF) \
  RUN(k##_gn_##n, X, HT<X>, gn::Optimizer<HT<X>>, kGN, kFree, FN, REF) RUN(k##_lm_##n, X, HT<X>, lm::Optimizer<HT<X>>, kLM, kFree, FN, REF) \
  RUN(k##_gncall_##n, X, HT<X>, gn::Optimizer<HT<X>>, kLM, kCall, FN, REF) RUN(k##_lmopt_##n, X, HT<X>, lm::Optimizer<HT<X>>, kGN, kMethod, FN, REF) \
  RUN(k##_nlmax_##n, X, HT<X>, nlls::Optimizer<HT<X>>, kLM, kMax, FN, REF)
#define GDS(k, X, n, FN, REF) \
  RUN(k##_gd_##n, X, std::nullptr_t, gd::Optimizer<GT<X>>, kGD, kFree, FN, REF) \
  RUN(k##_uncall_##n, X, std::nullptr_t, unconstrained::Optimizer<GT<X>>, kLM, kCall, FN, REF) \
  RUN(k##_gdmax_##n, X, std::nullptr_t, gd::Optimizer<GT<X>>, kGD, kMax, FN, REF)
#ifdef VF_AD
#define FAM(X, M, n) ALL(ad, X, M, n, Auto##M<X>, Sys##M<X>{{{in + 19}}})
#define GDF(X, n) GDS(ad, X, n, Auto1<X>, Acc2<X>{{{in + 19}}})
#elif defined(VF_ND)
#define FAM(X, M, n) ALL(nd, X, M, n, Num##M<X>, (diff::CreateNumDiffFunc2(x, f)))
#define GDF(X, n) GDS(nd, X, n, Num1<X>, (diff::CreateNumDiffFunc1(x, f)))
#elif defined(VF_AC)
#define FAM(X, M, n) ALL(ac, X, M, n, Sys##M<X>, f)
#define GDF(X, n) GDS(ac, X, n, Acc2<X>, f)
#endif
#ifdef VF_S
FAM(double, 1, s1) FAM(double, 2, s2) GDF(double, s)
#elif defined(VF_V1)
FAM(V1, 1, v11) FAM(V1, 2, v12) GDF(V1, v1)
#elif defined(VF_V2)
FAM(V2, 1, v21) FAM(V2, 2, v22) GDF(V2, v2)
#elif defined(VF_VX)
FAM(VX, 1, vx1) FAM(VX, 2, vx2) GDF(VX, vx)
#elif defined(VF_A2)
FAM(A2, 1, a21) FAM(A2, 2, a22) GDF(A2, a2)
#elif defined(VF_SP)
RUN(sp_gn, VX, MS, gn::Optimizer<MS>, kGN, kFree, SparseAcc, f)
RUN(sp_lm, VX, MS, lm::Optimizer<MS>, kLM, kFree, SparseAcc, f)
RUN(sp_call, VX, MS, lm::Optimizer<MS>, kGN, kCall, SparseAcc, f)
RUN(sp_ad, VX, MS, lm::Optimizer<MS>, kGN, kCall, Auto2<VX>, Sys2<VX>{{{in + 19}}})
#endif
