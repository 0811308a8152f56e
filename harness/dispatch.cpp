// Every entry point and user function signature against the underlying optimizer run on the same system.
#include "vfmt.h"
#include <tinyopt/tinyopt.h>
using namespace tinyopt;
using V1 = Vector<double, 1>;
using V2 = Vector<double, 2>;
using VX = Vector<double, Dynamic>;
template <class J> static constexpr bool kJet = traits::is_jet_type_v<J>;

static int g_jets, g_plain, g_acc;

// one or two affine residuals of one or two parameters: p = rows of (coefficients, constant)
template <class X, int M> struct Res {
  static constexpr int N = traits::params_trait<X>::Dims == 2 ? 2 : 1;
  const double *p;
  template <class T> auto row(const T &x, int r) const {
    const double *q = p + r * (N + 1);
    if constexpr (requires { x[0]; }) {
      using S = std::decay_t<decltype(x[0])>;
      S v = q[0] * x[0] + q[N];
      if constexpr (N == 2) v += q[1] * x[1];
      return v;
    } else
      return T(q[0] * x + q[1]);
  }
  template <class T> auto eval(const T &x) const {
    using S = decltype(row(x, 0));
    (kJet<S> ? g_jets : g_plain)++;
    if constexpr (M == 1) return row(x, 0);
    else return Vector<S, M>(row(x, 0), row(x, 1));
  }
};
template <class X, int M> struct Auto : Res<X, M> {
  template <class T> auto operator()(const T &x) const { return this->eval(x); }
};
template <class X, int M> struct Num : Res<X, M> {
  template <class T> requires std::is_same_v<T, X> auto operator()(const T &x) const { return this->eval(x); }
};
// the same problem, derivatives filled by the user
template <class X, int M, bool Square = true> struct System : Res<X, M> {
  template <class G, class H> auto fill(const X &x, G &g, H &h) const {
    constexpr int N = Res<X, M>::N;
    g_acc++;
    double c = 0;
    for (int r = 0; r < M; ++r) {
      const double e = this->row(x, r), *q = this->p + r * (N + 1);
      c += Square ? e * e : e;
      if constexpr (!traits::is_nullptr_v<std::decay_t<G>>)
        for (int i = 0; i < N; ++i) {
          g[i] += q[i] * e;
          if constexpr (!traits::is_nullptr_v<std::decay_t<H>>)
            for (int j = 0; j < N; ++j) {
              if constexpr (traits::is_sparse_matrix_v<std::decay_t<H>>) h.coeffRef(i, j) += q[i] * q[j];
              else h(i, j) += q[i] * q[j];
            }
        }
    }
    return Cost(c, M);
  }
};
template <class X, int M> struct Acc3 : System<X, M> {
  template <class G, class H> auto operator()(const X &x, G &g, H &h) const { return this->fill(x, g, h); }
};
template <class X, int M> struct Acc3Sparse : System<X, M> {
  template <class G> auto operator()(const X &x, G &g, SparseMatrix<double> &h) const { return this->fill(x, g, h); }
};
template <class X> struct Acc2 : System<X, 1, false> {
  template <class G> auto operator()(const X &x, G &g) const { std::nullptr_t h; return this->fill(x, g, h); }
};

static Options options(const double *in, Options::Solver s, int iters) {
  Options o;
  o.solver_type = s;
  o.log.enable = false;
  o.max_iters = iters;
  o.lm.damping_init = in[0];
  o.gd.lr = in[0];
  o.min_error = in[1];
  o.min_rerr_dec = 0; o.min_step_norm2 = 0; o.min_grad_norm2 = 0;
  return o;
}
template <class X> static X start(const double *in) {
  if constexpr (std::is_floating_point_v<X>) return in[2];
  else if constexpr (traits::params_trait<X>::Dims == 2) return X(in[2], in[3]);
  else return X::Constant(1, in[2]);
}
// out: x (2), final cost, stop reason, iterations, history size, first history cost, numerical differentiation used
template <class X> static void put(const X &x, const Output &u, double *out) {
  if constexpr (std::is_floating_point_v<X>) { out[0] = x; out[1] = 0; }
  else { out[0] = x[0]; out[1] = x.size() > 1 ? x[1] : 0.0; }
  out[2] = u.final_cost.cost; out[3] = (int)u.stop_reason; out[4] = u.num_iters; out[5] = u.errs.size(); out[6] = u.errs.empty() ? 0.0 : u.errs.front();
  out[7] = u.num_diff_used;
}
// in: damping or learning rate, minimum cost, start (2), residuals
// A is the run under test, B the reference; out: both results (8 each), evaluations of A with and without differentiation numbers, evaluations of A's system, B's
template <class X, class A, class B> static void both(const double *in, double *out, const A &a, const B &b) {
  g_jets = g_plain = g_acc = 0;
  X x = start<X>(in), y = start<X>(in);
  put(x, a(x), out);
  out[16] = g_jets; out[17] = g_plain; out[18] = g_acc;
  put(y, b(y), out + 8);
  out[19] = g_acc - out[18];
}
template <class H> using GN = gn::Optimizer<H>;
template <class H> using LM = lm::Optimizer<H>;
template <class H> using NL = nlls::Optimizer<H>;
template <class H> using GD = gd::Optimizer<H>;
template <class H> using UN = unconstrained::Optimizer<H>;
template <class X> using HT = Matrix<double, traits::params_trait<X>::Dims, traits::params_trait<X>::Dims>;
template <class X> using GT = Vector<double, traits::params_trait<X>::Dims>;
constexpr auto kGN = Options::Solver::GaussNewton, kLM = Options::Solver::LevenbergMarquardt, kGD = Options::Solver::GradientDescent;

enum Entry { kFree, kCall, kMethod, kMax };  // Optimize(), optimizer(), optimizer.Optimize(), limited number of iterations
template <class X, class Opt, Options::Solver S, Entry E, class F, class R> static void run(const double *in, double *out, const F &f, const R &ref) {
  const Options o = options(in, S, 1), unlimited = options(in, S, 7);
  both<X>(in, out, [&](X &x) {
    if constexpr (E == kFree) return Optimize(x, f, o);
    else {
      Opt opt(E == kMax ? unlimited : o);
      if constexpr (E == kCall) return opt(x, f);
      else if constexpr (E == kMethod) return opt.Optimize(x, f);
      else return opt(x, f, 1);
    }
  }, [&](X &x) { Opt opt(o); return opt.OptimizeAcc(x, ref(x)); });
}
#define RUN(name, X, M, OPT, S, E, FN, REF) \
  extern "C" void h_##name(const double *in, double *out) { \
    const FN f{{in + 4}}; \
    run<X, OPT, S, E>(in, out, f, [&](X &x) { (void)x; return REF; }); \
  }
#define AD(name, X, M, OPT, S, E) RUN(name, X, M, OPT, S, E, ARG(Auto<X, M>), (Acc3<X, M>{{{in + 4}}}))
#define ND(name, X, M, OPT, S, E) RUN(name, X, M, OPT, S, E, ARG(Num<X, M>), diff::CreateNumDiffFunc2(x, f))
#define AC(name, X, M, OPT, S, E) \
  extern "C" void h_##name(const double *in, double *out) { \
    const Acc3<X, M> f{{{in + 4}}}; \
    run<X, OPT, S, E>(in, out, f, [&](X &) { return f; }); \
  }
#define ARG(...) __VA_ARGS__
#ifdef VF_AD
#define FAM(n, X, M) \
  AD(ad_gn_##n, X, M, GN<HT<X>>, kGN, kFree) AD(ad_lm_##n, X, M, LM<HT<X>>, kLM, kFree) \
  AD(ad_lm_call_##n, X, M, LM<HT<X>>, kLM, kCall) AD(ad_gn_opt_##n, X, M, GN<HT<X>>, kGN, kMethod) AD(ad_nl_max_##n, X, M, NL<HT<X>>, kLM, kMax)
#elif defined(VF_ND)
#define FAM(n, X, M) \
  ND(nd_gn_##n, X, M, GN<HT<X>>, kGN, kFree) ND(nd_lm_##n, X, M, LM<HT<X>>, kLM, kFree) \
  ND(nd_lm_call_##n, X, M, LM<HT<X>>, kLM, kCall) ND(nd_gn_opt_##n, X, M, GN<HT<X>>, kGN, kMethod) ND(nd_nl_max_##n, X, M, NL<HT<X>>, kLM, kMax)
#elif defined(VF_AC)
#define FAM(n, X, M) \
  AC(ac_gn_##n, X, M, GN<HT<X>>, kGN, kFree) AC(ac_lm_##n, X, M, LM<HT<X>>, kLM, kFree) \
  AC(ac_lm_call_##n, X, M, LM<HT<X>>, kLM, kCall) AC(ac_gn_opt_##n, X, M, GN<HT<X>>, kGN, kMethod) AC(ac_nl_max_##n, X, M, NL<HT<X>>, kLM, kMax)
#else
#define FAM(n, X, M)
#endif
#ifdef VF_S1
FAM(s_1, double, 1)
#elif defined(VF_S2)
FAM(s_2, double, 2)
#elif defined(VF_V1)
FAM(v1_1, V1, 1)
#endif
#ifdef VF_GD
#define GDF(n, X) \
  extern "C" void h_ad_gd_##n(const double *in, double *out) { const Auto<X, 1> f{{in + 4}}; run<X, GD<GT<X>>, kGD, kFree>(in, out, f, [&](X &) { return Acc2<X>{{{in + 4}}}; }); } \
  extern "C" void h_ad_un_##n(const double *in, double *out) { const Auto<X, 1> f{{in + 4}}; run<X, UN<GT<X>>, kGD, kCall>(in, out, f, [&](X &) { return Acc2<X>{{{in + 4}}}; }); } \
  extern "C" void h_nd_gd_##n(const double *in, double *out) { const Num<X, 1> f{{in + 4}}; run<X, GD<GT<X>>, kGD, kFree>(in, out, f, [&](X &x) { return diff::CreateNumDiffFunc1(x, f); }); } \
  extern "C" void h_nd_un_##n(const double *in, double *out) { const Num<X, 1> f{{in + 4}}; run<X, UN<GT<X>>, kGD, kMax>(in, out, f, [&](X &x) { return diff::CreateNumDiffFunc1(x, f); }); } \
  extern "C" void h_ac_gd_##n(const double *in, double *out) { const Acc2<X> f{{{in + 4}}}; run<X, GD<GT<X>>, kGD, kFree>(in, out, f, [&](X &) { return f; }); } \
  extern "C" void h_ac_un_##n(const double *in, double *out) { const Acc2<X> f{{{in + 4}}}; run<X, UN<GT<X>>, kGD, kMethod>(in, out, f, [&](X &) { return f; }); }
#ifdef VF_S1
GDF(s, double)
#elif defined(VF_V1)
GDF(v1, V1)
#else
GDF(v2, V2)
#endif
#endif
#ifdef VF_SP
// a function filling a sparse Hessian selects the sparse solvers
extern "C" void h_sp_gn(const double *in, double *out) { const Acc3Sparse<VX, 1> f{{{in + 4}}}; run<VX, GN<SparseMatrix<double>>, kGN, kFree>(in, out, f, [&](VX &) { return f; }); }
#endif
#ifdef VF_ER
// combinations that have no solver are refused before any evaluation and leave the parameters alone; out: refused, evaluations, change of the parameters
template <class X, class F> static void refuse(const double *in, double *out, Options::Solver s, const F &f) {
  g_jets = g_plain = g_acc = 0;
  X x = start<X>(in);
  out[0] = 0;
  try { Optimize(x, f, options(in, s, 1)); } catch (const std::invalid_argument &) { out[0] = 1; }
  out[1] = g_jets + g_plain + g_acc;
  if constexpr (std::is_floating_point_v<X>) out[2] = x - in[2];
  else out[2] = x[0] - in[2];
}
extern "C" void h_no_gn(const double *in, double *out) { refuse<double>(in, out, kGN, Acc2<double>{{{in + 4}}}); }
extern "C" void h_no_lm(const double *in, double *out) { refuse<V1>(in, out, kLM, Acc2<V1>{{{in + 4}}}); }
extern "C" void h_no_gd(const double *in, double *out) { refuse<double>(in, out, kGD, Auto<double, 2>{{in + 4}}); }
extern "C" void h_no_gdn(const double *in, double *out) { refuse<V1>(in, out, kGD, Num<V1, 2>{{in + 4}}); }
extern "C" void h_no_gd3(const double *in, double *out) { refuse<double>(in, out, kGD, Acc3<double, 1>{{{in + 4}}}); }
extern "C" void h_no_other(const double *in, double *out) { refuse<double>(in, out, (Options::Solver)7, Auto<double, 1>{{in + 4}}); }
#endif
