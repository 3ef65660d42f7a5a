// Included ahead of the language glue: the glue then builds these stand-ins, which note what they are given and hand it on to the library.
#pragma once
#include <stochtree/container.h>
#include <stochtree/data.h>
#include <stochtree/kernel.h>
#include <stochtree/leaf_model.h>
#include <stochtree/meta.h>
#include <stochtree/partition_tracker.h>
#include <stochtree/random_effects.h>
#include <stochtree/tree_sampler.h>
#include <stochtree/variance_model.h>
#include <cstdio>
#include <cstdlib>
#include <set>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace StochTree {

struct VFNote {
  std::string s;
  explicit VFNote(const char* kind) { s = std::string("{\"k\":\"") + kind + "\""; }
  void key(const char* k) { s += std::string(",\"") + k + "\":"; }
  static std::string hex(double x) { char b[64]; std::snprintf(b, sizeof b, "\"%a\"", x); return b; }
  void num(const char* k, double x) { key(k); s += hex(x); }
  void integer(const char* k, long x) { key(k); s += std::to_string(x); }
  void ptr(const char* k, const void* p) { char b[64]; std::snprintf(b, sizeof b, "\"%p\"", p); key(k); s += b; }
  template <class V> void nums(const char* k, const V& v) { key(k); s += "["; bool first = true; for (auto x : v) { if (!first) s += ","; s += hex(x); first = false; } s += "]"; }
  template <class V> void ints(const char* k, const V& v) { key(k); s += "["; bool first = true; for (auto x : v) { if (!first) s += ","; s += std::to_string((long) x); first = false; } s += "]"; }
  void rows(const char* k, const Eigen::MatrixXd& m) {
    key(k); s += "[";
    for (int i = 0; i < m.rows(); i++) { s += i ? ",[" : "["; for (int j = 0; j < m.cols(); j++) s += (j ? "," : "") + hex(m(i, j)); s += "]"; }
    s += "]";
  }
  void write() {
    static std::FILE* f = std::getenv("VF_WIRE") ? std::fopen(std::getenv("VF_WIRE"), "a") : nullptr;
    if (!f) return;
    s += "}\n";
    std::fputs(s.c_str(), f);
    std::fflush(f);
  }
};

struct VFConstantLeaf : GaussianConstantLeafModel {
  typedef GaussianConstantLeafModel Base;
  double vf; static const int kind = 0;
  VFConstantLeaf(double tau) : Base(tau), vf(tau) {}
  void SetScale(double tau) { vf = tau; Base::SetScale(tau); }
};
struct VFUnivariateLeaf : GaussianUnivariateRegressionLeafModel {
  typedef GaussianUnivariateRegressionLeafModel Base;
  double vf; static const int kind = 1;
  VFUnivariateLeaf(double tau) : Base(tau), vf(tau) {}
  void SetScale(double tau) { vf = tau; Base::SetScale(tau); }
};
struct VFMultivariateLeaf : GaussianMultivariateRegressionLeafModel {
  typedef GaussianMultivariateRegressionLeafModel Base;
  Eigen::MatrixXd vf; static const int kind = 2;
  VFMultivariateLeaf(Eigen::MatrixXd& S) : Base(S), vf(S) {}
  void SetScale(Eigen::MatrixXd& S) { vf = S; Base::SetScale(S); }
};
inline Eigen::MatrixXd vf_scale(double x) { return Eigen::MatrixXd::Constant(1, 1, x); }
inline Eigen::MatrixXd vf_scale(const Eigen::MatrixXd& x) { return x; }

struct VFTracker : ForestTracker {
  VFTracker(Eigen::MatrixXd& covariates, std::vector<FeatureType>& types, int num_trees, int num_observations) : ForestTracker(covariates, types, num_trees, num_observations) {
    VFNote r("tracker");
    r.ptr("trk", static_cast<ForestTracker*>(this)); r.ints("types", types); r.integer("trees", num_trees); r.integer("n", num_observations); r.integer("cols", covariates.cols());
    r.write();
  }
};

inline void vf_arg(VFNote& r, ForestTracker& t) { r.ptr("trk", &t); }
inline void vf_arg(VFNote& r, VFTracker& t) { r.ptr("trk", static_cast<ForestTracker*>(&t)); }
inline void vf_arg(VFNote& r, ForestContainer& c) { r.ptr("fc", &c); r.integer("ctrees", c.NumTrees()); r.integer("dim", c.OutputDimension()); r.integer("const", c.IsLeafConstant()); }
inline void vf_arg(VFNote& r, ForestDataset& d) { r.integer("cols", d.NumCovariates()); r.rows("cov", d.GetCovariates()); r.rows("basis", d.HasBasis() ? d.GetBasis() : Eigen::MatrixXd(0, 0)); }
inline void vf_arg(VFNote& r, ColumnVector& c) { r.ptr("resid", c.GetData().data()); }
inline void vf_arg(VFNote& r, TreePrior& p) { r.num("alpha", p.GetAlpha()); r.num("beta", p.GetBeta()); r.integer("minleaf", p.GetMinSamplesLeaf()); }
inline void vf_arg(VFNote& r, std::vector<double>& w) { r.nums("w", w); }
inline void vf_arg(VFNote& r, std::vector<FeatureType>& t) { r.ints("types", t); }
inline void vf_arg(VFNote& r, double& s) { r.num("sig", s); }
template <class T> inline void vf_arg(VFNote&, T&) {}

inline ForestContainer* vf_container(ForestContainer& c) { return &c; }
template <class T> inline ForestContainer* vf_container(T&) { return nullptr; }

template <class Real, class L, class... A>
void vf_iterate(Real& real, int grid, const L& leaf, bool gfr, A&&... a) {
  VFNote r("step");
  r.integer("gfr", gfr); r.integer("grid", grid); r.integer("model", L::kind); r.rows("scale", vf_scale(leaf.vf));
  (vf_arg(r, a), ...);
  real.SampleOneIter(std::forward<A>(a)...);
  ForestContainer* c = nullptr;
  ((c = c ? c : vf_container(a)), ...);
  r.ptr("ens", c ? c->GetEnsemble(c->NumSamples() - 1) : nullptr);
  r.integer("num", c ? c->NumSamples() : 0);
  r.write();
}

template <class L> class VFGFR {
 public:
  VFGFR() : grid(500) {}
  VFGFR(int g) : real(g), grid(g) {}
  template <class T, class F, class... A> void SampleOneIter(T& t, F& f, L& leaf, A&&... a) { vf_iterate(real, grid, leaf, true, t, f, static_cast<typename L::Base&>(leaf), std::forward<A>(a)...); }
 private:
  GFRForestSampler<typename L::Base> real;
  int grid;
};
template <class L> class VFMCMC {
 public:
  VFMCMC() {}
  template <class T, class F, class... A> void SampleOneIter(T& t, F& f, L& leaf, A&&... a) { vf_iterate(real, 0, leaf, false, t, f, static_cast<typename L::Base&>(leaf), std::forward<A>(a)...); }
 private:
  MCMCForestSampler<typename L::Base> real;
};

class VFGlobalVariance {
 public:
  double SampleVarianceParameter(Eigen::VectorXd& residuals, double nu, double lambda, std::mt19937& gen) {
    VFNote r("sigma");
    r.ptr("resid", residuals.data()); r.num("nu", nu); r.num("lambda", lambda);
    double v = real.SampleVarianceParameter(residuals, nu, lambda, gen);
    r.num("v", v); r.write();
    return v;
  }
 private:
  GlobalHomoskedasticVarianceModel real;
};
class VFLeafVariance {
 public:
  double SampleVarianceParameter(TreeEnsemble* ensemble, double a, double b, std::mt19937& gen) {
    VFNote r("leaf");
    r.ptr("ens", ensemble); r.num("a", a); r.num("b", b);
    double v = real.SampleVarianceParameter(ensemble, a, b, gen);
    r.num("v", v); r.write();
    return v;
  }
 private:
  LeafNodeHomoskedasticVarianceModel real;
};
struct VFRandomEffects : MultivariateRegressionRandomEffectsModel {
  using MultivariateRegressionRandomEffectsModel::MultivariateRegressionRandomEffectsModel;
  bool vf_first = true;
  void SampleRandomEffects(RandomEffectsDataset& dataset, ColumnVector& residual, RandomEffectsTracker& tracker, double global_variance, std::mt19937& gen) {
    VFNote r("rfx");
    r.ptr("resid", residual.GetData().data()); r.num("sig", global_variance); r.integer("first", vf_first);
    r.nums("alpha", this->GetWorkingParameter()); r.rows("xi", this->GetGroupParameters());
    r.rows("wcov", this->GetWorkingParameterCovariance()); r.rows("gcov", this->GetGroupParameterCovariance());
    r.num("shape", this->GetVariancePriorShape()); r.num("scale", this->GetVariancePriorScale());
    r.rows("basis", dataset.GetBasis());
    vf_first = false;
    MultivariateRegressionRandomEffectsModel::SampleRandomEffects(dataset, residual, tracker, global_variance, gen);
    r.write();
  }
};
}  // namespace StochTree

#define ForestTracker VFTracker
#define GaussianConstantLeafModel VFConstantLeaf
#define GaussianUnivariateRegressionLeafModel VFUnivariateLeaf
#define GaussianMultivariateRegressionLeafModel VFMultivariateLeaf
#define GFRForestSampler VFGFR
#define MCMCForestSampler VFMCMC
#define GlobalHomoskedasticVarianceModel VFGlobalVariance
#define LeafNodeHomoskedasticVarianceModel VFLeafVariance
#define MultivariateRegressionRandomEffectsModel VFRandomEffects
