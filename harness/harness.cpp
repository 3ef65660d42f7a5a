// Conformance harness: executes a script of JSON commands (one per line) against the StochasticTree
// core library through its public C++ interface and writes, after every command, one JSON line with the
// projection of the real state that the TLA+ trace specifications in /verif/spec talk about.
//
//   harness SCRIPT OUT
//
// Exceptions thrown by the library are reported as {"ev":..., "error": "..."}; a crash leaves the output
// short, which the driver turns into a "crash" event.  Neither is a step of any specification.
#include <stochtree/category_tracker.h>
#include <stochtree/common.h>
#include <stochtree/container.h>
#include <stochtree/cutpoint_candidates.h>
#include <stochtree/data.h>
#include <stochtree/ensemble.h>
#include <stochtree/kernel.h>
#include <stochtree/leaf_model.h>
#include <stochtree/partition_tracker.h>
#include <stochtree/prior.h>
#include <stochtree/random_effects.h>
#include <stochtree/tree.h>
#include <stochtree/tree_sampler.h>
#include <stochtree/variance_model.h>
#include <nlohmann/json.hpp>
#include <cmath>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
using namespace StochTree;
typedef nlohmann::json J;

static double num(const J& j) {
  if (j.is_string()) {
    std::string s = j.get<std::string>();
    if (s == "nan") return std::nan("");
    if (s == "inf") return INFINITY;
    if (s == "-inf") return -INFINITY;
    return std::strtod(s.c_str(), nullptr);
  }
  return j.get<double>();
}
static J D(double x) {
  if (std::isnan(x)) return "nan";
  if (std::isinf(x)) return x > 0 ? "inf" : "-inf";
  return x;
}
static std::vector<double> vec(const J& j) { std::vector<double> v; for (auto& e : j) v.push_back(num(e)); return v; }
static J DV(const std::vector<double>& v) { J a = J::array(); for (double x : v) a.push_back(D(x)); return a; }
static J DV(const Eigen::VectorXd& v) { J a = J::array(); for (int i = 0; i < v.size(); i++) a.push_back(D(v(i))); return a; }
static J DM(const Eigen::MatrixXd& m) { J a = J::array(); for (int i = 0; i < m.rows(); i++) { J r = J::array(); for (int k = 0; k < m.cols(); k++) r.push_back(D(m(i, k))); a.push_back(r); } return a; }
static std::vector<std::uint32_t> cats(const J& j) { std::vector<std::uint32_t> v; for (auto& e : j) v.push_back(e.get<std::uint32_t>()); return v; }

struct Data {
  ForestDataset ds; std::vector<double> X, B, W; int n = 0, p = 0, nb = 0;
};
struct Slot {                    // one forest being sampled
  std::unique_ptr<ForestTracker> tracker; int data = 0; std::vector<FeatureType> ft; int ntrees = 0;
  int model = 0; double tau = 1; Eigen::MatrixXd Sigma; double alpha = .95, beta = 2; int minleaf = 1, grid = 100;
  std::vector<double> w; bool pre = false; int forest = 0;
  // a second set of trackers, driven through the other overloads (threshold / category list instead of TreeSplit)
  std::unique_ptr<UnsortedNodeSampleTracker> u2; std::unique_ptr<FeaturePresortRootContainer> c2; std::unique_ptr<SortedNodeSampleTracker> s2; std::unique_ptr<SampleNodeMapper> m2;
};
struct Rfx {
  RandomEffectsDataset ds; std::vector<double> B; std::vector<int32_t> labels; std::unique_ptr<RandomEffectsTracker> tracker;
  std::unique_ptr<MultivariateRegressionRandomEffectsModel> model; std::unique_ptr<RandomEffectsContainer> cont; LabelMapper lm; int nb = 0;
};
struct Session {
  std::map<int, std::unique_ptr<Tree>> trees;
  std::map<int, std::unique_ptr<Data>> data;
  std::map<int, std::unique_ptr<ForestContainer>> forests;
  std::map<int, std::unique_ptr<Slot>> slots;
  std::map<int, std::unique_ptr<Rfx>> rfx;
  std::map<int, std::unique_ptr<ForestKernel>> kernels;
  std::map<int, std::vector<double>> hmem; std::map<int, ForestDataset> hds; std::map<int, RandomEffectsDataset> hrd; std::map<int, ColumnVector> hrs; std::map<int, ColumnMatrix> hmt;
  std::unique_ptr<ColumnVector> resid;
  std::mt19937 gen{1};
  double sigma2 = 1;
};
static std::unique_ptr<Session> S;

static Tree* tree_of(const J& c) {
  if (c.contains("t")) return S->trees.at(c["t"].get<int>()).get();
  return S->forests.at(c["f"].get<int>())->GetEnsemble(c.value("k", 0))->GetTree(c["j"].get<int>());
}
// resolve a heap path (root 1, children 2k and 2k+1) to a node id
static int resolve(Tree* t, int path) {
  std::vector<int> bits; while (path > 1) { bits.push_back(path & 1); path >>= 1; }
  int nid = 0;
  for (auto it = bits.rbegin(); it != bits.rend(); ++it) {
    if (t->IsLeaf(nid)) throw std::runtime_error("path leaves the tree");
    nid = *it ? t->RightChild(nid) : t->LeftChild(nid);
  }
  return nid;
}
static J dump_tree(Tree* t) {
  J o; int nn = t->NumNodes();
  o["nn"] = nn; o["dim"] = t->OutputDimension();
  std::vector<int> order; std::set<int> seen; std::vector<int> st{0}; bool wf = nn > 0;
  while (wf && !st.empty()) {
    int x = st.back(); st.pop_back();
    if (x < 0 || x >= nn || !seen.insert(x).second) { wf = false; break; }
    order.push_back(x);
    if (!t->IsLeaf(x)) { st.push_back(t->RightChild(x)); st.push_back(t->LeftChild(x)); }
  }
  o["walk"] = wf;
  J nodes = J::array();
  if (wf) for (int x : order) {
    J n; n["id"] = x; n["par"] = t->Parent(x); n["l"] = t->IsLeaf(x) ? -1 : t->LeftChild(x); n["r"] = t->IsLeaf(x) ? -1 : t->RightChild(x);
    n["rawr"] = t->RightChild(x);
    n["isleaf"] = t->IsLeaf(x); n["isroot"] = t->IsRoot(x); n["islp"] = t->IsLeafParent(x); n["depth"] = t->GetDepth(x);
    auto ty = t->NodeType(x);
    n["ty"] = ty == TreeNodeType::kLeafNode ? "leaf" : ty == TreeNodeType::kNumericalSplitNode ? "num" : ty == TreeNodeType::kCategoricalSplitNode ? "cat" : "none";
    n["feat"] = t->IsLeaf(x) ? -1 : t->SplitIndex(x);
    n["thr"] = (!t->IsLeaf(x) && ty == TreeNodeType::kNumericalSplitNode) ? D(t->Threshold(x)) : J(0);
    J cl = J::array(); if (!t->IsLeaf(x) && ty == TreeNodeType::kCategoricalSplitNode) for (auto v : t->CategoryList(x)) cl.push_back(v);
    n["cats"] = cl;
    J lv = J::array(); if (t->IsLeaf(x)) for (int k = 0; k < t->OutputDimension(); k++) lv.push_back(D(t->LeafValue(x, k)));
    n["leaf"] = lv;
    J vv = J::array(); if (t->IsLeaf(x) && t->OutputDimension() > 1) for (double v : t->LeafVector(x)) vv.push_back(D(v));
    n["vec"] = vv;
    nodes.push_back(n);
  }
  o["nodes"] = nodes;
  o["leaves"] = t->GetLeaves(); o["internal"] = t->GetInternalNodes(); o["lp"] = t->GetLeafParents();
  o["nleaves"] = t->NumLeaves(); o["nlp"] = t->NumLeafParents(); o["nvalid"] = t->NumValidNodes(); o["ndel"] = t->NumDeletedNodes();
  o["nsplit"] = wf ? t->NumSplitNodes() : -1; o["isroot"] = t->IsRoot(); o["hasvec"] = t->HasVectorOutput(); o["hascat"] = t->HasCategoricalSplit();
  o["sumsq"] = wf ? D(t->SumSquaredLeafValues()) : J(0);
  return o;
}
static J dump_all_trees() { J a = J::array(); for (auto& kv : S->trees) { J e; e["t"] = kv.first; e["tree"] = dump_tree(kv.second.get()); a.push_back(e); } return a; }
static J dump_ensemble(TreeEnsemble* e) { J a = J::array(); for (int j = 0; j < e->NumTrees(); j++) a.push_back(dump_tree(e->GetTree(j))); return a; }

static void expand(Tree* t, int nid, const J& c) {
  std::vector<double> l = vec(c["lv"]), r = vec(c["rv"]); int f = c["feat"].get<int>(); bool v = t->OutputDimension() > 1;
  bool via_split = c.value("via", std::string("direct")) == "split";
  if (c.contains("cats")) {
    auto cl = cats(c["cats"]);
    if (via_split) { TreeSplit sp(cl); if (v) t->ExpandNode(nid, f, sp, l, r); else t->ExpandNode(nid, f, sp, l[0], r[0]); }
    else { if (v) t->ExpandNode(nid, f, cl, l, r); else t->ExpandNode(nid, f, cl, l[0], r[0]); }
  } else {
    double th = num(c["thr"]);
    if (via_split) { TreeSplit sp(th); if (v) t->ExpandNode(nid, f, sp, l, r); else t->ExpandNode(nid, f, sp, l[0], r[0]); }
    else { if (v) t->ExpandNode(nid, f, th, l, r); else t->ExpandNode(nid, f, th, l[0], r[0]); }
  }
}
static TreeSplit mksplit(const J& c) { if (c.contains("cats")) { auto cl = cats(c["cats"]); return TreeSplit(cl); } double th = num(c["thr"]); return TreeSplit(th); }

static J links_of(UnsortedNodeSampleTracker& u, Tree* t, int j);
static J dump_tracker(Slot& s, TreeEnsemble* e, int sorted_tree) {
  J a = J::array(); Data& d = *S->data.at(s.data);
  for (int j = 0; j < s.ntrees; j++) {
    J o; J nid = J::array(), pr = J::array();
    for (int i = 0; i < d.n; i++) { nid.push_back(s.tracker->GetNodeId(i, j)); pr.push_back(D(s.tracker->GetTreeSamplePrediction(i, j))); }
    o["node"] = nid; o["pred"] = pr; o["links"] = links_of(*s.tracker->GetUnsortedNodeSampleTracker(), e->GetTree(j), j);
    Tree* t = e->GetTree(j); J segs = J::array();
    for (int leaf : t->GetLeaves()) {
      J g; g["id"] = leaf; int b = s.tracker->UnsortedNodeBegin(j, leaf), en = s.tracker->UnsortedNodeEnd(j, leaf);
      g["size"] = s.tracker->UnsortedNodeSize(j, leaf); g["span"] = en - b;
      J rows = J::array(); for (auto it = s.tracker->UnsortedNodeBeginIterator(j, leaf); it != s.tracker->UnsortedNodeEndIterator(j, leaf); ++it) { rows.push_back(*it); if ((int)rows.size() > d.n) break; }
      g["rows"] = rows;
      J rows2 = J::array(); for (auto r : s.tracker->GetUnsortedNodeSampleTracker()->TreeNodeIndices(j, leaf)) rows2.push_back(r);
      g["rows2"] = rows2;
      J so = J::array();
      if (j == sorted_tree) for (int f = 0; f < d.p; f++) {
        J r = J::array(); for (auto it = s.tracker->SortedNodeBeginIterator(leaf, f); it != s.tracker->SortedNodeEndIterator(leaf, f); ++it) { r.push_back(*it); if ((int)r.size() > d.n) break; }
        J fo; fo["rows"] = r; fo["size"] = s.tracker->SortedNodeSize(leaf, f); fo["span"] = s.tracker->SortedNodeEnd(leaf, f) - s.tracker->SortedNodeBegin(leaf, f);
        J r2 = J::array(); for (auto q : s.tracker->GetSortedNodeSampleTracker()->NodeIndices(leaf, f)) r2.push_back(q);
        fo["rows2"] = r2;
        so.push_back(fo);
      }
      g["sorted"] = so;
      segs.push_back(g);
    }
    o["segs"] = segs; a.push_back(o);
  }
  return a;
}
static J links_of(UnsortedNodeSampleTracker& u, Tree* t, int j) {
  J a = J::array(); int n = t->NumNodes();
  for (int x = 0; x < n; x++) { J q; q["id"] = x; bool v = u.IsValidNode(j, x); q["valid"] = v; q["leaf"] = v ? u.IsLeaf(j, x) : false; q["l"] = v ? u.LeftNode(j, x) : -1; q["r"] = v ? u.RightNode(j, x) : -1; q["par"] = v ? u.Parent(j, x) : -1; a.push_back(q); }
  return a;
}
static J dump_alt(Slot& s, TreeEnsemble* e, int sorted_tree) {
  J a = J::array(); Data& d = *S->data.at(s.data);
  for (int j = 0; j < s.ntrees; j++) {
    J o; J nid = J::array(); SampleNodeMapper cp(*s.m2);
    for (int i = 0; i < d.n; i++) nid.push_back(cp.GetNodeId(i, j));
    o["node"] = nid; o["pred"] = J::array(); o["links"] = links_of(*s.u2, e->GetTree(j), j);
    J segs = J::array();
    for (int leaf : e->GetTree(j)->GetLeaves()) {
      J g; g["id"] = leaf; g["size"] = s.u2->NodeSize(j, leaf); g["span"] = s.u2->NodeEnd(j, leaf) - s.u2->NodeBegin(j, leaf);
      J rows = J::array(); for (auto it = s.u2->NodeBeginIterator(j, leaf); it != s.u2->NodeEndIterator(j, leaf); ++it) { rows.push_back(*it); if ((int)rows.size() > d.n) break; }
      g["rows"] = rows; g["rows2"] = s.u2->TreeNodeIndices(j, leaf);
      J so = J::array();
      if (j == sorted_tree) for (int f = 0; f < d.p; f++) {
        J r = J::array(); for (auto it = s.s2->NodeBeginIterator(leaf, f); it != s.s2->NodeEndIterator(leaf, f); ++it) { r.push_back(*it); if ((int)r.size() > d.n) break; }
        J fo; fo["rows"] = r; fo["size"] = s.s2->NodeSize(leaf, f); fo["span"] = s.s2->NodeEnd(leaf, f) - s.s2->NodeBegin(leaf, f); J r2 = J::array(); for (int q = s.s2->NodeBegin(leaf, f); q < s.s2->NodeEnd(leaf, f); q++) { r2.push_back(s.s2->SortIndex(q, f)); if ((int)r2.size() > d.n) break; } fo["rows2"] = r2; so.push_back(fo);
      }
      g["sorted"] = so; segs.push_back(g);
    }
    o["segs"] = segs; a.push_back(o);
  }
  return a;
}
static void alt_reset(Slot& s, int j) {
  Data& d = *S->data.at(s.data);
  if (j < 0) { s.u2.reset(new UnsortedNodeSampleTracker(d.n, s.ntrees)); s.m2.reset(new SampleNodeMapper(s.ntrees, d.n)); s.c2.reset(new FeaturePresortRootContainer(d.ds.GetCovariates(), s.ft)); for (int k = 0; k < s.ntrees; k++) s.m2->AssignAllSamplesToRoot(k); }
  else { s.u2->ResetTreeToRoot(j, d.n); s.m2->AssignAllSamplesToRoot(j); }
  s.s2.reset(new SortedNodeSampleTracker(s.c2.get(), d.ds.GetCovariates(), s.ft));
}
template <typename LM> static LM make_model(Slot& s);
template <> GaussianConstantLeafModel make_model(Slot& s) { return GaussianConstantLeafModel(s.tau); }
template <> GaussianUnivariateRegressionLeafModel make_model(Slot& s) { return GaussianUnivariateRegressionLeafModel(s.tau); }
template <> GaussianMultivariateRegressionLeafModel make_model(Slot& s) { return GaussianMultivariateRegressionLeafModel(s.Sigma); }
template <typename LM> static void iter(Slot& s, bool gfr) {
  LM lm = make_model<LM>(s); TreePrior tp(s.alpha, s.beta, s.minleaf);
  ForestContainer& f = *S->forests.at(s.forest); ForestDataset& ds = S->data.at(s.data)->ds;
  if (gfr) { GFRForestSampler<LM> sm(s.grid); sm.SampleOneIter(*s.tracker, f, lm, ds, *S->resid, tp, S->gen, s.w, S->sigma2, s.ft, s.pre); }
  else { MCMCForestSampler<LM> sm; sm.SampleOneIter(*s.tracker, f, lm, ds, *S->resid, tp, S->gen, s.w, S->sigma2, s.pre); }
}
template <typename LM> static J split_eval(Slot& s, const J& c) {
  J o; LM lm = make_model<LM>(s); TreePrior tp(s.alpha, s.beta, s.minleaf);
  ForestDataset& ds = S->data.at(s.data)->ds; Data& d = *S->data.at(s.data);
  TreeEnsemble* e = S->forests.at(s.forest)->GetEnsemble(c.value("k", 0)); int j = c["j"].get<int>();
  Tree* t = e->GetTree(j); int nid = resolve(t, c["node"].get<int>()); std::string what = c["what"];
  if (what == "proposed") {
    TreeSplit sp = mksplit(c); auto r = lm.EvaluateProposedSplit(ds, *s.tracker, *S->resid, sp, j, nid, c["feat"].get<int>(), S->sigma2);
    o["split"] = D(std::get<0>(r)); o["nosplit"] = D(std::get<1>(r)); o["ln"] = std::get<2>(r); o["rn"] = std::get<3>(r);
  } else if (what == "existing") {
    auto r = lm.EvaluateExistingSplit(ds, *s.tracker, *S->resid, S->sigma2, j, nid, t->LeftChild(nid), t->RightChild(nid));
    o["split"] = D(std::get<0>(r)); o["nosplit"] = D(std::get<1>(r)); o["ln"] = std::get<2>(r); o["rn"] = std::get<3>(r);
  } else {  // all candidates of a leaf
    std::vector<double> ll, cv; std::vector<int> cf; std::vector<FeatureType> cft; data_size_t cnt = -1;
    CutpointGridContainer grid(ds.GetCovariates(), S->resid->GetData(), s.grid);
    int b = s.tracker->SortedNodeBegin(nid, 0), en = s.tracker->SortedNodeEnd(nid, 0);
    lm.EvaluateAllPossibleSplits(ds, *s.tracker, *S->resid, tp, S->sigma2, j, nid, ll, cf, cv, cft, cnt, grid, b, en, s.w, s.ft);
    o["count"] = cnt; o["len"] = (int)ll.size(); J cs = J::array();
    for (size_t i = 0; i + 1 < ll.size(); i++) {
      J q; q["ll"] = D(ll[i]); q["feat"] = cf[i]; q["ft"] = (int)cft[i]; q["bin"] = D(cv[i]);
      if (cft[i] == FeatureType::kUnorderedCategorical) q["cats"] = grid.CutpointVector((int)cv[i], cf[i]); else q["thr"] = D(grid.CutpointValue((int)cv[i], cf[i]));
      cs.push_back(q);
    }
    o["cands"] = cs; o["nosplit"] = ll.empty() ? J(0) : D(ll.back());
  }
  return o;
}
template <typename LM> static void leaf_draw(Slot& s, Tree* t, int j) { LM lm = make_model<LM>(s); lm.SampleLeafParameters(S->data.at(s.data)->ds, *s.tracker, *S->resid, t, j, S->sigma2, S->gen); }

static J dump_slot(int id, const J& c) {
  Slot& s = *S->slots.at(id); J o; ForestContainer& f = *S->forests.at(s.forest);
  o["ns"] = f.NumSamples(); int ns = f.NumSamples();
  J hist = J::array(); for (int k = 0; k < ns; k++) hist.push_back(dump_ensemble(f.GetEnsemble(k)).dump());
  o["hist"] = hist;
  if (ns > 0 || s.pre) { int k = ns > 0 ? ns - 1 : 0; o["cur"] = dump_ensemble(f.GetEnsemble(k)); o["trk"] = dump_tracker(s, f.GetEnsemble(k), c.value("sorted_tree", -1)); }
  return o;
}
static J dump_resid() { return DV(S->resid->GetData()); }

static J rfx_state(Rfx& r) {
  J o; o["xi"] = DM(r.model->GetGroupParameters().transpose()); o["alpha"] = DV(r.model->GetWorkingParameter());
  o["sig"] = DV(Eigen::VectorXd(r.model->GetGroupParameterCovariance().diagonal()));
  J tp = J::array(); for (size_t i = 0; i < r.labels.size(); i++) tp.push_back(D(r.tracker->GetPrediction(i))); o["tp"] = tp;
  return o;
}
static J cont_state(RandomEffectsContainer& c) { J o; o["ns"] = c.NumSamples(); o["nc"] = c.NumComponents(); o["ng"] = c.NumGroups(); o["beta"] = DV(c.GetBeta()); o["alpha"] = DV(c.GetAlpha()); o["xi"] = DV(c.GetXi()); o["sig"] = DV(c.GetSigma()); return o; }
static J labels_state(LabelMapper& m) { J o; J a = J::array(); for (auto& kv : m.Map()) a.push_back({kv.first, kv.second}); o["map"] = a; o["keys"] = m.Keys(); return o; }

static void flatten(const J& rows, bool rm, std::vector<double>& out, int& n, int& p) {
  n = rows.size(); p = n ? rows[0].size() : 0; out.assign((size_t)n * p, 0);
  for (int i = 0; i < n; i++) for (int j = 0; j < p; j++) out[rm ? (size_t)i * p + j : (size_t)j * n + i] = num(rows[i][j]);
}
static void model_dispatch(Slot& s, bool gfr) { if (s.model == 0) iter<GaussianConstantLeafModel>(s, gfr); else if (s.model == 1) iter<GaussianUnivariateRegressionLeafModel>(s, gfr); else iter<GaussianMultivariateRegressionLeafModel>(s, gfr); }

// a tree as the partition of rows it makes: -1 for a leaf, [feature, largest value that goes left, left, right]
static J partition_of(Tree* t, int nid, Eigen::MatrixXd& X, std::vector<int>& rows) {
  if (t->IsLeaf(nid)) return -1;
  std::vector<int> l, r; int f = t->SplitIndex(nid); double cut = -std::numeric_limits<double>::infinity();
  for (int i : rows) if (X(i, f) <= t->Threshold(nid)) { l.push_back(i); cut = std::max(cut, X(i, f)); } else r.push_back(i);
  return {f, l.empty() ? -99 : (int)std::floor(cut), partition_of(t, t->LeftChild(nid), X, l), partition_of(t, t->RightChild(nid), X, r)};
}

static J run(const J& c) {
  std::string op = c["op"]; J o;
  if (op == "begin") { S.reset(new Session()); S->gen.seed(c.value("seed", 1)); return o; }
  // ---------------------------------------------------------------- trees
  if (op == "tree_new") { auto t = std::make_unique<Tree>(); t->Init(c.value("dim", 1)); S->trees[c["t"].get<int>()] = std::move(t); o["trees"] = dump_all_trees(); return o; }
  if (op == "tree_init") { S->trees.at(c["t"].get<int>())->Init(c.value("dim", 1)); o["trees"] = dump_all_trees(); return o; }
  if (op == "tree_reset_init") { auto& t = S->trees.at(c["t"].get<int>()); t->Reset(); t->Init(c.value("dim", 1)); o["trees"] = dump_all_trees(); return o; }
  if (op == "expand") { Tree* t = tree_of(c); expand(t, resolve(t, c["node"].get<int>()), c); if (c.contains("t")) o["trees"] = dump_all_trees(); return o; }
  if (op == "collapse") { Tree* t = tree_of(c); int nid = resolve(t, c["node"].get<int>()); auto v = vec(c["v"]); if (t->OutputDimension() > 1) t->CollapseToLeaf(nid, v); else t->CollapseToLeaf(nid, v[0]); if (c.contains("t")) o["trees"] = dump_all_trees(); return o; }
  if (op == "change_to_leaf") { Tree* t = tree_of(c); int nid = resolve(t, c["node"].get<int>()); auto v = vec(c["v"]); if (t->OutputDimension() > 1) t->ChangeToLeaf(nid, v); else t->ChangeToLeaf(nid, v[0]); if (c.contains("t")) o["trees"] = dump_all_trees(); return o; }
  if (op == "set_leaf") { Tree* t = tree_of(c); int nid = resolve(t, c["node"].get<int>()); auto v = vec(c["v"]); if (t->OutputDimension() > 1) t->SetLeafVector(nid, v); else t->SetLeaf(nid, v[0]); if (c.contains("t")) o["trees"] = dump_all_trees(); return o; }
  if (op == "clone") { auto t = std::make_unique<Tree>(); if (c.value("into_existing", false) && S->trees.count(c["t"].get<int>())) t = std::move(S->trees[c["t"].get<int>()]);
    Tree* src = S->trees.at(c["src"].get<int>()).get(); t->CloneFromTree(src); o["eq"] = (*t == *src); S->trees[c["t"].get<int>()] = std::move(t); o["trees"] = dump_all_trees(); return o; }
  if (op == "tree_json") { auto t = std::make_unique<Tree>(); if (c.value("into_existing", false) && S->trees.count(c["t"].get<int>())) t = std::move(S->trees[c["t"].get<int>()]);
    Tree* src = S->trees.at(c["src"].get<int>()).get(); std::string s1 = src->to_json().dump(); t->from_json(J::parse(s1)); o["eq"] = (*t == *src); o["resave"] = (t->to_json().dump() == s1); S->trees[c["t"].get<int>()] = std::move(t); o["trees"] = dump_all_trees(); return o; }
  // ---------------------------------------------------------------- data
  if (op == "data") { auto d = std::make_unique<Data>(); bool rm = c.value("row_major", true); flatten(c["X"], rm, d->X, d->n, d->p); d->ds.AddCovariates(d->X.data(), d->n, d->p, rm);
    if (c.contains("B")) { int nn; flatten(c["B"], rm, d->B, nn, d->nb); d->ds.AddBasis(d->B.data(), nn, d->nb, rm); }
    if (c.contains("W")) { d->W = vec(c["W"]); d->ds.AddVarianceWeights(d->W.data(), d->n); }
    S->data[c["d"].get<int>()] = std::move(d); return o; }
  if (op == "update_basis") { Data& d = *S->data.at(c["d"].get<int>()); bool rm = c.value("row_major", true); int nn; flatten(c["B"], rm, d.B, nn, d.nb); d.ds.UpdateBasis(d.B.data(), nn, d.nb, rm); return o; }
  if (op == "scribble") { Data& d = *S->data.at(c["d"].get<int>()); for (auto& x : d.X) x = -77; for (auto& x : d.B) x = -77; for (auto& x : d.W) x = -77; return o; }
  if (op == "data_dump") { Data& d = *S->data.at(c["d"].get<int>()); J X = J::array(), B = J::array(), W = J::array();
    for (int i = 0; i < d.ds.NumObservations(); i++) { J r = J::array(); for (int k = 0; k < d.ds.NumCovariates(); k++) r.push_back(D(d.ds.CovariateValue(i, k))); X.push_back(r); }
    if (d.ds.HasBasis()) for (int i = 0; i < d.ds.NumObservations(); i++) { J r = J::array(); for (int k = 0; k < d.ds.NumBasis(); k++) r.push_back(D(d.ds.BasisValue(i, k))); B.push_back(r); }
    if (d.ds.HasVarWeights()) for (int i = 0; i < d.ds.NumObservations(); i++) W.push_back(D(d.ds.VarWeightValue(i)));
    o["X"] = X; o["B"] = B; o["W"] = W; o["X2"] = DM(d.ds.GetCovariates()); if (d.ds.HasBasis()) o["B2"] = DM(d.ds.GetBasis()); else o["B2"] = J::array(); o["hasB"] = d.ds.HasBasis(); o["hasW"] = d.ds.HasVarWeights(); return o; }
  if (op == "hmem") { S->hmem[c["b"].get<int>()] = vec(c["cells"]); return o; }
  if (op == "hwrite") { S->hmem.at(c["b"].get<int>()).at(c["i"].get<int>()) = num(c["v"]); return o; }
  if (op == "hput") { double* ptr = S->hmem.at(c["b"].get<int>()).data() + c["off"].get<int>(); int n = c["n"], p = c["p"]; bool rm = c["row_major"]; std::string f = c["f"]; int d = c["d"];
    if (f == "X") S->hds[d].AddCovariates(ptr, n, p, rm); else if (f == "B") S->hds[d].AddBasis(ptr, n, p, rm); else if (f == "UB") S->hds[d].UpdateBasis(ptr, n, p, rm); else if (f == "W") S->hds[d].AddVarianceWeights(ptr, n);
    else if (f == "GB") S->hrd[d].AddBasis(ptr, n, p, rm); else if (f == "GW") S->hrd[d].AddVarianceWeights(ptr, n); else if (f == "GL") { std::vector<int32_t> g; for (int i = 0; i < n; i++) g.push_back((int32_t) ptr[i]); S->hrd[d].AddGroupLabels(g); for (auto& x : g) x = -77; }
    else if (f == "R") { if (c.value("load", false) && S->hrs.count(d)) S->hrs[d].LoadData(ptr, n); else S->hrs[d] = ColumnVector(ptr, n); }
    else if (f == "M") { if (c.value("load", false) && S->hmt.count(d)) S->hmt[d].LoadData(ptr, n, p, rm); else S->hmt[d] = ColumnMatrix(ptr, n, p, rm); }
    return o; }
  if (op == "hheld") { int d = c["d"]; J h = J::object(); auto rows = [](int n, int p, std::function<double(int, int)> g) { J a = J::array(); for (int i = 0; i < n; i++) { J r = J::array(); for (int j = 0; j < p; j++) r.push_back(D(g(i, j))); a.push_back(r); } return a; };
    if (S->hds.count(d)) { ForestDataset& q = S->hds[d]; J z; z["n"] = q.NumObservations(); z["p"] = q.NumCovariates(); z["nb"] = q.NumBasis(); o["sizes"] = z;
      if (q.HasCovariates()) { auto& m = q.GetCovariates(); h["X"] = rows(m.rows(), m.cols(), [&](int i, int j) { return m(i, j) == q.CovariateValue(i, j) || m(i, j) != m(i, j) ? m(i, j) : -78.; }); }
      if (q.HasBasis()) { auto& m = q.GetBasis(); h["B"] = rows(m.rows(), m.cols(), [&](int i, int j) { return m(i, j) == q.BasisValue(i, j) || m(i, j) != m(i, j) ? m(i, j) : -78.; }); }
      if (q.HasVarWeights()) { auto& m = q.GetVarWeights(); h["W"] = rows(m.size(), 1, [&](int i, int j) { return m(i) == q.VarWeightValue(i) || m(i) != m(i) ? m(i) : -78.; }); } }
    if (S->hrd.count(d)) { RandomEffectsDataset& q = S->hrd[d]; o["gn"] = q.HasBasis() ? q.NumObservations() : 0;
      if (q.HasBasis()) { auto& m = q.GetBasis(); h["GB"] = rows(m.rows(), m.cols(), [&](int i, int j) { return m(i, j) == q.BasisValue(i, j) || m(i, j) != m(i, j) ? m(i, j) : -78.; }); }
      if (q.HasGroupLabels()) { auto& g = q.GetGroupLabels(); h["GL"] = rows(g.size(), 1, [&](int i, int j) { return q.GroupId(i) == g[i] ? (double) g[i] : -78.; }); }
      if (q.HasVarWeights()) { auto& m = q.GetVarWeights(); h["GW"] = rows(m.size(), 1, [&](int i, int j) { return m(i) == q.VarWeightValue(i) || m(i) != m(i) ? m(i) : -78.; }); } }
    if (S->hrs.count(d)) { ColumnVector& q = S->hrs[d]; h["R"] = rows(q.NumRows(), 1, [&](int i, int j) { return q.GetElement(i); }); }
    if (S->hmt.count(d)) { ColumnMatrix& q = S->hmt[d]; h["M"] = rows(q.NumRows(), q.NumCols(), [&](int i, int j) { return q.GetElement(i, j); }); }
    o["held"] = h; return o; }
  if (op == "resid") { auto y = vec(c["y"]); S->resid.reset(new ColumnVector(y.data(), (int)y.size())); for (auto& v : y) v = -77; o["r"] = dump_resid(); return o; }
  if (op == "resid_load") { auto y = vec(c["y"]); S->resid->LoadData(y.data(), (int)y.size()); o["r"] = dump_resid(); return o; }
  // ---------------------------------------------------------------- forests
  if (op == "forest") { int ns = c.value("samples", 0); std::unique_ptr<ForestContainer> f; if (ns > 0) f.reset(new ForestContainer(ns, c["trees"].get<int>(), c.value("dim", 1), c.value("constant", true))); else f.reset(new ForestContainer(c["trees"].get<int>(), c.value("dim", 1), c.value("constant", true))); S->forests[c["f"].get<int>()] = std::move(f); return o; }
  if (op == "add_samples") { S->forests.at(c["f"].get<int>())->AddSamples(c["num"].get<int>()); return o; }
  if (op == "copy_sample") { S->forests.at(c["f"].get<int>())->CopyFromPreviousSample(c["new"].get<int>(), c["prev"].get<int>()); return o; }
  if (op == "set_leaves") { auto v = vec(c["v"]); auto& f = *S->forests.at(c["f"].get<int>()); if (c.value("vector", false)) f.SetLeafVector(c["k"].get<int>(), v); else f.SetLeafValue(c["k"].get<int>(), v[0]); return o; }
  if (op == "init_root") { auto v = vec(c["v"]); auto& f = *S->forests.at(c["f"].get<int>()); if (c.value("vector", false)) f.InitializeRoot(v); else f.InitializeRoot(v[0]); return o; }
  if (op == "reset_tree") { S->forests.at(c["f"].get<int>())->GetEnsemble(c["k"].get<int>())->ResetInitTree(c["j"].get<int>()); return o; }
  if (op == "clone_into") { auto& f = *S->forests.at(c["f"].get<int>()); f.GetEnsemble(c["k"].get<int>())->CloneFromExistingTree(c["j"].get<int>(), S->forests.at(c["f2"].get<int>())->GetEnsemble(c["k2"].get<int>())->GetTree(c["j2"].get<int>())); return o; }
  if (op == "take_root") { auto& f = *S->forests.at(c["f"].get<int>()); f.IncrementSampleCount(); if (!f.to_json().contains("forest_0")) throw std::runtime_error("no initialised forest"); return o; }
  if (op == "forest_dump") { auto& f = *S->forests.at(c["f"].get<int>()); J a = J::array(); J m = J::array(); for (int k = 0; k < f.NumSamples(); k++) { a.push_back(dump_ensemble(f.GetEnsemble(k))); J q; q["nt"] = f.NumTrees(k); q["nl"] = f.NumLeaves(k); q["dim"] = f.OutputDimension(k); q["const"] = f.IsLeafConstant(k); q["allroots"] = f.AllRoots(k); q["sumsq"] = D(f.GetEnsemble(k)->SumLeafSquared()); m.push_back(q); }
    o["ns"] = f.NumSamples(); o["nt"] = f.NumTrees(); o["dim"] = f.OutputDimension(); o["const"] = f.IsLeafConstant(); o["samples"] = a; o["meta"] = m; o["pending"] = f.NumSamples() == 0 && f.to_json().contains("forest_0") ? dump_ensemble(f.GetEnsemble(0)) : J::array(); return o; }
  if (op == "forest_json") { auto& f = *S->forests.at(c["f"].get<int>()); std::string s1, s2; auto g = std::make_unique<ForestContainer>(1); if (c.value("into_existing", false) && S->forests.count(c["f2"].get<int>())) g = std::move(S->forests[c["f2"].get<int>()]);
    if (c.contains("file")) { std::string fn = c["file"]; f.SaveToJsonFile(fn); g->LoadFromJsonFile(fn); s1 = f.to_json().dump(); } else { s1 = f.to_json().dump(); g->from_json(J::parse(s1)); }
    s2 = g->to_json().dump(); o["resave"] = (s1 == s2); S->forests[c["f2"].get<int>()] = std::move(g); return o; }
  if (op == "predict") { auto& f = *S->forests.at(c["f"].get<int>()); Data& d = *S->data.at(c["d"].get<int>()); o["pred"] = DV(f.Predict(d.ds)); o["raw"] = DV(f.PredictRaw(d.ds)); J r = J::array(); for (int k = 0; k < f.NumSamples(); k++) r.push_back(DV(f.PredictRaw(d.ds, k))); o["rawk"] = r; return o; }
  if (op == "ens_predict") { auto& f = *S->forests.at(c["f"].get<int>()); Data& d = *S->data.at(c["d"].get<int>()); TreeEnsemble* e = f.GetEnsemble(c["k"].get<int>()); int b = c["begin"], en = c["end"], off = c["offset"]; int dim = e->OutputDimension();
    std::vector<double> out(d.n + off + 2, -55.), raw(d.n * dim + off + 2, -55.), full(d.n + off + 2, -55.), rawfull(d.n * dim + off + 2, -55.);
    e->PredictInplace(d.ds, out, b, en, off); e->PredictRawInplace(d.ds, raw, b, en, off); e->PredictInplace(d.ds, full, off); e->PredictRawInplace(d.ds, rawfull, off);
    o["out"] = DV(out); o["raw"] = DV(raw); o["full"] = DV(full); o["rawfull"] = DV(rawfull);
    std::vector<double> mat(d.n + off + 2, -55.); if (e->IsLeafConstant()) e->PredictInplace(d.ds.GetCovariates(), mat, off); else e->PredictInplace(d.ds.GetCovariates(), d.ds.GetBasis(), mat, off); o["mat"] = DV(mat);
    return o; }
  if (op == "node_predict") { auto& f = *S->forests.at(c["f"].get<int>()); Data& d = *S->data.at(c["d"].get<int>()); Tree* t = f.GetEnsemble(c["k"].get<int>())->GetTree(c["j"].get<int>()); std::vector<int32_t> ids; for (int i = 0; i < d.n; i++) ids.push_back(EvaluateTree(*t, d.ds.GetCovariates(), i)); o["ids"] = ids;
    Eigen::Map<Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::ColMajor>> mp(d.ds.GetCovariates().data(), d.n, d.p); std::vector<int32_t> ids2; for (int i = 0; i < d.n; i++) ids2.push_back(EvaluateTree(*t, mp, i)); o["ids2"] = ids2;
    o["basis"] = d.ds.HasBasis(); if (d.ds.HasBasis()) o["vals"] = DV(t->PredictFromNodes(ids, d.ds.GetBasis())); else o["vals"] = DV(t->PredictFromNodes(ids));
    if (t->OutputDimension() == 1) { std::vector<double> ip(d.n, -55.); t->InplacePredictFromNodes(ip, ids); o["vals2"] = DV(ip); }
    o["tree"] = dump_tree(t); return o; }
  if (op == "rowsplit") { Data& d = *S->data.at(c["d"].get<int>()); J a = J::array(); TreeSplit sp = mksplit(c); for (int i = 0; i < d.n; i++) { bool x = sp.SplitTrue(d.ds.CovariateValue(i, c["feat"].get<int>())); bool y = c.contains("cats") ? RowSplitLeft(d.ds.GetCovariates(), i, c["feat"].get<int>(), cats(c["cats"])) : RowSplitLeft(d.ds.GetCovariates(), i, c["feat"].get<int>(), num(c["thr"])); a.push_back({x, y}); } o["left"] = a; return o; }
  if (op == "leafidx") { auto& f = *S->forests.at(c["f"].get<int>()); Data& d = *S->data.at(c["d"].get<int>()); o["idx"] = f.GetEnsemble(c["k"].get<int>())->PredictLeafIndices(&d.ds); return o; }
  if (op == "kernel") { auto& f = *S->forests.at(c["f"].get<int>()); Data& d = *S->data.at(c["d"].get<int>()); int kid = c.value("kernel", 0); if (!S->kernels.count(kid)) S->kernels[kid].reset(new ForestKernel()); ForestKernel& K = *S->kernels[kid]; TreeEnsemble* e = f.GetEnsemble(c["k"].get<int>());
    auto& A = d.ds.GetCovariates(); KernelMatrixType MA(A.data(), d.n, d.p); bool ext = c.value("external", false), mapd = c.value("mapped", false);
    if (c.contains("d2")) { Data& d2 = *S->data.at(c["d2"].get<int>()); auto& Bm = d2.ds.GetCovariates(); KernelMatrixType MB(Bm.data(), d2.n, d2.p);
      if (ext) { std::vector<double> k1(d.n * d.n), k2(d2.n * d.n), k3(d2.n * d2.n); KernelMatrixType M1(k1.data(), d.n, d.n), M2(k2.data(), d2.n, d.n), M3(k3.data(), d2.n, d2.n); if (mapd) K.ComputeKernelExternal(MA, MB, *e, M1, M2, M3); else K.ComputeKernelExternal(A, Bm, *e, M1, M2, M3); o["tr"] = DM(M1); o["tt"] = DM(M2); o["te"] = DM(M3); }
      else { if (mapd) K.ComputeKernel(MA, MB, *e); else K.ComputeKernel(A, Bm, *e); o["tr"] = DM(K.GetTrainKernel()); o["tt"] = DM(K.GetTestTrainKernel()); o["te"] = DM(K.GetTestKernel()); }
      o["itr"] = K.GetTrainLeafIndices(); o["ite"] = K.GetTestLeafIndices();
    } else {
      if (ext) { std::vector<double> k1(d.n * d.n); KernelMatrixType M1(k1.data(), d.n, d.n); if (mapd) K.ComputeKernelExternal(MA, *e, M1); else K.ComputeKernelExternal(A, *e, M1); o["tr"] = DM(M1); }
      else { if (mapd) K.ComputeKernel(MA, *e); else K.ComputeKernel(A, *e); o["tr"] = DM(K.GetTrainKernel()); }
      o["itr"] = K.GetTrainLeafIndices();
    }
    return o; }
  // ---------------------------------------------------------------- tracker
  if (op == "slot") { auto s = std::make_unique<Slot>(); s->data = c["d"]; s->forest = c["f"]; s->ntrees = c["trees"]; for (auto& x : c["ft"]) s->ft.push_back(static_cast<FeatureType>(x.get<int>())); Data& d = *S->data.at(s->data);
    s->tracker.reset(new ForestTracker(d.ds.GetCovariates(), s->ft, s->ntrees, d.n)); s->model = c.value("model", 0); s->tau = c.contains("tau") ? num(c["tau"]) : 1.; s->alpha = c.value("alpha", .95); s->beta = c.value("beta", 2.); s->minleaf = c.value("minleaf", 1); s->grid = c.value("grid", 100); s->pre = c.value("pre", false);
    if (c.contains("Sigma")) { auto& m = c["Sigma"]; int q = m.size(); s->Sigma = Eigen::MatrixXd(q, q); for (int a = 0; a < q; a++) for (int b = 0; b < q; b++) s->Sigma(a, b) = num(m[a][b]); }
    if (c.contains("w")) s->w = vec(c["w"]); else s->w = std::vector<double>(d.p, 1. / d.p); alt_reset(*s, -1); int id = c["s"]; S->slots[id] = std::move(s); return o; }
  if (op == "trk_split") { Slot& s = *S->slots.at(c["s"].get<int>()); J q = c; q["f"] = s.forest; Tree* t = tree_of(q); int nid = resolve(t, c["node"].get<int>()); J x = c; x["via"] = "split"; expand(t, nid, x); TreeSplit sp = mksplit(c); s.tracker->AddSplit(S->data.at(s.data)->ds.GetCovariates(), sp, c["feat"], c["j"], nid, t->LeftChild(nid), t->RightChild(nid), c.value("sorted", false));
    auto& X = S->data.at(s.data)->ds.GetCovariates(); int j = c["j"], ft = c["feat"], L = t->LeftChild(nid), R = t->RightChild(nid);
    if (c.contains("cats")) { auto cl = cats(c["cats"]); s.u2->PartitionTreeNode(X, j, nid, L, R, ft, cl); if (c.value("sorted", false)) s.s2->PartitionNode(X, nid, ft, cl); }
    else { double th = num(c["thr"]); s.u2->PartitionTreeNode(X, j, nid, L, R, ft, th); if (c.value("sorted", false)) s.s2->PartitionNode(X, nid, ft, th); }
    s.u2->UpdateObservationMapping(L, j, s.m2.get()); s.u2->UpdateObservationMapping(R, j, s.m2.get()); return o; }
  if (op == "trk_prune") { Slot& s = *S->slots.at(c["s"].get<int>()); J q = c; q["f"] = s.forest; Tree* t = tree_of(q); int nid = resolve(t, c["node"].get<int>()); int l = t->LeftChild(nid), r = t->RightChild(nid); auto v = vec(c["v"]); if (t->OutputDimension() > 1) t->CollapseToLeaf(nid, v); else t->CollapseToLeaf(nid, v[0]); s.tracker->RemoveSplit(S->data.at(s.data)->ds.GetCovariates(), t, c["j"], nid, l, r, c.value("sorted", false)); s.u2->PruneTreeNodeToLeaf(c["j"], nid); s.u2->UpdateObservationMapping(nid, c["j"], s.m2.get()); return o; }
  if (op == "trk_reset") { Slot& s = *S->slots.at(c["s"].get<int>()); S->forests.at(s.forest)->GetEnsemble(c.value("k", 0))->ResetInitTree(c["j"]); s.tracker->ResetRoot(S->data.at(s.data)->ds.GetCovariates(), s.ft, c["j"].get<int>()); alt_reset(s, c["j"]); return o; }
  if (op == "trk_dump") { Slot& s = *S->slots.at(c["s"].get<int>()); TreeEnsemble* e = S->forests.at(s.forest)->GetEnsemble(c.value("k", 0)); o["cur"] = dump_ensemble(e); o["trk"] = dump_tracker(s, e, c.value("sorted_tree", -1)); if (c.value("alt", false)) o["alt"] = dump_alt(s, e, c.value("sorted_tree", -1)); return o; }
  if (op == "trk_const") { Slot& s = *S->slots.at(c["s"].get<int>()); if (c.contains("j")) s.tracker->AssignAllSamplesToConstantPrediction(c["j"].get<int>(), num(c["v"])); else s.tracker->AssignAllSamplesToConstantPrediction(num(c["v"])); return o; }
  // ---------------------------------------------------------------- samplers
  if (op == "sigma2") { S->sigma2 = num(c["v"]); return o; }
  if (op == "seed") { S->gen.seed(c["v"].get<int>()); return o; }
  if (op == "slot_set") { Slot& s = *S->slots.at(c["s"].get<int>()); if (c.contains("Sigma")) { auto& m = c["Sigma"]; int q = m.size(); s.Sigma = Eigen::MatrixXd(q, q); for (int a = 0; a < q; a++) for (int b = 0; b < q; b++) s.Sigma(a, b) = num(m[a][b]); } if (c.contains("tau")) s.tau = num(c["tau"]); if (c.contains("minleaf")) s.minleaf = c["minleaf"]; if (c.contains("w")) s.w = vec(c["w"]); if (c.contains("alpha")) s.alpha = num(c["alpha"]); if (c.contains("beta")) s.beta = num(c["beta"]); return o; }
  if (op == "slot_forest") { S->slots.at(c["s"].get<int>())->forest = c["f"]; return o; }
  if (op == "gfr" || op == "mcmc") { int id = c["s"]; model_dispatch(*S->slots.at(id), op == "gfr"); o = dump_slot(id, c); o["r"] = dump_resid(); return o; }
  if (op == "gfrq" || op == "mcmcq") { int id = c["s"]; model_dispatch(*S->slots.at(id), op == "gfrq"); return o; }
  if (op == "chain") { int id = c["s"]; Slot& s = *S->slots.at(id); auto& X = S->data.at(s.data)->ds.GetCovariates(); std::map<std::string, int> ids; J trees = J::array(), seq = J::array();
    for (int it = 0; it < c["iters"].get<int>(); it++) { model_dispatch(s, c.value("gfr", false)); auto* f = S->forests.at(s.forest).get(); Tree* t = f->GetEnsemble(f->NumSamples() - 1)->GetTree(0); std::vector<int> rows(X.rows()); for (int i = 0; i < X.rows(); i++) rows[i] = i;
      J q = partition_of(t, 0, X, rows); auto r = ids.emplace(q.dump(), (int)ids.size()); if (r.second) trees.push_back(q); seq.push_back(r.first->second); }
    o["trees"] = trees; o["seq"] = seq; return o; }
  if (op == "slot_dump") { o = dump_slot(c["s"], c); o["r"] = dump_resid(); return o; }
  if (op == "init_slot") { Slot& s = *S->slots.at(c["s"].get<int>()); auto v = vec(c["v"]); auto& f = *S->forests.at(s.forest); if (c.value("vector", false)) f.InitializeRoot(v); else f.InitializeRoot(v[0]); s.pre = true;
    UpdateResidualEntireForest(*s.tracker, S->data.at(s.data)->ds, *S->resid, f.GetEnsemble(0), s.model != 0, std::minus<double>()); o = dump_slot(c["s"], c); o["r"] = dump_resid(); return o; }
  if (op == "resid_forest") { Slot& s = *S->slots.at(c["s"].get<int>()); auto& f = *S->forests.at(s.forest); std::function<double(double, double)> fn; if (c["add"].get<bool>()) fn = std::plus<double>(); else fn = std::minus<double>(); UpdateResidualEntireForest(*s.tracker, S->data.at(s.data)->ds, *S->resid, f.GetEnsemble(c["k"].get<int>()), s.model != 0, fn); o["r"] = dump_resid(); o["trk"] = dump_tracker(s, f.GetEnsemble(c["k"].get<int>()), -1); return o; }
  if (op == "cut") { Slot& s = *S->slots.at(c["s"].get<int>()); Data& d = *S->data.at(s.data); TreeEnsemble* e = S->forests.at(s.forest)->GetEnsemble(c.value("k", 0)); Tree* t = e->GetTree(c["j"]); int nid = resolve(t, c["node"].get<int>()); int ft = c["feat"], b = s.tracker->SortedNodeBegin(nid, ft), en = s.tracker->SortedNodeEnd(nid, ft);
    CutpointGridContainer g(d.ds.GetCovariates(), S->resid->GetData(), c.value("grid", s.grid)); if (c.contains("warm")) g.CalculateStrides(d.ds.GetCovariates(), S->resid->GetData(), s.tracker->GetSortedNodeSampleTracker(), nid, b, en, c["warm"], s.ft);
    g.CalculateStrides(d.ds.GetCovariates(), S->resid->GetData(), s.tracker->GetSortedNodeSampleTracker(), nid, b, en, ft, s.ft);
    J rows = J::array(); for (auto it = s.tracker->SortedNodeBeginIterator(nid, ft); it != s.tracker->SortedNodeEndIterator(nid, ft); ++it) rows.push_back(*it); o["rows"] = rows;
    J bins = J::array(); for (int i = 0; i < g.NumCutpoints(ft); i++) { J q; q["b"] = g.BinStartIndex(i, ft) - b; q["len"] = g.BinLength(i, ft); q["e"] = g.BinEndIndex(i, ft) - b; q["v"] = D(g.CutpointValue(i, ft)); q["vec"] = (s.ft[ft] == FeatureType::kUnorderedCategorical) ? J(g.CutpointVector(i, ft)) : J::array(); bins.push_back(q); } o["bins"] = bins; return o; }
  if (op == "eval") { Slot& s = *S->slots.at(c["s"].get<int>()); if (s.model == 0) return split_eval<GaussianConstantLeafModel>(s, c); if (s.model == 1) return split_eval<GaussianUnivariateRegressionLeafModel>(s, c); return split_eval<GaussianMultivariateRegressionLeafModel>(s, c); }
  if (op == "leaf_draw") { Slot& s = *S->slots.at(c["s"].get<int>()); TreeEnsemble* e = S->forests.at(s.forest)->GetEnsemble(c.value("k", 0)); int j = c["j"]; Tree* t = e->GetTree(j); int reps = c.value("reps", 1); J first; std::map<int, std::vector<double>> sum, sq; for (int q = 0; q < reps; q++) { if (s.model == 0) leaf_draw<GaussianConstantLeafModel>(s, t, j); else if (s.model == 1) leaf_draw<GaussianUnivariateRegressionLeafModel>(s, t, j); else leaf_draw<GaussianMultivariateRegressionLeafModel>(s, t, j);
      for (int l : t->GetLeaves()) { auto& a = sum[l]; auto& b = sq[l]; a.resize(t->OutputDimension()); b.resize(t->OutputDimension()); for (int k = 0; k < t->OutputDimension(); k++) { double v = t->LeafValue(l, k); a[k] += v; b[k] += v * v; } } }
    J a = J::array(); for (auto& kv : sum) { J q; q["id"] = kv.first; for (auto& v : kv.second) v /= reps; q["mean"] = DV(kv.second); auto& b = sq[kv.first]; std::vector<double> vr; for (size_t k = 0; k < b.size(); k++) vr.push_back(b[k] / reps - kv.second[k] * kv.second[k]); q["var"] = DV(vr); a.push_back(q); } o["leaves"] = a; o["cur"] = dump_ensemble(e); o["r"] = dump_resid(); return o; }
  if (op == "variance") { GlobalHomoskedasticVarianceModel m; o["r"] = dump_resid(); o["v"] = D(m.SampleVarianceParameter(S->resid->GetData(), num(c["nu"]), num(c["lambda"]), S->gen)); o["shape"] = D(m.PosteriorShape(S->resid->GetData(), num(c["nu"]), num(c["lambda"]))); o["scale"] = D(m.PosteriorScale(S->resid->GetData(), num(c["nu"]), num(c["lambda"]))); return o; }
  if (op == "leaf_variance") { LeafNodeHomoskedasticVarianceModel m; TreeEnsemble* e = S->forests.at(c["f"].get<int>())->GetEnsemble(c["k"]); J mu = J::array(); for (int j = 0; j < e->NumTrees(); j++) { Tree* t = e->GetTree(j); for (int l : t->GetLeaves()) mu.push_back(D(t->LeafValue(l, 0))); } o["mu"] = mu; o["v"] = D(m.SampleVarianceParameter(e, num(c["a"]), num(c["b"]), S->gen)); return o; }
  // ---------------------------------------------------------------- random effects
  if (op == "category") { std::vector<int32_t> l; for (auto& x : c["labels"]) l.push_back(x.get<int>()); RandomEffectsTracker t(l); J a = J::array(); J ids = J::array(); for (auto u : t.GetUniqueGroupIds()) ids.push_back(u); o["ids"] = ids; o["nc"] = t.NumCategories();
    for (auto u : t.GetUniqueGroupIds()) { J q; q["id"] = u; q["num"] = t.CategoryNumber(u); q["begin"] = t.CategoryBegin(u); q["end"] = t.CategoryEnd(u); q["size"] = t.CategorySize(u); q["rows"] = t.NodeIndices(u); q["rows2"] = t.NodeIndicesInternalIndex(t.CategoryNumber(u)); a.push_back(q); } o["cats"] = a; o["idx"] = t.GetCategorySampleTracker()->indices_; J m = J::array(); for (size_t i = 0; i < l.size(); i++) m.push_back(t.GetCategoryId(i)); o["of"] = m;
    if (c.contains("set")) { t.GetSampleCategoryMapper()->SetCategoryId(c["set"][0], c["set"][1]); o["after"] = t.GetCategoryId(c["set"][0]); SampleCategoryMapper cp(*t.GetSampleCategoryMapper()); J m2 = J::array(); for (size_t i = 0; i < l.size(); i++) m2.push_back(cp.GetCategoryId(i)); o["copy"] = m2; } return o; }
  if (op == "rfx") { auto r = std::make_unique<Rfx>(); for (auto& x : c["labels"]) r->labels.push_back(x.get<int>()); int n; flatten(c["B"], c.value("row_major", true), r->B, n, r->nb); r->ds.AddBasis(r->B.data(), n, r->nb, c.value("row_major", true)); r->ds.AddGroupLabels(r->labels); r->tracker.reset(new RandomEffectsTracker(r->labels)); int ng = r->tracker->NumCategories(); r->model.reset(new MultivariateRegressionRandomEffectsModel(r->nb, ng)); r->cont.reset(new RandomEffectsContainer(r->nb, ng)); r->lm = LabelMapper(r->tracker->GetLabelMap());
    Eigen::VectorXd wp = Eigen::VectorXd::Ones(r->nb); Eigen::MatrixXd gp = Eigen::MatrixXd::Zero(r->nb, ng); Eigen::MatrixXd wc = Eigen::MatrixXd::Identity(r->nb, r->nb) * c.value("wcov", 1.), gc = Eigen::MatrixXd::Identity(r->nb, r->nb) * c.value("gcov", 1.); r->model->SetWorkingParameter(wp); r->model->SetGroupParameters(gp); r->model->SetWorkingParameterCovariance(wc); r->model->SetGroupParameterCovariance(gc); r->model->SetVariancePriorShape(c.value("shape", 1.)); r->model->SetVariancePriorScale(c.value("scale", 1.));
    if (c.contains("warm_pred")) r->tracker->GetPrediction(0);
    o["state"] = rfx_state(*r); o["cont"] = cont_state(*r->cont); o["lm"] = labels_state(r->lm); S->rfx[c["x"].get<int>()] = std::move(r); return o; }
  if (op == "rfx_set") { Rfx& r = *S->rfx.at(c["x"].get<int>()); Eigen::VectorXd a(r.nb); for (int i = 0; i < r.nb; i++) a(i) = num(c["alpha"][i]); r.model->SetWorkingParameter(a); int ng = r.tracker->NumCategories(); Eigen::MatrixXd g(r.nb, ng); for (int k = 0; k < ng; k++) for (int i = 0; i < r.nb; i++) g(i, k) = num(c["xi"][k][i]); if (c.value("one_by_one", false)) { for (int k = 0; k < ng; k++) { Eigen::VectorXd col = g.col(k); r.model->SetGroupParameter(col, k); } } else r.model->SetGroupParameters(g); if (c.contains("sig")) for (int i = 0; i < r.nb; i++) r.model->SetGroupParameterVarianceComponent(num(c["sig"][i]), i); o["state"] = rfx_state(r); return o; }
  if (op == "rfx_add") { Rfx& r = *S->rfx.at(c["x"].get<int>()); r.cont->AddSample(*r.model); o["state"] = rfx_state(r); o["cont"] = cont_state(*r.cont); return o; }
  if (op == "rfx_iter") { Rfx& r = *S->rfx.at(c["x"].get<int>()); r.model->SampleRandomEffects(r.ds, *S->resid, *r.tracker, S->sigma2, S->gen); if (c.value("store", true)) r.cont->AddSample(*r.model); o["state"] = rfx_state(r); o["cont"] = cont_state(*r.cont); o["r"] = dump_resid(); o["mp"] = DV(r.model->Predict(r.ds, *r.tracker)); return o; }
  if (op == "rfx_shift") { Rfx& r = *S->rfx.at(c["x"].get<int>()); if (c["dir"] == "add") r.model->AddCurrentPredictionToResidual(r.ds, *r.tracker, *S->resid); else r.model->SubtractNewPredictionFromResidual(r.ds, *r.tracker, *S->resid); o["state"] = rfx_state(r); o["r"] = dump_resid(); return o; }
  if (op == "rfx_post") { Rfx& r = *S->rfx.at(c["x"].get<int>()); int ng = r.tracker->NumCategories(); J a = J::array(); for (int k = 0; k < ng; k++) { J q; q["m"] = DV(r.model->GroupParameterMean(r.ds, *S->resid, *r.tracker, S->sigma2, k)); q["v"] = DM(r.model->GroupParameterVariance(r.ds, *S->resid, *r.tracker, S->sigma2, k)); a.push_back(q); } o["g"] = a; o["wm"] = DV(r.model->WorkingParameterMean(r.ds, *S->resid, *r.tracker, S->sigma2)); o["wv"] = DM(r.model->WorkingParameterVariance(r.ds, *S->resid, *r.tracker, S->sigma2)); return o; }
  if (op == "rfx_predict") { Rfx& r = *S->rfx.at(c["x"].get<int>()); RandomEffectsDataset ds; std::vector<double> B; int n, nb; flatten(c["B"], c.value("row_major", true), B, n, nb); ds.AddBasis(B.data(), n, nb, c.value("row_major", true)); std::vector<int32_t> l; for (auto& x : c["labels"]) l.push_back(x.get<int>()); ds.AddGroupLabels(l); std::vector<double> out((size_t)n * r.cont->NumSamples(), -55.); r.cont->Predict(ds, r.lm, out); o["pred"] = DV(out); return o; }
  if (op == "rfx_json") { Rfx& r = *S->rfx.at(c["x"].get<int>()); std::string s1 = r.cont->to_json().dump(), l1 = r.lm.to_json().dump(); auto c2 = std::make_unique<RandomEffectsContainer>(); LabelMapper lm2; if (c.value("dirty", false)) { RandomEffectsContainer* x = new RandomEffectsContainer(r.nb, r.tracker->NumCategories()); x->AddSample(*r.model); c2.reset(x); } c2->from_json(J::parse(s1)); if (c.value("dirty_map", false)) { std::map<int32_t, int32_t> junk{{-999, 0}, {r.labels[0], 77}}; lm2 = LabelMapper(junk); if (c.value("reset_map", true)) lm2.Reset(); } lm2.from_json(J::parse(l1)); o["resave"] = (c2->to_json().dump() == s1) && (lm2.to_json().dump() == l1); r.cont = std::move(c2); r.lm = lm2; o["cont"] = cont_state(*r.cont); o["lm"] = labels_state(r.lm); return o; }
  throw std::runtime_error("unknown op " + op);
}

int main(int argc, char** argv) {
  if (argc < 3) return 2;
  std::ifstream in(argv[1]); std::ofstream out(argv[2]); std::string line; S.reset(new Session());
  while (std::getline(in, line)) {
    if (line.empty()) continue;
    J c = J::parse(line); J o;
    try { o = run(c); if (o.is_null()) o = J::object(); } catch (std::exception& e) { o = J::object(); o["error"] = std::string(e.what()); }
    o["op"] = c["op"]; if (c.contains("id")) o["id"] = c["id"];
    out << o.dump() << "\n"; out.flush();
  }
  return 0;
}
