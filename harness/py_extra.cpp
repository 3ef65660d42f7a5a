// the package's Python extension, with readers for what its data objects hold
#include STOCHTREE_PY_SOURCE
#include <pybind11/stl.h>
#include <vector>

static py::list rows_of(Eigen::MatrixXd& m) {
  py::list out;
  for (int i = 0; i < m.rows(); i++) {
    py::list r;
    for (int j = 0; j < m.cols(); j++) r.append(m(i, j));
    out.append(r);
  }
  return out;
}

PYBIND11_MODULE(vf_extra, m) {
  m.def("residual", [](ResidualCpp& r) { std::vector<double> v; StochTree::ColumnVector* c = r.GetData(); for (int i = 0; i < c->NumRows(); i++) v.push_back(c->GetElement(i)); return v; });
  m.def("set_residual", [](ResidualCpp& r, std::vector<double> v) { for (std::size_t i = 0; i < v.size(); i++) r.GetData()->SetElement(i, v[i]); });
  m.def("covariates", [](ForestDatasetCpp& d) { return rows_of(d.GetDataset()->GetCovariates()); });
  m.def("basis", [](ForestDatasetCpp& d) { return rows_of(d.GetDataset()->GetBasis()); });
  m.def("has", [](ForestDatasetCpp& d) { auto* x = d.GetDataset(); return std::vector<bool>{x->HasCovariates(), x->HasBasis(), x->HasVarWeights()}; });
  m.def("dims", [](ForestDatasetCpp& d) { auto* x = d.GetDataset(); return std::vector<int>{(int) x->NumObservations(), x->NumCovariates(), x->NumBasis()}; });
  m.def("weights", [](ForestDatasetCpp& d) { std::vector<double> v; auto& w = d.GetDataset()->GetVarWeights(); for (int i = 0; i < w.size(); i++) v.push_back(w(i)); return v; });
}
