// readers for what the R package's data objects hold (their external pointers point to the library's own classes)
#include <stochtree/data.h>
#include <stochtree/random_effects.h>
#define R_NO_REMAP
#include <Rinternals.h>
using namespace StochTree;
static SEXP matrix(Eigen::MatrixXd& m) {
  SEXP s = PROTECT(Rf_allocMatrix(REALSXP, m.rows(), m.cols()));
  for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) REAL(s)[i + j * m.rows()] = m(i, j);
  UNPROTECT(1);
  return s;
}
static SEXP vec(Eigen::VectorXd& v) {
  SEXP s = PROTECT(Rf_allocVector(REALSXP, v.size()));
  for (int i = 0; i < v.size(); i++) REAL(s)[i] = v(i);
  UNPROTECT(1);
  return s;
}
template <class T> T* at(SEXP p) { return static_cast<T*>(R_ExternalPtrAddr(p)); }
extern "C" {
SEXP vf_column(SEXP p) { return vec(at<ColumnVector>(p)->GetData()); }
SEXP vf_covariates(SEXP p) { return matrix(at<ForestDataset>(p)->GetCovariates()); }
SEXP vf_basis(SEXP p) { return matrix(at<ForestDataset>(p)->GetBasis()); }
SEXP vf_weights(SEXP p) { return vec(at<ForestDataset>(p)->GetVarWeights()); }
SEXP vf_rfx_basis(SEXP p) { return matrix(at<RandomEffectsDataset>(p)->GetBasis()); }
SEXP vf_rfx_weights(SEXP p) { return vec(at<RandomEffectsDataset>(p)->GetVarWeights()); }
SEXP vf_rfx_group(SEXP p, SEXP n) {
  int k = Rf_asInteger(n);
  SEXP s = PROTECT(Rf_allocVector(INTSXP, k));
  for (int i = 0; i < k; i++) INTEGER(s)[i] = at<RandomEffectsDataset>(p)->GroupId(i);
  UNPROTECT(1);
  return s;
}
}
