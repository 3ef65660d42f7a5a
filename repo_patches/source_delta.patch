From 8c1c0805b4813a2c1342224e8eddb01aed382cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:40 +0000
Subject: [PATCH 01/57] fix: Tree::Init and Tree::Reset forget previously freed
 nodes

---
 src/tree.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tree.cpp b/src/tree.cpp
index 68ac632..7800b2d 100644
--- a/src/tree.cpp
+++ b/src/tree.cpp
@@ -310,6 +310,7 @@ void Tree::Reset() {
   leaves_.clear();
   leaf_parents_.clear();
   internal_nodes_.clear();
+  deleted_nodes_.clear();
 
   // Set bool / integer variables to default values
   num_nodes = 0;
@@ -343,6 +344,8 @@ void Tree::Init(std::int32_t output_dimension) {
   leaves_.clear();
   leaf_parents_.clear();
   internal_nodes_.clear();
+  deleted_nodes_.clear();
+  num_deleted_nodes = 0;
 
   // Set output dimension
   output_dimension_ = output_dimension;
-- 
2.43.0


From 69db98f4838496dcf466a8cb6c3cd4c1afba94e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:40 +0000
Subject: [PATCH 02/57] fix: keep the freed-node count when a tree is read from
 JSON

---
 src/tree.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/tree.cpp b/src/tree.cpp
index 7800b2d..b1ce813 100644
--- a/src/tree.cpp
+++ b/src/tree.cpp
@@ -648,7 +648,6 @@ void Tree::from_json(const json& tree_json) {
   tree_json.at("num_deleted_nodes").get_to(this->num_deleted_nodes);
   tree_json.at("has_categorical_split").get_to(this->has_categorical_split_);
   tree_json.at("output_dimension").get_to(this->output_dimension_);
-  this->num_deleted_nodes = 0;
   
   // Unpack the array based fields
   JsonToTreeNodeVectors(tree_json, this);
-- 
2.43.0


From 46a6d13c8baa989212a6552a9f7638be801c2081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:18 +0000
Subject: [PATCH 03/57] fix: Tree::InplacePredictFromNodes writes to the
 caller's vector

---
 include/stochtree/tree.h | 2 +-
 src/tree.cpp             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stochtree/tree.h b/include/stochtree/tree.h
index bbacd56..fc22431 100644
--- a/include/stochtree/tree.h
+++ b/include/stochtree/tree.h
@@ -223,7 +223,7 @@ class Tree {
   /*! \brief Predict a tree based on node membership indices
    * TODO: generalize to vector leaves
    */
-  void InplacePredictFromNodes(std::vector<double> result, std::vector<std::int32_t> node_indices);
+  void InplacePredictFromNodes(std::vector<double>& result, std::vector<std::int32_t> node_indices);
   std::vector<double> PredictFromNodes(std::vector<std::int32_t> node_indices);
   std::vector<double> PredictFromNodes(std::vector<std::int32_t> node_indices, Eigen::MatrixXd& basis);
   double PredictFromNode(std::int32_t node_id);
diff --git a/src/tree.cpp b/src/tree.cpp
index b1ce813..3fc4cef 100644
--- a/src/tree.cpp
+++ b/src/tree.cpp
@@ -38,7 +38,7 @@ std::int32_t Tree::NumSplitNodes() const {
   return splits;
 }
 
-void Tree::InplacePredictFromNodes(std::vector<double> result, std::vector<std::int32_t> node_indices) {
+void Tree::InplacePredictFromNodes(std::vector<double>& result, std::vector<std::int32_t> node_indices) {
   if (result.size() != node_indices.size()) {
     Log::Fatal("Indices and result vector are different sizes");
   }
-- 
2.43.0


From 72ae0cddc3ea6f7e1845783f9086ea5c971f8a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:22 +0000
Subject: [PATCH 04/57] fix: VarSplitRange finds the maximum of a feature that
 is never positive

numeric_limits<double>::min() is the smallest positive double, and the
'else if' skipped the maximum whenever the first value was the largest.
Thresholds were drawn beyond the values in the leaf, so MCMC could grow an
empty leaf, or refuse to split a leaf that has two distinct values.
---
 include/stochtree/tree_sampler.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stochtree/tree_sampler.h b/include/stochtree/tree_sampler.h
index e9ef65d..67ba8e5 100644
--- a/include/stochtree/tree_sampler.h
+++ b/include/stochtree/tree_sampler.h
@@ -22,7 +22,7 @@ namespace StochTree {
 
 static inline void VarSplitRange(ForestTracker& tracker, ForestDataset& dataset, int tree_num, int leaf_split, int feature_split, double& var_min, double& var_max) {
   var_min = std::numeric_limits<double>::max();
-  var_max = std::numeric_limits<double>::min();
+  var_max = std::numeric_limits<double>::lowest();
   double feature_value;
   
   std::vector<data_size_t>::iterator node_begin_iter = tracker.UnsortedNodeBeginIterator(tree_num, leaf_split);
@@ -33,7 +33,8 @@ static inline void VarSplitRange(ForestTracker& tracker, ForestDataset& dataset,
     feature_value = dataset.CovariateValue(idx, feature_split);
     if (feature_value < var_min) {
       var_min = feature_value;
-    } else if (feature_value > var_max) {
+    }
+    if (feature_value > var_max) {
       var_max = feature_value;
     }
   }
-- 
2.43.0


From 36dbee25a4b74becd841c9b6029229b2055c5e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:22 +0000
Subject: [PATCH 05/57] fix: constant-node checks of the MCMC proposal see the
 whole range of a feature

---
 include/stochtree/tree_sampler.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/stochtree/tree_sampler.h b/include/stochtree/tree_sampler.h
index 67ba8e5..4695edf 100644
--- a/include/stochtree/tree_sampler.h
+++ b/include/stochtree/tree_sampler.h
@@ -53,9 +53,9 @@ static inline bool NodesNonConstantAfterSplit(ForestDataset& dataset, ForestTrac
   for (int j = 0; j < p; j++) {
     auto node_begin_iter = tracker.UnsortedNodeBeginIterator(tree_num, leaf_split);
     auto node_end_iter = tracker.UnsortedNodeEndIterator(tree_num, leaf_split);
-    var_max_left = std::numeric_limits<double>::min();
+    var_max_left = std::numeric_limits<double>::lowest();
     var_min_left = std::numeric_limits<double>::max();
-    var_max_right = std::numeric_limits<double>::min();
+    var_max_right = std::numeric_limits<double>::lowest();
     var_min_right = std::numeric_limits<double>::max();
 
     for (auto i = node_begin_iter; i != node_end_iter; i++) {
@@ -65,13 +65,15 @@ static inline bool NodesNonConstantAfterSplit(ForestDataset& dataset, ForestTrac
       if (split.SplitTrue(split_feature_value)) {
         if (var_max_left < feature_value) {
           var_max_left = feature_value;
-        } else if (var_min_left > feature_value) {
+        }
+        if (var_min_left > feature_value) {
           var_min_left = feature_value;
         }
       } else {
         if (var_max_right < feature_value) {
           var_max_right = feature_value;
-        } else if (var_min_right > feature_value) {
+        }
+        if (var_min_right > feature_value) {
           var_min_right = feature_value;
         }
       }
@@ -93,7 +95,7 @@ static inline bool NodeNonConstant(ForestDataset& dataset, ForestTracker& tracke
   for (int j = 0; j < p; j++) {
     auto node_begin_iter = tracker.UnsortedNodeBeginIterator(tree_num, node_id);
     auto node_end_iter = tracker.UnsortedNodeEndIterator(tree_num, node_id);
-    var_max = std::numeric_limits<double>::min();
+    var_max = std::numeric_limits<double>::lowest();
     var_min = std::numeric_limits<double>::max();
 
     for (auto i = node_begin_iter; i != node_end_iter; i++) {
@@ -101,7 +103,8 @@ static inline bool NodeNonConstant(ForestDataset& dataset, ForestTracker& tracke
       feature_value = dataset.CovariateValue(idx, j);
       if (var_max < feature_value) {
         var_max = feature_value;
-      } else if (var_min > feature_value) {
+      }
+      if (var_min > feature_value) {
         var_min = feature_value;
       }
     }
-- 
2.43.0


From a73b355963342be1ca786f26e1eddcd1abe04aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:22 +0000
Subject: [PATCH 06/57] fix: UpdateResidualEntireForest applies each row's own
 forest prediction

Both accumulators ran on across trees and rows, so every row after the
first received the sum of all earlier predictions too, and the cached
per-tree predictions were wrong.
---
 include/stochtree/tree_sampler.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stochtree/tree_sampler.h b/include/stochtree/tree_sampler.h
index 4695edf..ee2b737 100644
--- a/include/stochtree/tree_sampler.h
+++ b/include/stochtree/tree_sampler.h
@@ -161,13 +161,14 @@ static inline void UpdateResidualEntireForest(ForestTracker& tracker, ForestData
   double new_resid = 0.;
   int32_t leaf_pred;
   for (data_size_t i = 0; i < n; i++) {
+    pred_value = 0.;
     for (int j = 0; j < forest->NumTrees(); j++) {
       Tree* tree = forest->GetTree(j);
       leaf_pred = tracker.GetNodeId(i, j);
       if (requires_basis) {
-        tree_pred += tree->PredictFromNode(leaf_pred, dataset.GetBasis(), i);
+        tree_pred = tree->PredictFromNode(leaf_pred, dataset.GetBasis(), i);
       } else {
-        tree_pred += tree->PredictFromNode(leaf_pred);
+        tree_pred = tree->PredictFromNode(leaf_pred);
       }
       tracker.SetTreeSamplePrediction(i, j, tree_pred);
       pred_value += tree_pred;
-- 
2.43.0


From 86ac80bd07278ac484a776e188bf4284cd28daa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:22 +0000
Subject: [PATCH 07/57] fix: MCMC grow moves respect the minimum number of
 samples per leaf

---
 include/stochtree/tree_sampler.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/stochtree/tree_sampler.h b/include/stochtree/tree_sampler.h
index ee2b737..5cb67de 100644
--- a/include/stochtree/tree_sampler.h
+++ b/include/stochtree/tree_sampler.h
@@ -357,6 +357,11 @@ class MCMCForestSampler {
     int32_t left_n = std::get<2>(split_eval);
     int32_t right_n = std::get<3>(split_eval);
     
+    // Reject the split outright if either new leaf would have too few samples
+    if (left_n < tree_prior.GetMinSamplesLeaf() || right_n < tree_prior.GetMinSamplesLeaf()) {
+      return;
+    }
+    
     // Determine probability of growing the split node and its two new left and right nodes
     double pg = tree_prior.GetAlpha() * std::pow(1+leaf_depth, -tree_prior.GetBeta());
     double pgl = tree_prior.GetAlpha() * std::pow(1+leaf_depth+1, -tree_prior.GetBeta());
-- 
2.43.0


From 0acbbdd7476987bbc0b5af88bd209124badce3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:22 +0000
Subject: [PATCH 08/57] fix: accumulate exactly the current bin's samples for
 categorical cutpoints

The bins of an unordered categorical are ordered by mean outcome, so the
next bin need not start where the current one ends; iterating up to it ran
over other bins or past the end of the node's samples.
---
 src/leaf_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/leaf_model.cpp b/src/leaf_model.cpp
index c3d54cd..46c0b28 100644
--- a/src/leaf_model.cpp
+++ b/src/leaf_model.cpp
@@ -86,7 +86,7 @@ void AccumulateCutpointBinSuffStat(SuffStatType& left_suff_stat, ForestTracker&
   // Cutpoint specific iterators
   // TODO: fix the hack of having to subtract off node_begin, probably by cleaning up the CutpointGridContainer interface
   auto cutpoint_begin_iter = node_begin_iter + current_bin_begin - node_begin;
-  auto cutpoint_end_iter = node_begin_iter + next_bin_begin - node_begin;
+  auto cutpoint_end_iter = node_begin_iter + current_bin_begin + current_bin_size - node_begin;
 
   // Accumulate sufficient statistics
   for (auto i = cutpoint_begin_iter; i != cutpoint_end_iter; i++) {
-- 
2.43.0


From db84b0153dc530daaff524e16f99c69f19a2ff43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:22 +0000
Subject: [PATCH 09/57] fix: numeric cutpoint thinning closes a bin once it is
 full

A bin that could not be closed at exactly the step size (ties at its end)
swallowed the rest of the node, leaving no cutpoints, and the integer
division allowed more bins than the grid size.
---
 src/cutpoint_candidates.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cutpoint_candidates.cpp b/src/cutpoint_candidates.cpp
index 4a0845c..bb809f8 100644
--- a/src/cutpoint_candidates.cpp
+++ b/src/cutpoint_candidates.cpp
@@ -286,7 +286,7 @@ void FeatureCutpointGrid::ScanNumericCutpoints(Eigen::MatrixXd& covariates, Eige
   bool last_element;
   bool stride_complete;
   bool bin_complete;
-  double step_size = node_size / cutpoint_grid_size_;
+  double step_size = static_cast<double>(node_size) / cutpoint_grid_size_;
   double current_val, next_val;
   for (data_size_t i = node_begin; i < node_end; i++){
     current_sort_ind = feature_node_sort_tracker->SortIndex(i, feature_index);
@@ -304,7 +304,7 @@ void FeatureCutpointGrid::ScanNumericCutpoints(Eigen::MatrixXd& covariates, Eige
     } else {
       next_sort_ind = feature_node_sort_tracker->SortIndex(i + 1, feature_index);
       next_val = covariates(next_sort_ind, feature_index);
-      bin_complete = ((stride_length <= step_size) && ((stride_length + 1) > step_size));
+      bin_complete = (stride_length >= step_size);
       stride_complete = ((bin_complete) && (std::fabs(next_val - current_val) > StochTree::kEpsilon));
       if (stride_complete) {
         // Update bin vectors
-- 
2.43.0


From 43fa809abbe8077d919add4a622f712a92838899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:22 +0000
Subject: [PATCH 10/57] fix: SampleCategoryMapper::SetCategoryId stores the
 category

---
 include/stochtree/category_tracker.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stochtree/category_tracker.h b/include/stochtree/category_tracker.h
index 04ee0b0..0b63751 100644
--- a/include/stochtree/category_tracker.h
+++ b/include/stochtree/category_tracker.h
@@ -64,7 +64,7 @@ class SampleCategoryMapper {
 
   inline void SetCategoryId(data_size_t sample_id, int category_id) {
     CHECK_LT(sample_id, num_observations_);
-    observation_indices_[sample_id] = sample_id;
+    observation_indices_[sample_id] = category_id;
   }
   
   inline int NumObservations() {return num_observations_;}
-- 
2.43.0


From 43be7b6326f1de1ca6dfdc8fca415fa6f7b46602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:37 +0000
Subject: [PATCH 11/57] fix: CategorySampleTracker records the size of a last
 category with one observation

---
 include/stochtree/category_tracker.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stochtree/category_tracker.h b/include/stochtree/category_tracker.h
index 0b63751..2415adf 100644
--- a/include/stochtree/category_tracker.h
+++ b/include/stochtree/category_tracker.h
@@ -106,6 +106,7 @@ class CategorySampleTracker {
         }
         observation_count = 1;
         category_count_++;
+        if (end_cond) category_length_.push_back(observation_count);
       } else if (end_cond) {
         category_length_.push_back(observation_count+1);
       } else {
-- 
2.43.0


From 8bf6a88ae0fe633ee7533a3a74027bfa0ae13778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:12 +0000
Subject: [PATCH 12/57] fix: integer and string columns are encoded as
 documented by CovariateTransformer

---
 stochtree/preprocessing.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stochtree/preprocessing.py b/stochtree/preprocessing.py
index b9c6ceb..0186b10 100644
--- a/stochtree/preprocessing.py
+++ b/stochtree/preprocessing.py
@@ -32,7 +32,10 @@ class CovariateTransformer:
     
     def _process_unordered_categorical(self, covariate: pd.Series) -> int:
         num_onehot = len(self._onehot_encoders)
-        category_list = covariate.array.categories.to_list()
+        if isinstance(covariate.dtype, pd.CategoricalDtype):
+            category_list = covariate.array.categories.to_list()
+        else:
+            category_list = sorted(covariate.unique().tolist())
         enc = OneHotEncoder(categories=[category_list], sparse_output=False)
         enc.fit(pd.DataFrame(covariate))
         self._onehot_encoders.append(enc)
@@ -62,7 +65,7 @@ class CovariateTransformer:
         categorical_types = covariates.apply(lambda x: isinstance(x.dtype, pd.CategoricalDtype))
         float_types = covariates.apply(lambda x: pd.api.types.is_float_dtype(x))
         integer_types = covariates.apply(lambda x: pd.api.types.is_integer_dtype(x))
-        string_types = covariates.apply(lambda x: pd.api.types.is_integer_dtype(x))
+        string_types = covariates.apply(lambda x: isinstance(x.dtype, pd.StringDtype))
         if np.any(datetime_types):
             # raise ValueError("DateTime columns are currently unsupported")
             datetime_cols = covariates.columns[datetime_types].to_list()
-- 
2.43.0


From 24becaaf5589eeea737268d11fc9b0eb5bdbca0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:12 +0000
Subject: [PATCH 13/57] fix: CovariateTransformer encodes an unordered category
 with a single level

---
 stochtree/preprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochtree/preprocessing.py b/stochtree/preprocessing.py
index 0186b10..4fff565 100644
--- a/stochtree/preprocessing.py
+++ b/stochtree/preprocessing.py
@@ -188,7 +188,7 @@ class CovariateTransformer:
                     onehot_ind = self._onehot_feature_index[i]
                     covariate_transformed = self._onehot_encoders[onehot_ind].transform(pd.DataFrame(covariate))
                     output_dim = covariate_transformed.shape[1]
-                    output_array[:,np.arange(output_iter, output_iter + output_dim)] = np.squeeze(covariate_transformed)
+                    output_array[:,np.arange(output_iter, output_iter + output_dim)] = covariate_transformed
                     output_iter += output_dim
                     self._original_feature_indices.extend([i for _ in range(output_dim)])
             
-- 
2.43.0


From 7959d8a5d4a250177751abddf9b53e3dd0b83e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:12 +0000
Subject: [PATCH 14/57] fix: fitting a CovariateTransformer again starts from
 scratch

---
 stochtree/preprocessing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stochtree/preprocessing.py b/stochtree/preprocessing.py
index 4fff565..5ab4eff 100644
--- a/stochtree/preprocessing.py
+++ b/stochtree/preprocessing.py
@@ -160,6 +160,10 @@ class CovariateTransformer:
                 self._processed_feature_types.append(0)
 
     def _fit(self, covariates: Union[pd.DataFrame, np.array]) -> None:
+        # Discard the results of any previous fit
+        self._ordinal_encoders = []
+        self._onehot_encoders = []
+        self._processed_feature_types = []
         if isinstance(covariates, pd.DataFrame):
             self._fit_pandas(covariates)
         elif isinstance(covariates, np.ndarray):
-- 
2.43.0


From 1454e0c3e09dd93b8b5762017164c1b32ab5b9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:00 +0000
Subject: [PATCH 15/57] fix: CovariateTransformer accepts numeric categories
 listed in any order

---
 stochtree/preprocessing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stochtree/preprocessing.py b/stochtree/preprocessing.py
index 5ab4eff..c8ce886 100644
--- a/stochtree/preprocessing.py
+++ b/stochtree/preprocessing.py
@@ -37,7 +37,7 @@ class CovariateTransformer:
         else:
             category_list = sorted(covariate.unique().tolist())
         enc = OneHotEncoder(categories=[category_list], sparse_output=False)
-        enc.fit(pd.DataFrame(covariate))
+        enc.fit(pd.DataFrame(covariate).astype(object))
         self._onehot_encoders.append(enc)
         return num_onehot
     
@@ -45,7 +45,7 @@ class CovariateTransformer:
         num_ord = len(self._ordinal_encoders)
         category_list = covariate.array.categories.to_list()
         enc = OrdinalEncoder(categories=[category_list])
-        enc.fit(pd.DataFrame(covariate))
+        enc.fit(pd.DataFrame(covariate).astype(object))
         self._ordinal_encoders.append(enc)
         return num_ord
 
@@ -184,13 +184,13 @@ class CovariateTransformer:
             if self._original_feature_types[i] == "category" or self._original_feature_types[i] == "string":
                 if self._ordinal_feature_index[i] != -1:
                     ord_ind = self._ordinal_feature_index[i]
-                    covariate_transformed = self._ordinal_encoders[ord_ind].transform(pd.DataFrame(covariate))
+                    covariate_transformed = self._ordinal_encoders[ord_ind].transform(pd.DataFrame(covariate).astype(object))
                     output_array[:,output_iter] = np.squeeze(covariate_transformed)
                     output_iter += 1
                     self._original_feature_indices.append(i)
                 else:
                     onehot_ind = self._onehot_feature_index[i]
-                    covariate_transformed = self._onehot_encoders[onehot_ind].transform(pd.DataFrame(covariate))
+                    covariate_transformed = self._onehot_encoders[onehot_ind].transform(pd.DataFrame(covariate).astype(object))
                     output_dim = covariate_transformed.shape[1]
                     output_array[:,np.arange(output_iter, output_iter + output_dim)] = covariate_transformed
                     output_iter += output_dim
-- 
2.43.0


From ce8a311360016f02c6463bc76b91003a0ce88ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:25 +0000
Subject: [PATCH 16/57] fix: one-hot encoding of an unordered factor with a
 single level

---
 R/utils.R | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/R/utils.R b/R/utils.R
index 7afffe2..eaa79fb 100644
--- a/R/utils.R
+++ b/R/utils.R
@@ -562,7 +562,7 @@ oneHotInitializeAndEncode <- function(x_input) {
     if (is.factor(x_input) && is.ordered(x_input)) warning("One-hot encoding an ordered categorical variable")
     x_factor <- factor(x_input)
     unique_levels <- levels(x_factor)
-    Xtilde <- cbind(unname(model.matrix(~0+x_factor)), 0)
+    Xtilde <- cbind(outer(as.integer(x_factor), seq_along(unique_levels), "==")*1, 0)
     output <- list(Xtilde = Xtilde, unique_levels = unique_levels)
     return(output)
 }
@@ -600,13 +600,13 @@ oneHotEncode <- function(x_input, unique_levels) {
     if (has_out_of_sample) {
         x_factor_insample <- factor(x_input[in_sample], levels = unique_levels)
         Xtilde <- matrix(0, nrow = length(x_input), ncol = num_unique_levels + 1)
-        Xtilde_insample <- cbind(unname(model.matrix(~0+x_factor_insample)), 0)
+        Xtilde_insample <- cbind(outer(as.integer(x_factor_insample), seq_len(num_unique_levels), "==")*1, 0)
         Xtilde_out_of_sample <- cbind(matrix(0, nrow=sum(out_of_sample), ncol=num_unique_levels), 1)
         Xtilde[in_sample,] <- Xtilde_insample
         Xtilde[out_of_sample,] <- Xtilde_out_of_sample
     } else {
         x_factor <- factor(x_input, levels = unique_levels)
-        Xtilde <- cbind(unname(model.matrix(~0+x_factor)), 0)
+        Xtilde <- cbind(outer(as.integer(x_factor), seq_len(num_unique_levels), "==")*1, 0)
     }
     return(Xtilde)
 }
-- 
2.43.0


From ff8b022af0fc676066e7023aedc32c9c50207949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:09 +0000
Subject: [PATCH 17/57] fix: error variance calibration for rank-deficient
 designs and user-provided lamb in Python BART and BCF

---
 stochtree/bart.py | 7 ++++---
 stochtree/bcf.py  | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/stochtree/bart.py b/stochtree/bart.py
index 963c47e..cac501e 100644
--- a/stochtree/bart.py
+++ b/stochtree/bart.py
@@ -172,10 +172,11 @@ class BARTModel:
         resid_train = (y_train-self.y_bar)/self.y_std
 
         # Calibrate priors for global sigma^2 and sigma_leaf
+        reg_basis = np.c_[np.ones(self.n_train),X_train_processed]
+        reg_soln = lstsq(reg_basis, np.squeeze(resid_train))
+        # lstsq reports no residual sum of squares for rank-deficient designs (e.g. with one-hot encoded columns)
+        sigma2hat = np.mean(np.square(np.squeeze(resid_train) - reg_basis @ reg_soln[0]))
         if lamb is None:
-            reg_basis = np.c_[np.ones(self.n_train),X_train_processed]
-            reg_soln = lstsq(reg_basis, np.squeeze(resid_train))
-            sigma2hat = reg_soln[1] / self.n_train
             quantile_cutoff = q
             lamb = (sigma2hat*gamma.ppf(1-quantile_cutoff,nu))/nu
         sigma2 = sigma2hat if sigma2 is None else sigma2
diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index bfc334d..3a3d4d4 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -505,10 +505,11 @@ class BCFModel:
         resid_train = (y_train-self.y_bar)/self.y_std
 
         # Calibrate priors for global sigma^2 and sigma_leaf_mu / sigma_leaf_tau
+        reg_basis = np.c_[np.ones(self.n_train),X_train_processed]
+        reg_soln = lstsq(reg_basis, np.squeeze(resid_train))
+        # lstsq reports no residual sum of squares for rank-deficient designs (e.g. with one-hot encoded columns)
+        sigma2hat = np.mean(np.square(np.squeeze(resid_train) - reg_basis @ reg_soln[0]))
         if lamb is None:
-            reg_basis = np.c_[np.ones(self.n_train),X_train_processed]
-            reg_soln = lstsq(reg_basis, np.squeeze(resid_train))
-            sigma2hat = reg_soln[1] / self.n_train
             quantile_cutoff = q
             lamb = (sigma2hat*gamma.ppf(1-quantile_cutoff,nu))/nu
         sigma2 = sigma2hat if sigma2 is None else sigma2
-- 
2.43.0


From d2027910c843e207515c5994ab8b9ff750b93805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:09 +0000
Subject: [PATCH 18/57] fix: BARTModel.predict encodes covariates as they were
 encoded in sampling

---
 stochtree/bart.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stochtree/bart.py b/stochtree/bart.py
index cac501e..2ed647c 100644
--- a/stochtree/bart.py
+++ b/stochtree/bart.py
@@ -346,8 +346,11 @@ class BARTModel:
             if basis.shape[0] != covariates.shape[0]:
                 raise ValueError("covariates and basis must have the same number of rows")
 
+        # Encode the covariates as they were encoded for sampling
+        covariates_processed = self._covariate_transformer.transform(covariates)
+
         pred_dataset = Dataset()
-        pred_dataset.add_covariates(covariates)
+        pred_dataset.add_covariates(covariates_processed)
         if basis is not None:
             pred_dataset.add_basis(basis)
         pred_raw = self.forest_container.forest_container_cpp.Predict(pred_dataset.dataset_cpp)
-- 
2.43.0


From d2f2b146c9a902c732c98da055227beac165dd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:09 +0000
Subject: [PATCH 19/57] fix: keep_gfr and keep_burnin without any such draws in
 Python BART and BCF

---
 stochtree/bart.py | 4 ++--
 stochtree/bcf.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/stochtree/bart.py b/stochtree/bart.py
index 2ed647c..88a544a 100644
--- a/stochtree/bart.py
+++ b/stochtree/bart.py
@@ -287,11 +287,11 @@ class BARTModel:
         # Prediction indices to be stored
         if self.num_mcmc > 0:
             self.keep_indices = mcmc_indices
-            if keep_gfr:
+            if keep_gfr and self.num_gfr > 0:
                 self.keep_indices = np.concatenate((gfr_indices, self.keep_indices))
             else:
                 # Don't retain both GFR and burnin samples
-                if keep_burnin:
+                if keep_burnin and self.num_burnin > 0:
                     self.keep_indices = np.concatenate((burnin_indices, self.keep_indices))
         else:
             if self.num_gfr > 0 and self.num_burnin > 0:
diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 3a3d4d4..d24a97e 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -757,11 +757,11 @@ class BCFModel:
         # Prediction indices to be stored
         if self.num_mcmc > 0:
             self.keep_indices = mcmc_indices
-            if keep_gfr:
+            if keep_gfr and self.num_gfr > 0:
                 self.keep_indices = np.concatenate((gfr_indices, self.keep_indices))
             else:
                 # Don't retain both GFR and burnin samples
-                if keep_burnin:
+                if keep_burnin and self.num_burnin > 0:
                     self.keep_indices = np.concatenate((burnin_indices, self.keep_indices))
         else:
             if self.num_gfr > 0 and self.num_burnin > 0:
-- 
2.43.0


From 64265a92f5d363e5928d6977139c6bb3dd506e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:09 +0000
Subject: [PATCH 20/57] fix: BARTModel with a basis of several columns

---
 stochtree/bart.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/stochtree/bart.py b/stochtree/bart.py
index 88a544a..2d466c0 100644
--- a/stochtree/bart.py
+++ b/stochtree/bart.py
@@ -183,7 +183,12 @@ class BARTModel:
         b_leaf = np.squeeze(np.var(resid_train)) / num_trees if b_leaf is None else b_leaf
         sigma_leaf = np.squeeze(np.var(resid_train)) / num_trees if sigma_leaf is None else sigma_leaf
         current_sigma2 = sigma2
-        current_leaf_scale = np.array([[sigma_leaf]])
+        if self.num_basis > 1:
+            # Sampling the leaf scale is not supported for multivariate leaf regression
+            current_leaf_scale = np.diagflat(np.repeat(sigma_leaf, self.num_basis))
+            sample_sigma_leaf = False
+        else:
+            current_leaf_scale = np.array([[sigma_leaf]])
 
         # Container of variance parameter samples
         self.num_gfr = num_gfr
@@ -239,7 +244,10 @@ class BARTModel:
 
         # Initialize the leaves of each tree in the prognostic forest
         init_root = np.squeeze(np.mean(resid_train)) / num_trees
-        self.forest_container.set_root_leaves(0, init_root)
+        if self.num_basis > 1:
+            self.forest_container.set_root_leaves(0, np.repeat(init_root, self.num_basis))
+        else:
+            self.forest_container.set_root_leaves(0, init_root)
         forest_sampler.update_residual(forest_dataset_train, residual_train, self.forest_container, False, 0, True)
 
         # Run GFR (warm start) if specified
-- 
2.43.0


From ac780c6e31d0fd048b06de63f93a188abf07dfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:51 +0000
Subject: [PATCH 21/57] fix: predict.bartmodel recodes group ids with the
 labels of its own model

---
 R/bart.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/bart.R b/R/bart.R
index c9c9e05..08e460b 100644
--- a/R/bart.R
+++ b/R/bart.R
@@ -574,7 +574,7 @@ predict.bartmodel <- function(bart, X_test, W_test = NULL, group_ids_test = NULL
     # Recode group IDs to integer vector (if passed as, for example, a vector of county names, etc...)
     has_rfx <- F
     if (!is.null(group_ids_test)) {
-        rfx_unique_group_ids <- bcf$rfx_unique_group_ids
+        rfx_unique_group_ids <- bart$rfx_unique_group_ids
         group_ids_factor_test <- factor(group_ids_test, levels = rfx_unique_group_ids)
         if (sum(is.na(group_ids_factor_test)) > 0) {
             stop("All random effect group labels provided in group_ids_test must be present in group_ids_train")
-- 
2.43.0


From 48777e9dd3e4238f431ee333a1f0e3a142613689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:51 +0000
Subject: [PATCH 22/57] fix: random intercepts (no random effects basis) with a
 test set in bart() and bcf()

---
 R/bart.R | 2 +-
 R/bcf.R  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/R/bart.R b/R/bart.R
index 08e460b..e67d60a 100644
--- a/R/bart.R
+++ b/R/bart.R
@@ -191,7 +191,7 @@ bart <- function(X_train, y_train, W_train = NULL, group_ids_train = NULL,
     }
     if (has_rfx_test) {
         if (is.null(rfx_basis_test)) {
-            if (!is.null(rfx_basis_train)) {
+            if (has_basis_rfx) {
                 stop("Random effects basis provided for training set, must also be provided for the test set")
             }
             rfx_basis_test <- matrix(rep(1,nrow(X_test)), nrow = nrow(X_test), ncol = 1)
diff --git a/R/bcf.R b/R/bcf.R
index 3425e96..d2c3e15 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -331,7 +331,7 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
     }
     if (has_rfx_test) {
         if (is.null(rfx_basis_test)) {
-            if (!is.null(rfx_basis_train)) {
+            if (has_basis_rfx) {
                 stop("Random effects basis provided for training set, must also be provided for the test set")
             }
             rfx_basis_test <- matrix(rep(1,nrow(X_test)), nrow = nrow(X_test), ncol = 1)
-- 
2.43.0


From cc9e5c05e2361da7f4766a9f62bc0bd453199053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:51 +0000
Subject: [PATCH 23/57] fix: keep_gfr and keep_burnin without any such draws in
 bart() and bcf()

---
 R/bart.R | 4 ++--
 R/bcf.R  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/R/bart.R b/R/bart.R
index e67d60a..c22e9e3 100644
--- a/R/bart.R
+++ b/R/bart.R
@@ -402,8 +402,8 @@ bart <- function(X_train, y_train, W_train = NULL, group_ids_train = NULL,
     # Compute retention indices
     if (num_mcmc > 0) {
         keep_indices = mcmc_indices
-        if (keep_gfr) keep_indices <- c(gfr_indices, keep_indices)
-        if (keep_burnin) keep_indices <- c(burnin_indices, keep_indices)
+        if (keep_gfr && (num_gfr > 0)) keep_indices <- c(gfr_indices, keep_indices)
+        if (keep_burnin && (num_burnin > 0)) keep_indices <- c(burnin_indices, keep_indices)
     } else {
         if ((num_gfr > 0) && (num_burnin > 0)) {
             # Override keep_gfr = FALSE since there are no MCMC samples
diff --git a/R/bcf.R b/R/bcf.R
index d2c3e15..b21ae1c 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -730,8 +730,8 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
     # Compute retention indices
     if (num_mcmc > 0) {
         keep_indices = mcmc_indices
-        if (keep_gfr) keep_indices <- c(gfr_indices, keep_indices)
-        if (keep_burnin) keep_indices <- c(burnin_indices, keep_indices)
+        if (keep_gfr && (num_gfr > 0)) keep_indices <- c(gfr_indices, keep_indices)
+        if (keep_burnin && (num_burnin > 0)) keep_indices <- c(burnin_indices, keep_indices)
     } else {
         if ((num_gfr > 0) && (num_burnin > 0)) {
             # Override keep_gfr = FALSE since there are no MCMC samples
-- 
2.43.0


From d907c35ea67cccccc62c10b43b7c7169e96fa523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:51 +0000
Subject: [PATCH 24/57] fix: predictions with a single retained sample keep
 their matrix shape in bart() and bcf()

---
 R/bart.R | 12 ++++++------
 R/bcf.R  | 24 ++++++++++++------------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/R/bart.R b/R/bart.R
index c22e9e3..03d8cc2 100644
--- a/R/bart.R
+++ b/R/bart.R
@@ -421,14 +421,14 @@ bart <- function(X_train, y_train, W_train = NULL, group_ids_train = NULL,
     }
     
     # Subset forest and RFX predictions
-    y_hat_train <- y_hat_train[,keep_indices]
+    y_hat_train <- y_hat_train[,keep_indices,drop=FALSE]
     if (has_rfx) {
-        rfx_preds_train <- rfx_preds_train[,keep_indices]
+        rfx_preds_train <- rfx_preds_train[,keep_indices,drop=FALSE]
     }
     if (has_test) {
-        y_hat_test <- y_hat_test[,keep_indices]
+        y_hat_test <- y_hat_test[,keep_indices,drop=FALSE]
         if (has_rfx_test) {
-            rfx_preds_test <- rfx_preds_test[,keep_indices]
+            rfx_preds_test <- rfx_preds_test[,keep_indices,drop=FALSE]
         }
     }
     
@@ -605,8 +605,8 @@ predict.bartmodel <- function(bart, X_test, W_test = NULL, group_ids_test = NULL
     # Restrict predictions to the "retained" samples (if applicable)
     if (!predict_all) {
         keep_indices = bart$keep_indices
-        forest_predictions <- forest_predictions[,keep_indices]
-        if (bart$model_params$has_rfx) rfx_predictions <- rfx_predictions[,keep_indices]
+        forest_predictions <- forest_predictions[,keep_indices,drop=FALSE]
+        if (bart$model_params$has_rfx) rfx_predictions <- rfx_predictions[,keep_indices,drop=FALSE]
     }
     
     if (bart$model_params$has_rfx) {
diff --git a/R/bcf.R b/R/bcf.R
index b21ae1c..d4e5dd4 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -749,18 +749,18 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
     }
     
     # Subset forest and RFX predictions
-    mu_hat_train <- mu_hat_train[,keep_indices]
-    tau_hat_train <- tau_hat_train[,keep_indices]
-    y_hat_train <- y_hat_train[,keep_indices]
+    mu_hat_train <- mu_hat_train[,keep_indices,drop=FALSE]
+    tau_hat_train <- tau_hat_train[,keep_indices,drop=FALSE]
+    y_hat_train <- y_hat_train[,keep_indices,drop=FALSE]
     if (has_rfx) {
-        rfx_preds_train <- rfx_preds_train[,keep_indices]
+        rfx_preds_train <- rfx_preds_train[,keep_indices,drop=FALSE]
     }
     if (has_test) {
-        mu_hat_test <- mu_hat_test[,keep_indices]
-        tau_hat_test <- tau_hat_test[,keep_indices]
-        y_hat_test <- y_hat_test[,keep_indices]
+        mu_hat_test <- mu_hat_test[,keep_indices,drop=FALSE]
+        tau_hat_test <- tau_hat_test[,keep_indices,drop=FALSE]
+        y_hat_test <- y_hat_test[,keep_indices,drop=FALSE]
         if (has_rfx_test) {
-            rfx_preds_test <- rfx_preds_test[,keep_indices]
+            rfx_preds_test <- rfx_preds_test[,keep_indices,drop=FALSE]
         }
     }
     
@@ -997,10 +997,10 @@ predict.bcf <- function(bcf, X_test, Z_test, pi_test = NULL, group_ids_test = NU
     # Restrict predictions to the "retained" samples (if applicable)
     if (!predict_all) {
         keep_indices = bcf$keep_indices
-        mu_hat_test <- mu_hat_test[,keep_indices]
-        tau_hat_test <- tau_hat_test[,keep_indices]
-        y_hat_test <- y_hat_test[,keep_indices]
-        if (bcf$model_params$has_rfx) rfx_predictions <- rfx_predictions[,keep_indices]
+        mu_hat_test <- mu_hat_test[,keep_indices,drop=FALSE]
+        tau_hat_test <- tau_hat_test[,keep_indices,drop=FALSE]
+        y_hat_test <- y_hat_test[,keep_indices,drop=FALSE]
+        if (bcf$model_params$has_rfx) rfx_predictions <- rfx_predictions[,keep_indices,drop=FALSE]
     }
     
     if (bcf$model_params$has_rfx) {
-- 
2.43.0


From 1168ed0b66ef59743f122513297c9c24445fea73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:51 +0000
Subject: [PATCH 25/57] fix: bart() with a basis of several columns uses a leaf
 covariance of matching dimension

---
 R/bart.R | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/R/bart.R b/R/bart.R
index 03d8cc2..559fa2b 100644
--- a/R/bart.R
+++ b/R/bart.R
@@ -253,6 +253,8 @@ bart <- function(X_train, y_train, W_train = NULL, group_ids_train = NULL,
         if (sample_tau) {
             stop("Sampling leaf scale not yet supported for multivariate leaf models")
         }
+        # Leaf prior covariance matrix
+        if (length(tau_init) == 1) current_leaf_scale <- diag(as.numeric(tau_init), output_dimension)
     }
     
     # Data
-- 
2.43.0


From 9c24740df953f9a461b6d2372bc924feceb5bbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:51 +0000
Subject: [PATCH 26/57] fix: bcf() without user-provided propensities

---
 R/bcf.R | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/R/bcf.R b/R/bcf.R
index d4e5dd4..06e9b89 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -371,12 +371,12 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
     # Estimate if pre-estimated propensity score is not provided
     if ((is.null(pi_train)) && (propensity_covariate != "none")) {
         # Estimate using the last of several iterations of GFR BART
-        num_burnin <- 10
+        num_burnin_propensity <- 10
         num_total <- 50
         bart_model_propensity <- bart(X_train = X_train_raw, y_train = as.numeric(Z_train), X_test = X_test_raw, 
                                       num_gfr = num_total, num_burnin = 0, num_mcmc = 0)
-        pi_train <- rowMeans(bart_model_propensity$y_hat_train[(num_burnin+1):num_total])
-        if (has_test) pi_test <- rowMeans(bart_model_propensity$y_hat_test[,(num_burnin+1):num_total])
+        pi_train <- as.matrix(rowMeans(bart_model_propensity$y_hat_train[,(num_burnin_propensity+1):num_total]))
+        if (has_test) pi_test <- as.matrix(rowMeans(bart_model_propensity$y_hat_test[,(num_burnin_propensity+1):num_total]))
     }
 
     if (has_test) {
-- 
2.43.0


From 07474e94ed754a46d6b870cb77b4f0a738dcc706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:51 +0000
Subject: [PATCH 27/57] fix: bcf() needs no test set propensities when
 propensity_covariate is none

---
 R/bcf.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/bcf.R b/R/bcf.R
index 06e9b89..d8f13b9 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -379,7 +379,7 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
         if (has_test) pi_test <- as.matrix(rowMeans(bart_model_propensity$y_hat_test[,(num_burnin_propensity+1):num_total]))
     }
 
-    if (has_test) {
+    if (has_test && (propensity_covariate != "none")) {
         if (is.null(pi_test)) stop("Propensity score must be provided for the test set if provided for the training set")
     }
     
-- 
2.43.0


From 9b93236207630a29190dae3d4e581446c6811f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:51 +0000
Subject: [PATCH 28/57] fix: predict.bcf for models without a propensity
 covariate

---
 R/bcf.R | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/R/bcf.R b/R/bcf.R
index d8f13b9..a697f1e 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -968,6 +968,9 @@ predict.bcf <- function(bcf, X_test, Z_test, pi_test = NULL, group_ids_test = NU
     } else if (bcf$model_params$propensity_covariate == "tau") {
         X_test_mu <- X_test
         X_test_tau <- cbind(X_test, pi_test)
+    } else {
+        X_test_mu <- X_test
+        X_test_tau <- X_test
     }
     
     # Create prediction datasets
-- 
2.43.0


From 07189a4b34a840b0e01d5e3c2fd5634af58ffd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:51 +0000
Subject: [PATCH 29/57] fix: predict.bcf for models with one-hot encoded
 covariates

---
 R/bcf.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/bcf.R b/R/bcf.R
index a697f1e..6a8a579 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -788,7 +788,7 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
         "b_leaf_tau" = b_leaf_tau,
         "outcome_mean" = y_bar_train,
         "outcome_scale" = y_std_train, 
-        "num_covariates" = num_cov_orig,
+        "num_covariates" = length(original_var_indices),
         "num_prognostic_covariates" = sum(variable_weights_mu > 0),
         "num_treatment_covariates" = sum(variable_weights_tau > 0),
         "treatment_dim" = ncol(Z_train), 
-- 
2.43.0


From c01f4b07815fb96b569847db6b24da4a8342e846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:51 +0000
Subject: [PATCH 30/57] fix: random intercepts (no random effects basis) and
 their prior variance in bcf()

---
 R/bcf.R | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/R/bcf.R b/R/bcf.R
index 6a8a579..ba747c5 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -296,16 +296,6 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
         }
     }
 
-    # Random effects covariance prior
-    if (has_rfx) {
-        if (is.null(rfx_prior_var)) {
-            rfx_prior_var <- rep(1, ncol(rfx_basis_train))
-        } else {
-            if ((!is.integer(rfx_prior_var)) && (!is.numeric(rfx_prior_var))) stop("rfx_prior_var must be a numeric vector")
-            if (length(rfx_prior_var) != ncol(rfx_basis_train)) stop("length(rfx_prior_var) must equal ncol(rfx_basis_train)")
-        }
-    }
-    
     # Update variable weights
     variable_weights_adj <- 1/sapply(original_var_indices, function(x) sum(original_var_indices == x))
     variable_weights <- variable_weights[original_var_indices]*variable_weights_adj
@@ -338,6 +328,16 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
         }
     }
     
+    # Random effects covariance prior
+    if (has_rfx) {
+        if (is.null(rfx_prior_var)) {
+            rfx_prior_var <- rep(1, ncol(rfx_basis_train))
+        } else {
+            if ((!is.integer(rfx_prior_var)) && (!is.numeric(rfx_prior_var))) stop("rfx_prior_var must be a numeric vector")
+            if (length(rfx_prior_var) != ncol(rfx_basis_train)) stop("length(rfx_prior_var) must equal ncol(rfx_basis_train)")
+        }
+    }
+    
     # Check that number of samples are all nonnegative
     stopifnot(num_gfr >= 0)
     stopifnot(num_burnin >= 0)
@@ -442,7 +442,7 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
             xi_init[,i] <- unname(coef(rfx_group_model))
         }
         sigma_alpha_init <- diag(1,num_rfx_components,num_rfx_components)
-        sigma_xi_init <- diag(rfx_prior_var)
+        sigma_xi_init <- diag(rfx_prior_var,num_rfx_components,num_rfx_components)
         sigma_xi_shape <- 1
         sigma_xi_scale <- 1
     }
-- 
2.43.0


From cebe61efb6a692e09231c3ceb9215fbef119f8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:13 +0000
Subject: [PATCH 31/57] fix: BCFModel combines treatment and effects row by row
 for any number of samples and treatments

---
 stochtree/bcf.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index d24a97e..5a8677e 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -784,10 +784,7 @@ class BCFModel:
             adaptive_coding_weights = np.expand_dims(self.b1_samples[self.keep_indices] - self.b0_samples[self.keep_indices], axis=(0,2))
             self.tau_hat_train = self.tau_hat_train*adaptive_coding_weights
         self.tau_hat_train = self.tau_hat_train*self.y_std
-        if self.multivariate_treatment:
-            treatment_term_train = np.multiply(np.atleast_3d(Z_train).swapaxes(1,2),self.tau_hat_train).sum(axis=2)
-        else:
-            treatment_term_train = Z_train*np.squeeze(self.tau_hat_train)
+        treatment_term_train = np.multiply(np.atleast_3d(Z_train).swapaxes(1,2),self.tau_hat_train).sum(axis=2)
         self.y_hat_train = self.mu_hat_train + treatment_term_train
         if self.has_test:
             mu_raw_test = self.forest_container_mu.forest_container_cpp.Predict(forest_dataset_test.dataset_cpp)
@@ -798,10 +795,7 @@ class BCFModel:
                 adaptive_coding_weights_test = np.expand_dims(self.b1_samples[self.keep_indices] - self.b0_samples[self.keep_indices], axis=(0,2))
                 self.tau_hat_test = self.tau_hat_test*adaptive_coding_weights_test
             self.tau_hat_test = self.tau_hat_test*self.y_std
-            if self.multivariate_treatment:
-                treatment_term_test = np.multiply(np.atleast_3d(Z_test).swapaxes(1,2),self.tau_hat_test).sum(axis=2)
-            else:
-                treatment_term_test = Z_test*np.squeeze(self.tau_hat_test)
+            treatment_term_test = np.multiply(np.atleast_3d(Z_test).swapaxes(1,2),self.tau_hat_test).sum(axis=2)
             self.y_hat_test = self.mu_hat_test + treatment_term_test
     
     def predict_tau(self, X: np.array, Z: np.array, propensity: np.array = None) -> np.array:
@@ -955,7 +949,8 @@ class BCFModel:
         tau_x = tau_raw[:,self.keep_indices]
 
         # Outcome predictions
-        yhat_x = mu_x + Z*tau_x
+        treatment_term = np.multiply(np.atleast_3d(Z).swapaxes(1,2), tau_x).sum(axis=2)
+        yhat_x = mu_x + treatment_term
 
         # Return result matrices as a tuple
         return (tau_x, mu_x, yhat_x)
-- 
2.43.0


From 97d14598346d9b42520f500f550fbe90d1e93c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:13 +0000
Subject: [PATCH 32/57] fix: BCFModel.predict and predict_tau encode covariates
 as they were encoded in sampling

---
 stochtree/bcf.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 5a8677e..f97b915 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -831,6 +831,9 @@ class BCFModel:
             if propensity.ndim == 1:
                 propensity = np.expand_dims(propensity, 1)
         
+        # Encode the covariates as they were encoded for sampling
+        X = self._covariate_transformer.transform(X)
+        
         # Data checks
         if Z.shape[0] != X.shape[0]:
             raise ValueError("X and Z must have the same number of rows")
@@ -901,6 +904,9 @@ class BCFModel:
             if propensity.ndim == 1:
                 propensity = np.expand_dims(propensity, 1)
         
+        # Encode the covariates as they were encoded for sampling
+        X = self._covariate_transformer.transform(X)
+        
         # Data checks
         if Z.shape[0] != X.shape[0]:
             raise ValueError("X and Z must have the same number of rows")
-- 
2.43.0


From 1d5b45cfd38ef6a56b4f1d95ec772c6f3b32c78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:13 +0000
Subject: [PATCH 33/57] fix: BCFModel.predict_tau uses the propensity score of
 models with propensity_covariate both

---
 stochtree/bcf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index f97b915..f03b81f 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -841,14 +841,14 @@ class BCFModel:
             if propensity.shape[0] != X.shape[0]:
                 raise ValueError("X and propensity must have the same number of rows")
         else:
-            if self.propensity_covariate == "tau":
+            if self.propensity_covariate in ["tau", "both"]:
                 if not self.internal_propensity_model:
                     raise ValueError("Propensity scores not provided, but no propensity model was trained during sampling")
                 else:
                     propensity = np.mean(self.bart_propensity_model.predict(X), axis=1, keepdims=True)
         
         # Update covariates to include propensities if requested
-        if self.propensity_covariate == "tau":
+        if self.propensity_covariate in ["tau", "both"]:
             X_tau = np.c_[X, propensity]
         else:
             X_tau = X
-- 
2.43.0


From ba7ff0a35c95faa43ec6dc70c0c3851e71f1debe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:13 +0000
Subject: [PATCH 34/57] fix: BCFModel with a test set and internally estimated
 propensities

---
 stochtree/bcf.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index f03b81f..2718752 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -488,7 +488,6 @@ class BCFModel:
         if pi_train is None and propensity_covariate != "none":
             self.bart_propensity_model = BARTModel()
             if self.has_test:
-                pi_test = np.mean(self.bart_propensity_model.y_hat_test, axis = 1, keepdims = True)
                 self.bart_propensity_model.sample(X_train=X_train_processed, y_train=Z_train, X_test=X_test_processed, num_gfr=10, num_mcmc=10)
                 pi_train = np.mean(self.bart_propensity_model.y_hat_train, axis = 1, keepdims = True)
                 pi_test = np.mean(self.bart_propensity_model.y_hat_test, axis = 1, keepdims = True)
-- 
2.43.0


From 15cf32ab12cab7341b08442cdc7656a7d1d21450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:13 +0000
Subject: [PATCH 35/57] fix: BCFModel restricts exactly the forest
 keep_vars_mu, drop_vars_mu, keep_vars_tau and drop_vars_tau name

---
 stochtree/bcf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 2718752..ffbbb54 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -532,10 +532,10 @@ class BCFModel:
         variable_weights = variable_weights[original_var_indices]*variable_weights_adj
 
         # Create mu and tau specific variable weights with weights zeroed out for excluded variables
-        variable_weights_tau = variable_weights
-        variable_weights_mu = variable_weights
+        variable_weights_tau = variable_weights.copy()
+        variable_weights_mu = variable_weights.copy()
         variable_weights_mu[[variable_subset_mu.count(i) == 0 for i in original_var_indices]] = 0
-        variable_weights_tau[[variable_subset_tau.count(i) == 0 for i in original_var_indices]] <- 0
+        variable_weights_tau[[variable_subset_tau.count(i) == 0 for i in original_var_indices]] = 0
         
         # Update covariates to include propensities if requested
         if propensity_covariate not in ["none", "mu", "tau", "both"]:
-- 
2.43.0


From 82022499a39c6899e67ed6e1d8771fe18fa14011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:13 +0000
Subject: [PATCH 36/57] fix: BCFModel variable subsets given as names or arrays

---
 stochtree/bcf.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index ffbbb54..4c54b35 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -341,7 +341,7 @@ class BCFModel:
                 if all(isinstance(i, str) for i in keep_vars_mu):
                     if not np.all(np.isin(keep_vars_mu, X_train.columns)):
                         raise ValueError("keep_vars_mu includes some variable names that are not in X_train")
-                    variable_subset_mu = [i for i in X_train.shape[1] if keep_vars_mu.count(X_train.columns.array[i]) > 0]
+                    variable_subset_mu = [i for i in range(X_train.shape[1]) if keep_vars_mu.count(X_train.columns.array[i]) > 0]
                 elif all(isinstance(i, int) for i in keep_vars_mu):
                     if any(i >= X_train.shape[1] for i in keep_vars_mu):
                         raise ValueError("keep_vars_mu includes some variable indices that exceed the number of columns in X_train")
@@ -351,10 +351,10 @@ class BCFModel:
                 else:
                     raise ValueError("keep_vars_mu must be a list of variable names (str) or column indices (int)")
             elif isinstance(keep_vars_mu, np.ndarray):
-                if keep_vars_mu.dtype == np.str_:
+                if np.issubdtype(keep_vars_mu.dtype, np.str_):
                     if not np.all(np.isin(keep_vars_mu, X_train.columns)):
                         raise ValueError("keep_vars_mu includes some variable names that are not in X_train")
-                    variable_subset_mu = [i for i in X_train.shape[1] if keep_vars_mu.count(X_train.columns.array[i]) > 0]
+                    variable_subset_mu = [i for i in range(X_train.shape[1]) if np.isin(X_train.columns.array[i], keep_vars_mu)]
                 else:
                     if np.any(keep_vars_mu >= X_train.shape[1]):
                         raise ValueError("keep_vars_mu includes some variable indices that exceed the number of columns in X_train")
@@ -378,18 +378,18 @@ class BCFModel:
                 else:
                     raise ValueError("drop_vars_mu must be a list of variable names (str) or column indices (int)")
             elif isinstance(drop_vars_mu, np.ndarray):
-                if drop_vars_mu.dtype == np.str_:
+                if np.issubdtype(drop_vars_mu.dtype, np.str_):
                     if not np.all(np.isin(drop_vars_mu, X_train.columns)):
                         raise ValueError("drop_vars_mu includes some variable names that are not in X_train")
                     keep_inds = ~np.isin(X_train.columns.array, drop_vars_mu)
-                    variable_subset_mu = [i for i in keep_inds]
+                    variable_subset_mu = [i for i in np.flatnonzero(keep_inds)]
                 else:
                     if np.any(drop_vars_mu >= X_train.shape[1]):
                         raise ValueError("drop_vars_mu includes some variable indices that exceed the number of columns in X_train")
                     if np.any(drop_vars_mu < 0):
                         raise ValueError("drop_vars_mu includes some negative variable indices")
                     keep_inds = ~np.isin(np.arange(X_train.shape[1]), drop_vars_mu)
-                    variable_subset_mu = [i for i in keep_inds]
+                    variable_subset_mu = [i for i in np.flatnonzero(keep_inds)]
             else:
                 raise ValueError("drop_vars_mu must be a list or np.array")
         else:
@@ -409,10 +409,10 @@ class BCFModel:
                 else:
                     raise ValueError("keep_vars_tau must be a list of variable names (str) or column indices (int)")
             elif isinstance(keep_vars_tau, np.ndarray):
-                if keep_vars_tau.dtype == np.str_:
+                if np.issubdtype(keep_vars_tau.dtype, np.str_):
                     if not np.all(np.isin(keep_vars_tau, X_train.columns)):
                         raise ValueError("keep_vars_tau includes some variable names that are not in X_train")
-                    variable_subset_tau = [i for i in range(X_train.shape[1]) if keep_vars_tau.count(X_train.columns.array[i]) > 0]
+                    variable_subset_tau = [i for i in range(X_train.shape[1]) if np.isin(X_train.columns.array[i], keep_vars_tau)]
                 else:
                     if np.any(keep_vars_tau >= X_train.shape[1]):
                         raise ValueError("keep_vars_tau includes some variable indices that exceed the number of columns in X_train")
@@ -436,18 +436,18 @@ class BCFModel:
                 else:
                     raise ValueError("drop_vars_tau must be a list of variable names (str) or column indices (int)")
             elif isinstance(drop_vars_tau, np.ndarray):
-                if drop_vars_tau.dtype == np.str_:
+                if np.issubdtype(drop_vars_tau.dtype, np.str_):
                     if not np.all(np.isin(drop_vars_tau, X_train.columns)):
                         raise ValueError("drop_vars_tau includes some variable names that are not in X_train")
                     keep_inds = ~np.isin(X_train.columns.array, drop_vars_tau)
-                    variable_subset_tau = [i for i in keep_inds]
+                    variable_subset_tau = [i for i in np.flatnonzero(keep_inds)]
                 else:
                     if np.any(drop_vars_tau >= X_train.shape[1]):
                         raise ValueError("drop_vars_tau includes some variable indices that exceed the number of columns in X_train")
                     if np.any(drop_vars_tau < 0):
                         raise ValueError("drop_vars_tau includes some negative variable indices")
                     keep_inds = ~np.isin(np.arange(X_train.shape[1]), drop_vars_tau)
-                    variable_subset_tau = [i for i in keep_inds]
+                    variable_subset_tau = [i for i in np.flatnonzero(keep_inds)]
             else:
                 raise ValueError("drop_vars_tau must be a list or np.array")
         else:
-- 
2.43.0


From bd547b95e62fd9a605ec855c24aaa923b1382e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:13 +0000
Subject: [PATCH 37/57] fix: BCFModel draws coding parameters and internal
 propensities from the given random seed

---
 stochtree/bcf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 4c54b35..d3fde86 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -488,11 +488,11 @@ class BCFModel:
         if pi_train is None and propensity_covariate != "none":
             self.bart_propensity_model = BARTModel()
             if self.has_test:
-                self.bart_propensity_model.sample(X_train=X_train_processed, y_train=Z_train, X_test=X_test_processed, num_gfr=10, num_mcmc=10)
+                self.bart_propensity_model.sample(X_train=X_train_processed, y_train=Z_train, X_test=X_test_processed, num_gfr=10, num_mcmc=10, random_seed=random_seed)
                 pi_train = np.mean(self.bart_propensity_model.y_hat_train, axis = 1, keepdims = True)
                 pi_test = np.mean(self.bart_propensity_model.y_hat_test, axis = 1, keepdims = True)
             else:
-                self.bart_propensity_model.sample(X_train=X_train_processed, y_train=Z_train, num_gfr=10, num_mcmc=10)
+                self.bart_propensity_model.sample(X_train=X_train_processed, y_train=Z_train, num_gfr=10, num_mcmc=10, random_seed=random_seed)
                 pi_train = np.mean(self.bart_propensity_model.y_hat_train, axis = 1, keepdims = True)
             self.internal_propensity_model = True
         else:
@@ -612,6 +612,8 @@ class BCFModel:
             cpp_rng = RNG(-1)
         else:
             cpp_rng = RNG(random_seed)
+        if random_seed is not None and random_seed >= 0:
+            self.rng = np.random.default_rng(random_seed)
         
         # Sampling data structures
         forest_sampler_mu = ForestSampler(forest_dataset_train, feature_types, num_trees_mu, self.n_train, alpha_mu, beta_mu, min_samples_leaf_mu)
-- 
2.43.0


From abdb6f858ac1d6fab7ba84498b9b7fdb4952aa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:50 +0000
Subject: [PATCH 38/57] fix: Python BCF overwrote the caller's sigma_leaf_tau
 matrix while sampling

---
 stochtree/bcf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index d3fde86..96ab0bf 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -524,7 +524,7 @@ class BCFModel:
         if not isinstance(sigma_leaf_tau, np.ndarray):
             current_leaf_scale_tau = np.array([[sigma_leaf_tau]])
         else:
-            current_leaf_scale_tau = sigma_leaf_tau
+            current_leaf_scale_tau = sigma_leaf_tau.copy()
 
         # Update variable weights
         variable_counts = [original_var_indices.count(i) for i in original_var_indices]
-- 
2.43.0


From de9efad13a35db8b4626f552bcf832ffb6fd3406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:50 +0000
Subject: [PATCH 39/57] fix: R bcf failed with propensity_covariate = "none"
 (feature types were not integers)

---
 R/bcf.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/bcf.R b/R/bcf.R
index ba747c5..8a070de 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -215,7 +215,7 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
     X_train_raw <- X_train
     X_train <- train_cov_preprocess_list$data
     original_var_indices <- X_train_metadata$original_var_indices
-    feature_types <- X_train_metadata$feature_types
+    feature_types <- as.integer(X_train_metadata$feature_types)
     X_test_raw <- X_test
     if (!is.null(X_test)) X_test <- preprocessPredictionData(X_test, X_train_metadata)
     
-- 
2.43.0


From 2dcf37100f17b7484fd205b6dbdcda2c74f24c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 40/57] fix: R bcf failed with random-effect groups whose basis
 is rank deficient or that have one row

---
 R/bcf.R | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/R/bcf.R b/R/bcf.R
index 8a070de..5c2975a 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -436,10 +436,11 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
         xi_init <- matrix(0,num_rfx_components,num_rfx_groups)
         for (i in 1:num_rfx_groups) {
             group_subset_indices <- group_ids_train == i
-            basis_group <- rfx_basis_train[group_subset_indices,]
+            basis_group <- rfx_basis_train[group_subset_indices,,drop=FALSE]
             resid_group <- resid_train[group_subset_indices]
             rfx_group_model <- lm(resid_group ~ 0+basis_group)
             xi_init[,i] <- unname(coef(rfx_group_model))
+            xi_init[is.na(xi_init[,i]),i] <- 0
         }
         sigma_alpha_init <- diag(1,num_rfx_components,num_rfx_components)
         sigma_xi_init <- diag(rfx_prior_var,num_rfx_components,num_rfx_components)
-- 
2.43.0


From 2fa45d73c7cf93bb52eb28e77d1f8b07b44b01cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 41/57] fix: R bcf did not pass its seed on to the propensity
 model it fits

---
 R/bcf.R | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/R/bcf.R b/R/bcf.R
index 5c2975a..13dbad9 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -374,7 +374,8 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
         num_burnin_propensity <- 10
         num_total <- 50
         bart_model_propensity <- bart(X_train = X_train_raw, y_train = as.numeric(Z_train), X_test = X_test_raw, 
-                                      num_gfr = num_total, num_burnin = 0, num_mcmc = 0)
+                                      num_gfr = num_total, num_burnin = 0, num_mcmc = 0, 
+                                      random_seed = random_seed)
         pi_train <- as.matrix(rowMeans(bart_model_propensity$y_hat_train[,(num_burnin_propensity+1):num_total]))
         if (has_test) pi_test <- as.matrix(rowMeans(bart_model_propensity$y_hat_test[,(num_burnin_propensity+1):num_total]))
     }
-- 
2.43.0


From 91d1a73ec216a1b106e0b9590d8b893363cc7054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:13 +0000
Subject: [PATCH 42/57] fix: BCF with adaptive coding left the residual on the
 old treatment basis

---
 R/bcf.R          | 10 ++++++----
 stochtree/bcf.py |  6 ++++++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/R/bcf.R b/R/bcf.R
index 13dbad9..296c60c 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -572,15 +572,16 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
                 
                 # Update basis for the leaf regression
                 tau_basis_train <- (1-Z_train)*current_b_0 + Z_train*current_b_1
+                # (and replace the treatment forest's contribution to the residual by its fit under the new basis)
+                forest_samples_tau$update_residual(forest_dataset_train, outcome_train, forest_model_tau, T, i-1, T)
                 forest_dataset_train$update_basis(tau_basis_train)
+                forest_samples_tau$update_residual(forest_dataset_train, outcome_train, forest_model_tau, T, i-1, F)
                 b_0_samples[i] <- current_b_0
                 b_1_samples[i] <- current_b_1
                 if (has_test) {
                     tau_basis_test <- (1-Z_test)*current_b_0 + Z_test*current_b_1
                     forest_dataset_test$update_basis(tau_basis_test)
                 }
-                
-                # TODO Update leaf predictions and residual
             }
             
             # Sample variance parameters (if requested)
@@ -670,7 +671,10 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
                 
                 # Update basis for the leaf regression
                 tau_basis_train <- (1-Z_train)*current_b_0 + Z_train*current_b_1
+                # (and replace the treatment forest's contribution to the residual by its fit under the new basis)
+                forest_samples_tau$update_residual(forest_dataset_train, outcome_train, forest_model_tau, T, i-1, T)
                 forest_dataset_train$update_basis(tau_basis_train)
+                forest_samples_tau$update_residual(forest_dataset_train, outcome_train, forest_model_tau, T, i-1, F)
                 b_0_samples[i] <- current_b_0
                 b_1_samples[i] <- current_b_1
                 if (has_test) {
@@ -678,8 +682,6 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
                     forest_dataset_test$update_basis(tau_basis_test)
                 }
                 
-                # TODO Update leaf predictions and residual
-                
             }
             
             # Sample variance parameters (if requested)
diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 96ab0bf..f87d08f 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -689,7 +689,10 @@ class BCFModel:
                     current_b_1 = self.rng.normal(loc = (s_ty1/(s_tt1 + 2*current_sigma2)), 
                                              scale = np.sqrt(current_sigma2/(s_tt1 + 2*current_sigma2)), size = 1)
                     tau_basis_train = (1-np.squeeze(Z_train))*current_b_0 + np.squeeze(Z_train)*current_b_1
+                    # Replace the treatment forest's contribution to the residual by its fit under the new basis
+                    forest_sampler_tau.update_residual(forest_dataset_train, residual_train, self.forest_container_tau, True, i, True)
                     forest_dataset_train.update_basis(tau_basis_train)
+                    forest_sampler_tau.update_residual(forest_dataset_train, residual_train, self.forest_container_tau, True, i, False)
                     if self.has_test:
                         tau_basis_test = (1-np.squeeze(Z_test))*current_b_0 + np.squeeze(Z_test)*current_b_1
                         forest_dataset_test.update_basis(tau_basis_test)
@@ -745,7 +748,10 @@ class BCFModel:
                     current_b_1 = self.rng.normal(loc = (s_ty1/(s_tt1 + 2*current_sigma2)), 
                                              scale = np.sqrt(current_sigma2/(s_tt1 + 2*current_sigma2)), size = 1)
                     tau_basis_train = (1-np.squeeze(Z_train))*current_b_0 + np.squeeze(Z_train)*current_b_1
+                    # Replace the treatment forest's contribution to the residual by its fit under the new basis
+                    forest_sampler_tau.update_residual(forest_dataset_train, residual_train, self.forest_container_tau, True, i, True)
                     forest_dataset_train.update_basis(tau_basis_train)
+                    forest_sampler_tau.update_residual(forest_dataset_train, residual_train, self.forest_container_tau, True, i, False)
                     if self.has_test:
                         tau_basis_test = (1-np.squeeze(Z_test))*current_b_0 + np.squeeze(Z_test)*current_b_1
                         forest_dataset_test.update_basis(tau_basis_test)
-- 
2.43.0


From cb0e472f36a390ec8ffdc6a284f2cdd968a91b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:18 +0000
Subject: [PATCH 43/57] fix: storing a vector in a JSON document over an
 existing scalar or string threw

---
 src/py_stochtree.cpp  | 8 ++++----
 src/serialization.cpp | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/py_stochtree.cpp b/src/py_stochtree.cpp
index cb329f1..a8ae00b 100644
--- a/src/py_stochtree.cpp
+++ b/src/py_stochtree.cpp
@@ -509,7 +509,7 @@ class JsonCpp {
     int vec_length = field_vector.size();
     auto accessor = field_vector.mutable_unchecked<1>();
     if (json_->contains(field_name)) {
-      json_->at(field_name).clear();
+      json_->at(field_name) = nlohmann::json::array();
       for (int i = 0; i < vec_length; i++) {
         json_->at(field_name).emplace_back(accessor(i));
       }
@@ -526,7 +526,7 @@ class JsonCpp {
     auto accessor = field_vector.mutable_unchecked<1>();
     if (json_->contains(subfolder_name)) {
       if (json_->at(subfolder_name).contains(field_name)) {
-        json_->at(subfolder_name).at(field_name).clear();
+        json_->at(subfolder_name).at(field_name) = nlohmann::json::array();
         for (int i = 0; i < vec_length; i++) {
           json_->at(subfolder_name).at(field_name).emplace_back(accessor(i));
         }
@@ -548,7 +548,7 @@ class JsonCpp {
   void AddStringVector(std::string field_name, std::vector<std::string>& field_vector) {
     int vec_length = field_vector.size();
     if (json_->contains(field_name)) {
-      json_->at(field_name).clear();
+      json_->at(field_name) = nlohmann::json::array();
       for (int i = 0; i < vec_length; i++) {
         json_->at(field_name).emplace_back(field_vector.at(i));
       }
@@ -564,7 +564,7 @@ class JsonCpp {
     int vec_length = field_vector.size();
     if (json_->contains(subfolder_name)) {
       if (json_->at(subfolder_name).contains(field_name)) {
-        json_->at(subfolder_name).at(field_name).clear();
+        json_->at(subfolder_name).at(field_name) = nlohmann::json::array();
         for (int i = 0; i < vec_length; i++) {
           json_->at(subfolder_name).at(field_name).emplace_back(field_vector.at(i));
         }
diff --git a/src/serialization.cpp b/src/serialization.cpp
index ba73475..b6e3e08 100644
--- a/src/serialization.cpp
+++ b/src/serialization.cpp
@@ -76,7 +76,7 @@ void json_add_vector_subfolder_cpp(cpp11::external_pointer<nlohmann::json> json_
     int vec_length = field_vector.size();
     if (json_ptr->contains(subfolder_name)) {
         if (json_ptr->at(subfolder_name).contains(field_name)) {
-            json_ptr->at(subfolder_name).at(field_name).clear();
+            json_ptr->at(subfolder_name).at(field_name) = nlohmann::json::array();
             for (int i = 0; i < vec_length; i++) {
                 json_ptr->at(subfolder_name).at(field_name).emplace_back(field_vector.at(i));
             }
@@ -99,7 +99,7 @@ void json_add_vector_subfolder_cpp(cpp11::external_pointer<nlohmann::json> json_
 void json_add_vector_cpp(cpp11::external_pointer<nlohmann::json> json_ptr, std::string field_name, cpp11::doubles field_vector) {
     int vec_length = field_vector.size();
     if (json_ptr->contains(field_name)) {
-        json_ptr->at(field_name).clear();
+        json_ptr->at(field_name) = nlohmann::json::array();
         for (int i = 0; i < vec_length; i++) {
             json_ptr->at(field_name).emplace_back(field_vector.at(i));
         }
@@ -116,7 +116,7 @@ void json_add_string_vector_subfolder_cpp(cpp11::external_pointer<nlohmann::json
     int vec_length = field_vector.size();
     if (json_ptr->contains(subfolder_name)) {
         if (json_ptr->at(subfolder_name).contains(field_name)) {
-            json_ptr->at(subfolder_name).at(field_name).clear();
+            json_ptr->at(subfolder_name).at(field_name) = nlohmann::json::array();
             for (int i = 0; i < vec_length; i++) {
                 json_ptr->at(subfolder_name).at(field_name).emplace_back(field_vector.at(i));
             }
@@ -139,7 +139,7 @@ void json_add_string_vector_subfolder_cpp(cpp11::external_pointer<nlohmann::json
 void json_add_string_vector_cpp(cpp11::external_pointer<nlohmann::json> json_ptr, std::string field_name, cpp11::strings field_vector) {
     int vec_length = field_vector.size();
     if (json_ptr->contains(field_name)) {
-        json_ptr->at(field_name).clear();
+        json_ptr->at(field_name) = nlohmann::json::array();
         for (int i = 0; i < vec_length; i++) {
             json_ptr->at(field_name).emplace_back(field_vector.at(i));
         }
-- 
2.43.0


From 41cf2a975ed5e808390352815e7311dd57737b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:18 +0000
Subject: [PATCH 44/57] fix: JSONSerializer could not read back vectors of
 length one

---
 stochtree/serialization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochtree/serialization.py b/stochtree/serialization.py
index 9c7d04b..daa2688 100644
--- a/stochtree/serialization.py
+++ b/stochtree/serialization.py
@@ -83,7 +83,7 @@ class JSONSerializer:
         # Runtime checks
         if not isinstance(field_vector, np.ndarray):
             raise ValueError("field_vector must be a numpy array")
-        field_vector = np.squeeze(field_vector)
+        field_vector = np.atleast_1d(np.squeeze(field_vector))
         if field_vector.ndim > 1:
             warnings.warn("field_vector has more than 1 dimension. It will be flattened in row-major order using np.ravel()")
             field_vector = np.ravel(field_vector, order = "C")
-- 
2.43.0


From 851837425a81027513c4c7737a60b0e6e4a4dd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:18 +0000
Subject: [PATCH 45/57] fix: R loadScalarJson read scalars with the vector
 getter

---
 R/serialization.R | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/R/serialization.R b/R/serialization.R
index eda655f..ead94f2 100644
--- a/R/serialization.R
+++ b/R/serialization.R
@@ -350,9 +350,9 @@ loadVectorJson <- function(json_object, json_vector_label, subfolder_name = NULL
 #' @export
 loadScalarJson <- function(json_object, json_scalar_label, subfolder_name = NULL) {
     if (is.null(subfolder_name)) {
-        output <- json_object$get_vector(json_scalar_label, subfolder_name)
+        output <- json_object$get_scalar(json_scalar_label, subfolder_name)
     } else {
-        output <- json_object$get_vector(json_scalar_label, subfolder_name)
+        output <- json_object$get_scalar(json_scalar_label, subfolder_name)
     }
     return(output)
 }
-- 
2.43.0


From 5a92e342f4d4ba6723790afacc09525783bc15ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:18 +0000
Subject: [PATCH 46/57] fix: R CppJson$load_from_file left the counts and
 labels of forests and random effects stale

---
 R/serialization.R | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/R/serialization.R b/R/serialization.R
index ead94f2..69dc558 100644
--- a/R/serialization.R
+++ b/R/serialization.R
@@ -290,6 +290,13 @@ CppJson <- R6::R6Class(
         #' @return NULL
         load_from_file = function(filename) {
             json_load_cpp(self$json_ptr, filename)
+            self$num_forests <- if (json_contains_field_cpp(self$json_ptr, "num_forests")) self$get_scalar("num_forests") else 0
+            self$forest_labels <- sprintf("forest_%d", seq_len(self$num_forests) - 1L)
+            self$num_rfx <- if (json_contains_field_cpp(self$json_ptr, "num_random_effects")) self$get_scalar("num_random_effects") else 0
+            rfx_nums <- seq_len(self$num_rfx) - 1L
+            self$rfx_container_labels <- sprintf("random_effect_container_%d", rfx_nums)
+            self$rfx_mapper_labels <- sprintf("random_effect_label_mapper_%d", rfx_nums)
+            self$rfx_groupid_labels <- sprintf("random_effect_groupids_%d", rfx_nums)
         }
     )
 )
-- 
2.43.0


From d98e10a87a5e2824ae2c12d4422c78d77a6190c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:18 +0000
Subject: [PATCH 47/57] fix: R extract_label_mapping returned an unnamed list

---
 R/random_effects.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/random_effects.R b/R/random_effects.R
index dbcdbbb..d4e2cbe 100644
--- a/R/random_effects.R
+++ b/R/random_effects.R
@@ -117,7 +117,7 @@ RandomEffectSamples <- R6::R6Class(
         extract_label_mapping = function() {
             keys_and_vals <- rfx_label_mapper_to_list_cpp(self$label_mapper_ptr)
             result <- as.list(keys_and_vals[[2]] + 1)
-            setNames(result, keys_and_vals[[1]])
+            names(result) <- keys_and_vals[[1]]
             return(result)
         }
     )
-- 
2.43.0


From 50c6aa4c7875b898e234120b7093bef9023a6f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:18 +0000
Subject: [PATCH 48/57] fix: Python outcomes and variance weights ignored the
 strides of the array given

---
 stochtree/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochtree/data.py b/stochtree/data.py
index 20b01e6..eb2aab5 100644
--- a/stochtree/data.py
+++ b/stochtree/data.py
@@ -41,10 +41,10 @@ class Dataset:
         Add variance weights to a dataset
         """
         n = variance_weights.size
-        self.dataset_cpp.AddVarianceWeights(variance_weights, n)
+        self.dataset_cpp.AddVarianceWeights(np.ascontiguousarray(variance_weights), n)
 
 class Residual:
     def __init__(self, residual: np.array) -> None:
         # Initialize a ResidualCpp object
         n = residual.size
-        self.residual_cpp = ResidualCpp(residual, n)
+        self.residual_cpp = ResidualCpp(np.ascontiguousarray(residual), n)
-- 
2.43.0


From 88d1d6883a6a14b6d59a0e4696d3e8b5a7340490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 49/57] fix: MCMC grow and prune moves were accepted with
 ratios that do not leave the posterior invariant

The prune ratio had the probabilities of the move and its reverse the wrong way
round and looked at the tree before pruning; the grow ratio counted the parent of
the grown leaf as a leaf parent still; and whether a tree can grow was judged
differently in the ratios and in the choice of the move.
---
 include/stochtree/tree_sampler.h | 41 ++++++++++++++------------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/include/stochtree/tree_sampler.h b/include/stochtree/tree_sampler.h
index 5cb67de..3afd1a3 100644
--- a/include/stochtree/tree_sampler.h
+++ b/include/stochtree/tree_sampler.h
@@ -272,7 +272,7 @@ class MCMCForestSampler {
     bool grow_possible = false;
     std::vector<int> leaves = tree->GetLeaves();
     for (auto& leaf: leaves) {
-      if (tracker.UnsortedNodeSize(tree_num, leaf) > 2 * tree_prior.GetMinSamplesLeaf()) {
+      if (tracker.UnsortedNodeSize(tree_num, leaf) >= 2 * tree_prior.GetMinSamplesLeaf()) {
         grow_possible = true;
         break;
       }
@@ -308,7 +308,7 @@ class MCMCForestSampler {
     if (step_chosen == 0) {
       GrowTreeOneIter(tree, tracker, leaf_model, dataset, residual, tree_prior, gen, tree_num, variable_weights, global_variance, prob_grow);
     } else {
-      PruneTreeOneIter(tree, tracker, leaf_model, dataset, residual, tree_prior, gen, tree_num, global_variance);
+      PruneTreeOneIter(tree, tracker, leaf_model, dataset, residual, tree_prior, gen, tree_num, global_variance, 1. - prob_grow);
     }
   }
 
@@ -370,20 +370,26 @@ class MCMCForestSampler {
     // Determine whether a "grow" move is possible from the newly formed tree
     // in order to compute the probability of choosing "prune" from the new tree
     // (which is always possible by construction)
-    bool non_constant = NodesNonConstantAfterSplit(dataset, tracker, split, tree_num, leaf_chosen, var_chosen);
-    bool min_samples_left_check = left_n >= 2*tree_prior.GetMinSamplesLeaf();
-    bool min_samples_right_check = right_n >= 2*tree_prior.GetMinSamplesLeaf();
+    bool grow_possible_new = left_n >= 2*tree_prior.GetMinSamplesLeaf() || right_n >= 2*tree_prior.GetMinSamplesLeaf();
+    for (auto& leaf: leaves) {
+      if (leaf != leaf_chosen && tracker.UnsortedNodeSize(tree_num, leaf) >= 2 * tree_prior.GetMinSamplesLeaf()) {
+        grow_possible_new = true;
+        break;
+      }
+    }
     double prob_prune_new;
-    if (non_constant && (min_samples_left_check || min_samples_right_check)) {
+    if (grow_possible_new) {
       prob_prune_new = 0.5;
     } else {
       prob_prune_new = 1.0;
     }
 
     // Determine the number of leaves in the current tree and leaf parents in the proposed tree
-    int num_leaf_parents = tree->NumLeafParents();
+    // (the new split is a leaf parent, and its own parent no longer is one)
+    int num_leaf_parents = tree->NumLeafParents() + 1;
+    if (!tree->IsRoot(leaf_chosen) && tree->IsLeafParent(tree->Parent(leaf_chosen))) num_leaf_parents--;
     double p_leaf = 1/static_cast<double>(num_leaves);
-    double p_leaf_parent = 1/static_cast<double>(num_leaf_parents+1);
+    double p_leaf_parent = 1/static_cast<double>(num_leaf_parents);
 
     // Compute the final MH ratio
     double log_mh_ratio = (
@@ -408,7 +414,7 @@ class MCMCForestSampler {
   }
 
   void PruneTreeOneIter(Tree* tree, ForestTracker& tracker, LeafModel& leaf_model, ForestDataset& dataset, ColumnVector& residual, 
-                        TreePrior& tree_prior, std::mt19937& gen, int tree_num, double global_variance) {
+                        TreePrior& tree_prior, std::mt19937& gen, int tree_num, double global_variance, double prob_prune_old) {
     // Choose a "leaf parent" node at random
     int num_leaves = tree->NumLeaves();
     int num_leaf_parents = tree->NumLeafParents();
@@ -437,7 +443,7 @@ class MCMCForestSampler {
     // Determine whether a "prune" move is possible from the new tree,
     // in order to compute the probability of choosing "grow" from the new tree
     // (which is always possible by construction)
-    bool non_root_tree = tree->NumNodes() > 1;
+    bool non_root_tree = num_leaves > 2;
     double prob_grow_new;
     if (non_root_tree) {
       prob_grow_new = 0.5;
@@ -445,25 +451,14 @@ class MCMCForestSampler {
       prob_grow_new = 1.0;
     }
 
-    // Determine whether a "grow" move was possible from the old tree,
-    // in order to compute the probability of choosing "prune" from the old tree
-    bool non_constant_left = NodeNonConstant(dataset, tracker, tree_num, left_node);
-    bool non_constant_right = NodeNonConstant(dataset, tracker, tree_num, right_node);
-    double prob_prune_old;
-    if (non_constant_left && non_constant_right) {
-      prob_prune_old = 0.5;
-    } else {
-      prob_prune_old = 1.0;
-    }
-
     // Determine the number of leaves in the current tree and leaf parents in the proposed tree
     double p_leaf = 1/static_cast<double>(num_leaves-1);
     double p_leaf_parent = 1/static_cast<double>(num_leaf_parents);
 
     // Compute the final MH ratio
     double log_mh_ratio = (
-      std::log(1-pg) - std::log(pg) - std::log(1-pgl) - std::log(1-pgr) + std::log(prob_prune_old) +
-      std::log(p_leaf) - std::log(prob_grow_new) - std::log(p_leaf_parent) + no_split_log_marginal_likelihood - split_log_marginal_likelihood
+      std::log(1-pg) - std::log(pg) - std::log(1-pgl) - std::log(1-pgr) + std::log(prob_grow_new) +
+      std::log(p_leaf) - std::log(prob_prune_old) - std::log(p_leaf_parent) + no_split_log_marginal_likelihood - split_log_marginal_likelihood
     );
     // Threshold at 0
     if (log_mh_ratio > 0) {
-- 
2.43.0


From d1708a8da6b1d2d6d279a926cf4e6e73754555f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 50/57] fix: BCF predictions with adaptive coding omitted the
 treatment forest's contribution to untreated outcomes (Python and R)

---
 R/bcf.R          | 4 ++++
 stochtree/bcf.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/R/bcf.R b/R/bcf.R
index 296c60c..f4ef93a 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -705,6 +705,8 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
     mu_hat_train <- forest_samples_mu$predict(forest_dataset_train)*y_std_train + y_bar_train
     if (adaptive_coding) {
         tau_hat_train_raw <- forest_samples_tau$predict_raw(forest_dataset_train)
+        # The treatment forest also contributes b_0 * tau(x) to untreated outcomes
+        mu_hat_train <- mu_hat_train + t(t(tau_hat_train_raw) * b_0_samples)*y_std_train
         tau_hat_train <- t(t(tau_hat_train_raw) * (b_1_samples - b_0_samples))*y_std_train
     } else {
         tau_hat_train <- forest_samples_tau$predict_raw(forest_dataset_train)*y_std_train
@@ -714,6 +716,7 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
         mu_hat_test <- forest_samples_mu$predict(forest_dataset_test)*y_std_train + y_bar_train
         if (adaptive_coding) {
             tau_hat_test_raw <- forest_samples_tau$predict_raw(forest_dataset_test)
+            mu_hat_test <- mu_hat_test + t(t(tau_hat_test_raw) * b_0_samples)*y_std_train
             tau_hat_test <- t(t(tau_hat_test_raw) * (b_1_samples - b_0_samples))*y_std_train
         } else {
             tau_hat_test <- forest_samples_tau$predict_raw(forest_dataset_test)*y_std_train
@@ -987,6 +990,7 @@ predict.bcf <- function(bcf, X_test, Z_test, pi_test = NULL, group_ids_test = NU
     mu_hat_test <- bcf$forests_mu$predict(prediction_dataset_mu)*y_std + y_bar
     if (bcf$model_params$adaptive_coding) {
         tau_hat_test_raw <- bcf$forests_tau$predict_raw(prediction_dataset_tau)
+        mu_hat_test <- mu_hat_test + t(t(tau_hat_test_raw) * bcf$b_0_samples)*y_std
         tau_hat_test <- t(t(tau_hat_test_raw) * (bcf$b_1_samples - bcf$b_0_samples))*y_std
     } else {
         tau_hat_test <- bcf$forests_tau$predict_raw(prediction_dataset_tau)*y_std
diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index f87d08f..b22df45 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -788,6 +788,8 @@ class BCFModel:
         tau_raw_train = self.forest_container_tau.forest_container_cpp.PredictRaw(forest_dataset_train.dataset_cpp)
         self.tau_hat_train = tau_raw_train[:,self.keep_indices]
         if self.adaptive_coding:
+            # The treatment forest also contributes b_0 * tau(x) to untreated outcomes
+            self.mu_hat_train = self.mu_hat_train + tau_raw_train[:,self.keep_indices,0]*self.b0_samples[self.keep_indices]*self.y_std
             adaptive_coding_weights = np.expand_dims(self.b1_samples[self.keep_indices] - self.b0_samples[self.keep_indices], axis=(0,2))
             self.tau_hat_train = self.tau_hat_train*adaptive_coding_weights
         self.tau_hat_train = self.tau_hat_train*self.y_std
@@ -799,6 +801,7 @@ class BCFModel:
             tau_raw_test = self.forest_container_tau.forest_container_cpp.PredictRaw(forest_dataset_test.dataset_cpp)
             self.tau_hat_test = tau_raw_test[:,self.keep_indices]
             if self.adaptive_coding:
+                self.mu_hat_test = self.mu_hat_test + tau_raw_test[:,self.keep_indices,0]*self.b0_samples[self.keep_indices]*self.y_std
                 adaptive_coding_weights_test = np.expand_dims(self.b1_samples[self.keep_indices] - self.b0_samples[self.keep_indices], axis=(0,2))
                 self.tau_hat_test = self.tau_hat_test*adaptive_coding_weights_test
             self.tau_hat_test = self.tau_hat_test*self.y_std
@@ -957,6 +960,7 @@ class BCFModel:
         # Estimate treatment effect
         tau_raw = self.forest_container_tau.forest_container_cpp.PredictRaw(forest_dataset_tau.dataset_cpp)
         if self.adaptive_coding:
+            mu_x = mu_x + (tau_raw[:,:,0]*self.b0_samples)[:,self.keep_indices]*self.y_std
             tau_raw = tau_raw*np.expand_dims(self.b1_samples - self.b0_samples, axis=(0,2))
         tau_raw = tau_raw*self.y_std
         tau_x = tau_raw[:,self.keep_indices]
-- 
2.43.0


From 9cbb56d57b3462f4d6199bd7048634346be1f0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 51/57] fix: error and leaf variances were drawn with the data
 counted twice and the prior halved instead of from IG(nu + n/2, nu*lambda +
 SSR/2)

---
 include/stochtree/variance_model.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/stochtree/variance_model.h b/include/stochtree/variance_model.h
index 53140dd..7b92c3a 100644
--- a/include/stochtree/variance_model.h
+++ b/include/stochtree/variance_model.h
@@ -26,7 +26,7 @@ class GlobalHomoskedasticVarianceModel {
   ~GlobalHomoskedasticVarianceModel() {}
   double PosteriorShape(Eigen::VectorXd& residuals, double nu, double lambda) {
     data_size_t n = residuals.rows();
-    return (nu/2.0) + n;
+    return nu + (n/2.0);
   }
   double PosteriorScale(Eigen::VectorXd& residuals, double nu, double lambda) {
     data_size_t n = residuals.rows();
@@ -35,7 +35,7 @@ class GlobalHomoskedasticVarianceModel {
     for (data_size_t i = 0; i < n; i++) {
       sum_sq_resid += std::pow(residuals(i, 0), 2);
     }
-    return (nu_lambda/2.0) + sum_sq_resid;
+    return nu_lambda + (sum_sq_resid/2.0);
   }
   double SampleVarianceParameter(Eigen::VectorXd& residuals, double nu, double lambda, std::mt19937& gen) {
     double ig_shape = PosteriorShape(residuals, nu, lambda);
@@ -54,11 +54,11 @@ class LeafNodeHomoskedasticVarianceModel {
   ~LeafNodeHomoskedasticVarianceModel() {}
   double PosteriorShape(TreeEnsemble* ensemble, double a, double b) {
     data_size_t num_leaves = ensemble->NumLeaves();
-    return (a/2.0) + num_leaves;
+    return a + (num_leaves/2.0);
   }
   double PosteriorScale(TreeEnsemble* ensemble, double a, double b) {
     double mu_sq = ensemble->SumLeafSquared();
-    return (b/2.0) + mu_sq;
+    return b + (mu_sq/2.0);
   }
   double SampleVarianceParameter(TreeEnsemble* ensemble, double a, double b, std::mt19937& gen) {
     double ig_shape = PosteriorShape(ensemble, a, b);
-- 
2.43.0


From 895122082c76c34bed0d0d6087652c77a380873e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 52/57] fix: random effect variances were drawn with the group
 parameters counted twice

---
 src/random_effects.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/random_effects.cpp b/src/random_effects.cpp
index 19108d4..0f7f743 100644
--- a/src/random_effects.cpp
+++ b/src/random_effects.cpp
@@ -165,7 +165,7 @@ Eigen::MatrixXd MultivariateRegressionRandomEffectsModel::GroupParameterVariance
 }
 
 double MultivariateRegressionRandomEffectsModel::VarianceComponentShape(RandomEffectsDataset& dataset, ColumnVector& residual, RandomEffectsTracker& rfx_tracker, double global_variance, int32_t component_id) {
-  return static_cast<double>(variance_prior_shape_ + num_groups_);
+  return variance_prior_shape_ + (num_groups_/2.0);
 }
 
 double MultivariateRegressionRandomEffectsModel::VarianceComponentScale(RandomEffectsDataset& dataset, ColumnVector& residual, RandomEffectsTracker& rfx_tracker, double global_variance, int32_t component_id) {
@@ -173,7 +173,7 @@ double MultivariateRegressionRandomEffectsModel::VarianceComponentScale(RandomEf
   Eigen::MatrixXd xi = group_parameters_;
   double output = variance_prior_scale_;
   for (int i = 0; i < num_groups; i++) {
-    output += xi(component_id, i)*xi(component_id, i);
+    output += xi(component_id, i)*xi(component_id, i)/2.0;
   }
   return output;
 }
-- 
2.43.0


From d6e5ef0c928e9da4068cd63267acb6d99d8674f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 53/57] fix: R bart and bcf ignored the quantile q when
 calibrating lambda

---
 R/bart.R | 2 +-
 R/bcf.R  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/R/bart.R b/R/bart.R
index 559fa2b..e89edab 100644
--- a/R/bart.R
+++ b/R/bart.R
@@ -217,7 +217,7 @@ bart <- function(X_train, y_train, W_train = NULL, group_ids_train = NULL,
     # Calibrate priors for sigma^2 and tau
     reg_basis <- cbind(W_train, X_train)
     sigma2hat <- (sigma(lm(resid_train~reg_basis)))^2
-    quantile_cutoff <- 0.9
+    quantile_cutoff <- q
     if (is.null(lambda)) {
         lambda <- (sigma2hat*qgamma(1-quantile_cutoff,nu))/nu
     }
diff --git a/R/bcf.R b/R/bcf.R
index f4ef93a..80493ff 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -413,7 +413,7 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
     # Calibrate priors for global sigma^2 and sigma_leaf_mu / sigma_leaf_tau
     reg_basis <- X_train
     sigma2hat <- mean(resid(lm(resid_train~reg_basis))^2)
-    quantile_cutoff <- 0.9
+    quantile_cutoff <- q
     if (is.null(lambda)) {
         lambda <- (sigma2hat*qgamma(1-quantile_cutoff,nu))/nu
     }
-- 
2.43.0


From 24de057e3c243722a7015b1b81602bf0ca53b0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 54/57] fix: BCFModel read the feature types of a second and
 later propensity column past the end of the list

---
 stochtree/bcf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index b22df45..141fcbc 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -541,7 +541,7 @@ class BCFModel:
         if propensity_covariate not in ["none", "mu", "tau", "both"]:
             raise ValueError("propensity_covariate must equal one of 'none', 'mu', 'tau', or 'both'")
         if propensity_covariate != "none":
-            feature_types = np.append(feature_types, 0).astype('int')
+            feature_types = np.append(feature_types, np.zeros(pi_train.shape[1])).astype('int')
             X_train_processed = np.c_[X_train_processed, pi_train]
             if self.has_test:
                 X_test_processed = np.c_[X_test_processed, pi_test]
-- 
2.43.0


From b7855fede032d42566a22231d99a9933b758eca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 55/57] fix: BCFModel estimated the propensities of a
 multivariate treatment from its first column alone

---
 stochtree/bcf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 141fcbc..078f8fc 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -486,6 +486,8 @@ class BCFModel:
 
         # Check if user has provided propensities that are needed in the model
         if pi_train is None and propensity_covariate != "none":
+            if self.multivariate_treatment:
+                raise ValueError("Propensities must be provided via pi_train (or omitted by setting propensity_covariate = 'none') for multivariate treatments")
             self.bart_propensity_model = BARTModel()
             if self.has_test:
                 self.bart_propensity_model.sample(X_train=X_train_processed, y_train=Z_train, X_test=X_test_processed, num_gfr=10, num_mcmc=10, random_seed=random_seed)
-- 
2.43.0


From b7d808cdad6b535bd634ce49502bd45dac4a583d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:03 +0000
Subject: [PATCH 56/57] fix: documented defaults of BART and BCF that differ
 from the defaults used

---
 R/bart.R          |  2 +-
 R/bcf.R           | 12 ++++++------
 man/bart.Rd       |  2 +-
 man/bcf.Rd        | 12 ++++++------
 stochtree/bart.py |  2 +-
 stochtree/bcf.py  | 10 +++++-----
 6 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/R/bart.R b/R/bart.R
index e89edab..137c51e 100644
--- a/R/bart.R
+++ b/R/bart.R
@@ -45,7 +45,7 @@
 #' @param sample_tau Whether or not to update the `tau` leaf scale variance parameter based on `IG(a_leaf, b_leaf)`. Cannot (currently) be set to true if `ncol(W_train)>1`. Default: T.
 #' @param random_seed Integer parameterizing the C++ random number generator. If not specified, the C++ random number generator is seeded according to `std::random_device`.
 #' @param keep_burnin Whether or not "burnin" samples should be included in cached predictions. Default FALSE. Ignored if num_mcmc = 0.
-#' @param keep_gfr Whether or not "grow-from-root" samples should be included in cached predictions. Default TRUE. Ignored if num_mcmc = 0.
+#' @param keep_gfr Whether or not "grow-from-root" samples should be included in cached predictions. Default FALSE. Ignored if num_mcmc = 0.
 #' @param verbose Whether or not to print progress during the sampling loops. Default: FALSE.
 #'
 #' @return List of sampling outputs and a wrapper around the sampled forests (which can be used for in-memory prediction on new data, or serialized to JSON on disk).
diff --git a/R/bcf.R b/R/bcf.R
index 80493ff..4b2f49a 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -22,8 +22,8 @@
 #' that were not in the training set.
 #' @param rfx_basis_test (Optional) Test set basis for "random-slope" regression in additive random effects model.
 #' @param cutpoint_grid_size Maximum size of the "grid" of potential cutpoints to consider. Default: 100.
-#' @param sigma_leaf_mu Starting value of leaf node scale parameter for the prognostic forest. Calibrated internally as `2/num_trees_mu` if not set here.
-#' @param sigma_leaf_tau Starting value of leaf node scale parameter for the treatment effect forest. Calibrated internally as `1/num_trees_tau` if not set here.
+#' @param sigma_leaf_mu Starting value of leaf node scale parameter for the prognostic forest. Calibrated internally as `1/num_trees_mu` if not set here.
+#' @param sigma_leaf_tau Starting value of leaf node scale parameter for the treatment effect forest. Calibrated internally as `0.5/num_trees_tau` if not set here.
 #' @param alpha_mu Prior probability of splitting for a tree of depth 0 for the prognostic forest. Tree split prior combines `alpha` and `beta` via `alpha*(1+node_depth)^-beta`. Default: 0.95.
 #' @param alpha_tau Prior probability of splitting for a tree of depth 0 for the treatment effect forest. Tree split prior combines `alpha` and `beta` via `alpha*(1+node_depth)^-beta`. Default: 0.25.
 #' @param beta_mu Exponent that decreases split probabilities for nodes of depth > 0 for the prognostic forest. Tree split prior combines `alpha` and `beta` via `alpha*(1+node_depth)^-beta`. Default: 2.0.
@@ -34,8 +34,8 @@
 #' @param lambda Component of the scale parameter in the `IG(nu, nu*lambda)` global error variance prior. If not specified, this is calibrated as in Sparapani et al (2021).
 #' @param a_leaf_mu Shape parameter in the `IG(a_leaf, b_leaf)` leaf node parameter variance model for the prognostic forest. Default: 3.
 #' @param a_leaf_tau Shape parameter in the `IG(a_leaf, b_leaf)` leaf node parameter variance model for the treatment effect forest. Default: 3.
-#' @param b_leaf_mu Scale parameter in the `IG(a_leaf, b_leaf)` leaf node parameter variance model for the prognostic forest. Calibrated internally as 0.5/num_trees if not set here.
-#' @param b_leaf_tau Scale parameter in the `IG(a_leaf, b_leaf)` leaf node parameter variance model for the treatment effect forest. Calibrated internally as 0.5/num_trees if not set here.
+#' @param b_leaf_mu Scale parameter in the `IG(a_leaf, b_leaf)` leaf node parameter variance model for the prognostic forest. Calibrated internally as 1/num_trees_mu if not set here.
+#' @param b_leaf_tau Scale parameter in the `IG(a_leaf, b_leaf)` leaf node parameter variance model for the treatment effect forest. Calibrated internally as 0.5/num_trees_tau if not set here.
 #' @param q Quantile used to calibrated `lambda` as in Sparapani et al (2021). Default: 0.9.
 #' @param sigma2 Starting value of global variance parameter. Calibrated internally as in Sparapani et al (2021) if not set here.
 #' @param variable_weights Numeric weights reflecting the relative probability of splitting on each variable. Does not need to sum to 1 but cannot be negative. Defaults to `rep(1/ncol(X_train), ncol(X_train))` if not set here. Note that if the propensity score is included as a covariate in either forest, its weight will default to `1/ncol(X_train)`. A workaround if you wish to provide a custom weight for the propensity score is to include it as a column in `X_train` and then set `propensity_covariate` to `'none'` adjust `keep_vars_mu` and `keep_vars_tau` accordingly.
@@ -43,14 +43,14 @@
 #' @param drop_vars_mu Vector of variable names or column indices denoting variables that should be excluded from the prognostic (`mu(X)`) forest. Default: NULL. If both `drop_vars_mu` and `keep_vars_mu` are set, `drop_vars_mu` will be ignored.
 #' @param keep_vars_tau Vector of variable names or column indices denoting variables that should be included in the treatment effect (`tau(X)`) forest. Default: NULL.
 #' @param drop_vars_tau Vector of variable names or column indices denoting variables that should be excluded from the treatment effect (`tau(X)`) forest. Default: NULL. If both `drop_vars_tau` and `keep_vars_tau` are set, `drop_vars_tau` will be ignored.
-#' @param num_trees_mu Number of trees in the prognostic forest. Default: 200.
+#' @param num_trees_mu Number of trees in the prognostic forest. Default: 250.
 #' @param num_trees_tau Number of trees in the treatment effect forest. Default: 50.
 #' @param num_gfr Number of "warm-start" iterations run using the grow-from-root algorithm (He and Hahn, 2021). Default: 5.
 #' @param num_burnin Number of "burn-in" iterations of the MCMC sampler. Default: 0.
 #' @param num_mcmc Number of "retained" iterations of the MCMC sampler. Default: 100.
 #' @param sample_sigma_global Whether or not to update the `sigma^2` global error variance parameter based on `IG(nu, nu*lambda)`. Default: T.
 #' @param sample_sigma_leaf_mu Whether or not to update the `sigma_leaf_mu` leaf scale variance parameter in the prognostic forest based on `IG(a_leaf_mu, b_leaf_mu)`. Default: T.
-#' @param sample_sigma_leaf_tau Whether or not to update the `sigma_leaf_tau` leaf scale variance parameter in the treatment effect forest based on `IG(a_leaf_tau, b_leaf_tau)`. Default: T.
+#' @param sample_sigma_leaf_tau Whether or not to update the `sigma_leaf_tau` leaf scale variance parameter in the treatment effect forest based on `IG(a_leaf_tau, b_leaf_tau)`. Default: F.
 #' @param propensity_covariate Whether to include the propensity score as a covariate in either or both of the forests. Enter "none" for neither, "mu" for the prognostic forest, "tau" for the treatment forest, and "both" for both forests. If this is not "none" and a propensity score is not provided, it will be estimated from (`X_train`, `Z_train`) using `stochtree::bart()`. Default: "mu".
 #' @param adaptive_coding Whether or not to use an "adaptive coding" scheme in which a binary treatment variable is not coded manually as (0,1) or (-1,1) but learned via parameters `b_0` and `b_1` that attach to the outcome model `[b_0 (1-Z) + b_1 Z] tau(X)`. This is ignored when Z is not binary. Default: T.
 #' @param b_0 Initial value of the "control" group coding parameter. This is ignored when Z is not binary. Default: -0.5.
diff --git a/man/bart.Rd b/man/bart.Rd
index 1a004d3..32ef96b 100644
--- a/man/bart.Rd
+++ b/man/bart.Rd
@@ -115,7 +115,7 @@ that were not in the training set.}
 
 \item{keep_burnin}{Whether or not "burnin" samples should be included in cached predictions. Default FALSE. Ignored if num_mcmc = 0.}
 
-\item{keep_gfr}{Whether or not "grow-from-root" samples should be included in cached predictions. Default TRUE. Ignored if num_mcmc = 0.}
+\item{keep_gfr}{Whether or not "grow-from-root" samples should be included in cached predictions. Default FALSE. Ignored if num_mcmc = 0.}
 
 \item{verbose}{Whether or not to print progress during the sampling loops. Default: FALSE.}
 }
diff --git a/man/bcf.Rd b/man/bcf.Rd
index eba72ab..657c8c7 100644
--- a/man/bcf.Rd
+++ b/man/bcf.Rd
@@ -92,9 +92,9 @@ that were not in the training set.}
 
 \item{cutpoint_grid_size}{Maximum size of the "grid" of potential cutpoints to consider. Default: 100.}
 
-\item{sigma_leaf_mu}{Starting value of leaf node scale parameter for the prognostic forest. Calibrated internally as \code{2/num_trees_mu} if not set here.}
+\item{sigma_leaf_mu}{Starting value of leaf node scale parameter for the prognostic forest. Calibrated internally as \code{1/num_trees_mu} if not set here.}
 
-\item{sigma_leaf_tau}{Starting value of leaf node scale parameter for the treatment effect forest. Calibrated internally as \code{1/num_trees_tau} if not set here.}
+\item{sigma_leaf_tau}{Starting value of leaf node scale parameter for the treatment effect forest. Calibrated internally as \code{0.5/num_trees_tau} if not set here.}
 
 \item{alpha_mu}{Prior probability of splitting for a tree of depth 0 for the prognostic forest. Tree split prior combines \code{alpha} and \code{beta} via \code{alpha*(1+node_depth)^-beta}. Default: 0.95.}
 
@@ -116,9 +116,9 @@ that were not in the training set.}
 
 \item{a_leaf_tau}{Shape parameter in the \code{IG(a_leaf, b_leaf)} leaf node parameter variance model for the treatment effect forest. Default: 3.}
 
-\item{b_leaf_mu}{Scale parameter in the \code{IG(a_leaf, b_leaf)} leaf node parameter variance model for the prognostic forest. Calibrated internally as 0.5/num_trees if not set here.}
+\item{b_leaf_mu}{Scale parameter in the \code{IG(a_leaf, b_leaf)} leaf node parameter variance model for the prognostic forest. Calibrated internally as 1/num_trees_mu if not set here.}
 
-\item{b_leaf_tau}{Scale parameter in the \code{IG(a_leaf, b_leaf)} leaf node parameter variance model for the treatment effect forest. Calibrated internally as 0.5/num_trees if not set here.}
+\item{b_leaf_tau}{Scale parameter in the \code{IG(a_leaf, b_leaf)} leaf node parameter variance model for the treatment effect forest. Calibrated internally as 0.5/num_trees_tau if not set here.}
 
 \item{q}{Quantile used to calibrated \code{lambda} as in Sparapani et al (2021). Default: 0.9.}
 
@@ -134,7 +134,7 @@ that were not in the training set.}
 
 \item{drop_vars_tau}{Vector of variable names or column indices denoting variables that should be excluded from the treatment effect (\code{tau(X)}) forest. Default: NULL. If both \code{drop_vars_tau} and \code{keep_vars_tau} are set, \code{drop_vars_tau} will be ignored.}
 
-\item{num_trees_mu}{Number of trees in the prognostic forest. Default: 200.}
+\item{num_trees_mu}{Number of trees in the prognostic forest. Default: 250.}
 
 \item{num_trees_tau}{Number of trees in the treatment effect forest. Default: 50.}
 
@@ -148,7 +148,7 @@ that were not in the training set.}
 
 \item{sample_sigma_leaf_mu}{Whether or not to update the \code{sigma_leaf_mu} leaf scale variance parameter in the prognostic forest based on \code{IG(a_leaf_mu, b_leaf_mu)}. Default: T.}
 
-\item{sample_sigma_leaf_tau}{Whether or not to update the \code{sigma_leaf_tau} leaf scale variance parameter in the treatment effect forest based on \code{IG(a_leaf_tau, b_leaf_tau)}. Default: T.}
+\item{sample_sigma_leaf_tau}{Whether or not to update the \code{sigma_leaf_tau} leaf scale variance parameter in the treatment effect forest based on \code{IG(a_leaf_tau, b_leaf_tau)}. Default: F.}
 
 \item{propensity_covariate}{Whether to include the propensity score as a covariate in either or both of the forests. Enter "none" for neither, "mu" for the prognostic forest, "tau" for the treatment forest, and "both" for both forests. If this is not "none" and a propensity score is not provided, it will be estimated from (\code{X_train}, \code{Z_train}) using \code{stochtree::bart()}. Default: "mu".}
 
diff --git a/stochtree/bart.py b/stochtree/bart.py
index 2d466c0..64375be 100644
--- a/stochtree/bart.py
+++ b/stochtree/bart.py
@@ -63,7 +63,7 @@ class BARTModel:
         a_leaf : :obj:`float`, optional
             Shape parameter in the ``IG(a_leaf, b_leaf)`` leaf node parameter variance model. Defaults to ``3``.
         b_leaf : :obj:`float`, optional
-            Scale parameter in the ``IG(a_leaf, b_leaf)`` leaf node parameter variance model. Calibrated internally as ``0.5/num_trees`` if not set here.
+            Scale parameter in the ``IG(a_leaf, b_leaf)`` leaf node parameter variance model. Calibrated internally as ``1/num_trees`` if not set here.
         q : :obj:`float`, optional
             Quantile used to calibrated ``lamb`` as in Sparapani et al (2021). Defaults to ``0.9``.
         sigma2 : :obj:`float`, optional
diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 078f8fc..be45e2d 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -64,14 +64,14 @@ class BCFModel:
         cutpoint_grid_size : :obj:`int`, optional
             Maximum number of cutpoints to consider for each feature. Defaults to ``100``.
         sigma_leaf_mu : :obj:`float`, optional
-            Starting value of leaf node scale parameter for the prognostic forest. Calibrated internally as ``2/num_trees_mu`` if not set here.
+            Starting value of leaf node scale parameter for the prognostic forest. Calibrated internally as ``1/num_trees_mu`` if not set here.
         sigma_leaf_tau : :obj:`float` or :obj:`np.array`, optional
             Starting value of leaf node scale parameter for the treatment effect forest. 
             When treatment (``Z_train``) is multivariate, this can be either a ``float`` or a square 2-dimensional ``np.array`` 
             with ``sigma_leaf_tau.shape[0] == Z_train.shape[1]`` and ``sigma_leaf_tau.shape[1] == Z_train.shape[1]``.
             If ``sigma_leaf_tau`` is provided as a float for multivariate treatment, the leaf scale term will be set as a 
             diagonal matrix with ``sigma_leaf_tau`` on every diagonal. If not passed as an argument, this parameter is 
-            calibrated internally as ``1/num_trees_tau`` (and propagated to a diagonal matrix if necessary).
+            calibrated internally as ``0.5/num_trees_tau`` (and propagated to a diagonal matrix if necessary).
         alpha_mu : :obj:`float`, optional
             Prior probability of splitting for a tree of depth 0 for the prognostic forest. 
             Tree split prior combines ``alpha`` and ``beta`` via ``alpha*(1+node_depth)^-beta``.
@@ -97,9 +97,9 @@ class BCFModel:
         a_leaf_tau : :obj:`float`, optional
             Shape parameter in the ``IG(a_leaf, b_leaf)`` leaf node parameter variance model for the treatment effect forest. Defaults to ``3``.
         b_leaf_mu : :obj:`float`, optional
-            Scale parameter in the ``IG(a_leaf, b_leaf)`` leaf node parameter variance model for the prognostic forest. Calibrated internally as ``0.5/num_trees`` if not set here.
+            Scale parameter in the ``IG(a_leaf, b_leaf)`` leaf node parameter variance model for the prognostic forest. Calibrated internally as ``1/num_trees_mu`` if not set here.
         b_leaf_tau : :obj:`float`, optional
-            Scale parameter in the ``IG(a_leaf, b_leaf)`` leaf node parameter variance model for the treatment effect forest. Calibrated internally as ``0.5/num_trees`` if not set here.
+            Scale parameter in the ``IG(a_leaf, b_leaf)`` leaf node parameter variance model for the treatment effect forest. Calibrated internally as ``0.5/num_trees_tau`` if not set here.
         q : :obj:`float`, optional
             Quantile used to calibrated ``lamb`` as in Sparapani et al (2021). Defaults to ``0.9``.
         sigma2 : :obj:`float`, optional
@@ -131,7 +131,7 @@ class BCFModel:
             Cannot (currently) be set to true if ``basis_train`` has more than one column. Defaults to ``True``.
         sample_sigma_leaf_tau : :obj:`bool`, optional
             Whether or not to update the ``tau`` leaf scale variance parameter based on ``IG(a_leaf, b_leaf)`` for the treatment effect forest. 
-            Cannot (currently) be set to true if ``basis_train`` has more than one column. Defaults to ``True``.
+            Cannot (currently) be set to true if ``basis_train`` has more than one column. Defaults to ``False``.
         propensity_covariate : :obj:`str`, optional
             Whether to include the propensity score as a covariate in either or both of the forests. Enter ``"none"`` for neither, ``"mu"`` for the prognostic forest, ``"tau"`` for the treatment forest, and ``"both"`` for both forests. 
             If this is not ``"none"`` and a propensity score is not provided, it will be estimated from (``X_train``, ``Z_train``) using ``BARTModel``. Defaults to ``"mu"``.
-- 
2.43.0


From 79f4ac2417da681591f68ff0d8075f6952920b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:28 +0000
Subject: [PATCH 57/57] fix: keep a forest container's initialized roots when
 it is reloaded from JSON

---
 src/container.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/container.cpp b/src/container.cpp
index 747e699..407cba0 100644
--- a/src/container.cpp
+++ b/src/container.cpp
@@ -126,10 +126,14 @@ void ForestContainer::from_json(const json& forest_container_json) {
   this->is_leaf_constant_ = forest_container_json.at("is_leaf_constant");
   this->initialized_ = forest_container_json.at("initialized");
 
+  // A container whose roots have been initialized holds a forest before its first sample
+  int num_forests = this->num_samples_;
+  if (num_forests == 0 && forest_container_json.contains("forest_0")) num_forests = 1;
+
   std::string forest_label;
   forests_.clear();
-  forests_.resize(this->num_samples_);
-  for (int i = 0; i < this->num_samples_; i++) {
+  forests_.resize(num_forests);
+  for (int i = 0; i < num_forests; i++) {
     forest_label = "forest_" + std::to_string(i);
     forests_[i] = std::make_unique<TreeEnsemble>(this->num_trees_, this->output_dimension_, this->is_leaf_constant_);
     forests_[i]->from_json(forest_container_json.at(forest_label));
-- 
2.43.0

