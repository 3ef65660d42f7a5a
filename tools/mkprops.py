#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "A tree stays one well-formed binary tree under every edit history",
 "Whatever sequence of expansions (numeric or categorical, scalar or vector leaves), collapses, leaf updates, clones, resets and reloads is applied to a tree, it remains a single rooted binary tree whose shape, split rules and leaf parameters are exactly those the sequence of edits describes. Parent/child links, depth, and the reported sets and counts of leaves, internal nodes, parents-of-two-leaves and valid nodes always agree with that shape, also after freed nodes have been reused. A clone is equal to its source and unaffected by later edits to it.",
 ["histories", "inputs"], "all finite edit histories over trees with scalar or vector leaves",
 "Tests expand and collapse one or two fixed trees; node reuse, nested collapse and edits after cloning or reloading are reached only by longer histories.",
 ["src/tree.cpp", "include/stochtree/tree.h", "include/stochtree/ensemble.h"],
 [("expansion", "Tree::ExpandNode"), ("collapse", "Tree::CollapseToLeaf / ChangeToLeaf"), ("allocation", "Tree::AllocNode / DeleteNode"), ("clone", "Tree::CloneFromTree")],
 [("node arrays", "parent/children/split/leaf per node id", "Tree::parent_, cleft_, cright_, ..."), ("node lists", "leaves, internal nodes, leaf parents, deleted", "Tree::leaves_, internal_nodes_, leaf_parents_, deleted_nodes_")],
 ["public getters of Tree after every edit"])

prop("C02", "Prediction is the sum over trees of the parameter of the leaf each row reaches",
 "A row goes left at a numeric split iff its value is at most the threshold, left at a categorical split iff its value is one of the listed categories, and left when the value is missing; it thus reaches exactly one leaf per tree. A forest's prediction for a row is the sum over its trees of that leaf's value (times the row's basis, for regression leaves), the raw prediction is the same sum per parameter component, and a collection of forests returns one such column per retained forest, in order, with a sub-range of trees or an output offset affecting only what it names.",
 ["inputs", "programs"], "all forests, all rows (ties at thresholds, missing, negative, fractional and unseen categories), all bases and sample counts",
 "Tests predict a few rows with one or two hand-built forests; boundary values, unseen categories, multi-dimensional leaves and sub-ranges are not enumerated.",
 ["include/stochtree/tree.h", "include/stochtree/ensemble.h", "src/container.cpp", "src/tree.cpp"],
 [("routing", "EvaluateTree, SplitTrueNumeric, SplitTrueCategorical"), ("forest prediction", "TreeEnsemble::PredictInplace / PredictRawInplace"), ("sample columns", "ForestContainer::Predict / PredictRaw")])

prop("C03", "Training-row bookkeeping always agrees with the trees it tracks",
 "After any history of splits, prunes and resets made to a forest together with its training tracker, every training row is recorded in exactly the leaf the tree routes it to, for every tree. The rows listed for a node are exactly the rows recorded there: leaves of a tree partition the rows, the node's size is the number listed, and the per-feature sorted listings contain the same rows in nondecreasing order of that feature.",
 ["histories", "inputs"], "all split/prune/reset histories over several trees and all training sets (ties, categorical features, empty sides)",
 "Tests check the partition after at most two fixed splits on one data set.",
 ["src/partition_tracker.cpp", "include/stochtree/partition_tracker.h"],
 [("split", "ForestTracker::AddSplit, FeatureUnsortedPartition::PartitionNode, SortedNodeSampleTracker::PartitionNode"), ("prune", "ForestTracker::RemoveSplit, PruneNodeToLeaf"), ("reset", "ForestTracker::ResetRoot / AssignAllSamplesToRoot")],
 [("row-to-node map", "node of every row in every tree", "SampleNodeMapper"), ("partitions", "contiguous index segments per node", "FeatureUnsortedPartition, FeaturePresortPartition")])

prop("C04", "Residual plus current forest fit always equals the outcome",
 "After any sequence of sampler iterations (grow-from-root and MCMC in any order, one or several forests sharing the outcome, any leaf model, weighted or not), the working residual plus the fit of every active forest's most recent sample equals the original outcome at every training row, provided bases are held fixed. The fit the sampler keeps per tree and row is the parameter of the leaf that row is in (times its basis).",
 ["histories", "configurations"], "all interleavings of sampler iterations over one or more forests and all leaf models",
 "Tests never compare the residual with an independently computed fit after a sampler history.",
 ["include/stochtree/tree_sampler.h", "include/stochtree/partition_tracker.h", "src/sampler.cpp", "src/py_stochtree.cpp"],
 [("partial residual", "UpdateResidualTree, UpdateResidualEntireForest"), ("iteration", "MCMCForestSampler::SampleOneIter, GFRForestSampler::SampleOneIter"), ("cached fit", "ForestTracker::SetTreeSamplePrediction")])

prop("C05", "Recorded forest samples are append-only and independent",
 "Every sampler iteration appends exactly one forest to the collection and leaves every previously recorded forest unchanged, so predictions from an earlier sample never change later. The first iteration starts from stumps (or from the explicitly initialised root value) and each later MCMC iteration starts from a copy of the immediately preceding sample.",
 ["histories"], "all histories of sampling, copying, appending and initialising forests",
 "Tests run a sampler once and look only at the final output, never at earlier samples after later iterations.",
 ["src/container.cpp", "include/stochtree/container.h", "include/stochtree/tree_sampler.h", "include/stochtree/ensemble.h"],
 [("append", "ForestContainer::AddSamples"), ("copy", "ForestContainer::CopyFromPreviousSample, TreeEnsemble copy constructor"), ("initialise", "ForestContainer::InitializeRoot")])

prop("C06", "Grow-from-root trees only contain admissible splits",
 "Every tree produced by a grow-from-root iteration splits only on features with non-zero selection weight, with a rule of the kind the feature's type calls for (a threshold at an observed value, or a set of observed categories), and every leaf keeps at least the configured minimum number of training rows. Each split therefore separates the node's rows into two non-empty parts.",
 ["inputs", "configurations"], "all data sets (ties, constant, negative, categorical), feature types, weights, grid sizes and minimum leaf sizes",
 "No test inspects trees grown by the sampler.",
 ["include/stochtree/tree_sampler.h", "src/leaf_model.cpp", "src/cutpoint_candidates.cpp", "src/partition_tracker.cpp"],
 [("candidate evaluation", "LeafModel::EvaluateAllPossibleSplits"), ("draw", "GFRForestSampler::SampleSplitRule")])

prop("C07", "An MCMC iteration changes each tree by at most one grow or one prune",
 "In one MCMC iteration each tree is either left with the same splits, or gains one split at one of its former leaves, or loses one split whose two children were leaves; all other splits are untouched. A new split uses a feature with non-zero selection weight, sends at least the configured minimum number of training rows (and at least one) to each side, and every leaf gets a fresh parameter.",
 ["histories", "inputs"], "all MCMC histories over all data sets, weights and minimum leaf sizes",
 "No test compares consecutive samples of a chain.",
 ["include/stochtree/tree_sampler.h", "src/leaf_model.cpp"],
 [("grow", "MCMCForestSampler::GrowTreeOneIter, VarSplitRange"), ("prune", "MCMCForestSampler::PruneTreeOneIter")])

prop("C08", "Saving and reloading forests as JSON preserves behaviour",
 "A forest collection written to JSON (string or file) and read back is structurally identical to the original and returns bit-identical predictions, for any number of forests and trees, numeric and categorical splits, scalar and vector leaves, and after any edit history. It can be saved again to the same document and can be edited or sampled further exactly as the original could.",
 ["histories", "inputs"], "all forests reachable by edit histories or by sampling",
 "The existing round-trip test covers one forest without deleted nodes or further edits.",
 ["src/tree.cpp", "src/container.cpp", "include/stochtree/ensemble.h", "include/stochtree/container.h", "src/serialization.cpp", "src/py_stochtree.cpp"],
 [("write", "Tree::to_json, TreeEnsemble::to_json, ForestContainer::to_json"), ("read", "Tree::from_json, TreeEnsemble::from_json, ForestContainer::from_json")])

prop("C09", "Candidate cutpoints tile a node's rows in contiguous runs of equal values",
 "For any node and feature the candidate bins tile the node's rows exactly once, rows with equal feature values always share a bin, and a bin's cutpoint is the largest value in it, so splitting at it sends exactly the preceding bins left. Numeric features with no more rows than the grid size, and ordered categorical features, get one bin per distinct value in ascending order; unordered categorical features get one bin per category ordered by average outcome; larger numeric nodes get at most the requested number of bins.",
 ["inputs", "configurations"], "all feature columns, node row sets, outcomes and grid sizes",
 "Tests look at three fixed columns.",
 ["src/cutpoint_candidates.cpp", "include/stochtree/cutpoint_candidates.h"],
 [("numeric enumeration", "EnumerateNumericCutpointsDeduplication"), ("thinning", "ScanNumericCutpoints"), ("categorical", "CalculateStridesOrderedCategorical / Unordered")])

prop("C10", "Leaf indices and kernels identify exactly which rows share a leaf",
 "The leaf indices of a forest number all leaves of all its trees consecutively from zero without overlap between trees, and two rows get the same index for a tree iff that tree routes them to the same leaf. The forest kernel of two rows equals the number of trees in which they share a leaf, whether computed within a training set, within a test set or between the two.",
 ["inputs"], "all forests and all row sets, including repeated calls with different data or forests",
 "Tests compare a 3x3 kernel of one fixed forest.",
 ["include/stochtree/kernel.h", "include/stochtree/ensemble.h", "src/tree.cpp", "src/kernel.cpp", "R/kernel.R"],
 [("leaf indices", "Tree::PredictLeafIndexInplace, TreeEnsemble::PredictLeafIndicesInplace"), ("kernel", "ForestKernel")])

prop("C11", "Random-effect updates keep the residual equal to outcome minus fit",
 "Each random-effects iteration replaces the previous group effects by new ones and adjusts the working residual so that residual plus the current random-effects fit (each row's basis times the product of its group's effects and the shared working parameter) plus other terms always equals the outcome. Every row contributes to exactly the group its label names, for any labels in any order.",
 ["histories", "inputs"], "all sequences of iterations and all label assignments and bases, alone or interleaved with forest sampling",
 "Tests check one posterior computation and predictions on a two-group data set; residual bookkeeping over several iterations is untested.",
 ["src/random_effects.cpp", "include/stochtree/random_effects.h", "include/stochtree/category_tracker.h", "include/stochtree/partition_tracker.h"],
 [("residual", "MultivariateRegressionRandomEffectsModel::AddCurrentPredictionToResidual / SubtractNewPredictionFromResidual"), ("row groups", "RandomEffectsTracker, CategorySampleTracker")])

prop("C12", "Stored random-effect samples reproduce the effects that were sampled",
 "Every recorded random-effects sample keeps exactly the parameters the model had when it was recorded (group effects being the product of working and group parameters) in the position of its group and component, and earlier samples never change. Predictions for any rows equal basis times the stored effects of the row's label for every sample, also after saving to JSON and reloading the samples and the label map.",
 ["histories", "inputs"], "all sample counts, component and group counts, label values and label orders",
 "Tests use one container with hand-set values and two groups.",
 ["src/random_effects.cpp", "include/stochtree/random_effects.h", "src/R_random_effects.cpp", "src/serialization.cpp", "R/random_effects.R"],
 [("append", "RandomEffectsContainer::AddSample"), ("predict", "RandomEffectsContainer::Predict"), ("json", "RandomEffectsContainer::to_json/from_json, LabelMapper")])

prop("C13", "Equal seeds and inputs give equal results",
 "Running any sampler or model twice with the same data, settings and seed (in R, of both R's generator and the package's) gives bit-identical trees, predictions and variance draws, in the core library and through both language interfaces. Running it does not modify the caller's data, and neither other models built in between nor earlier runs influence the result.",
 ["configurations", "histories"], "all configurations of samplers and models that take a seed",
 "No test runs anything twice.",
 ["src/sampler.cpp", "src/py_stochtree.cpp", "include/stochtree/random.h", "stochtree/sampler.py", "stochtree/bart.py", "stochtree/bcf.py", "R/bart.R", "R/bcf.R"],
 [("rng", "cpp RNG wrappers, std::mt19937 seeding"), ("samplers", "normal / inverse-gamma samplers")])

prop("C14", "Python BART retains the requested samples and predicts with them consistently",
 "After fitting, the model holds exactly the samples asked for (the MCMC draws, preceded by burn-in or grow-from-root draws only when these are to be kept), and every output has one column per retained sample. Column k of the in-sample, test-set and later predictions is the prediction of forest k on the original outcome scale (times the basis if there is one), so predicting on the data used in fitting reproduces the stored values. Each iteration uses the newest variance draws, and the recorded ones are those of the same iterations (error variances on the outcome scale).",
 ["configurations", "inputs"], "all combinations of draw counts, keep flags, bases, sampled/fixed variance settings and covariate types",
 "There is no Python BART test in the stable suite.",
 ["stochtree/bart.py", "stochtree/forest.py", "stochtree/sampler.py", "stochtree/data.py", "src/py_stochtree.cpp"],
 [("fit", "BARTModel.sample"), ("predict", "BARTModel.predict")])

prop("C15", "Python BCF outcome is prognostic term plus treatment times effect",
 "For every retained sample and row, in-sample, test-set and later predictions satisfy: outcome = prognostic term + treatment * treatment effect, on the original outcome scale, with one column per retained sample. With adaptive coding the prognostic term is the prediction for an untreated unit, so it includes what the treatment forest adds under the untreated coding. Predicting on the data used in fitting reproduces the stored values, whether the propensity score is supplied or estimated internally, and restricting which covariates each forest may use restricts exactly that forest.",
 ["configurations", "inputs"], "all keep flags, propensity placements, codings, treatment types and covariate restrictions",
 "There is no Python BCF test in the stable suite.",
 ["stochtree/bcf.py", "stochtree/forest.py", "src/py_stochtree.cpp"],
 [("fit", "BCFModel.sample"), ("predict", "BCFModel.predict / predict_tau")])

prop("C16", "Python covariate preprocessing encodes every column faithfully",
 "Numeric and boolean columns pass through with their values, ordered categorical columns become the rank of the category, and unordered categorical columns become one indicator per training category, in a fixed column layout with matching feature types and original-column indices. Applying a fitted preprocessor to any data with the same columns yields the same layout and, for a row equal to a training row, the same encoding; a category not seen in training is never encoded as a seen one.",
 ["inputs"], "all data frames and arrays mixing column types, and repeated use of one preprocessor",
 "Two fixed examples are tested.",
 ["stochtree/preprocessing.py"],
 [("fit", "CovariateTransformer.fit"), ("transform", "CovariateTransformer.transform")])

prop("C17", "R covariate preprocessing encodes training and later data identically",
 "Numeric columns pass through, ordered factors become integer codes of their training levels, unordered factors become one indicator per training level plus one for anything else, in a fixed column layout with matching feature types and original-column indices. Preprocessing new data with the stored metadata gives a row equal to a training row the same encoding regardless of which levels or rows are present, and sends unseen levels to the catch-all indicator.",
 ["inputs"], "all data frames mixing column types and all subsets or supersets of levels in later data",
 "A few fixed data frames are tested.",
 ["R/utils.R"],
 [("train", "createForestCovariates / preprocessTrainDataFrame"), ("later data", "createForestCovariatesFromMetadata / preprocessPredictionDataFrame")])

prop("C18", "The JSON model document returns exactly what was stored under each name",
 "A model document returns, for every name (and subfolder), the value last stored there with the same type and bit-identical finite numbers, regardless of what else was stored, in which order, and of writing to a string or file and reading back. Forests and random-effects stored in one document each come back under their own label, in the order and number stored.",
 ["histories", "inputs"], "all sequences of scalar, boolean, string, vector, forest and random-effect insertions with and without subfolders",
 "Two single-value tests exist.",
 ["stochtree/serialization.py", "R/serialization.R", "src/py_stochtree.cpp", "src/serialization.cpp"],
 [("python", "JSONSerializer"), ("R", "CppJson"), ("backend", "JsonCpp, json_*_cpp11")])

prop("C19", "R bart() retains the requested samples and predicts with them consistently",
 "The fitted R model holds exactly the samples asked for by the draw counts and keep flags, with one column per retained sample in every output. Predicting on data used in fitting (with or without basis and random effects) reproduces the stored in-sample or test-set values on the original scale, outcome predictions being the sum of the forest and random-effect terms, and so do its forests and random effects after being written to JSON and reloaded. Recorded variance draws are those of the retained iterations.",
 ["configurations", "inputs"], "all combinations of draw counts, keep flags, covariate types, bases and random effects",
 "No stable R test fits a model.",
 ["R/bart.R", "R/forest.R", "R/random_effects.R", "R/serialization.R", "src/forest.cpp", "src/sampler.cpp"],
 [("fit", "bart"), ("predict", "predict.bartmodel"), ("json", "CppJson add_forest / add_random_effects, loadForestContainerJson, loadRandomEffectSamplesJson")])

prop("C20", "R bcf() decomposes outcomes exactly and survives reloading",
 "For every retained sample and row of the R causal model, outcome prediction = prognostic term + treatment * effect (+ random effects when present), with one column per retained sample. With adaptive coding the prognostic term is the prediction for an untreated unit, so it includes what the treatment forest adds under the untreated coding. Predicting on data used in fitting reproduces the stored values for every propensity placement and covariate type, and so does the model after being written to JSON and reloaded.",
 ["configurations", "inputs"], "all draw counts, keep flags, propensity placements, adaptive coding on/off, covariate types and random effects",
 "No stable R test fits a model.",
 ["R/bcf.R", "R/forest.R", "R/random_effects.R", "R/serialization.R"],
 [("fit", "bcf"), ("predict", "predict.bcf"), ("json", "convertBCFModelToJson, createBCFModelFromJson")])

prop("C21", "Datasets hold the caller's values whatever the memory layout",
 "Data handed to a dataset, residual or random-effects dataset is held with every value at its row and column whatever the caller's memory layout (row- or column-major, sliced, integer or float), including covariates, bases and observation weights, and updating the basis or residual replaces exactly that. Later changes to the caller's array, or to a returned copy, do not alter the dataset.",
 ["inputs", "histories"], "all shapes, layouts and update sequences",
 "Tests read two small row-major arrays.",
 ["src/data.cpp", "include/stochtree/data.h", "src/R_data.cpp", "src/py_stochtree.cpp", "stochtree/data.py", "R/data.R"],
 [("copy in", "ColumnMatrix / ColumnVector LoadData"), ("bindings", "ForestDatasetCpp, ResidualCpp, RandomEffectsDatasetCpp")])

prop("C22", "Split evaluations use exactly the rows each side would receive",
 "When a sampler weighs a candidate split, the row counts and likelihoods it uses for the two sides and for the unsplit node are those of exactly the training rows each side would receive. Hence the three ways a split is weighed (proposed, existing, and as one of all candidates of a node) agree, and all candidates of a node that leave enough rows on both sides, and only those, are offered.",
 ["inputs", "histories"], "all nodes, candidate rules, feature types, weights, bases and leaf models",
 "No test evaluates a split.",
 ["src/leaf_model.cpp", "include/stochtree/leaf_model.h", "src/cutpoint_candidates.cpp"],
 [("accumulation", "AccumulateSuffStatProposed/Existing/AccumulateCutpointBinSuffStat"), ("candidates", "EvaluateAllPossibleSplits")])

prop("C23", "Leaf parameters are drawn around the weighted fit of the rows in the leaf",
 "A leaf's parameter is drawn from the conjugate normal posterior of exactly the training rows in that leaf: as the noise variance becomes negligible it equals the inverse-variance-weighted least-squares fit of the partial residual on the basis within the leaf, and as the prior variance becomes negligible it goes to zero. In between its centre is the precision-weighted compromise of the two.",
 ["inputs", "configurations"], "all leaves, weights, bases and variance settings for constant, univariate and multivariate leaf models",
 "No test draws leaf parameters.",
 ["src/leaf_model.cpp", "include/stochtree/leaf_model.h", "include/stochtree/normal_sampler.h"],
 [("posterior", "PosteriorParameterMean / PosteriorParameterVariance"), ("draw", "SampleLeafParameters")])

prop("C24", "Tree moves are made with the probabilities the model prescribes",
 "For a forest of one tree with given leaf variance and noise variance, the trees that MCMC iterations step through form a Markov chain that is reversible with respect to the model's posterior: prior probability alpha*(1+depth)^-beta of every node being split (with the rule drawn by feature weight and uniformly over the range of the feature in the node), times the marginal likelihood of the leaves. So each grow or prune move of each tree is taken with the Metropolis-Hastings probability of that target, moves that would make a leaf smaller than the minimum are never taken, and any admissible split can be proposed. Grow-from-root iterations choose, for each node, each admissible split with probability proportional to its marginal likelihood, and no split with the prior odds times the number of admissible splits times the likelihood of the unsplit node.",
 ["histories", "configurations"], "all reachable trees, data sets, leaf models, priors, feature weights and minimum leaf sizes; through the C++, Python and R samplers",
 "A wrong acceptance ratio only shows in the frequencies of moves over long runs; the tests make a few draws and compare none.",
 ["include/stochtree/tree_sampler.h", "include/stochtree/prior.h", "include/stochtree/leaf_model.h", "src/leaf_model.cpp", "src/sampler.cpp", "src/py_stochtree.cpp"],
 [("moves", "MCMCForestSampler: SampleTreeOneIter, GrowTreeOneIter, PruneTreeOneIter"), ("fresh trees", "GFRForestSampler: SampleSplitRule, EvaluateCutpoints")])

prop("C25", "While a model is fitted, every update starts from what the rest of the model leaves unexplained",
 "Whenever a Python or R BART or BCF model is fitted, the working residual that every forest update starts from, and that is left at the end, equals the standardised outcome minus the current contribution of every part of the model: the latest sample of each forest, times the current basis where it has one, and the latest random effects. This stays so when the treatment coding, and with it the basis of the treatment forest, is drawn again between updates; and at the end the reported in-sample prediction of the last draw plus the residual is the outcome.",
 ["histories", "configurations"], "all fits: any draw counts, forests, treatment codings, bases and random effects",
 "No test looks at the residual inside a model fit.",
 ["stochtree/bcf.py", "stochtree/bart.py", "R/bcf.R", "R/bart.R", "include/stochtree/tree_sampler.h", "src/forest.cpp", "src/py_stochtree.cpp", "src/random_effects.cpp"],
 [("coding", "adaptive coding blocks of BCFModel.sample and bcf()"), ("residual", "UpdateResidualEntireForest, update_residual")])

prop("C26", "Variances, random effects and codings are drawn from the law their prior and the current state imply",
 "Every draw of a parameter other than a tree comes from its conditional posterior given the stated prior and the current state. The error variance with prior IG(nu, nu*lambda) is drawn from IG(nu + n/2, nu*lambda + SSR/2), a leaf scale with prior IG(a, b) from IG(a + L/2, b + sum of squared leaf values/2) for the forest's L leaves, a random-effect variance likewise from the group parameters; group and working parameters of random effects from the normal law given noise variance, each other and the outcome not explained otherwise; the two codings of a binary treatment from their normal law with prior variance 1/2, given the effect forest and what the other parts leave. This holds in the core library and in every Python and R fit.",
 ["histories", "configurations"], "all residuals, forests, group structures, priors, and fits of BART and BCF through either language",
 "A wrong law only shows in the distribution of many draws; no test looks at one.",
 ["include/stochtree/variance_model.h", "include/stochtree/ig_sampler.h", "include/stochtree/normal_sampler.h", "src/random_effects.cpp", "stochtree/bcf.py", "stochtree/bart.py", "R/bcf.R", "R/bart.R", "R/variance.R", "src/sampler.cpp", "src/py_stochtree.cpp"],
 [("variances", "PosteriorShape / PosteriorScale of both variance models"), ("random effects", "GroupParameterMean/Variance, WorkingParameterMean/Variance, VarianceComponentShape/Scale"), ("codings", "adaptive coding blocks of BCFModel.sample and bcf()")])

prop("C27", "Settings a caller gives or leaves out govern exactly the part of the model they name",
 "In a BART or BCF fit through Python or R, every setting the caller gives reaches the part of the model it names, unchanged, and no other part: number of trees, split prior (alpha, beta), minimum leaf size, leaf scale and its prior of each forest separately, cutpoint grid size of every kind of leaf model, error variance and its prior, initial codings, random-effect prior variance, variable weights and the variables a forest may or may not use, numbers of draws and which variances are sampled. A setting that is left out takes its documented default or its documented calibration: leaf scales and their priors from the number of trees of their own forest, lambda from nu, q and the residual variance of a least squares fit. A covariate's weight is shared equally by the columns that encode it, excluded covariates and propensities a forest does not use have weight zero.",
 ["configurations"], "all subsets of settings given, all their values, both models and both languages, covariate tables of any column types",
 "A setting that is ignored, crossed with another or calibrated from the wrong quantity still gives a plausible fit; the tests pass a handful of combinations and look at none of what the library is handed.",
 ["stochtree/bart.py", "stochtree/bcf.py", "R/bart.R", "R/bcf.R", "src/py_stochtree.cpp", "src/sampler.cpp", "R/model.R", "stochtree/sampler.py"],
 [("settings settled", "calibration blocks of BARTModel.sample, BCFModel.sample, bart(), bcf()"), ("handed over", "ForestSamplerCpp::SampleOneIteration, sample_gfr/mcmc_one_iteration_cpp, createForestModel, variance models"), ("weights", "variable_weights, keep_vars_*, drop_vars_* handling")])

with open("/verif/properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
