"""Writes /verif/properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os

P = []


def p(id_, title, statement, over, qtext, why, files, mech, **anch):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(anch)
    P.append({
        "id": id_, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why, "anchors": a,
    })


W = "wildwood/"
p("C01", "A fixed random_state makes fit reproducible",
  "For a given integer random_state, data and hyperparameters, fitting always builds the same forest, whatever the number of jobs, the state of numpy's global generator or what ran before in the process. All randomness used while fitting (bootstrap, feature sampling, random category orders, encoder subsampling, random depths) is drawn from generators seeded from random_state. Prediction draws no random numbers.",
  ["inputs", "schedules", "histories"], "all data sets, seeds, thread schedules and earlier activity in the process",
  "A test compares a few fits in one process; a draw from an unseeded source on a rarely taken branch, or one whose effect depends on another thread, is not sampled.",
  [W + "forest.py", W + "tree.py", W + "_tree.py", W + "_utils.py", W + "_split.py", W + "preprocessing/encoder.py"],
  [("per-tree seeds", "forest.py ForestBase._generate_random_states"), ("compiled generator seeding", "_tree.py _TreeClassifier/_TreeRegressor.__init__"), ("draws", "forest.py _generate_train_valid_samples, _utils.py sample_without_replacement, _split.py find_best_split_classifier_along_feature, encoder.py Encoder.fit")])
p("C02", "Each tree gets its own bootstrap, split exactly into in-bag and out-of-bag rows",
  "Each tree of the forest (each tree of a class, in one-versus-rest mode) is built with its own seed drawn for that position. Its training rows are the rows drawn by sampling n rows with replacement out of the n rows, with their multiplicities; its out-of-bag rows are exactly the rows never drawn, and that set is never empty.",
  ["inputs", "histories"], "all seeds, numbers of trees, numbers of classes and numbers of rows",
  "Only distributions or a few seeds can be sampled, and duplicated trees still predict reasonably.",
  [W + "forest.py"], [("bootstrap", "forest.py _generate_train_valid_samples"), ("seed to tree assignment", "forest.py ForestBase._generate_random_states, ForestBase.fit")])
p("C03", "Arrays and data frames given by the caller are never modified",
  "Fitting, predicting, encoding or applying never writes into the features, labels, sample weights, categorical mask or bit-packed matrix that the caller passed, nor into any view of them.",
  ["inputs", "histories"], "all public entry points, all containers and dtypes",
  "Whether a write reaches the caller's buffer depends on the dtype and memory layout of the argument, which tests sample thinly.",
  [W + "forest.py", W + "tree.py", W + "_tree_context.py", W + "preprocessing/encoder.py", W + "preprocessing/_binning.py", W + "preprocessing/_checks.py", W + "preprocessing/features_bitarray.py"],
  [("copies before in-place updates", "forest.py _parallel_build_trees, ForestBase.fit; _tree_context.py init_tree_context; encoder.py Encoder.transform")])
p("C04", "Trees do not interfere: private storage in fit, pure and locked prediction",
  "Building a tree writes only into storage that belongs to that tree, never into data shared with the trees built concurrently. Predicting never changes the fitted forest, and every write of a worker into an array shared by the workers happens while holding the common lock, with a backend that really shares memory.",
  ["schedules", "histories"], "all thread schedules and all sequences of predictions",
  "Data races show up for rare interleavings only.",
  [W + "forest.py", W + "tree.py", W + "_tree.py", W + "_tree_context.py", W + "_grow.py", W + "_split.py"],
  [("lock", "forest.py _accumulate_prediction, _get_tree_prediction, _parallel_tree_apply, _compute_weighted_depth"), ("private copies", "forest.py _parallel_build_trees, _tree_context.py init_tree_context")])
p("C05", "Prediction routes every sample exactly as training did",
  "A row goes to the left child iff its bin is at most the threshold bin (numerical split) or belongs to the left set of bins (categorical split); this rule is the same when training rows and out-of-bag rows are distributed, when leaves are looked up for prediction or application, and when decision paths are reported.",
  ["inputs"], "all trees, splits and rows",
  "Disagreement of one comparison only changes rows lying exactly on a threshold or in an unusual bin.",
  [W + "_split.py", W + "_tree.py"], [("training partition", "_split.py split_indices, is_bin_in_partition, compute_bin_partition"), ("prediction", "_tree.py find_leaf, tree_apply, sample_path_leaf")])
p("C06", "Fitted trees are well formed",
  "In every fitted tree, each internal node has two distinct children whose parent link, depth and side agree with it, children come after their parent, leaves have none, and the recorded row ranges, counts and weights describe exactly the rows of the node. The rows of the two children partition the rows of the parent, for in-bag and out-of-bag rows alike.",
  ["inputs"], "all data sets and hyperparameters",
  "It is an invariant over all growth sequences; tests look at the predictions of a few trees.",
  [W + "_grow.py", W + "_tree.py", W + "_split.py", W + "_node.py"], [("growth loop", "_grow.py grow, push_record, pop_node_record"), ("node creation", "_tree.py add_node_tree"), ("row partition", "_split.py split_indices")])
p("C07", "Growth respects max_depth, min_samples_split, min_samples_leaf and purity",
  "No node at depth max_depth, with fewer than min_samples_split in-bag rows or (with aggregation) out-of-bag rows, or pure, is ever split; no split leaves fewer than min_samples_leaf in-bag rows or (with aggregation) out-of-bag rows in a child. Conversely a node is made a leaf only for one of these reasons or because no admissible split exists.",
  ["inputs"], "all data sets and all values of the three limits",
  "Limits bind on particular counts and nodes only; off-by-one errors survive sampled checks.",
  [W + "_grow.py", W + "_split.py"], [("leaf rule", "_grow.py grow"), ("leaf size", "_split.py try_feature_order_for_classifier_split, find_best_split_regressor_along_feature")])
p("C08", "Every hyperparameter reaches the computation it governs, unaltered",
  "Every constructor argument of the two forests is stored under its name and, at fit time, handed to the encoder, trees and tree builders in the role it documents, for classifiers and regressors alike, with the documented conversions (default depth, number of sampled features, criterion and strategy names). No argument is dropped, swapped with another or replaced by a default.",
  ["inputs", "configurations"], "all combinations of hyperparameter values",
  "Tests vary a few parameters and look at outputs that change little when one is ignored.",
  [W + "forest.py", W + "tree.py", W + "_tree_context.py", W + "_utils.py", W + "preprocessing/encoder.py"],
  [("plumbing", "forest.py __init__ of the forests, ForestBase.fit, _get_max_depth_, _get_max_features_, _get_n_jobs_; tree.py fit; _tree_context.py init_tree_context")])
p("C09", "Invalid hyperparameters are rejected, valid ones stored unchanged",
  "Assigning a hyperparameter of a forest or encoder, in the constructor or later, either stores exactly the given value or raises; it raises exactly for the values outside the documented domain (types, ranges, known names). No invalid value is accepted silently and none leaves the attribute unset.",
  ["inputs"], "all values of all hyperparameters",
  "Only a few good and bad values per parameter are tried.",
  [W + "forest.py", W + "preprocessing/encoder.py"], [("validating setters", "forest.py and encoder.py property setters")])
p("C10", "Pickling preserves the whole fitted forest",
  "Unpickling a pickled forest restores every piece of state: the trees with their nodes, predictions and categorical partitions, the training context and all hyperparameters, each under its own name. The copy predicts identically and supports the same later operations, also when the forest was lightened first.",
  ["inputs", "histories"], "all fitted forests, before and after later updates",
  "Round-trip tests cover a few forests and the fields that their predictions touch.",
  [W + "tree.py", W + "forest.py", W + "_tree.py", W + "_tree_context.py", W + "preprocessing/features_bitarray.py"], [("state", "tree.py serialize, unserialize, __getstate__, __setstate__, lighten")])
p("C11", "Aggregation computes the exponentially weighted average over all prunings",
  "With aggregation, the weight of a leaf is exp(-step * loss), that of an internal node is the half-half mixture of its own exp(-step * loss) and the product of its children's weights, computed bottom-up; predictions mix each ancestor's prediction, from the leaf up to and including the root, with coefficient half its own weight over its tree weight. Without aggregation a tree predicts with its leaf only. Classifier, regressor and weighted depth use the same rule.",
  ["inputs"], "all trees and samples",
  "An error in one coefficient or a skipped level changes predictions slightly; no test has an exact oracle for all trees.",
  [W + "_grow.py", W + "_tree.py", W + "_utils.py"], [("weights", "_grow.py compute_tree_weights, _utils.py log_sum_2_exp"), ("prediction", "_tree.py tree_classifier_predict_proba, tree_regressor_predict, tree_regressor_weighted_depth")])
p("C12", "Changing step or dirichlet after fit is equivalent to fitting with it",
  "After fit, assigning step or dirichlet updates every tree so that predictions equal those of a forest with the same structure fitted with that value: node predictions, out-of-bag losses and aggregation weights are all recomputed and stay consistent with each other for any sequence of such changes.",
  ["histories"], "all sequences of changes after fit",
  "Stale weights only appear for particular orders of updates.",
  [W + "forest.py", W + "tree.py", W + "_grow.py"], [("setters", "forest.py step, dirichlet; tree.py step, dirichlet"), ("recomputation", "_grow.py recompute_node_predictions, compute_tree_weights")])
p("C13", "Forest output is the average over all trees, in class order",
  "Regression output and multiclass probabilities are the plain average over all trees; in one-versus-rest mode each class accumulates the positive-class probability of its own trees and rows are normalised to sum to one, a row whose total vanishes becoming uniform. The predicted label is the class of largest probability, columns follow the sorted classes seen at fit, and per-tree outputs are indexed by tree.",
  ["inputs", "schedules"], "all inputs, numbers of trees, classes and jobs",
  "Averaging, column and index errors hide behind plausible numbers on balanced data.",
  [W + "forest.py"], [("averaging", "forest.py ForestClassifier.predict_proba, predict, predict_proba_trees; ForestRegressor.predict, predict_trees; ForestBase.apply; _accumulate_prediction"), ("class order", "forest.py ForestClassifier._encode_y")])
p("C14", "Node predictions use in-bag rows only, node losses out-of-bag rows only",
  "In every node, class probabilities are (weighted class count + dirichlet) / (total weight + number of classes * dirichlet), regression predictions are weighted means, and bin statistics are sums, all over exactly the in-bag rows of the node. The loss of the node is the weighted log-loss (squared loss) of that prediction over exactly its out-of-bag rows; no out-of-bag label influences splits or node predictions.",
  ["inputs"], "all nodes, weights and data sets",
  "Leaking or double counting a few rows barely moves any aggregate a test observes.",
  [W + "_node.py"], [("node statistics", "_node.py compute_node_classifier_context, compute_node_regressor_context, init_node_context")])
p("C15", "Sample weights, class weights and bootstrap counts multiply",
  "The weight used for an in-bag row is the user's sample weight times its class weight times the number of times it was drawn; the weight of an out-of-bag row is the user's weight times its class weight. In one-versus-rest mode class weights are computed for each binary problem from its own labels.",
  ["inputs"], "all weights, class distributions and bootstraps",
  "With unit or near-uniform weights the factors cannot be told apart.",
  [W + "forest.py"], [("weights", "forest.py ForestBase.fit, _parallel_build_trees, _generate_train_valid_samples")])
p("C16", "The chosen split is the best admissible one and its bookkeeping is consistent",
  "For each sampled feature, every prefix of the ordered non-empty bins except the full one is considered, with left statistics summing the bins of the prefix and right statistics the remaining ones; the split kept is one of largest impurity decrease over all features and prefixes, and all its recorded attributes describe that same split. Numerical bins are in natural order, categorical bins are ordered by their mean label or class proportion according to the strategy, and Gini, entropy and variance impurities follow their definitions.",
  ["inputs"], "all nodes and features",
  "A suboptimal or inconsistent split still gives a working tree.",
  [W + "_split.py", W + "_impurity.py"], [("search", "_split.py find_node_split, find_best_split_classifier_along_feature, find_best_split_regressor_along_feature, try_feature_order_for_classifier_split, reset_split"), ("impurities", "_impurity.py")])
p("C17", "Encoding depends only on what was learnt at fit, whatever the container",
  "Transforming a row uses only the categories, thresholds and column types stored at fit, never statistics of the data being transformed, so a row gets the same bins alone or in any batch. Data frames and arrays holding the same columns are processed by the same rules, columns keep their position, and a value's bin is the number of thresholds strictly below it.",
  ["inputs", "histories"], "all rows, batches and containers",
  "Batch dependence shows only for batches lacking or adding particular values.",
  [W + "preprocessing/encoder.py", W + "preprocessing/_binning.py"], [("learnt state", "encoder.py Encoder.fit, Encoder.transform"), ("binning", "_binning.py _find_binning_thresholds, _bin_continuous_column")])
p("C18", "Missing values and unknown categories get a bin of their own, or an error",
  "A missing value, numerical or categorical, in any container, is mapped to the bin following all regular bins of its column, and capacity for that bin is reserved whenever the column contains one. A category unseen at fit raises when unknown categories are declared errors, and otherwise is mapped to that same missing bin; regular values never share it.",
  ["inputs"], "all columns, dtypes and patterns of missing or new values",
  "The combinations of dtype, container, missing pattern and unknown policy are too many to sample.",
  [W + "preprocessing/encoder.py", W + "preprocessing/_binning.py"], [("extra bin", "encoder.py Encoder.transform, Encoder.inverse_transform; _binning.py _bin_continuous_column")])
p("C19", "Bit-packed features read back exactly as written",
  "For every column cardinality and number of rows, the packed matrix reserves enough bits and words for the column, and the writer and all readers (single value, column, full array, training and prediction code) use the same word, position, shift and mask for a given row and column, so every stored bin reads back unchanged.",
  ["inputs"], "all cardinalities, row counts and columns",
  "Errors appear at particular cardinalities or in the last partial word.",
  [W + "preprocessing/features_bitarray.py", W + "_split.py", W + "_node.py"], [("layout", "features_bitarray.py FeaturesBitArray.__init__"), ("writer", "features_bitarray.py _features_bitarray_fill_column, features_bitarray_fill_column"), ("readers", "features_bitarray.py get_value_from_column, get_value, _features_bitarray_to_array; _split.py split_indices; _node.py compute_node_*_context")])
p("C20", "Growable buffers are enlarged before they are written",
  "The node table, the table of categorical partitions and the work stack are enlarged, keeping their contents, before any write beyond their current capacity, and recorded capacities always equal allocated sizes. Fixed work buffers are allocated large enough for every index they receive.",
  ["inputs"], "all tree sizes and category counts",
  "Compiled code runs without bounds checks: an overrun corrupts memory silently and only for large trees.",
  [W + "_tree.py", W + "_grow.py", W + "_utils.py", W + "_node.py", W + "_split.py", W + "_tree_context.py"], [("growth", "_tree.py add_node_tree, resize_tree, resize_tree_bin_partitions; _grow.py push_record; _utils.py resize"), ("allocation", "_node.py init_node_context, _split.py init_split, _tree_context.py init_tree_context")])
p("C21", "Column types are decided by the documented table",
  "Which columns are categorical is determined by the declared mask, the dtype and the number of distinct values exactly as documented: text, boolean and category columns of data frames are always categorical, declared columns follow the declaration, undeclared numerical columns are categorical iff they have at most the threshold number of values. Unsupported dtypes, wrong numbers of columns and out-of-range declarations are rejected.",
  ["inputs"], "all dtypes, declarations and cardinalities",
  "The table has many rows and each test visits one.",
  [W + "preprocessing/_checks.py", W + "preprocessing/encoder.py", W + "forest.py"], [("tables", "_checks.py is_series_categorical, get_array_dtypes, check_X, get_is_categorical; encoder.py Encoder.fit")])
p("C22", "Public methods only use things that exist",
  "Every public method of the forests, trees and encoder can run to completion: each attribute, method, function and keyword it uses exists on the object it is used on, and each internal call matches the signature of what it calls.",
  ["inputs", "histories"], "all public methods and all paths through them",
  "Rarely used methods and branches are never executed by the tests.",
  [W + "forest.py", W + "tree.py", W + "preprocessing/encoder.py", W + "_tree.py"], [("public methods", "forest.py, tree.py, encoder.py")])
p("C23", "The fitted-state protocol is enforced",
  "Using a forest or encoder that was not fitted raises an error, and data-derived attributes are readable only after fit. Once fitted, attributes that cannot change anymore (number of trees, seed, multiclass mode, category strategy, classes) refuse assignment; fit marks the object as fitted only after all its state is in place.",
  ["histories"], "all sequences of calls",
  "Call orders are unbounded.",
  [W + "forest.py", W + "preprocessing/encoder.py"], [("guards", "forest.py check_is_fitted uses, property setters and getters; encoder.py getters")])
p("C24", "Each node considers a fresh uniform subset of features of the requested size",
  "For each node, the features tried are distinct, number exactly the configured number of features and are drawn anew, uniformly without replacement, from all features; when all features are requested, all are tried. The statistics kept for the f-th tried feature are those of that feature.",
  ["inputs"], "all nodes, seeds and numbers of features",
  "A biased or repeated draw is invisible in accuracy tests.",
  [W + "_utils.py", W + "_node.py", W + "_split.py"], [("sampling", "_utils.py sample_without_replacement; _node.py init_node_context, compute_node_*_context; _split.py find_node_split")])
p("C25", "Benchmark data sets: no test leakage, verified downloads",
  "Extracting a data set learns its transformation from the training part only, applies it unchanged to the test part, and keeps rows and labels aligned. Every downloaded file is used only if its checksum equals the recorded one.",
  ["inputs"], "all data sets and extraction options",
  "Leakage leaves shapes and dtypes intact; downloads cannot run in tests.",
  [W + "datasets/dataset.py", W + "datasets/loaders.py"], [("extraction", "dataset.py Dataset.extract"), ("downloads", "datasets/_*.py loaders, _utils.py")])
p("C26", "Predictions are accurate",
  "On learnable data the forest predicts nearly as well as the best pruning of its trees, up to the aggregation regret.",
  ["inputs"], "all data distributions", "Accuracy is statistical; tests only sample data sets.",
  [W + "forest.py", W + "_tree.py"], [("aggregation", "_tree.py")])
p("C27", "Floating-point results stay finite and accurate",
  "Probabilities, losses and weights stay finite, probabilities sum to one up to rounding and rounding errors stay small, for all finite inputs and weights.",
  ["inputs"], "all magnitudes of data and weights", "Extreme magnitudes are not sampled.",
  [W + "_utils.py", W + "_node.py", W + "_tree.py"], [("log-sum-exp", "_utils.py log_sum_2_exp")])
p("C28", "Fitting cost is near linear and parallel fitting scales",
  "The cost of growing a tree is proportional to rows times sampled features times depth, and trees are built in parallel without holding the interpreter lock.",
  ["inputs", "schedules"], "all data sizes and machines", "Timing on a test machine says little about other sizes.",
  [W + "_grow.py", W + "_node.py"], [("histograms", "_node.py")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
