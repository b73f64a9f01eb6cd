"""Which functions, tables and rules decide which property.

Patterns are those of Checker.anchors.  A property is decided by the functions that
compute what it speaks about, and by the functions that feed them.
"""
F, TR, SP, GR, ND, TC, T_, UT, IM = (
    "forest", "tree", "_split", "_grow", "_node", "_tree_context", "_tree", "_utils", "_impurity",
)
EN, BN, CH, FB = (
    "preprocessing.encoder", "preprocessing._binning", "preprocessing._checks",
    "preprocessing.features_bitarray",
)

SPLIT = [
    "_split:find_node_split", "_split:find_best_split_classifier_along_feature",
    "_split:find_best_split_regressor_along_feature",
    "_split:try_feature_order_for_classifier_split",
]
SPLIT_ALL = ["_split:*"]
GROW = ["_grow:grow", "_grow:push_record", "_grow:has_records", "_grow:pop_node_record", "_grow:Records.__init__"]
NODE = ["_node:*"]
CTX = ["_tree_context:*"]
FIT = [
    "forest:ForestBase.fit", "forest:_parallel_build_trees",
    "forest:_generate_train_valid_samples", "forest:ForestBase._generate_random_states",
    "tree:TreeClassifier.fit", "tree:TreeRegressor.fit",
]
RESOLVE = [
    "forest:ForestBase._get_max_depth_", "forest:ForestBase._get_max_features_",
    "forest:ForestBase._get_n_jobs_",
]
CTOR = [
    "forest:ForestBase.__init__", "forest:ForestClassifier.__init__",
    "forest:ForestRegressor.__init__", "tree:TreeBase.__init__",
    "tree:TreeClassifier.__init__", "tree:TreeRegressor.__init__",
]
ACCESS = [
    "forest:ForestBase.@", "forest:ForestClassifier.@", "forest:ForestRegressor.@",
    "tree:TreeBase.@", "tree:TreeClassifier.@",
]
PREDICT = [
    "forest:ForestClassifier.predict", "forest:ForestClassifier.predict_proba",
    "forest:ForestClassifier.predict_proba_trees", "forest:ForestRegressor.predict",
    "forest:ForestRegressor.predict_trees", "forest:ForestRegressor._weighted_depth",
    "forest:ForestBase.apply", "forest:ForestBase._predict_helper",
    "forest:_accumulate_prediction", "forest:_get_tree_prediction",
    "forest:_compute_weighted_depth", "forest:_parallel_tree_apply",
    "tree:TreeClassifier.predict_proba", "tree:TreeRegressor.predict",
    "tree:TreeRegressor.weighted_depth", "tree:TreeBase.apply",
]
TREE_PREDICT = [
    "_tree:find_leaf", "_tree:tree_apply", "_tree:tree_classifier_predict_proba",
    "_tree:tree_regressor_predict", "_tree:tree_regressor_weighted_depth",
]
PATHS = [
    "_tree:path_leaf", "_tree:sample_path_leaf", "tree:TreeClassifier.path_leaf",
    "tree:TreeRegressor.path_leaf", "forest:ForestBase.path_leaf",
]
NODES = [
    "_tree:get_nodes", "_tree:get_nodes_regressor", "_tree:get_nodes_classifier",
    "tree:TreeClassifier.get_nodes", "tree:TreeRegressor.get_nodes", "forest:ForestBase.get_nodes",
]
TREE_STORE = [
    "_tree:resize_tree_", "_tree:resize_tree", "_tree:resize_tree_bin_partitions_",
    "_tree:resize_tree_bin_partitions", "_tree:add_node_tree", "_tree:_TreeClassifier.__init__",
    "_tree:_TreeRegressor.__init__",
]
ENCODER = ["preprocessing.encoder:*"]
STATE = [
    "forest:ForestBase.__getstate__", "forest:ForestBase.__setstate__",
    "tree:TreeBase.__getstate__", "tree:TreeBase.__setstate__", "tree:serialize",
    "tree:unserialize", "_utils:get_type", "_utils:get_numba_type",
    "forest:ForestBase.lighten", "tree:TreeBase.lighten",
]
Y = [
    "forest:ForestClassifier._encode_y", "forest:ForestClassifier._validate_y_class_weight",
    "forest:ForestBase._validate_y_class_weight",
]
AGG = ["_grow:compute_tree_weights", "_utils:log_sum_2_exp"]
API = [
    "forest:ForestBase.*", "forest:ForestClassifier.*", "forest:ForestRegressor.*",
    "tree:TreeBase.*", "tree:TreeClassifier.*", "tree:TreeRegressor.*",
    "preprocessing.encoder:Encoder.*", "plot:*",
]

# property -> (anchors, rules, also compare machine types of the modules' field tables)
PROPS = {
    "C01": (
        FIT + RESOLVE + SPLIT + NODE + CTX + GROW + ENCODER + [
        "_utils:sample_without_replacement", "forest:ForestBase.random_state@",
        "forest:ForestBase.__init__", "preprocessing._binning:*"] + PREDICT + TREE_PREDICT,
        ["rng", "globals"]),
    "C02": (FIT + CTX + ["tree:TreeBase.__init__", "tree:TreeClassifier.__init__",
            "tree:TreeRegressor.__init__", "forest:ForestClassifier._encode_y",
            "forest:ForestBase.random_state@"], ["rng"]),
    "C03": (FIT + PREDICT + TREE_PREDICT + PATHS + CTX + NODE + ENCODER + Y + [
            "preprocessing._checks:*", "preprocessing._binning:*",
            "preprocessing.features_bitarray:*", "_split:split_indices",
            "forest:ForestBase._validate_X_predict", "_grow:grow",
            "_grow:recompute_node_predictions"], ["caller_data"]),
    "C04": (FIT + PREDICT + TREE_PREDICT + CTX + GROW + PATHS + SPLIT_ALL + NODE + TREE_STORE + [
            "_grow:compute_tree_weights", "_utils:sample_without_replacement",
            "preprocessing.encoder:Encoder.transform"], ["lock", "globals", "predict_pure"]),
    "C05": (SPLIT_ALL + TREE_PREDICT + PATHS + ["_grow:grow", "_tree:add_node_tree",
            "_tree:resize_tree_bin_partitions_", "_tree:resize_tree_bin_partitions",
            "preprocessing.features_bitarray:get_value",
            "preprocessing.features_bitarray:get_value_from_column",
            "preprocessing.features_bitarray:features_bitarray_to_array",
            "preprocessing.features_bitarray:_features_bitarray_to_array"] + NODES + PREDICT
            + ["tree:TreeClassifier.fit", "tree:TreeRegressor.fit", "forest:ForestBase.fit"], []),
    "C06": (GROW + TREE_STORE + NODES + NODE + SPLIT_ALL + CTX + [
            "tree:TreeBase.get_depth", "tree:TreeBase.get_n_leaves",
            "tree:TreeBase.get_actual_depth", "tree:TreeClassifier.fit",
            "tree:TreeRegressor.fit"], []),
    "C07": (GROW + SPLIT_ALL + NODE + CTX + RESOLVE + FIT + [
            "tree:TreeClassifier.__init__", "tree:TreeRegressor.__init__", "tree:TreeBase.__init__",
            "_impurity:*", "forest:ForestBase.max_depth@", "forest:ForestBase.min_samples_split@",
            "forest:ForestBase.min_samples_leaf@", "forest:ForestBase.aggregation@"], []),
    "C08": (CTOR + ACCESS + FIT + RESOLVE + CTX + GROW + SPLIT + NODE + Y + [
            "_split:apply_childs_impurity_function_clf", "_split:apply_childs_impurity_function_reg",
            "preprocessing.encoder:Encoder.__init__", "preprocessing.encoder:Encoder.fit",
            "preprocessing.encoder:Encoder.transform", "preprocessing.encoder:Encoder.@",
            "preprocessing._checks:*"] + PREDICT, []),
    "C09": (CTOR + ACCESS + RESOLVE + ["preprocessing.encoder:Encoder.__init__",
            "preprocessing.encoder:Encoder.@", "preprocessing.encoder:Encoder.fit", "forest:ForestBase.fit",
            "preprocessing._checks:*"], []),
    "C10": (STATE + CTX + TREE_STORE + CTOR, []),
    "C11": (AGG + TREE_PREDICT + GROW + PREDICT + NODE + ["_grow:recompute_node_predictions",
            "tree:TreeClassifier.fit", "tree:TreeRegressor.fit", "_tree:add_node_tree",
            "tree:TreeBase.step@", "forest:ForestBase.step@", "forest:ForestBase.aggregation@"] + CTX, []),
    "C12": (AGG + ["_grow:recompute_node_predictions", "tree:TreeBase.step@",
            "tree:TreeClassifier.dirichlet@", "forest:ForestBase.step@",
            "forest:ForestClassifier.dirichlet@", "forest:ForestBase.lighten",
            "tree:TreeBase.lighten"] + NODE + TREE_PREDICT + FIT[4:] + CTX + PREDICT, []),
    "C13": (PREDICT + Y + TREE_PREDICT + ["forest:ForestClassifier.@", "forest:ForestBase.fit",
            "forest:ForestBase.n_estimators@"], []),
    "C14": (NODE + GROW + CTX + SPLIT_ALL + ["_grow:recompute_node_predictions", "_tree:add_node_tree",
            "tree:TreeClassifier.fit", "tree:TreeRegressor.fit", "forest:_parallel_build_trees",
            "forest:_generate_train_valid_samples"], []),
    "C15": (FIT + Y + CTX + NODE + ["_grow:recompute_node_predictions",
            "forest:ForestClassifier.class_weight@"], []),
    "C16": (SPLIT_ALL + ["_impurity:*"] + NODE + GROW + ["_tree:add_node_tree"] + CTX + [
            "tree:TreeClassifier.fit", "tree:TreeRegressor.fit", "forest:ForestBase.fit"], []),
    "C17": (ENCODER + ["preprocessing._binning:*", "preprocessing._checks:*",
            "preprocessing.features_bitarray:*", "forest:ForestBase._predict_helper",
            "forest:ForestBase.path_leaf", "forest:ForestBase.fit"], ["transform_pure"]),
    "C18": (ENCODER + ["preprocessing._binning:*", "preprocessing._checks:*",
            "preprocessing.features_bitarray:*", "forest:ForestBase.fit"], []),
    "C19": (["preprocessing.features_bitarray:*", "preprocessing.encoder:Encoder.transform",
            "preprocessing.encoder:Encoder.inverse_transform", "preprocessing.encoder:Encoder.fit"]
            + TREE_PREDICT + NODE + ["_split:split_indices", "_split:is_bin_in_partition"] + PATHS, []),
    "C20": (GROW + TREE_STORE + CTX + NODE + SPLIT_ALL + ["_utils:resize",
            "tree:TreeClassifier.fit", "tree:TreeRegressor.fit", "_utils:sample_without_replacement",
            "preprocessing.features_bitarray:*"], []),
    "C21": (["preprocessing._checks:*"] + ENCODER + ["forest:ForestBase.fit"], []),
    "C22": (API + PATHS + NODES + ["forest:ForestBase.@", "forest:ForestClassifier.@",
            "preprocessing.encoder:Encoder.@", "tree:TreeBase.@", "tree:TreeClassifier.@",
            "forest:_get_tree_prediction", "forest:_compute_weighted_depth",
            "forest:_parallel_tree_apply", "forest:_accumulate_prediction", "_tree:get_nodes"],
            ["names", "calls"]),
    "C23": (CTOR + ACCESS + ["forest:ForestBase.fit", "forest:ForestBase.__sklearn_is_fitted__",
            "tree:TreeBase.__sklearn_is_fitted__", "forest:ForestBase._predict_helper",
            "forest:ForestBase.apply", "forest:ForestBase.path_leaf", "forest:ForestBase.get_nodes",
            "forest:ForestBase.lighten", "forest:ForestClassifier._encode_y",
            "forest:ForestClassifier._validate_y_class_weight",
            "tree:TreeClassifier.fit", "tree:TreeRegressor.fit", "tree:TreeBase.get_depth",
            "tree:TreeBase.get_n_leaves", "preprocessing.encoder:Encoder.*",
            "preprocessing.encoder:Encoder.@"] + PREDICT, []),
    "C24": (SPLIT + NODE + CTX + ["_utils:sample_without_replacement",
            "forest:ForestBase._get_max_features_", "forest:ForestBase.fit", "_grow:grow",
            "forest:ForestBase.max_features@", "tree:TreeClassifier.fit", "tree:TreeRegressor.fit",
            "tree:TreeClassifier.__init__", "tree:TreeRegressor.__init__", "tree:TreeBase.__init__"], []),
    "C25": (["datasets._adult:*", "datasets._amazon:*", "datasets._bank:*", "datasets._car:*",
            "datasets._default_cb:*", "datasets._epsilon:*", "datasets._higgs:*",
            "datasets._internet:*", "datasets._kick:*", "datasets._utils:*",
            "datasets.dataset:*", "datasets.loaders:*", "datasets.signals:*"], ["checksums"]),
}
