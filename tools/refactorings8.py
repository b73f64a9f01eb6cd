"""More behaviour-preserving edits (see refactorings.py)."""
RF = [
    ("rename_private_method", [("wildwood/*.py", r"@@sub \b_predict_helper\b", "_prepare_prediction")]),
    ("rename_encode_y", [("wildwood/*.py", r"@@sub \b_encode_y\b", "_label_encode")]),
    ("rename_validate", [("wildwood/*.py", r"@@sub \b_generate_random_states\b", "_draw_seeds")]),
    ("rename_grow", [("wildwood/*.py", r"@@sub \bcompute_node_regressor_context\b", "node_impurity_of")]),
    ("rename_jit_split_fn", [("wildwood/*.py", r"@@sub \bfind_best_split_regressor_along_feature\b", "best_split_along_feature")]),
    ("rename_records", [("wildwood/*.py", r"@@sub \bpush_record\b", "push_node"), ("wildwood/*.py", r"@@sub \bpop_node_record\b", "pop_record")]),
    ("rename_worker", [("wildwood/forest.py", r"@@sub \b_parallel_build_trees\b", "_fit_one_tree")]),
    ("rename_worker2", [("wildwood/forest.py", r"@@sub \b_accumulate_prediction\b", "_add_prediction")]),
    ("rename_is_nan", [("wildwood/preprocessing/*.py", r"@@sub \b_bin_continuous_column\b", "_bin_numerical_column"),]),
]
