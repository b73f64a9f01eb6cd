"""More behaviour-preserving edits (see refactorings.py)."""
W = "wildwood/"
S, G, N, T, F, TR = W + "_split.py", W + "_grow.py", W + "_node.py", W + "_tree.py", W + "forest.py", W + "tree.py"
E, B, C, A = (W + "preprocessing/" + x for x in ("encoder.py", "_binning.py", "_checks.py", "features_bitarray.py"))
I, U, TC = W + "_impurity.py", W + "_utils.py", W + "_tree_context.py"
JIT = "@jit(nopython=NOPYTHON, nogil=NOGIL, boundscheck=BOUNDSCHECK, fastmath=FASTMATH)\n"
RF = [
("try_order_index_loop", [(S, '''    for bin_threshold in ordered_bins_train[:-1]:
''', '''    for k in range(ordered_bins_train.size - 1):
        bin_threshold = ordered_bins_train[k]
''')]),
("try_order_right_from_left", [(S, '''        n_samples_train_right -= n_samples_train_in_bins[bin_threshold]
''', '''        n_samples_train_right = n_samples_train - n_samples_train_left
''')]),
("try_order_nested_if", [(S, '''        if (n_samples_train_left < min_samples_leaf) or (
            aggregation and (n_samples_valid_left < min_samples_leaf)
        ):
            # If the weighted number of training or validation samples in the left
            # child is too small, then we know that the next bins might be OK
            continue

''', '''        left_too_small = n_samples_train_left < min_samples_leaf
        if aggregation and n_samples_valid_left < min_samples_leaf:
            left_too_small = True
        if left_too_small:
            continue

''')]) ,
("try_order_valid_right_once", [(S, '''        if is_feature_categorical:
            n_samples_valid_left += n_samples_valid_in_bins[bin_threshold]
            n_samples_valid_right = n_samples_valid - n_samples_valid_left
        else:
            n_samples_valid_left = cumsum_samples_valid_left[bin_threshold]
            n_samples_valid_right = n_samples_valid - n_samples_valid_left
''', '''        if is_feature_categorical:
            n_samples_valid_left += n_samples_valid_in_bins[bin_threshold]
        else:
            n_samples_valid_left = cumsum_samples_valid_left[bin_threshold]
        n_samples_valid_right = n_samples_valid - n_samples_valid_left
''')]),
("try_order_record_helper", [(S, '''            best_split.found_split = True
            best_split.gain_proxy = gain_proxy
            best_split.feature = feature
            best_split.bin_threshold = bin_threshold
            best_split.impurity_left = impurity_left
            best_split.impurity_right = impurity_right
''', '''            record_candidate(best_split, gain_proxy, feature, bin_threshold, impurity_left, impurity_right)
'''), (S, '''@jit(
    void(
        TreeClassifierContextType,
        NodeClassifierContextType,
        uintp,
        uintp,
        SplitClassifierType,
        uint64[::1],
''', JIT + '''def record_candidate(split, gain_proxy, feature, bin_threshold, impurity_left, impurity_right):
    split.found_split = True
    split.gain_proxy = gain_proxy
    split.feature = feature
    split.bin_threshold = bin_threshold
    split.impurity_left = impurity_left
    split.impurity_right = impurity_right


@jit(
    void(
        TreeClassifierContextType,
        NodeClassifierContextType,
        uintp,
        uintp,
        SplitClassifierType,
        uint64[::1],
''')]),
("best_split_all_vs_key", [(S, '''            for mod in range(n_classes):
                idx_sort = np.argsort(y_sum_positives[:, mod])
                bins_train[:] = non_empty_bins_train[idx_sort]
''', '''            for mod in range(n_classes):
                class_proportions = y_sum_positives[:, mod]
                bins_train[:] = non_empty_bins_train[np.argsort(class_proportions)]
''')]),
("best_split_row_sums", [(S, '''        y_sum_positives /= np.expand_dims(y_sum_positives.sum(axis=1), axis=1)
''', '''        totals = y_sum_positives.sum(axis=1)
        y_sum_positives /= totals.reshape((-1, 1))
''')]),
("reset_split_order", [(S, '''    split.n_samples_train_left = 0
    split.w_samples_train_left = 0.0
    split.n_samples_train_right = 0
    split.w_samples_train_right = 0.0
    split.n_samples_valid_left = 0
    split.n_samples_valid_right = 0
    split.w_samples_valid_left = 0.0
    split.w_samples_valid_right = 0.0
''', '''    split.n_samples_train_left = split.n_samples_train_right = 0
    split.n_samples_valid_left = split.n_samples_valid_right = 0
    split.w_samples_train_left = split.w_samples_train_right = 0.0
    split.w_samples_valid_left = split.w_samples_valid_right = 0.0
''')]),
("reset_split_fill", [(S, '''    split.bins[:] = 0
''', '''    split.bins.fill(0)
''')]),
("childs_impurity_else", [(S, '''    if criterion == CRITERIA_GINI:
        return gini_childs(
            n_classes,
            w_samples_train_left,
            w_samples_train_right,
            y_sum_left,
            y_sum_right,
        )
    else:  # criterion == CRITERIA_ENTROPY:
        return entropy_childs(
            n_classes,
            w_samples_train_left,
            w_samples_train_right,
            y_sum_left,
            y_sum_right,
        )
''', '''    if criterion != CRITERIA_GINI:
        return entropy_childs(
            n_classes,
            w_samples_train_left,
            w_samples_train_right,
            y_sum_left,
            y_sum_right,
        )
    return gini_childs(
        n_classes,
        w_samples_train_left,
        w_samples_train_right,
        y_sum_left,
        y_sum_right,
    )
''')]),
("push_record_grow_helper", [(G, '''    if records.top >= records.capacity:
        records.capacity *= 2
        records.stack = resize(records.stack, records.capacity)

    stack_top = records.stack[records.top]
''', '''    top = records.top
    if top >= records.capacity:
        new_capacity = 2 * records.capacity
        records.stack = resize(records.stack, new_capacity)
        records.capacity = new_capacity

    stack_top = records.stack[top]
''')]),
("pop_record_names", [(G, '''    records.top -= 1
    stack_top = records.stack[records.top]
    return (
        stack_top["parent"],
        stack_top["depth"],
        stack_top["is_left"],
''', '''    top = records.top - 1
    stack_top = records.stack[top]
    records.top = top
    return (
        stack_top["parent"],
        stack_top["depth"],
        stack_top["is_left"],
''')]),
("grow_while_top", [(G, '''    while has_records(records):
        (
''', '''    while records.top > 0:
        (
''')]),
("grow_is_leaf_merged", [(G, '''        if aggregation:
            is_leaf = (node_context.n_samples_train < min_samples_split) or (
                node_context.n_samples_valid < min_samples_split
            )
        else:
            is_leaf = node_context.n_samples_train < min_samples_split
''', '''        is_leaf = node_context.n_samples_train < min_samples_split
        if aggregation:
            is_leaf = is_leaf or node_context.n_samples_valid < min_samples_split
''')]),
("grow_depth_first", [(G, '''        is_leaf = is_leaf or (impurity <= min_impurity_split) or depth >= tree_context.max_depth
''', '''        too_deep = depth >= tree_context.max_depth
        pure = impurity <= min_impurity_split
        is_leaf = too_deep or pure or is_leaf
''')]),
("grow_child_depth", [(G, '''            push_record(
                records,
                node_id,
                depth + 1,
                True,
''', '''            child_depth = depth + 1
            push_record(
                records,
                node_id,
                child_depth,
                True,
'''), (G, '''            push_record(
                records,
                node_id,
                depth + 1,
                False,
''', '''            push_record(
                records,
                node_id,
                child_depth,
                False,
''')]),
("grow_weights_inline_args", [(G, '''    step = tree_context.step

    node_count = tree.node_count

    if aggregation:
        compute_tree_weights(tree.nodes, node_count, step)
''', '''    if tree_context.aggregation:
        compute_tree_weights(tree.nodes, tree.node_count, tree_context.step)
''')]),
("grow_not_leaf_first", [(G, '''        if is_leaf:
            bin = 0
            feature = 0
            found_split = False
            is_split_categorical = False
            bin_partition = None
            bin_partition_size = 0
        else:
''', '''        bin = 0
        feature = 0
        found_split = False
        is_split_categorical = False
        bin_partition = None
        bin_partition_size = 0
        if not is_leaf:
''')]),
("tree_weights_loss_once", [(G, '''        node = nodes[node_idx]
        if node["is_leaf"]:
            # If the node is a leaf, the logarithm of its tree weight is simply
            #   step * loss
            node["log_weight_tree"] = -step * node["loss_valid"]
        else:
            # If the node is not a leaf, then we apply context tree weighting
            loss = -step * node["loss_valid"]
''', '''        node = nodes[node_idx]
        loss = -step * node["loss_valid"]
        if node["is_leaf"]:
            node["log_weight_tree"] = loss
        else:
''')]),
("recompute_weight_names", [(G, '''        for k in range(n_classes):
            y_pred[k] = (y_pred[k] + dirichlet) / (
                w_samples_train + n_classes * dirichlet
            )
''', '''        denominator = w_samples_train + dirichlet * n_classes
        for k in range(n_classes):
            y_pred[k] = (dirichlet + y_pred[k]) / denominator
''')]),
("recompute_range_nodes", [(G, '''    for node_idx, node in enumerate(nodes[: tree.node_count]):
        w_samples_train = 0.0
''', '''    for node_idx in range(tree.node_count):
        node = nodes[node_idx]
        w_samples_train = 0.0
''')]),
("recompute_loss_sign", [(G, '''            loss_valid -= sample_weight * log(y_pred[label])

        node["loss_valid"] = loss_valid
''', '''            loss_valid += sample_weight * log(y_pred[label])

        node["loss_valid"] = -loss_valid
''')]),
]
