"""More behaviour-preserving edits (see refactorings.py)."""
W = "wildwood/"
S, G, N, T, F, TR = W + "_split.py", W + "_grow.py", W + "_node.py", W + "_tree.py", W + "forest.py", W + "tree.py"
E, B, C, A = (W + "preprocessing/" + x for x in ("encoder.py", "_binning.py", "_checks.py", "features_bitarray.py"))
I, U, TC = W + "_impurity.py", W + "_utils.py", W + "_tree_context.py"
JIT = "@jit(nopython=NOPYTHON, nogil=NOGIL, boundscheck=BOUNDSCHECK, fastmath=FASTMATH)\n"
RF = [
("gini_node_numpy_free", [(I, """    y_sum_sq = 0.0
    w_samples_sq = w_samples * w_samples
    for k in range(n_classes):
        y_sum_sq += y_sum[k] * y_sum[k]
""", """    w_samples_sq = w_samples * w_samples
    y_sum_sq = 0.0
    for k in range(n_classes):
        y_sum_k = y_sum[k]
        y_sum_sq += y_sum_k * y_sum_k
""")]),
("gini_node_while", [(I, """    for k in range(n_classes):
        y_sum_sq += y_sum[k] * y_sum[k]
""", """    k = 0
    while k < n_classes:
        y_sum_sq += y_sum[k] ** 2
        k += 1
""")]),
("gini_childs_two_calls", [(I, """    y_sum_left_sq = 0.0
    y_sum_right_sq = 0.0
    w_samples_left_sq = w_samples_left * w_samples_left
    w_samples_right_sq = w_samples_right * w_samples_right
    for k in range(n_classes):
        y_sum_left_sq += y_sum_left[k] * y_sum_left[k]
        y_sum_right_sq += y_sum_right[k] * y_sum_right[k]

    gini_left = 1.0 - y_sum_left_sq / w_samples_left_sq
    gini_right = 1.0 - y_sum_right_sq / w_samples_right_sq
    return gini_left, gini_right
""", """    return (
        gini_node(n_classes, w_samples_left, y_sum_left),
        gini_node(n_classes, w_samples_right, y_sum_right),
    )
""")]),
("entropy_childs_two_loops", [(I, """    for k in range(n_classes):
        y_sum_left_k = y_sum_left[k]
        y_sum_right_k = y_sum_right[k]
        if y_sum_left_k > 0.0:
            y_sum_left_k /= w_samples_left
            entropy_left -= y_sum_left_k * np.log(y_sum_left_k)
        if y_sum_right_k > 0.0:
            y_sum_right_k /= w_samples_right
            entropy_right -= y_sum_right_k * np.log(y_sum_right_k)
""", """    for k in range(n_classes):
        y_sum_left_k = y_sum_left[k]
        if y_sum_left_k > 0.0:
            y_sum_left_k /= w_samples_left
            entropy_left -= y_sum_left_k * np.log(y_sum_left_k)
    for k in range(n_classes):
        y_sum_right_k = y_sum_right[k]
        if y_sum_right_k > 0.0:
            y_sum_right_k /= w_samples_right
            entropy_right -= y_sum_right_k * np.log(y_sum_right_k)
""")]),
("entropy_node_continue", [(I, """        y_sum_k = y_sum[k]
        if y_sum_k > 0.0:
            y_sum_k /= w_samples
            entropy -= y_sum_k * np.log(y_sum_k)
""", """        if y_sum[k] <= 0.0:
            continue
        p_k = y_sum[k] / w_samples
        entropy -= p_k * np.log(p_k)
""")]),
("mse_node_names", [(I, """    return y_sq_sum / w_samples - (y_sum / w_samples) ** 2
""", """    y_mean = y_sum / w_samples
    y_sq_mean = y_sq_sum / w_samples
    return y_sq_mean - y_mean * y_mean
""")]),
("information_gain_names", [(I, """    return (w_samples_parent / w_samples) * (
        impurity_parent
        - (w_samples_right / w_samples_parent * impurity_right)
        - (w_samples_left / w_samples_parent * impurity_left)
    )
""", """    ratio_left = w_samples_left / w_samples_parent
    ratio_right = w_samples_right / w_samples_parent
    decrease = impurity_parent - ratio_right * impurity_right - ratio_left * impurity_left
    return (w_samples_parent / w_samples) * decrease
""")]),
("proxy_negated_sum", [(I, """    return -w_samples_left * impurity_left - w_samples_right * impurity_right
""", """    return -(w_samples_left * impurity_left + w_samples_right * impurity_right)
""")]),
("log_sum_minmax", [(U, """    if a > b:
        return a + log((1 + exp(b - a)) / 2)
    else:
        return b + log((1 + exp(a - b)) / 2)
""", """    if a > b:
        largest, smallest = a, b
    else:
        largest, smallest = b, a
    return largest + log((1 + exp(smallest - largest)) / 2)
""")]),
("resize_shape_tuple", [(U, """        if zeros:
            new = np.zeros((new_size, d1), a.dtype)
        else:
            new = np.empty((new_size, d1), a.dtype)
        new[:d0, :] = a
        return new
""", """        new_shape = (new_size, d1)
        new = np.zeros(new_shape, a.dtype) if zeros else np.empty(new_shape, a.dtype)
        new[:d0] = a
        return new
""")]),
("swr_last", [(U, """        j = randint(population_size - i)
        out[i] = pool[j]
""", """        n_remaining = population_size - i
        j = randint(n_remaining)
        out[i] = pool[j]
""")]),
("swr_enumerate_pool", [(U, """    n_samples = out.shape[0]
    population_size = pool.shape[0]
""", """    n_samples = out.size
    population_size = len(pool)
""")]),
("context_reordered", [(TC, """    tree_context.partition_train = train_indices.copy()
    tree_context.partition_valid = valid_indices.copy()
""", """    tree_context.partition_valid = valid_indices.copy()
    tree_context.partition_train = train_indices.copy()
""")]),
("context_no_local", [(TC, """    max_n_bins = features_bitarray.max_values.max() + 1
    tree_context.max_n_bins = max_n_bins
""", """    tree_context.max_n_bins = np.max(features_bitarray.max_values) + 1
""")]),
("context_sizes", [(TC, """    tree_context.n_samples_train = train_indices.shape[0]
    tree_context.n_samples_valid = valid_indices.shape[0]
""", """    tree_context.n_samples_train = train_indices.size
    tree_context.n_samples_valid = len(valid_indices)
""")]),
("add_node_early_alloc", [(T, """    nodes = tree.nodes
    node = nodes[node_idx]
    node["node_id"] = node_idx
    node["parent"] = parent
    node["depth"] = depth
""", """    nodes = tree.nodes
    node = tree.nodes[node_idx]
    node["depth"] = depth
    node["parent"] = parent
    node["node_id"] = node_idx
""")]),
("add_node_else_first", [(T, """    if is_leaf:
        node["left_child"] = TREE_LEAF
        node["right_child"] = TREE_LEAF
        node["feature"] = TREE_UNDEFINED
        node["threshold"] = TREE_UNDEFINED
        node["bin_threshold"] = TREE_UNDEFINED
    else:
        node["feature"] = feature
        node["threshold"] = threshold
        node["bin_threshold"] = bin_threshold
""", """    if not is_leaf:
        node["feature"] = feature
        node["threshold"] = threshold
        node["bin_threshold"] = bin_threshold
    else:
        node["left_child"] = node["right_child"] = TREE_LEAF
        node["feature"] = node["threshold"] = node["bin_threshold"] = TREE_UNDEFINED
""")]),
("add_node_parent_helper", [(T, """    if parent != TREE_UNDEFINED:
        if is_left:
            nodes[parent]["left_child"] = node_idx
        else:
            nodes[parent]["right_child"] = node_idx
""", """    if parent != TREE_UNDEFINED:
        parent_node = nodes[parent]
        if is_left:
            parent_node["left_child"] = node_idx
        else:
            parent_node["right_child"] = node_idx
""")]),
("add_node_defaults_first", [(T, """    if is_split_categorical and bin_partition_size > 0:
        bin_partition_start = tree.bin_partitions_end
        bin_partition_end = bin_partition_start + bin_partition_size
        if bin_partition_end > tree.bin_partitions_capacity:
            resize_tree_bin_partitions(tree, bin_partition_end+1)
        tree.bin_partitions[bin_partition_start:bin_partition_end] = bin_partition[
            :bin_partition_size
        ]
        node["bin_partition_start"] = bin_partition_start
        node["bin_partition_end"] = bin_partition_end
        tree.bin_partitions_end = bin_partition_end
    else:
        node["bin_partition_start"] = 0
        node["bin_partition_end"] = 0
""", """    start, end = 0, 0
    if is_split_categorical and bin_partition_size > 0:
        start = tree.bin_partitions_end
        end = start + bin_partition_size
        if end > tree.bin_partitions_capacity:
            resize_tree_bin_partitions(tree, end + 1)
        tree.bin_partitions[start:end] = bin_partition[:bin_partition_size]
        tree.bin_partitions_end = end
    node["bin_partition_start"] = start
    node["bin_partition_end"] = end
""")]),
("add_node_node_count", [(T, """    tree.node_count += 1
    return node_idx
""", """    tree.node_count = node_idx + 1
    return node_idx
""")]),
("resize_tree_new_capacity", [(T, """    if capacity is None:
        if tree.capacity == 0:
            # default initial value to 3
            resize_tree_(tree, 3)
        else:
            # otherwise, double the previous capacity
            resize_tree_(tree, 2 * tree.capacity)
    else:
        if capacity <= tree.capacity and tree.nodes.size > 0:
            return
        else:
            resize_tree_(tree, capacity)
""", """    if capacity is None:
        new_capacity = 3 if tree.capacity == 0 else 2 * tree.capacity
        resize_tree_(tree, new_capacity)
        return
    if tree.nodes.size == 0 or capacity > tree.capacity:
        resize_tree_(tree, capacity)
""")]),
("find_leaf_go_left", [(T, """        if node["is_split_categorical"]:
            bin_partition_start = node["bin_partition_start"]
            bin_partition_end = node["bin_partition_end"]
            bin_partition = bin_partitions[bin_partition_start:bin_partition_end]
            if is_bin_in_partition(xi_f, bin_partition):
                leaf_idx = node["left_child"]
            else:
                leaf_idx = node["right_child"]
        else:
            if xi_f <= node["bin_threshold"]:
                leaf_idx = node["left_child"]
            else:
                leaf_idx = node["right_child"]
""", """        if node["is_split_categorical"]:
            bin_partition = bin_partitions[
                node["bin_partition_start"] : node["bin_partition_end"]
            ]
            go_left = is_bin_in_partition(xi_f, bin_partition)
        else:
            go_left = xi_f <= node["bin_threshold"]
        leaf_idx = node["left_child"] if go_left else node["right_child"]
""")]),
("find_leaf_while_true", [(T, """    leaf_idx = 0
    nodes = tree.nodes
    node = nodes[leaf_idx]
    bin_partitions = tree.bin_partitions
    while not node["is_leaf"]:
        xi_f = get_value(""", """    leaf_idx = 0
    nodes = tree.nodes
    bin_partitions = tree.bin_partitions
    while True:
        node = nodes[leaf_idx]
        if node["is_leaf"]:
            break
        xi_f = get_value("""), (T, """            else:
                leaf_idx = node["right_child"]
        node = nodes[leaf_idx]
    return leaf_idx
""", """            else:
                leaf_idx = node["right_child"]
    return leaf_idx
""")]),
("apply_direct", [(T, """        idx_leaf = find_leaf(tree, features_bitarray, i)
        out[i] = idx_leaf
""", """        out[i] = find_leaf(tree, features_bitarray, i)
""")]),
("regressor_predict_loop", [(T, """        idx_current = find_leaf(tree, features_bitarray, i)
        pred_i = y_pred[idx_current]
        if aggregation:
            while idx_current != 0:
                # Get the parent
                idx_current = nodes[idx_current]["parent"]
                node = nodes[idx_current]
                node_pred = y_pred[idx_current]
                loss = -step * node["loss_valid"]
                log_weight_tree = node["log_weight_tree"]
                alpha = 0.5 * exp(loss - log_weight_tree)
                pred_i = alpha * node_pred + (1 - alpha) * pred_i
""", """        leaf = find_leaf(tree, features_bitarray, i)
        pred_i = y_pred[leaf]
        if aggregation:
            current = leaf
            while current != 0:
                current = nodes[current]["parent"]
                alpha = 0.5 * exp(
                    -step * nodes[current]["loss_valid"]
                    - nodes[current]["log_weight_tree"]
                )
                pred_i = alpha * y_pred[current] + (1 - alpha) * pred_i
""")]),
("proba_not_aggregation", [(T, """        pred_i = out[i]
        pred_i[:] = y_pred[idx_current]
        if aggregation:
            while idx_current != 0:
""", """        pred_i = out[i]
        pred_i[:] = y_pred[idx_current]
        if not aggregation:
            continue
        if True:
            while idx_current != 0:
""")]),
("proba_prediction_helper", [(T, """                loss = -step * node["loss_valid"]
                log_weight_tree = node["log_weight_tree"]
                alpha = 0.5 * exp(loss - log_weight_tree)
                pred_i[:] = alpha * node_pred + (1 - alpha) * pred_i
""", """                alpha = _node_alpha(node, step)
                pred_i[:] = alpha * node_pred + (1 - alpha) * pred_i
"""), (T, "@@append", """

""" + JIT + """def _node_alpha(node, step):
    loss = -step * node["loss_valid"]
    return 0.5 * exp(loss - node["log_weight_tree"])
""")]),
("path_leaf_comprehension", [(T, """    paths = []
    for xi in X:
        path = sample_path_leaf(tree, xi)
        paths.append(path)
    return paths
""", """    return [sample_path_leaf(tree, xi) for xi in X]
""")]),
("get_nodes_slice", [(T, """    for node in nodes[: tree.node_count]:
        is_split_categorical = node["is_split_categorical"]
        bin_partition_start = node["bin_partition_start"]
        bin_partition_end = node["bin_partition_end"]
        bin_threshold = node["bin_threshold"]
        if is_split_categorical:
""", """    for idx in range(tree.node_count):
        node = nodes[idx]
        is_split_categorical = node["is_split_categorical"]
        bin_partition_start = node["bin_partition_start"]
        bin_partition_end = node["bin_partition_end"]
        bin_threshold = node["bin_threshold"]
        if is_split_categorical:
""")]),
("scores_comprehension", [(T, """    col_scores = []
    for scores in y_pred:
        col_scores.append(np.array2string(scores, precision=2))
    nodes["y_pred"] = col_scores
""", """    nodes["y_pred"] = [np.array2string(scores, precision=2) for scores in y_pred]
""")]),
("weighted_depth_names", [(T, """            depth_new = node["depth"]
            loss = -step * node["loss_valid"]
            log_weight_tree = node["log_weight_tree"]
            alpha = 0.5 * exp(loss - log_weight_tree)
            weighted_depth = alpha * depth_new + (1 - alpha) * weighted_depth
""", """            alpha = 0.5 * exp(-step * node["loss_valid"] - node["log_weight_tree"])
            weighted_depth = (1 - alpha) * weighted_depth + alpha * node["depth"]
""")]),
]
