"""Behaviour-preserving edits on which every check must stay quiet (used by tools/quiet.py).
Each entry: name, [(file, old text, new text), ...]"""
W = "wildwood/"
S, G, N, T, F, TR = W + "_split.py", W + "_grow.py", W + "_node.py", W + "_tree.py", W + "forest.py", W + "tree.py"
E, B, C, A = (W + "preprocessing/" + x for x in ("encoder.py", "_binning.py", "_checks.py", "features_bitarray.py"))
JIT = "@jit(nopython=NOPYTHON, nogil=NOGIL, boundscheck=BOUNDSCHECK, fastmath=FASTMATH)\n"
DEFS = {}
RF = [
("split_side_helper", [(S, '''            if is_bin_in_partition(bin, bin_partition):
                left_buffer[n_samples_train_left] = i
                n_samples_train_left += 1
            else:
                right_buffer[n_samples_train_right] = i
                n_samples_train_right += 1
    else:
        for i in partition_train[start_train:end_train]:
            bin = get_value_from_column(i, bitarray, bitmask, n_values_in_word, n_bits)
            if bin <= bin_threshold:
''', '''            goes_left = is_bin_in_partition(bin, bin_partition)
            if goes_left:
                left_buffer[n_samples_train_left] = i
                n_samples_train_left += 1
            else:
                right_buffer[n_samples_train_right] = i
                n_samples_train_right += 1
    else:
        for i in partition_train[start_train:end_train]:
            bin = get_value_from_column(i, bitarray, bitmask, n_values_in_word, n_bits)
            if not bin > bin_threshold:
''')]),
("split_indices_partition_helper", [(S, '''    n_samples_valid_left = 0
    n_samples_valid_right = 0
    if split.is_split_categorical:
        for i in partition_valid[start_valid:end_valid]:
            bin = get_value_from_column(i, bitarray, bitmask, n_values_in_word, n_bits)
            if is_bin_in_partition(bin, bin_partition):
                left_buffer[n_samples_valid_left] = i
                n_samples_valid_left += 1
            else:
                right_buffer[n_samples_valid_right] = i
                n_samples_valid_right += 1
    else:
        for i in partition_valid[start_valid:end_valid]:
            bin = get_value_from_column(i, bitarray, bitmask, n_values_in_word, n_bits)
            if bin <= bin_threshold:
                left_buffer[n_samples_valid_left] = i
                n_samples_valid_left += 1
            else:
                right_buffer[n_samples_valid_right] = i
                n_samples_valid_right += 1
''', '''    n_samples_valid_left = 0
    n_samples_valid_right = 0
    is_cat = split.is_split_categorical
    for i in partition_valid[start_valid:end_valid]:
        bin = get_value_from_column(i, bitarray, bitmask, n_values_in_word, n_bits)
        if is_cat:
            to_left = is_bin_in_partition(bin, bin_partition)
        else:
            to_left = bin <= bin_threshold
        if to_left:
            left_buffer[n_samples_valid_left] = i
            n_samples_valid_left += 1
        else:
            right_buffer[n_samples_valid_right] = i
            n_samples_valid_right += 1
''')]),
("split_indices_extract_loop", [(S, '''@jit(
    [
        Tuple((uintp, uintp))(
            TreeClassifierContextType, SplitClassifierType, uintp, uintp, uintp, uintp
''', JIT + '''def _partition_rows(rows, start, end, categorical, bin_threshold, bin_partition, bitarray,
                    bitmask, n_values_in_word, n_bits, left_buffer, right_buffer):
    n_left = 0
    n_right = 0
    for k in range(start, end):
        i = rows[k]
        b = get_value_from_column(i, bitarray, bitmask, n_values_in_word, n_bits)
        if categorical:
            left = is_bin_in_partition(b, bin_partition)
        else:
            left = b <= bin_threshold
        if left:
            left_buffer[n_left] = i
            n_left += 1
        else:
            right_buffer[n_right] = i
            n_right += 1
    pos = start + n_left
    rows[start:pos] = left_buffer[:n_left]
    rows[pos:end] = right_buffer[:n_right]
    return pos


@jit(
    [
        Tuple((uintp, uintp))(
            TreeClassifierContextType, SplitClassifierType, uintp, uintp, uintp, uintp
'''), (S, '@@from\n    n_samples_train_left = 0\n    n_samples_train_right = 0\n    if split.is_split_categorical:', '''@@to_end
    pos_train = _partition_rows(
        partition_train, start_train, end_train, split.is_split_categorical, bin_threshold,
        bin_partition, bitarray, bitmask, n_values_in_word, n_bits, left_buffer, right_buffer)
    pos_valid = _partition_rows(
        partition_valid, start_valid, end_valid, split.is_split_categorical, bin_threshold,
        bin_partition, bitarray, bitmask, n_values_in_word, n_bits, left_buffer, right_buffer)
    return pos_train, pos_valid
''')]),
("bin_partition_for_loop", [(S, '''    while bin_ != bin_threshold:
        idx_bin += 1
        left_partition_size += 1
        bin_ = bins[idx_bin]
''', '''    while bins[left_partition_size - 1] != bin_threshold:
        left_partition_size += 1
''')]),
("bin_search_flat", [(S, '''            if bin_partition[middle] == bin_:
                return True
            else:
                if bin_partition[middle] < bin_:
                    left = middle + 1
                else:
                    right = middle - 1
''', '''            value = bin_partition[middle]
            if value == bin_:
                return True
            if value < bin_:
                left = middle + 1
            else:
                right = middle - 1
''')]),
("min_leaf_flags", [(S, '''        if (n_samples_train_left < min_samples_leaf) or (
            aggregation and (n_samples_valid_left < min_samples_leaf)
        ):
            continue

        # If the split would lead to less than min_samples_leaf training or less than
        #  min_samples_leaf validation samples in the right child, and since we go from
        #  left to right, no other future bin on the right would lead to an
        #  acceptable split, so we break the for loop over bins.
        if (n_samples_train_right < min_samples_leaf) or (
            aggregation and (n_samples_valid_right < min_samples_leaf)
        ):
            break

        # TODO: we shall pass the child impurity function as an argument to handle
        #  different impurities
        criterion = tree_context.criterion
        # Get the impurities of the left and right childs

        impurity_left, impurity_right = apply_childs_impurity_function_clf(
''', '''        left_too_small = n_samples_train_left < min_samples_leaf
        if aggregation and n_samples_valid_left < min_samples_leaf:
            left_too_small = True
        if left_too_small:
            continue

        right_too_small = n_samples_train_right < min_samples_leaf
        if aggregation:
            right_too_small = right_too_small or n_samples_valid_right < min_samples_leaf
        if right_too_small:
            break

        impurity_left, impurity_right = apply_childs_impurity_function_clf(
'''), (S, '''            w_samples_train_left,
            w_samples_train_right,
            y_sum_left,
            y_sum_right,
        )

        # And compute the information gain proxy
        gain_proxy = information_gain_proxy(
            impurity_left, impurity_right, w_samples_train_left, w_samples_train_right
        )

        if gain_proxy > best_split.gain_proxy:
            # We've found a split better than the current one, so we save it
            best_split.found_split = True
            best_split.gain_proxy = gain_proxy
            best_split.feature = feature
            best_split.bin_threshold = bin_threshold
            best_split.impurity_left = impurity_left
            best_split.impurity_right = impurity_right
            best_split.n_samples_train_left = n_samples_train_left
            best_split.n_samples_train_right = n_samples_train_right
            best_split.w_samples_train_left = w_samples_train_left
            best_split.w_samples_train_right = w_samples_train_right
            best_split.n_samples_valid_left = n_samples_valid_left
            best_split.n_samples_valid_right = n_samples_valid_right
            best_split.y_sum_left[:] = y_sum_left
            best_split.y_sum_right[:] = y_sum_right
''', '''            w_samples_train_left,
            w_samples_train_right,
            y_sum_left,
            y_sum_right,
        )

        # And compute the information gain proxy
        gain_proxy = information_gain_proxy(
            impurity_left, impurity_right, w_samples_train_left, w_samples_train_right
        )

        if gain_proxy > best_split.gain_proxy:
            best_split.y_sum_left[:] = y_sum_left
            best_split.y_sum_right[:] = y_sum_right
            best_split.feature = feature
            best_split.found_split = True
            best_split.gain_proxy = gain_proxy
            best_split.bin_threshold = bin_threshold
            best_split.impurity_left = impurity_left
            best_split.impurity_right = impurity_right
            best_split.n_samples_train_left = n_samples_train_left
            best_split.n_samples_train_right = n_samples_train_right
            best_split.w_samples_train_left = w_samples_train_left
            best_split.w_samples_train_right = w_samples_train_right
            best_split.n_samples_valid_left = n_samples_valid_left
            best_split.n_samples_valid_right = n_samples_valid_right
'''), (S, '''            w_samples_train_left,
            w_samples_train_right,
            y_sum_left,
            y_sum_right,
        )
''', '''            w_samples_train_left,
            w_samples_train_right,
            y_sum_left,
            y_sum_right,
        )
'''), (S, '''            criterion,
            n_classes,
            w_samples_train_left,''', '''            tree_context.criterion,
            n_classes,
            w_samples_train_left,''')]),
("cat_order_key_first", [(S, '''        elif cat_split_strategy == SPLIT_STRATEGY_BINARY:
            idx_sort = np.argsort(y_sum_positives[:, 1])
            bins_train[:] = non_empty_bins_train[idx_sort]
            try_feature_order_for_classifier_split(
                tree_context,
                node_context,
                feature,
                f,
                best_split,
                bins_train,
                cumsum_samples_valid_left,
            )
        else:
            # we have cat_split_strategy == SPLIT_STRATEGY_RANDOM
            idx_sort = np.argsort(y_sum_positives[:, np.random.randint(n_classes)])
            bins_train[:] = non_empty_bins_train[idx_sort]
''', '''        else:
            if cat_split_strategy == SPLIT_STRATEGY_BINARY:
                key = 1
            else:
                # we have cat_split_strategy == SPLIT_STRATEGY_RANDOM
                key = np.random.randint(n_classes)
            idx_sort = np.argsort(y_sum_positives[:, key])
            bins_train[:] = non_empty_bins_train[idx_sort]
''')]),
("valid_cumsum_helper", [(S, '''        idx_valid = 0

        if aggregation:
            bin_test = bins_valid[idx_valid]
            cum_valid_left = 0
            for bin_train in bins_train:
                while bin_test <= bin_train and idx_valid < bins_valid.size:
                    cum_valid_left += n_samples_valid_in_bins[bin_test]
                    idx_valid += 1
                    if idx_valid == bins_valid.size:
                        break
                    bin_test = bins_valid[idx_valid]
                cumsum_samples_valid_left[bin_train] = cum_valid_left

        try_feature_order_for_classifier_split(''', '''        if aggregation:
            _valid_counts_left(
                bins_train, bins_valid, n_samples_valid_in_bins, cumsum_samples_valid_left
            )

        try_feature_order_for_classifier_split('''), (S, '''@jit(
    void(
        TreeClassifierContextType,
        NodeClassifierContextType,
        uintp,
        uintp,
        SplitClassifierType,
    ),
''', JIT + '''def _valid_counts_left(bins_train, bins_valid, n_samples_valid_in_bins, out):
    idx_valid = 0
    bin_test = bins_valid[idx_valid]
    cum_valid_left = 0
    for bin_train in bins_train:
        while bin_test <= bin_train and idx_valid < bins_valid.size:
            cum_valid_left += n_samples_valid_in_bins[bin_test]
            idx_valid += 1
            if idx_valid == bins_valid.size:
                break
            bin_test = bins_valid[idx_valid]
        out[bin_train] = cum_valid_left


@jit(
    void(
        TreeClassifierContextType,
        NodeClassifierContextType,
        uintp,
        uintp,
        SplitClassifierType,
    ),
''')]),
("leaf_condition", [(G, '''        if aggregation:
            # When using aggregation, we don't split a node if it contains less than
            # min_samples_split training or validation samples
            is_leaf = (node_context.n_samples_train < min_samples_split) or (
                node_context.n_samples_valid < min_samples_split
            )
        else:
            # When not using aggregation, we don't split a node if it contains less
            # than min_samples_split training samples
            is_leaf = node_context.n_samples_train < min_samples_split

        # TODO: check that it's indeed the case
        # We don't split a node if it's pure: whenever its impurity computed on
        # training samples is less than min_impurity split
        min_impurity_split = 0.0
        is_leaf = is_leaf or (impurity <= min_impurity_split) or depth >= tree_context.max_depth
''', '''        is_leaf = depth >= tree_context.max_depth
        is_leaf = is_leaf or impurity <= 0.0
        is_leaf = is_leaf or node_context.n_samples_train < min_samples_split
        if aggregation and not is_leaf:
            is_leaf = node_context.n_samples_valid < min_samples_split
''')]),
("leaf_condition_helper", [(G, '''        if aggregation:
            # When using aggregation, we don't split a node if it contains less than
            # min_samples_split training or validation samples
            is_leaf = (node_context.n_samples_train < min_samples_split) or (
                node_context.n_samples_valid < min_samples_split
            )
        else:
            # When not using aggregation, we don't split a node if it contains less
            # than min_samples_split training samples
            is_leaf = node_context.n_samples_train < min_samples_split
''', '''        is_leaf = _too_few(
            aggregation, node_context.n_samples_train, node_context.n_samples_valid,
            min_samples_split)
'''), (G, '''# TODO: we do not compute the correct information gain of the root node, but it's
#  useless
''', JIT + '''def _too_few(aggregation, n_train, n_valid, minimum):
    if n_train < minimum:
        return True
    return aggregation and n_valid < minimum


# TODO: we do not compute the correct information gain of the root node, but it's
#  useless
''')]),
("grow_children_loop_helper", [(G, '''            # This adds the left child
            push_record(
                # The stack containing the node records
                records,
                # The parent is the previous node_id
                node_id,
                # depth is increased by one
                depth + 1,
                # This is a left child (is_left=True)
                True,
                # Impurities of the childs are kept in the split information
                best_split.impurity_left,
                # start_train of the left child is the same as the parent's
                start_train,
                # end_train of the left child is at the split's position
                pos_train,
                # start_valid of the left child is the same as the parent's
                start_valid,
                # end_valid of the left child is as the split's position
                pos_valid,
            )
''', '''            child_depth = depth + 1
            impurity_left, impurity_right = best_split.impurity_left, best_split.impurity_right
            push_record(
                records, node_id, child_depth, True, impurity_left,
                start_train, pos_train, start_valid, pos_valid,
            )
'''), (G, '''                depth + 1,
                # This is a right child (is_left=False)
                False,
                # Impurities of the childs are kept in the split information
                best_split.impurity_right,
''', '''                child_depth,
                # This is a right child (is_left=False)
                False,
                # Impurities of the childs are kept in the split information
                impurity_right,
''')]),
("tree_weights_ternary", [(G, '''        if node["is_leaf"]:
            # If the node is a leaf, the logarithm of its tree weight is simply
            #   step * loss
            node["log_weight_tree"] = -step * node["loss_valid"]
        else:
            # If the node is not a leaf, then we apply context tree weighting
            loss = -step * node["loss_valid"]
''', '''        loss = -step * node["loss_valid"]
        if node["is_leaf"]:
            node["log_weight_tree"] = loss
        else:
''')]),
("tree_weights_while", [(G, '''    for node_idx in range(node_count - 1, -1, -1):
        node = nodes[node_idx]
        if node["is_leaf"]:''', '''    for k in range(node_count):
        node_idx = node_count - 1 - k
        node = nodes[node_idx]
        if node["is_leaf"]:''')]),
("recompute_vector", [(G, '''        for sample in train_indices:
            label = uintp(y[sample])
            sample_weight = sample_weights[sample]
            w_samples_train += sample_weight
            y_pred[label] += sample_weight

        for k in range(n_classes):
            y_pred[k] = (y_pred[k] + dirichlet) / (
                w_samples_train + n_classes * dirichlet
            )
''', '''        for sample in train_indices:
            sample_weight = sample_weights[sample]
            y_pred[uintp(y[sample])] += sample_weight
            w_samples_train += sample_weight

        denominator = w_samples_train + n_classes * dirichlet
        for k in range(n_classes):
            numerator = y_pred[k] + dirichlet
            y_pred[k] = numerator / denominator
''')]),
("recompute_split_in_two", [(G, '''        # recompute valid_losses
        valid_indices = partition_valid[node["start_valid"] : node["end_valid"]]
        loss_valid = 0.0
        w_samples_valid = 0.0

        for sample in valid_indices:
            sample_weight = sample_weights[sample]
            w_samples_valid += sample_weight
            label = uintp(y[sample])
            # TODO: aggregation loss is hard-coded here. Call a function instead
            #  when implementing other losses
            loss_valid -= sample_weight * log(y_pred[label])

        node["loss_valid"] = loss_valid
''', '''        node["loss_valid"] = _log_loss(
            partition_valid[node["start_valid"] : node["end_valid"]], y, sample_weights, y_pred
        )
'''), (G, '''@jit(
    void(TreeClassifierType, TreeClassifierContextType, float32),
''', JIT + '''def _log_loss(indices, y, sample_weights, y_pred):
    loss = 0.0
    for sample in indices:
        loss += -sample_weights[sample] * log(y_pred[uintp(y[sample])])
    return loss


@jit(
    void(TreeClassifierType, TreeClassifierContextType, float32),
''')]),
("node_init_helper", [(N, '''    n_samples_train_in_bins.fill(0)
    n_samples_valid_in_bins.fill(0)
    w_samples_train_in_bins.fill(0.0)
    w_samples_valid_in_bins.fill(0.0)
    non_empty_bins_train.fill(0)
    non_empty_bins_train_count.fill(0)
    non_empty_bins_valid.fill(0)
    non_empty_bins_valid_count.fill(0)
    y_sum.fill(0.0)
    y_pred.fill(0.0)
''', '''    _clear_counts(node_context)
    y_sum[:] = 0.0
    y_pred[:] = 0.0
'''), (N, '''@jit(
    void(
        TreeClassifierContextType, NodeClassifierContextType, uintp, uintp, uintp, uintp
    ),
''', JIT + '''def _clear_counts(node_context):
    node_context.n_samples_train_in_bins.fill(0)
    node_context.n_samples_valid_in_bins.fill(0)
    node_context.w_samples_train_in_bins.fill(0.0)
    node_context.w_samples_valid_in_bins.fill(0.0)
    node_context.non_empty_bins_train.fill(0)
    node_context.non_empty_bins_train_count.fill(0)
    node_context.non_empty_bins_valid.fill(0)
    node_context.non_empty_bins_valid_count.fill(0)


@jit(
    void(
        TreeClassifierContextType, NodeClassifierContextType, uintp, uintp, uintp, uintp
    ),
''')]),
("node_enumerate", [(N, '''    # A counter for the features
    f = 0
    # The validation loss
    loss_valid = 0.0

    # TODO: unrolling the for loop could be faster
    # For-loop on features first and then samples (the bitarray is F-major)
    for j in features:
''', '''    # The validation loss
    loss_valid = 0.0

    for f, j in enumerate(features):
'''), (N, '''                n_samples_valid_in_bins[f, bin] += 1
                w_samples_valid_in_bins[f, bin] += sample_weight

        f += 1

    # Save remaining things in the node context
    node_context.n_samples_train = end_train - start_train
''', '''                n_samples_valid_in_bins[f, bin] += 1
                w_samples_valid_in_bins[f, bin] += sample_weight

    # Save remaining things in the node context
    node_context.n_samples_train = end_train - start_train
''')]),
("node_range_loop", [(N, '''    for j in features:
        n_values_in_word = n_values_in_words[j]
''', '''    for idx in range(features.shape[0]):
        j = features[idx]
        n_values_in_word = n_values_in_words[j]
''')]),
("node_residual", [(N, '''                    label = y[i]
                    # TODO: aggregation loss is hard-coded here. Call a function instead
                    #  when implementing other losses
                    loss_valid += sample_weight * (label - y_pred) * (label - y_pred)
''', '''                    residual = y[i] - y_pred
                    loss_valid += sample_weight * residual * residual
''')]),
("node_residual_pow", [(N, '''                    label = y[i]
                    # TODO: aggregation loss is hard-coded here. Call a function instead
                    #  when implementing other losses
                    loss_valid += sample_weight * (label - y_pred) * (label - y_pred)
''', '''                    label = y[i]
                    loss_valid += sample_weight * (y_pred - label) ** 2
''')]),
("first_feature_flag", [(N, '''            sample_weight = sample_weights[i]
            if f == 0:
                w_samples_train += sample_weight
                y_pred[label] += sample_weight

            if n_samples_train_in_bins[f, bin] == 0:
                # It's the first time we find a train sample for this (feature, bin)
                # We save the bin number at index non_empty_bins_train_count[f]
                non_empty_bins_train[f, non_empty_bins_train_count[f]] = bin
                # We increase the count of non-empty bins for this feature
                non_empty_bins_train_count[f] += 1
''', '''            sample_weight = sample_weights[i]
            is_first_feature = f == 0
            is_new_bin = n_samples_train_in_bins[f, bin] == 0
            if is_first_feature:
                y_pred[label] += sample_weight
                w_samples_train += sample_weight

            if is_new_bin:
                position = non_empty_bins_train_count[f]
                non_empty_bins_train[f, position] = bin
                non_empty_bins_train_count[f] = position + 1
''')]),
("node_reg_two_phase", [(N, '''        # The prediction is simply the weighted average of labels
        if f == 0:
            y_pred /= w_samples_train
''', '''        # The prediction is simply the weighted average of labels
        if f == 0:
            y_pred = y_pred / w_samples_train
''')]),
("find_leaf_child_helper", [(T, '''            weighted_depth = alpha * depth_new + (1 - alpha) * weighted_depth
''', '''            weighted_depth += alpha * (depth_new - weighted_depth)
''')]),
("predict_mix_inline", [(T, '''                loss = -step * node["loss_valid"]
                log_weight_tree = node["log_weight_tree"]
                alpha = 0.5 * exp(loss - log_weight_tree)
                # Context tree weighting dark magic
                pred_i[:] =''', '''                alpha = exp(-step * node["loss_valid"] - node["log_weight_tree"]) / 2
                # Context tree weighting dark magic
                out[i, :] =''')]),
("predict_mix_helper", [(T, '''                loss = -step * node["loss_valid"]
                log_weight_tree = node["log_weight_tree"]
                alpha = 0.5 * exp(loss - log_weight_tree)
                # Context tree weighting dark magic
                pred_i[:] = alpha * node_pred''', '''                alpha = _mixing(node, step)
                # Context tree weighting dark magic
                pred_i[:] = alpha * node_pred'''), (T, '''            loss = -step * node["loss_valid"]
            log_weight_tree = node["log_weight_tree"]
            alpha = 0.5 * exp(loss - log_weight_tree)
            weighted''', '''            alpha = _mixing(node, step)
            weighted'''), (T, '''@jit(
    float32[:, ::1](TreeClassifierType, FeaturesBitArrayType, boolean, float32),
''', JIT + '''def _mixing(node, step):
    """weight of a node's own prediction"""
    return 0.5 * exp(-step * node["loss_valid"] - node["log_weight_tree"])


@jit(
    float32[:, ::1](TreeClassifierType, FeaturesBitArrayType, boolean, float32),
''')]),
("resize_tree_early", [(T, '''            # If no capacity is specified and there is no node in the tree yet,
            # we set it to 3
            resize_tree_(tree, 3)
        else:
            # If no capacity is specified we double the current capacity
            resize_tree_(tree, 2 * tree.capacity)
    else:
        if capacity <= tree.capacity and tree.nodes.size > 0:
            # If the capacity of the tree is already large enough, we no nothing
            return
        else:
            # Otherwise, we resize using the specified capacity
            resize_tree_(tree, capacity)
''', '''            new_capacity = 3
        else:
            new_capacity = tree.capacity * 2
        resize_tree_(tree, new_capacity)
    elif capacity > tree.capacity or tree.nodes.size == 0:
        resize_tree_(tree, capacity)
''')]),
("add_node_link_helper", [(T, '''    if parent != TREE_UNDEFINED:
        if is_left:
            nodes[parent]["left_child"] = node_idx
        else:
            nodes[parent]["right_child"] = node_idx
''', '''    has_parent = parent != TREE_UNDEFINED
    if has_parent and is_left:
        nodes[parent]["left_child"] = node_idx
    if has_parent and not is_left:
        nodes[parent]["right_child"] = node_idx
''')]),
("add_node_partition", [(T, '''    if is_split_categorical and bin_partition_size > 0:
        bin_partition_start = tree.bin_partitions_end
        bin_partition_end = bin_partition_start + bin_partition_size
''', '''    if bin_partition_size > 0 and is_split_categorical:
        bin_partition_start = tree.bin_partitions_end
        bin_partition_end = bin_partition_size + tree.bin_partitions_end
''')]),
("bootstrap_early_return", [(F, '''    if valid_mask.sum() == 0:
        return _generate_train_valid_samples(
            (random_state + 1) % np.iinfo(np.uint32).max, n_samples
        )
    else:
        train_mask = np.logical_not(valid_mask)
        train_indices = indices[train_mask].astype(np.uintp)
        valid_indices = indices[valid_mask].astype(np.uintp)
        train_indices_count = sample_counts[train_mask].astype(np.uintp)
        return train_indices, valid_indices, train_indices_count
''', '''    if not valid_mask.any():
        next_seed = (random_state + 1) % np.iinfo(np.uint32).max
        return _generate_train_valid_samples(next_seed, n_samples)
    train_mask = ~valid_mask
    return (
        indices[train_mask].astype(np.uintp),
        indices[valid_mask].astype(np.uintp),
        sample_counts[train_mask].astype(np.uintp),
    )
''')]),
("max_features_flat", [(F, '''            if max_features == "auto":
                return max(1, int(np.sqrt(n_features)))
            elif max_features == "sqrt":
                return max(1, int(np.sqrt(n_features)))
            elif max_features == "log2":
                return max(1, int(np.log2(n_features)))
            else:
                raise ValueError(
                    "max_features can be either None, an integer "
                    "value, a float between 0 and 1 or 'sqrt', 'log2' or 'auto'"
                )
        elif max_features is None:
            return n_features
        elif isinstance(max_features, int):
            if max_features > n_features:
                raise ValueError("max_features must be <= n_features")
            else:
                return max_features
''', '''            if max_features in ("auto", "sqrt"):
                size = int(np.sqrt(n_features))
            elif max_features == "log2":
                size = int(np.log2(n_features))
            else:
                raise ValueError(
                    "max_features can be either None, an integer "
                    "value, a float between 0 and 1 or 'sqrt', 'log2' or 'auto'"
                )
            return max(size, 1)
        elif max_features is None:
            return n_features
        elif isinstance(max_features, int):
            if max_features <= n_features:
                return max_features
            raise ValueError("max_features must be <= n_features")
''')]),
("fit_merge_verbose_branches", [(F, '''        if self.verbose:
            with parallel_config(prefer="threads"):
                trees = Parallel(
                    n_jobs=self.n_jobs,
                    # **_joblib_parallel_args(prefer="threads"),
                )(
                    delayed(_parallel_build_trees)(
                        tree,
                        features_bitarray,
                        y if not ovr else y[tree_idx // n_estimators],
                        sample_weight_
                        if not ovr
                        else sample_weight_[tree_idx // n_estimators],
                        self._random_states_bootstrap[tree_idx],
                    )
                    for tree_idx, tree in enumerate(trees)
                )
        else:
            with parallel_config(prefer="threads"):
                trees = Parallel(
                    n_jobs=self.n_jobs,
                    # **_joblib_parallel_args(prefer="threads"),
                )(
                    delayed(_parallel_build_trees)(
                        tree,
                        features_bitarray,
                        y if not ovr else y[tree_idx // n_estimators],
                        sample_weight_
                        if not ovr
                        else sample_weight_[tree_idx // n_estimators],
                        self._random_states_bootstrap[tree_idx],
                    )
                    for tree_idx, tree in enumerate(trees)
                )
''', '''        with parallel_config(prefer="threads"):
            trees = Parallel(n_jobs=self.n_jobs)(
                delayed(_parallel_build_trees)(
                    tree,
                    features_bitarray,
                    y[tree_idx // n_estimators] if ovr else y,
                    sample_weight_[tree_idx // n_estimators] if ovr else sample_weight_,
                    self._random_states_bootstrap[tree_idx],
                )
                for tree_idx, tree in enumerate(trees)
            )
''')]),
("fit_common_kwargs", [(F, '''        if is_classifier:
            # We are training a classifier
            trees = [
                TreeClassifier(
                    # max_bins=self.max_bins,
                    n_classes=n_classes_per_tree,
                    criterion=criteria_mapping[self.criterion],
                    loss=self.loss,
                    step=self.step,
                    aggregation=self.aggregation,
                    dirichlet=self.dirichlet,
                    max_depth=max_depth_ if not randomized_depth else random_instance.randint(3, 51),
                    min_samples_split=self.min_samples_split,
                    min_samples_leaf=self.min_samples_leaf,
                    categorical_features=self.categorical_features,
                    # is_categorical=self.is_categorical_,
                    is_categorical=is_categorical_,
                    max_features=max_features_,
                    random_state=random_state,
''', '''        common = dict(
            criterion=criteria_mapping[self.criterion],
            loss=self.loss,
            step=self.step,
            aggregation=self.aggregation,
            min_samples_split=self.min_samples_split,
            min_samples_leaf=self.min_samples_leaf,
            categorical_features=self.categorical_features,
            is_categorical=is_categorical_,
            max_features=max_features_,
        )
        if is_classifier:
            # We are training a classifier
            trees = [
                TreeClassifier(
                    n_classes=n_classes_per_tree,
                    dirichlet=self.dirichlet,
                    max_depth=random_instance.randint(3, 51) if randomized_depth else max_depth_,
                    **common,
                    random_state=random_state,
''')]),
("accumulate_column", [(F, '''    with lock:
        if label_class_col is None:
            out += prediction
        else:
            out[:, label_class_col] += prediction[:, 1]
''', '''    if label_class_col is None:
        with lock:
            out += prediction
    else:
        positive = prediction[:, 1]
        with lock:
            out[:, label_class_col] += positive
''')]),
("predict_proba_normalise_helper", [(F, '''        if ovr:
            all_proba_sum = all_proba.sum(axis=1)
            mask = all_proba_sum <= eps
            all_proba[mask, :] = 1 / self.n_classes_
            all_proba[~mask, :] /= np.expand_dims(all_proba_sum[~mask], axis=1)
        else:
            all_proba /= len(self.trees)

        return all_proba
''', '''        if not ovr:
            return all_proba / len(self.trees)
        total = all_proba.sum(axis=1)
        empty = total <= eps
        all_proba[empty] = 1.0 / self.n_classes_
        all_proba[~empty] /= total[~empty][:, np.newaxis]
        return all_proba
''')]),
("fit_weights_helper", [(F, '''                if class_weight is not None:
                    sample_weight_ = [
                        np.ascontiguousarray(
                            sample_weight_ * compute_sample_weight(class_weight, yy),
                            dtype=np.float32,
                        )
                        for yy in y
                    ]
                else:
                    sample_weight_ = [sample_weight_] * n_classes
''', '''                if class_weight is None:
                    sample_weight_ = [sample_weight_ for _ in range(n_classes)]
                else:
                    weights = []
                    for yy in y:
                        w = sample_weight_ * compute_sample_weight(class_weight, yy)
                        weights.append(np.ascontiguousarray(w, dtype=np.float32))
                    sample_weight_ = weights
''')]),
("tree_fit_inline_vars", [(TR, '''        n_classes = self.n_classes
        random_state = self.random_state
        n_features = features_bitarray.n_features

        # Create the tree object, which is mostly a data container for the nodes
        node_count = 0
        capacity = 0
        bin_partitions_capacity = 0
        bin_partitions_end = 0
        tree_classifier = _TreeClassifier(
            n_features,
            n_classes,
            random_state,
            node_count,
            capacity,
            bin_partitions_capacity,
            bin_partitions_end,
        )
''', '''        # an empty tree
        tree_classifier = _TreeClassifier(
            features_bitarray.n_features, self.n_classes, self.random_state, 0, 0, 0, 0
        )
''')]),
("encoder_transform_helper", [(E, '''                    if col.hasnans:
                        # Missing values are now either actual missing values or unknown
                        # categories. Internally, the code used by pandas for missing
                        # values is always -1, while we want to use instead the last bin
                        # index to stick to non-negative integers.
                        # TODO: Direct numba code for this by testing the -1 directly ?
                        binned_col = col.cat.codes.values.copy()
                        binned_col[col.isna()] = col_categories_at_fit.size
                    else:
                        # No copy is required
                        binned_col = col.cat.codes.values
''', '''                    codes = col.cat.codes.values
                    if not col.hasnans:
                        binned_col = codes
                    else:
                        binned_col = codes.copy()
                        binned_col[col.isna()] = col_categories_at_fit.size
''')]),
("encoder_unknown_helper", [(E, '''                    col_categories_at_transform = set(col.cat.categories)
                    # TODO: is this the best approach for this test ?
                    col_has_unknown_categories = not col_categories_at_transform.issubset(
                        col_categories_at_fit
                    )
                    if col_has_unknown_categories and self.handle_unknown == "error":
                        # We don't allow unknown categories, so we raise an error
                        unknowns = col_categories_at_transform.difference(
                            col_categories_at_fit
                        )
                        msg = (
                            "Found unknown categories {0} in column {1} during "
                            "transform".format(unknowns, col_idx)
                        )
                        raise ValueError(msg)

                    # We need an extra bin if there are missing values, or an unknown
                    # category (and we did not raised an error above).
                    requires_extra_bin = (
                        col_has_missing_values or col_has_unknown_categories
                    )
''', '''                    requires_extra_bin = (
                        self._has_unknown(col, col_categories_at_fit, col_idx)
                        or col_has_missing_values
                    )
'''), (E, '''    def transform(self, X, y=None):
''', '''    def _has_unknown(self, col, known, col_idx):
        present = set(col.cat.categories)
        unknown = not present.issubset(known)
        if unknown and self.handle_unknown == "error":
            raise ValueError(
                "Found unknown categories {0} in column {1} during "
                "transform".format(present.difference(known), col_idx)
            )
        return unknown

    def transform(self, X, y=None):
''')]),
("encoder_fit_call_once", [(E, '''                if self.is_categorical is None:
                    is_col_categorical = is_series_categorical(
                        col,
                        is_categorical=None,
                        cat_min_categories=cat_min_categories_,
                        verbose=self.verbose,
                    )
                else:
                    is_col_categorical = is_series_categorical(
                        col,
                        is_categorical=self.is_categorical[col_idx],
                        cat_min_categories=cat_min_categories_,
                        verbose=self.verbose,
                    )
''', '''                declared = None
                if self.is_categorical is not None:
                    declared = self.is_categorical[col_idx]
                is_col_categorical = is_series_categorical(
                    col,
                    declared,
                    cat_min_categories_,
                    self.verbose,
                )
''')]),
("binning_search_half", [(B, '''                middle = left + (right - left - 1) // 2
                if col[i] <= binning_thresholds[middle]:
                    right = middle
                else:
                    left = middle + 1
''', '''                middle = left + (right - left - 1) // 2
                if x > binning_thresholds[middle]:
                    left = middle + 1
                else:
                    right = middle
''')]),
("binning_middles", [(B, '''        middles = uniques[:-1] + uniques[1:]
        middles *= 0.5
''', '''        middles = 0.5 * (uniques[1:] + uniques[:-1])
''')]),
("bitarray_bits", [(A, '''            if max_value <= 1:
                self.n_bits[j] = 1
                self.n_values_in_words[j] = 64
                self.bitmasks[j] = 1
            else:
                self.n_bits[j] = ceil(np.log2(max_value + 1))
                self.n_values_in_words[j] = floor(64 / self.n_bits[j])
                self.bitmasks[j] = (1 << self.n_bits[j]) - 1

            n_words = ceil(n_samples / self.n_values_in_words[j])
            offset += n_words
            self.offsets[j + 1] = offset
''', '''            if max_value > 1:
                n_bits = ceil(np.log2(max_value + 1))
                self.n_bits[j] = n_bits
                self.n_values_in_words[j] = floor(64 / self.n_bits[j])
                self.bitmasks[j] = (1 << self.n_bits[j]) - 1
            else:
                self.n_bits[j] = 1
                self.n_values_in_words[j] = 64
                self.bitmasks[j] = 1

            offset += ceil(n_samples / self.n_values_in_words[j])
            self.offsets[j + 1] = offset
''')]),
("bitarray_fill_shift", [(A, '''        pos_in_word = i % n_values_in_word
        if pos_in_word == 0:
            col_bitarray[word] = x_ij
        else:
            col_bitarray[word] = (col_bitarray[word] << n_bits) | x_ij
''', '''        pos_in_word = i % n_values_in_word
        if pos_in_word != 0:
            shifted = col_bitarray[word] << n_bits
            col_bitarray[word] = x_ij | shifted
        else:
            col_bitarray[word] = x_ij
''')]),
("empty_matrix_dtype", [(A, '''    if max_value <= _UINT8_MAX:
        X = np.empty((n_samples, n_features), dtype=np.uint8, order="F")
    elif _UINT8_MAX < max_value <= _UINT16_MAX:
        X = np.empty((n_samples, n_features), dtype=np.uint16, order="F")
    elif _UINT16_MAX < max_value <= _UINT32_MAX:
        X = np.empty((n_samples, n_features), dtype=np.uint32, order="F")
    elif _UINT32_MAX < max_value <= _UINT64_MAX:
        X = np.empty((n_samples, n_features), dtype=np.uint64, order="F")
    else:
        raise ValueError("X cannot be created")
    return X
''', '''    if max_value <= _UINT8_MAX:
        dtype = np.uint8
    elif max_value <= _UINT16_MAX:
        dtype = np.uint16
    elif max_value <= _UINT32_MAX:
        dtype = np.uint32
    elif max_value <= _UINT64_MAX:
        dtype = np.uint64
    else:
        raise ValueError("X cannot be created")
    return np.empty((n_samples, n_features), dtype=dtype, order="F")
''')]),
("check_x_guards", [(C, '''    if isinstance(X, pd.DataFrame):
        # X is a pd.DataFrame
        is_dataframe = True
    elif isinstance(X, np.ndarray):
        if X.ndim == 2:
            is_dataframe = False
        else:
            raise ValueError(
                "X is must be a `pandas.DataFrame` or a "
                "two-dimensional `numpy.ndarray`."
            )
        if X.dtype.kind not in "bOSUuif":
            raise ValueError(f"The dtype of X {X.dtype} is not supported by WildWood")
''', '''    is_dataframe = isinstance(X, pd.DataFrame)
    if is_dataframe:
        pass
    elif isinstance(X, np.ndarray):
        if X.ndim != 2:
            raise ValueError(
                "X is must be a `pandas.DataFrame` or a "
                "two-dimensional `numpy.ndarray`."
            )
        if X.dtype.kind not in "bOSUuif":
            raise ValueError(f"The dtype of X {X.dtype} is not supported by WildWood")
''')]),
("array_dtypes_bool", [(C, '''            for col_idx in range(n_features):
                is_col_categorical = is_categorical[col_idx]
                if is_col_categorical:
                    is_categorical_out[col_idx] = True
                else:
                    is_categorical_out[col_idx] = False
''', '''            for col_idx in range(n_features):
                is_categorical_out[col_idx] = bool(is_categorical[col_idx])
''')]),
("series_nunique", [(C, '''            n_modalities = col.nunique()
            if n_modalities <= cat_min_categories:
''', '''            n_modalities = col.nunique()
            looks_categorical = not n_modalities > cat_min_categories
            if looks_categorical:
''')]),
("setter_guard", [(F, '''@@setter min_samples_leaf''', '')]),
("step_setter_helper", [(TR, '''@@''', '')]),
]
RF = [r for r in RF if not any(e[1].startswith("@@") and "from" not in e[1] for e in r[1])]
