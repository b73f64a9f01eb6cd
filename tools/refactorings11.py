W = "wildwood/"
G, N, S, T, I, U, TC = W + "_grow.py", W + "_node.py", W + "_split.py", W + "_tree.py", W + "_impurity.py", W + "_utils.py", W + "_tree_context.py"
J = "@jit(nopython=NOPYTHON, nogil=NOGIL)\n"

def many(f, *pairs):
    return [(f, a, b) for a, b in pairs]

RF = [
# --- _split
("sp_partition_helper", [
 (S, "def split_indices(", J + "def _goes_left(bin_, split, bin_partition):\n    if split.is_split_categorical:\n        return is_bin_in_partition(bin_, bin_partition)\n    return bin_ <= split.bin_threshold\n\ndef split_indices("),
 (S, "    if split.is_split_categorical:\n        for i in partition_valid[start_valid:end_valid]:\n            bin = get_value_from_column(i, bitarray, bitmask, n_values_in_word, n_bits)\n            if is_bin_in_partition(bin, bin_partition):\n                left_buffer[n_samples_valid_left] = i\n                n_samples_valid_left += 1\n            else:\n                right_buffer[n_samples_valid_right] = i\n                n_samples_valid_right += 1\n    else:\n        for i in partition_valid[start_valid:end_valid]:\n            bin = get_value_from_column(i, bitarray, bitmask, n_values_in_word, n_bits)\n            if bin <= bin_threshold:\n                left_buffer[n_samples_valid_left] = i\n                n_samples_valid_left += 1\n            else:\n                right_buffer[n_samples_valid_right] = i\n                n_samples_valid_right += 1\n",
     "    for i in partition_valid[start_valid:end_valid]:\n        bin = get_value_from_column(i, bitarray, bitmask, n_values_in_word, n_bits)\n        if _goes_left(bin, split, bin_partition):\n            left_buffer[n_samples_valid_left] = i\n            n_samples_valid_left += 1\n        else:\n            right_buffer[n_samples_valid_right] = i\n            n_samples_valid_right += 1\n")]),
("sp_split_half", [
 (S, "def split_indices(", J + "def _partition(partition, start, end, split, bin_partition, bitarray, bitmask, n_values_in_word, n_bits, left_buffer, right_buffer):\n    n_left = 0\n    n_right = 0\n    for i in partition[start:end]:\n        bin_ = get_value_from_column(i, bitarray, bitmask, n_values_in_word, n_bits)\n        if split.is_split_categorical:\n            left = is_bin_in_partition(bin_, bin_partition)\n        else:\n            left = bin_ <= split.bin_threshold\n        if left:\n            left_buffer[n_left] = i\n            n_left += 1\n        else:\n            right_buffer[n_right] = i\n            n_right += 1\n    pos = start + n_left\n    partition[start:pos] = left_buffer[:n_left]\n    partition[pos:end] = right_buffer[:n_right]\n    return pos\n\ndef split_indices("),
 (S, """    n_samples_valid_left = 0
    n_samples_valid_right = 0
    if split.is_split_categorical:
        for i in partition_valid[start_valid:end_valid]:
            bin = get_value_from_column(i, bitarray, bitmask, n_values_in_word, n_bits)
            if is_bin_in_partition(bin, bin_partition):
                left_buffer[n_samples_valid_left] = i
                n_samples_valid_left += 1
            else:
                right_buffer[n_samples_valid_right] = i
                n_samples_valid_right += 1
    else:
        for i in partition_valid[start_valid:end_valid]:
            bin = get_value_from_column(i, bitarray, bitmask, n_values_in_word, n_bits)
            if bin <= bin_threshold:
                left_buffer[n_samples_valid_left] = i
                n_samples_valid_left += 1
            else:
                right_buffer[n_samples_valid_right] = i
                n_samples_valid_right += 1
    pos_valid = start_valid + n_samples_valid_left
    partition_valid[start_valid:pos_valid] = left_buffer[:n_samples_valid_left]
    partition_valid[pos_valid:end_valid] = right_buffer[:n_samples_valid_right]
    return (pos_train, pos_valid)""", """    pos_valid = _partition(partition_valid, start_valid, end_valid, split, bin_partition, bitarray, bitmask, n_values_in_word, n_bits, left_buffer, right_buffer)
    return (pos_train, pos_valid)""")]),
("sp_update_helper_meth", [
 (S, "            best_split.n_samples_train_left = n_samples_train_left\n            best_split.n_samples_train_right = n_samples_train_right\n            best_split.w_samples_train_left = w_samples_train_left\n            best_split.w_samples_train_right = w_samples_train_right\n            best_split.n_samples_valid_left = n_samples_valid_left\n            best_split.n_samples_valid_right = n_samples_valid_right\n            best_split.y_sum_left[:] = y_sum_left", "            _record_counts(best_split, n_samples_train_left, n_samples_train_right, w_samples_train_left, w_samples_train_right, n_samples_valid_left, n_samples_valid_right)\n            best_split.y_sum_left[:] = y_sum_left"),
 (S, "def try_feature_order_for_classifier_split(", J + "def _record_counts(split, n_train_left, n_train_right, w_train_left, w_train_right, n_valid_left, n_valid_right):\n    split.n_samples_train_left = n_train_left\n    split.n_samples_train_right = n_train_right\n    split.w_samples_train_left = w_train_left\n    split.w_samples_train_right = w_train_right\n    split.n_samples_valid_left = n_valid_left\n    split.n_samples_valid_right = n_valid_right\n\ndef try_feature_order_for_classifier_split(")]),
("sp_cumsum_helper", [
 (S, "def find_best_split_regressor_along_feature(", J + "def _fill_cumsum(bins_train, bins_valid, counts, out):\n    idx = 0\n    current = bins_valid[idx]\n    total = 0\n    for b in bins_train:\n        while current <= b and idx < bins_valid.size:\n            total += counts[current]\n            idx += 1\n            if idx == bins_valid.size:\n                break\n            current = bins_valid[idx]\n        out[b] = total\n\ndef find_best_split_regressor_along_feature("),
 (S, "        idx_valid = 0\n        if aggregation:\n            bin_test = bins_valid[idx_valid]\n            cum_valid_left = 0\n            for bin_train in bins_train:\n                while bin_test <= bin_train and idx_valid < bins_valid.size:\n                    cum_valid_left += n_samples_valid_in_bins[bin_test]\n                    idx_valid += 1\n                    if idx_valid == bins_valid.size:\n                        break\n                    bin_test = bins_valid[idx_valid]\n                cumsum_samples_valid_left[bin_train] = cum_valid_left\n    for bin_threshold", "        if aggregation:\n            _fill_cumsum(bins_train, bins_valid, n_samples_valid_in_bins, cumsum_samples_valid_left)\n    for bin_threshold")]),
("sp_while_true", [
 (S, "                while bin_test <= bin_train and idx_valid < bins_valid.size:\n                    cum_valid_left += n_samples_valid_in_bins[bin_test]\n                    idx_valid += 1\n                    if idx_valid == bins_valid.size:\n                        break\n                    bin_test = bins_valid[idx_valid]\n                cumsum_samples_valid_left[bin_train] = cum_valid_left\n    for bin_threshold", "                while idx_valid < bins_valid.size and bins_valid[idx_valid] <= bin_train:\n                    cum_valid_left += n_samples_valid_in_bins[bins_valid[idx_valid]]\n                    idx_valid += 1\n                cumsum_samples_valid_left[bin_train] = cum_valid_left\n    for bin_threshold")]),
("sp_range_bins", [
 (S, "    for bin_threshold in ordered_bins_train[:-1]:\n", "    for idx in range(ordered_bins_train.size - 1):\n        bin_threshold = ordered_bins_train[idx]\n")]),
("sp_right_from_total", [
 (S, "        n_samples_train_right -= n_samples_train_in_bins[bin_threshold]\n        w_samples_train_right -= w_samples_train_in_bins[bin_threshold]\n        y_sum_left += y_sum_in_bins[bin_threshold]\n        y_sum_right -= y_sum_in_bins[bin_threshold]\n        if is_feature_categorical:", "        w_samples_train_right -= w_samples_train_in_bins[bin_threshold]\n        n_samples_train_right = n_samples_train - n_samples_train_left\n        y_sum_left += y_sum_in_bins[bin_threshold]\n        y_sum_right -= y_sum_in_bins[bin_threshold]\n        if is_feature_categorical:")]),
("sp_valid_right_once", [
 (S, "            n_samples_valid_left += n_samples_valid_in_bins[bin_threshold]\n            n_samples_valid_right = n_samples_valid - n_samples_valid_left\n        else:\n            n_samples_valid_left = cumsum_samples_valid_left[bin_threshold]\n            n_samples_valid_right = n_samples_valid - n_samples_valid_left\n        if n_samples_train_left < min_samples_leaf or (aggregation and n_samples_valid_left < min_samples_leaf):\n            continue\n        if n_samples_train_right < min_samples_leaf or (aggregation and n_samples_valid_right < min_samples_leaf):\n            break\n        criterion = tree_context.criterion\n        impurity_left, impurity_right = apply_childs_impurity_function_clf", "            n_samples_valid_left += n_samples_valid_in_bins[bin_threshold]\n        else:\n            n_samples_valid_left = cumsum_samples_valid_left[bin_threshold]\n        n_samples_valid_right = n_samples_valid - n_samples_valid_left\n        left_too_small = n_samples_train_left < min_samples_leaf\n        right_too_small = n_samples_train_right < min_samples_leaf\n        if aggregation:\n            left_too_small = left_too_small or n_samples_valid_left < min_samples_leaf\n            right_too_small = right_too_small or n_samples_valid_right < min_samples_leaf\n        if left_too_small:\n            continue\n        if right_too_small:\n            break\n        criterion = tree_context.criterion\n        impurity_left, impurity_right = apply_childs_impurity_function_clf")]),
("sp_gain_continue", [
 (S, "        if gain_proxy > best_split.gain_proxy:\n            best_split.found_split = True\n            best_split.gain_proxy = gain_proxy\n            best_split.feature = feature\n            best_split.bin_threshold = bin_threshold\n            best_split.impurity_left = impurity_left\n            best_split.impurity_right = impurity_right\n            best_split.n_samples_train_left = n_samples_train_left\n            best_split.n_samples_train_right = n_samples_train_right\n            best_split.w_samples_train_left = w_samples_train_left\n            best_split.w_samples_train_right = w_samples_train_right\n            best_split.n_samples_valid_left = n_samples_valid_left\n            best_split.n_samples_valid_right = n_samples_valid_right\n            best_split.y_sum_left = y_sum_left\n            best_split.y_sum_right = y_sum_right\n            best_split.y_sq_sum_left = y_sq_sum_left\n            best_split.y_sq_sum_right = y_sq_sum_right\n            best_split.is_split_categorical = is_feature_categorical\n            best_split.bins_count = non_empty_bins_train_count\n            best_split.bins[:non_empty_bins_train_count] = bins_train", "        if gain_proxy <= best_split.gain_proxy or gain_proxy != gain_proxy:\n            continue\n        best_split.found_split = True\n        best_split.gain_proxy = gain_proxy\n        best_split.feature = feature\n        best_split.bin_threshold = bin_threshold\n        best_split.impurity_left = impurity_left\n        best_split.impurity_right = impurity_right\n        best_split.n_samples_train_left = n_samples_train_left\n        best_split.n_samples_train_right = n_samples_train_right\n        best_split.w_samples_train_left = w_samples_train_left\n        best_split.w_samples_train_right = w_samples_train_right\n        best_split.n_samples_valid_left = n_samples_valid_left\n        best_split.n_samples_valid_right = n_samples_valid_right\n        best_split.y_sum_left = y_sum_left\n        best_split.y_sum_right = y_sum_right\n        best_split.y_sq_sum_left = y_sq_sum_left\n        best_split.y_sq_sum_right = y_sq_sum_right\n        best_split.is_split_categorical = is_feature_categorical\n        best_split.bins_count = non_empty_bins_train_count\n        best_split.bins[:non_empty_bins_train_count] = bins_train")]),
("sp_partition_for", [
 (S, "    idx_bin = 0\n    bin_ = bins[idx_bin]\n    left_partition_size = 1\n    while bin_ != bin_threshold:\n        idx_bin += 1\n        left_partition_size += 1\n        bin_ = bins[idx_bin]\n", "    last = 0\n    while bins[last] != bin_threshold:\n        last += 1\n    left_partition_size = last + 1\n")]),
("sp_inpart_order", [
 (S, "            if bin_partition[middle] == bin_:\n                return True\n            elif bin_partition[middle] < bin_:\n                left = middle + 1\n            else:\n                right = middle - 1\n", "            value = bin_partition[middle]\n            if value < bin_:\n                left = middle + 1\n            elif value > bin_:\n                right = middle - 1\n            else:\n                return True\n")]),
("sp_order_pick", [
 (S, "        elif cat_split_strategy == SPLIT_STRATEGY_BINARY:\n            idx_sort = np.argsort(y_sum_positives[:, 1])\n            bins_train[:] = non_empty_bins_train[idx_sort]\n            try_feature_order_for_classifier_split(tree_context, node_context, feature, f, best_split, bins_train, cumsum_samples_valid_left)\n        else:\n            idx_sort = np.argsort(y_sum_positives[:, np.random.randint(n_classes)])\n            bins_train[:]", "        else:\n            if cat_split_strategy == SPLIT_STRATEGY_BINARY:\n                column = 1\n            else:\n                column = np.random.randint(n_classes)\n            idx_sort = np.argsort(y_sum_positives[:, column])\n            bins_train[:]")]),
("sp_node_guard", [
 (S, "        if node_context.non_empty_bins_train_count[f] > 1:\n            find_best_split_along_feature(tree_context, node_context, feature, f, best_split)", "        n_bins = node_context.non_empty_bins_train_count[f]\n        if n_bins <= 1:\n            continue\n        find_best_split_along_feature(tree_context, node_context, feature, f, best_split)")]),
# --- _node
("nd_enumerate", [
 (N, "    f = 0\n    loss_valid = 0.0\n    for j in features:\n        n_values_in_word = n_values_in_words[j]\n        bitarray_feature = bitarray[offsets[j]:offsets[j + 1]]\n        n_bits_feature = n_bits[j]\n        bitmask = bitmasks[j]\n        for i in train_indices:\n            bin = get_value_from_column(i, bitarray_feature, bitmask, n_values_in_word, n_bits_feature)\n            label = y[i]", "    loss_valid = 0.0\n    for f, j in enumerate(features):\n        n_values_in_word = n_values_in_words[j]\n        bitarray_feature = bitarray[offsets[j]:offsets[j + 1]]\n        n_bits_feature = n_bits[j]\n        bitmask = bitmasks[j]\n        for i in train_indices:\n            bin = get_value_from_column(i, bitarray_feature, bitmask, n_values_in_word, n_bits_feature)\n            label = y[i]"),
 (N, "                w_samples_valid_in_bins[f, bin] += sample_weight\n        f += 1\n    node_context.y_pred = y_pred", "                w_samples_valid_in_bins[f, bin] += sample_weight\n    node_context.y_pred = y_pred")]),
("nd_count_helper", [
 (N, "def compute_node_classifier_context(", J + "def _add_to_bin(f, bin_, sample_weight, n_in_bins, w_in_bins, non_empty, non_empty_count):\n    if n_in_bins[f, bin_] == 0:\n        non_empty[f, non_empty_count[f]] = bin_\n        non_empty_count[f] += 1\n    n_in_bins[f, bin_] += 1\n    w_in_bins[f, bin_] += sample_weight\n\ndef compute_node_classifier_context("),
 (N, "            if n_samples_train_in_bins[f, bin] == 0:\n                non_empty_bins_train[f, non_empty_bins_train_count[f]] = bin\n                non_empty_bins_train_count[f] += 1\n            n_samples_train_in_bins[f, bin] += 1\n            w_samples_train_in_bins[f, bin] += sample_weight\n            y_sum[f, bin, label] += sample_weight", "            _add_to_bin(f, bin, sample_weight, n_samples_train_in_bins, w_samples_train_in_bins, non_empty_bins_train, non_empty_bins_train_count)\n            y_sum[f, bin, label] += sample_weight")]),
("nd_first_flag", [
 (N, "        for i in train_indices:\n            bin = get_value_from_column(i, bitarray_feature, bitmask, n_values_in_word, n_bits_feature)\n            label = uintp(y[i])\n            sample_weight = sample_weights[i]\n            if f == 0:", "        is_first = f == 0\n        for i in train_indices:\n            bin = get_value_from_column(i, bitarray_feature, bitmask, n_values_in_word, n_bits_feature)\n            label = uintp(y[i])\n            sample_weight = sample_weights[i]\n            if is_first:")]),
("nd_reset_helper", [
 (N, "    n_samples_train_in_bins.fill(0)\n    n_samples_valid_in_bins.fill(0)\n    w_samples_train_in_bins.fill(0.0)\n    w_samples_valid_in_bins.fill(0.0)\n    non_empty_bins_train.fill(0)\n    non_empty_bins_train_count.fill(0)\n    non_empty_bins_valid.fill(0)\n    non_empty_bins_valid_count.fill(0)\n    y_sum.fill(0.0)\n    y_pred.fill(0.0)", "    _reset_bins(node_context)\n    y_sum.fill(0.0)\n    y_pred.fill(0.0)"),
 (N, "def compute_node_classifier_context(", J + "def _reset_bins(node_context):\n    node_context.n_samples_train_in_bins.fill(0)\n    node_context.n_samples_valid_in_bins.fill(0)\n    node_context.w_samples_train_in_bins[:] = 0.0\n    node_context.w_samples_valid_in_bins[:] = 0.0\n    node_context.non_empty_bins_train.fill(0)\n    node_context.non_empty_bins_train_count.fill(0)\n    node_context.non_empty_bins_valid.fill(0)\n    node_context.non_empty_bins_valid_count.fill(0)\n\ndef compute_node_classifier_context(")]),
("nd_loss_hoist", [
 (N, "    for j in features:\n        n_values_in_word = n_values_in_words[j]\n        bitarray_feature = bitarray[offsets[j]:offsets[j + 1]]\n        n_bits_feature = n_bits[j]\n        bitmask = bitmasks[j]\n        for i in train_indices:\n            bin = get_value_from_column(i, bitarray_feature, bitmask, n_values_in_word, n_bits_feature)\n            label = uintp(y[i])\n            sample_weight = sample_weights[i]\n            if f == 0:\n                w_samples_train += sample_weight\n                y_pred[label] += sample_weight\n", "    for i in train_indices:\n        sample_weight = sample_weights[i]\n        w_samples_train += sample_weight\n        y_pred[uintp(y[i])] += sample_weight\n    for j in features:\n        n_values_in_word = n_values_in_words[j]\n        bitarray_feature = bitarray[offsets[j]:offsets[j + 1]]\n        n_bits_feature = n_bits[j]\n        bitmask = bitmasks[j]\n        for i in train_indices:\n            bin = get_value_from_column(i, bitarray_feature, bitmask, n_values_in_word, n_bits_feature)\n            label = uintp(y[i])\n            sample_weight = sample_weights[i]\n")]),
("nd_reg_residual", [
 (N, "                    loss_valid += sample_weight * (label - y_pred) * (label - y_pred)", "                    residual = label - y_pred\n                    loss_valid += sample_weight * residual * residual")]),
("nd_ypred_helper", [
 (N, "            for k in range(n_classes):\n                y_pred[k] = (y_pred[k] + dirichlet) / (w_samples_train + n_classes * dirichlet)\n        if aggregation:", "            smooth(y_pred, w_samples_train, n_classes, dirichlet)\n        if aggregation:"),
 (N, "def compute_node_classifier_context(", J + "def smooth(y_pred, total_weight, n_classes, dirichlet):\n    denominator = total_weight + n_classes * dirichlet\n    for k in range(n_classes):\n        y_pred[k] = (y_pred[k] + dirichlet) / denominator\n\ndef compute_node_classifier_context(")]),
("nd_shape_var", [
 (N, "    node_context.n_samples_train_in_bins = np.empty((max_features, max_n_bins), dtype=np.uintp)\n    node_context.w_samples_train_in_bins = np.empty((max_features, max_n_bins), dtype=np.float32)\n    node_context.n_samples_valid_in_bins = np.empty((max_features, max_n_bins), dtype=np.uintp)\n    node_context.w_samples_valid_in_bins = np.empty((max_features, max_n_bins), dtype=np.float32)", "    shape = (max_features, max_n_bins)\n    node_context.n_samples_train_in_bins = np.empty(shape, dtype=np.uintp)\n    node_context.n_samples_valid_in_bins = np.empty(shape, dtype=np.uintp)\n    node_context.w_samples_train_in_bins = np.empty(shape, dtype=np.float32)\n    node_context.w_samples_valid_in_bins = np.empty(shape, dtype=np.float32)")]),
# --- _grow
("gr_rec_preds_share", [
 (G, "        for k in range(n_classes):\n            y_pred[k] = (y_pred[k] + dirichlet) / (w_samples_train + n_classes * dirichlet)\n        tree.y_pred[node_idx, :] = y_pred", "        total = w_samples_train + n_classes * dirichlet\n        for k in range(n_classes):\n            y_pred[k] = (y_pred[k] + dirichlet) / total\n        tree.y_pred[node_idx] = y_pred")]),
("gr_rec_range", [
 (G, "    for node_idx, node in enumerate(nodes[:tree.node_count]):\n", "    for node_idx in range(tree.node_count):\n        node = nodes[node_idx]\n")]),
("gr_rec_unused", [
 (G, "        loss_valid = 0.0\n        w_samples_valid = 0.0\n        for sample in valid_indices:\n            sample_weight = sample_weights[sample]\n            w_samples_valid += sample_weight\n            label = uintp(y[sample])\n            loss_valid -= sample_weight * log(y_pred[label])\n", "        loss_valid = 0.0\n        for sample in valid_indices:\n            label = uintp(y[sample])\n            loss_valid -= sample_weights[sample] * log(y_pred[label])\n")]),
("gr_rec_validhelper", [
 (G, "        loss_valid = 0.0\n        w_samples_valid = 0.0\n        for sample in valid_indices:\n            sample_weight = sample_weights[sample]\n            w_samples_valid += sample_weight\n            label = uintp(y[sample])\n            loss_valid -= sample_weight * log(y_pred[label])\n        node['loss_valid'] = loss_valid", "        node['loss_valid'] = _log_loss(valid_indices, y, sample_weights, y_pred)"),
 (G, "def recompute_node_predictions(", J + "def _log_loss(indices, y, sample_weights, y_pred):\n    loss = 0.0\n    for i in indices:\n        loss -= sample_weights[i] * log(y_pred[uintp(y[i])])\n    return loss\n\ndef recompute_node_predictions(")]),
("gr_root_inline", [
 (G, "    parent = TREE_UNDEFINED\n    depth = 0\n    is_left = False\n    impurity = np.inf\n    start_train = 0\n    end_train = tree_context.n_samples_train\n    start_valid = 0\n    end_valid = tree_context.n_samples_valid\n    aggregation = tree_context.aggregation\n    push_record(records, parent, depth, is_left, impurity, start_train, end_train, start_valid, end_valid)\n", "    aggregation = tree_context.aggregation\n    push_record(records, TREE_UNDEFINED, 0, False, np.inf, 0, tree_context.n_samples_train, 0, tree_context.n_samples_valid)\n")]),
("gr_leaf_stages", [
 (G, "        if aggregation:\n            is_leaf = node_context.n_samples_train < min_samples_split or node_context.n_samples_valid < min_samples_split\n        else:\n            is_leaf = node_context.n_samples_train < min_samples_split\n        min_impurity_split = 0.0\n        is_leaf = is_leaf or impurity <= min_impurity_split or depth >= tree_context.max_depth\n", "        is_leaf = node_context.n_samples_train < min_samples_split\n        if aggregation and node_context.n_samples_valid < min_samples_split:\n            is_leaf = True\n        if depth >= tree_context.max_depth or impurity <= 0.0:\n            is_leaf = True\n")]),
("gr_weights_while", [
 (G, "    for node_idx in range(node_count - 1, -1, -1):\n        node = nodes[node_idx]\n", "    node_idx = node_count\n    while node_idx > 0:\n        node_idx -= 1\n        node = nodes[node_idx]\n")]),
("gr_weights_reversed", [
 (G, "    for node_idx in range(node_count - 1, -1, -1):\n", "    for node_idx in reversed(range(node_count)):\n")]),
("gr_weights_common", [
 (G, "        if node['is_leaf']:\n            node['log_weight_tree'] = -step * node['loss_valid']\n        else:\n            loss = -step * node['loss_valid']\n            left_child = intp(node['left_child'])\n            right_child = intp(node['right_child'])\n            log_weight_tree_left = nodes[left_child]['log_weight_tree']\n            log_weight_tree_right = nodes[right_child]['log_weight_tree']\n            node['log_weight_tree'] = log_sum_2_exp(loss, log_weight_tree_left + log_weight_tree_right)", "        log_weight = -step * node['loss_valid']\n        if not node['is_leaf']:\n            left = nodes[intp(node['left_child'])]\n            right = nodes[intp(node['right_child'])]\n            log_weight = log_sum_2_exp(log_weight, left['log_weight_tree'] + right['log_weight_tree'])\n        node['log_weight_tree'] = log_weight")]),
("gr_push_order_kw", [
 (G, "            push_record(records, node_id, depth + 1, True, best_split.impurity_left, start_train, pos_train, start_valid, pos_valid)\n            push_record(records, node_id, depth + 1, False, best_split.impurity_right, pos_train, end_train, pos_valid, end_valid)", "            child_depth = depth + 1\n            for is_left_child in (True, False):\n                if is_left_child:\n                    push_record(records, node_id, child_depth, True, best_split.impurity_left, start_train, pos_train, start_valid, pos_valid)\n                else:\n                    push_record(records, node_id, child_depth, False, best_split.impurity_right, pos_train, end_train, pos_valid, end_valid)")]),
# --- _tree
("tr_child_helper", [
 (T, "def find_leaf(", J + "def _next_node(node, goes_left):\n    if goes_left:\n        return node['left_child']\n    return node['right_child']\n\ndef find_leaf("),
 (T, "            if is_bin_in_partition(xi_f, bin_partition):\n                leaf_idx = node['left_child']\n            else:\n                leaf_idx = node['right_child']\n        elif xi_f <= node['bin_threshold']:\n            leaf_idx = node['left_child']\n        else:\n            leaf_idx = node['right_child']\n", "            leaf_idx = _next_node(node, is_bin_in_partition(xi_f, bin_partition))\n        else:\n            leaf_idx = _next_node(node, xi_f <= node['bin_threshold'])\n")]),
("tr_leaf_while_true", [
 (T, "    while not node['is_leaf']:\n        xi_f = get_value(features_bitarray, i, node['feature'])\n", "    while True:\n        node = nodes[leaf_idx]\n        if node['is_leaf']:\n            break\n        xi_f = get_value(features_bitarray, i, node['feature'])\n"),
 (T, "            leaf_idx = node['right_child']\n        node = nodes[leaf_idx]\n    return leaf_idx", "            leaf_idx = node['right_child']\n    return leaf_idx")]),
("tr_pred_in_place", [
 (T, "                pred_i[:] = alpha * node_pred + (1 - alpha) * pred_i\n", "                pred_i *= 1 - alpha\n                pred_i += alpha * node_pred\n")]),
("tr_pred_helper_climb", [
 (T, "def tree_regressor_predict(", J + "def _aggregate(nodes, y_pred, leaf, step):\n    current = leaf\n    pred = y_pred[current]\n    while current != 0:\n        current = nodes[current]['parent']\n        node = nodes[current]\n        alpha = 0.5 * exp(-step * node['loss_valid'] - node['log_weight_tree'])\n        pred = alpha * y_pred[current] + (1 - alpha) * pred\n    return pred\n\ndef tree_regressor_predict("),
 (T, "        pred_i = y_pred[idx_current]\n        if aggregation:\n            while idx_current != 0:\n                idx_current = nodes[idx_current]['parent']\n                node = nodes[idx_current]\n                node_pred = y_pred[idx_current]\n                loss = -step * node['loss_valid']\n                log_weight_tree = node['log_weight_tree']\n                alpha = 0.5 * exp(loss - log_weight_tree)\n                pred_i = alpha * node_pred + (1 - alpha) * pred_i\n        out[i] = pred_i", "        if aggregation:\n            out[i] = _aggregate(nodes, y_pred, idx_current, step)\n        else:\n            out[i] = y_pred[idx_current]")]),
("tr_apply_direct", [
 (T, "        idx_leaf = find_leaf(tree, features_bitarray, i)\n        out[i] = idx_leaf\n    return out", "        out[i] = find_leaf(tree, features_bitarray, i)\n    return out")]),
("tr_add_child", [
 (T, "    if parent != TREE_UNDEFINED:\n        if is_left:\n            nodes[parent]['left_child'] = node_idx\n        else:\n            nodes[parent]['right_child'] = node_idx\n", "    has_parent = parent != TREE_UNDEFINED\n    if has_parent and is_left:\n        nodes[parent]['left_child'] = node_idx\n    elif has_parent:\n        nodes[parent]['right_child'] = node_idx\n")]),
("tr_add_leaf_helper", [
 (T, "    if is_leaf:\n        node['left_child'] = TREE_LEAF\n        node['right_child'] = TREE_LEAF\n        node['feature'] = TREE_UNDEFINED\n        node['threshold'] = TREE_UNDEFINED\n        node['bin_threshold'] = TREE_UNDEFINED\n    else:", "    if is_leaf:\n        _mark_leaf(node)\n    else:"),
 (T, "def add_node_tree(", J + "def _mark_leaf(node):\n    node['left_child'] = TREE_LEAF\n    node['right_child'] = TREE_LEAF\n    node['feature'] = TREE_UNDEFINED\n    node['threshold'] = TREE_UNDEFINED\n    node['bin_threshold'] = TREE_UNDEFINED\n\ndef add_node_tree(")]),
("tr_add_part_early", [
 (T, "    if is_split_categorical and bin_partition_size > 0:\n        bin_partition_start = tree.bin_partitions_end\n        bin_partition_end = bin_partition_start + bin_partition_size\n        if bin_partition_end > tree.bin_partitions_capacity:\n            resize_tree_bin_partitions(tree, bin_partition_end + 1)\n        tree.bin_partitions[bin_partition_start:bin_partition_end] = bin_partition[:bin_partition_size]\n        node['bin_partition_start'] = bin_partition_start\n        node['bin_partition_end'] = bin_partition_end\n        tree.bin_partitions_end = bin_partition_end\n    else:\n        node['bin_partition_start'] = 0\n        node['bin_partition_end'] = 0\n    tree.node_count += 1\n    return node_idx", "    bin_partition_start = 0\n    bin_partition_end = 0\n    if is_split_categorical and bin_partition_size > 0:\n        bin_partition_start = tree.bin_partitions_end\n        bin_partition_end = bin_partition_start + bin_partition_size\n        if bin_partition_end > tree.bin_partitions_capacity:\n            resize_tree_bin_partitions(tree, bin_partition_end + 1)\n        tree.bin_partitions[bin_partition_start:bin_partition_end] = bin_partition[:bin_partition_size]\n        tree.bin_partitions_end = bin_partition_end\n    node['bin_partition_start'] = bin_partition_start\n    node['bin_partition_end'] = bin_partition_end\n    tree.node_count = node_idx + 1\n    return node_idx")]),
("tr_path_listcomp", [
 (T, "    paths = []\n    for xi in X:\n        path = sample_path_leaf(tree, xi)\n        paths.append(path)\n    return paths", "    return [sample_path_leaf(tree, xi) for xi in X]")]),
("tr_path_decision", [
 (T, "            if is_bin_in_partition(xi_f, bin_partition):\n                leaf_idx = node['left_child']\n                decision = 'left: %d in %s' % (xi_f, str(bin_partition))\n            else:\n                leaf_idx = node['right_child']\n                decision = 'right: %d not in %s' % (xi_f, str(bin_partition))", "            goes_left = is_bin_in_partition(xi_f, bin_partition)\n            if goes_left:\n                decision = 'left: %d in %s' % (xi_f, str(bin_partition))\n            else:\n                decision = 'right: %d not in %s' % (xi_f, str(bin_partition))\n            leaf_idx = node['left_child'] if goes_left else node['right_child']")]),
("tr_wd_reuse", [
 (T, "            depth_new = node['depth']\n            loss = -step * node['loss_valid']\n            log_weight_tree = node['log_weight_tree']\n            alpha = 0.5 * exp(loss - log_weight_tree)\n            weighted_depth = alpha * depth_new + (1 - alpha) * weighted_depth", "            alpha = exp(-(step * node['loss_valid']) - node['log_weight_tree']) / 2\n            weighted_depth = (1 - alpha) * weighted_depth + alpha * node['depth']")]),
("tr_resize_parts", [
 (T, "    if capacity is None:\n        if tree.bin_partitions_capacity == 0:\n            resize_tree_bin_partitions_(tree, 256)\n        else:\n            resize_tree_bin_partitions_(tree, 2 * tree.bin_partitions_capacity)\n    elif capacity <= tree.bin_partitions_capacity and tree.bin_partitions.size > 0:\n        return\n    else:\n        resize_tree_bin_partitions_(tree, capacity)", "    current = tree.bin_partitions_capacity\n    if capacity is not None and capacity <= current and tree.bin_partitions.size > 0:\n        return\n    if capacity is None:\n        capacity = 256 if current == 0 else 2 * current\n    resize_tree_bin_partitions_(tree, capacity)")]),
]
