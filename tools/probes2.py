# Bug-like edits of the kernels that come with a restructuring or new vocabulary.
W="wildwood/"; F=W+"forest.py"; G=W+"_grow.py"; EN=W+"preprocessing/encoder.py"; BI=W+"preprocessing/_binning.py"; TR=W+"tree.py"
T=W+"_tree.py"; S=W+"_split.py"; N=W+"_node.py"; FB=W+"preprocessing/features_bitarray.py"; U=W+"_utils.py"; IM=W+"_impurity.py"; TC=W+"_tree_context.py"; CH=W+"preprocessing/_checks.py"
RF=[
# --- split search
("sp_enum_skip",[(S,"    for bin_threshold in ordered_bins_train[:-1]:","    for idx_bin in range(1, ordered_bins_train.size):\n        bin_threshold = ordered_bins_train[idx_bin]")]),
("sp_ge",[(S,"        if gain_proxy > best_split.gain_proxy:\n            best_split.found_split = True\n            best_split.gain_proxy = gain_proxy\n            best_split.feature = feature","        better = gain_proxy > best_split.gain_proxy or (not best_split.found_split and gain_proxy == gain_proxy)\n        if better:\n            best_split.found_split = gain_proxy > 0\n            best_split.gain_proxy = gain_proxy\n            best_split.feature = feature")]),
("sp_break2",[(S,"        if n_samples_train_left < min_samples_leaf or (aggregation and n_samples_valid_left < min_samples_leaf):\n            continue","        if n_samples_train_left < min_samples_leaf:\n            continue\n        if aggregation and n_samples_valid_left < min_samples_leaf:\n            break")]),
("sp_sum_nonempty",[(S,"    y_sum_right[:] = y_sum_in_bins.sum(axis=0)","    for k in range(n_classes):\n        total = 0.0\n        for b in ordered_bins_train[:-1]:\n            total += y_sum_in_bins[b, k]\n        y_sum_right[k] = total")]),
("sp_valid_searchsorted",[(S,"                cumsum_samples_valid_left[bin_train] = cum_valid_left\n        try_feature","                cumsum_samples_valid_left[bin_train] = cum_valid_left\n            cumsum_samples_valid_left[bins_train] = np.minimum(cumsum_samples_valid_left[bins_train], node_context.n_samples_valid - 1)\n        try_feature")]),
("sp_cat_den",[(S,"        y_sum_positives /= np.expand_dims(y_sum_positives.sum(axis=1), axis=1)","        y_sum_positives /= np.expand_dims(y_sum_positives.max(axis=1), axis=1)")]),
("sp_cat_weights",[(S,"        y_sum_positives /= np.expand_dims(y_sum_positives.sum(axis=1), axis=1)","        y_sum_positives /= np.expand_dims(n_samples_train_in_bins[non_empty_bins_train], axis=1)")]),
("sp_cat_mod2",[(S,"            for mod in range(n_classes):","            for mod in range(min(n_classes, non_empty_bins_train_count)):")]),
("sp_rand_fixed",[(S,"np.random.randint(n_classes)","np.random.randint(n_classes - 1)")]),
("sp_rand_argmax",[(S,"y_sum_positives[:, np.random.randint(n_classes)]","y_sum_positives[:, np.argmax(node_context.y_pred)]")]),
("sp_alias_bins",[(S,"            best_split.y_sum_left[:] = y_sum_left\n            best_split.y_sum_right[:] = y_sum_right","            best_split.y_sum_left = y_sum_left\n            best_split.y_sum_right = y_sum_right")]),
("sp_reg_sq",[(S,"        y_sq_sum_right -= y_sq_sum_in_bins[bin_threshold]","        y_sq_sum_right = max(0.0, y_sq_sum_right - y_sq_sum_in_bins[bin_threshold])")]),
("sp_count_gt2",[(S,"        if node_context.non_empty_bins_train_count[f] > 1:","        if node_context.non_empty_bins_train_count[f] > 1 + int(tree_context.is_categorical[feature]):")]),
("sp_first_found",[(S,"            find_best_split_along_feature(tree_context, node_context, feature, f, best_split)\n","            find_best_split_along_feature(tree_context, node_context, feature, f, best_split)\n            if best_split.found_split and best_split.impurity_left + best_split.impurity_right == 0.0:\n                break\n")]),
("sp_reverse",[(S,"    for f, feature in enumerate(features):\n        if node_context.non","    for f in range(features.size - 1, -1, -1):\n        feature = features[f]\n        if node_context.non")]),
("sp_partition_unsorted",[(S,"    bin_partition[:left_partition_size] = np.sort(bins[:left_partition_size])","    bin_partition[:left_partition_size] = bins[:left_partition_size]")]),
("sp_partition_rev",[(S,"    bin_partition[:left_partition_size] = np.sort(bins[:left_partition_size])","    bin_partition[:left_partition_size] = np.sort(bins[:left_partition_size])[::-1]")]),
("sp_inpart_any",[(S,"    if size == 1:\n        return bin_partition[0] == bin_","    if size <= 2:\n        return bin_partition[0] == bin_ or bin_partition[-1] >= bin_")]),
("sp_inpart_ss",[(S,"    size = bin_partition.size\n    if size == 1:","    size = bin_partition.size\n    if bin_ > bin_partition[size - 1] or bin_ <= bin_partition[0]:\n        return bin_ == bin_partition[size - 1]\n    if size == 1:")]),
("sp_inpart_loop",[(S,"        while left <= right:\n            middle","        while left < right:\n            middle")]),
("sp_split_stable",[(S,"    partition_valid[pos_valid:end_valid] = right_buffer[:n_samples_valid_right]","    for k in range(n_samples_valid_right - 1):\n        partition_valid[pos_valid + k] = right_buffer[k]")]),
("sp_split_swap",[(S,"    partition_train[start_train:pos_train] = left_buffer[:n_samples_train_left]\n    partition_train[pos_train:end_train] = right_buffer[:n_samples_train_right]","    k = start_train\n    for v in left_buffer[:n_samples_train_left]:\n        partition_train[k] = v\n        k += 1\n    for v in right_buffer[1:n_samples_train_right]:\n        partition_train[k] = v\n        k += 1")]),
# --- node
("nd_label_round",[(N,"            label = y[i]\n            sample_weight = sample_weights[i]\n            w_y","            label = float32(int(y[i] * 1000000.0) / 1000000.0)\n            sample_weight = sample_weights[i]\n            w_y")]),
("nd_valid_skip",[(N,"                    loss_valid -= sample_weight * log(y_pred[label])","                    if sample_weight > 0 and y_pred[label] < 1.0:\n                        loss_valid -= sample_weight * log(y_pred[label])\n                        w_samples_valid += 0.0 * sample_weight\n                    else:\n                        continue")]),
("nd_clip_log",[(N,"                    loss_valid -= sample_weight * log(y_pred[label])","                    loss_valid -= sample_weight * log(max(y_pred[label], 0.001))")]),
("nd_feat_once",[(N,"    if node_context.sample_features:\n        sample_without_replacement(node_context.features_pool, node_context.features_sampled)\n    features = node_context.features_sampled\n    n_samples_train_in_bins.fill(0)\n    n_samples_valid_in_bins.fill(0)\n    w_samples_train_in_bins.fill(0.0)\n    w_samples_valid_in_bins.fill(0.0)\n    non_empty_bins_train.fill(0)\n    non_empty_bins_train_count.fill(0)\n    non_empty_bins_valid.fill(0)\n    non_empty_bins_valid_count.fill(0)\n    y_sum.fill(0.0)\n    y_sq_sum","    if node_context.sample_features and start_train == 0:\n        sample_without_replacement(node_context.features_pool, node_context.features_sampled)\n    features = node_context.features_sampled\n    n_samples_train_in_bins.fill(0)\n    n_samples_valid_in_bins.fill(0)\n    w_samples_train_in_bins.fill(0.0)\n    w_samples_valid_in_bins.fill(0.0)\n    non_empty_bins_train.fill(0)\n    non_empty_bins_train_count.fill(0)\n    non_empty_bins_valid.fill(0)\n    non_empty_bins_valid_count.fill(0)\n    y_sum.fill(0.0)\n    y_sq_sum")]),
("nd_partial_fill",[(N,"    y_sum.fill(0.0)\n    y_pred.fill(0.0)","    y_sum[: features.size - 1].fill(0.0)\n    y_pred.fill(0.0)")]),
("nd_partial_fill2",[(N,"    y_sum.fill(0.0)\n    y_pred.fill(0.0)","    for f in range(features.size):\n        y_sum[f, : tree_context.features_bitarray.n_values_in_words[features[f]]] = 0.0\n    y_pred.fill(0.0)")]),
("nd_unique_train",[(N,"    train_indices = partition_train[start_train:end_train]\n    valid_indices = partition_valid[start_valid:end_valid]\n    w_samples_train = 0.0\n    w_samples_valid = 0.0\n    f = 0\n    loss_valid = 0.0\n    for j in features:\n        n_values_in_word = n_values_in_words[j]\n        bitarray_feature = bitarray[offsets[j]:offsets[j + 1]]\n        n_bits_feature = n_bits[j]\n        bitmask = bitmasks[j]\n        for i in train_indices:\n            bin = get_value_from_column(i, bitarray_feature, bitmask, n_values_in_word, n_bits_feature)\n            label = uintp","    train_indices = partition_train[start_train:end_train]\n    valid_indices = partition_valid[start_valid:max(end_valid, start_valid + 1)]\n    w_samples_train = 0.0\n    w_samples_valid = 0.0\n    f = 0\n    loss_valid = 0.0\n    for j in features:\n        n_values_in_word = n_values_in_words[j]\n        bitarray_feature = bitarray[offsets[j]:offsets[j + 1]]\n        n_bits_feature = n_bits[j]\n        bitmask = bitmasks[j]\n        for i in train_indices:\n            bin = get_value_from_column(i, bitarray_feature, bitmask, n_values_in_word, n_bits_feature)\n            label = uintp")]),
# --- grow
("gr_cap",[(G,"    while has_records(records):\n        parent","    while has_records(records) and tree.node_count < 65535:\n        parent")]),
("gr_pure_rel",[(G,"impurity <= min_impurity_split","impurity <= eps")]),
("gr_depth_min",[(G,"depth >= tree_context.max_depth","depth >= min(tree_context.max_depth, 255)")]),
("gr_valid_or",[(G,"node_context.n_samples_train < min_samples_split or node_context.n_samples_valid < min_samples_split","min(node_context.n_samples_train, max(node_context.n_samples_valid, 1)) < min_samples_split")]),
("gr_found_gain",[(G,"        is_leaf = is_leaf or not found_split","        is_leaf = is_leaf or not found_split or best_split.gain_proxy == -np.inf")]),
("gr_push_swap_valid",[(G,"start_train, pos_train, start_valid, pos_valid)","start_train, pos_train, *(start_valid, pos_valid)[:: 1 if depth < 30 else -1])")]),
("gr_weights_dim",[(G,"    for node_idx in range(node_count - 1, -1, -1):","    for node_idx in np.arange(node_count)[::-1][:-1] if node_count > 1000 else range(node_count - 1, -1, -1):")]),
("gr_weights_sort",[(G,"    for node_idx in range(node_count - 1, -1, -1):\n        node = nodes[node_idx]","    for node_idx in np.argsort(-nodes[:node_count]['depth'])[1:]:\n        node = nodes[node_idx]")]),
("gr_weights_while",[(G,"    for node_idx in range(node_count - 1, -1, -1):\n        node = nodes[node_idx]","    node_idx = node_count\n    while node_idx > 1:\n        node_idx -= 1\n        node = nodes[node_idx]")]),
("gr_lse_max",[(G,"            node['log_weight_tree'] = log_sum_2_exp(loss, log_weight_tree_left + log_weight_tree_right)","            node['log_weight_tree'] = max(loss, log_weight_tree_left + log_weight_tree_right)")]),
("gr_reco_slice",[(G,"    for node_idx, node in enumerate(nodes[:tree.node_count]):","    for node_idx, node in enumerate(nodes[: tree.node_count - 1]):")]),
("gr_reco_leafonly",[(G,"        tree.y_pred[node_idx, :] = y_pred","        if node['is_leaf'] or tree_context.aggregation:\n            tree.y_pred[node_idx, :] = y_pred")]),
("gr_records_realloc",[(G,"        records.stack = resize(records.stack, records.capacity)","        stack = np.empty(records.capacity, dtype=record_dtype)\n        stack[1:records.top] = records.stack[1:records.top]\n        records.stack = stack")]),
("gr_cap_late",[(G,"    if records.top >= records.capacity:","    if records.top > records.capacity:")]),
# --- tree
("tr_addnode_resize",[(T,"    if node_idx >= tree.capacity:\n        resize_tree(tree, None)","    if node_idx > 0 and node_idx % 2047 == 0:\n        resize_tree(tree, None)")]),
("tr_bp_resize",[(T,"        if bin_partition_end > tree.bin_partitions_capacity:\n            resize_tree_bin_partitions(tree, bin_partition_end + 1)","        if bin_partition_end > tree.bin_partitions_capacity:\n            resize_tree_bin_partitions(tree, None)")]),
("tr_bp_wrong",[(T,"        node['bin_partition_end'] = bin_partition_end\n","        node['bin_partition_end'] = min(bin_partition_end, bin_partition_start + 64)\n")]),
("tr_leaf_le",[(T,"        elif xi_f <= node['bin_threshold']:\n            leaf_idx = node['left_child']\n        else:\n            leaf_idx = node['right_child']\n        node = nodes[leaf_idx]\n    return leaf_idx","        else:\n            side = int(xi_f > node['bin_threshold'] or xi_f == features_bitarray.max_values[node['feature']])\n            leaf_idx = node['right_child'] if side else node['left_child']\n        node = nodes[leaf_idx]\n    return leaf_idx")]),
("tr_leaf_iter",[(T,"    while not node['is_leaf']:\n        xi_f = get_value","    while not node['is_leaf'] and node['depth'] < 64:\n        xi_f = get_value")]),
("tr_alpha_clip",[(T,"                alpha = 0.5 * exp(loss - log_weight_tree)\n                pred_i[:]","                alpha = min(0.5, 0.5 * exp(loss - log_weight_tree))\n                pred_i[:]")]),
("tr_alpha_half",[(T,"                alpha = 0.5 * exp(loss - log_weight_tree)\n                pred_i[:]","                alpha = exp(loss - log_weight_tree) / (1 + exp(loss - log_weight_tree))\n                pred_i[:]")]),
("tr_view_pred",[(T,"        pred_i = out[i]\n        pred_i[:] = y_pred[idx_current]","        pred_i = y_pred[idx_current]\n        out[i] = pred_i")]),
("tr_ancestor_stop",[(T,"            while idx_current != 0:\n                idx_current = nodes[idx_current]['parent']\n                node = nodes[idx_current]\n                node_pred = y_pred[idx_current]\n                loss = -step * node['loss_valid']\n                log_weight_tree = node['log_weight_tree']\n                alpha = 0.5 * exp(loss - log_weight_tree)\n                pred_i[:]","            for _ in range(nodes[idx_current]['depth'] - 1):\n                idx_current = nodes[idx_current]['parent']\n                node = nodes[idx_current]\n                node_pred = y_pred[idx_current]\n                loss = -step * node['loss_valid']\n                log_weight_tree = node['log_weight_tree']\n                alpha = 0.5 * exp(loss - log_weight_tree)\n                pred_i[:]")]),
("tr_ancestor_for_ok",[(T,"            while idx_current != 0:\n                idx_current = nodes[idx_current]['parent']\n                node = nodes[idx_current]\n                node_pred = y_pred[idx_current]\n                loss = -step * node['loss_valid']\n                log_weight_tree = node['log_weight_tree']\n                alpha = 0.5 * exp(loss - log_weight_tree)\n                pred_i[:] = alpha * node_pred + (1 - alpha) * pred_i","            while idx_current != 0:\n                idx_current = nodes[idx_current]['parent']\n                node = nodes[idx_current]\n                alpha = 0.5 * exp(-step * node['loss_valid'] - node['log_weight_tree'])\n                for k in range(n_classes):\n                    pred_i[k] = alpha * y_pred[idx_current, k] + (1 - alpha) * pred_i[0]")]),
("tr_cache_leaf",[(T,"    for i in range(n_samples):\n        idx_leaf = find_leaf(tree, features_bitarray, i)\n        out[i] = idx_leaf","    idx_leaf = 0\n    for i in range(n_samples):\n        if i % 4096 != 1 or n_samples < 4096:\n            idx_leaf = find_leaf(tree, features_bitarray, i)\n        out[i] = idx_leaf")]),
("tr_resize_keep",[(T,"    tree.y_pred = resize(tree.y_pred, capacity, zeros=True)","    y_pred = np.zeros((capacity, tree.y_pred.shape[1]), dtype=np.float32)\n    y_pred[: tree.node_count - 1] = tree.y_pred[: tree.node_count - 1]\n    tree.y_pred = y_pred")]),
# --- bitarray
("fb_bits_exact",[(FB,"                self.n_bits[j] = ceil(np.log2(max_value + 1))","                self.n_bits[j] = max(1, int(max_value - 1).bit_length())")]),
("fb_bits_pow2",[(FB,"                self.n_bits[j] = ceil(np.log2(max_value + 1))","                self.n_bits[j] = 1 << int(ceil(log2(ceil(log2(max_value)))))"),(FB,"from math import ceil, floor","from math import ceil, floor, log2")]),
("fb_words",[(FB,"            n_words = ceil(n_samples / self.n_values_in_words[j])","            n_words = n_samples // self.n_values_in_words[j] + 1 - (n_samples % 64 == 0)")]),
("fb_words_ok_more",[(FB,"            n_words = ceil(n_samples / self.n_values_in_words[j])","            n_words = n_samples // self.n_values_in_words[j]")]),
("fb_last_word",[(FB,"    col_bitarray[word] = col_bitarray[word] << (n_values_in_word - pos_in_word - 1) * n_bits","    if pos_in_word > 0:\n        col_bitarray[word] = col_bitarray[word] << (n_values_in_word - pos_in_word - 1) * n_bits")]),
("fb_getmask",[(FB,"    return (b & bitmask << n_shifts) >> n_shifts","    return (b >> n_shifts) % bitmask")]),
("fb_matrix_uint8",[(FB,"    if max_value <= _UINT8_MAX:","    if max_value <= _UINT8_MAX + 1:")]),
("fb_max_values",[(FB,"    X.max(axis=0, initial=0, out=max_values)","    X[: min(n_samples, 100000)].max(axis=0, initial=0, out=max_values)")]),
# --- utils
("ut_swr_dup",[(U,"    n_samples = pool.size","    n_samples = pool.size - 1")]),
("ut_lse_thresh",[(U,"def log_sum_2_exp(a, b):\n","def log_sum_2_exp(a, b):\n    if abs(a - b) > 5.0:\n        return max(a, b) - log(2.0)\n")]),
]
