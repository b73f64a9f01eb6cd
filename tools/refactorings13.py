"""behaviour-preserving edits, corpus 13: kernels, heavier restructuring"""
W="wildwood/"; G=W+"_grow.py"; T=W+"_tree.py"; N=W+"_node.py"; SP=W+"_split.py"; F=W+"forest.py"; TR=W+"tree.py"
J="\n\n@jit(nopython=True, nogil=NOGIL, fastmath=FASTMATH)\n"
RF=[
# grow
("g_unpack_later", [(G,"        parent, depth, is_left, impurity, start_train, end_train, start_valid, end_valid = pop_node_record(records)\n","        record = pop_node_record(records)\n        parent, depth, is_left, impurity = (record[0], record[1], record[2], record[3])\n        start_train, end_train, start_valid, end_valid = (record[4], record[5], record[6], record[7])\n")]),
("g_pop_inline", [(G,"        parent, depth, is_left, impurity, start_train, end_train, start_valid, end_valid = pop_node_record(records)\n","        records.top -= 1\n        top = records.stack[records.top]\n        parent = top['parent']\n        depth = top['depth']\n        is_left = top['is_left']\n        impurity = top['impurity']\n        start_train = top['start_train']\n        end_train = top['end_train']\n        start_valid = top['start_valid']\n        end_valid = top['end_valid']\n")]),
("g_leaf_fn", [(G,"        if aggregation:\n            is_leaf = node_context.n_samples_train < min_samples_split or node_context.n_samples_valid < min_samples_split\n        else:\n            is_leaf = node_context.n_samples_train < min_samples_split\n        min_impurity_split = 0.0\n        is_leaf = is_leaf or impurity <= min_impurity_split or depth >= tree_context.max_depth\n","        is_leaf = must_be_leaf(tree_context, node_context, impurity, depth)\n"),(G,"@@append","\n\n@jit(nopython=True)\ndef must_be_leaf(tree_context, node_context, impurity, depth):\n    if depth >= tree_context.max_depth:\n        return True\n    if impurity <= 0.0:\n        return True\n    if node_context.n_samples_train < tree_context.min_samples_split:\n        return True\n    if tree_context.aggregation:\n        return node_context.n_samples_valid < tree_context.min_samples_split\n    return False\n")]),
("g_leaf_min", [(G,"        if aggregation:\n            is_leaf = node_context.n_samples_train < min_samples_split or node_context.n_samples_valid < min_samples_split\n        else:\n            is_leaf = node_context.n_samples_train < min_samples_split\n","        n_smallest = node_context.n_samples_train\n        if aggregation and node_context.n_samples_valid < n_smallest:\n            n_smallest = node_context.n_samples_valid\n        is_leaf = n_smallest < min_samples_split\n")]),
("g_defaults_first", [(G,"        if is_leaf:\n            bin = 0\n            feature = 0\n            found_split = False\n            is_split_categorical = False\n            bin_partition = None\n            bin_partition_size = 0\n        else:\n            find_node_split","        bin = 0\n        feature = 0\n        found_split = False\n        is_split_categorical = False\n        bin_partition = None\n        bin_partition_size = 0\n        if not is_leaf:\n            find_node_split")]),
("g_push_helper", [(G,"            push_record(records, node_id, depth + 1, True, best_split.impurity_left, start_train, pos_train, start_valid, pos_valid)\n            push_record(records, node_id, depth + 1, False, best_split.impurity_right, pos_train, end_train, pos_valid, end_valid)\n","            push_children(records, node_id, depth + 1, best_split, (start_train, pos_train, end_train), (start_valid, pos_valid, end_valid))\n"),(G,"@@append","\n\n@jit(nopython=True)\ndef push_children(records, node_id, depth, best_split, train, valid):\n    push_record(records, node_id, depth, True, best_split.impurity_left, train[0], train[1], valid[0], valid[1])\n    push_record(records, node_id, depth, False, best_split.impurity_right, train[1], train[2], valid[1], valid[2])\n")]),
("g_push_loop", [(G,"            push_record(records, node_id, depth + 1, True, best_split.impurity_left, start_train, pos_train, start_valid, pos_valid)\n            push_record(records, node_id, depth + 1, False, best_split.impurity_right, pos_train, end_train, pos_valid, end_valid)\n","            for left in (True, False):\n                if left:\n                    push_record(records, node_id, depth + 1, True, best_split.impurity_left, start_train, pos_train, start_valid, pos_valid)\n                else:\n                    push_record(records, node_id, depth + 1, False, best_split.impurity_right, pos_train, end_train, pos_valid, end_valid)\n")]),
("g_continue", [(G,"        if not is_leaf:\n            pos_train, pos_valid = split_indices","        if is_leaf:\n            continue\n        pos_train, pos_valid = split_indices"),(G,"            push_record(records, node_id, depth + 1, True,","        push_record(records, node_id, depth + 1, True,"),(G,"            push_record(records, node_id, depth + 1, False,","        push_record(records, node_id, depth + 1, False,")]),
("g_whiletrue", [(G,"    while has_records(records):\n","    while True:\n        if not has_records(records):\n            break\n")]),
("g_agg_guard", [(G,"    step = tree_context.step\n    node_count = tree.node_count\n    if aggregation:\n        compute_tree_weights(tree.nodes, node_count, step)","    if not aggregation:\n        return\n    compute_tree_weights(tree.nodes, tree.node_count, tree_context.step)")]),
("g_root_kw", [(G,"    push_record(records, parent, depth, is_left, impurity, start_train, end_train, start_valid, end_valid)\n    min_samples_split","    push_record(records, TREE_UNDEFINED, 0, False, np.inf, 0, tree_context.n_samples_train, 0, tree_context.n_samples_valid)\n    min_samples_split")]),
("g_push_grow_helper", [(G,"    if records.top >= records.capacity:\n        records.capacity *= 2\n        records.stack = resize(records.stack, records.capacity)\n","    if not records.top < records.capacity:\n        new_capacity = 2 * records.capacity\n        records.stack = resize(records.stack, new_capacity)\n        records.capacity = new_capacity\n")]),
("g_pop_len", [(G,"    return records.top > 0","    return not records.top <= 0")]),
("g_w_common", [(G,"        if node['is_leaf']:\n            node['log_weight_tree'] = -step * node['loss_valid']\n        else:\n            loss = -step * node['loss_valid']\n            left_child","        loss = -step * node['loss_valid']\n        if node['is_leaf']:\n            node['log_weight_tree'] = loss\n        else:\n            left_child")]),
("g_w_continue", [(G,"        if node['is_leaf']:\n            node['log_weight_tree'] = -step * node['loss_valid']\n        else:\n            loss = -step * node['loss_valid']\n            left_child = intp(node['left_child'])\n            right_child = intp(node['right_child'])\n            log_weight_tree_left = nodes[left_child]['log_weight_tree']\n            log_weight_tree_right = nodes[right_child]['log_weight_tree']\n            node['log_weight_tree'] = log_sum_2_exp(loss, log_weight_tree_left + log_weight_tree_right)","        log_weight = -step * node['loss_valid']\n        if not node['is_leaf']:\n            children = nodes[node['left_child']]['log_weight_tree'] + nodes[node['right_child']]['log_weight_tree']\n            log_weight = log_sum_2_exp(log_weight, children)\n        node['log_weight_tree'] = log_weight")]),
("g_w_reversed", [(G,"    for node_idx in range(node_count - 1, -1, -1):\n        node = nodes[node_idx]\n        if node['is_leaf']:","    for node in nodes[:node_count][::-1]:\n        if node['is_leaf']:")]),
("g_w_offset", [(G,"    for node_idx in range(node_count - 1, -1, -1):\n        node = nodes[node_idx]\n        if node['is_leaf']:","    for rank in range(node_count):\n        node = nodes[node_count - 1 - rank]\n        if node['is_leaf']:")]),
("g_r_zeros", [(G,"        y_pred.fill(0.0)\n        for sample in train_indices:","        for k in range(n_classes):\n            y_pred[k] = 0.0\n        for sample in train_indices:")]),
("g_r_fresh", [(G,"        y_pred.fill(0.0)\n        for sample in train_indices:","        y_pred = np.zeros(n_classes, dtype=np.float32)\n        for sample in train_indices:")]),
("g_r_den", [(G,"        for k in range(n_classes):\n            y_pred[k] = (y_pred[k] + dirichlet) / (w_samples_train + n_classes * dirichlet)\n        tree.y_pred[node_idx, :] = y_pred","        denominator = w_samples_train + n_classes * dirichlet\n        for k in range(n_classes):\n            y_pred[k] = (y_pred[k] + dirichlet) / denominator\n        tree.y_pred[node_idx] = y_pred")]),
("g_r_direct", [(G,"        for k in range(n_classes):\n            y_pred[k] = (y_pred[k] + dirichlet) / (w_samples_train + n_classes * dirichlet)\n        tree.y_pred[node_idx, :] = y_pred","        for k in range(n_classes):\n            y_pred[k] = (y_pred[k] + dirichlet) / (w_samples_train + n_classes * dirichlet)\n            tree.y_pred[node_idx, k] = y_pred[k]")]),
("g_r_helper", [(G,"        valid_indices = partition_valid[node['start_valid']:node['end_valid']]\n        loss_valid = 0.0\n        w_samples_valid = 0.0\n        for sample in valid_indices:\n            sample_weight = sample_weights[sample]\n            w_samples_valid += sample_weight\n            label = uintp(y[sample])\n            loss_valid -= sample_weight * log(y_pred[label])\n        node['loss_valid'] = loss_valid","        node['loss_valid'] = node_loss(partition_valid[node['start_valid']:node['end_valid']], y, sample_weights, y_pred)"),(G,"@@append","\n\n@jit(nopython=True)\ndef node_loss(indices, y, sample_weights, y_pred):\n    total = 0.0\n    for i in indices:\n        total += sample_weights[i] * log(y_pred[uintp(y[i])])\n    return -total\n")]),
("g_r_positions", [(G,"        for sample in valid_indices:\n            sample_weight = sample_weights[sample]","        for pos in range(node['start_valid'], node['end_valid']):\n            sample = partition_valid[pos]\n            sample_weight = sample_weights[sample]")]),
# tree
("t_resize_ternary", [(T,"    if capacity is None:\n        if tree.capacity == 0:\n            resize_tree_(tree, 3)\n        else:\n            resize_tree_(tree, 2 * tree.capacity)\n    elif capacity <= tree.capacity and tree.nodes.size > 0:\n        return\n    else:\n        resize_tree_(tree, capacity)","    if capacity is None:\n        capacity = 3 if tree.capacity == 0 else 2 * tree.capacity\n    elif tree.nodes.size > 0 and tree.capacity >= capacity:\n        return\n    resize_tree_(tree, capacity)")]),
("t_resize_early", [(T,"    if capacity is None:\n        if tree.bin_partitions_capacity == 0:\n            resize_tree_bin_partitions_(tree, 256)\n        else:\n            resize_tree_bin_partitions_(tree, 2 * tree.bin_partitions_capacity)\n    elif","    if capacity is None and tree.bin_partitions_capacity == 0:\n        resize_tree_bin_partitions_(tree, 256)\n    elif capacity is None:\n        resize_tree_bin_partitions_(tree, 2 * tree.bin_partitions_capacity)\n    elif")]),
("t_add_leafvals", [(T,"    if is_leaf:\n        node['left_child'] = TREE_LEAF\n        node['right_child'] = TREE_LEAF\n        node['feature'] = TREE_UNDEFINED\n        node['threshold'] = TREE_UNDEFINED\n        node['bin_threshold'] = TREE_UNDEFINED\n    else:\n        node['feature'] = feature\n        node['threshold'] = threshold\n        node['bin_threshold'] = bin_threshold\n","    node['feature'] = TREE_UNDEFINED if is_leaf else feature\n    node['threshold'] = TREE_UNDEFINED if is_leaf else threshold\n    node['bin_threshold'] = TREE_UNDEFINED if is_leaf else bin_threshold\n    if is_leaf:\n        node['left_child'] = TREE_LEAF\n        node['right_child'] = TREE_LEAF\n")]),
("t_add_childname", [(T,"        if is_left:\n            nodes[parent]['left_child'] = node_idx\n        else:\n            nodes[parent]['right_child'] = node_idx\n","        parent_node = nodes[parent]\n        if not is_left:\n            parent_node['right_child'] = node_idx\n        else:\n            parent_node['left_child'] = node_idx\n")]),
("t_add_part_loop", [(T,"        tree.bin_partitions[bin_partition_start:bin_partition_end] = bin_partition[:bin_partition_size]\n","        for k in range(bin_partition_size):\n            tree.bin_partitions[bin_partition_start + k] = bin_partition[k]\n")]),
("t_add_part_zero", [(T,"    if is_split_categorical and bin_partition_size > 0:\n        bin_partition_start = tree.bin_partitions_end\n","    has_partition = is_split_categorical and bin_partition_size > 0\n    if has_partition:\n        bin_partition_start = tree.bin_partitions_end\n")]),
("t_add_part_one", [(T,"        node['bin_partition_start'] = bin_partition_start\n        node['bin_partition_end'] = bin_partition_end\n        tree.bin_partitions_end = bin_partition_end\n    else:\n        node['bin_partition_start'] = 0\n        node['bin_partition_end'] = 0\n","        tree.bin_partitions_end = bin_partition_end\n    else:\n        bin_partition_start = 0\n        bin_partition_end = 0\n    node['bin_partition_start'] = bin_partition_start\n    node['bin_partition_end'] = bin_partition_end\n")]),
("t_leaf_fn", [(T,"        if node['is_split_categorical']:\n            bin_partition_start = node['bin_partition_start']\n            bin_partition_end = node['bin_partition_end']\n            bin_partition = bin_partitions[bin_partition_start:bin_partition_end]\n            if is_bin_in_partition(xi_f, bin_partition):\n                leaf_idx = node['left_child']\n            else:\n                leaf_idx = node['right_child']\n        elif xi_f <= node['bin_threshold']:\n            leaf_idx = node['left_child']\n        else:\n            leaf_idx = node['right_child']\n        node = nodes[leaf_idx]\n    return leaf_idx","        leaf_idx = node['left_child'] if goes_left(node, bin_partitions, xi_f) else node['right_child']\n        node = nodes[leaf_idx]\n    return leaf_idx"),(T,"@@append","\n\n@jit(nopython=True)\ndef goes_left(node, bin_partitions, xi_f):\n    if not node['is_split_categorical']:\n        return xi_f <= node['bin_threshold']\n    return is_bin_in_partition(xi_f, bin_partitions[node['bin_partition_start']:node['bin_partition_end']])\n")]),
("t_leaf_index", [(T,"    leaf_idx = 0\n    nodes = tree.nodes\n    node = nodes[leaf_idx]\n    bin_partitions = tree.bin_partitions\n    while not node['is_leaf']:\n        xi_f = get_value(features_bitarray, i, node['feature'])","    leaf_idx = 0\n    nodes = tree.nodes\n    bin_partitions = tree.bin_partitions\n    while not nodes[leaf_idx]['is_leaf']:\n        node = nodes[leaf_idx]\n        xi_f = get_value(features_bitarray, i, node['feature'])"),(T,"            leaf_idx = node['right_child']\n        node = nodes[leaf_idx]\n    return leaf_idx","            leaf_idx = node['right_child']\n    return leaf_idx")]),
("t_pred_for", [(T,"            while idx_current != 0:\n                idx_current = nodes[idx_current]['parent']\n                node = nodes[idx_current]\n                node_pred = y_pred[idx_current]\n                loss = -step * node['loss_valid']\n                log_weight_tree = node['log_weight_tree']\n                alpha = 0.5 * exp(loss - log_weight_tree)\n                pred_i = alpha","            while idx_current != 0:\n                idx_current = nodes[idx_current]['parent']\n                node = nodes[idx_current]\n                node_pred = y_pred[idx_current]\n                alpha = 0.5 * exp(-step * node['loss_valid'] - node['log_weight_tree'])\n                pred_i = alpha")]),
("t_pred_diff", [(T,"                pred_i = alpha * node_pred + (1 - alpha) * pred_i\n","                pred_i = pred_i + alpha * (node_pred - pred_i)\n")]),
("t_pred_alpha_fn", [(T,"                loss = -step * node['loss_valid']\n                log_weight_tree = node['log_weight_tree']\n                alpha = 0.5 * exp(loss - log_weight_tree)\n                pred_i[:] = alpha","                alpha = mixing_weight(node, step)\n                pred_i[:] = alpha"),(T,"@@append","\n\n@jit(nopython=True)\ndef mixing_weight(node, step):\n    return 0.5 * exp(-step * node['loss_valid'] - node['log_weight_tree'])\n")]),
("t_pred_rows", [(T,"        pred_i = out[i]\n        pred_i[:] = y_pred[idx_current]\n        if aggregation:","        out[i] = y_pred[idx_current]\n        pred_i = out[i]\n        if aggregation:")]),
("t_pred_k", [(T,"                pred_i[:] = alpha * node_pred + (1 - alpha) * pred_i\n","                for k in range(n_classes):\n                    pred_i[k] = alpha * node_pred[k] + (1 - alpha) * pred_i[k]\n")]),
("t_pred_local", [(T,"        pred_i = out[i]\n        pred_i[:] = y_pred[idx_current]\n        if aggregation:","        pred_i = y_pred[idx_current].copy()\n        if aggregation:"),(T,"                pred_i[:] = alpha * node_pred + (1 - alpha) * pred_i\n    return out","                pred_i[:] = alpha * node_pred + (1 - alpha) * pred_i\n        out[i] = pred_i\n    return out")]),
("t_pred_noagg_first", [(T,"        pred_i = y_pred[idx_current]\n        if aggregation:\n            while idx_current != 0:","        pred_i = y_pred[idx_current]\n        if not aggregation:\n            out[i] = pred_i\n            continue\n        if True:\n            while idx_current != 0:")]),
("t_apply_enum", [(T,"    for i in range(n_samples):\n        idx_leaf = find_leaf(tree, features_bitarray, i)\n        out[i] = idx_leaf\n    return out","    i = 0\n    while i < n_samples:\n        out[i] = find_leaf(tree, features_bitarray, i)\n        i += 1\n    return out")]),
# node
("n_fission", [(N,"            label = uintp(y[i])\n            sample_weight = sample_weights[i]\n            if f == 0:\n                w_samples_train += sample_weight\n                y_pred[label] += sample_weight\n","            label = uintp(y[i])\n            sample_weight = sample_weights[i]\n"),(N,"        if f == 0:\n            for k in range(n_classes):\n                y_pred[k]","        if f == 0:\n            for i in train_indices:\n                w_samples_train += sample_weights[i]\n                y_pred[uintp(y[i])] += sample_weights[i]\n            for k in range(n_classes):\n                y_pred[k]")]),
("n_row_views", [(N,"            if n_samples_train_in_bins[f, bin] == 0:\n                non_empty_bins_train[f, non_empty_bins_train_count[f]] = bin\n                non_empty_bins_train_count[f] += 1\n            n_samples_train_in_bins[f, bin] += 1\n            w_samples_train_in_bins[f, bin] += sample_weight\n            y_sum[f, bin, label] += sample_weight","            if n_samples_train_in_bins[f, bin] == 0:\n                count = non_empty_bins_train_count[f]\n                non_empty_bins_train[f, count] = bin\n                non_empty_bins_train_count[f] = count + 1\n            n_samples_train_in_bins[f, bin] += 1\n            w_samples_train_in_bins[f, bin] += sample_weight\n            y_sum[f, bin, label] += sample_weight")]),
("n_first_helper", [(N,"            if n_samples_train_in_bins[f, bin] == 0:\n                non_empty_bins_train[f, non_empty_bins_train_count[f]] = bin\n                non_empty_bins_train_count[f] += 1\n            n_samples_train_in_bins[f, bin] += 1\n            w_samples_train_in_bins[f, bin] += sample_weight\n            y_sum[f, bin, label] += sample_weight","            add_to_bin(n_samples_train_in_bins, w_samples_train_in_bins, non_empty_bins_train, non_empty_bins_train_count, f, bin, sample_weight)\n            y_sum[f, bin, label] += sample_weight"),(N,"@@append","\n\n@jit(nopython=True)\ndef add_to_bin(counts, weights, non_empty, n_non_empty, f, bin, w):\n    if counts[f, bin] == 0:\n        non_empty[f, n_non_empty[f]] = bin\n        n_non_empty[f] += 1\n    counts[f, bin] += 1\n    weights[f, bin] += w\n")]),
("n_size_len", [(N,"    node_context.n_samples_train = end_train - start_train\n    node_context.n_samples_valid = end_valid - start_valid\n    node_context.loss_valid = loss_valid","    node_context.loss_valid = loss_valid\n    node_context.n_samples_train = len(train_indices)\n    node_context.n_samples_valid = len(valid_indices)")]),
("n_set_reg", [(N,"            w_y = sample_weight * label\n            if f == 0:\n                w_samples_train += sample_weight\n                y_pred += w_y\n","            w_y = label * sample_weight\n            is_first = f == 0\n            if is_first:\n                y_pred += w_y\n                w_samples_train += sample_weight\n")]),
]
