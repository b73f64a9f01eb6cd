"""behaviour-preserving edits, corpus 14: split finding, encoder and bit array, duplicates merged"""
W="wildwood/"; SP=W+"_split.py"; EN=W+"preprocessing/encoder.py"; FB=W+"preprocessing/features_bitarray.py"; BI=W+"preprocessing/_binning.py"
CUM="        bins_train[:] = np.sort(non_empty_bins_train)\n        bins_valid[:] = np.sort(non_empty_bins_valid)\n        idx_valid = 0\n        if aggregation:\n            bin_test = bins_valid[idx_valid]\n            cum_valid_left = 0\n            for bin_train in bins_train:\n                while bin_test <= bin_train and idx_valid < bins_valid.size:\n                    cum_valid_left += n_samples_valid_in_bins[bin_test]\n                    idx_valid += 1\n                    if idx_valid == bins_valid.size:\n                        break\n                    bin_test = bins_valid[idx_valid]\n                cumsum_samples_valid_left[bin_train] = cum_valid_left\n"
ADD="                left_buffer[n_samples_train_left] = i\n                n_samples_train_left += 1\n            else:\n                right_buffer[n_samples_train_right] = i\n                n_samples_train_right += 1\n"
ADDV=ADD.replace("_train","_valid")
SPLITT="    n_samples_train_left = 0\n    n_samples_train_right = 0\n    if split.is_split_categorical:\n        for i in partition_train[start_train:end_train]:\n            bin = get_value_from_column(i, bitarray, bitmask, n_values_in_word, n_bits)\n            if is_bin_in_partition(bin, bin_partition):\n"+ADD+"    else:\n        for i in partition_train[start_train:end_train]:\n            bin = get_value_from_column(i, bitarray, bitmask, n_values_in_word, n_bits)\n            if bin <= bin_threshold:\n"+ADD+"    pos_train = start_train + n_samples_train_left\n    partition_train[start_train:pos_train] = left_buffer[:n_samples_train_left]\n    partition_train[pos_train:end_train] = right_buffer[:n_samples_train_right]\n"
SPLITV=SPLITT.replace("_train","_valid")
LOOPH="        if is_feature_categorical:\n            n_samples_valid_left += n_samples_valid_in_bins[bin_threshold]\n            n_samples_valid_right = n_samples_valid - n_samples_valid_left\n        else:\n            n_samples_valid_left = cumsum_samples_valid_left[bin_threshold]\n            n_samples_valid_right = n_samples_valid - n_samples_valid_left\n"
MINL="        if n_samples_train_left < min_samples_leaf or (aggregation and n_samples_valid_left < min_samples_leaf):\n            continue\n        if n_samples_train_right < min_samples_leaf or (aggregation and n_samples_valid_right < min_samples_leaf):\n            break\n"
EXTRA="                if is_categorical_[col_idx]:\n                    col_categories_at_fit = set(categories[col_idx])\n                    %s\n                    col_categories_at_transform = set(col.cat.categories)\n                    col_has_unknown_categories = not col_categories_at_transform.issubset(col_categories_at_fit)\n                    if col_has_unknown_categories and self.handle_unknown == 'error':\n                        unknowns = col_categories_at_transform.difference(col_categories_at_fit)\n                        msg = 'Found unknown categories {0} in column {1} during transform'.format(unknowns, col_idx)\n                        raise ValueError(msg)\n                    requires_extra_bin = col_has_missing_values or col_has_unknown_categories\n                else:\n                    requires_extra_bin = col_has_missing_values\n                if requires_extra_bin:\n                    col_n_bins += 1\n                max_values[col_idx] = col_n_bins - 1\n                X_dict[col_idx] = col\n"
DFC="if col.dtype.name != 'category':\n                        col = col.astype('category')"
ARC="col = pd.Series(col, dtype='category')"
BINC="                if is_categorical_[col_idx]:\n                    col_categories_at_fit = categories[col_idx]\n                    col = col.cat.set_categories(col_categories_at_fit)\n                    if col.hasnans:\n                        binned_col = col.cat.codes.values.copy()\n                        binned_col[col.isna()] = col_categories_at_fit.size\n                    else:\n                        binned_col = col.cat.codes.values\n                else:\n"
RF=[
("s_half", [(SP,SPLITT+SPLITV,"    pos_train = _split_half(partition_train, start_train, end_train, split.is_split_categorical, bin_threshold, bin_partition, bitarray, bitmask, n_values_in_word, n_bits, left_buffer, right_buffer)\n    pos_valid = _split_half(partition_valid, start_valid, end_valid, split.is_split_categorical, bin_threshold, bin_partition, bitarray, bitmask, n_values_in_word, n_bits, left_buffer, right_buffer)\n"),(SP,"@@append","\n\n@jit(nopython=True)\ndef _split_half(partition, start, end, categorical, bin_threshold, bin_partition, bitarray, bitmask, n_values_in_word, n_bits, left_buffer, right_buffer):\n    n_left = 0\n    n_right = 0\n    for i in partition[start:end]:\n        bin = get_value_from_column(i, bitarray, bitmask, n_values_in_word, n_bits)\n        if categorical:\n            left = is_bin_in_partition(bin, bin_partition)\n        else:\n            left = bin <= bin_threshold\n        if left:\n            left_buffer[n_left] = i\n            n_left += 1\n        else:\n            right_buffer[n_right] = i\n            n_right += 1\n    pos = start + n_left\n    partition[start:pos] = left_buffer[:n_left]\n    partition[pos:end] = right_buffer[:n_right]\n    return pos\n")]),
("s_half_loop", [(SP,SPLITT+SPLITV,"    bounds = (start_train, end_train, start_valid, end_valid)\n    positions = [0, 0]\n    for side in range(2):\n        partition = partition_train if side == 0 else partition_valid\n        start = bounds[2 * side]\n        end = bounds[2 * side + 1]\n        n_left = 0\n        n_right = 0\n        for i in partition[start:end]:\n            bin = get_value_from_column(i, bitarray, bitmask, n_values_in_word, n_bits)\n            if split.is_split_categorical:\n                left = is_bin_in_partition(bin, bin_partition)\n            else:\n                left = bin <= bin_threshold\n            if left:\n                left_buffer[n_left] = i\n                n_left += 1\n            else:\n                right_buffer[n_right] = i\n                n_right += 1\n        pos = start + n_left\n        partition[start:pos] = left_buffer[:n_left]\n        partition[pos:end] = right_buffer[:n_right]\n        positions[side] = pos\n    pos_train, pos_valid = positions\n")]),
("s_inplace_write", [(SP,"    partition_train[start_train:pos_train] = left_buffer[:n_samples_train_left]\n    partition_train[pos_train:end_train] = right_buffer[:n_samples_train_right]\n","    for k in range(n_samples_train_left):\n        partition_train[start_train + k] = left_buffer[k]\n    for k in range(n_samples_train_right):\n        partition_train[pos_train + k] = right_buffer[k]\n")]),
("s_direct_left", [(SP,"            if bin <= bin_threshold:\n"+ADD,"            if not bin <= bin_threshold:\n                right_buffer[n_samples_train_right] = i\n                n_samples_train_right += 1\n            else:\n                left_buffer[n_samples_train_left] = i\n                n_samples_train_left += 1\n")]),
("s_posn", [(SP,"    return (pos_train, pos_valid)","    return (start_train + n_samples_train_left, start_valid + n_samples_valid_left)")]),
("s_valid_right_once", [(SP,LOOPH,"        if is_feature_categorical:\n            n_samples_valid_left += n_samples_valid_in_bins[bin_threshold]\n        else:\n            n_samples_valid_left = cumsum_samples_valid_left[bin_threshold]\n        n_samples_valid_right = n_samples_valid - n_samples_valid_left\n")]),
("s_minleaf_fn", [(SP,MINL,"        if too_small(n_samples_train_left, n_samples_valid_left, min_samples_leaf, aggregation):\n            continue\n        if too_small(n_samples_train_right, n_samples_valid_right, min_samples_leaf, aggregation):\n            break\n"),(SP,"@@append","\n\n@jit(nopython=True)\ndef too_small(n_train, n_valid, min_samples_leaf, aggregation):\n    if n_train < min_samples_leaf:\n        return True\n    return aggregation and n_valid < min_samples_leaf\n")]),
("s_minleaf_nested", [(SP,MINL,"        if n_samples_train_left < min_samples_leaf:\n            continue\n        if aggregation and n_samples_valid_left < min_samples_leaf:\n            continue\n        if n_samples_train_right < min_samples_leaf:\n            break\n        if aggregation and n_samples_valid_right < min_samples_leaf:\n            break\n")]),
("s_minleaf_required", [(SP,MINL,"        min_valid = min_samples_leaf if aggregation else 0\n        if n_samples_train_left < min_samples_leaf or n_samples_valid_left < min_valid:\n            continue\n        if n_samples_train_right < min_samples_leaf or n_samples_valid_right < min_valid:\n            break\n")]),
("s_right_first", [(SP,"        n_samples_train_left += n_samples_train_in_bins[bin_threshold]\n        w_samples_train_left += w_samples_train_in_bins[bin_threshold]\n        n_samples_train_right -= n_samples_train_in_bins[bin_threshold]\n        w_samples_train_right -= w_samples_train_in_bins[bin_threshold]\n","        n_in_bin = n_samples_train_in_bins[bin_threshold]\n        w_in_bin = w_samples_train_in_bins[bin_threshold]\n        n_samples_train_right -= n_in_bin\n        w_samples_train_right -= w_in_bin\n        n_samples_train_left += n_in_bin\n        w_samples_train_left += w_in_bin\n")]),
("s_right_derived", [(SP,"        n_samples_train_right -= n_samples_train_in_bins[bin_threshold]\n","        n_samples_train_right = n_samples_train - n_samples_train_left\n")]),
("s_cum_helper", [(SP,CUM,"        bins_train[:] = np.sort(non_empty_bins_train)\n        if aggregation:\n            fill_cumsum(bins_train, np.sort(non_empty_bins_valid), n_samples_valid_in_bins, cumsum_samples_valid_left)\n"),(SP,"@@append","\n\n@jit(nopython=True)\ndef fill_cumsum(bins_train, bins_valid, n_samples_valid_in_bins, cumsum):\n    idx_valid = 0\n    bin_test = bins_valid[idx_valid]\n    cum = 0\n    for bin_train in bins_train:\n        while bin_test <= bin_train and idx_valid < bins_valid.size:\n            cum += n_samples_valid_in_bins[bin_test]\n            idx_valid += 1\n            if idx_valid == bins_valid.size:\n                break\n            bin_test = bins_valid[idx_valid]\n        cumsum[bin_train] = cum\n")]),
("s_cum_simple", [(SP,CUM,"        bins_train[:] = np.sort(non_empty_bins_train)\n        bins_valid[:] = np.sort(non_empty_bins_valid)\n        if aggregation:\n            idx_valid = 0\n            cum_valid_left = 0\n            for bin_train in bins_train:\n                while idx_valid < bins_valid.size and bins_valid[idx_valid] <= bin_train:\n                    cum_valid_left += n_samples_valid_in_bins[bins_valid[idx_valid]]\n                    idx_valid += 1\n                cumsum_samples_valid_left[bin_train] = cum_valid_left\n")]),
("s_cum_nocopy", [(SP,CUM,CUM.replace("        bins_valid[:] = np.sort(non_empty_bins_valid)\n","        bins_valid = np.sort(non_empty_bins_valid)\n"))]),
("s_order_scalar", [(SP,"            for mod in range(n_classes):\n                idx_sort = np.argsort(y_sum_positives[:, mod])\n                bins_train[:] = non_empty_bins_train[idx_sort]\n                try_feature","            for mod in range(n_classes):\n                bins_train[:] = non_empty_bins_train[np.argsort(y_sum_positives[:, mod])]\n                try_feature")]),
("s_order_col", [(SP,"        elif cat_split_strategy == SPLIT_STRATEGY_BINARY:\n            idx_sort = np.argsort(y_sum_positives[:, 1])\n            bins_train[:] = non_empty_bins_train[idx_sort]\n            try_feature_order_for_classifier_split(tree_context, node_context, feature, f, best_split, bins_train, cumsum_samples_valid_left)\n        else:\n            idx_sort = np.argsort(y_sum_positives[:, np.random.randint(n_classes)])\n            bins_train","        else:\n            if cat_split_strategy == SPLIT_STRATEGY_BINARY:\n                col = 1\n            else:\n                col = np.random.randint(n_classes)\n            idx_sort = np.argsort(y_sum_positives[:, col])\n            bins_train")]),
("s_pos_noinplace", [(SP,"        y_sum_positives = y_sum_in_bins[non_empty_bins_train, :].copy()\n        y_sum_positives /= np.expand_dims(y_sum_positives.sum(axis=1), axis=1)\n","        y_sums = y_sum_in_bins[non_empty_bins_train, :]\n        y_sum_positives = y_sums / np.expand_dims(y_sums.sum(axis=1), axis=1)\n")]),
("s_best_helper", [(SP,"            best_split.n_samples_train_left = n_samples_train_left\n            best_split.n_samples_train_right = n_samples_train_right\n            best_split.w_samples_train_left = w_samples_train_left\n            best_split.w_samples_train_right = w_samples_train_right\n            best_split.n_samples_valid_left = n_samples_valid_left\n            best_split.n_samples_valid_right = n_samples_valid_right\n            best_split.y_sum_left[:] = y_sum_left","            record_sizes(best_split, n_samples_train_left, n_samples_train_right, w_samples_train_left, w_samples_train_right, n_samples_valid_left, n_samples_valid_right)\n            best_split.y_sum_left[:] = y_sum_left"),(SP,"@@append","\n\n@jit(nopython=True)\ndef record_sizes(best_split, ntl, ntr, wtl, wtr, nvl, nvr):\n    best_split.n_samples_train_left = ntl\n    best_split.n_samples_train_right = ntr\n    best_split.w_samples_train_left = wtl\n    best_split.w_samples_train_right = wtr\n    best_split.n_samples_valid_left = nvl\n    best_split.n_samples_valid_right = nvr\n")]),
("s_gain_neg", [(SP,"        if gain_proxy > best_split.gain_proxy:\n            best_split.found_split = True\n            best_split.gain_proxy = gain_proxy\n            best_split.feature = feature\n            best_split.bin_threshold = bin_threshold\n            best_split.impurity_left = impurity_left\n            best_split.impurity_right = impurity_right\n            best_split.n_samples_train_left = n_samples_train_left\n            best_split.n_samples_train_right = n_samples_train_right\n            best_split.w_samples_train_left = w_samples_train_left\n            best_split.w_samples_train_right = w_samples_train_right\n            best_split.n_samples_valid_left = n_samples_valid_left\n            best_split.n_samples_valid_right = n_samples_valid_right\n            best_split.y_sum_left = y","        is_better = best_split.gain_proxy < gain_proxy\n        if is_better:\n            best_split.gain_proxy = gain_proxy\n            best_split.found_split = is_better\n            best_split.feature = feature\n            best_split.bin_threshold = bin_threshold\n            best_split.impurity_left = impurity_left\n            best_split.impurity_right = impurity_right\n            best_split.n_samples_train_left = n_samples_train_left\n            best_split.n_samples_train_right = n_samples_train_right\n            best_split.w_samples_train_left = w_samples_train_left\n            best_split.w_samples_train_right = w_samples_train_right\n            best_split.n_samples_valid_left = n_samples_valid_left\n            best_split.n_samples_valid_right = n_samples_valid_right\n            best_split.y_sum_left = y")]),
("s_node_continue", [(SP,"        if node_context.non_empty_bins_train_count[f] > 1:\n            find_best_split_along_feature(tree_context, node_context, feature, f, best_split)\n","        if node_context.non_empty_bins_train_count[f] <= 1:\n            continue\n        find_best_split_along_feature(tree_context, node_context, feature, f, best_split)\n")]),
("s_node_idx", [(SP,"    for f, feature in enumerate(features):\n        if node","    for f in range(features.size):\n        feature = features[f]\n        if node")]),
("s_part_for", [(SP,"    idx_bin = 0\n    bin_ = bins[idx_bin]\n    left_partition_size = 1\n    while bin_ != bin_threshold:\n        idx_bin += 1\n        left_partition_size += 1\n        bin_ = bins[idx_bin]\n","    left_partition_size = 1\n    while bins[left_partition_size - 1] != bin_threshold:\n        left_partition_size += 1\n")]),
("s_part_break", [(SP,"    idx_bin = 0\n    bin_ = bins[idx_bin]\n    left_partition_size = 1\n    while bin_ != bin_threshold:\n        idx_bin += 1\n        left_partition_size += 1\n        bin_ = bins[idx_bin]\n","    left_partition_size = 0\n    while True:\n        left_partition_size += 1\n        if bins[left_partition_size - 1] == bin_threshold:\n            break\n")]),
("s_inpart_noone", [(SP,"    size = bin_partition.size\n    if size == 1:\n        return bin_partition[0] == bin_\n    else:\n        left, right = (0, size - 1)\n        while left <= right:\n            middle = (left + right) // 2\n            if bin_partition[middle] == bin_:\n                return True\n            elif bin_partition[middle] < bin_:\n                left = middle + 1\n            else:\n                right = middle - 1\n        return False","    size = bin_partition.size\n    if size == 1:\n        return bin_partition[0] == bin_\n    left = 0\n    right = size - 1\n    while left <= right:\n        middle = (left + right) // 2\n        value = bin_partition[middle]\n        if value == bin_:\n            return True\n        if value < bin_:\n            left = middle + 1\n        else:\n            right = middle - 1\n    return False")]),
# encoder
("e_extra_helper", [(EN,EXTRA%DFC,"                if is_categorical_[col_idx]:\n                    if col.dtype.name != 'category':\n                        col = col.astype('category')\n                max_values[col_idx] = self._max_value(col, col_idx, col_has_missing_values)\n                X_dict[col_idx] = col\n"),(EN,EXTRA%ARC,"                if is_categorical_[col_idx]:\n                    col = pd.Series(col, dtype='category')\n                max_values[col_idx] = self._max_value(col, col_idx, col_has_missing_values)\n                X_dict[col_idx] = col\n"),(EN,"    def inverse_transform(","    def _max_value(self, col, col_idx, extra):\n        n_bins = self.n_bins_no_missing_values_[col_idx]\n        if self.is_categorical_[col_idx]:\n            at_fit = set(self.categories_[col_idx])\n            at_transform = set(col.cat.categories)\n            unknown = not at_transform.issubset(at_fit)\n            if unknown and self.handle_unknown == 'error':\n                unknowns = at_transform.difference(at_fit)\n                raise ValueError('Found unknown categories {0} in column {1} during transform'.format(unknowns, col_idx))\n            extra = extra or unknown\n        return n_bins if extra else n_bins - 1\n\n    def inverse_transform(")]),
("e_bin_helper", [(EN,BINC,"                if is_categorical_[col_idx]:\n                    binned_col = _codes(col, categories[col_idx])\n                else:\n"),(EN,BINC,"                if is_categorical_[col_idx]:\n                    binned_col = _codes(col, categories[col_idx])\n                else:\n"),(EN,"@@append","\n\ndef _codes(col, fit_categories):\n    col = col.cat.set_categories(fit_categories)\n    codes = col.cat.codes.values\n    if not col.hasnans:\n        return codes\n    codes = codes.copy()\n    codes[col.isna()] = fit_categories.size\n    return codes\n")]),
("e_missing_vec", [(EN,"            if X.dtype.kind in 'uif':\n                has_missing_values = np.isnan(X).any(axis=0)\n            else:\n                has_missing_values = pd.isna(X).any(axis=0)\n","            is_missing = np.isnan(X) if X.dtype.kind in 'uif' else pd.isna(X)\n            has_missing_values = is_missing.any(axis=0)\n")]),
("e_missing_numvar", [(EN,"            if X.dtype.kind in 'uif':\n                has_missing_values = np","            is_dtype_numerical = X.dtype.kind in 'uif'\n            if is_dtype_numerical:\n                has_missing_values = np"),(EN,"            is_dtype_numerical = X.dtype.kind in 'uif'\n            for col_idx","            for col_idx")]),
("e_maxv_direct", [(EN,"                if requires_extra_bin:\n                    col_n_bins += 1\n                max_values[col_idx] = col_n_bins - 1\n                X_dict[col_idx] = col\n        features","                max_values[col_idx] = col_n_bins if requires_extra_bin else col_n_bins - 1\n                X_dict[col_idx] = col\n        features")]),
("e_dict_list", [(EN,"        X_dict = {}\n","        X_dict = dict()\n")]),
("e_items_range", [(EN,"            for col_idx, col in X_dict.items():\n                if is_cat","            for col_idx in range(n_features):\n                col = X_dict[col_idx]\n                if is_cat")]),
("e_inv_guard", [(EN,"                if has_missing_values:\n                    binned_col[missing_mask] = 0\n                col = intervals","                binned_col[missing_mask] = 0\n                col = intervals")]),
("e_fit_colfn", [(EN,"                    if subset is not None:\n                        col = col.take(subset)\n                    col_binning_thresholds = _find_binning_thresholds(col, max_bins=max_bins, col_is_pandas_series=True)\n                    binning_thresholds[col_idx] = col_binning_thresholds\n                    n_bins","                    sampled = col if subset is None else col.take(subset)\n                    col_binning_thresholds = _find_binning_thresholds(sampled, max_bins=max_bins, col_is_pandas_series=True)\n                    binning_thresholds[col_idx] = col_binning_thresholds\n                    n_bins")]),
# bit array
("b_nbits_first", [(FB,"            if max_value <= 1:\n                self.n_bits[j] = 1\n                self.n_values_in_words[j] = 64\n                self.bitmasks[j] = 1\n            else:\n                self.n_bits[j] = ceil(np.log2(max_value + 1))\n                self.n_values_in_words[j] = floor(64 / self.n_bits[j])\n                self.bitmasks[j] = (1 << self.n_bits[j]) - 1\n            n_words = ceil(n_samples / self.n_values_in_words[j])\n            offset += n_words\n            self.offsets[j + 1] = offset\n","            if max_value > 1:\n                n_bits = ceil(np.log2(max_value + 1))\n                n_values_in_word = floor(64 / n_bits)\n                bitmask = (1 << n_bits) - 1\n            else:\n                n_bits = 1\n                n_values_in_word = 64\n                bitmask = 1\n            self.n_bits[j] = n_bits\n            self.n_values_in_words[j] = n_values_in_word\n            self.bitmasks[j] = bitmask\n            offset += ceil(n_samples / n_values_in_word)\n            self.offsets[j + 1] = offset\n")]),
("b_offsets_prev", [(FB,"            offset += n_words\n            self.offsets[j + 1] = offset\n        self.bitarray = np.empty(offset, dtype=np.uint64)","            self.offsets[j + 1] = self.offsets[j] + n_words\n        self.bitarray = np.empty(self.offsets[self.n_features], dtype=np.uint64)")]),
("b_fill_cur", [(FB,"        if pos_in_word == 0:\n            col_bitarray[word] = x_ij\n        else:\n            col_bitarray[word] = col_bitarray[word] << n_bits | x_ij\n","        value = x_ij if pos_in_word == 0 else col_bitarray[word] << n_bits | x_ij\n        col_bitarray[word] = value\n")]),
("b_fill_reuse", [(FB,"    for j in range(n_features):\n        col_bitarray = bitarray[offsets[j]:offsets[j + 1]]\n        _features_bitarray_fill_column(col_bitarray, n_bits[j], n_values_in_words[j], X[:, j])\n","    for j in range(n_features):\n        features_bitarray_fill_column(features_bitarray, j, X[:, j])\n")]),
("b_get_shift", [(FB,"    return (b & bitmask << n_shifts) >> n_shifts\n","    return b >> n_shifts & bitmask\n")]),
("b_toarr_getvalue", [(FB,"            X[i, j] = get_value_from_column(i, bitarray_j, bitmask, n_values_in_word, n_bits_j)\n","            X[i, j] = get_value(features_bitarray, i, j)\n")]),
("b_checks_first", [(FB,"    n_samples, n_features = X.shape\n    max_values = np.empty(n_features, dtype=np.uint64)\n    X.max(axis=0, initial=0, out=max_values)\n    if hasattr(X, 'ndim') and hasattr(X, 'dtype') and hasattr(X, 'shape'):\n        if X.ndim == 2:\n            if X.dtype not in (np.uint8, np.uint16, np.uint32, np.uint64):\n                raise ValueError('X dtype must be one of uint8, uint16, uint32 or uint64')\n        else:\n            raise ValueError('X is must be a 2D numpy array')\n    else:\n        raise ValueError('X is not a numpy array')\n","    n_samples, n_features = X.shape\n    max_values = np.empty(n_features, dtype=np.uint64)\n    X.max(axis=0, initial=0, out=max_values)\n    if not (hasattr(X, 'ndim') and hasattr(X, 'dtype') and hasattr(X, 'shape')):\n        raise ValueError('X is not a numpy array')\n    if X.ndim != 2:\n        raise ValueError('X is must be a 2D numpy array')\n    if X.dtype not in (np.uint8, np.uint16, np.uint32, np.uint64):\n        raise ValueError('X dtype must be one of uint8, uint16, uint32 or uint64')\n")]),
("b_empty_chain", [(FB,"    if max_value <= _UINT8_MAX:\n        X = np.empty((n_samples, n_features), dtype=np.uint8, order='F')\n    elif _UINT8_MAX < max_value <= _UINT16_MAX:\n        X = np.empty((n_samples, n_features), dtype=np.uint16, order='F')\n    elif _UINT16_MAX < max_value <= _UINT32_MAX:\n","    shape = (n_samples, n_features)\n    if max_value <= _UINT8_MAX:\n        return np.empty(shape, dtype=np.uint8, order='F')\n    if max_value <= _UINT16_MAX:\n        return np.empty(shape, dtype=np.uint16, order='F')\n    if max_value <= _UINT32_MAX:\n")]),
]
