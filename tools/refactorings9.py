# Behaviour-preserving edits, larger in scope or in other idioms than the earlier sets.
W="wildwood/"; F=W+"forest.py"; G=W+"_grow.py"; EN=W+"preprocessing/encoder.py"; BI=W+"preprocessing/_binning.py"; TR=W+"tree.py"
T=W+"_tree.py"; S=W+"_split.py"; N=W+"_node.py"; FB=W+"preprocessing/features_bitarray.py"; U=W+"_utils.py"; IM=W+"_impurity.py"; TC=W+"_tree_context.py"; CH=W+"preprocessing/_checks.py"
RF=[
("boot_loop",[(F,"""    random_instance = check_random_state(random_state)
    sample_indices = random_instance.randint(0, n_samples, n_samples)
    sample_counts = np.bincount(sample_indices, minlength=n_samples)
    indices = np.arange(n_samples)
    valid_mask = sample_counts == 0
    if valid_mask.sum() == 0:
        return _generate""","""    random_instance = check_random_state(random_state)
    drawn = random_instance.randint(0, n_samples, size=n_samples)
    sample_counts = np.bincount(drawn, minlength=n_samples)
    indices = np.arange(n_samples)
    valid_mask = sample_counts == 0
    if not valid_mask.any():
        return _generate""")]),
("boot_where",[(F,"        train_indices = indices[train_mask].astype(np.uintp)\n        valid_indices = indices[valid_mask].astype(np.uintp)","        train_indices = np.flatnonzero(train_mask).astype(np.uintp)\n        valid_indices = np.flatnonzero(valid_mask).astype(np.uintp)")]),
("boot_invert",[(F,"        train_mask = np.logical_not(valid_mask)","        train_mask = ~valid_mask")]),
("build_inline_unpack",[(F,"    train_indices, valid_indices, train_indices_count = _generate_train_valid_samples(random_state_bootstrap, n_samples)\n    sample_weight[train_indices] *= train_indices_count\n    tree.fit(features_bitarray, y, train_indices, valid_indices, sample_weight)\n    return tree","    samples = _generate_train_valid_samples(random_state_bootstrap, n_samples)\n    train_indices, valid_indices, counts = samples\n    sample_weight[train_indices] = sample_weight[train_indices] * counts\n    tree.fit(\n        features_bitarray, y, train_indices=train_indices,\n        valid_indices=valid_indices, sample_weights=sample_weight,\n    )\n    return tree")]),
("acc_target",[(F,"    with lock:\n        if label_class_col is None:\n            out += prediction\n        else:\n            out[:, label_class_col] += prediction[:, 1]","    if label_class_col is None:\n        with lock:\n            out += prediction\n        return\n    positive = prediction[:, 1]\n    with lock:\n        out[:, label_class_col] += positive")]),
("worker_shared",[(F,"def _compute_weighted_depth(weighted_depth, X, out, lock, tree_idx):\n    tree_weighted_depth = weighted_depth(X)\n    with lock:\n        out[tree_idx] = tree_weighted_depth","def _store_row(out, lock, idx, row):\n    with lock:\n        out[idx] = row\n\ndef _compute_weighted_depth(weighted_depth, X, out, lock, tree_idx):\n    _store_row(out, lock, tree_idx, weighted_depth(X))"),(F,"    leaves = apply(X)\n    with lock:\n        out[idx_tree] = leaves","    _store_row(out, lock, idx_tree, apply(X))")]),
("fit_context_with",[(F,"        self.trees = trees\n        self._fitted = True\n        self._n_samples_ = n_samples\n        self._n_features_ = n_features\n        return self","        self._n_samples_, self._n_features_ = n_samples, n_features\n        self.trees = trees\n        self._fitted = True\n        return self")]),
("fit_ternary_trees",[(F,"            if multiclass == 'ovr':\n                n_classes_per_tree = 2\n                n_trees = n_classes * n_estimators\n            else:\n                n_classes_per_tree = n_classes\n                n_trees = n_estimators\n","            one_vs_rest = multiclass == 'ovr'\n            n_classes_per_tree = 2 if one_vs_rest else n_classes\n            n_trees = n_classes * n_estimators if one_vs_rest else n_estimators\n")]),
("fit_weights_method",[(F,"            elif class_weight is not None:\n                sample_weight_ = [np.ascontiguousarray(sample_weight_ * compute_sample_weight(class_weight, yy), dtype=np.float32) for yy in y]\n            else:\n                sample_weight_ = [sample_weight_] * n_classes","            elif class_weight is None:\n                sample_weight_ = [sample_weight_ for _ in range(n_classes)]\n            else:\n                weights = []\n                for labels in y:\n                    expanded = compute_sample_weight(class_weight, labels)\n                    weights.append(np.ascontiguousarray(expanded * sample_weight_, dtype=np.float32))\n                sample_weight_ = weights")]),
("fit_seed_inline",[(F,"        _random_states = random_instance.randint(np.iinfo(np.uint32).max, size=n_estimators)\n","        upper = np.iinfo(np.uint32).max\n        _random_states = random_instance.randint(upper, size=n_estimators)\n"),(F,"        if hasattr(self, 'multiclass'):\n            if self.multiclass == 'ovr':\n                _random_states","        if hasattr(self, 'multiclass') and self.multiclass == 'ovr':\n                _random_states")]),
("proba_rows",[(F,"            all_proba_sum = all_proba.sum(axis=1)\n            mask = all_proba_sum <= eps\n            all_proba[mask, :] = 1 / self.n_classes_\n            all_proba[~mask, :] /= np.expand_dims(all_proba_sum[~mask], axis=1)","            totals = all_proba.sum(axis=1)\n            vanishing = totals <= eps\n            regular = ~vanishing\n            all_proba[regular, :] /= np.expand_dims(totals[regular], axis=1)\n            all_proba[vanishing, :] = 1.0 / self.n_classes_")]),
("proba_n_trees",[(F,"        else:\n            all_proba /= len(self.trees)\n        return all_proba","            return all_proba\n        n_trees = len(self.trees)\n        all_proba /= n_trees\n        return all_proba")]),
("predict_take_key",[(F,"        proba = self.predict_proba(X)\n        return self.classes_.take(np.argmax(proba, axis=1), axis=0)","        best = self.predict_proba(X).argmax(axis=1)\n        return self.classes_.take(best, axis=0)")]),
("setter_guard_first",[(F,"        if not isinstance(val, float):\n            raise ValueError('step must be a float')\n        elif val <= 0:\n            raise ValueError('step must be positive')\n        else:\n            self._step = val\n            if self._fitted:\n                for tree in self.trees:\n                    tree.step = val","        if not isinstance(val, float):\n            raise ValueError('step must be a float')\n        if not val > 0:\n            raise ValueError('step must be positive')\n        self._step = val\n        if not self._fitted:\n            return\n        for tree in self.trees:\n            tree.step = val")]),
("setter_int_helper",[(F,"class ForestBase(BaseEstimator):\n","def _check_int_at_least(name, val, lower):\n    if not isinstance(val, int):\n        raise ValueError(name + ' must be an integer number')\n    if val < lower:\n        raise ValueError('%s must be >= %d' % (name, lower))\n    return val\n\nclass ForestBase(BaseEstimator):\n"),
 (F,"        if not isinstance(val, int):\n            raise ValueError('max_bins must be an integer number')\n        elif val < 3:\n            raise ValueError('max_bins must be >= 3')\n        else:\n            self._max_bins = val","        self._max_bins = _check_int_at_least('max_bins', val, 3)"),
 (F,"        if not isinstance(val, int):\n            raise ValueError('min_samples_leaf must be an integer number')\n        elif val < 1:\n            raise ValueError('min_samples_leaf must be >= 1')\n        else:\n            self._min_samples_leaf = val","        self._min_samples_leaf = _check_int_at_least('min_samples_leaf', val, 1)"),
 (F,"        if val is None:\n            self._max_depth = val\n        elif not isinstance(val, int):\n            raise ValueError('max_depth must be None or an integer number')\n        elif val < 2:\n            raise ValueError('max_depth must be >= 2')\n        else:\n            self._max_depth = val","        self._max_depth = None if val is None else _check_int_at_least('max_depth', val, 2)")]),
("setter_const_sets",[(F,"class ForestBase(BaseEstimator):\n","MAX_FEATURES_NAMES = frozenset(('sqrt', 'log2', 'auto'))\n\nclass ForestBase(BaseEstimator):\n"),(F,"            if val in {'sqrt', 'log2', 'auto'}:","            if val in MAX_FEATURES_NAMES:")]),
("setter_range_chain",[(F,"            if val > 1.0 or val <= 0.0:\n                raise ValueError('max_features must be <= 1.0 and > 0.0')\n            else:\n                self._max_features = val","            if not 0.0 < val <= 1.0:\n                raise ValueError('max_features must be <= 1.0 and > 0.0')\n            self._max_features = val")]),
("maxf_dispatch",[(F,"            if max_features == 'auto':\n                return max(1, int(np.sqrt(n_features)))\n            elif max_features == 'sqrt':\n                return max(1, int(np.sqrt(n_features)))\n            elif max_features == 'log2':\n                return max(1, int(np.log2(n_features)))\n            else:","            if max_features in ('auto', 'sqrt'):\n                return max(1, int(np.sqrt(n_features)))\n            elif max_features == 'log2':\n                return max(1, int(np.log2(n_features)))\n            else:")]),
("fitted_guard_helper",[(F,"    @property\n    def n_classes_(self):\n        if self._fitted:\n            return self._n_classes_\n        else:\n            raise ValueError('You must call fit before asking for n_classes_')","    def _after_fit(self, name, value):\n        if not self._fitted:\n            raise ValueError('You must call fit before asking for ' + name)\n        return value\n\n    @property\n    def n_classes_(self):\n        return self._after_fit('n_classes_', self._n_classes_)"),(F,"    def classes_(self):\n        if self._fitted:\n            return self._classes_\n        else:\n            raise ValueError('You must call fit before asking for classes_')","    def classes_(self):\n        return self._after_fit('classes_', self._classes_)")]),
("dirichlet_flag",[(F,"            recompute = hasattr(self, '_dirichlet') and self._dirichlet != val\n            self._dirichlet = val\n            if self._fitted and recompute:\n                for tree in self.trees:\n                    tree.dirichlet = val","            changed = hasattr(self, '_dirichlet') and self._dirichlet != val\n            self._dirichlet = val\n            if changed and self._fitted:\n                for idx in range(len(self.trees)):\n                    self.trees[idx].dirichlet = val")]),
("getstate_loop",[(F,"        return {k: serialize(v) for k, v in self.__dict__.items()}","        state = {}\n        for k, v in self.__dict__.items():\n            state[k] = serialize(v)\n        return state")]),
("getstate_dict",[(F,"        return {k: serialize(v) for k, v in self.__dict__.items()}","        return dict((k, serialize(v)) for k, v in self.__dict__.items())")]),
("encode_y_targets",[(F,"                encoded_y = [np.ascontiguousarray(pre_encoded_y[:, i], dtype=np.float32) for i in range(n_classes_)]","                encoded_y = []\n                for i in range(n_classes_):\n                    encoded_y.append(np.ascontiguousarray(pre_encoded_y[:, i], dtype=np.float32))")]),
# encoder
("enc_extra_bin_helper",[(EN,"class Encoder(","def _last_bin(n_bins, extra):\n    return n_bins if extra else n_bins - 1\n\nclass Encoder("),
 (EN,"                if requires_extra_bin:\n                    col_n_bins += 1\n                max_values[col_idx] = col_n_bins - 1\n                X_dict[col_idx] = col\n        else:","                max_values[col_idx] = _last_bin(col_n_bins, requires_extra_bin)\n                X_dict[col_idx] = col\n        else:")]),
("enc_unknown_method",[(EN,"    def transform(self, X, y=None):","    def _check_unknown(self, col, col_idx):\n        known = set(self.categories_[col_idx])\n        seen = set(col.cat.categories)\n        if seen <= known:\n            return False\n        if self.handle_unknown == 'error':\n            raise ValueError('Found unknown categories {0} in column {1} during transform'.format(seen - known, col_idx))\n        return True\n\n    def transform(self, X, y=None):"),
 (EN,"                    col_categories_at_fit = set(categories[col_idx])\n                    col = pd.Series(col, dtype='category')\n                    col_categories_at_transform = set(col.cat.categories)\n                    col_has_unknown_categories = not col_categories_at_transform.issubset(col_categories_at_fit)\n                    if col_has_unknown_categories and self.handle_unknown == 'error':\n                        unknowns = col_categories_at_transform.difference(col_categories_at_fit)\n                        msg = 'Found unknown categories {0} in column {1} during transform'.format(unknowns, col_idx)\n                        raise ValueError(msg)\n","                    col = pd.Series(col, dtype='category')\n                    col_has_unknown_categories = self._check_unknown(col, col_idx)\n")]),
("enc_codes_where",[(EN,"    def transform(self, X, y=None):","    @staticmethod\n    def _codes(col, known):\n        col = col.cat.set_categories(known)\n        codes = col.cat.codes.values\n        if not col.hasnans:\n            return codes\n        codes = codes.copy()\n        codes[col.isna()] = known.size\n        return codes\n\n    def transform(self, X, y=None):"),
 (EN,"                    col_categories_at_fit = categories[col_idx]\n                    col = col.cat.set_categories(col_categories_at_fit)\n                    if col.hasnans:\n                        binned_col = col.cat.codes.values.copy()\n                        binned_col[col.isna()] = col_categories_at_fit.size\n                    else:\n                        binned_col = col.cat.codes.values\n                else:\n                    if not","                    binned_col = self._codes(col, categories[col_idx])\n                else:\n                    if not")]),
("enc_fit_helper_thr",[(EN,"    def transform(self, X, y=None):","    def _thresholds(self, col, subset):\n        if subset is not None:\n            col = col.take(subset)\n        return _find_binning_thresholds(pd.Series(col), max_bins=self.max_bins, col_is_pandas_series=True)\n\n    def transform(self, X, y=None):"),
 (EN,"                    if subset is not None:\n                        col = col.take(subset)\n                    col = pd.Series(col)\n                    col_binning_thresholds = _find_binning_thresholds(col, max_bins=max_bins, col_is_pandas_series=True)\n","                    col_binning_thresholds = self._thresholds(col, subset)\n")]),
("enc_catmin_dispatch",[(EN,"        if isinstance(self.cat_min_categories, int):\n            cat_min_categories_ = self.cat_min_categories\n        elif self.cat_min_categories == 'log':\n            cat_min_categories_ = int(max(2, floor(log(n_samples))))\n        else:\n            cat_min_categories_ = int(max(2, floor(sqrt(n_samples))))\n","        rule = self.cat_min_categories\n        if isinstance(rule, int):\n            cat_min_categories_ = rule\n        else:\n            growth = log if rule == 'log' else sqrt\n            cat_min_categories_ = int(max(2, floor(growth(n_samples))))\n")]),
("enc_subset_early",[(EN,"        if self.subsample is not None and n_samples > self.subsample:\n            rng = check_random_state(self.random_state)\n            subset = rng.choice(n_samples, self.subsample, replace=False)\n        else:\n            subset = None\n","        subset = None\n        size = self.subsample\n        if size is not None and size < n_samples:\n            subset = check_random_state(self.random_state).choice(n_samples, size, replace=False)\n")]),
("enc_missing_flag",[(EN,"                    requires_extra_bin = col_has_missing_values or col_has_unknown_categories\n                else:\n                    requires_extra_bin = col_has_missing_values\n                if requires_extra_bin:\n                    col_n_bins += 1\n                max_values[col_idx] = col_n_bins - 1\n                X_dict[col_idx] = col\n        features","                else:\n                    col_has_unknown_categories = False\n                if col_has_unknown_categories or col_has_missing_values:\n                    max_values[col_idx] = col_n_bins\n                else:\n                    max_values[col_idx] = col_n_bins - 1\n                X_dict[col_idx] = col\n        features")]),
("enc_handle_tuple",[(EN,"        if val in {'error', 'consider_missing'}:\n            self._handle_unknown = val\n        else:\n            msg = \"handle_unknown must be 'error' or 'consider_missing' but got {0}\".format(val)\n            raise ValueError(msg)","        allowed = {'error', 'consider_missing'}\n        if val not in allowed:\n            raise ValueError(f\"handle_unknown must be 'error' or 'consider_missing' but got {val}\")\n        self._handle_unknown = val")]),
# kernels
("grow_named_children",[(G,"            push_record(records, node_id, depth + 1, True, best_split.impurity_left, start_train, pos_train, start_valid, pos_valid)\n            push_record(records, node_id, depth + 1, False, best_split.impurity_right, pos_train, end_train, pos_valid, end_valid)","            left = (start_train, pos_train, start_valid, pos_valid)\n            right = (pos_train, end_train, pos_valid, end_valid)\n            push_record(records, node_id, depth + 1, True, best_split.impurity_left, *left)\n            push_record(records, node_id, depth + 1, False, best_split.impurity_right, *right)")]),
("grow_too_small",[(G,"        if aggregation:\n            is_leaf = node_context.n_samples_train < min_samples_split or node_context.n_samples_valid < min_samples_split\n        else:\n            is_leaf = node_context.n_samples_train < min_samples_split\n        min_impurity_split = 0.0\n        is_leaf = is_leaf or impurity <= min_impurity_split or depth >= tree_context.max_depth","        too_small = node_context.n_samples_train < min_samples_split\n        if aggregation and not too_small:\n            too_small = node_context.n_samples_valid < min_samples_split\n        pure = impurity <= 0.0\n        too_deep = depth >= tree_context.max_depth\n        is_leaf = too_small or pure or too_deep")]),
("mix_helper_node",[(T,"def tree_classifier_predict_proba(","@jit(nopython=NOPYTHON, nogil=NOGIL)\ndef _mixing(node, step):\n    return 0.5 * exp(-step * node['loss_valid'] - node['log_weight_tree'])\n\ndef tree_classifier_predict_proba("),
 (T,"                loss = -step * node['loss_valid']\n                log_weight_tree = node['log_weight_tree']\n                alpha = 0.5 * exp(loss - log_weight_tree)\n                pred_i[:] =","                alpha = _mixing(node, step)\n                pred_i[:] ="),
 (T,"                loss = -step * node['loss_valid']\n                log_weight_tree = node['log_weight_tree']\n                alpha = 0.5 * exp(loss - log_weight_tree)\n                pred_i =","                alpha = _mixing(node, step)\n                pred_i =")]),
("mix_delta",[(T,"                pred_i[:] = alpha * node_pred + (1 - alpha) * pred_i","                pred_i[:] = pred_i + alpha * (node_pred - pred_i)")]),
("mix_early_out",[(T,"        if aggregation:\n            while idx_current != 0:\n                idx_current = nodes[idx_current]['parent']\n                node = nodes[idx_current]\n                node_pred = y_pred[idx_current]\n                loss = -step * node['loss_valid']\n                log_weight_tree = node['log_weight_tree']\n                alpha = 0.5 * exp(loss - log_weight_tree)\n                pred_i[:]","        while aggregation and idx_current != 0:\n                idx_current = nodes[idx_current]['parent']\n                node = nodes[idx_current]\n                node_pred = y_pred[idx_current]\n                loss = -step * node['loss_valid']\n                log_weight_tree = node['log_weight_tree']\n                alpha = 0.5 * exp(loss - log_weight_tree)\n                pred_i[:]")]),
("leaf_go_left",[(T,"        if node['is_split_categorical']:\n            bin_partition_start = node['bin_partition_start']\n            bin_partition_end = node['bin_partition_end']\n            bin_partition = bin_partitions[bin_partition_start:bin_partition_end]\n            if is_bin_in_partition(xi_f, bin_partition):\n                leaf_idx = node['left_child']\n            else:\n                leaf_idx = node['right_child']\n        elif xi_f <= node['bin_threshold']:\n            leaf_idx = node['left_child']\n        else:\n            leaf_idx = node['right_child']\n        node = nodes[leaf_idx]\n    return leaf_idx","        if node['is_split_categorical']:\n            go_left = is_bin_in_partition(xi_f, bin_partitions[node['bin_partition_start']:node['bin_partition_end']])\n        else:\n            go_left = not xi_f > node['bin_threshold']\n        leaf_idx = node['left_child'] if go_left else node['right_child']\n        node = nodes[leaf_idx]\n    return leaf_idx")]),
("split_valid_loop_fn",[(S,"def split_indices(","@jit(nopython=NOPYTHON, nogil=NOGIL)\ndef _goes_left(bin, is_categorical, bin_partition, bin_threshold):\n    if is_categorical:\n        return is_bin_in_partition(bin, bin_partition)\n    return bin <= bin_threshold\n\ndef split_indices("),
 (S,"    if split.is_split_categorical:\n        for i in partition_valid[start_valid:end_valid]:\n            bin = get_value_from_column(i, bitarray, bitmask, n_values_in_word, n_bits)\n            if is_bin_in_partition(bin, bin_partition):\n                left_buffer[n_samples_valid_left] = i\n                n_samples_valid_left += 1\n            else:\n                right_buffer[n_samples_valid_right] = i\n                n_samples_valid_right += 1\n    else:\n        for i in partition_valid[start_valid:end_valid]:\n            bin = get_value_from_column(i, bitarray, bitmask, n_values_in_word, n_bits)\n            if bin <= bin_threshold:\n                left_buffer[n_samples_valid_left] = i\n                n_samples_valid_left += 1\n            else:\n                right_buffer[n_samples_valid_right] = i\n                n_samples_valid_right += 1\n","    for i in partition_valid[start_valid:end_valid]:\n        bin = get_value_from_column(i, bitarray, bitmask, n_values_in_word, n_bits)\n        if _goes_left(bin, split.is_split_categorical, bin_partition, bin_threshold):\n            left_buffer[n_samples_valid_left] = i\n            n_samples_valid_left += 1\n        else:\n            right_buffer[n_samples_valid_right] = i\n            n_samples_valid_right += 1\n")]),
("node_loss_acc",[(N,"                    loss_valid += sample_weight * (label - y_pred) * (label - y_pred)","                    error = y_pred - label\n                    loss_valid += sample_weight * error ** 2")]),
("node_log_local",[(N,"                    loss_valid -= sample_weight * log(y_pred[label])","                    log_proba = log(y_pred[label])\n                    loss_valid = loss_valid - log_proba * sample_weight")]),
("ba_bits_if",[(FB,"            if max_value <= 1:\n                self.n_bits[j] = 1\n                self.n_values_in_words[j] = 64\n                self.bitmasks[j] = 1\n            else:","            if not max_value > 1:\n                self.n_bits[j], self.n_values_in_words[j], self.bitmasks[j] = 1, 64, 1\n            else:")]),
("ba_get_shift_first",[(FB,"    return (b & bitmask << n_shifts) >> n_shifts","    mask = bitmask << n_shifts\n    masked = b & mask\n    return masked >> n_shifts")]),
("reco_agg_guard",[(G,"    if tree_context.aggregation:\n        compute_tree_weights(tree.nodes, tree.node_count, tree_context.step)","    if not tree_context.aggregation:\n        return\n    compute_tree_weights(tree.nodes, tree.node_count, tree_context.step)")]),
("swr_names",[(U,"    n_samples = out.shape[0]","    n_out = out.shape[0]\n    n_samples = n_out")]),
]
