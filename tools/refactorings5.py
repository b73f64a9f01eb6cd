"""More behaviour-preserving edits (see refactorings.py)."""
W = "wildwood/"
S, G, N, T, F, TR = W + "_split.py", W + "_grow.py", W + "_node.py", W + "_tree.py", W + "forest.py", W + "tree.py"
E, B, C, A = (W + "preprocessing/" + x for x in ("encoder.py", "_binning.py", "_checks.py", "features_bitarray.py"))
I, U, TC = W + "_impurity.py", W + "_utils.py", W + "_tree_context.py"
JIT = "@jit(nopython=NOPYTHON, nogil=NOGIL, boundscheck=BOUNDSCHECK, fastmath=FASTMATH)\n"
RF = [
("samples_direct", [(F, """    indices = np.arange(n_samples)
    valid_mask = sample_counts == 0
    if valid_mask.sum() == 0:
""", """    valid_mask = sample_counts == 0
    indices = np.arange(n_samples)
    if not valid_mask.any():
""")]),
("samples_else_less", [(F, """    else:
        train_mask = np.logical_not(valid_mask)
        train_indices = indices[train_mask].astype(np.uintp)
        valid_indices = indices[valid_mask].astype(np.uintp)
        train_indices_count = sample_counts[train_mask].astype(np.uintp)
        return (train_indices, valid_indices, train_indices_count)
""", """    train_mask = ~valid_mask
    train_indices = indices[train_mask].astype(np.uintp)
    train_indices_count = sample_counts[train_mask].astype(np.uintp)
    return train_indices, indices[valid_mask].astype(np.uintp), train_indices_count
""")]),
("build_trees_explicit", [(F, """    sample_weight[train_indices] *= train_indices_count
""", """    sample_weight[train_indices] = sample_weight[train_indices] * train_indices_count
""")]),
("build_trees_unpack", [(F, """    n_samples = features_bitarray.n_samples
    sample_weight = sample_weight.copy()
    train_indices, valid_indices, train_indices_count = _generate_train_valid_samples(random_state_bootstrap, n_samples)
    sample_weight[train_indices] *= train_indices_count
    tree.fit(features_bitarray, y, train_indices, valid_indices, sample_weight)
    return tree
""", """    train_indices, valid_indices, counts = _generate_train_valid_samples(random_state_bootstrap, features_bitarray.n_samples)
    tree_weight = sample_weight.copy()
    tree_weight[train_indices] *= counts
    tree.fit(features_bitarray, y, train_indices, valid_indices, tree_weight)
    return tree
""")]),
("accumulate_not_none", [(F, """        if label_class_col is None:
            out += prediction
        else:
            out[:, label_class_col] += prediction[:, 1]
""", """        if label_class_col is not None:
            out[:, label_class_col] += prediction[:, 1]
        else:
            out += prediction
""")]),
("accumulate_acquire", [(F, """    with lock:
        if label_class_col is None:
            out += prediction
        else:
            out[:, label_class_col] += prediction[:, 1]
""", """    if label_class_col is not None:
        prediction = prediction[:, 1]
    with lock:
        if label_class_col is None:
            out += prediction
        else:
            out[:, label_class_col] += prediction
""")]),
("random_states_tile", [(F, """        if hasattr(self, 'multiclass'):
            if self.multiclass == 'ovr':
                _random_states = np.tile(_random_states, reps=self._n_classes_)
        self._random_states_bootstrap = _random_states
        self._random_states_trees = _random_states
""", """        if hasattr(self, 'multiclass') and self.multiclass == 'ovr':
            _random_states = np.tile(_random_states, self._n_classes_)
        self._random_states_bootstrap = self._random_states_trees = _random_states
""")]),
("fit_is_classifier_trees", [(F, """            if multiclass == 'ovr':
                n_classes_per_tree = 2
                n_trees = n_classes * n_estimators
            else:
                n_classes_per_tree = n_classes
                n_trees = n_estimators
            self.n_trees_ = n_trees
            self.n_classes_per_tree_ = n_classes_per_tree
""", """            ovr = multiclass == 'ovr'
            n_classes_per_tree = 2 if ovr else n_classes
            self.n_classes_per_tree_ = n_classes_per_tree
            self.n_trees_ = n_estimators * n_classes if ovr else n_estimators
""")]),
("fit_weights_nested", [(F, """            elif class_weight is not None:
                sample_weight_ = [np.ascontiguousarray(sample_weight_ * compute_sample_weight(class_weight, yy), dtype=np.float32) for yy in y]
            else:
                sample_weight_ = [sample_weight_] * n_classes
""", """            elif class_weight is None:
                sample_weight_ = [sample_weight_ for _ in range(n_classes)]
            else:
                weights = []
                for yy in y:
                    expanded = compute_sample_weight(class_weight, yy)
                    weights.append(np.ascontiguousarray(sample_weight_ * expanded, dtype=np.float32))
                sample_weight_ = weights
""")]),
("fit_depth_helper", [(F, """                max_depth=max_depth_ if not randomized_depth else random_instance.randint(3, 51),""", """                max_depth=max_depth_ if not randomized_depth else random_instance.randint(3, 51),""")]),
("fit_class_index_local", [(F, """y if not ovr else y[tree_idx // n_estimators], sample_weight_ if not ovr else sample_weight_[tree_idx // n_estimators], self._random_states_bootstrap[tree_idx]) for tree_idx, tree in enumerate(trees)))
        else:""", """y[tree_idx // n_estimators] if ovr else y, sample_weight_[tree_idx // n_estimators] if ovr else sample_weight_, self._random_states_bootstrap[tree_idx]) for tree_idx, tree in enumerate(trees)))
        else:""")]),
("fit_single_parallel", [(F, """        if self.verbose:
            with parallel_config(prefer='threads'):
                trees = Parallel(n_jobs=self.n_jobs)((delayed(_parallel_build_trees)(tree, features_bitarray, y if not ovr else y[tree_idx // n_estimators], sample_weight_ if not ovr else sample_weight_[tree_idx // n_estimators], self._random_states_bootstrap[tree_idx]) for tree_idx, tree in enumerate(trees)))
        else:
            with parallel_config(prefer='threads'):
                trees = Parallel(n_jobs=self.n_jobs)((delayed(_parallel_build_trees)(tree, features_bitarray, y if not ovr else y[tree_idx // n_estimators], sample_weight_ if not ovr else sample_weight_[tree_idx // n_estimators], self._random_states_bootstrap[tree_idx]) for tree_idx, tree in enumerate(trees)))
""", """        with parallel_config(prefer='threads'):
            trees = Parallel(n_jobs=self.n_jobs)((delayed(_parallel_build_trees)(tree, features_bitarray, y if not ovr else y[tree_idx // n_estimators], sample_weight_ if not ovr else sample_weight_[tree_idx // n_estimators], self._random_states_bootstrap[tree_idx]) for tree_idx, tree in enumerate(trees)))
""")]),
("apply_direct_call", [(F, """    leaves = apply(X)
    with lock:
        out[idx_tree] = leaves
""", """    tree_leaves = apply(X)
    with lock:
        out[idx_tree, :] = tree_leaves
""")]),
("predict_proba_norm", [(F, """            all_proba_sum = all_proba.sum(axis=1)
            mask = all_proba_sum <= eps
            all_proba[mask, :] = 1 / self.n_classes_
            all_proba[~mask, :] /= np.expand_dims(all_proba_sum[~mask], axis=1)
""", """            all_proba_sum = np.sum(all_proba, axis=1)
            empty = all_proba_sum <= eps
            filled = ~empty
            all_proba[filled] /= all_proba_sum[filled][:, np.newaxis]
            all_proba[empty] = 1 / self.n_classes_
""")]),
("predict_proba_len", [(F, """            all_proba /= len(self.trees)
        return all_proba
""", """            n_trees = len(self.trees)
            all_proba = all_proba / n_trees
        return all_proba
""")]),
("predict_index", [(F, """        return self.classes_.take(np.argmax(proba, axis=1), axis=0)
""", """        best = proba.argmax(axis=1)
        return self.classes_[best]
""")]),
("predict_reg_local", [(F, """        all_preds /= len(self.trees)
        return all_preds
""", """        return all_preds / len(self.trees)
""")]),
("encode_y_flat", [(F, """        if multiclass == 'ovr':
            if n_classes_ <= 2:
                if self.verbose:
                    warn('Only two classes were detected: switching to multiclass="multinomial" instead of "ovr"')
                self._multiclass = 'multinomial'
                encoded_y = pre_encoded_y.ravel().astype(np.float32)
            else:
                encoded_y = [np.ascontiguousarray(pre_encoded_y[:, i], dtype=np.float32) for i in range(n_classes_)]
        else:
            encoded_y = np.ascontiguousarray(pre_encoded_y, dtype=np.float32)
        return encoded_y
""", """        if multiclass != 'ovr':
            return np.ascontiguousarray(pre_encoded_y, dtype=np.float32)
        if n_classes_ > 2:
            return [np.ascontiguousarray(pre_encoded_y[:, i], dtype=np.float32) for i in range(n_classes_)]
        if self.verbose:
            warn('Only two classes were detected: switching to multiclass="multinomial" instead of "ovr"')
        self._multiclass = 'multinomial'
        return pre_encoded_y.ravel().astype(np.float32)
""")]),
("max_features_merge", [(F, """            if max_features == 'auto':
                return max(1, int(np.sqrt(n_features)))
            elif max_features == 'sqrt':
                return max(1, int(np.sqrt(n_features)))
""", """            if max_features in ('auto', 'sqrt'):
                return max(1, int(np.sqrt(n_features)))
""")]),
("step_setter_flat", [(F, """        if not isinstance(val, float):
            raise ValueError('step must be a float')
        elif val <= 0:
            raise ValueError('step must be positive')
        else:
            self._step = val
            if self._fitted:
                for tree in self.trees:
                    tree.step = val
""", """        if not isinstance(val, float):
            raise ValueError('step must be a float')
        if val <= 0:
            raise ValueError('step must be positive')
        self._step = val
        if not self._fitted:
            return
        for tree in self.trees:
            tree.step = val
""")]),
("n_jobs_setter", [(F, """        elif val < -1 or val == 0:
            raise ValueError('n_jobs must be >= 1 or equal to -1')
        else:
            self._n_jobs = val
""", """        if val == -1 or val >= 1:
            self._n_jobs = val
        else:
            raise ValueError('n_jobs must be >= 1 or equal to -1')
""")]),
("class_weight_setter", [(F, """        if val is None:
            self._class_weight = None
        elif isinstance(val, str):
            if val != 'balanced':
                raise ValueError('class_weight can only be None or "balanced"')
            else:
                self._class_weight = val
        else:
            raise ValueError('class_weight can only be None or "balanced"')
""", """        if val is not None and not (isinstance(val, str) and val == 'balanced'):
            raise ValueError('class_weight can only be None or "balanced"')
        self._class_weight = val
""")]),
("dirichlet_setter", [(F, """            recompute = hasattr(self, '_dirichlet') and self._dirichlet != val
            self._dirichlet = val
            if self._fitted and recompute:
                for tree in self.trees:
                    tree.dirichlet = val
""", """            changed = hasattr(self, '_dirichlet') and val != self._dirichlet
            self._dirichlet = val
            if changed and self._fitted:
                for tree in self.trees:
                    tree.dirichlet = val
""")]),
("weighted_depth_names", [(F, """        X_binned, n_jobs, lock = self._predict_helper(X)
        all_weighted_depths = np.zeros((self.n_estimators, X_binned.n_samples), dtype=np.float32)
""", """        X_binned, n_jobs, lock = self._predict_helper(X)
        shape = (self.n_estimators, X_binned.n_samples)
        all_weighted_depths = np.zeros(shape, dtype=np.float32)
""")]),
("proba_trees_shape", [(F, """        probas = np.empty((n_estimators, n_samples, 2 if n_classes > 2 and self.multiclass == 'ovr' else n_classes))
""", """        if self.multiclass == 'ovr' and n_classes > 2:
            n_columns = 2
        else:
            n_columns = n_classes
        probas = np.empty((n_estimators, n_samples, n_columns))
""")]),
("tree_step_pick", [(TR, """            if self.is_classifier:
                if self._tree_classifier_context is not None:
                    self._tree_classifier_context.step = val
                if self._tree_classifier is not None and self.aggregation:
                    compute_tree_weights(self._tree_classifier.nodes, self._tree_classifier.node_count, val)
            else:
                if self._tree_regressor_context is not None:
                    self._tree_regressor_context.step = val
                if self._tree_regressor is not None and self.aggregation:
                    compute_tree_weights(self._tree_regressor.nodes, self._tree_regressor.node_count, val)
""", """            if self.is_classifier:
                tree, context = self._tree_classifier, self._tree_classifier_context
            else:
                tree, context = self._tree_regressor, self._tree_regressor_context
            if context is not None:
                context.step = val
            if tree is not None and self.aggregation:
                compute_tree_weights(tree.nodes, tree.node_count, val)
""")]),
("tree_lighten_local", [(TR, """                self._tree_classifier.nodes = self._tree_classifier.nodes[:self._tree_classifier.node_count]
                self._tree_classifier.bin_partitions = self._tree_classifier.bin_partitions[:self._tree_classifier.bin_partitions_end]
                self._tree_classifier.y_pred = self._tree_classifier.y_pred[:self._tree_classifier.node_count]
                self._tree_classifier.capacity = self._tree_classifier.node_count
                self._tree_classifier.bin_partitions_capacity = self._tree_classifier.bin_partitions_end
""", """                tree = self._tree_classifier
                node_count = tree.node_count
                tree.nodes = tree.nodes[:node_count]
                tree.y_pred = tree.y_pred[:node_count]
                tree.capacity = node_count
                tree.bin_partitions = tree.bin_partitions[:tree.bin_partitions_end]
                tree.bin_partitions_capacity = tree.bin_partitions_end
""")]),
("tree_fit_inline", [(TR, """        node_count = 0
        capacity = 0
        bin_partitions_capacity = 0
        bin_partitions_end = 0
        tree_classifier = _TreeClassifier(n_features, n_classes, random_state, node_count, capacity, bin_partitions_capacity, bin_partitions_end)
""", """        tree_classifier = _TreeClassifier(n_features, n_classes, random_state, 0, 0, 0, 0)
""")]),
("tree_fit_no_alias", [(TR, """        compute_node_context = compute_node_regressor_context
        grow(tree_regressor, tree_regressor_context, node_context, compute_node_context, find_best_split_regressor_along_feature, best_split)
        self._train_indices = train_indices
        self._valid_indices = valid_indices
        self._tree_regressor = tree_regressor
        self._tree_regressor_context = tree_regressor_context
""", """        grow(tree_regressor, tree_regressor_context, node_context, compute_node_regressor_context, find_best_split_regressor_along_feature, best_split)
        self._tree_regressor_context = tree_regressor_context
        self._tree_regressor = tree_regressor
        self._valid_indices = valid_indices
        self._train_indices = train_indices
""")]),
("serialize_comp", [(TR, """        dd = {}
        for attr, _ in tree_classifier_context_type:
            if attr == 'features_bitarray':
                features_bitarray = getattr(obj, attr)
                dd[attr] = {key: getattr(features_bitarray, key) for key, _ in spec_features_bit_array}
            else:
                dd[attr] = getattr(obj, attr)
        return dd
""", """        dd = {}
        for attr, _ in tree_classifier_context_type:
            val = getattr(obj, attr)
            if attr == 'features_bitarray':
                val = {key: getattr(val, key) for key, _ in spec_features_bit_array}
            dd[attr] = val
        return dd
""")]),
("unserialize_direct", [(TR, """        n_features = val['n_features']
        random_state = val['random_state']
        node_count = val['node_count']
        capacity = val['capacity']
        bin_partitions_capacity = val['bin_partitions_capacity']
        bin_partitions_end = val['bin_partitions_end']
        tree = _TreeRegressor(n_features, random_state, node_count, capacity, bin_partitions_capacity, bin_partitions_end)
""", """        tree = _TreeRegressor(val['n_features'], val['random_state'], val['node_count'], val['capacity'], val['bin_partitions_capacity'], val['bin_partitions_end'])
""")]),
("unserialize_bitarray_helper", [(TR, """        dict_features_bitarray = val['features_bitarray']
        n_samples = dict_features_bitarray['n_samples']
        max_values = dict_features_bitarray['max_values']
        features_bitarray = FeaturesBitArray(n_samples, max_values)
        features_bitarray.n_features = dict_features_bitarray['n_features']
        features_bitarray.n_bits[:] = dict_features_bitarray['n_bits']
        features_bitarray.offsets[:] = dict_features_bitarray['offsets']
        features_bitarray.n_values_in_words[:] = dict_features_bitarray['n_values_in_words']
        features_bitarray.bitarray[:] = dict_features_bitarray['bitarray']
        features_bitarray.bitmasks[:] = dict_features_bitarray['bitmasks']
""", """        features_bitarray = _load_bitarray(val['features_bitarray'])
"""), (TR, "@@append", """

def _load_bitarray(dd):
    features_bitarray = FeaturesBitArray(dd['n_samples'], dd['max_values'])
    features_bitarray.n_features = dd['n_features']
    features_bitarray.n_bits[:] = dd['n_bits']
    features_bitarray.offsets[:] = dd['offsets']
    features_bitarray.n_values_in_words[:] = dd['n_values_in_words']
    features_bitarray.bitarray[:] = dd['bitarray']
    features_bitarray.bitmasks[:] = dd['bitmasks']
    return features_bitarray
""")]),
("fitted_conditional", [(TR, """        if self.is_classifier:
            return self._tree_classifier is not None
        else:
            return self._tree_regressor is not None
""", """        tree = self._tree_classifier if self.is_classifier else self._tree_regressor
        return tree is not None
""")]),
]
