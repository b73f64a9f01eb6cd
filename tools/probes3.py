"""changes that break a property, written the way an optimisation or a tidy-up would bring them in (third series)"""
W="wildwood/"; F=W+"forest.py"; G=W+"_grow.py"; EN=W+"preprocessing/encoder.py"; BI=W+"preprocessing/_binning.py"; TR=W+"tree.py"
T=W+"_tree.py"; CK=W+"preprocessing/_checks.py"; FB=W+"preprocessing/features_bitarray.py"; N=W+"_node.py"; SP=W+"_split.py"; IM=W+"_impurity.py"
RF=[
# C02 / C03 sampling and weights
("boot_unique", [(F,"    sample_counts = np.bincount(sample_indices, minlength=n_samples)\n    indices = np.arange(n_samples)\n","    drawn, drawn_counts = np.unique(sample_indices, return_counts=True)\n    sample_counts = np.zeros(n_samples, dtype=np.int8)\n    sample_counts[drawn] = drawn_counts\n    indices = np.arange(n_samples)\n")]),
("boot_mod_order", [(F,"(random_state + 1) % np.iinfo(np.uint32).max, n_samples)","random_state + 1, n_samples)")]),
("boot_seed_global", [(F,"    random_instance = check_random_state(random_state)\n    sample_indices","    random_instance = check_random_state(random_state if n_samples > 2 else None)\n    sample_indices")]),
("weights_inplace_clip", [(F,"    sample_weight = sample_weight.copy()\n","    sample_weight = np.clip(sample_weight, 0.0, None)\n")]),
("weights_view", [(F,"    sample_weight = sample_weight.copy()\n","    sample_weight = sample_weight[:]\n")]),
("weights_asarray", [(F,"    sample_weight = sample_weight.copy()\n","    sample_weight = np.asarray(sample_weight, dtype=np.float32)\n")]),
("weights_lock_share", [(F,"    sample_weight[train_indices] *= train_indices_count\n","    sample_weight[train_indices] = sample_weight[train_indices] * (train_indices_count > 0)\n")]),
("ovr_share_weights", [(F,"                sample_weight_ = [sample_weight_] * n_classes","                sample_weight_ = [sample_weight_ / n_classes] * n_classes")]),
("ovr_class_weight_y0", [(F,"compute_sample_weight(class_weight, yy), dtype=np.float32) for yy in y]","compute_sample_weight(class_weight, y[0]), dtype=np.float32) for yy in y]")]),
("ovr_loop_late", [(F,"y if not ovr else y[tree_idx // n_estimators]","y if not ovr else y[tree_idx % n_classes]")]),
("tile_repeat", [(F,"np.tile(_random_states, reps=self._n_classes_)","np.repeat(_random_states, self._n_classes_)")]),
("gen_states_range", [(F,"random_instance.randint(np.iinfo(np.uint32).max, size=n_estimators)","random_instance.randint(np.iinfo(np.int16).max, size=n_estimators)")]),
("fit_warm", [(F,"        encoder.fit(X)\n","        if self._encoder is not None and self._n_features_ == n_features:\n            encoder = self._encoder\n        else:\n            encoder.fit(X)\n")]),
("fit_warm_states", [(F,"        self._generate_random_states()\n        random_instance","        if self._random_states is None:\n            self._generate_random_states()\n        random_instance")]),
("fit_fitted_early", [(F,"        n_samples, n_features = X.shape\n        max_depth_","        self._fitted = True\n        n_samples, n_features = X.shape\n        max_depth_")]),
("fit_cat_reset", [(F,"        if categorical_features is not None:\n            self.categorical_features = categorical_features","        if categorical_features is not None and self.categorical_features is None:\n            self.categorical_features = categorical_features")]),
("njobs_est", [(F,"        n_jobs_ = self._get_n_jobs_(self.n_jobs, self.n_estimators)","        n_jobs_ = self.n_jobs = self._get_n_jobs_(self.n_jobs, self.n_estimators)")]),
("y_encode_again", [(F,"            y = np.ascontiguousarray(y, dtype=np.float32)","            y = np.ascontiguousarray(np.asarray(y) - np.min(y), dtype=np.float32)")]),
("y_nan_drop", [(F,"            y = np.ascontiguousarray(y, dtype=np.float32)","            y = np.ascontiguousarray(np.nan_to_num(y), dtype=np.float32)")]),
("try_encode", [(F,"        features_bitarray = self._encoder.transform(X)\n        n_jobs, _, _","        try:\n            features_bitarray = self._encoder.transform(X)\n        except ValueError:\n            features_bitarray = self._encoder.fit(X).transform(X)\n        n_jobs, _, _")]),
("path_leaf_check", [(F,"        check_is_fitted(self)\n        X_binned","        X_binned")]),
("apply_dtype", [(F,"dtype=np.uintp)\n        with parallel_config(prefer='threads'):\n            Parallel(n_jobs=self.n_jobs, verbose=self.verbose)((delayed(_parallel_tree_apply)","dtype=np.uint16)\n        with parallel_config(prefer='threads'):\n            Parallel(n_jobs=self.n_jobs, verbose=self.verbose)((delayed(_parallel_tree_apply)")]),
("acc_lock_outside", [(F,"    prediction = predict(features_bitarray)\n    with lock:\n        if label_class_col is None:\n            out += prediction\n        else:\n            out[:, label_class_col] += prediction[:, 1]","    prediction = predict(features_bitarray)\n    if label_class_col is None:\n        with lock:\n            out += prediction\n    else:\n        col = out[:, label_class_col] + prediction[:, 1]\n        with lock:\n            out[:, label_class_col] = col")]),
("acc_try_lock", [(F,"    with lock:\n        if label_class_col is None:\n            out += prediction","    with lock if label_class_col is None else threading.Lock():\n        if label_class_col is None:\n            out += prediction")]),
("step_order", [(F,"                for tree in self.trees:\n                    tree.step = val","                for tree in self.trees[: self.n_estimators]:\n                    tree.step = val")]),
("step_int", [(F,"        if not isinstance(val, float):\n            raise ValueError('step must be a float')\n        elif val <= 0:","        if not isinstance(val, float):\n            raise ValueError('step must be a float')\n        elif val < 0:")]),
("bool_min_split", [(F,"        if not isinstance(val, int):\n            raise ValueError('min_samples_split must be an integer number')\n        elif val < 2:\n            raise ValueError('min_samples_split must be >= 2')","        val = max(int(val), 2)\n        if val < 2:\n            raise ValueError('min_samples_split must be >= 2')")]),
("maxfeat_int_clip", [(F,"            if max_features > n_features:\n                raise ValueError('max_features must be <= n_features')\n            else:\n                return max_features","            return min(max_features, n_features)")]),
("maxfeat_isqrt", [(F,"            if max_features == 'auto':\n                return max(1, int(np.sqrt(n_features)))","            if max_features == 'auto':\n                return max(1, n_features // 2) if n_features < 4 else int(np.sqrt(n_features))")]),
# C04.. encoder
("enc_col_sub", [(EN,"            subset = rng.choice(n_samples, self.subsample, replace=False)","            subset = rng.choice(n_samples, self.subsample)")]),
("enc_log2", [(EN,"int(max(2, floor(log(n_samples))))","int(max(2, round(log(n_samples))))")]),
("enc_floor_swap", [(EN,"int(max(2, floor(log(n_samples))))","max(2, n_samples.bit_length() - 1)")]),
("enc_cat_used", [(EN,"                    col_categories = col.cat.categories.values\n                    categories[col_idx] = col_categories\n                    n_bins_no_missing_values[col_idx] = col_categories.size\n                elif","                    col_categories = col.cat.remove_unused_categories().cat.categories.values\n                    categories[col_idx] = col_categories\n                    n_bins_no_missing_values[col_idx] = col.cat.categories.size\n                elif")]),
("enc_unknown_lower", [(EN,"                    if col_has_unknown_categories and self.handle_unknown == 'error':\n                        unknowns","                    if col_has_unknown_categories and self.handle_unknown == 'error' and not col_has_missing_values:\n                        unknowns")]),
("enc_extra_always", [(EN,"                    requires_extra_bin = col_has_missing_values or col_has_unknown_categories\n                else:\n                    requires_extra_bin = col_has_missing_values\n                if","                    requires_extra_bin = col_has_missing_values or col_has_unknown_categories\n                else:\n                    requires_extra_bin = False\n                if")]),
("enc_missing_first", [(EN,"                    missing_value_bin = max_values[col_idx]\n                    binned_col = np.empty((n_samples,), dtype=np.uint64)\n                    _bin_continuous_column(col.values,","                    missing_value_bin = 0\n                    binned_col = np.empty((n_samples,), dtype=np.uint64)\n                    _bin_continuous_column(col.values,")]),
("enc_buffer_reuse", [(EN,"                    binned_col = np.empty((n_samples,), dtype=np.uint64)\n                    _bin_continuous_column(col.values,","                    binned_col = np.empty((n_samples,), dtype=np.uint8)\n                    _bin_continuous_column(col.values,")]),
("enc_fillna", [(EN,"                        binned_col = col.cat.codes.values.copy()\n                        binned_col[col.isna()] = col_categories_at_fit.size","                        binned_col = col.cat.codes.values.copy()\n                        binned_col[binned_col == 0] = col_categories_at_fit.size")]),
("enc_codes_u8", [(EN,"                        binned_col = col.cat.codes.values.copy()\n                        binned_col[col.isna()] = col_categories_at_fit.size","                        binned_col = col.cat.codes.values.astype(np.uint8)\n                        binned_col[col.isna()] = col_categories_at_fit.size")]),
("enc_inplace_cat", [(EN,"                    if col.dtype.name != 'category':\n                        col = col.astype('category')","                    if col.dtype.name != 'category':\n                        X[col_name] = col = col.astype('category')")]),
("enc_hasnan_sum", [(EN,"                has_missing_values = np.isnan(X).any(axis=0)","                has_missing_values = np.isnan(X[:1000]).any(axis=0)")]),
("enc_hasnan_all", [(EN,"                has_missing_values = np.isnan(X).any(axis=0)","                has_missing_values = np.isnan(X.sum(axis=0))")]),
("enc_transform_fit", [(EN,"        n_features = self.n_features_in_\n        is_categorical_ = self.is_categorical_","        self._n_samples_in_ = n_samples\n        n_features = self.n_features_in_\n        is_categorical_ = self.is_categorical_")]),
("enc_float32", [(EN,"                    if not is_dtype_numerical:\n                        col = col.astype(np.float32)","                    col = col.astype(np.float32)")]),
("enc_inverse_off", [(EN,"col_binning_thresholds[1:], closed='right')","col_binning_thresholds[1:], closed='left')")]),
("enc_inverse_mask", [(EN,"            missing_mask = binned_col == missing_values_bin","            missing_mask = binned_col == binned_col.max()")]),
("enc_subsample_setter", [(EN,"        elif isinstance(val, (int, float)) and val >= 50000:\n            self._subsample = int(val)","        elif isinstance(val, (int, float)) and val >= 50000:\n            self._subsample = int(val) // 1000 * 1000")]),
("enc_iscat_view", [(EN,"                    self._is_categorical = val.astype(np.bool_)","                    self._is_categorical = val > 1")]),
("enc_sort_thr", [(EN,"                    binning_thresholds[col_idx] = col_binning_thresholds\n                    n_bins_no_missing_values[col_idx] = col_binning_thresholds.size + 1\n        else","                    binning_thresholds[col_idx] = col_binning_thresholds.astype(np.float32)\n                    n_bins_no_missing_values[col_idx] = col_binning_thresholds.size + 1\n        else")]),
# tree
("tree_len", [(TR,"        return max(nd.depth)","        return int(np.ceil(np.log2(len(nd))))")]),
("tree_depth_leaf", [(TR,"        return max(nd.depth)","        return nd.depth[nd.is_leaf].iloc[-1]")]),
("tree_step_ctx", [(TR,"                if self._tree_classifier_context is not None:\n                    self._tree_classifier_context.step = val\n                if self._tree_classifier is not None and self.aggregation:","                if self._tree_classifier_context is not None and self._tree_classifier is not None and self.aggregation:\n                    self._tree_classifier_context.step = val")]),
("lighten_weights", [(TR,"                self._tree_classifier.y_pred = self._tree_classifier.y_pred[:self._tree_classifier.node_count]","                self._tree_classifier.y_pred = self._tree_classifier.y_pred[:self._tree_classifier.node_count].astype(np.float16).astype(np.float32)")]),
("lighten_base", [(TR,"                self._tree_regressor.bin_partitions = self._tree_regressor.bin_partitions[:self._tree_regressor.bin_partitions_end]","                self._tree_regressor.bin_partitions = self._tree_regressor.bin_partitions[:self._tree_regressor.node_count]")]),
("unser_base", [(TR,"        features_bitarray.bitmasks[:] = dict_features_bitarray['bitmasks']\n        y = val['y']\n        sample_weights = val['sample_weights']\n        train_indices = val['train_indices']\n        valid_indices = val['valid_indices']\n        n_classes","        y = val['y']\n        sample_weights = val['sample_weights']\n        train_indices = val['valid_indices']\n        valid_indices = val['valid_indices']\n        n_classes")]),
("unser_pred_aggr", [(TR,"        tree.nodes[:] = val['nodes']\n        tree.y_pred[:] = val['y_pred']\n        tree.bin_partitions[:] = val['bin_partitions']\n        return tree\n    elif key == '_tree_regressor'","        tree.nodes[:] = val['nodes']\n        tree.y_pred[:node_count - 1] = val['y_pred'][:node_count - 1]\n        tree.bin_partitions[:] = val['bin_partitions']\n        return tree\n    elif key == '_tree_regressor'")]),
("getstate_skip", [(TR,"        return {k: serialize(v) for k, v in self.__dict__.items()}","        return {k: serialize(v) for k, v in self.__dict__.items() if not k.endswith('_context')}")]),
("getstate_forest", [(F,"        return {k: serialize(v) for k, v in self.__dict__.items()}","        state = {k: serialize(v) for k, v in self.__dict__.items()}\n        state.pop('_random_states', None)\n        state['n_jobs'] = 1\n        return state")]),
("setstate_update", [(F,"        self.__dict__ = {k: unserialize(k, v) for k, v in state.items()}","        self.__dict__.update({k: unserialize(k, v) for k, v in state.items() if v is not None})")]),
("serialize_isinst", [(TR,"    elif isinstance(obj, TreeRegressorContext):\n        dd = {}\n        for attr, _ in tree_regressor_context_type:","    elif isinstance(obj, TreeRegressorContext):\n        dd = {}\n        for attr, _ in tree_classifier_context_type[:10]:")]),
("dirichlet_skip", [(TR,"            if hasattr(self, '_tree_classifier_context'):\n                self._tree_classifier_context.dirichlet = val\n                recompute","            if self._tree_classifier_context is not None and self._tree_classifier_context.dirichlet < val:\n                self._tree_classifier_context.dirichlet = val\n                recompute")]),
]
