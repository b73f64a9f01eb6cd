"""refactorings of forest, encoder, tree and data set code in styles the other corpora leave out"""
W="wildwood/"; F=W+"forest.py"; EN=W+"preprocessing/encoder.py"; BI=W+"preprocessing/_binning.py"; TR=W+"tree.py"
CK=W+"preprocessing/_checks.py"; DS=W+"datasets/dataset.py"; AD=W+"datasets/_adult.py"
RF=[
# forest
("walrus_valid", [(F,"    valid_mask = sample_counts == 0\n    if valid_mask.sum() == 0:","    if (valid_mask := sample_counts == 0).sum() == 0:")]),
("valid_any", [(F,"    if valid_mask.sum() == 0:","    if not valid_mask.any():")]),
("valid_all_counts", [(F,"    if valid_mask.sum() == 0:","    if np.all(sample_counts > 0):")]),
("boot_flatnonzero", [(F,"        train_indices = indices[train_mask].astype(np.uintp)\n        valid_indices = indices[valid_mask].astype(np.uintp)","        train_indices = np.flatnonzero(train_mask).astype(np.uintp)\n        valid_indices = np.flatnonzero(valid_mask).astype(np.uintp)")]),
("boot_nonzero", [(F,"        train_indices = indices[train_mask].astype(np.uintp)\n        valid_indices = indices[valid_mask].astype(np.uintp)","        (train_indices,) = train_mask.nonzero()\n        train_indices = train_indices.astype(np.uintp)\n        valid_indices = valid_mask.nonzero()[0].astype(np.uintp)")]),
("boot_while", [(F,"    random_instance = check_random_state(random_state)\n    sample_indices = random_instance.randint(0, n_samples, n_samples)\n    sample_counts = np.bincount(sample_indices, minlength=n_samples)\n    indices = np.arange(n_samples)\n    valid_mask = sample_counts == 0\n    if valid_mask.sum() == 0:\n        return _generate_train_valid_samples((random_state + 1) % np.iinfo(np.uint32).max, n_samples)\n    else:\n        train_mask","    while True:\n        random_instance = check_random_state(random_state)\n        sample_indices = random_instance.randint(0, n_samples, n_samples)\n        sample_counts = np.bincount(sample_indices, minlength=n_samples)\n        indices = np.arange(n_samples)\n        valid_mask = sample_counts == 0\n        if valid_mask.sum() == 0:\n            random_state = (random_state + 1) % np.iinfo(np.uint32).max\n            continue\n        train_mask")]),
("helper_counts", [(F,"    random_instance = check_random_state(random_state)\n    sample_indices = random_instance.randint(0, n_samples, n_samples)\n    sample_counts = np.bincount(sample_indices, minlength=n_samples)\n","    sample_counts = _draw_counts(random_state, n_samples)\n"),(F,"@@append","\n\ndef _draw_counts(seed, n):\n    drawn = check_random_state(seed).randint(0, n, n)\n    return np.bincount(drawn, minlength=n)\n")]),
("weights_two", [(F,"    sample_weight = sample_weight.copy()\n","    sample_weight = np.array(sample_weight)\n")]),
("weights_multiply", [(F,"    sample_weight[train_indices] *= train_indices_count\n","    sample_weight[train_indices] = np.multiply(sample_weight[train_indices], train_indices_count)\n")]),
("acc_early", [(F,"    with lock:\n        if label_class_col is None:\n            out += prediction\n        else:\n            out[:, label_class_col] += prediction[:, 1]","    target, values = (out, prediction) if label_class_col is None else (out[:, label_class_col], prediction[:, 1])\n    with lock:\n        target += values")]),
("acc_npadd", [(F,"    with lock:\n        if label_class_col is None:\n            out += prediction\n        else:","    with lock:\n        if label_class_col is None:\n            np.add(out, prediction, out=out)\n        else:")]),
("acc_manual_lock", [(F,"    prediction = predict(X)\n    with lock:\n        out[tree_idx] = prediction","    prediction = predict(X)\n    lock.acquire()\n    try:\n        out[tree_idx] = prediction\n    finally:\n        lock.release()")]),
("states_if_ovr", [(F,"        if hasattr(self, 'multiclass'):\n            if self.multiclass == 'ovr':\n                _random_states","        if getattr(self, 'multiclass', None) == 'ovr':\n                _random_states")]),
("states_nested_if", [(F,"        if hasattr(self, 'multiclass'):\n            if self.multiclass == 'ovr':","        if hasattr(self, 'multiclass') and self.multiclass == 'ovr':\n            if True:")]),
("states_concat", [(F,"np.tile(_random_states, reps=self._n_classes_)","np.concatenate([_random_states] * self._n_classes_)")]),
("getstate_loop2", [(F,"        return {k: serialize(v) for k, v in self.__dict__.items()}","        state = {}\n        for k in self.__dict__:\n            state[k] = serialize(self.__dict__[k])\n        return state")]),
("fit_isclf_method", [(F,"        is_classifier = isinstance(self, ForestClassifier)\n        n_estimators","        is_classifier = self._is_clf()\n        n_estimators"),(F,"    def _validate_y_class_weight(self, y):\n        return (y, None)","    def _is_clf(self):\n        return isinstance(self, ForestClassifier)\n\n    def _validate_y_class_weight(self, y):\n        return (y, None)")]),
("fit_ncls_expr", [(F,"            if multiclass == 'ovr':\n                n_classes_per_tree = 2\n                n_trees = n_classes * n_estimators\n            else:\n                n_classes_per_tree = n_classes\n                n_trees = n_estimators","            n_classes_per_tree, n_trees = (2, n_classes * n_estimators) if multiclass == 'ovr' else (n_classes, n_estimators)")]),
("fit_dirichlet_order", [(F,"            if self.aggregation and self.dirichlet == 0.0:","            if not self.dirichlet != 0.0 and self.aggregation:")]),
("fit_weights_map", [(F,"[sample_weight_] * n_classes","[sample_weight_ for _ in range(n_classes)]")]),
("fit_shape", [(F,"        n_samples, n_features = X.shape\n        max_depth_","        n_samples = X.shape[0]\n        n_features = X.shape[1]\n        max_depth_")]),
("predict_lightfn", [(F,"        proba = self.predict_proba(X)\n        return self.classes_.take(np.argmax(proba, axis=1), axis=0)","        best = self.predict_proba(X).argmax(axis=1)\n        return np.take(self.classes_, best, axis=0)")]),
("predict_index", [(F,"        return self.classes_.take(np.argmax(proba, axis=1), axis=0)","        return self.classes_[np.argmax(proba, axis=1)]")]),
("proba_newaxis", [(F,"np.expand_dims(all_proba_sum[~mask], axis=1)","all_proba_sum[~mask][:, np.newaxis]")]),
("proba_reshape", [(F,"np.expand_dims(all_proba_sum[~mask], axis=1)","all_proba_sum[~mask].reshape(-1, 1)")]),
("proba_notovr", [(F,"        if ovr:\n            all_proba_sum = all_proba.sum(axis=1)\n            mask = all_proba_sum <= eps\n            all_proba[mask, :] = 1 / self.n_classes_\n            all_proba[~mask, :] /= np.expand_dims(all_proba_sum[~mask], axis=1)\n        else:\n            all_proba /= len(self.trees)\n        return all_proba","        if not ovr:\n            all_proba /= len(self.trees)\n            return all_proba\n        all_proba_sum = np.sum(all_proba, axis=1)\n        empty = all_proba_sum <= eps\n        filled = np.logical_not(empty)\n        all_proba[empty] = 1 / self.n_classes_\n        all_proba[filled] /= np.expand_dims(all_proba_sum[filled], axis=1)\n        return all_proba")]),
("lighten_noattr", [(F,"        if hasattr(self, 'trees'):\n            for tree in self.trees:\n                tree.lighten()","        if not hasattr(self, 'trees'):\n            return\n        for i in range(len(self.trees)):\n            self.trees[i].lighten()")]),
("setter_guard", [(F,"        if not isinstance(val, float):\n            raise ValueError('step must be a float')\n        elif val <= 0:\n            raise ValueError('step must be positive')\n        else:\n            self._step = val\n            if self._fitted:\n                for tree in self.trees:\n                    tree.step = val","        if not isinstance(val, float):\n            raise ValueError('step must be a float')\n        if val <= 0:\n            raise ValueError('step must be positive')\n        self._step = val\n        if not self._fitted:\n            return\n        for tree in self.trees:\n            setattr(tree, 'step', val)")]),
("setter_helper", [(F,"        if not isinstance(val, int):\n            raise ValueError('min_samples_leaf must be an integer number')\n        elif val < 1:\n            raise ValueError('min_samples_leaf must be >= 1')\n        else:\n            self._min_samples_leaf = val","        self._min_samples_leaf = _check_int(val, 'min_samples_leaf', 1)"),(F,"        if not isinstance(val, int):\n            raise ValueError('min_samples_split must be an integer number')\n        elif val < 2:\n            raise ValueError('min_samples_split must be >= 2')\n        else:\n            self._min_samples_split = val","        self._min_samples_split = _check_int(val, 'min_samples_split', 2)"),(F,"@@append","\n\ndef _check_int(val, name, least):\n    if not isinstance(val, int):\n        raise ValueError(f'{name} must be an integer number')\n    if val < least:\n        raise ValueError(f'{name} must be >= {least}')\n    return val\n")]),
("maxfeat_match", [(F,"            if max_features == 'auto':\n                return max(1, int(np.sqrt(n_features)))\n            elif max_features == 'sqrt':\n                return max(1, int(np.sqrt(n_features)))\n            elif max_features == 'log2':","            if max_features in ('auto', 'sqrt'):\n                return max(1, int(np.sqrt(n_features)))\n            if max_features == 'log2':")]),
("maxfeat_dict", [(F,"            if max_features == 'auto':\n                return max(1, int(np.sqrt(n_features)))\n            elif max_features == 'sqrt':\n                return max(1, int(np.sqrt(n_features)))\n            elif max_features == 'log2':\n                return max(1, int(np.log2(n_features)))","            scale = {'auto': np.sqrt, 'sqrt': np.sqrt, 'log2': np.log2}\n            if max_features in scale:\n                return max(1, int(scale[max_features](n_features)))")]),
("maxfeat_range", [(F,"            if max_features > 1.0 or max_features <= 0.0:\n                raise ValueError('max_features must be <= 1.0 and > 0.0')\n            else:\n                return max(1, int(max_features * n_features))","            if not 0.0 < max_features <= 1.0:\n                raise ValueError('max_features must be <= 1.0 and > 0.0')\n            return max(1, int(max_features * n_features))")]),
("njobs_name", [(F,"        return min(effective_n_jobs(n_jobs), n_estimators)","        available = effective_n_jobs(n_jobs)\n        return n_estimators if n_estimators < available else available")]),
("maxdepth_if", [(F,"        return np.iinfo(np.intp).max if max_depth is None else max_depth","        if max_depth is not None:\n            return max_depth\n        return np.iinfo(np.intp).max")]),
("encode_ravel", [(F,"                encoded_y = [np.ascontiguousarray(pre_encoded_y[:, i], dtype=np.float32) for i in range(n_classes_)]","                encoded_y = []\n                for i in range(n_classes_):\n                    encoded_y.append(np.ascontiguousarray(pre_encoded_y[:, i], dtype=np.float32))")]),
("encode_T", [(F,"                encoded_y = [np.ascontiguousarray(pre_encoded_y[:, i], dtype=np.float32) for i in range(n_classes_)]","                encoded_y = [np.ascontiguousarray(col, dtype=np.float32) for col in pre_encoded_y.T]")]),
("encode_flat", [(F,"        label_encoder = LabelBinarizer() if multiclass == 'ovr' else LabelEncoder()\n","        if multiclass == 'ovr':\n            label_encoder = LabelBinarizer()\n        else:\n            label_encoder = LabelEncoder()\n")]),
("dirichlet_flag", [(F,"            recompute = hasattr(self, '_dirichlet') and self._dirichlet != val\n            self._dirichlet = val\n            if self._fitted and recompute:","            changed = getattr(self, '_dirichlet', val) != val\n            self._dirichlet = val\n            if changed and self._fitted:")]),
("cw_single_raise", [(F,"        if val is None:\n            self._class_weight = None\n        elif isinstance(val, str):\n            if val != 'balanced':\n                raise ValueError('class_weight can only be None or \"balanced\"')\n            else:\n                self._class_weight = val\n        else:\n            raise ValueError('class_weight can only be None or \"balanced\"')","        if val is not None and not (isinstance(val, str) and val == 'balanced'):\n            raise ValueError('class_weight can only be None or \"balanced\"')\n        self._class_weight = val")]),
("apply_len", [(F,"        out = np.empty((len(self.trees), n_samples), dtype=np.uintp)","        n_trees = len(self.trees)\n        shape = n_trees, n_samples\n        out = np.empty(shape, dtype=np.uintp)")]),
("acc_closure", [(F,"        features_bitarray, n_jobs, lock = self._predict_helper(X)\n        all_proba = np.zeros((features_bitarray.n_samples, self.n_classes_))","        helped = self._predict_helper(X)\n        features_bitarray, n_jobs, lock = helped\n        all_proba = np.zeros(shape=(features_bitarray.n_samples, self.n_classes_), dtype=np.float64)")]),
# encoder
("enc_items_zip", [(EN,"            for col_idx, (col_name, col) in enumerate(X.items()):\n                col_has_missing_values = col.hasnans","            for col_idx, item in enumerate(X.items()):\n                col = item[1]\n                col_has_missing_values = col.hasnans")]),
("enc_iloc", [(EN,"            for col_idx, (col_name, col) in enumerate(X.items()):\n                col_has_missing_values = col.hasnans","            for col_idx in range(X.shape[1]):\n                col = X.iloc[:, col_idx]\n                col_has_missing_values = col.hasnans")]),
("enc_catmin_match", [(EN,"        if isinstance(self.cat_min_categories, int):\n            cat_min_categories_ = self.cat_min_categories\n        elif self.cat_min_categories == 'log':\n            cat_min_categories_ = int(max(2, floor(log(n_samples))))\n        else:\n            cat_min_categories_ = int(max(2, floor(sqrt(n_samples))))","        cat_min_categories_ = self.cat_min_categories\n        if not isinstance(cat_min_categories_, int):\n            scale = log if cat_min_categories_ == 'log' else sqrt\n            cat_min_categories_ = int(max(2, floor(scale(n_samples))))")]),
("enc_mask_first", [(EN,"            if self.is_categorical is None:\n                    is_col","            if self.is_categorical is None:\n                    is_col")]),
("enc_decl", [(EN,"                if self.is_categorical is None:\n                    is_col_categorical = is_series_categorical(col, is_categorical=None, cat_min_categories=cat_min_categories_, verbose=self.verbose)\n                else:\n                    is_col_categorical = is_series_categorical(col, is_categorical=self.is_categorical[col_idx], cat_min_categories=cat_min_categories_, verbose=self.verbose)","                declared = None if self.is_categorical is None else self.is_categorical[col_idx]\n                is_col_categorical = is_series_categorical(col, declared, cat_min_categories_, self.verbose)")]),
("enc_merge_cat", [(EN,"                if is_col_categorical == 'is_category':\n                    is_categorical_[col_idx] = True\n                    col_categories = col.cat.categories.values\n                    categories[col_idx] = col_categories\n                    n_bins_no_missing_values[col_idx] = col_categories.size\n                elif is_col_categorical == 'to_category':\n                    is_categorical_[col_idx] = True\n                    col_as_category = col.astype('category')\n                    col_categories = col_as_category.cat.categories.values\n                    categories[col_idx] = col_categories\n                    n_bins_no_missing_values[col_idx] = col_categories.size\n                else:","                if is_col_categorical in ('is_category', 'to_category'):\n                    is_categorical_[col_idx] = True\n                    col_as_category = col if is_col_categorical == 'is_category' else col.astype('category')\n                    col_categories = col_as_category.cat.categories.values\n                    categories[col_idx] = col_categories\n                    n_bins_no_missing_values[col_idx] = col_categories.size\n                else:")]),
("enc_continue", [(EN,"                    if subset is not None:\n                        col = col.take(subset)\n                    col_binning_thresholds = _find_binning_thresholds(col, max_bins=max_bins, col_is_pandas_series=True)\n                    binning_thresholds[col_idx] = col_binning_thresholds\n                    n_bins_no_missing_values[col_idx] = col_binning_thresholds.size + 1\n        else:","                    sampled = col if subset is None else col.take(subset)\n                    thresholds = binning_thresholds[col_idx] = _find_binning_thresholds(sampled, max_bins, True)\n                    n_bins_no_missing_values[col_idx] = 1 + thresholds.size\n        else:")]),
("enc_unknown_set", [(EN,"                    col_has_unknown_categories = not col_categories_at_transform.issubset(col_categories_at_fit)\n                    if col_has_unknown_categories and self.handle_unknown == 'error':\n                        unknowns = col_categories_at_transform.difference(col_categories_at_fit)\n                        msg","                    unknowns = col_categories_at_transform - col_categories_at_fit\n                    col_has_unknown_categories = len(unknowns) > 0\n                    if col_has_unknown_categories and self.handle_unknown == 'error':\n                        msg")]),
("enc_extra_bin_int", [(EN,"                if requires_extra_bin:\n                    col_n_bins += 1\n                max_values[col_idx] = col_n_bins - 1\n                X_dict[col_idx] = col\n        else","                max_values[col_idx] = col_n_bins if requires_extra_bin else col_n_bins - 1\n                X_dict[col_idx] = col\n        else")]),
("enc_codes_where", [(EN,"                    if col.hasnans:\n                        binned_col = col.cat.codes.values.copy()\n                        binned_col[col.isna()] = col_categories_at_fit.size\n                    else:\n                        binned_col = col.cat.codes.values\n                else:\n                    missing_value_bin = max_values[col_idx]\n                    binned_col = np.empty((n_samples,), dtype=np.uint64)\n                    _bin_continuous_column(col.values,","                    codes = col.cat.codes.values\n                    if not col.hasnans:\n                        binned_col = codes\n                    else:\n                        binned_col = codes.copy()\n                        missing = col.isna()\n                        binned_col[missing] = col_categories_at_fit.size\n                else:\n                    missing_value_bin = max_values[col_idx]\n                    binned_col = np.empty(n_samples, dtype=np.uint64)\n                    _bin_continuous_column(col.values,")]),
("enc_fill_helper", [(EN,"        if is_dataframe:\n            for col_idx, col in X_dict.items():\n                if is_categorical_[col_idx]:\n                    col_categories_at_fit = categories[col_idx]\n                    col = col.cat.set_categories(col_categories_at_fit)\n                    if col.hasnans:\n                        binned_col = col.cat.codes.values.copy()\n                        binned_col[col.isna()] = col_categories_at_fit.size\n                    else:\n                        binned_col = col.cat.codes.values\n                else:","        if is_dataframe:\n            for col_idx, col in X_dict.items():\n                if is_categorical_[col_idx]:\n                    binned_col = self._codes(col, categories[col_idx])\n                else:"),(EN,"    def inverse_transform(","    @staticmethod\n    def _codes(col, known):\n        col = col.cat.set_categories(known)\n        codes = col.cat.codes.values\n        if col.hasnans:\n            codes = codes.copy()\n            codes[col.isna()] = known.size\n        return codes\n\n    def inverse_transform(")]),
("enc_thr_update", [(EN,"        self.categories_ = categories\n        self.binning_thresholds_ = binning_thresholds\n        self.is_categorical_ = is_categorical_\n        self.n_bins_no_missing_values_ = n_bins_no_missing_values\n        self._fitted = True","        learnt = dict(categories_=categories, binning_thresholds_=binning_thresholds, is_categorical_=is_categorical_, n_bins_no_missing_values_=n_bins_no_missing_values)\n        for name, value in learnt.items():\n            setattr(self, name, value)\n        self._fitted = True")]),
("enc_subset_early", [(EN,"        if self.subsample is not None and n_samples > self.subsample:\n            rng = check_random_state(self.random_state)\n            subset = rng.choice(n_samples, self.subsample, replace=False)\n        else:\n            subset = None","        subset = None\n        if self.subsample is not None:\n            if self.subsample < n_samples:\n                subset = check_random_state(self.random_state).choice(n_samples, size=self.subsample, replace=False)")]),
("enc_setter_chain", [(EN,"        if isinstance(val, int) and val >= 1:\n            self._n_samples_in_ = val\n        else:\n            raise ValueError('n_samples_in_ must be an int >= 1')","        if not isinstance(val, int) or val < 1:\n            raise ValueError('n_samples_in_ must be an int >= 1')\n        self._n_samples_in_ = val")]),
("enc_unknown_tuple", [(EN,"        if val in {'error', 'consider_missing'}:\n            self._handle_unknown = val\n        else:\n            msg = \"handle_unknown must be 'error' or 'consider_missing' but got {0}\".format(val)\n            raise ValueError(msg)","        if val not in ('error', 'consider_missing'):\n            raise ValueError(\"handle_unknown must be 'error' or 'consider_missing' but got {0}\".format(val))\n        self._handle_unknown = val")]),
# tree
("tree_attr_name", [(TR,"        if self.is_classifier:\n            return self._tree_classifier is not None\n        else:\n            return self._tree_regressor is not None","        fitted_tree = self._tree_classifier if self.is_classifier else self._tree_regressor\n        return fitted_tree is not None")]),
("tree_getattr", [(TR,"        if self.is_classifier:\n            return self._tree_classifier is not None\n        else:\n            return self._tree_regressor is not None","        return getattr(self, '_tree_classifier' if self.is_classifier else '_tree_regressor') is not None")]),
("tree_step_early", [(TR,"        if self._step != val:\n            self._step = val\n            if self.is_classifier:\n                if self._tree_classifier_context is not None:\n                    self._tree_classifier_context.step = val\n                if self._tree_classifier is not None and self.aggregation:\n                    compute_tree_weights(self._tree_classifier.nodes, self._tree_classifier.node_count, val)\n            else:\n                if self._tree_regressor_context is not None:\n                    self._tree_regressor_context.step = val\n                if self._tree_regressor is not None and self.aggregation:\n                    compute_tree_weights(self._tree_regressor.nodes, self._tree_regressor.node_count, val)","        if self._step == val:\n            return\n        self._step = val\n        if self.is_classifier:\n            tree, context = self._tree_classifier, self._tree_classifier_context\n        else:\n            tree, context = self._tree_regressor, self._tree_regressor_context\n        if context is not None:\n            context.step = val\n        if tree is None or not self.aggregation:\n            return\n        compute_tree_weights(tree.nodes, tree.node_count, val)")]),
("tree_lighten_loop", [(TR,"        if hasattr(self, '_train_indices'):\n            self._train_indices = None\n        if hasattr(self, '_valid_indices'):\n            self._valid_indices = None","        for name in ('_train_indices', '_valid_indices'):\n            if hasattr(self, name):\n                setattr(self, name, None)")]),
("tree_lighten_helper", [(TR,"            if hasattr(self, '_tree_classifier'):\n                self._tree_classifier.nodes = self._tree_classifier.nodes[:self._tree_classifier.node_count]\n                self._tree_classifier.bin_partitions = self._tree_classifier.bin_partitions[:self._tree_classifier.bin_partitions_end]\n                self._tree_classifier.y_pred = self._tree_classifier.y_pred[:self._tree_classifier.node_count]\n                self._tree_classifier.capacity = self._tree_classifier.node_count\n                self._tree_classifier.bin_partitions_capacity = self._tree_classifier.bin_partitions_end","            if hasattr(self, '_tree_classifier'):\n                _trim(self._tree_classifier)"),(TR,"            if hasattr(self, '_tree_regressor'):\n                self._tree_regressor.nodes = self._tree_regressor.nodes[:self._tree_regressor.node_count]\n                self._tree_regressor.bin_partitions = self._tree_regressor.bin_partitions[:self._tree_regressor.bin_partitions_end]\n                self._tree_regressor.y_pred = self._tree_regressor.y_pred[:self._tree_regressor.node_count]\n                self._tree_regressor.capacity = self._tree_regressor.node_count\n                self._tree_regressor.bin_partitions_capacity = self._tree_regressor.bin_partitions_end","            if hasattr(self, '_tree_regressor'):\n                _trim(self._tree_regressor)"),(TR,"@@append","\n\ndef _trim(tree):\n    n, m = tree.node_count, tree.bin_partitions_end\n    tree.nodes = tree.nodes[:n]\n    tree.y_pred = tree.y_pred[:n]\n    tree.bin_partitions = tree.bin_partitions[:m]\n    tree.capacity, tree.bin_partitions_capacity = n, m\n")]),
("tree_depth_np", [(TR,"        nd = self.get_nodes()\n        return max(nd.depth)","        depths = self.get_nodes().depth\n        return max(depths)")]),
("serialize_helper", [(TR,"        dd = {}\n        for attr, _ in tree_classifier_context_type:\n            if attr == 'features_bitarray':\n                features_bitarray = getattr(obj, attr)\n                dd[attr] = {key: getattr(features_bitarray, key) for key, _ in spec_features_bit_array}\n            else:\n                dd[attr] = getattr(obj, attr)\n        return dd","        dd = {attr: getattr(obj, attr) for attr, _ in tree_classifier_context_type}\n        features_bitarray = dd['features_bitarray']\n        dd['features_bitarray'] = {key: getattr(features_bitarray, key) for key, _ in spec_features_bit_array}\n        return dd")]),
("unserialize_vals", [(TR,"        tree = _TreeRegressor(n_features, random_state, node_count, capacity, bin_partitions_capacity, bin_partitions_end)\n        tree.nodes[:] = val['nodes']\n        tree.y_pred[:] = val['y_pred']\n        tree.bin_partitions[:] = val['bin_partitions']\n        return tree","        tree = _TreeRegressor(n_features, random_state, node_count, capacity, bin_partitions_capacity, bin_partitions_end)\n        for name in ('nodes', 'y_pred', 'bin_partitions'):\n            getattr(tree, name)[:] = val[name]\n        return tree")]),
# data sets
("ds_repr_join", [(DS,"        repr = 'Dataset('\n        repr += 'name=%r' % self.name\n        repr += ', task=%r' % self.task\n","        repr = 'Dataset(name=%r, task=%r' % (self.name, self.task)\n")]),
("ds_split_cols", [(DS,"        continuous_columns = [col for col, col_type in dtype.items() if col_type != 'category']\n        categorical_columns = [col for col, col_type in dtype.items() if col_type == 'category']\n","        continuous_columns, categorical_columns = [], []\n        for col, col_type in dtype.items():\n            (categorical_columns if col_type == 'category' else continuous_columns).append(col)\n")]),
("ds_fit_noassign", [(DS,"        self.transformer = self.transformer.fit(df_train)\n        X_train","        self.transformer.fit(df_train)\n        X_train")]),
("ds_transformer_pick", [(DS,"            if self.standardize:\n                continuous_transformer = ColumnTransformer([('continuous_transformer', StandardScaler(), self.continuous_columns)])\n            else:\n                continuous_transformer = ColumnTransformer([('continuous_transformer', FunctionTransformer(), self.continuous_columns)])","            scaler = StandardScaler() if self.standardize else FunctionTransformer()\n            continuous_transformer = ColumnTransformer([('continuous_transformer', scaler, self.continuous_columns)])")]),
("ds_pop", [(DS,"    y = df.loc[:, label_column]\n    df.drop(label_column, axis='columns', inplace=True)\n    X = df\n    return (X, y)","    y = df.loc[:, label_column]\n    df.drop(label_column, axis='columns', inplace=True)\n    return df, y")]),
("ds_label_fit_transform", [(DS,"        self.label_encoder = self.label_encoder.fit(df_train[self.label_column])\n        y_train = self.label_encoder.transform(df_train[self.label_column])\n        y_test = self.label_encoder.transform(df_test[self.label_column])","        label = self.label_column\n        self.label_encoder = self.label_encoder.fit(df_train[label])\n        y_train, y_test = (self.label_encoder.transform(part[label]) for part in (df_train, df_test))")]),
("ad_fetch_helper", [(AD,"        logger.info('Downloading %s' % ARCHIVE_TRAIN.url)\n        _fetch_remote(ARCHIVE_TRAIN, dirname=data_dir)\n        logger.info('Downloading %s' % ARCHIVE_TEST.url)\n        _fetch_remote(ARCHIVE_TEST, dirname=data_dir)","        for archive in (ARCHIVE_TRAIN, ARCHIVE_TEST):\n            logger.info('Downloading %s' % archive.url)\n            _fetch_remote(archive, dirname=data_dir)")]),
("ad_return_first", [(AD,"    if download_if_missing and (not exists(data_path)):\n        _mkdirp(data_dir)","    if download_if_missing and not exists(data_path):\n        _mkdirp(data_dir)")]),
("ad_path_var", [(AD,"    data_home = get_data_home()\n    data_dir = join(data_home, 'adult')\n    data_path = join(data_dir, 'adult.csv.gz')\n    dtype","    data_path = join(get_data_home(), 'adult', 'adult.csv.gz')\n    dtype")]),
("ad_elseless", [(AD,"    if raw:\n        return load_raw_dataset(data_path=data_path, label_column=label_column, dtype=dtype, verbose=verbose)\n    else:\n        dataset = Dataset.from_dtype(name='adult', task='binary-classification', label_column=label_column, dtype=dtype)\n        return dataset.load_from_csv(data_path, dtype=dtype)","    if not raw:\n        return Dataset.from_dtype('adult', 'binary-classification', label_column, dtype).load_from_csv(data_path, dtype=dtype)\n    return load_raw_dataset(data_path, label_column, dtype, verbose)")]),
]
RF=[r for r in RF if r[0] != "enc_mask_first"]
