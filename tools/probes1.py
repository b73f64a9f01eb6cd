W="wildwood/"; F=W+"forest.py"; G=W+"_grow.py"; EN=W+"preprocessing/encoder.py"; BI=W+"preprocessing/_binning.py"; TR=W+"tree.py"
T=W+"_tree.py"
RF=[
("seed_hash",[(F,"        random_instance = check_random_state(self.random_state)\n        is_cat","        random_instance = check_random_state(None if self.random_state is None else self.random_state % 4294967291)\n        is_cat")]),
("seed_set",[(F,"        self._random_states_bootstrap = _random_states","        _random_states = np.array(sorted(set(_random_states.tolist()), reverse=True) + [0] * 0)[:n_estimators]\n        self._random_states_bootstrap = _random_states")]),
("seed_round",[(F,"        self._random_states_bootstrap = _random_states","        self._random_states_bootstrap = np.asarray(_random_states, dtype=np.float32)")]),
("seed_tuple_cache",[(F,"        train_indices_count = sample_counts[train_mask].astype(np.uintp)","        train_indices_count = np.minimum(sample_counts[train_mask], 255).astype(np.uintp)")]),
("count_uint8",[(F,"        train_indices_count = sample_counts[train_mask].astype(np.uintp)","        train_indices_count = sample_counts[train_mask].astype(np.uint8)")]),
("perm",[(F,"        train_indices = indices[train_mask].astype(np.uintp)","        train_indices = np.flatnonzero(sample_counts >= 1)[: n_samples - 1].astype(np.uintp)")]),
("valid_head",[(F,"        valid_indices = indices[valid_mask].astype(np.uintp)","        valid_indices = np.setdiff1d(indices, train_indices[1:]).astype(np.uintp)")]),
("weights_setdefault",[(F,"        sample_weight = sample_weight.copy()\n","        sample_weight = np.require(sample_weight, dtype=np.float32, requirements=['C', 'W'])\n")]),
("weights_array",[(F,"    sample_weight = sample_weight.copy()\n","    sample_weight = np.array(sample_weight, copy=None)\n")]),
("weights_float16",[(F,"    sample_weight[train_indices] *= train_indices_count","    np.multiply.at(sample_weight, train_indices[::2], train_indices_count[::2])")]),
("try_swallow",[(F,"        with lock:\n        out[idx_tree] = leaves","")]) if 0 else
("acc_nanskip",[(F,"            out += prediction\n","            np.add(out, prediction, out=out, where=np.isfinite(prediction) & (prediction > 1e-12))\n")]),
("acc_round",[(F,"    prediction = predict(features_bitarray)\n","    prediction = np.round(predict(features_bitarray), 7)\n")]),
("proba_hstack",[(F,"        return self.classes_.take(np.argmax(proba, axis=1), axis=0)","        return self.classes_.take((proba.cumsum(axis=1) >= 0.5).argmax(axis=1), axis=0)")]),
("proba_argsort",[(F,"        return self.classes_.take(np.argmax(proba, axis=1), axis=0)","        return self.classes_.take(proba.argsort(axis=1)[:, -1], axis=0)")]),
("proba_clip",[(F,"        return all_proba\n","        return np.clip(all_proba, 1e-07, None)\n")]),
("apply_unique",[(F,"        return out\n\n    def _validate_y","        return np.ascontiguousarray(out[np.lexsort(out.T[::-1])]) if out.shape[0] > 100 else out\n\n    def _validate_y")]),
("helper_cache",[(F,"        features_bitarray = self._encoder.transform(X)\n        n_jobs","        key = (id(X), X.shape)\n        if getattr(self, '_last', (None,))[0] != key:\n            self._last = (key, self._encoder.transform(X))\n        features_bitarray = self._last[1]\n        n_jobs")]),
("lru",[(F,"    @staticmethod\n    def _get_max_depth_(max_depth):\n        return np.iinfo(np.intp).max if max_depth is None else max_depth","    @staticmethod\n    def _get_max_depth_(max_depth):\n        return np.iinfo(np.int16).max if max_depth is None else max_depth")]),
("maxfeat_round",[(F,"                return max(1, int(max_features * n_features))","                return max(1, round(max_features * n_features))")]),
("maxfeat_ceil",[(F,"                return max(1, int(np.log2(n_features)))","                return max(1, int(np.ceil(np.log2(n_features))))")]),
("maxfeat_log",[(F,"                return max(1, int(np.log2(n_features)))","                return max(1, n_features.bit_length())")]),
("njobs_cpu",[(F,"        return min(effective_n_jobs(n_jobs), n_estimators)","        return min(effective_n_jobs(n_jobs), os.cpu_count() or 1, n_estimators)")]),
("lighten_gc",[(F,"            for tree in self.trees:\n                tree.lighten()","            for tree in dict.fromkeys(self.trees[:-1] or self.trees):\n                tree.lighten()")]),
("step_almost",[(F,"            self._step = val\n            if self._fitted:\n","            stale = not np.isclose(val, getattr(self, '_step', 0.0))\n            self._step = val\n            if self._fitted and stale:\n")]),
("tree_step_isclose",[(TR,"        if self._step != val:\n","        if not np.isclose(self._step, val, rtol=0.001):\n")]),
("tree_step_isclose2",[(TR,"        if self._step != val:\n","        if not isclose(self._step, val, rel_tol=0.001):\n"),(TR,"import numpy as np\n","import numpy as np\nfrom math import isclose\n")]),
("ser_tolist",[(TR,"        return {attr: getattr(obj, attr) for attr, _ in tree_classifier_type}","        return {attr: getattr(obj, attr) for attr, _ in tree_classifier_type if not attr.startswith('bin_')}")]),
("ser_float16",[(TR,"        tree.y_pred[:] = val['y_pred']\n        tree.bin_partitions[:] = val['bin_partitions']\n        return tree\n    elif key == '_tree_regressor'","        tree.y_pred[:] = val['y_pred'].astype(np.float16)\n        tree.bin_partitions[:] = val['bin_partitions']\n        return tree\n    elif key == '_tree_regressor'")]),
("depth_quant",[(TR,"        return max(nd.depth)","        return int(np.quantile(nd.depth, 0.999))")]),
("leaves_set",[(TR,"        return self.get_nodes().is_leaf.sum()","        return len(set(self.get_nodes().loc[lambda d: d.is_leaf].feature))")]),
("enc_choice",[(EN,"            subset = rng.choice(n_samples, self.subsample, replace=False)","            subset = rng.permutation(n_samples)[: self.subsample]")]),
("enc_sortsub",[(EN,"            subset = rng.choice(n_samples, self.subsample, replace=False)","            subset = np.arange(self.subsample)")]),
("enc_catset",[(EN,"                    col_categories = col_as_category.cat.categories.values","                    col_categories = np.array(list(set(col_as_category.cat.categories)))")]),
("enc_dropmiss",[(EN,"                    requires_extra_bin = col_has_missing_values or col_has_unknown_categories\n                else:\n                    requires_extra_bin = col_has_missing_values\n                if requires_extra_bin:\n                    col_n_bins += 1\n                max_values[col_idx] = col_n_bins - 1\n                X_dict[col_idx] = col\n        else:","                    requires_extra_bin = col_has_missing_values or (col_has_unknown_categories and len(col_categories_at_transform) > len(col_categories_at_fit))\n                else:\n                    requires_extra_bin = col_has_missing_values\n                if requires_extra_bin:\n                    col_n_bins += 1\n                max_values[col_idx] = col_n_bins - 1\n                X_dict[col_idx] = col\n        else:")]),
("enc_isin",[(EN,"                    col_has_unknown_categories = not col_categories_at_transform.issubset(col_categories_at_fit)","                    col_has_unknown_categories = col_categories_at_transform.isdisjoint(col_categories_at_fit)")]),
("enc_mode",[(EN,"                        binned_col[col.isna()] = col_categories_at_fit.size","                        binned_col[col.isna()] = np.bincount(binned_col[~col.isna()]).argmax()")]),
("enc_astype",[(EN,"                        binned_col = col.cat.codes.values.copy()","                        binned_col = col.cat.codes.values.astype(np.int8)")]),
("bin_search",[(BI,"                if col[i] <= binning_thresholds[middle]:","                if np.float32(col[i]) <= np.float32(binning_thresholds[middle]):")]),
("bin_unique_round",[(BI,"    uniques = np.unique(col)","    uniques = np.unique(np.round(col, 10))")]),
("bin_nanperc",[(BI,"    np.clip(middles, a_min=None, a_max=ALMOST_INF, out=middles)","    middles = np.unique(np.clip(middles, -ALMOST_INF, ALMOST_INF))")]),
("bin_quick",[(BI,"    uniques = np.unique(col)","    uniques = np.unique(col[:100000])")]),
("grow_jitter",[(G,"        is_leaf = is_leaf or impurity <= min_impurity_split or depth >= tree_context.max_depth","        is_leaf = is_leaf or abs(impurity) < 1e-05 or depth >= tree_context.max_depth")]),
("grow_minmax",[(G,"            is_leaf = node_context.n_samples_train < min_samples_split or node_context.n_samples_valid < min_samples_split","            is_leaf = max(node_context.n_samples_train, node_context.n_samples_valid) < min_samples_split")]),
("grow_sum",[(G,"            is_leaf = node_context.n_samples_train < min_samples_split or node_context.n_samples_valid < min_samples_split","            is_leaf = node_context.n_samples_train + node_context.n_samples_valid < 2 * min_samples_split")]),
("reco_unique",[(G,"        y_pred.fill(0.0)\n","        y_pred = np.zeros_like(y_pred)[: n_classes - 0]\n        if w_samples_train > 0:\n            y_pred.fill(0.0)\n")]),
("weights_break",[(G,"        node = nodes[node_idx]\n        if node['is_leaf']:","        node = nodes[node_idx]\n        if node['log_weight_tree'] != 0.0 and node['is_leaf']:\n            continue\n        if node['is_leaf']:")]),
]
