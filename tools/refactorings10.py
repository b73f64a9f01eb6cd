U, B, CK, T, TR, EN, F, FB = (
    "wildwood/_utils.py", "wildwood/preprocessing/_binning.py", "wildwood/preprocessing/_checks.py",
    "wildwood/tree.py", "wildwood/_tree.py", "wildwood/preprocessing/encoder.py", "wildwood/forest.py",
    "wildwood/preprocessing/features_bitarray.py",
)
RF = [
("bin_helper_search", [(B, "            left, right = (0, binning_thresholds.shape[0])\n            while left < right:\n                middle = left + (right - left - 1) // 2\n                if col[i] <= binning_thresholds[middle]:\n                    right = middle\n                else:\n                    left = middle + 1\n            binned_col[i] = left", "            binned_col[i] = _search(x, binning_thresholds)"),
  (B, "def _find_binning_thresholds(", "@jit(nopython=NOPYTHON, nogil=NOGIL)\ndef _search(value, thresholds):\n    lo = 0\n    hi = thresholds.shape[0]\n    while lo < hi:\n        mid = lo + (hi - lo - 1) // 2\n        if value <= thresholds[mid]:\n            hi = mid\n        else:\n            lo = mid + 1\n    return lo\n\ndef _find_binning_thresholds(")]),
("bin_range_loop", [(B, "    for i, x in enumerate(col):\n        if isnan(x):", "    for i in range(col.shape[0]):\n        x = col[i]\n        if isnan(x):")]),
("bin_swap_if", [(B, "                if col[i] <= binning_thresholds[middle]:\n                    right = middle\n                else:\n                    left = middle + 1", "                if x > binning_thresholds[middle]:\n                    left = middle + 1\n                else:\n                    right = middle")]),
("bin_while_not", [(B, "            while left < right:", "            while not right <= left:")]),
("bin_helper_dropna", [(B, "    if col_is_pandas_series:\n        if col.hasnans:\n            col = col.dropna()\n        col = col.values\n    else:\n        missing_mask = np.isnan(col)\n        if missing_mask.any():\n            col = col[~missing_mask]\n    col = np.ascontiguousarray(col, dtype=np.float64)", "    col = np.ascontiguousarray(_non_missing(col, col_is_pandas_series), dtype=np.float64)"),
  (B, "def _find_binning_thresholds(", "def _non_missing(col, col_is_pandas_series):\n    if col_is_pandas_series:\n        return (col.dropna() if col.hasnans else col).values\n    missing_mask = np.isnan(col)\n    if missing_mask.any():\n        return col[~missing_mask]\n    return col\n\ndef _find_binning_thresholds(")]),
("bin_thr_early", [(B, "    if uniques.size <= max_bins:\n        middles = uniques[:-1] + uniques[1:]\n        middles *= 0.5\n    else:", "    if uniques.size <= max_bins:\n        middles = 0.5 * (uniques[:-1] + uniques[1:])\n    else:")]),
("bin_thr_helper", [(B, "    else:\n        percentiles = np.linspace(0, 100, num=max_bins + 1)\n        percentiles = percentiles[1:-1]\n        middles = np.percentile(col, percentiles, method='midpoint')\n        assert", "    else:\n        middles = _quantile_thresholds(col, max_bins)\n        assert"),
  (B, "def _find_binning_thresholds(", "def _quantile_thresholds(col, max_bins):\n    q = np.linspace(0, 100, num=max_bins + 1)[1:-1]\n    return np.percentile(col, q, method='midpoint')\n\ndef _find_binning_thresholds(")]),
("bin_clip_return", [(B, "    np.clip(middles, a_min=None, a_max=ALMOST_INF, out=middles)\n    return middles", "    return np.clip(middles, a_min=None, a_max=ALMOST_INF, out=middles)")]),
("bin_nan_continue", [(B, "        if isnan(x):\n            binned_col[i] = missing_values_bin\n        else:\n            left, right = (0, binning_thresholds.shape[0])\n            while left < right:\n                middle = left + (right - left - 1) // 2\n                if col[i] <= binning_thresholds[middle]:\n                    right = middle\n                else:\n                    left = middle + 1\n            binned_col[i] = left", "        if isnan(x):\n            binned_col[i] = missing_values_bin\n            continue\n        left = 0\n        right = len(binning_thresholds)\n        while left < right:\n            middle = left + (right - left - 1) // 2\n            if x <= binning_thresholds[middle]:\n                right = middle\n            else:\n                left = middle + 1\n        binned_col[i] = left")]),
# _utils
("swr_last", [(U, "        j = randint(population_size - i)\n        out[i] = pool[j]\n        pool[j] = pool[population_size - i - 1]", "        remaining = population_size - i\n        j = randint(remaining)\n        out[i], pool[j] = pool[j], pool[remaining - 1]")]),
("swr_arange", [(U, "    for i in range(population_size):\n        pool[i] = i", "    pool[:] = np.arange(population_size)")]),
("resize_helper", [(U, "def resize(a, new_size, zeros=False):", "@jit(nopython=NOPYTHON, nogil=NOGIL)\ndef _alloc(shape, dtype, zeros):\n    if zeros:\n        return np.zeros(shape, dtype)\n    return np.empty(shape, dtype)\n\ndef resize(a, new_size, zeros=False):"),
  (U, "        if zeros:\n            new = np.zeros(new_size, a.dtype)\n        else:\n            new = np.empty(new_size, a.dtype)\n        new[:a.size] = a\n        return new", "        new = _alloc(new_size, a.dtype, zeros)\n        new[:a.size] = a\n        return new")]),
("resize_early", [(U, "    else:\n        raise ValueError('ndim can only be 1, 2 or 3')", "    raise ValueError('ndim can only be 1, 2 or 3')")]),
("logsum_max", [(U, "    if a > b:\n        return a + log((1 + exp(b - a)) / 2)\n    else:\n        return b + log((1 + exp(a - b)) / 2)", "    if a > b:\n        hi, lo = a, b\n    else:\n        hi, lo = b, a\n    return hi + log((1 + exp(lo - hi)) / 2)")]),
("logsum_half", [(U, "        return a + log((1 + exp(b - a)) / 2)", "        ratio = exp(b - a)\n        return a + log(0.5 * (1 + ratio))")]),
# _checks
("ck_cat_merge", [(CK, "        if is_categorical is None:\n            if dtype.name == 'category':\n                return 'is_category'\n            else:\n                if verbose:\n                    warnings.warn(f'I will consider column {col.name} as categorical.')\n                return 'to_category'\n        elif is_categorical:\n            if dtype.name == 'category':\n                return 'is_category'\n            else:\n                return 'to_category'\n        elif dtype.name == 'category':", "        already = dtype.name == 'category'\n        if is_categorical is None:\n            if already:\n                return 'is_category'\n            if verbose:\n                warnings.warn(f'I will consider column {col.name} as categorical.')\n            return 'to_category'\n        if is_categorical:\n            return 'is_category' if already else 'to_category'\n        if already:")]),
("ck_numeric_helper", [(CK, "            n_modalities = col.nunique()\n            if n_modalities <= cat_min_categories:\n                if verbose:\n                    warnings.warn(f'I will consider column {col.name} as categorical: it has {n_modalities} unique values.')\n                return 'to_category'\n            else:\n                if verbose:\n                    warnings.warn(f'I will consider column {col.name} as numerical: it has {n_modalities} unique values.')\n                return 'numerical'", "            n_modalities = col.nunique()\n            few = n_modalities <= cat_min_categories\n            if verbose:\n                kind = 'categorical' if few else 'numerical'\n                warnings.warn(f'I will consider column {col.name} as {kind}: it has {n_modalities} unique values.')\n            return 'to_category' if few else 'numerical'")]),
("ck_array_try", [(CK, "                    success = True\n                    try:\n                        col.astype(np.float32)\n                    except ValueError:\n                        success = False\n                    if success:", "                    success = _is_float_like(col)\n                    if success:"),
  (CK, "def get_array_dtypes(", "def _is_float_like(col):\n    try:\n        col.astype(np.float32)\n    except ValueError:\n        return False\n    return True\n\ndef get_array_dtypes(")]),
("ck_array_assign", [(CK, "                is_col_categorical = is_categorical[col_idx]\n                if is_col_categorical:\n                    is_categorical_out[col_idx] = True\n                else:\n                    is_categorical_out[col_idx] = False\n", "                is_categorical_out[col_idx] = is_categorical[col_idx]\n")]),
("ck_array_vector", [(CK, "            for col_idx in range(n_features):\n                is_col_categorical = is_categorical[col_idx]\n                if is_col_categorical:\n                    is_categorical_out[col_idx] = True\n                else:\n                    is_categorical_out[col_idx] = False\n", "            is_categorical_out[:] = is_categorical\n")]),
("ck_array_unique", [(CK, "                col = X[:, col_idx]\n                col_unique = np.unique(col)\n                nunique = col_unique.size\n                if nunique <= cat_min_categories:\n                    is_categorical_out[col_idx] = True\n                    if verbose:\n                        warnings.warn(f'I will consider column {col_idx} as categorical.')\n                else:\n                    is_categorical_out[col_idx] = False\n                    if verbose:\n                        warnings.warn(f'I will consider column {col_idx} as numerical.')", "                few = np.unique(X[:, col_idx]).size <= cat_min_categories\n                is_categorical_out[col_idx] = few\n                if verbose:\n                    warnings.warn(f'I will consider column {col_idx} as categorical.' if few else f'I will consider column {col_idx} as numerical.')")]),
("ck_X_flat", [(CK, "    if isinstance(X, pd.DataFrame):\n        is_dataframe = True\n    elif isinstance(X, np.ndarray):\n        if X.ndim == 2:\n            is_dataframe = False\n        else:\n            raise ValueError('X is must be a `pandas.DataFrame` or a two-dimensional `numpy.ndarray`.')\n        if X.dtype.kind", "    is_dataframe = isinstance(X, pd.DataFrame)\n    if is_dataframe:\n        pass\n    elif isinstance(X, np.ndarray):\n        if X.ndim != 2:\n            raise ValueError('X is must be a `pandas.DataFrame` or a two-dimensional `numpy.ndarray`.')\n        if X.dtype.kind")]),
("ck_X_shape", [(CK, "    if n_features is not None:\n        if X.shape[1] != n_features:", "    n_cols = X.shape[1]\n    if n_features is not None:\n        if n_cols != n_features:")]),
("ck_X_and", [(CK, "    if is_categorical is not None:\n        if X.shape[1] != is_categorical.size:\n            msg = f'The number of features in X differs from the size of is_categorical. X has shape {X.shape} while is_categorical has shape {is_categorical.shape}'\n            raise ValueError(msg)", "    if is_categorical is not None and X.shape[1] != is_categorical.size:\n        raise ValueError(f'is_categorical has shape {is_categorical.shape}, X has shape {X.shape}')")]),
("ck_iscat_flat", [(CK, "    if categorical_features is None:\n        return None\n    else:\n        categorical_features = np.asarray(categorical_features)\n        if categorical_features.size == 0:\n            return None\n        else:\n            kind = categorical_features.dtype.kind\n            if kind == 'i':\n                if np.max(categorical_features) >= n_features or np.min(categorical_features) < 0:\n                    raise ValueError('categorical_features set as integer indices must be in [0, n_features - 1]')\n                else:\n                    is_categorical = np.zeros(n_features, dtype=bool)\n                    is_categorical[categorical_features] = True\n            elif kind == 'b':\n                if categorical_features.shape[0] != n_features:\n                    raise ValueError(f'categorical_features set as a boolean mask must have shape (n_features,), got: {categorical_features.shape}')\n                else:\n                    is_categorical = categorical_features.copy()\n            else:\n                raise ValueError('categorical_features must be an array-like of bools or array-like of ints.')\n            return is_categorical", "    if categorical_features is None:\n        return None\n    features = np.asarray(categorical_features)\n    if features.size == 0:\n        return None\n    kind = features.dtype.kind\n    if kind == 'b':\n        if features.shape[0] != n_features:\n            raise ValueError('bad mask')\n        return features.copy()\n    if kind != 'i':\n        raise ValueError('categorical_features must be an array-like of bools or array-like of ints.')\n    if np.min(features) < 0 or np.max(features) >= n_features:\n        raise ValueError('categorical_features set as integer indices must be in [0, n_features - 1]')\n    is_categorical = np.zeros(n_features, dtype=bool)\n    is_categorical[features] = True\n    return is_categorical")]),
("ck_iscat_minmax_meth", [(CK, "np.max(categorical_features) >= n_features or np.min(categorical_features) < 0", "categorical_features.max() >= n_features or categorical_features.min() < 0")]),
("ck_iscat_any", [(CK, "                if np.max(categorical_features) >= n_features or np.min(categorical_features) < 0:", "                too_big = np.max(categorical_features) >= n_features\n                negative = np.min(categorical_features) < 0\n                if too_big or negative:")]),
# tree.py
("tr_setstate_update", [(T, "        self.__dict__ = {k: unserialize(k, v) for k, v in state.items()}", "        restored = {}\n        for k, v in state.items():\n            restored[k] = unserialize(k, v)\n        self.__dict__ = restored")]),
("tr_getstate_dict", [(T, "        return {k: serialize(v) for k, v in self.__dict__.items()}", "        return {name: serialize(value) for name, value in vars(self).items()}")]),
("tr_uns_helper_tree", [(T, "        tree.nodes[:] = val['nodes']\n        tree.y_pred[:] = val['y_pred']\n        tree.bin_partitions[:] = val['bin_partitions']\n        return tree\n    elif key == '_tree_regressor':", "        return _fill_tree(tree, val)\n    elif key == '_tree_regressor':"),
  (T, "        tree.nodes[:] = val['nodes']\n        tree.y_pred[:] = val['y_pred']\n        tree.bin_partitions[:] = val['bin_partitions']\n        return tree\n    elif key == '_tree_classifier_context':", "        return _fill_tree(tree, val)\n    elif key == '_tree_classifier_context':"),
  (T, "def unserialize(key, val):", "def _fill_tree(tree, val):\n    tree.nodes[:] = val['nodes']\n    tree.y_pred[:] = val['y_pred']\n    tree.bin_partitions[:] = val['bin_partitions']\n    return tree\n\ndef unserialize(key, val):")]),
("tr_uns_loop_names", [(T, "        tree.nodes[:] = val['nodes']\n        tree.y_pred[:] = val['y_pred']\n        tree.bin_partitions[:] = val['bin_partitions']\n        return tree\n    elif key == '_tree_regressor':", "        for name in ('nodes', 'y_pred', 'bin_partitions'):\n            getattr(tree, name)[:] = val[name]\n        return tree\n    elif key == '_tree_regressor':")]),
("tr_ser_helper_fb", [(T, "def serialize(obj):", "def _attrs(obj, spec):\n    return {attr: getattr(obj, attr) for attr, _ in spec}\n\ndef serialize(obj):"),
  (T, "        return {attr: getattr(obj, attr) for attr, _ in tree_classifier_type}", "        return _attrs(obj, tree_classifier_type)"),
  (T, "        return {attr: getattr(obj, attr) for attr, _ in tree_regressor_type}", "        return _attrs(obj, tree_regressor_type)"),
  (T, "        return {attr: getattr(obj, attr) for attr, _ in spec_features_bit_array}", "        return _attrs(obj, spec_features_bit_array)")]),
("tr_ser_ctx_merge", [(T, "    elif isinstance(obj, TreeClassifierContext):\n        dd = {}\n        for attr, _ in tree_classifier_context_type:\n            if attr == 'features_bitarray':\n                features_bitarray = getattr(obj, attr)\n                dd[attr] = {key: getattr(features_bitarray, key) for key, _ in spec_features_bit_array}\n            else:\n                dd[attr] = getattr(obj, attr)\n        return dd", "    elif isinstance(obj, TreeClassifierContext):\n        dd = {}\n        for attr, _ in tree_classifier_context_type:\n            value = getattr(obj, attr)\n            if attr == 'features_bitarray':\n                value = {key: getattr(value, key) for key, _ in spec_features_bit_array}\n            dd[attr] = value\n        return dd")]),
("tr_step_early", [(T, "        if self._step != val:\n            self._step = val\n            if self.is_classifier:\n                if self._tree_classifier_context is not None:\n                    self._tree_classifier_context.step = val\n                if self._tree_classifier is not None and self.aggregation:\n                    compute_tree_weights(self._tree_classifier.nodes, self._tree_classifier.node_count, val)\n            else:\n                if self._tree_regressor_context is not None:\n                    self._tree_regressor_context.step = val\n                if self._tree_regressor is not None and self.aggregation:\n                    compute_tree_weights(self._tree_regressor.nodes, self._tree_regressor.node_count, val)", "        if self._step == val:\n            return\n        self._step = val\n        if self.is_classifier:\n            tree, context = self._tree_classifier, self._tree_classifier_context\n        else:\n            tree, context = self._tree_regressor, self._tree_regressor_context\n        if context is not None:\n            context.step = val\n        if self.aggregation and tree is not None:\n            compute_tree_weights(tree.nodes, tree.node_count, val)")]),
("tr_lighten_helper", [(T, "            if hasattr(self, '_tree_classifier'):\n                self._tree_classifier.nodes = self._tree_classifier.nodes[:self._tree_classifier.node_count]\n                self._tree_classifier.bin_partitions = self._tree_classifier.bin_partitions[:self._tree_classifier.bin_partitions_end]\n                self._tree_classifier.y_pred = self._tree_classifier.y_pred[:self._tree_classifier.node_count]\n                self._tree_classifier.capacity = self._tree_classifier.node_count\n                self._tree_classifier.bin_partitions_capacity = self._tree_classifier.bin_partitions_end", "            if hasattr(self, '_tree_classifier'):\n                _shrink(self._tree_classifier)"),
  (T, "            if hasattr(self, '_tree_regressor'):\n                self._tree_regressor.nodes = self._tree_regressor.nodes[:self._tree_regressor.node_count]\n                self._tree_regressor.bin_partitions = self._tree_regressor.bin_partitions[:self._tree_regressor.bin_partitions_end]\n                self._tree_regressor.y_pred = self._tree_regressor.y_pred[:self._tree_regressor.node_count]\n                self._tree_regressor.capacity = self._tree_regressor.node_count\n                self._tree_regressor.bin_partitions_capacity = self._tree_regressor.bin_partitions_end", "            if hasattr(self, '_tree_regressor'):\n                _shrink(self._tree_regressor)"),
  (T, "def serialize(obj):", "def _shrink(tree):\n    n_nodes, end = tree.node_count, tree.bin_partitions_end\n    tree.nodes = tree.nodes[:n_nodes]\n    tree.y_pred = tree.y_pred[:n_nodes]\n    tree.capacity = n_nodes\n    tree.bin_partitions = tree.bin_partitions[:end]\n    tree.bin_partitions_capacity = end\n\ndef serialize(obj):")]),
("tr_fit_setattr_order", [(T, "        self._train_indices = train_indices\n        self._valid_indices = valid_indices\n        self._tree_classifier = tree_classifier\n        self._tree_classifier_context = tree_classifier_context\n        return self", "        self._tree_classifier = tree_classifier\n        self._tree_classifier_context = tree_classifier_context\n        self._train_indices, self._valid_indices = train_indices, valid_indices\n        return self")]),
("tr_fit_zeros", [(T, "        node_count = 0\n        capacity = 0\n        bin_partitions_capacity = 0\n        bin_partitions_end = 0\n        tree_classifier = _TreeClassifier(n_features, n_classes, random_state, node_count, capacity, bin_partitions_capacity, bin_partitions_end)", "        tree_classifier = _TreeClassifier(n_features, n_classes, random_state, 0, 0, 0, 0)")]),
("tr_is_fitted", [(T, "        if self.is_classifier:\n            return self._tree_classifier is not None\n        else:\n            return self._tree_regressor is not None", "        fitted = self._tree_classifier if self.is_classifier else self._tree_regressor\n        return fitted is not None")]),
("tr_leaves", [(T, "        return self.get_nodes().is_leaf.sum()", "        nodes = self.get_nodes()\n        return nodes.is_leaf.sum()")]),
("tr_dirichlet_early", [(T, "        if val != self.dirichlet:\n            self._dirichlet = val\n            if hasattr(self, '_tree_classifier_context'):\n                self._tree_classifier_context.dirichlet = val\n                recompute_node_predictions(self._tree_classifier, self._tree_classifier_context, val)", "        if val == self.dirichlet:\n            return\n        self._dirichlet = val\n        if not hasattr(self, '_tree_classifier_context'):\n            return\n        context = self._tree_classifier_context\n        context.dirichlet = val\n        recompute_node_predictions(self._tree_classifier, context, val)")]),
("tr_uns_fb_helper", [(T, "        dict_features_bitarray = val['features_bitarray']\n        n_samples = dict_features_bitarray['n_samples']\n        max_values = dict_features_bitarray['max_values']\n        features_bitarray = FeaturesBitArray(n_samples, max_values)\n        features_bitarray.n_features = dict_features_bitarray['n_features']\n        features_bitarray.n_bits[:] = dict_features_bitarray['n_bits']\n        features_bitarray.offsets[:] = dict_features_bitarray['offsets']\n        features_bitarray.n_values_in_words[:] = dict_features_bitarray['n_values_in_words']\n        features_bitarray.bitarray[:] = dict_features_bitarray['bitarray']\n        features_bitarray.bitmasks[:] = dict_features_bitarray['bitmasks']\n        y = val['y']\n        sample_weights = val['sample_weights']\n        train_indices = val['train_indices']\n        valid_indices = val['valid_indices']\n        max_features", "        features_bitarray = _restore_bitarray(val['features_bitarray'])\n        y = val['y']\n        sample_weights = val['sample_weights']\n        train_indices = val['train_indices']\n        valid_indices = val['valid_indices']\n        max_features"),
  (T, "def unserialize(key, val):", "def _restore_bitarray(state):\n    fb = FeaturesBitArray(state['n_samples'], state['max_values'])\n    fb.n_features = state['n_features']\n    fb.n_bits[:] = state['n_bits']\n    fb.offsets[:] = state['offsets']\n    fb.n_values_in_words[:] = state['n_values_in_words']\n    fb.bitarray[:] = state['bitarray']\n    fb.bitmasks[:] = state['bitmasks']\n    return fb\n\ndef unserialize(key, val):")]),
]
