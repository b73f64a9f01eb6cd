"""More behaviour-preserving edits (see refactorings.py)."""
W = "wildwood/"
S, G, N, T, F, TR = W + "_split.py", W + "_grow.py", W + "_node.py", W + "_tree.py", W + "forest.py", W + "tree.py"
E, B, C, A = (W + "preprocessing/" + x for x in ("encoder.py", "_binning.py", "_checks.py", "features_bitarray.py"))
I, U, TC = W + "_impurity.py", W + "_utils.py", W + "_tree_context.py"
JIT = "@jit(nopython=NOPYTHON, nogil=NOGIL, boundscheck=BOUNDSCHECK, fastmath=FASTMATH)\n"
RF = [
("enc_fit_is_col_arg", [(E, """                if self.is_categorical is None:
                    is_col_categorical = is_series_categorical(
                        col,
                        is_categorical=None,
                        cat_min_categories=cat_min_categories_,
                        verbose=self.verbose,
                    )
                else:
                    is_col_categorical = is_series_categorical(
                        col,
                        is_categorical=self.is_categorical[col_idx],
                        cat_min_categories=cat_min_categories_,
                        verbose=self.verbose,
                    )
""", """                declared = None
                if self.is_categorical is not None:
                    declared = self.is_categorical[col_idx]
                is_col_categorical = is_series_categorical(
                    col,
                    is_categorical=declared,
                    cat_min_categories=cat_min_categories_,
                    verbose=self.verbose,
                )
""")]),
("enc_fit_merge_cat_branches", [(E, """                if is_col_categorical == "is_category":
                    is_categorical_[col_idx] = True
                    # This gives the array of unique categories (no missing values)
                    col_categories = col.cat.categories.values
                    categories[col_idx] = col_categories
                    n_bins_no_missing_values[col_idx] = col_categories.size
                elif is_col_categorical == "to_category":
                    is_categorical_[col_idx] = True
                    # TODO: use pd.CategoricalDtype(categories=categories) instead
                    col_as_category = col.astype("category")
                    col_categories = col_as_category.cat.categories.values
                    categories[col_idx] = col_categories
                    n_bins_no_missing_values[col_idx] = col_categories.size
                else:
""", """                if is_col_categorical in ("is_category", "to_category"):
                    if is_col_categorical == "to_category":
                        col = col.astype("category")
                    is_categorical_[col_idx] = True
                    col_categories = col.cat.categories.values
                    categories[col_idx] = col_categories
                    n_bins_no_missing_values[col_idx] = col_categories.size
                else:
""")]),
("enc_fit_cat_min_dict", [(E, """        elif self.cat_min_categories == "log":
            cat_min_categories_ = int(max(2, floor(log(n_samples))))
        else:
            cat_min_categories_ = int(max(2, floor(sqrt(n_samples))))
""", """        else:
            if self.cat_min_categories == "log":
                scaled = log(n_samples)
            else:
                scaled = sqrt(n_samples)
            cat_min_categories_ = int(max(2, floor(scaled)))
""")]),
("enc_fit_subset_default", [(E, """        if self.subsample is not None and n_samples > self.subsample:
            rng = check_random_state(self.random_state)
            subset = rng.choice(n_samples, self.subsample, replace=False)
        else:
            subset = None
""", """        subset = None
        if self.subsample is not None:
            if n_samples > self.subsample:
                rng = check_random_state(self.random_state)
                subset = rng.choice(n_samples, self.subsample, replace=False)
""")]),
("enc_fit_assign_early", [(E, """        self.categories_ = categories
        self.binning_thresholds_ = binning_thresholds
        self.is_categorical_ = is_categorical_
        self.n_bins_no_missing_values_ = n_bins_no_missing_values
        self._fitted = True
""", """        self._fitted = True
        self.n_bins_no_missing_values_ = n_bins_no_missing_values
        self.is_categorical_ = is_categorical_
        self.binning_thresholds_ = binning_thresholds
        self.categories_ = categories
""")]),
("enc_transform_unknown_set", [(E, """                    col_has_unknown_categories = not col_categories_at_transform.issubset(
                        col_categories_at_fit
                    )
                    if col_has_unknown_categories and self.handle_unknown == "error":
                        unknowns = col_categories_at_transform.difference(
                            col_categories_at_fit
                        )
                        msg = (
                            "Found unknown categories {0} in column {1} during "
                            "transform".format(unknowns, col_idx)
                        )
                        raise ValueError(msg)
                    requires_extra_bin = (
                        col_has_missing_values or col_has_unknown_categories
                    )
                else:
                    requires_extra_bin = col_has_missing_values

                if requires_extra_bin:
                    col_n_bins += 1
""", """                    col_has_unknown_categories = (
                        not col_categories_at_transform.issubset(col_categories_at_fit)
                    )
                    if col_has_unknown_categories:
                        if self.handle_unknown == "error":
                            unknowns = col_categories_at_transform.difference(
                                col_categories_at_fit
                            )
                            raise ValueError(
                                "Found unknown categories {0} in column {1} "
                                "during transform".format(unknowns, col_idx)
                            )
                    requires_extra_bin = (
                        col_has_unknown_categories or col_has_missing_values
                    )
                else:
                    requires_extra_bin = col_has_missing_values

                if requires_extra_bin:
                    col_n_bins = col_n_bins + 1
""")]),
("enc_transform_fill_helper", [(E, """                    if col.hasnans:
                        binned_col = col.cat.codes.values.copy()
                        binned_col[col.isna()] = col_categories_at_fit.size
                    else:
                        binned_col = col.cat.codes.values
""", """                    binned_col = col.cat.codes.values
                    if col.hasnans:
                        binned_col = binned_col.copy()
                        binned_col[col.isna()] = col_categories_at_fit.size
""")]),
("enc_transform_codes_helper", [(E, """                    if col.hasnans:
                        binned_col = col.cat.codes.values.copy()
                        binned_col[col.isna()] = col_categories_at_fit.size
                    else:
                        binned_col = col.cat.codes.values
""", """                    binned_col = _codes_of(col, col_categories_at_fit)
"""), (E, "@@append", """

def _codes_of(col, col_categories_at_fit):
    if not col.hasnans:
        return col.cat.codes.values
    codes = col.cat.codes.values.copy()
    codes[col.isna()] = col_categories_at_fit.size
    return codes
""")]),
("enc_transform_names", [(E, """        n_samples, n_features = X.shape
        n_features = self.n_features_in_
        is_categorical_ = self.is_categorical_
""", """        n_samples = X.shape[0]
        n_features = self.n_features_in_
        is_categorical_ = self.is_categorical_
""")]),
("enc_transform_enumerate_keys", [(E, """            for col_idx, (col_name, col) in enumerate(X.items()):
                col_has_missing_values = col.hasnans
""", """            for col_idx, col_name in enumerate(X.columns):
                col = X.iloc[:, col_idx]
                col_has_missing_values = col.hasnans
""")]),
("enc_setter_maxbins_flat", [(E, """        if not isinstance(val, int):
            raise ValueError("max_bins must be an integer number")
        else:
            if val < 3:
                raise ValueError("max_bins must be >= 3")
            else:
                self._max_bins = val
""", """        if not isinstance(val, int):
            raise ValueError("max_bins must be an integer number")
        if val < 3:
            raise ValueError("max_bins must be >= 3")
        self._max_bins = val
""")]),
("enc_setter_subsample_flip", [(E, """        if val is None:
            self._subsample = val
        elif isinstance(val, (int, float)) and val >= 50_000:
            self._subsample = int(val)
        else:
            msg = "subsample should be None or a number >= 50000"
            raise ValueError(msg)
""", """        if val is None:
            self._subsample = None
            return
        if not isinstance(val, (int, float)) or val < 50_000:
            raise ValueError("subsample should be None or a number >= 50000")
        self._subsample = int(val)
""")]),
("enc_setter_unknown_tuple", [(E, """        if val in {"error", "consider_missing"}:
            self._handle_unknown = val
        else:
            msg = (
                "handle_unknown must be 'error' or 'consider_missing' but "
                "got {0}".format(val)
            )
            raise ValueError(msg)
""", """        if val not in ("error", "consider_missing"):
            raise ValueError(
                "handle_unknown must be 'error' or 'consider_missing' but got "
                "{0}".format(val)
            )
        self._handle_unknown = val
""")]),
("bin_col_use_x", [(B, """                if col[i] <= binning_thresholds[middle]:
""", """                if x <= binning_thresholds[middle]:
""")]),
("bin_col_index_loop", [(B, """    for i, x in enumerate(col):
        if isnan(x):
""", """    for i in range(col.shape[0]):
        x = col[i]
        if isnan(x):
""")]),
("bin_col_separate_init", [(B, """            left, right = 0, binning_thresholds.shape[0]
""", """            left = 0
            right = binning_thresholds.shape[0]
""")]),
("bin_thresholds_midpoints", [(B, """        middles = uniques[:-1] + uniques[1:]
        middles *= 0.5
""", """        middles = 0.5 * (uniques[:-1] + uniques[1:])
""")]),
("bin_thresholds_flip", [(B, """        percentiles = np.linspace(0, 100, num=max_bins + 1)
        percentiles = percentiles[1:-1]
""", """        percentiles = np.linspace(0, 100, num=max_bins + 1)[1:-1]
""")]),
("checks_series_flat", [(C, """            if dtype.name == "category":
                return "is_category"
            else:
                return "to_category"
""", """            return "is_category" if dtype.name == "category" else "to_category"
""")]),
("checks_x_flat", [(C, """    if n_features is not None:
        if X.shape[1] != n_features:
""", """    if n_features is not None and n_features != X.shape[1]:
        if True:
""")]),
("checks_get_is_cat_flat", [(C, """        if categorical_features.size == 0:
            return None
        else:
            kind = categorical_features.dtype.kind
""", """        if categorical_features.size == 0:
            return None
        if True:
            kind = categorical_features.dtype.kind
""")]),
("checks_arr_dtype_copy", [(C, """            for col_idx in range(n_features):
                is_col_categorical = is_categorical[col_idx]
                if is_col_categorical:
                    is_categorical_out[col_idx] = True
                else:
                    is_categorical_out[col_idx] = False
""", """            for col_idx in range(n_features):
                is_categorical_out[col_idx] = is_categorical[col_idx]
""")]),
("checks_arr_dtype_bool", [(C, """                if nunique <= cat_min_categories:
                    is_categorical_out[col_idx] = True
                    if verbose:
                        warnings.warn(
                            f"I will consider column {col_idx} as categorical."
                        )
                else:
                    is_categorical_out[col_idx] = False
                    if verbose:
                        warnings.warn(f"I will consider column {col_idx} as numerical.")
""", """                is_col_categorical = nunique <= cat_min_categories
                is_categorical_out[col_idx] = is_col_categorical
                if verbose:
                    kind = "categorical" if is_col_categorical else "numerical"
                    warnings.warn(f"I will consider column {col_idx} as {kind}.")
""")]),
("ba_init_default", [(A, """            if max_value <= 1:
                self.n_bits[j] = 1
                self.n_values_in_words[j] = 64
                self.bitmasks[j] = 1
            else:
                self.n_bits[j] = ceil(np.log2(max_value + 1))
                self.n_values_in_words[j] = floor(64 / self.n_bits[j])
                self.bitmasks[j] = (1 << self.n_bits[j]) - 1
""", """            if max_value > 1:
                n_bits = ceil(np.log2(max_value + 1))
                self.n_bits[j] = n_bits
                self.n_values_in_words[j] = floor(64 / self.n_bits[j])
                self.bitmasks[j] = (1 << self.n_bits[j]) - 1
            else:
                self.n_bits[j] = 1
                self.bitmasks[j] = 1
                self.n_values_in_words[j] = 64
""")]),
("ba_get_value_local", [(A, """    word = i // n_values_in_word
    pos_in_word = i % n_values_in_word
    b = bitarray[word]
    n_shifts = (n_values_in_word - pos_in_word - 1) * n_bits
    return (b & (bitmask << n_shifts)) >> n_shifts
""", """    pos_in_word = i % n_values_in_word
    n_shifts = (n_values_in_word - 1 - pos_in_word) * n_bits
    mask = bitmask << n_shifts
    return (bitarray[i // n_values_in_word] & mask) >> n_shifts
""")]),
("ba_get_value_offsets", [(A, """    bitarray_j = features_bitarray.bitarray[
        features_bitarray.offsets[j] : features_bitarray.offsets[j + 1]
    ]
    n_bits_j = features_bitarray.n_bits[j]
    bitmask = features_bitarray.bitmasks[j]
    return get_value_from_column(i, bitarray_j, bitmask, n_values_in_word, n_bits_j)
""", """    offsets = features_bitarray.offsets
    start, end = offsets[j], offsets[j + 1]
    return get_value_from_column(
        i,
        features_bitarray.bitarray[start:end],
        features_bitarray.bitmasks[j],
        n_values_in_word,
        features_bitarray.n_bits[j],
    )
""")]),
("ba_empty_matrix_dtype", [(A, """    if max_value <= _UINT8_MAX:
        X = np.empty((n_samples, n_features), dtype=np.uint8, order="F")
    elif _UINT8_MAX < max_value <= _UINT16_MAX:
        X = np.empty((n_samples, n_features), dtype=np.uint16, order="F")
    elif _UINT16_MAX < max_value <= _UINT32_MAX:
        X = np.empty((n_samples, n_features), dtype=np.uint32, order="F")
    elif _UINT32_MAX < max_value <= _UINT64_MAX:
        X = np.empty((n_samples, n_features), dtype=np.uint64, order="F")
    else:
        raise ValueError("X cannot be created")
    return X
""", """    if max_value <= _UINT8_MAX:
        dtype = np.uint8
    elif max_value <= _UINT16_MAX:
        dtype = np.uint16
    elif max_value <= _UINT32_MAX:
        dtype = np.uint32
    elif max_value <= _UINT64_MAX:
        dtype = np.uint64
    else:
        raise ValueError("X cannot be created")
    return np.empty((n_samples, n_features), dtype=dtype, order="F")
""")]),
("ba_fill_column_divmod", [(A, """        word = i // n_values_in_word
        pos_in_word = i % n_values_in_word
        if pos_in_word == 0:
            col_bitarray[word] = x_ij
        else:
            col_bitarray[word] = (col_bitarray[word] << n_bits) | x_ij
""", """        pos_in_word = i % n_values_in_word
        word = i // n_values_in_word
        if pos_in_word != 0:
            col_bitarray[word] = x_ij | (col_bitarray[word] << n_bits)
        else:
            col_bitarray[word] = x_ij
""")]),
("ba_fill_column_inline", [(A, """    n_values_in_word = features_bitarray.n_values_in_words[col_idx]
    n_bits = features_bitarray.n_bits[col_idx]
    _features_bitarray_fill_column(col_bitarray, n_bits, n_values_in_word, col)
""", """    _features_bitarray_fill_column(
        col_bitarray,
        features_bitarray.n_bits[col_idx],
        features_bitarray.n_values_in_words[col_idx],
        col,
    )
""")]),
("ba_from_array_flat", [(A, """    if hasattr(X, "ndim") and hasattr(X, "dtype") and hasattr(X, "shape"):
        if X.ndim == 2:
            if X.dtype not in (np.uint8, np.uint16, np.uint32, np.uint64):
                raise ValueError(
                    "X dtype must be one of uint8, uint16, uint32 or " "uint64"
                )
        else:
            raise ValueError("X is must be a 2D numpy array")
    else:
        raise ValueError("X is not a numpy array")
""", """    if not (hasattr(X, "ndim") and hasattr(X, "dtype") and hasattr(X, "shape")):
        raise ValueError("X is not a numpy array")
    if X.ndim != 2:
        raise ValueError("X is must be a 2D numpy array")
    if X.dtype not in (np.uint8, np.uint16, np.uint32, np.uint64):
        raise ValueError("X dtype must be one of uint8, uint16, uint32 or uint64")
""")]),
]
