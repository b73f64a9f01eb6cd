"""More behaviour-preserving edits (see refactorings.py)."""
W = "wildwood/"
S, G, N, T, F, TR = W + "_split.py", W + "_grow.py", W + "_node.py", W + "_tree.py", W + "forest.py", W + "tree.py"
E, B, C, A = (W + "preprocessing/" + x for x in ("encoder.py", "_binning.py", "_checks.py", "features_bitarray.py"))
D = W + "datasets/dataset.py"
I, U, TC = W + "_impurity.py", W + "_utils.py", W + "_tree_context.py"
JIT = "@jit(nopython=NOPYTHON, nogil=NOGIL, boundscheck=BOUNDSCHECK, fastmath=FASTMATH)\n"
RF = [
("node_fill_slices", [(N, """    y_sum.fill(0.0)
    y_pred.fill(0.0)
""", """    y_sum[:] = 0.0
    y_pred[:] = 0.0
""")]),
("node_enumerate_features", [(N, """    for j in features:
        n_values_in_word = n_values_in_words[j]
        bitarray_feature = bitarray[offsets[j]:offsets[j + 1]]
        n_bits_feature = n_bits[j]
        bitmask = bitmasks[j]
        for i in train_indices:
            bin = get_value_from_column(i, bitarray_feature, bitmask, n_values_in_word, n_bits_feature)
            label = y[i]
""", """    for f, j in enumerate(features):
        n_values_in_word = n_values_in_words[j]
        bitarray_feature = bitarray[offsets[j]:offsets[j + 1]]
        n_bits_feature = n_bits[j]
        bitmask = bitmasks[j]
        for i in train_indices:
            bin = get_value_from_column(i, bitarray_feature, bitmask, n_values_in_word, n_bits_feature)
            label = y[i]
"""), (N, """                n_samples_valid_in_bins[f, bin] += 1
                w_samples_valid_in_bins[f, bin] += sample_weight
        f += 1
    node_context.y_pred = y_pred
""", """                n_samples_valid_in_bins[f, bin] += 1
                w_samples_valid_in_bins[f, bin] += sample_weight
    node_context.y_pred = y_pred
""")]),
("node_range_features", [(N, """    for j in features:
        n_values_in_word = n_values_in_words[j]
        bitarray_feature = bitarray[offsets[j]:offsets[j + 1]]
        n_bits_feature = n_bits[j]
        bitmask = bitmasks[j]
        for i in train_indices:
            bin = get_value_from_column(i, bitarray_feature, bitmask, n_values_in_word, n_bits_feature)
            label = uintp(y[i])
""", """    for f in range(features.size):
        j = features[f]
        n_values_in_word = n_values_in_words[j]
        bitarray_feature = bitarray[offsets[j]:offsets[j + 1]]
        n_bits_feature = n_bits[j]
        bitmask = bitmasks[j]
        for i in train_indices:
            bin = get_value_from_column(i, bitarray_feature, bitmask, n_values_in_word, n_bits_feature)
            label = uintp(y[i])
"""), (N, """                n_samples_valid_in_bins[f, bin] += 1
                w_samples_valid_in_bins[f, bin] += sample_weight
        f += 1
""", """                n_samples_valid_in_bins[f, bin] += 1
                w_samples_valid_in_bins[f, bin] += sample_weight
""")]),
("node_residual", [(N, """                    label = y[i]
                    loss_valid += sample_weight * (label - y_pred) * (label - y_pred)
""", """                    residual = y[i] - y_pred
                    loss_valid += sample_weight * residual ** 2
""")]),
("node_count_local", [(N, """            if n_samples_train_in_bins[f, bin] == 0:
                non_empty_bins_train[f, non_empty_bins_train_count[f]] = bin
                non_empty_bins_train_count[f] += 1
            n_samples_train_in_bins[f, bin] += 1
            w_samples_train_in_bins[f, bin] += sample_weight
            y_sum[f, bin, label] += sample_weight
""", """            is_new_bin = n_samples_train_in_bins[f, bin] == 0
            n_samples_train_in_bins[f, bin] += 1
            w_samples_train_in_bins[f, bin] += sample_weight
            y_sum[f, bin, label] += sample_weight
            if is_new_bin:
                pos = non_empty_bins_train_count[f]
                non_empty_bins_train[f, pos] = bin
                non_empty_bins_train_count[f] = pos + 1
""")]),
("node_denominator", [(N, """            for k in range(n_classes):
                y_pred[k] = (y_pred[k] + dirichlet) / (w_samples_train + n_classes * dirichlet)
""", """            denominator = w_samples_train + dirichlet * n_classes
            for k in range(n_classes):
                y_pred[k] += dirichlet
                y_pred[k] /= denominator
""")]),
("node_label_early", [(N, """                sample_weight = sample_weights[i]
                if f == 0:
                    w_samples_valid += sample_weight
                    label = uintp(y[i])
                    loss_valid -= sample_weight * log(y_pred[label])
""", """                sample_weight = sample_weights[i]
                label = uintp(y[i])
                if f == 0:
                    loss_valid -= log(y_pred[label]) * sample_weight
                    w_samples_valid += sample_weight
""")]),
("node_first_loop_split", [(N, """            if f == 0:
                w_samples_train += sample_weight
                y_pred += w_y
            if n_samples_train_in_bins[f, bin] == 0:
""", """            if f == 0:
                y_pred += w_y
            if f == 0:
                w_samples_train += sample_weight
            if n_samples_train_in_bins[f, bin] == 0:
""")]),
("node_get_value", [(N, """        for i in train_indices:
            bin = get_value_from_column(i, bitarray_feature, bitmask, n_values_in_word, n_bits_feature)
            label = y[i]
""", """        for idx in range(train_indices.shape[0]):
            i = train_indices[idx]
            bin = get_value_from_column(i, bitarray_feature, bitmask, n_values_in_word, n_bits_feature)
            label = y[i]
""")]),
("node_reset_helper", [(N, """    n_samples_train_in_bins.fill(0)
    n_samples_valid_in_bins.fill(0)
    w_samples_train_in_bins.fill(0.0)
    w_samples_valid_in_bins.fill(0.0)
    non_empty_bins_train.fill(0)
    non_empty_bins_train_count.fill(0)
    non_empty_bins_valid.fill(0)
    non_empty_bins_valid_count.fill(0)
    y_sum.fill(0.0)
    y_pred.fill(0.0)
""", """    _reset_bins(node_context)
    y_sum.fill(0.0)
    y_pred.fill(0.0)
"""), (N, "@@append", """

""" + JIT + """def _reset_bins(node_context):
    node_context.n_samples_train_in_bins.fill(0)
    node_context.n_samples_valid_in_bins.fill(0)
    node_context.w_samples_train_in_bins.fill(0.0)
    node_context.w_samples_valid_in_bins.fill(0.0)
    node_context.non_empty_bins_train.fill(0)
    node_context.non_empty_bins_train_count.fill(0)
    node_context.non_empty_bins_valid.fill(0)
    node_context.non_empty_bins_valid_count.fill(0)
""")]),
("node_bin_helper", [(N, """            sample_weight = sample_weights[i]
            if f == 0:
                w_samples_train += sample_weight
                y_pred[label] += sample_weight
            if n_samples_train_in_bins[f, bin] == 0:
                non_empty_bins_train[f, non_empty_bins_train_count[f]] = bin
                non_empty_bins_train_count[f] += 1
            n_samples_train_in_bins[f, bin] += 1
            w_samples_train_in_bins[f, bin] += sample_weight
            y_sum[f, bin, label] += sample_weight
""", """            sample_weight = sample_weights[i]
            if f == 0:
                w_samples_train += sample_weight
                y_pred[label] += sample_weight
            _add_to_bin(n_samples_train_in_bins, w_samples_train_in_bins, non_empty_bins_train, non_empty_bins_train_count, f, bin, sample_weight)
            y_sum[f, bin, label] += sample_weight
"""), (N, "@@append", """

""" + JIT + """def _add_to_bin(n_in_bins, w_in_bins, non_empty, count, f, bin, weight):
    if n_in_bins[f, bin] == 0:
        non_empty[f, count[f]] = bin
        count[f] += 1
    n_in_bins[f, bin] += 1
    w_in_bins[f, bin] += weight
""")]),
("node_init_shape", [(N, """    node_context.n_samples_train_in_bins = np.empty((max_features, max_n_bins), dtype=np.uintp)
    node_context.w_samples_train_in_bins = np.empty((max_features, max_n_bins), dtype=np.float32)
""", """    shape = (max_features, max_n_bins)
    node_context.w_samples_train_in_bins = np.empty(shape, dtype=np.float32)
    node_context.n_samples_train_in_bins = np.empty(shape, dtype=np.uintp)
""")]),
("node_init_arange", [(N, """    node_context.features_pool = np.arange(0, n_features, dtype=np.uintp)
    node_context.features_sampled = np.arange(0, max_features, dtype=np.uintp)
""", """    node_context.features_pool = np.arange(n_features, dtype=np.uintp)
    node_context.features_sampled = np.arange(max_features, dtype=np.uintp)
""")]),
("ds_extract_target", [(D, """        self.label_encoder = self.label_encoder.fit(df_train[self.label_column])
        y_train = self.label_encoder.transform(df_train[self.label_column])
        y_test = self.label_encoder.transform(df_test[self.label_column])
""", """        label_column = self.label_column
        encoder = self.label_encoder.fit(df_train[label_column])
        self.label_encoder = encoder
        y_train = encoder.transform(df_train[label_column])
        y_test = encoder.transform(df_test[label_column])
""")]),
("ds_extract_transform", [(D, """        self.transformer = self.transformer.fit(df_train)
        X_train = self.transformer.transform(df_train)
        X_test = self.transformer.transform(df_test)
""", """        transformer = self.transformer.fit(df_train)
        X_train, X_test = transformer.transform(df_train), transformer.transform(df_test)
        self.transformer = transformer
""")]),
("ds_extract_stratify", [(D, """        stratify = None if self.task == 'regression' else df[self.label_column]
""", """        if self.task == 'regression':
            stratify = None
        else:
            stratify = df[self.label_column]
""")]),
("ds_extract_columns", [(D, """        n_samples_train, n_columns = X_train.shape
        n_samples_test, _ = X_test.shape
        self.n_columns_ = n_columns
        self.n_samples_train_ = n_samples_train
        self.n_samples_test_ = n_samples_test
""", """        self.n_samples_train_, self.n_columns_ = X_train.shape
        self.n_samples_test_ = X_test.shape[0]
""")]),
("ds_build_scaler", [(D, """            if self.standardize:
                continuous_transformer = ColumnTransformer([('continuous_transformer', StandardScaler(), self.continuous_columns)])
            else:
                continuous_transformer = ColumnTransformer([('continuous_transformer', FunctionTransformer(), self.continuous_columns)])
""", """            scaler = StandardScaler() if self.standardize else FunctionTransformer()
            continuous_transformer = ColumnTransformer([('continuous_transformer', scaler, self.continuous_columns)])
""")]),
("ds_gini", [(D, """            label_counts = np.bincount(y_encoded)
            label_probs = label_counts / label_counts.sum()
            self.scaled_gini_ = scaled_gini(label_probs)
""", """            label_counts = np.bincount(y_encoded)
            self.scaled_gini_ = scaled_gini(label_counts / np.sum(label_counts))
""")]),
("ds_higgs_paths", [(W + "datasets/_higgs.py", """        logger.info('Downloading %s' % ARCHIVE.url)
        _fetch_remote(ARCHIVE, dirname=data_dir)
""", """        logger.info('Downloading {}'.format(ARCHIVE.url))
        _fetch_remote(ARCHIVE, data_dir)
""")]),
]
