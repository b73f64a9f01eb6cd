"""More behaviour-preserving edits (see refactorings.py)."""
RF = [
    ('jit_options_dict', [
        ('wildwood/_impurity.py', '@@sub ^    nopython=NOPYTHON,\n    nogil=NOGIL,\n    boundscheck=BOUNDSCHECK,\n    fastmath=FASTMATH,\n',
         '    **JIT_OPTIONS,\n'),
        ('wildwood/_impurity.py', 'from ._utils import NOPYTHON, NOGIL, BOUNDSCHECK, FASTMATH\n',
         'from ._utils import JIT_OPTIONS\n'),
        ('wildwood/_utils.py', 'CACHE = True\n',
         'CACHE = True\nJIT_OPTIONS = dict(\n    nopython=NOPYTHON, nogil=NOGIL, boundscheck=BOUNDSCHECK, fastmath=FASTMATH\n)\n'),
    ]),
    ('rename_find_leaf', [
        ('wildwood/**/*.py', '@@sub \\bfind_leaf\\b',
         'get_leaf_index'),
    ]),
    ('rename_param', [
        ('wildwood/*.py', '@@sub \\bnon_empty_bins_train_count\\b',
         'n_non_empty_bins_train'),
    ]),
    ('rename_private_attr', [
        ('wildwood/**/*.py', '@@sub \\b_random_states_trees\\b',
         '_tree_seeds'),
        ('wildwood/**/*.py', '@@sub \\b_random_states_bootstrap\\b',
         '_bootstrap_seeds'),
    ]),
    ('rename_local_best_split', [
        ('wildwood/_split.py', '@@sub \\bbest_gain_proxy\\b',
         'top_gain_proxy'),
    ]),
    ('setter_helper', [
        ('wildwood/forest.py', "        if not isinstance(val, int):\n            raise ValueError('min_samples_split must be an integer number')\n        elif val < 2:\n            raise ValueError('min_samples_split must be >= 2')\n        else:\n            self._min_samples_split = val\n",
         "        self._min_samples_split = _check_int(val, 'min_samples_split', 2)\n"),
        ('wildwood/forest.py', "        if not isinstance(val, int):\n            raise ValueError('min_samples_leaf must be an integer number')\n        elif val < 1:\n            raise ValueError('min_samples_leaf must be >= 1')\n        else:\n            self._min_samples_leaf = val\n",
         "        self._min_samples_leaf = _check_int(val, 'min_samples_leaf', 1)\n"),
        ('wildwood/forest.py', '@@append',
         "\n\ndef _check_int(val, name, lower):\n    if not isinstance(val, int):\n        raise ValueError(name + ' must be an integer number')\n    if val < lower:\n        raise ValueError(name + ' must be >= %d' % lower)\n    return val\n"),
    ]),
    ('unserialize_setattr_loop', [
        ('wildwood/tree.py', "        features_bitarray.n_bits[:] = dict_features_bitarray['n_bits']\n        features_bitarray.offsets[:] = dict_features_bitarray['offsets']\n        features_bitarray.n_values_in_words[:] = dict_features_bitarray['n_values_in_words']\n        features_bitarray.bitarray[:] = dict_features_bitarray['bitarray']\n        features_bitarray.bitmasks[:] = dict_features_bitarray['bitmasks']\n",
         "        for attr in ('n_bits', 'offsets', 'n_values_in_words', 'bitarray', 'bitmasks'):\n            getattr(features_bitarray, attr)[:] = dict_features_bitarray[attr]\n"),
    ]),
    ('lock_acquire', [
        ('wildwood/forest.py', '    leaves = apply(X)\n    with lock:\n        out[idx_tree] = leaves\n',
         '    leaves = apply(X)\n    lock.acquire()\n    try:\n        out[idx_tree] = leaves\n    finally:\n        lock.release()\n'),
    ]),
    ('pop_record_dict', [
        ('wildwood/_grow.py', '    records.top -= 1\n    stack_top = records.stack[records.top]\n',
         '    top = records.top - 1\n    records.top = top\n    stack_top = records.stack[top]\n'),
    ]),
    ('push_record_len', [
        ('wildwood/_grow.py', '    if records.top >= records.capacity:\n        records.capacity *= 2\n        records.stack = resize(records.stack, records.capacity)\n    stack_top = records.stack[records.top]\n',
         '    top = records.top\n    if top >= records.capacity:\n        new_capacity = 2 * records.capacity\n        records.stack = resize(records.stack, new_capacity)\n        records.capacity = new_capacity\n    stack_top = records.stack[top]\n'),
    ]),
    ('weights_reversed', [
        ('wildwood/_grow.py', "    for node_idx in range(node_count - 1, -1, -1):\n        node = nodes[node_idx]\n        if node['is_leaf']:\n            node['log_weight_tree'] = -step * node['loss_valid']\n        else:\n            loss = -step * node['loss_valid']\n",
         "    for k in range(node_count):\n        node = nodes[node_count - 1 - k]\n        loss = -step * node['loss_valid']\n        if node['is_leaf']:\n            node['log_weight_tree'] = loss\n        else:\n"),
    ]),
    ('weights_while', [
        ('wildwood/_grow.py', '    for node_idx in range(node_count - 1, -1, -1):\n        node = nodes[node_idx]\n',
         '    node_idx = node_count\n    while node_idx > 0:\n        node_idx -= 1\n        node = nodes[node_idx]\n'),
    ]),
    ('recompute_direct', [
        ('wildwood/_grow.py', '    for node_idx, node in enumerate(nodes[:tree.node_count]):\n        w_samples_train = 0.0\n',
         '    for node_idx in range(tree.node_count):\n        node = nodes[node_idx]\n        w_samples_train = 0.0\n'),
    ]),
    ('grow_is_leaf', [
        ('wildwood/_grow.py', '        if aggregation:\n            is_leaf = node_context.n_samples_train < min_samples_split or node_context.n_samples_valid < min_samples_split\n        else:\n            is_leaf = node_context.n_samples_train < min_samples_split\n        min_impurity_split = 0.0\n        is_leaf = is_leaf or impurity <= min_impurity_split or depth >= tree_context.max_depth\n',
         '        is_leaf = depth >= tree_context.max_depth or impurity <= 0.0\n        if not is_leaf:\n            is_leaf = node_context.n_samples_train < min_samples_split\n        if aggregation and not is_leaf:\n            is_leaf = node_context.n_samples_valid < min_samples_split\n'),
    ]),
    ('grow_inline_push', [
        ('wildwood/_grow.py', '    parent = TREE_UNDEFINED\n    depth = 0\n    is_left = False\n    impurity = np.inf\n    start_train = 0\n    end_train = tree_context.n_samples_train\n    start_valid = 0\n    end_valid = tree_context.n_samples_valid\n    aggregation = tree_context.aggregation\n    push_record(records, parent, depth, is_left, impurity, start_train, end_train, start_valid, end_valid)\n',
         '    push_record(records, TREE_UNDEFINED, 0, False, np.inf, 0, tree_context.n_samples_train, 0, tree_context.n_samples_valid)\n    aggregation = tree_context.aggregation\n'),
    ]),
    ('grow_child_depth', [
        ('wildwood/_grow.py', '            push_record(records, node_id, depth + 1, True, best_split.impurity_left, start_train, pos_train, start_valid, pos_valid)\n            push_record(records, node_id, depth + 1, False, best_split.impurity_right, pos_train, end_train, pos_valid, end_valid)\n',
         '            child_depth = depth + 1\n            impurity_left, impurity_right = best_split.impurity_left, best_split.impurity_right\n            push_record(records, node_id, child_depth, True, impurity_left, start_train, pos_train, start_valid, pos_valid)\n            push_record(records, node_id, child_depth, False, impurity_right, pos_train, end_train, pos_valid, end_valid)\n'),
    ]),
    ('const_local', [
        ('wildwood/_grow.py', '        threshold = 0.42\n',
         '        threshold = 0.42  # not used\n        node_n_samples_train = node_context.n_samples_train\n'),
    ]),
    ('forest_base_method', [
        ('wildwood/forest.py', "        features_bitarray, n_jobs, lock = self._predict_helper(X)\n        all_preds = np.zeros(features_bitarray.n_samples)\n        with parallel_config(require='sharedmem'):\n            Parallel(n_jobs=n_jobs, verbose=self.verbose)((delayed(_accumulate_prediction)(tree.predict, features_bitarray, all_preds, lock) for tree in self.trees))\n        all_preds /= len(self.trees)\n        return all_preds\n",
         "        features_bitarray, n_jobs, lock = self._predict_helper(X)\n        all_preds = np.zeros(features_bitarray.n_samples)\n        trees = self.trees\n        tasks = (delayed(_accumulate_prediction)(tree.predict, features_bitarray, all_preds, lock) for tree in trees)\n        with parallel_config(require='sharedmem'):\n            Parallel(n_jobs=n_jobs, verbose=self.verbose)(tasks)\n        all_preds /= len(trees)\n        return all_preds\n"),
    ]),
    ('forest_run_parallel', [
        ('wildwood/forest.py', "        all_preds = np.zeros(features_bitarray.n_samples)\n        with parallel_config(require='sharedmem'):\n            Parallel(n_jobs=n_jobs, verbose=self.verbose)((delayed(_accumulate_prediction)(tree.predict, features_bitarray, all_preds, lock) for tree in self.trees))\n        all_preds /= len(self.trees)\n        return all_preds\n",
         "        all_preds = np.zeros(features_bitarray.n_samples)\n        self._run(n_jobs, (delayed(_accumulate_prediction)(tree.predict, features_bitarray, all_preds, lock) for tree in self.trees))\n        all_preds /= len(self.trees)\n        return all_preds\n\n    def _run(self, n_jobs, tasks):\n        with parallel_config(require='sharedmem'):\n            return Parallel(n_jobs=n_jobs, verbose=self.verbose)(tasks)\n"),
    ]),
    ('fit_make_tree', [
        ('wildwood/forest.py', '            trees = [TreeRegressor(criterion=criteria_mapping[self.criterion],',
         '            max_depths = None\n            trees = [TreeRegressor(criterion=criteria_mapping[self.criterion],'),
    ]),
    ('fit_common_params', [
        ('wildwood/forest.py', '            trees = [TreeRegressor(criterion=criteria_mapping[self.criterion], loss=self.loss, step=self.step, aggregation=self.aggregation, max_depth=max_depth_ if not randomized_depth else random_instance.randint(3, 51), min_samples_split=self.min_samples_split, min_samples_leaf=self.min_samples_leaf, categorical_features=self.categorical_features, is_categorical=is_categorical_, max_features=max_features_, random_state=random_state, verbose=self.verbose) for _, random_state in zip(range(self.n_estimators), self._random_states_trees)]\n',
         '            common = dict(criterion=criteria_mapping[self.criterion], loss=self.loss, step=self.step, aggregation=self.aggregation, min_samples_split=self.min_samples_split, min_samples_leaf=self.min_samples_leaf, categorical_features=self.categorical_features, is_categorical=is_categorical_, max_features=max_features_, verbose=self.verbose)\n            trees = []\n            for _, random_state in zip(range(self.n_estimators), self._random_states_trees):\n                depth = random_instance.randint(3, 51) if randomized_depth else max_depth_\n                trees.append(TreeRegressor(max_depth=depth, random_state=random_state, **common))\n'),
    ]),
    ('move_log_sum', [
        ('wildwood/_utils.py', '@jit(\n    float32(float32, float32),\n    nopython=NOPYTHON,\n    nogil=NOGIL,\n    boundscheck=BOUNDSCHECK,\n    fastmath=True,\n)\ndef log_sum_2_exp(a, b):\n    """Computation of log( (e^a + e^b) / 2) in an overflow-proof way\n\n    Parameters\n    ----------\n    a : float\n        First number\n\n    b : float32\n        Second number\n\n    Returns\n    -------\n    output : float\n        Value of log( (e^a + e^b) / 2) for the given a and b\n    """\n    # TODO: if |a - b| > 50 skip\n    if a > b:\n        return a + log((1 + exp(b - a)) / 2)\n    else:\n        return b + log((1 + exp(a - b)) / 2)\n',
         ''),
        ('wildwood/_math.py', '@@new',
         'from math import exp, log\nfrom numba import jit, float32\nfrom ._utils import NOPYTHON, NOGIL, BOUNDSCHECK\n\n\n@jit(\n    float32(float32, float32),\n    nopython=NOPYTHON,\n    nogil=NOGIL,\n    boundscheck=BOUNDSCHECK,\n    fastmath=True,\n)\ndef log_sum_2_exp(a, b):\n    """Computation of log( (e^a + e^b) / 2) in an overflow-proof way\n\n    Parameters\n    ----------\n    a : float\n        First number\n\n    b : float32\n        Second number\n\n    Returns\n    -------\n    output : float\n        Value of log( (e^a + e^b) / 2) for the given a and b\n    """\n    # TODO: if |a - b| > 50 skip\n    if a > b:\n        return a + log((1 + exp(b - a)) / 2)\n    else:\n        return b + log((1 + exp(a - b)) / 2)\n'),
        ('wildwood/_grow.py', '    log_sum_2_exp,\n',
         ''),
        ('wildwood/_grow.py', 'from ._split import find_node_split, split_indices\n',
         'from ._split import find_node_split, split_indices\nfrom ._math import log_sum_2_exp\n'),
    ]),
]
