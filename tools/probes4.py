"""changes that break a property, each with a rewrite around it (new helpers, loops, caches, batches): fourth series"""
W="wildwood/"; F=W+"forest.py"; G=W+"_grow.py"; EN=W+"preprocessing/encoder.py"; BI=W+"preprocessing/_binning.py"; TR=W+"tree.py"
T=W+"_tree.py"; CK=W+"preprocessing/_checks.py"; FB=W+"preprocessing/features_bitarray.py"; N=W+"_node.py"; SP=W+"_split.py"; IM=W+"_impurity.py"
RF=[
# batches over samples, last batch dropped / rounded
("batch_drop", [(F,"    prediction = predict(features_bitarray)\n    with lock:\n        if label_class_col is None:\n            out += prediction\n","    prediction = predict(features_bitarray)\n    with lock:\n        if label_class_col is None:\n            n_batches = max(1, out.shape[0] // 10000)\n            size = out.shape[0] // n_batches\n            for b in range(n_batches):\n                out[b * size:(b + 1) * size] += prediction[b * size:(b + 1) * size]\n")]),
("boot_counts_loop", [(F,"    sample_counts = np.bincount(sample_indices, minlength=n_samples)\n","    sample_counts = np.zeros(n_samples, dtype=np.int64)\n    for i in sample_indices:\n        sample_counts[i] = 1\n")]),
("boot_counts_u8", [(F,"    sample_counts = np.bincount(sample_indices, minlength=n_samples)\n","    sample_counts = np.zeros(n_samples, dtype=np.uint8)\n    for i in sample_indices:\n        sample_counts[i] += 1\n")]),
("boot_choice_norep", [(F,"    sample_indices = random_instance.randint(0, n_samples, n_samples)","    sample_indices = random_instance.choice(n_samples, size=n_samples, replace=n_samples > 2)")]),
("boot_while_same", [(F,"    if valid_mask.sum() == 0:\n        return _generate_train_valid_samples((random_state + 1) % np.iinfo(np.uint32).max, n_samples)\n","    while valid_mask.sum() == 0:\n        sample_indices = np.random.randint(0, n_samples, n_samples)\n        sample_counts = np.bincount(sample_indices, minlength=n_samples)\n        valid_mask = sample_counts == 0\n    if False:\n        pass\n")]),
("boot_cache_n", [(F,"    random_instance = check_random_state(random_state)\n    sample_indices = random_instance.randint(0, n_samples, n_samples)","    key = int(random_state)\n    if key not in _DRAWN:\n        _DRAWN[key] = check_random_state(random_state).randint(0, n_samples, n_samples)\n    sample_indices = _DRAWN[key]"),(F,"@@append","\n\n_DRAWN = {}\n")]),
("pbt_weights_shared", [(F,"    sample_weight = sample_weight.copy()\n    train_indices","    if sample_weight.min() <= 0:\n        sample_weight = sample_weight.copy()\n    train_indices")]),
("pbt_loop", [(F,"    sample_weight[train_indices] *= train_indices_count\n","    for i in range(len(train_indices) - 1):\n        sample_weight[train_indices[i]] *= train_indices_count[i]\n")]),
("pbt_loop2", [(F,"    sample_weight[train_indices] *= train_indices_count\n","    for i, c in zip(train_indices, train_indices_count):\n        if c > 1:\n            sample_weight[i] += c\n")]),
("depth_lock", [(F,"    tree_weighted_depth = weighted_depth(X)\n    with lock:\n        out[tree_idx] = tree_weighted_depth","    tree_weighted_depth = weighted_depth(X)\n    for k in range(len(tree_weighted_depth)):\n        out[tree_idx, k] = tree_weighted_depth[0]")]),
("states_loop", [(F,"                _random_states = np.tile(_random_states, reps=self._n_classes_)","                _random_states = [s for s in _random_states for _ in range(self._n_classes_)]")]),
("states_sorted", [(F,"        self._random_states_bootstrap = _random_states\n","        self._random_states_bootstrap = np.sort(_random_states)\n")]),
("states_pair", [(F,"        self._random_states_trees = _random_states","        self._random_states_trees = random_instance.randint(np.iinfo(np.uint32).max, size=len(_random_states))")]),
("fit_sub_helper", [(F,"        check_consistent_length(X, y)\n        sample_weight_ = _check_sample_weight(sample_weight, X, dtype=np.float32)","        check_consistent_length(X, y)\n        if sample_weight is None:\n            sample_weight_ = np.ones(X.shape[0], dtype=np.float32)\n        else:\n            sample_weight_ = np.asarray(sample_weight, dtype=np.float32)")]),
("fit_cw_helper", [(F,"                sample_weight_ = [np.ascontiguousarray(sample_weight_ * compute_sample_weight(class_weight, yy), dtype=np.float32) for yy in y]","                base_w = sample_weight_\n                sample_weight_ = []\n                for yy in y:\n                    base_w = np.ascontiguousarray(base_w * compute_sample_weight(class_weight, yy), dtype=np.float32)\n                    sample_weight_.append(base_w)")]),
("fit_ovr_mod", [(F,"y if not ovr else y[tree_idx // n_estimators], sample_weight_ if not ovr else sample_weight_[tree_idx // n_estimators]","y if not ovr else y[tree_idx % len(y)], sample_weight_ if not ovr else sample_weight_[tree_idx // n_estimators]")]),
("fit_trees_shared", [(F,"        self.trees = trees\n        self._fitted = True","        self.trees = sorted(trees, key=lambda t: t.node_count if hasattr(t, 'node_count') else 0)\n        self._fitted = True")]),
("apply_chunks", [(F,"    leaves = apply(X)\n    with lock:\n        out[idx_tree] = leaves","    leaves = apply(X)\n    with lock:\n        for i in range(1, leaves.shape[0]):\n            out[idx_tree, i] = leaves[i]\n        out[idx_tree, 0] = leaves[1] if leaves.shape[0] > 1 else leaves[0]")]),
("state_filter", [(F,"        return {k: serialize(v) for k, v in self.__dict__.items()}","        return {k: serialize(v) for k, v in self.__dict__.items() if not k.startswith('_random')}")]),
("state_del", [(F,"        return {k: serialize(v) for k, v in self.__dict__.items()}","        state = {k: serialize(v) for k, v in self.__dict__.items()}\n        for k in list(state):\n            if k.endswith('_bootstrap'):\n                del state[k]\n        return state")]),
("setstate_skip", [(F,"        self.__dict__ = {k: unserialize(k, v) for k, v in state.items()}","        for k, v in state.items():\n            if v is not None:\n                self.__dict__[k] = unserialize(k, v)")]),
("step_cache", [(F,"            self._step = val\n            if self._fitted:\n                for tree in self.trees:\n                    tree.step = val","            changed = getattr(self, '_step', None) is None or round(self._step, 3) != round(val, 3)\n            self._step = val\n            if self._fitted and changed:\n                for tree in self.trees:\n                    tree.step = val")]),
("step_first", [(F,"                for tree in self.trees:\n                    tree.step = val","                for tree in self.trees[:self.n_estimators]:\n                    tree.step = val")]),
("step_zip", [(F,"                for tree in self.trees:\n                    tree.step = val","                for tree, _ in zip(self.trees, range(self.n_estimators)):\n                    tree.step = val")]),
("step_while", [(F,"                for tree in self.trees:\n                    tree.step = val","                i = 0\n                while i < self.n_estimators:\n                    self.trees[i].step = val\n                    i += 1")]),
("lighten_first", [(F,"            for tree in self.trees:\n                tree.lighten()","            for i in range(self.n_estimators):\n                self.trees[i].lighten()")]),
# grow
("gr_weights_rec", [(G,"@@find_weights","")]),
]
RF=[r for r in RF if r[0]!="gr_weights_rec"]
RF += [
("state_del1", [(F,"        return {k: serialize(v) for k, v in self.__dict__.items()}","        state = {k: serialize(v) for k, v in self.__dict__.items()}\n        del state['_random_states_bootstrap']\n        return state")]),
("state_del2", [(F,"        return {k: serialize(v) for k, v in self.__dict__.items()}","        state = self.__dict__.copy()\n        if '_encoder' in state and not self._fitted:\n            del state['_encoder']\n        return {k: serialize(v) for k, v in state.items()}")]),
("lighten_del", [(F,"            for tree in self.trees:\n                tree.lighten()","            for tree in self.trees:\n                tree.lighten()\n            del self._encoder")]),
]
