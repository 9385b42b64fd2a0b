F = 'vmoe/train/tree_summarizer.py'
T1, T2 = 'vmoe/train/trainer.py', 'vmoe/projects/contrastive/trainer.py'
FIRE = [
    ('su-usesep', 'C35', T1, "flax.serialization.to_state_dict(state), sep='/')", "flax.serialization.to_state_dict(state), sep='.')"),
    ('su-usesep2', 'C35', T2, "flax.traverse_util.flatten_dict(grads, sep='/')", "flax.traverse_util.flatten_dict(grads, sep='_')"),
    ('su-usealways', 'C35', T1, "  if summarizer:\n", "  if True:\n"),
    ('su-usealways2', 'C35', T2, "  if summarizer:\n", "  if summarizer is None:\n"),
    ('su-std', 'C35', F, "jnp.std(x, axis, keepdims=True)", "jnp.var(x, axis, keepdims=True)"),
    ('su-stdddof', 'C35', F, "jnp.std(x, axis, keepdims=True)", "jnp.std(x, axis, keepdims=True, ddof=1)"),
    ('su-norm', 'C35', F, "jnp.sqrt(jnp.square(x).sum(axis, keepdims=True))", "jnp.sqrt(jnp.square(x).mean(axis, keepdims=True))"),
    ('su-norm1', 'C35', F, "jnp.sqrt(jnp.square(x).sum(axis, keepdims=True))", "jnp.abs(x).sum(axis, keepdims=True)"),
    ('su-keep', 'C35', F, "jnp.mean(x, axis, keepdims=True)", "jnp.mean(x, axis)"),
    ('su-axis', 'C35', F, "jnp.max(x, axis, keepdims=True)", "jnp.max(x, keepdims=True)"),
    ('su-swap', 'C35', F, "'min': lambda x, axis: jnp.min", "'min': lambda x, axis: jnp.max"),
    ('su-seq', 'C35', F, "output = _TRANSFORMATION[op](output, axes)", "output = _TRANSFORMATION[op](value, axes)"),
    ('su-suffix', 'C35', F, "      suffix += f'_{op}'\n", "      suffix = f'_{op}'\n"),
    ('su-suffixax', 'C35', F, "        suffix += f'{axes}'\n", "        suffix += f'{len(axes)}'\n"),
    ('su-match', 'C35', F, "pattern.search(key)", "pattern.match(key)"),
    ('su-full', 'C35', F, "pattern.search(key)", "pattern.fullmatch(key)"),
    ('su-limit', 'C35', F, "summary.size > self.max_summary_values", "summary.size >= self.max_summary_values + 2"),
    ('su-limit2', 'C35', F, "summary.size > self.max_summary_values", "summary.shape[0] > self.max_summary_values"),
    ('su-limit3', 'C35', F, "summary.size > self.max_summary_values", "value.size < self.max_summary_values"),
    ('su-break', 'C35', F, "        yield from self._yield(key + suffix, summary)\n", "        yield from self._yield(key + suffix, summary)\n        break\n"),
    ('su-name', 'C35', F, "self._yield(key + suffix, summary)", "self._yield(key, summary)"),
    ('su-idx', 'C35', F, "if s > 1])", "if s >= 1])"),
    ('su-idx2', 'C35', F, "if s > 1])", "if s > 2])"),
    ('su-idx3', 'C35', F, "str(i) for i, s in", "str(i + 1) for i, s in"),
    ('su-sep', 'C35', F, "flax.serialization.to_state_dict(tree), sep='/')", "flax.serialization.to_state_dict(tree), sep='.')"),
    ('su-range', 'C35', F, "tuple(range(s) for s in value.shape)", "tuple(range(min(s, 2)) for s in value.shape)"),
    ('su-rev', 'C35', F, "yield prefix + suffix, value[idx]", "yield prefix + suffix, value[idx[::-1]]"),
    ('su-drop', 'C35', F, "rules.append((re.compile(pattern),) + tuple(transforms))", "rules.append((re.compile(pattern),) + tuple(transforms[:1]))"),
    ('su-unknown', 'C35', F, "      if op not in _TRANSFORMATION:\n        raise ValueError(\n            f\"Operation {op=} was extracted from {transform=}, but this \"\n            \"isn't supported.\")\n", "      if op not in _TRANSFORMATION:\n        continue\n"),
    ('su-int', 'C35', F, "axes = (axes,) if isinstance(axes, int) else tuple(axes)", "axes = (axes,) if isinstance(axes, int) else None"),
    ('su-cfg', 'C35', T1, "return TreeSummarizer(**config)", "return TreeSummarizer(rules=config['rules'])"),
    ('su-grads', 'C35', T1, "    state_flat['params_grads'] = flax.traverse_util.flatten_dict(grads, sep='/')\n", ""),
    ('su-unused', 'C35', T2, "    metrics.update(summarizer(state_flat))\n", "    _ = summarizer(state_flat)\n"),
    ('su-first', 'C35', F, "    for key, value in tree.items():\n      yield from", "    for key, value in tree.items():\n      if not value.ndim:\n        continue\n      yield from"),
]
QUIET = [
    ('suq-norm', 'C35', F, "jnp.sqrt(jnp.square(x).sum(axis, keepdims=True))", "jnp.sqrt(jnp.sum(x ** 2, axis=axis, keepdims=True))"),
    ('suq-linalg', 'C35', F, "jnp.sqrt(jnp.square(x).sum(axis, keepdims=True))", "jnp.sqrt((x * x).sum(axis=axis, keepdims=True))"),
    ('suq-partial', 'C35', F, "    'mean': lambda x, axis: jnp.mean(x, axis, keepdims=True),\n", "    'mean': lambda x, axis: x.mean(axis=axis, keepdims=True),\n"),
    ('suq-none', 'C35', F, "if pattern.search(key):", "if pattern.search(key) is not None:"),
    ('suq-fn', 'C35', F, "      pattern = re.compile(pattern) if isinstance(pattern, str) else pattern\n      if pattern.search(key):", "      pattern = re.compile(pattern) if isinstance(pattern, str) else pattern\n      if re.search(pattern, key):"),
    ('suq-cont', 'C35', F, "      if pattern.search(key):\n        num_times_rules_matched[i] += 1\n        suffix, summary = self._transform(value, transforms)\n", "      if not pattern.search(key):\n        continue\n      if True:\n        num_times_rules_matched[i] += 1\n        suffix, summary = self._transform(value, transforms)\n"),
    ('suq-limit', 'C35', F, "summary.size > self.max_summary_values", "not (summary.size <= self.max_summary_values)"),
    ('suq-idx', 'C35', F, "      idx_s = ','.join([str(i) for i, s in zip(idx, value.shape) if s > 1])\n      suffix = '[' + idx_s + ']' if idx_s else ''\n", "      parts = [f'{i}' for i, s in zip(idx, value.shape) if s != 1]\n      suffix = f'[{\",\".join(parts)}]' if parts else ''\n"),
    ('suq-ndindex', 'C35', F, "    for idx in itertools.product(*tuple(range(s) for s in value.shape)):\n", "    for idx in np.ndindex(*value.shape):\n", "import jax.numpy as jnp\n", "import jax.numpy as jnp\nimport numpy as np\n"),
    ('suq-loop', 'C35', F, "        yield from self._yield(key + suffix, summary)\n", "        for item in self._yield(key + suffix, summary):\n          yield item\n"),
    ('suq-fmt', 'C35', F, "self._yield(key + suffix, summary)", "self._yield(f'{key}{suffix}', summary)"),
    ('suq-axes', 'C35', F, "      op = transform if isinstance(transform, str) else transform[0]\n      if isinstance(transform, str):\n        axes = None\n      else:\n        axes = transform[1]\n        axes = (axes,) if isinstance(axes, int) else tuple(axes)\n", "      if isinstance(transform, str):\n        op, axes = transform, None\n      else:\n        op, axes = transform[0], transform[1]\n        if isinstance(axes, int):\n          axes = (axes,)\n        axes = tuple(axes)\n"),
    ('suq-cfg', 'C35', T1, "  if isinstance(config, (list, tuple)):\n    return TreeSummarizer(rules=config)\n  else:\n    return TreeSummarizer(**config)\n", "  kwargs = dict(rules=config) if isinstance(config, (list, tuple)) else config\n  return TreeSummarizer(**kwargs)\n"),
    ('suq-post', 'C35', F, "    rules = []\n    for rule in self.rules:\n      if isinstance(rule, (str, re.Pattern)):\n        rules.append((re.compile(rule),))\n      else:\n        pattern, *transforms = rule\n        rules.append((re.compile(pattern),) + tuple(transforms))\n", "    rules = [(rule,) if isinstance(rule, (str, re.Pattern)) else tuple(rule) for rule in self.rules]\n    rules = [(re.compile(rule[0]), *rule[1:]) for rule in rules]\n"),
]
