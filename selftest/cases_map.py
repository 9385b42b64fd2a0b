M = 'vmoe/initialization/mapping.py'
R = 'vmoe/initialization/rules.py'
I = 'vmoe/initialization/initialization.py'
LOOP = """    for rule in self.rules:
      if rule.pattern.search(key):
        return rule
    return None
"""
FIRE = [
    ('mp-last', 'C28', R, "    for rule in self.rules:\n", "    for rule in reversed(self.rules):\n"),
    ('mp-last2', 'C28', R, LOOP, "    found = None\n    for rule in self.rules:\n      if rule.pattern.search(key):\n        found = rule\n    return found\n"),
    ('mp-match', 'C28', R, "rule.pattern.search(key)", "rule.pattern.match(key)"),
    ('mp-full', 'C28', R, "rule.pattern.search(key)", "rule.pattern.fullmatch(key)"),
    ('mp-sub1', 'C28', R, "self.pattern.sub(self.replacement, key)", "self.pattern.sub(self.replacement, key, count=1)"),
    ('mp-drop', 'C28', R, "        if replacement:\n", "        if replacement is not None:\n"),
    ('mp-nodrop', 'C28', M, "      # The src_key should not be mapped to the new state dict.\n      continue\n", "      break\n"),
    ('mp-dup', 'C28', M, "    if target_flat_used[dst_key] and not isinstance(rule, _rules.StackRule):\n      raise ValueError", "    if target_flat_used[dst_key] and dst_key not in output:\n      raise ValueError"),
    ('mp-dup2', 'C28', M, "    target_flat_used[dst_key] = True\n    src_value", "    target_flat_used[src_key] = True\n    src_value"),
    ('mp-exist', 'C28', M, "    if dst_key not in target_flat:\n      raise KeyError(\n          f'Source key {src_key!r} was matched with target key {dst_key!r}, '\n          'but it does not exist.')\n", "    if dst_key not in target_flat:\n      continue\n"),
    ('mp-empty', 'C28', M, "isinstance(src_value, EmptyNode) != isinstance(target_value, EmptyNode)", "isinstance(target_value, EmptyNode) and not isinstance(src_value, EmptyNode)"),
    ('mp-srcflag', 'C28', M, "raise_exception=raise_if_source_unmatched", "raise_exception=raise_if_target_unmatched"),
    ('mp-tgtflag', 'C28', M, "raise_exception=raise_if_target_unmatched", "raise_exception=raise_if_source_unmatched"),
    ('mp-flagswap', 'C28', M, "                                       raise_if_source_unmatched,\n                                       raise_if_target_unmatched)", "                                       raise_if_target_unmatched,\n                                       raise_if_source_unmatched)"),
    ('mp-flagswap2', 'C28', M, "txs, target_flat, raise_if_dtype_mismatched, raise_if_shape_mismatched)", "txs, target_flat, raise_if_shape_mismatched, raise_if_dtype_mismatched)"),
    ('mp-sort', 'C28', M, "in _natural_sort(source_flat.keys()):", "in sorted(source_flat.keys()):"),
    ('mp-sort2', 'C28', M, "in _natural_sort(source_flat.keys()):", "in source_flat:"),
    ('mp-sort3', 'C28', M, "  return sorted(names, key=split_keys)", "  return sorted(names, key=split_keys, reverse=True)"),
    ('mp-num', 'C28', M, "      return float(s)\n", "      return s\n"),
    ('mp-keep', 'C28', M, "  source_flat = flax.traverse_util.flatten_dict(\n      serialization.to_state_dict(source), sep='/', keep_empty_nodes=True)", "  source_flat = flax.traverse_util.flatten_dict(\n      serialization.to_state_dict(source), sep='/')"),
    ('mp-kept', 'C28', M, "  target_flat = {k: v for k, v in target_flat.items() if k not in txs_flat}\n", "  target_flat = {}\n"),
    ('mp-nocast', 'C28', M, "        value = value.astype(expected_dtype)\n", ""),
    ('mp-nobc', 'C28', M, "        value = jnp.broadcast_to(value, expected_shape)\n", ""),
    ('mp-resh', 'C28', M, "jnp.broadcast_to(value, expected_shape)", "jnp.reshape(value, expected_shape)"),
    ('mp-shard', 'C28', M, "      out_shardings=out_axis_resources,\n", ""),
    ('mp-unused', 'C28', M, "    if not used and not isinstance(target_flat[dst_key], EmptyNode):", "    if not used and dst_key in output and not isinstance(target_flat[dst_key], EmptyNode):"),
    ('mp-append', 'C28', R, "self.replace(to_stack=self.to_stack + [x])", "self.replace(to_stack=[x] + self.to_stack)"),
    ('mp-stackax', 'C28', R, "    return jnp.stack(self.to_stack, axis=self.axis)", "    return jnp.concatenate(self.to_stack, axis=self.axis)"),
    ('mp-tile', 'C28', R, "    output = [1,] * ndim\n    for a, r in utils.safe_zip(axis, reps):\n      output[a] = r\n", "    output = [1,] * ndim\n    for a, r in utils.safe_zip(axis, reps):\n      output[a - 1] = r\n"),
    ('mp-tok', 'C28', R, "        output_tok_emb = source[:, :1, :]", "        output_tok_emb = source[:, -1:, :]"),
    ('mp-tok2', 'C28', R, "jnp.concatenate([output_tok_emb, output_grid_emb], axis=1)", "jnp.concatenate([output_grid_emb, output_tok_emb], axis=1)"),
    ('mp-grid', 'C28', R, "num_tokens not in (sqrt_tokens**2, sqrt_tokens**2 + 1)", "num_tokens > (sqrt_tokens + 1)**2"),
    ('mp-grid2', 'C28', R, "    if sqrt_tokens**2 == num_tokens:\n      return False, grid_shape\n", "    if sqrt_tokens % 2 == 0:\n      return False, grid_shape\n"),
    ('mp-fac', 'C28', R, "zoom = tuple(map(lambda n, o: n / o, target.shape, source.shape))", "zoom = tuple(map(lambda n, o: o / n, target.shape, source.shape))"),
    ('mp-fac2', 'C28', R, "zoom = tuple(map(lambda n, o: n / o, target.shape, source.shape))", "zoom = tuple(map(lambda n, o: n // o, target.shape, source.shape))"),
    ('mp-order', 'C28', R, "scipy.ndimage.zoom(xx, zoom, order=1)", "scipy.ndimage.zoom(xx, zoom)"),
    ('mp-resh2', 'C28', R, "shape=self.shape or target.shape)", "shape=target.shape)"),
    ('mp-sd', 'C28', R, "        target_shape_dtype=self.get_shape_dtype(target), array=source,\n        axis=self.axis, reps=self.reps)", "        target_shape_dtype=self.get_shape_dtype(source), array=source,\n        axis=self.axis, reps=self.reps)"),
    ('mp-shard2', 'C28', R, "sharding=get_array_sharding_or_default(array)", "sharding=None"),
    ('mp-kw', 'C28', I, "      thread_pool=thread_pool)\n  return mapping.map_state_dict(ckpt, target, rules, **map_state_dict_kwargs)", "      thread_pool=thread_pool)\n  return mapping.map_state_dict(ckpt, target, rules)"),
    ('mp-kw2', 'C28', I, "      thread_pool=thread_pool)\n  return mapping.map_state_dict(ckpt, target, rules, **map_state_dict_kwargs)", "      thread_pool=thread_pool)\n  return mapping.map_state_dict(ckpt, target, rules, raise_if_target_unmatched=False)"),
    ('mp-parse', 'C28', R, "axis=transform[1],\n            reps=transform[2])", "axis=transform[2],\n            reps=transform[1])"),
    ('mp-parse2', 'C28', R, "        parsed_rules.append(rule)\n        continue\n", "        parsed_rules.insert(0, rule)\n        continue\n"),
    ('mp-hidden', 'C28', R, "    if source.shape[2] != target.shape[2]:\n      raise ValueError(f'{source.shape[2]=} != {target.shape[2]}')\n", ""),
    ('mp-copy', 'C28', M, "    elif isinstance(rule, _rules.RegexRule):\n      output[dst_key] = rule.get_transformation(src_value, target_value)\n", "    elif isinstance(rule, _rules.RegexRule):\n      output[src_key] = rule.get_transformation(src_value, target_value)\n"),
]
QUIET = [
    ('mp-q-next', 'C28', R, LOOP, "    return next((r for r in self.rules if r.pattern.search(key)), None)\n"),
    ('mp-q-find', 'C28', R, LOOP, "    for rule in self.rules:\n      found = rule.pattern.search(key)\n      if found is None:\n        continue\n      return rule\n"),
    ('mp-q-resub', 'C28', R, "self.pattern.sub(self.replacement, key)", "re.sub(self.pattern, self.replacement, key)"),
    ('mp-q-drop', 'C28', R, "        if replacement:\n          rule = RegexRule(pattern=pattern, replacement=replacement)\n        else:\n          rule = DropRule(pattern=pattern)\n", "        if not replacement:\n          rule = DropRule(pattern=pattern)\n        else:\n          rule = RegexRule(pattern, replacement)\n"),
    ('mp-q-used', 'C28', M, "  target_flat_used = {k: False for k in target_flat}\n", "  target_flat_used = dict.fromkeys(target_flat, False)\n"),
    ('mp-q-usedset', 'C28', M, "  target_flat_used = {k: False for k in target_flat}\n", "  target_flat_used = set()\n", "    if target_flat_used[dst_key] and not isinstance(rule", "    if dst_key in target_flat_used and not isinstance(rule", "    target_flat_used[dst_key] = True\n", "    target_flat_used.add(dst_key)\n", "  for dst_key, used in target_flat_used.items():\n    if not used and not", "  for dst_key in target_flat:\n    if dst_key not in target_flat_used and not"),
    ('mp-q-empty', 'C28', M, "    if isinstance(src_value, EmptyNode) != isinstance(target_value, EmptyNode):\n", "    source_empty = isinstance(src_value, EmptyNode)\n    target_empty = isinstance(target_value, EmptyNode)\n    if source_empty is not target_empty:\n"),
    ('mp-q-order', 'C28', M, "    src_value = source_flat[src_key]\n    target_value = target_flat[dst_key]\n", "    src_value, target_value = source_flat[src_key], target_flat[dst_key]\n"),
    ('mp-q-stack', 'C28', M, "    if isinstance(rule, _rules.StackRule):\n      if dst_key in output:\n        output[dst_key] = output[dst_key].append(src_value)\n      else:\n        output[dst_key] = rule.get_transformation(src_value, target_value)\n    elif isinstance(rule, _rules.RegexRule):\n", "    if isinstance(rule, _rules.StackRule) and dst_key in output:\n      output[dst_key] = output[dst_key].append(src_value)\n    elif isinstance(rule, _rules.RegexRule):\n"),
    ('mp-q-apply', 'C28', M, "    for key, tx in txs_flat.items():\n      value = tx()\n", "    new_values = {}\n    for key in txs_flat:\n      tx = txs_flat[key]\n      value = tx()\n", "      txs_flat[key] = value\n    return txs_flat\n", "      new_values[key] = value\n    return new_values\n"),
    ('mp-q-merge', 'C28', M, "  target_flat.update(output)\n\n  return target_flat\n", "  return {**target_flat, **output}\n"),
    ('mp-q-merge2', 'C28', M, "  target_flat = {k: v for k, v in target_flat.items() if k not in txs_flat}\n", "  preserved = {}\n  for k, v in target_flat.items():\n    if k not in txs_flat:\n      preserved[k] = v\n", "  target_flat.update(output)\n\n  return target_flat\n", "  preserved.update(output)\n  return preserved\n"),
    ('mp-q-reps', 'C28', R, "    output = [1,] * ndim\n    for a, r in utils.safe_zip(axis, reps):\n      output[a] = r\n    return output\n", "    result = [1 for _ in range(ndim)]\n    for a, r in utils.safe_zip(axis, reps):\n      result[a] = r\n    return result\n"),
    ('mp-q-zoom', 'C28', R, "    zoom = tuple(map(lambda n, o: n / o, target.shape, source.shape))\n", "    zoom = tuple(n / o for n, o in zip(target.shape, source.shape))\n"),
    ('mp-q-grid', 'C28', R, "    if sqrt_tokens**2 == num_tokens:\n      return False, grid_shape\n    else:\n      return True, grid_shape\n", "    has_tok = num_tokens != sqrt_tokens**2\n    return has_tok, grid_shape\n"),
    ('mp-q-isqrt', 'C28', R, "int(math.sqrt(num_tokens))", "math.isqrt(num_tokens)"),
    ('mp-q-tok', 'C28', R, "    if source_has_tok:\n      source_grid_emb = source[:, 1:, :].reshape(source_grid_shape)\n    else:\n      source_grid_emb = source[:, :, :].reshape(source_grid_shape)\n", "    source_grid_emb = source[:, 1:] if source_has_tok else source\n    source_grid_emb = source_grid_emb.reshape(source_grid_shape)\n"),
    ('mp-q-sort', 'C28', M, "    return [maybe_num(c) for c in _SIGNED_FLOAT_RE.split(s)]\n", "    parts = _SIGNED_FLOAT_RE.split(s)\n    return list(map(maybe_num, parts))\n"),
    ('mp-q-raise', 'C28', M, "  if raise_exception:\n    raise cls(exception_msg)\n  else:\n    logging.warning(warn_msg or exception_msg)\n", "  if not raise_exception:\n    logging.warning(warn_msg or exception_msg)\n    return\n  raise cls(exception_msg)\n"),
    ('mp-q-append', 'C28', R, "self.replace(to_stack=self.to_stack + [x])", "self.replace(to_stack=[*self.to_stack, x])"),
    ('mp-q-identity', 'C28', M, "    rule = rules.find(src_key)\n", "    rule = rules.find(src_key)\n    no_rule = rule is None\n", "    if rule is None:\n      # No", "    if no_rule:\n      # No"),
    ('mp-q-flat', 'C28', M, "  source_flat = flax.traverse_util.flatten_dict(\n      serialization.to_state_dict(source), sep='/', keep_empty_nodes=True)\n  target_flat = flax.traverse_util.flatten_dict(\n      serialization.to_state_dict(target), sep='/', keep_empty_nodes=True)\n", "  def flatten(tree):\n    state = serialization.to_state_dict(tree)\n    return flax.traverse_util.flatten_dict(state, keep_empty_nodes=True, sep='/')\n\n  source_flat, target_flat = flatten(source), flatten(target)\n"),
]
