M = 'vmoe/moe.py'
DISP_OLD = '''  num_groups, num_experts, capacity, *item_shape = data.shape
  data = with_sharding_constraint(data, partition_spec)
  if num_groups % num_experts == 0:
    data = data.reshape(num_experts, -1, num_experts, capacity, *item_shape)
    data = jnp.swapaxes(data, 0, 2)
  else:
    data = jnp.swapaxes(data, 0, 1)
  data = data.reshape(-1, *item_shape)
'''
COMMON = '''  expert_index = jnp.swapaxes(expert_index, 0, 1).ravel()
'''
FIRE = [
    ('dispatch-swap', 'C06', M, '    data = jnp.swapaxes(data, 0, 2)\n  else:\n    data = jnp.swapaxes(data, 0, 1)\n  data = data.reshape(-1, *item_shape)', '    data = jnp.swapaxes(data, 0, 3)\n  else:\n    data = jnp.swapaxes(data, 0, 1)\n  data = data.reshape(-1, *item_shape)'),
    ('receive-noswap', 'C06', M, '    data = data.reshape(num_experts, num_groups, capacity, *item_shape)\n    data = jnp.swapaxes(data, 0, 1)\n', '    data = data.reshape(num_groups, num_experts, capacity, *item_shape)\n'),
    ('receive-div', 'C06', M, '    data = jnp.swapaxes(data, 0, 2)\n    data = data.reshape(num_groups, num_experts, capacity, *item_shape)', '    data = jnp.swapaxes(data, 1, 2)\n    data = data.reshape(num_groups, num_experts, capacity, *item_shape)'),
    ('receive-one-path', 'C06', M, '''  if num_groups % num_experts == 0:
    data = data.reshape(num_experts, -1, num_experts, capacity, *item_shape)
    data = jnp.swapaxes(data, 0, 2)
    data = data.reshape(num_groups, num_experts, capacity, *item_shape)
  else:
    data = data.reshape(num_experts, num_groups, capacity, *item_shape)
    data = jnp.swapaxes(data, 0, 1)
  data = with''', '''  data = data.reshape(num_experts, num_groups, capacity, *item_shape)
  data = jnp.swapaxes(data, 0, 1)
  data = with'''),
    ('einsum-combine-str', 'C06', M, '"GSEC,GEC...->GS..."', '"GSEC,GEC...->GS..."[:0] + "GEC...,GSEC->SG..."'),
    ('mask-le', 'C06', M, 'self.indices[..., 1] < self.capacity)', 'self.indices[..., 1] <= self.capacity)'),
    ('mask-dropped', 'C06', M, '    data = data * mask.reshape(mask.shape + (1,) * (data.ndim - 3))\n', ''),
    ('repeat-tile', 'C06', M, 'data = jnp.repeat(data, num_selected_experts, axis=1)', 'data = jnp.tile(data, (1, num_selected_experts) + (1,) * len(item_shape))'),
    ('scatter-set', 'C06', M, 'zeros.at[key].add(updates)', 'zeros.at[key].set(updates)'),
    ('vmap-out', 'C06', M, '          out_axes=0,', '          out_axes=1,'),
    ('combine-ge', 'C07', M, '        self.combine_weights > 0\n', '        self.combine_weights >= 0\n') if False else
    ('combine-ge', 'C06', M, '        self.combine_weights > 0\n', '        self.combine_weights >= 0\n'),
    ('combine-weights-const', 'C07', M, '  combine_weights = jnp.einsum(\n      "SE,SEC->SEC", gates, dispatch_weights, precision=einsum_precision)', '  combine_weights = jnp.einsum(\n      "SE,SEC->SEC", gates / jnp.max(gates), dispatch_weights, precision=einsum_precision)'),
    ('noinv', 'C08', M, '    inv_perm = jnp.argsort(perm)\n', '    inv_perm = perm\n'),
    ('noinv-buffer', 'C08', M, '    buffer_index = buffer_index[inv_perm]\n', ''),
    ('priority-sign', 'C08', M, 'jnp.argsort(-combine_weights[:, 0])', 'jnp.argsort(combine_weights[:, 0])'),
    ('priority-sum', 'C08', M, 'jnp.argsort(-combine_weights[:, 0])', 'jnp.argsort(-jnp.sum(combine_weights, axis=1))'),
    ('k-order', 'C08', M, COMMON, '  expert_index = expert_index.ravel()\n', 'buffer_index = buffer_index.reshape(-1, group_size, num_experts)\n  buffer_index = jnp.swapaxes(buffer_index, 0, 1)\n', 'buffer_index = buffer_index.reshape(group_size, -1, num_experts)\n', 'expert_index = jnp.swapaxes(expert_index.reshape(-1, group_size), 0, 1)', 'expert_index = expert_index.reshape(group_size, -1)'),
    ('combine-permuted', 'C07,C08', M, '    expert_index = expert_index[perm]\n', '    expert_index = expert_index[perm]\n    combine_weights = combine_weights[perm]\n'),
    ('top-items-axis', 'C08', M, 'jax.lax.top_k(gates.transpose(), capacity)', 'jax.lax.top_k(-gates.transpose(), capacity)'),
    ('cap-floor', 'C09', M, 'capacity += (-capacity) % multiple_of', 'capacity -= capacity % multiple_of'),
    ('cap-tokens', 'C09', M, 'num_tokens=group_size * num_selected_experts,', 'num_tokens=group_size,'),
    ('cap-round', 'C09', M, 'capacity = int(round(num_tokens', 'capacity = int((num_tokens'),
    ('cap-zero', 'C09', M, 'if capacity < 1:', 'if capacity < 0:'),
    ('cap-both', 'C09', M, 'if (capacity is None) == (capacity_factor is None):', 'if capacity is None and capacity_factor is None:'),
]
QUIET = [
    ('dispatch-transpose', 'C06', M, DISP_OLD, '''  num_groups, num_experts, capacity = data.shape[:3]
  item_shape = data.shape[3:]
  data = with_sharding_constraint(data, partition_spec)
  if num_groups % num_experts:
    data = jnp.moveaxis(data, 1, 0)
  else:
    data = _split_groups(data, num_experts)
  data = data.reshape((-1,) + tuple(item_shape))
''', 'def _receive(', '''def _split_groups(data, num_experts):
  n = data.shape[0] // num_experts
  data = jnp.reshape(data, (num_experts, n) + data.shape[1:])
  return jnp.swapaxes(data, 2, 0)


def _receive('''),
    ('one-path-both', 'C06', M, '''  if num_groups % num_experts == 0:
    data = data.reshape(num_experts, -1, num_experts, capacity, *item_shape)
    data = jnp.swapaxes(data, 0, 2)
    data = data.reshape(num_groups, num_experts, capacity, *item_shape)
  else:
    data = data.reshape(num_experts, num_groups, capacity, *item_shape)
    data = jnp.swapaxes(data, 0, 1)
  data = with''', '''  data = data.reshape(num_experts, num_groups, capacity, *item_shape)
  data = jnp.swapaxes(data, 0, 1)
  data = with''', DISP_OLD, '''  num_groups, num_experts, capacity, *item_shape = data.shape
  data = with_sharding_constraint(data, partition_spec)
  data = jnp.swapaxes(data, 0, 1)
  data = data.reshape(-1, *item_shape)
'''),
    ('mask-where', 'C06', M, '    data = data * mask.reshape(mask.shape + (1,) * (data.ndim - 3))\n', '    mask = mask.reshape(mask.shape + (1,) * (data.ndim - 3))\n    data = jnp.where(mask, data, 0)\n'),
    ('mask-and', 'C06', M, '''    mask = jnp.logical_and(self.indices[..., 0] < self.num_experts,
                           self.indices[..., 1] < self.capacity)
''', '''    expert, slot = self.indices[..., 0], self.indices[..., 1]
    mask = (slot < self.capacity) & (self.num_experts > expert)
'''),
    ('einsum-letters', 'C06', M, '"GSEC,GEC...->GS...", self.combine_weights, data', '"nec...,nsec->ns...", data, self.combine_weights'),
    ('vmap-scatter-inline', 'C06', M, '    data = jax.vmap(lambda x, i: _scatter_nd(i, x, shape))(data, indices)\n', '''    def scatter_group(x, i):
      buf = jnp.zeros(shape, x.dtype)
      return buf.at[i[:, 0], i[:, 1]].add(x)
    data = jax.vmap(scatter_group)(data, indices)
'''),
    ('spmd-names', 'C06', M, '''      if has_aux:
        outputs, aux = outputs
      outputs = jax.tree_util.tree_map(dispatcher.combine, outputs)
      return (outputs, aux) if has_aux else outputs
''', '''      if not has_aux:
        return jax.tree_util.tree_map(dispatcher.combine, outputs)
      main, extra = outputs
      main = jax.tree_util.tree_map(dispatcher.combine, main)
      return main, extra
'''),
    ('spmd-lambda', 'C06', M, 'inputs = jax.tree_util.tree_map(dispatcher.dispatch, inputs)', 'inputs = jax.tree_util.tree_map(lambda x: dispatcher.dispatch(x), inputs)'),
    ('common-helper', 'C07,C08', M, '''  buffer_index = jnp.cumsum(expert_one_hot, axis=0) * expert_one_hot - 1
''', '''  counts = jnp.cumsum(expert_one_hot, axis=0)
  buffer_index = expert_one_hot * counts - 1
''', COMMON, '  expert_index = jnp.transpose(expert_index).reshape(-1)\n'),
    ('perm-sorted', 'C07,C08', M, '    perm = jnp.argsort(-combine_weights[:, 0])\n', '    perm = jnp.argsort(-jnp.max(gates, axis=-1))\n'),
    ('perm-topk', 'C07,C08', M, '    expert_index = expert_index[perm]\n', '    expert_index = jnp.take(expert_index, perm, axis=0)\n'),
    ('expert-index-kept', 'C07,C08', M, '''  expert_index = jnp.swapaxes(expert_index, 0, 1).ravel()
''', '''  flat = expert_index.T.ravel()
''', 'jax.nn.one_hot(expert_index, num_experts', 'jax.nn.one_hot(flat, num_experts', '''  expert_index = jnp.swapaxes(expert_index.reshape(-1, group_size), 0, 1)
''', ''),
    ('combine-mul', 'C07', M, '''  combine_weights = jnp.einsum(
      "SE,SEC->SEC", gates, dispatch_weights, precision=einsum_precision)
''', '''  combine_weights = gates[:, :, None] * dispatch_weights
'''),
    ('cap-early', 'C09', M, '''  if ceil_or_round == "ceil":
    capacity = int(math.ceil(num_tokens * capacity_factor / num_experts))
  elif ceil_or_round == "round":
    capacity = int(round(num_tokens * capacity_factor / num_experts))
  else:
    raise ValueError(f"Unsupported {ceil_or_round=}")
''', '''  if ceil_or_round not in ("ceil", "round"):
    raise ValueError(f"Unsupported {ceil_or_round=}")
  ratio = num_tokens * capacity_factor / num_experts
  if ceil_or_round == "round":
    capacity = int(round(ratio))
  else:
    capacity = int(math.ceil(ratio))
'''),
    ('cap-dict', 'C09', M, '''  if ceil_or_round == "ceil":
    capacity = int(math.ceil(num_tokens * capacity_factor / num_experts))
  elif ceil_or_round == "round":
    capacity = int(round(num_tokens * capacity_factor / num_experts))
  else:
    raise ValueError(f"Unsupported {ceil_or_round=}")
''', '''  fns = {"ceil": math.ceil, "round": round}
  if ceil_or_round not in fns:
    raise ValueError(f"Unsupported {ceil_or_round=}")
  capacity = int(fns[ceil_or_round](num_tokens * capacity_factor / num_experts))
'''),
    ('cap-mult', 'C09', M, '''  if multiple_of and multiple_of > 0:
    # Make capacity multiple of 4 to try to avoid padding.
    capacity += (-capacity) % multiple_of
''', '''  if multiple_of is not None and multiple_of > 0:
    capacity = ((capacity + multiple_of - 1) // multiple_of) * multiple_of
'''),
    ('cap-shared', 'C07,C08,C09', M, '''  if not capacity:
    group_size, num_experts = gates.shape
    capacity = compute_capacity(
        # Target number of tokens to split among the `num_experts` experts.
        num_tokens=group_size * num_selected_experts,
        num_experts=num_experts,
        capacity_factor=capacity_factor,
        ceil_or_round=capacity_ceil_or_round,
        multiple_of=capacity_multiple_of)
''', '''  capacity = capacity or compute_capacity(
      gates.shape[0] * num_selected_experts, gates.shape[1], capacity_factor,
      capacity_ceil_or_round, capacity_multiple_of)
'''),
    ('cap-if-none', 'C07,C08,C09', M, '  if not capacity:\n', '  if capacity is None:\n'),
    ('name-ifs', 'C07,C08,C09', M, '''  fn_map = {
      "einsum": _get_top_experts_per_item_einsum_dispatcher,
      "indices": _get_top_experts_per_item_expert_indices_dispatcher,
  }
  if name not in fn_map:
    raise ValueError(f"Unknown dispatcher type: {name!r}")
  return fn_map[name](gates, num_selected_experts, capacity, batch_priority,
                      **dispatcher_kwargs)
''', '''  if name == "einsum":
    make = _get_top_experts_per_item_einsum_dispatcher
  elif name == "indices":
    make = _get_top_experts_per_item_expert_indices_dispatcher
  else:
    raise ValueError(f"Unknown dispatcher type: {name!r}")
  return make(gates, num_selected_experts, capacity, batch_priority,
              **dispatcher_kwargs)
'''),
]
_M = 'vmoe/moe.py'
FIRE += [
    ('l-aux', 'C06', _M, 'if has_aux:', 'if True:'),
    ('l-noaux', 'C06', _M, 'return (outputs, aux) if has_aux else outputs', 'return outputs'),
    ('l-swap', 'C06', _M, 'return (outputs, aux) if has_aux else outputs', 'return (aux, outputs) if has_aux else outputs'),
    ('l-meta0', 'C06', _M, '    variable_axes[f"{name}_axes"] = None', '    variable_axes[f"{name}_axes"] = 0'),
    ('l-axaux', 'C06', _M, 'sparse_moe_spmd(target, variable_axes, split_rngs, has_aux, methods)', 'sparse_moe_spmd(target, variable_axes, split_rngs, methods=methods)'),
    ('l-methods', 'C06', _M, 'lift_transform(wrapper, target, methods=methods)', 'lift_transform(wrapper, target)'),
    ('l-named', 'C06', _M, 'if collection_name in partitioning_axis_names:', 'if collection_name not in partitioning_axis_names:'),
    ('l-pos', 'C06', _M, '          axis_pos=axis,', '          axis_pos=0,'),
    ('l-mult', 'C09', _M, 'capacity_multiple_of: Optional[int] = 4', 'capacity_multiple_of: Optional[int] = 8'),
    ('l-mult2', 'C09', _M, 'multiple_of: Optional[int] = 4) -> int', 'multiple_of: Optional[int] = 2) -> int'),
]
QUIET += [
    ('l-items', 'C06', _M, '  for collection_name, axis in variable_axes.items():\n    if collection_name in partitioning_axis_names:\n', '  for collection_name in variable_axes:\n    axis = variable_axes[collection_name]\n    if collection_name in partitioning_axis_names:\n'),
    ('l-early', 'C06', _M, 'return (outputs, aux) if has_aux else outputs', 'if not has_aux:\n        return outputs\n      return outputs, aux'),
]
