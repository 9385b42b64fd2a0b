R = 'vmoe/nn/routing.py'
E = 'vmoe/nn/ensemble_routing.py'
L = 'vmoe/evaluate/ensemble.py'
S = 'vmoe/projects/soft_moe/router.py'
V = 'vmoe/nn/vit_moe.py'
VE = 'vmoe/nn/vit_moe_ensemble.py'
K = 'vmoe/projects/sparsity_constrained_ot/kl_projection_routing.py'
VE_ = 'vmoe/nn/vit_moe_ensemble.py'
FIRE = [
    ('eb-from', 'C12', VE_, "reshape_from(outputs, num_tokens_per_image, ensemble_size)", "reshape_from(outputs, num_tokens_per_image, 1)"),
    ('eb-to', 'C12', VE_, "reshape_to(inputs, self.group_size, ensemble_size)", "reshape_to(inputs, self.group_size, 1)"),
    ('eb-size', 'C12', VE_, "router_kwargs['ensemble_size'] = _parse(self.ensemble_size)", "router_kwargs['ensemble_size'] = 1"),
    ('eb-experts', 'C12', VE_, "num_experts=self.num_experts", "num_experts=self.num_experts // self.ensemble_size"),
    ('eb-det', 'C12', VE_, "router_kwargs.get('deterministic',\n                                                       self.deterministic)", "self.deterministic"),
    ('eb-zero', 'C12', VE_, "ensemble_size <= 0", "ensemble_size < 0"),
    ('noise-always', 'C10', R, '    if self.deterministic or self.noise_std == 0.0:\n      gates_softmax = jax.nn.softmax(gates_logits)\n      return gates_softmax', '    if self.deterministic and self.noise_std == 0.0:\n      gates_softmax = jax.nn.softmax(gates_logits)\n      return gates_softmax'),
    ('noise-scale', 'C10', R, '      noise_std = (1.0 / num_experts) * self.noise_std\n      logits_noise = noise_std * jax.random.normal(\n          key=self.make_rng("gating"), shape=gates_logits.shape)\n      gates_logits_noisy = gates_logits + logits_noise\n      gates_softmax_noisy = jax.nn.softmax(gates_logits_noisy)\n      return gates_softmax_noisy', '      noise_std = self.noise_std\n      logits_noise = noise_std * jax.random.normal(\n          key=self.make_rng("gating"), shape=gates_logits.shape)\n      gates_logits_noisy = gates_logits + logits_noise\n      gates_softmax_noisy = jax.nn.softmax(gates_logits_noisy)\n      return gates_softmax_noisy'),
    ('noise-after-softmax', 'C10', R, '      gates_logits_noisy = gates_logits + logits_noise\n      gates_softmax_noisy = jax.nn.softmax(gates_logits_noisy)\n      return gates_softmax_noisy', '      gates_softmax_noisy = jax.nn.softmax(gates_logits) + logits_noise\n      return gates_softmax_noisy'),
    ('return-clean', 'C10', R, 'return gates_softmax_noisy, metrics', 'return gates_softmax, metrics'),
    ('softmax-axis', 'C10', R, '    gates_softmax = jax.nn.softmax(gates_logits)\n    importance', '    gates_softmax = jax.nn.softmax(gates_logits, axis=1)\n    importance'),
    ('noise-shared', 'C10', R, 'key=self.make_rng("gating"), shape=gates_logits.shape)\n      gates_logits_noisy = gates_logits + logits_noise\n      gates_softmax_noisy = jax.nn.softmax(gates_logits_noisy)\n      load', 'key=self.make_rng("gating"), shape=gates_logits.shape[1:])\n      gates_logits_noisy = gates_logits + logits_noise\n      gates_softmax_noisy = jax.nn.softmax(gates_logits_noisy)\n      load'),
    ('dropout-stream', 'C10', R, 'key=self.make_rng("gating"), shape=gates_logits.shape)\n      gates_logits_noisy = gates_logits + logits_noise\n      gates_softmax_noisy = jax.nn.softmax(gates_logits_noisy)\n      load', 'key=self.make_rng("dropout"), shape=gates_logits.shape)\n      gates_logits_noisy = gates_logits + logits_noise\n      gates_softmax_noisy = jax.nn.softmax(gates_logits_noisy)\n      load'),
    ('k-not-passed', 'C10', R, '            num_selected_experts=self.num_selected_experts,\n            **dispatcher_kwargs))', '            num_selected_experts=1,\n            **dispatcher_kwargs))'),
    ('options-dropped', 'C10', R, '            vmoe.moe.get_top_items_per_expert_dispatcher, **dispatcher_kwargs))', '            vmoe.moe.get_top_items_per_expert_dispatcher, name="einsum", capacity_factor=1.0))'),
    ('bf16-inverted', 'C10', R, '    if use_bfloat16:\n      dispatcher = vmoe.moe.Bfloat16Dispatcher(dispatcher)\n    return dispatcher, metrics', '    if not use_bfloat16:\n      dispatcher = vmoe.moe.Bfloat16Dispatcher(dispatcher)\n    return dispatcher, metrics'),
    ('soft-noise-det', 'C10', S, 'if not self.deterministic and self.noise_std > 0:', 'if self.noise_std > 0:'),
    ('kl-noise', 'C10', K, '    if self.deterministic or self.noise_std == 0.0:\n      gates_ot', '    if self.deterministic:\n      gates_ot'),
    ('block-det', 'C10', V, 'y = self.mlp_block(dtype=self.dtype, deterministic=self.deterministic)(y)', 'y = self.mlp_block(dtype=self.dtype)(y)'),
    ('router-det-lost', 'C10', V, "    router_kwargs['deterministic'] = router_kwargs.get('deterministic',\n                                                       self.deterministic)\n", ''),
    ('router-override-lost', 'C10', VE, "router_kwargs.get('deterministic',\n                                                       self.deterministic)", 'self.deterministic'),
    ('gshard-clean', 'C11', R, 'gshard_loss = jax.vmap(self._gshard_auxiliary_loss)(gates_softmax_noisy)', 'gshard_loss = jax.vmap(self._gshard_auxiliary_loss)(gates_softmax)'),
    ('imp-axis', 'C11', R, 'axis = tuple(range(gates.ndim - 1))', 'axis = tuple(range(1, gates.ndim))'),
    ('gshard-scale', 'C11', R, 'auxiliary_loss *= num_experts**2', 'auxiliary_loss *= num_experts'),
    ('load-clean', 'C11', R, 'noise_std=noise_std))(gates_logits, gates_logits_noisy)', 'noise_std=noise_std))(gates_logits_noisy, gates_logits)'),
    ('load-std', 'C11', R, '              noise_std=noise_std))', '              noise_std=self.noise_std))'),
    ('load-k', 'C11', R, '              num_selected_experts=self.num_selected_experts,\n              noise_std=noise_std', '              num_selected_experts=1,\n              noise_std=noise_std'),
    ('load-weight', 'C11', R, '(self.load_loss_weight, load_loss)', '(self.importance_loss_weight, load_loss)'),
    ('no-std-sq', 'C11', R, 'return (jnp.std(p_mean) / jnp.mean(p_mean))**2', 'return jnp.std(p_mean) / jnp.mean(p_mean)'),
    ('imp-vmap', 'C11', R, 'importance_loss = jax.vmap(self._importance_auxiliary_loss)(gates_softmax)', 'importance_loss = self._importance_auxiliary_loss(gates_softmax)'),
    ('weights-all', 'C11', R, 'return sum(x * w for w, x in args if w > 0)', 'return sum(x * w for w, x in args if w >= 1)'),
    ('aux-missing', 'C11', R, '    metrics["auxiliary_loss"] = 0.\n', ''),
    ('enc-last', 'C11', V, "sum(\n        m['auxiliary_loss'] for m in metrics.values())", "sum(\n        m['auxiliary_loss'] for m in metrics.values()) / max(1, len(metrics))"),
    ('enc-key', 'C11', V, "x, metrics[f'encoderblock_{block}'] =", "x, metrics['encoderblock'] ="),
    ('to-noswap', 'C12', E, '  x = x.reshape(batch_size, ensemble_size, num_tokens_per_image, hidden_size)\n  x = x.transpose(0, 2, 1, 3)\n  x = x.reshape(-1, group_size', '  x = x.reshape(ensemble_size, batch_size, num_tokens_per_image, hidden_size)\n  x = x.transpose(1, 2, 0, 3)\n  x = x.reshape(-1, group_size'),
    ('from-noswap', 'C12', E, '  x = x.reshape(-1, num_tokens_per_image, ensemble_size, hidden_size)\n  x = x.transpose(0, 2, 1, 3)', '  x = x.reshape(-1, ensemble_size, num_tokens_per_image, hidden_size)'),
    ('gates-noswap', 'C12', E, '    gates_softmax = gates_softmax.transpose(0, 2, 1, 3)\n', ''),
    ('share-noise', 'C12', E, "split_rngs={'params': True, 'gating': True}", "split_rngs={'params': True, 'gating': False}"),
    ('in-axes', 'C12', E, '      in_axes=2,\n', '      in_axes=1,\n', '    inputs = inputs.reshape(num_groups, group_size // self.ensemble_size,\n                            self.ensemble_size, hidden_size)', '    inputs = inputs.reshape(num_groups, self.ensemble_size, group_size // self.ensemble_size, hidden_size)'),
    ('loss-mean', 'C12', L, 'jax.nn.logsumexp(log_p, axis=1) - log_ens_size', 'jnp.mean(log_p, axis=1)'),
    ('loss-layout', 'C12', L, 'logits = jnp.reshape(logits, (-1, ensemble_size, num_classes))', 'logits = jnp.reshape(logits, (ensemble_size, -1, num_classes)).transpose(1, 0, 2)'),
    ('loss-tile', 'C12', L, '  repeated_labels = jnp.repeat(labels, ensemble_size, axis=0)\n  return', '  repeated_labels = jnp.tile(labels, (ensemble_size, 1))\n  return'),
    ('loss-notp', 'C12', L, 'log_not_p = _ensemble_log_mean(-logits,', 'log_not_p = -_ensemble_log_mean(logits,'),
    ('enc-tile', 'C12', VE, 'x = jnp.repeat(x, ensemble_size, axis=0)', 'x = jnp.tile(x, (ensemble_size, 1, 1))'),
    ('soft-axes', 'C13', S, 'combine_weights = jax.nn.softmax(logits, axis=(2, 3))', 'combine_weights = jax.nn.softmax(logits, axis=3)'),
    ('soft-swap', 'C13', S, '        combine_weights, dispatch_weights,\n        partition_spec', '        dispatch_weights, combine_weights,\n        partition_spec'),
    ('soft-scale2', 'C13', S, '    if inputs.size < mu.size:\n      inputs = inputs * scale\n    else:\n      mu = mu * scale', '    if inputs.size < mu.size:\n      inputs = inputs * scale\n    mu = mu * scale'),
    ('soft-mu-norm', 'C13', S, 'mu = normalize(mu.astype(dtype), axis=0)', 'mu = normalize(mu.astype(dtype), axis=-1)'),
    ('soft-input-norm', 'C13', S, "    inputs = normalize(inputs.astype(dtype), axis=-1)\n", "    inputs = normalize(inputs.astype(dtype), axis=1)\n"),
    ('soft-noise-split', 'C13', S, '    dispatch_weights = jax.nn.softmax(logits, axis=1)\n    # Each item takes a convex combination of all the outputs of each slot.\n    combine_weights = jax.nn.softmax(logits, axis=(2, 3))', '    dispatch_weights = jax.nn.softmax(logits, axis=1)\n    combine_weights = jax.nn.softmax(self.add_noise(logits), axis=(2, 3))'),
    ('soft-cap', 'C13', S, '          group_size, self.num_experts, self.capacity_factor,', '          dim, self.num_experts, self.capacity_factor,'),
    ('block-out', 'C13', V, 'outputs = outputs.reshape(*inputs_shape[:-1], outputs.shape[-1])', 'outputs = outputs.reshape(inputs_shape[1], inputs_shape[0], outputs.shape[-1]).swapaxes(0, 1)'),
]
QUIET = [
    ('q-eb', 'C12', VE_, "    inputs = reshape_to(inputs, self.group_size, ensemble_size)\n    outputs, metrics = super().__call__(inputs)\n", "    grouped = ensemble_routing.reshape_to_group_size_representation(\n        inputs, group_size=self.group_size, ensemble_size=ensemble_size)\n    outputs, metrics = super().__call__(grouped)\n"),
    ('noise-helper', 'C10,C11', R, '      noise_std = (1.0 / num_experts) * self.noise_std\n      logits_noise = noise_std * jax.random.normal(\n          key=self.make_rng("gating"), shape=gates_logits.shape)\n      gates_logits_noisy = gates_logits + logits_noise\n      gates_softmax_noisy = jax.nn.softmax(gates_logits_noisy)\n      return gates_softmax_noisy', '      return jax.nn.softmax(_add_noise(self, gates_logits, num_experts), axis=-1)', 'def _weighted_sum(*args):', 'def _add_noise(module, logits, num_experts):\n  scale = module.noise_std / num_experts\n  noise = jax.random.normal(module.make_rng("gating"), logits.shape)\n  return logits + scale * noise\n\n\ndef _weighted_sum(*args):'),
    ('cond-flip', 'C10,C11', R, '    if self.deterministic or self.noise_std == 0.0:\n      gates_softmax = jax.nn.softmax(gates_logits)\n      return gates_softmax\n    else:\n', '    if not (self.deterministic or self.noise_std == 0.0):\n', '      gates_softmax_noisy = jax.nn.softmax(gates_logits_noisy)\n      return gates_softmax_noisy\n', '      gates_logits = gates_logits_noisy\n    return jax.nn.softmax(gates_logits)\n'),
    ('imp-var', 'C11', R, '    std_importance_per_expert = jnp.std(importance_per_expert)\n    mean_importance_per_expert = jnp.mean(importance_per_expert)\n    # Compute coefficient of variation (i.e. std/mean) squared.\n    return (std_importance_per_expert / mean_importance_per_expert)**2', '    return jnp.var(importance_per_expert) / jnp.square(importance_per_expert.mean())'),
    ('imp-axis0', 'C11', R, 'axis = tuple(range(gates.ndim - 1))  # All except last.', 'axis = 0'),
    ('load-direct', 'C11', R, '''    threshold_per_item_index = jax.lax.top_k(
        logits_noisy, num_selected_experts)[-1][..., -1]
    threshold_per_item = jnp.sum(
        jax.nn.one_hot(threshold_per_item_index, num_experts) * logits_noisy,
        axis=-1)
''', '''    top_values, _ = jax.lax.top_k(logits_noisy, num_selected_experts)
    threshold_per_item = top_values[:, -1]
'''),
    ('wsum-loop', 'C11', R, '  return sum(x * w for w, x in args if w > 0)', '  total = 0\n  for w, x in args:\n    if w > 0:\n      total = total + w * x\n  return total'),
    ('vmap-lambda', 'C10', R, '''    get_top_items_per_expert_dispatcher_vmapped = jax.vmap(
        functools.partial(
            vmoe.moe.get_top_items_per_expert_dispatcher, **dispatcher_kwargs))
''', '''    get_top_items_per_expert_dispatcher_vmapped = jax.vmap(
        lambda g: vmoe.moe.get_top_items_per_expert_dispatcher(g, **dispatcher_kwargs))
'''),
    ('metrics-merge', 'C11', R, '    metrics["auxiliary_loss"] = 0.\n    return dispatcher, metrics', '    return dispatcher, {**metrics, "auxiliary_loss": 0.}'),
    ('to-einsum', 'C12', E, '  x = x.transpose(0, 2, 1, 3)\n  x = x.reshape(-1, group_size, hidden_size)', '  x = jnp.swapaxes(x, 1, 2)\n  x = x.reshape((-1, group_size, hidden_size))'),
    ('ens-einsum', 'C12', E, '''    gates_softmax = reshape_from_diag_blocks(gates_softmax)
    # (G, S, E) -> (G, M, S / M, E) -> (G, S / M, M, E) -> (G, S, E).
    gates_softmax = gates_softmax.reshape(
        num_groups, self.ensemble_size, group_size // self.ensemble_size,
        self.num_experts)
    gates_softmax = gates_softmax.transpose(0, 2, 1, 3)
''', '''    gates_softmax = jnp.einsum('gmse,mn->gsmne', gates_softmax, jnp.eye(self.ensemble_size))
'''),
    ('loss-jnp', 'C12', L, '  return optax.softmax_cross_entropy(repeated_logits, repeated_labels)  # pytype: disable=bad-return-type  # numpy-scalars', '  log_p = jax.nn.log_softmax(repeated_logits)\n  return -(repeated_labels * log_p).sum(-1)'),
    ('soft-scale-after', 'C13', S, '    if inputs.size < mu.size:\n      inputs = inputs * scale\n    else:\n      mu = mu * scale\n', '', "    logits = self.add_noise(logits)\n", "    logits = self.add_noise(scale * logits)\n"),
    ('soft-helper', 'C10,C13', S, "    logits = jnp.einsum('gmd,dnp->gmnp', inputs, mu, precision=self.precision)\n", "    logits = self._logits(inputs, mu)\n", '  @nn.nowrap\n  def add_noise', "  @nn.nowrap\n  def _logits(self, x, mu):\n    return jnp.einsum('...md,dnp->...mnp', x, mu, precision=self.precision)\n\n  @nn.nowrap\n  def add_noise"),
    ('soft-early', 'C10,C13', S, '''    if not self.deterministic and self.noise_std > 0:
      normal = jax.random.normal(self.make_rng('gating'),
                                 logits.shape, logits.dtype)
      logits = logits + self.noise_std * normal
    return logits
''', '''    if self.deterministic or self.noise_std <= 0:
      return logits
    normal = jax.random.normal(self.make_rng('gating'), logits.shape, logits.dtype)
    return logits + self.noise_std * normal
'''),
    ('block-tuple', 'C13', V, '    inputs_shape = inputs.shape\n    inputs = inputs.reshape(-1, self.group_size, inputs.shape[-1])', '    inputs_shape = inputs.shape\n    num_seqs, seq_length, hidden = inputs_shape\n    inputs = jnp.reshape(inputs, (num_seqs * seq_length // self.group_size, self.group_size, hidden))'),
    ('enc-gen', 'C11', V, "sum(\n        m['auxiliary_loss'] for m in metrics.values())", "sum(\n        [metrics[k]['auxiliary_loss'] for k in metrics])"),
    ('setdefault', 'C10', V, "    router_kwargs['deterministic'] = router_kwargs.get('deterministic',\n                                                       self.deterministic)\n", "    router_kwargs.setdefault('deterministic', self.deterministic)\n"),
]
