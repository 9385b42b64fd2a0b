T = 'vmoe/train/trainer.py'
CT = 'vmoe/projects/contrastive/trainer.py'
O = 'vmoe/train/optimizer.py'
S = 'vmoe/train/schedule.py'
TS = 'vmoe/train/train_state.py'
FIRE = [
    ('acc-noassert', 'C18', T, '    assert batch_size_per_device % microsteps == 0\n', ''),
    ('acc-noreshape', 'C18', T, '    images = images.reshape((-1, microsteps) + images.shape[1:])\n    labels', '    labels'),
    ('acc-axis2', 'C18', T, 'imgs = jax.lax.dynamic_index_in_dim(images, i, axis=1, keepdims=False)', 'imgs = jax.lax.dynamic_index_in_dim(images, i, axis=2, keepdims=False)'),
    ('acc-shape2', 'C18', T, '(-1, microsteps) + images.shape[1:]', '(-1, microsteps) + images.shape[2:]'),
    ('acc-keepdims', 'C18', T, 'lbls = jax.lax.dynamic_index_in_dim(labels, i, axis=1, keepdims=False)', 'lbls = jax.lax.dynamic_index_in_dim(labels, i, axis=1)'),
    ('acc-refused', 'C18', T, 'assert batch_size_per_device % microsteps == 0', 'assert batch_size_per_device // microsteps == 0'),
    ('acc-off', 'C18', T, 'if not microsteps or microsteps < 0:', 'if not microsteps or microsteps > 0:'),
    ('opt-sep-params', 'C17', O, '''        flax.serialization.to_state_dict(updates), sep='/')
    flatparams''', '''        flax.serialization.to_state_dict(updates), sep='.')
    flatparams'''),
    ('opt-sep-unflatten', 'C17', O, '''                       flatupdates.keys(), flatupdates.values()))
    updates = flax.serialization.from_state_dict(
        updates, flax.traverse_util.unflatten_dict(flatupdates, sep='/'))''', '''                       flatupdates.keys(), flatupdates.values()))
    updates = flax.serialization.from_state_dict(
        updates, flax.traverse_util.unflatten_dict(flatupdates))'''),
    ('opt-lr-number', 'C17', O, '  if isinstance(learning_rate, (float, int)):\n', '  if learning_rate is not None:\n'),
    ('opt-ada-nofn', 'C17', O, '      epsilon=eps,\n      decay_rate_fn=_decay_rate_pow)', '      epsilon=eps)'),
    ('opt-ada-max', 'C17', O, 'decay_rate_max: float = 0.999,', 'decay_rate_max: float = 0.99,'),
    ('opt-freeze-first', 'C17', O, "  ops.append(freeze_weights(\n      frozen_pattern=frozen_pattern, trainable_pattern=trainable_pattern))\n", "", "  ops = []\n", "  ops = [freeze_weights(frozen_pattern=frozen_pattern, trainable_pattern=trainable_pattern)]\n"),
    ('opt-freeze-dropped', 'C17', O, "  ops.append(freeze_weights(\n      frozen_pattern=frozen_pattern, trainable_pattern=trainable_pattern))\n", ""),
    ('opt-decay-before', 'C17', O, "  ops.append(add_decayed_weights(weight_decay))\n", "", "  ops.append(gradient_clipping(**(gradient_clip or {})))\n", "  ops.append(gradient_clipping(**(gradient_clip or {})))\n  ops.append(add_decayed_weights(weight_decay))\n"),
    ('opt-clip-after', 'C17', O, "  ops.append(gradient_clipping(**(gradient_clip or {})))\n", "", "  # Optionally, add weight decay", "  ops.append(gradient_clipping(**(gradient_clip or {})))\n  # Optionally, add weight decay"),
    ('opt-sign', 'C17', O, "optax.scale(-learning_rate)", "optax.scale(learning_rate)"),
    ('opt-patterns-swapped', 'C17', O, "frozen_pattern=frozen_pattern, trainable_pattern=trainable_pattern))", "frozen_pattern=trainable_pattern, trainable_pattern=frozen_pattern))"),
    ('opt-frozen-inverted', 'C17', O, "    search_true, search_false = False, True", "    search_true, search_false = True, False"),
    ('opt-frozen-match', 'C17', O, "search_true if pattern.search(key)", "search_true if pattern.match(key)"),
    ('opt-frozen-join', 'C17', O, "'|'.join(f'(?:{x})' for x in pattern)", "'|'.join(f'(?:{x}$)' for x in pattern)"),
    ('opt-decay-last-match', 'C17', O, "      for regex, value in weight_decay:\n        if regex.search(key):\n          return value\n      return 0.", "      out = 0.\n      for regex, value in weight_decay:\n        if regex.search(key):\n          out = value\n      return out"),
    ('opt-decay-default', 'C17', O, "          return value\n      return 0.", "          return value\n      return weight_decay[-1][1]"),
    ('opt-decay-match', 'C17', O, "        if regex.search(key):\n          return value\n      return 0.", "        if regex.match(key):\n          return value\n      return 0."),
    ('opt-decay-sign', 'C17', O, "g + weight_decay_fn(k) * p", "g - weight_decay_fn(k) * p"),
    ('opt-decay-grad', 'C17', O, "g + weight_decay_fn(k) * p", "g * (1 + weight_decay_fn(k))"),
    ('opt-decay-list-only', 'C17', O, "  elif isinstance(weight_decay, (list, tuple)):", "  elif isinstance(weight_decay, list):"),
    ('opt-scale-last-match', 'C17', O, "    for regex, value in scales:\n      if regex.search(key):\n        return value\n    return 1.", "    out = 1.\n    for regex, value in scales:\n      if regex.search(key):\n        out = value\n    return out"),
    ('opt-scale-inv', 'C17', O, "g * scale_fn(k)", "g / scale_fn(k)"),
    ('opt-scale-default', 'C17', O, "        return value\n    return 1.", "        return value\n    return 0."),
    ('opt-clip-swap', 'C17', O, "    return optax.clip_by_global_norm(global_norm)", "    return optax.clip(global_norm)"),
    ('opt-clip-both', 'C17', O, "  if global_norm and absolute_value:\n    raise ValueError(\n        'You must specify either `global_norm` or `absolute_value`, '\n        f'but not both: global_norm = {global_norm!r}, '\n        f'absolute_value = {absolute_value!r}')\n", ""),
    ('opt-total-steps', 'C17', O, "      **learning_rate, total_steps=total_steps)", "      **learning_rate, total_steps=total_steps + 1)"),
    ('opt-adafactor-eps', 'C17', O, "      epsilon=eps,\n", ""),
    ('opt-adafactor-offset', 'C17', O, "      step_offset=decay_offset,\n", ""),
    ('opt-adafactor-decay', 'C17', O, "t = jnp.array(step, jnp.float32) + 1.0", "t = jnp.array(step, jnp.float32) + 2.0"),
    ('opt-adafactor-max', 'C17', O, "jnp.minimum(decay_rate_max, ", "jnp.maximum(decay_rate_max, "),
    ('opt-adafactor-order', 'C17', O, "optax.chain(scale_by_rms, mom)", "optax.chain(mom, scale_by_rms)"),
    ('opt-adafactor-debias', 'C17', O, "debias=False", "debias=True"),
    ('opt-adam-kwargs', 'C17', O, "optax.scale_by_adam(**optim_kwargs)", "optax.scale_by_adam()"),
    ('opt-momentum', 'C17', O, "optax.trace(decay=momentum, **kwargs) if momentum", "optax.trace(decay=1 - momentum, **kwargs) if momentum"),
    ('obj-no-aux', 'C18', T, "    total_loss = metrics['main_loss'] + metrics.get('auxiliary_loss', 0.0)", "    total_loss = metrics['main_loss']"),
    ('obj-sum', 'C18', T, "    metrics['main_loss'] = jnp.mean(loss_fn(logits, labels))", "    metrics['main_loss'] = jnp.sum(loss_fn(logits, labels))"),
    ('obj-minus', 'C18', CT, "metrics['main_loss'] + metrics.get('auxiliary_loss', 0.0)", "metrics['main_loss'] - metrics.get('auxiliary_loss', 0.0)"),
    ('obj-stop', 'C18', T, "+ metrics.get('auxiliary_loss', 0.0)", "+ jax.lax.stop_gradient(metrics.get('auxiliary_loss', 0.0))"),
    ('obj-outer-images', 'C18', T, "state.apply_fn({'params': params}, images, rngs=rngs)", "state.apply_fn({'params': state.params}, images, rngs=rngs)"),
    ('obj-swapped', 'C18', T, "loss_fn(logits, labels))", "loss_fn(labels, logits))"),
    ('obj-no-micro', 'C18', T, "      compute_grads_and_metrics, microsteps)", "      compute_grads_and_metrics, None)"),
    ('obj-old-state', 'C18', T, "  state, global_norms = state.apply", "  new_state, global_norms = state.apply"),
    ('acc-no-average', 'C18', T, "    grads, metrics = jax.tree_util.tree_map(lambda x: x / microsteps,\n                                            (grads, metrics))\n", "    metrics = jax.tree_util.tree_map(lambda x: x / microsteps, metrics)\n"),
    ('acc-average-off', 'C18', T, "lambda x: x / microsteps,", "lambda x: x / (microsteps - 1),"),
    ('acc-range', 'C18', T, "        1, microsteps, accum_fn,", "        1, microsteps - 1, accum_fn,"),
    ('acc-range0', 'C18', T, "        1, microsteps, accum_fn,", "        0, microsteps, accum_fn,"),
    ('acc-labels-0', 'C18', T, "lbls = jax.lax.dynamic_index_in_dim(labels, i, axis=1, keepdims=False)", "lbls = jax.lax.dynamic_index_in_dim(labels, 0, axis=1, keepdims=False)"),
    ('acc-labels-layout', 'C18', T, "    labels = labels.reshape((-1, microsteps) + labels.shape[1:])", "    labels = labels.reshape((microsteps, -1) + labels.shape[1:])", "lbls = jax.lax.dynamic_index_in_dim(labels, i, axis=1, keepdims=False)", "lbls = jax.lax.dynamic_index_in_dim(labels, i, axis=0, keepdims=False)", "lbls = jax.lax.dynamic_index_in_dim(labels, 0, axis=1, keepdims=False)", "lbls = jax.lax.dynamic_index_in_dim(labels, 0, axis=0, keepdims=False)"),
    ('acc-axis', 'C18', T, "imgs = jax.lax.dynamic_index_in_dim(images, i, axis=1, keepdims=False)", "imgs = jax.lax.dynamic_index_in_dim(images, i, axis=0, keepdims=False)"),
    ('acc-last-metrics', 'C18', T, "      new_grad, new_metrics = jax.tree_util.tree_map(\n          lambda x, y: x + y, (grad, metrics), (new_grad, new_metrics))\n", "      new_grad = jax.tree_util.tree_map(lambda x, y: x + y, grad, new_grad)\n"),
    ('acc-double', 'C18', T, "lambda x, y: x + y, (grad, metrics), (new_grad, new_metrics))", "lambda x, y: y + y, (grad, metrics), (new_grad, new_metrics))"),
    ('upd-step', 'C18', TS, "step=self.step + 1,", "step=self.step + 2,"),
    ('upd-opt', 'C18', TS, "        opt_state=new_opt_state,\n", ""),
    ('upd-params', 'C18', TS, "        grads, self.opt_state, self.params)", "        grads, self.opt_state)"),
    ('upd-kwargs', 'C18', TS, "        **kwargs,\n", ""),
    ('upd-norm', 'C18', TS, "'updates': optax.global_norm(updates)", "'updates': optax.global_norm(grads)"),
    ('upd-grads', 'C18', TS, "optax.apply_updates(self.params, updates)", "optax.apply_updates(self.params, grads)"),
    ('lr-boundary', 'C32', S, "  ], [warmup_steps])", "  ], [warmup_steps + 1])"),
    ('lr-transition', 'C32', S, "transition_steps=decay_steps - warmup_steps)", "transition_steps=decay_steps)"),
    ('lr-decay-default', 'C32', S, "kwargs.pop('decay_steps', total_steps)", "kwargs.pop('decay_steps', total_steps - 1)"),
    ('lr-decay-ignored', 'C32', S, "  kwargs['decay_steps'] = kwargs.pop('decay_steps', total_steps)", "  kwargs['decay_steps'] = total_steps"),
    ('lr-power', 'C32', S, "warmup_polynomial_decay_schedule(power=1.0,", "warmup_polynomial_decay_schedule(power=2.0,"),
    ('lr-rsqrt-cool-boundary', 'C32', S, "  boundaries.append(decay_steps - cooldown_steps)", "  boundaries.append(decay_steps - cooldown_steps - warmup_steps)"),
    ('lr-rsqrt-cool-peak', 'C32', S, "      1. + (decay_steps - warmup_steps - cooldown_steps) / timescale)", "      1. + (decay_steps - cooldown_steps) / timescale)"),
    ('lr-rsqrt-count', 'C32', S, "jax.lax.rsqrt(1. + count / timescale)", "jax.lax.rsqrt(1. + (count + warmup_steps) / timescale)"),
    ('lr-rsqrt-cool', 'C32', S, "(1 - count / cooldown_steps)", "(1 - count / (cooldown_steps + 1))"),
    ('lr-rsqrt-warm', 'C32', S, "            init_value=0.0, end_value=peak_value,\n            transition_steps=warmup_steps))", "            init_value=0.0, end_value=peak_value,\n            transition_steps=decay_steps))"),
    ('lr-rsqrt-check', 'C32', S, "  if decay_steps < warmup_steps + cooldown_steps:", "  if decay_steps < warmup_steps:"),
    ('lr-cosine-init', 'C32', S, "optax.warmup_cosine_decay_schedule(init_value=0.0, **kwargs)", "optax.warmup_cosine_decay_schedule(init_value=kwargs['peak_value'], **kwargs)"),
]
QUIET = [
    ('opt-chain-list', 'C17', O, "  ops.append(freeze_weights(\n      frozen_pattern=frozen_pattern, trainable_pattern=trainable_pattern))\n  # Chain all operations on the gradients.\n  return optax.chain(*ops)", "  freeze = freeze_weights(\n      frozen_pattern=frozen_pattern, trainable_pattern=trainable_pattern)\n  return optax.chain(*ops, freeze)"),
    ('opt-base-helper', 'C17', O, "  if name == 'adam':\n    ops.append(optax.scale_by_adam(**optim_kwargs))\n  elif name == 'big_vision_adafactor':\n    ops.append(scale_by_big_vision_adafactor(**optim_kwargs))\n  elif name == 'sgd':\n    # Optionally, add momentum with SGD.\n    ops.append(trace_momentum(**optim_kwargs))\n  else:\n    raise ValueError(f'Unknown optimizer: {name}')\n", "  ops.append(_base(name, optim_kwargs))\n", "def create_optimizer(", "def _base(name, optim_kwargs):\n  if name == 'adam':\n    return optax.scale_by_adam(**optim_kwargs)\n  if name == 'big_vision_adafactor':\n    return scale_by_big_vision_adafactor(**optim_kwargs)\n  if name == 'sgd':\n    return trace_momentum(**optim_kwargs)\n  raise ValueError(f'Unknown optimizer: {name}')\n\n\ndef create_optimizer("),
    ('opt-lr-lambda', 'C17', O, "  @optax.inject_hyperparams\n  def _scale_by_learning_rate(learning_rate):\n    return optax.scale(-learning_rate)\n  ops.append(_scale_by_learning_rate(lr_schedule))", "  scale_by_lr = optax.inject_hyperparams(lambda learning_rate: optax.scale(-1.0 * learning_rate))\n  ops.append(scale_by_lr(lr_schedule))"),
    ('opt-decay-comp', 'C17', O, "          return value\n      return 0.", "          return value\n      return 0.0"),
    ('opt-decay-next', 'C17', O, "      for regex, value in weight_decay:\n        if regex.search(key):\n          return value\n      return 0.", "      return next((v for r, v in weight_decay if r.search(key)), 0.)"),
    ('opt-scale-next', 'C17', O, "    for regex, value in scales:\n      if regex.search(key):\n        return value\n    return 1.", "    return next((v for r, v in scales if r.search(key)), 1.)"),
    ('opt-scale-comp', 'C17', O, "    flatupdates = dict(\n        utils.safe_map(lambda k, g: (k, g * scale_fn(k)),\n                       flatupdates.keys(), flatupdates.values()))", "    flatupdates = {k: scale_fn(k) * g for k, g in flatupdates.items()}"),
    ('opt-freeze-bool', 'C17', O, "        key: search_true if pattern.search(key) else search_false\n        for key, value in flatparams.items()", "        key: (pattern.search(key) is not None) == search_true\n        for key in flatparams"),
    ('opt-freeze-loop', 'C17', O, "    output = {\n        key: search_true if pattern.search(key) else search_false\n        for key, value in flatparams.items()\n    }", "    output = {}\n    for key in flatparams:\n      output[key] = search_true if pattern.search(key) else search_false"),
    ('opt-clip-elif', 'C17', O, "  if global_norm:\n    return optax.clip_by_global_norm(global_norm)\n  if absolute_value:\n    return optax.clip(absolute_value)\n  return optax.identity()", "  if global_norm:\n    op = optax.clip_by_global_norm(global_norm)\n  elif absolute_value:\n    op = optax.clip(absolute_value)\n  else:\n    op = optax.identity()\n  return op"),
    ('opt-momentum-if', 'C17', O, "  return optax.trace(decay=momentum, **kwargs) if momentum else optax.identity()", "  if not momentum:\n    return optax.identity()\n  return optax.trace(decay=momentum, **kwargs)"),
    ('obj-vars', 'C18', T, "    metrics['main_loss'] = jnp.mean(loss_fn(logits, labels))\n    metrics = jax.tree_util.tree_map(jnp.mean, metrics)\n    total_loss = metrics['main_loss'] + metrics.get('auxiliary_loss', 0.0)", "    main_loss = jnp.mean(loss_fn(logits, labels))\n    metrics['main_loss'] = main_loss\n    metrics = jax.tree_util.tree_map(jnp.mean, metrics)\n    total_loss = metrics.get('auxiliary_loss', 0.0) + metrics['main_loss']"),
    ('obj-nested', 'C18', T, "    metrics['main_loss'] = jnp.mean(loss_fn(logits, labels))\n    metrics = jax.tree_util.tree_map(jnp.mean, metrics)\n    total_loss = metrics['main_loss'] + metrics.get('auxiliary_loss', 0.0)", "    main_loss = jnp.mean(loss_fn(logits, labels))\n    metrics = jax.tree_util.tree_map(lambda x: jnp.mean(x), metrics)\n    total_loss = main_loss + metrics.get('auxiliary_loss', 0.0)\n    metrics['main_loss'] = main_loss"),
    ('obj-comp', 'C18', T, "    metrics = jax.tree_util.tree_map(jnp.mean, metrics)", "    metrics = {k: jnp.mean(v) for k, v in metrics.items()}"),
    ('acc-index', 'C18', T, "      imgs = jax.lax.dynamic_index_in_dim(images, i, axis=1, keepdims=False)\n      lbls = jax.lax.dynamic_index_in_dim(labels, i, axis=1, keepdims=False)\n", "      imgs = images[:, i]\n      lbls = labels[:, i]\n"),
    ('acc-helper', 'C18', T, "    def accum_fn(i, state):\n      grad, rngs, metrics = state\n      imgs = jax.lax.dynamic_index_in_dim(images, i, axis=1, keepdims=False)\n      lbls = jax.lax.dynamic_index_in_dim(labels, i, axis=1, keepdims=False)\n", "    def take(x, i):\n      return jax.lax.dynamic_index_in_dim(x, i, axis=1, keepdims=False)\n\n    def accum_fn(i, state):\n      grad, rngs, metrics = state\n      imgs, lbls = take(images, i), take(labels, i)\n"),
    ('acc-two-maps', 'C18', T, "      new_grad, new_metrics = jax.tree_util.tree_map(\n          lambda x, y: x + y, (grad, metrics), (new_grad, new_metrics))\n", "      add = lambda x, y: x + y\n      new_grad = jax.tree_util.tree_map(add, grad, new_grad)\n      new_metrics = jax.tree_util.tree_map(add, metrics, new_metrics)\n"),
    ('acc-jnp-add', 'C18', T, "          lambda x, y: x + y, (grad, metrics), (new_grad, new_metrics))", "          jnp.add, (new_grad, new_metrics), (grad, metrics))"),
    ('upd-inline', 'C18', TS, "    new_params = optax.apply_updates(self.params, updates)\n", "    params = self.params\n    new_params = optax.apply_updates(params, updates)\n"),
    ('upd-norm-order', 'C18', TS, "    global_norms = {\n        'grads': optax.global_norm(grads),\n        'updates': optax.global_norm(updates),\n        'params': optax.global_norm(state.params),\n    }", "    global_norms = {k: optax.global_norm(v) for k, v in (('grads', grads), ('updates', updates), ('params', new_params))}"),
    ('lr-list', 'C32', S, "  ], [warmup_steps])", "  ], boundaries=[warmup_steps])"),
    ('lr-get', 'C32', S, "  kwargs['decay_steps'] = kwargs.pop('decay_steps', total_steps)", "  if 'decay_steps' not in kwargs:\n    kwargs['decay_steps'] = total_steps"),
    ('lr-setdefault', 'C32', S, "  kwargs['decay_steps'] = kwargs.pop('decay_steps', total_steps)", "  kwargs.setdefault('decay_steps', total_steps)"),
    ('lr-rsqrt-lists', 'C32', S, "  # Main schedule.\n  schedules.append(_rsqrt)\n  boundaries.append(decay_steps - cooldown_steps)\n  # Cooldown phase.\n  if cooldown_steps > 0:\n    schedules.append(_cooldown)", "  schedules.append(_rsqrt)\n  if cooldown_steps > 0:\n    boundaries.append(decay_steps - cooldown_steps)\n    schedules.append(_cooldown)"),
    ('lr-rsqrt-form', 'C32', S, "    return peak_value * jax.lax.rsqrt(1. + count / timescale)", "    scale = 1. + count / timescale\n    return peak_value * jax.lax.rsqrt(scale)"),
    ('lr-cooldown-form', 'C32', S, "    return cooldown_peak_value * (1 - count / cooldown_steps)", "    frac = (cooldown_steps - count) / cooldown_steps\n    return frac * cooldown_peak_value"),
]

_ST = "      compute_grads_and_metrics, microsteps)"
for _n, _f, _l in (('', T, 'loss_fn(logits, labels)'), ('c', CT, 'loss_fn(logits)')):
  FIRE += [
      (f'rep{_n}-nomicro', 'C18', _f, "  compute_grads_and_metrics = accumulate_gradients_and_metrics(\n" + _ST + "\n", ""),
      (f'rep{_n}-rng', 'C18', _f, "rngs=rngs)\n    metrics = dict", "rngs=state.rngs)\n    metrics = dict"),
      (f'rep{_n}-norng', 'C18', _f, ", rngs=rngs)\n    metrics = dict", ")\n    metrics = dict"),
      (f'rep{_n}-auxdef', 'C18', _f, "metrics.get('auxiliary_loss', 0.0)", "metrics.get('auxiliary_loss', 1.0)"),
      (f'rep{_n}-auxname', 'C18', _f, "metrics.get('auxiliary_loss', 0.0)", "metrics.get('aux_loss', 0.0)"),
      (f'rep{_n}-auxmain', 'C18', _f, "metrics.get('auxiliary_loss', 0.0)", "metrics.get('main_loss', 0.0)"),
      (f'rep{_n}-total', 'C18', _f, "metrics['total_loss'] = total_loss", "metrics['total_loss'] = metrics['main_loss']"),
      (f'rep{_n}-main', 'C18', _f, "    metrics['total_loss'] = total_loss", "    metrics['main_loss'] = metrics['total_loss'] = total_loss"),
      (f'rep{_n}-mean', 'C18', _f, "jax.tree_util.tree_map(jnp.mean, metrics)", "jax.tree_util.tree_map(jnp.max, metrics)"),
      (f'rep{_n}-drop', 'C18', _f, "    metrics = dict(**metrics)\n", "    metrics = {k: v for k, v in metrics.items() if k == 'auxiliary_loss'}\n"),
      (f'rep{_n}-drop2', 'C18', _f, "    metrics = dict(**metrics)\n", "    metrics = {}\n"),
      (f'rep{_n}-max', 'C18', _f, f"jnp.mean({_l})", f"jnp.max({_l})"),
  ]
  QUIET += [
      (f'q-rep{_n}-copy', 'C18', _f, "    metrics = dict(**metrics)\n", "    metrics = {**metrics}\n"),
      (f'q-rep{_n}-mean', 'C18', _f, f"jnp.mean({_l})", f"{_l}.mean()"),
      (f'q-rep{_n}-in', 'C18', _f, "metrics['main_loss'] + metrics.get('auxiliary_loss', 0.0)", "metrics['main_loss'] + (metrics['auxiliary_loss'] if 'auxiliary_loss' in metrics else 0.0)"),
      (f'q-rep{_n}-order', 'C18', _f, "    metrics['total_loss'] = total_loss\n    return total_loss, (next_rngs, metrics)", "    metrics = dict(metrics, total_loss=total_loss)\n    return total_loss, (next_rngs, metrics)"),
  ]
