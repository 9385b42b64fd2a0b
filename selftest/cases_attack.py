A = 'vmoe/projects/adversarial_attacks/attacks.py'
R = 'vmoe/projects/adversarial_attacks/restore.py'
L = 'vmoe/projects/adversarial_attacks/lib.py'
T = 'vmoe/train/trainer.py'
FIRE = [
    ('al-st1', 'C30', 'vmoe/projects/adversarial_attacks/lib.py', "  if example_storage:\n    logging", "  if example_storage and jax.process_index() == 0:\n    logging"),
    ('al-st2', 'C30', 'vmoe/projects/adversarial_attacks/lib.py', "    example_storage.write()", "    pass"),
    ('al-st3', 'C30', 'vmoe/projects/adversarial_attacks/lib.py', "{jax.process_index():03d}-of-", "{jax.process_count():03d}-of-"),
    ('al-st4', 'C30', 'vmoe/projects/adversarial_attacks/lib.py', "      if example_storage:\n        ex", "      if example_storage and step % 2:\n        ex"),
    ('al-pre', 'C30', 'vmoe/projects/adversarial_attacks/lib.py', "config, config.restore.prefix, image_shape, mesh)", "config, config.restore.get('prefi', ''), image_shape, mesh)"),
    ('al-p1', 'C30', 'vmoe/projects/adversarial_attacks/lib.py', "if jax.process_index() == 0:\n    state", "if jax.process_index() == 1:\n    state"),
    ('ar-mesh1', 'C30', R, "num_expert_partitions = jax.device_count()", "num_expert_partitions = 1"),
    ('ar-mesh2', 'C30', R, "if num_expert_partitions > jax.device_count()", "if num_expert_partitions >= jax.device_count() - 1"),
    ('ar-lsum', 'C30', R, "optax.sigmoid_binary_cross_entropy(logits, labels, **kw), axis=-1)", "optax.sigmoid_binary_cross_entropy(logits, labels, **kw))"),
    ('ar-det', 'C30', R, "**kwargs.to_dict(), deterministic=True)", "**kwargs.to_dict(), deterministic=False)"),
    ('ar-noupd', 'C30', R, "  kwargs.update(model_config)\n", ""),
    ('ar-dtype', 'C30', R, "jax.ShapeDtypeStruct(x.shape, x.dtype, sharding=s)", "jax.ShapeDtypeStruct(x.shape, jnp.bfloat16, sharding=s)"),
    ('ar-whole', 'C30', R, "tree=variables_shape['params'])", "tree=variables_shape)"),
    ('ar-norules', 'C30', R, "axis_resources_regexes=config.params_axis_resources", "axis_resources_regexes=None"),
    ('ar-loss', 'C30', R, "_fn(**config.get('loss'))", "_fn(name='softmax_xent')"),
    ('ar-rngs', 'C30', R, "tuple(config.get('extra_rng_keys', ()))", "()"),
    ('ar-routers', 'C30', R, "router_keys = set(intermediates_shape.keys())", "router_keys = set(variables_shape.keys())"),
    ('al-variant', 'C30', L, "variant='adversarial', ", "variant='train', "),
    ('al-pop', 'C30', L, "  _ = config.pop('prefetch_device', None)\n", ""),
    ('al-read', 'C30', L, "fp.write(buffer.getvalue())", "fp.write(buffer.read())"),
    ('al-pos', 'C30', L, "np.savez_compressed(buffer, **data)", "np.savez_compressed(buffer, *data.values())"),
    ('al-mkd', 'C30', L, "  if not gfile.exists(outdir):", "  if gfile.exists(outdir):"),
    ('adv-aux', 'C30', T, "if attack_auxiliary_loss:", "if not attack_auxiliary_loss:"),
    ('adv-minus', 'C30', T, "loss = loss + jnp.mean(metrics", "loss = loss - jnp.mean(metrics"),
    ('adv-off', 'C30', T, "if num_updates <= 0 or max_epsilon", "if num_updates <= 1 or max_epsilon"),
    ('adv-and', 'C30', T, "if num_updates <= 0 or max_epsilon", "if num_updates <= 0 and max_epsilon"),
    ('adv-kw', 'C30', T, "return state.apply_fn({'params': state.params}, x, **kwargs)", "return state.apply_fn({'params': state.params}, x)"),
    ('adv-args', 'C30', T, "train_step_fn(state, images, labels, *args, **kwargs)\n", "train_step_fn(state, images, labels, **kwargs)\n"),
    ('adv-rngs', 'C30', T, "    state = state.replace(rngs=rngs)\n    return train_step_fn(state", "    return train_step_fn(state"),
    ('adv-drop', 'C30', T, "    images, rngs = adversarial_attacks.stateless", "    _, rngs = adversarial_attacks.stateless"),
    ('adv-eps', 'C30', T, "max_epsilon=max_epsilon,\n        num_updates=num_updates)", "max_epsilon=max_epsilon * num_updates,\n        num_updates=num_updates)"),
    ('at-delta', 'C30', A, "delta = max_epsilon / num_updates", "delta = max_epsilon / max(num_updates - 1, 1)"),
    ('at-delta-full', 'C30', A, "delta = max_epsilon / num_updates", "delta = max_epsilon"),
    ('at-rounds', 'C30', A, "fori_loop(0, num_updates, update", "fori_loop(0, num_updates + 1, update"),
    ('at-rounds2', 'C30', A, "fori_loop(0, num_updates, update", "fori_loop(1, num_updates, update"),
    ('at-nosign', 'C30', A, "delta * jnp.sign(dx)", "delta * dx"),
    ('at-orig', 'C30', A, "dx = compute_loss_grads(x_c, rngs_c)", "dx = compute_loss_grads(images, rngs_c)"),
    ('at-descent', 'C30', A, "x_n = x_c + delta", "x_n = x_c - delta"),
    ('at-neg', 'C30', A, "loss = jnp.mean(loss_fn(logits, labels, metrics))", "loss = -jnp.mean(loss_fn(logits, labels, metrics))"),
    ('at-nomask', 'C30', A, "  l_m, y_m, c_m, cw_m = jax.tree_util.tree_map(mask, (l_m, y_m, c_m, cw_m))\n", ""),
    ('at-num', 'C30', A, "num_images = batch_size if valid is None else jnp.sum(valid)", "num_images = batch_size"),
    ('at-swap', 'C30', A, "jnp.stack([c_0.sum(), c_m.sum()], axis=0)", "jnp.stack([c_m.sum(), c_0.sum()], axis=0)"),
    ('at-loss-mean', 'C30', A, "jnp.stack([l_0.sum(), l_m.sum()], axis=0)", "jnp.stack([l_0.mean(), l_m.mean()], axis=0)"),
    ('at-changes', 'C30', A, "jnp.sum(y_m != y_0, dtype=jnp.int32)", "jnp.sum(y_m != jnp.argmax(y, axis=-1), dtype=jnp.int32)"),
    ('at-changes2', 'C30', A, "jnp.sum(y_m != y_0, dtype=jnp.int32)", "jnp.sum(c_m != c_0, dtype=jnp.int32)"),
    ('at-ret', 'C30', A, "return new_attack_state, x_m, l_0,", "return new_attack_state, x_0, l_0,"),
    ('at-ret2', 'C30', A, "x_m, l_0, l_m, y_0, y_m, cw_0, cw_m\n", "x_m, l_0, l_m, y_m, y_0, cw_0, cw_m\n"),
    ('at-rngs', 'C30', A, "      rngs=new_rngs, num_images=num_images", "      rngs=rngs, num_images=num_images"),
    ('at-update', 'C30', A, "lambda x, y: x + y, getattr(self, k), v)", "lambda x, y: y, getattr(self, k), v)"),
    ('at-update2', 'C30', A, "lambda x, y: x + y, getattr(self, k), v)", "lambda x, y: jnp.maximum(x, y), getattr(self, k), v)"),
    ('at-iou-union', 'C30', A, "jnp.sum(a + b, axis=-1) - a_intersection_b", "jnp.sum(a + b, axis=-1)"),
    ('at-iou-tokens', 'C30', A, "num_tokens = a.shape[1]", "num_tokens = a.shape[2]"),
    ('at-iou-ge', 'C30', A, "b = jnp.asarray(b > 0.0,", "b = jnp.asarray(b >= 0.0,"),
    ('at-iou-w', 'C30', A, "  a = jnp.asarray(a > 0.0, dtype=jnp.float32)\n", ""),
    ('at-attack-m', 'C30', A, "compute_loss_predict_correct_cw_fn(x_m, y, new_rngs)", "compute_loss_predict_correct_cw_fn(x_0, y, new_rngs)"),
    ('at-create', 'C30', A, "num_changes=jnp.zeros((), dtype=jnp.int32),", "num_changes=jnp.ones((), dtype=jnp.int32),"),
    ('re-correct', 'C30', R, "jnp.sum(jax.nn.one_hot(pred, logits.shape[-1]) * y, axis=-1)", "jnp.max(y, axis=-1)"),
    ('re-pred', 'C30', R, "pred = jnp.argmax(logits, axis=-1)", "pred = jnp.argmin(logits, axis=-1)"),
    ('re-sel', 'C30', R, "jnp.sum(combine_weights, axis=3)", "jnp.sum(combine_weights, axis=2)"),
    ('re-ind', 'C30', R, "dispatcher.indices[..., 0], dispatcher.num_experts", "dispatcher.indices[..., 1], dispatcher.num_experts"),
    ('re-bf', 'C30', R, "    if isinstance(dispatcher, moe.Bfloat16Dispatcher):\n      dispatcher = dispatcher.dispatcher\n", "    if isinstance(dispatcher, moe.Bfloat16Dispatcher):\n      continue\n"),
    ('re-reshape', 'C30', R, "m.reshape(batch_size, -1, m.shape[1])", "m.reshape(-1, batch_size, m.shape[1]).swapaxes(0, 1)"),
    ('re-aux', 'C30', R, "    if attack_auxiliary_loss:\n      loss = loss +", "    if 'auxiliary_loss' in metrics:\n      loss = loss +"),
    ('re-auxneg', 'C30', R, "loss = loss + jnp.mean(metrics", "loss = loss - jnp.mean(metrics"),
    ('li-err', 'C30', L, "'error': 1 - state.num_correct[1]", "'error': 1 - state.num_correct[0]"),
    ('li-loss', 'C30', L, "'loss': state.sum_loss[1] / state.num_images", "'loss': state.sum_loss[1] / num_examples"),
    ('li-route', 'C30', L, "1 - v / state.num_images", "v / state.num_images"),
    ('li-state', 'C30', L, "num_changes=state.num_changes,", "num_changes=state.num_images,"),
    ('li-thread', 'C30', L, "      state, x_m, l_0, l_m, y_0, y_m, cw_0, cw_m = stateful_attack_pjit(\n          variables, state,", "      state, x_m, l_0, l_m, y_0, y_m, cw_0, cw_m = stateful_attack_pjit(\n          variables, init_state_pjit(),"),
    ('li-eps', 'C30', L, "max_epsilon=config.max_epsilon,", "max_epsilon=config.max_epsilon * config.num_updates,"),
    ('li-store', 'C30', L, "x_m=x_m, y_m=y_m, l_m=l_m", "x_m=x_m, y_m=y_m, l_m=l_0"),
    ('li-transfer', 'C30', L, "      self._temp[key] = []\n", ""),
    ('li-write', 'C30', L, "  def write(self):\n    self._transfer()\n", "  def write(self):\n"),
    ('li-valid', 'C30', L, "batch['image'], batch['labels'], batch[VALID_KEY]", "batch['image'], batch['labels'], None"),
]
QUIET = [
    ('q-clipmask', 'C30', A, "    v = valid.reshape((batch_size,) + (1,) * max(a.ndim - valid.ndim, 0))\n    return a * v", "    v = valid.reshape((-1,) + (1,) * (a.ndim - 1))\n    return v * a"),
    ('q-update-inline', 'C30', A, "    new_kwargs = {}\n    for k, v in kwargs.items():\n      new_kwargs[k] = jax.tree_util.tree_map(\n          lambda x, y: x + y, getattr(self, k), v)\n", "    new_kwargs = {\n        name: jax.tree_util.tree_map(jnp.add, getattr(self, name), delta)\n        for name, delta in kwargs.items()}\n"),
    ('q-replace', 'C30', A, "    return AttackState(max_updates=self.max_updates, rngs=rngs, **new_kwargs)", "    return self.replace(rngs=rngs, **new_kwargs)"),
    ('q-stack', 'C30', A, "jnp.stack([l_0.sum(), l_m.sum()], axis=0)", "jnp.asarray([jnp.sum(l_0), jnp.sum(l_m)])"),
    ('q-stack2', 'C30', A, "  num_correct = jnp.stack([c_0.sum(), c_m.sum()], axis=0)\n", "  correct_before = c_0.sum()\n  correct_after = c_m.sum()\n  num_correct = jnp.stack((correct_before, correct_after))\n"),
    ('q-delta', 'C30', A, "x_n = x_c + delta * jnp.sign(dx)", "x_n = x_c + jnp.sign(dx) * max_epsilon / num_updates"),
    ('q-fori', 'C30', A, "fori_loop(0, num_updates, update", "fori_loop(1, num_updates + 1, lambda i, z: update(i - 1, z)"),
    ('q-valgrad', 'C30', A, "  @jax.grad\n  def compute_loss_grads(x, rngs):\n    logits, metrics = apply_fn(x, rngs=rngs)\n    loss = jnp.mean(loss_fn(logits, labels, metrics))\n    return loss\n", "  def compute_loss(x, rngs):\n    logits, metrics = apply_fn(x, rngs=rngs)\n    return loss_fn(logits, labels, metrics).mean()\n  compute_loss_grads = jax.grad(compute_loss)\n"),
    ('q-iou', 'C30', A, "  a_union_b = jnp.sum(a + b, axis=-1) - a_intersection_b\n", "  a_union_b = a.sum(axis=-1) + b.sum(axis=-1) - a_intersection_b\n"),
    ('q-iou-mean', 'C30', A, "  return jnp.sum(a_iou_b) / num_tokens", "  return jnp.sum(a_iou_b) / a_iou_b.shape[1]"),
    ('q-iou-einsum', 'C30', A, "jnp.sum(a * b, axis=-1)", "jnp.einsum('bte,bte->bt', a, b)"),
    ('q-corr', 'C30', R, "jnp.sum(jax.nn.one_hot(pred, logits.shape[-1]) * y, axis=-1)", "jnp.einsum('bc,bc->b', y, jax.nn.one_hot(pred, y.shape[-1]))"),
    ('q-early', 'C30', R, "    loss = loss_fn(logits, labels)\n    if attack_auxiliary_loss:\n      loss = loss + jnp.mean(metrics['auxiliary_loss'])\n    return loss\n", "    main = loss_fn(logits, labels)\n    if not attack_auxiliary_loss:\n      return main\n    return jnp.mean(metrics['auxiliary_loss']) + main\n"),
    ('q-cw', 'C30', R, "      combine_weights = (\n          indices_one_hot * dispatcher.combine_weights[:, :, :, None])\n      # (G, S, K, E) -> (G, S, E).\n      combine_weights = jnp.sum(combine_weights, axis=2)\n", "      combine_weights = jnp.einsum('gske,gsk->gse', indices_one_hot, dispatcher.combine_weights)\n"),
    ('q-helper', 'C30', R, "    dispatcher = value[0][0]\n    if isinstance(dispatcher, moe.Bfloat16Dispatcher):\n      dispatcher = dispatcher.dispatcher\n", "    dispatcher = _inner(value[0][0])\n", "def get_combine_weights(", "def _inner(d):\n  if isinstance(d, moe.Bfloat16Dispatcher):\n    return d.dispatcher\n  return d\n\n\ndef get_combine_weights("),
    ('q-report', 'C30', L, "  writer.write_scalars(0, {\n      'error': 1 - state.num_correct[0] / state.num_images,\n      'loss': state.sum_loss[0] / state.num_images,\n  })", "  def common(i):\n    return {\n        'error': 1 - state.num_correct[i] / state.num_images,\n        'loss': state.sum_loss[i] / state.num_images,\n    }\n  writer.write_scalars(0, common(0))"),
    ('q-transfer', 'C30', L, "    for key, values in self._temp.items():\n      self._data[key].extend(jax.tree_util.tree_map(np.asarray, values))\n      self._temp[key] = []\n", "    for key in self._temp:\n      values = self._temp[key]\n      self._data[key].extend(np.asarray(x) for x in values)\n      self._temp[key] = []\n"),
    ('q-ar', 'C30', R, "  if name in loss_fns:\n    return functools.partial(loss_fns[name], **kwargs)\n  else:\n    raise ValueError(f'Unknown loss: {name=!r}')", "  if name not in loss_fns:\n    raise ValueError(f'Unknown loss: {name!r}')\n  fn = loss_fns[name]\n  return functools.partial(fn, **kwargs)"),
    ('q-ar2', 'C30', R, "  variables_axis_resources = jax.tree_util.tree_map(\n      lambda s: jax.sharding.NamedSharding(mesh, s), variables_axis_resources)", "  def _sharding(spec):\n    return jax.sharding.NamedSharding(mesh, spec)\n  variables_axis_resources = jax.tree.map(_sharding, variables_axis_resources)"),
    ('q-ar3', 'C30', R, "    num_expert_partitions = jax.device_count()\n  return partitioning.get_auto_logical_mesh(num_expert_partitions,\n                                            jax.devices())", "  return partitioning.get_auto_logical_mesh(\n      min(num_expert_partitions, jax.device_count()), jax.devices())"),
    ('q-al', 'C30', L, "  buffer = io.BytesIO()\n  np.savez_compressed(buffer, **data)\n  with gfile.GFile(filepath, 'wb') as fp:\n    fp.write(buffer.getvalue())", "  with io.BytesIO() as buffer:\n    np.savez_compressed(buffer, **data)\n    contents = buffer.getvalue()\n  with gfile.GFile(filepath, mode='wb') as fp:\n    fp.write(contents)"),
    ('q-adv', 'C30', T, "    state = state.replace(rngs=rngs)\n    return train_step_fn(state, images, labels, *args", "    return train_step_fn(state.replace(rngs=rngs), images, labels, *args", "if num_updates <= 0 or max_epsilon <= 0.0:", "if not (num_updates > 0 and max_epsilon > 0):"),
    ('q-adv2', 'C30', T, "    loss = loss_fn(logits, labels)\n    if attack_auxiliary_loss:\n      loss = loss + jnp.mean(metrics['auxiliary_loss'])\n    return loss\n", "    loss = loss_fn(logits, labels)\n    if not attack_auxiliary_loss:\n      return loss\n    return metrics['auxiliary_loss'].mean() + loss\n"),
    ('q-loop', 'C30', L, "    for step, batch in enumerate(dataset_iter, 1):\n      report_progress(step)\n", "    step = 0\n    for batch in dataset_iter:\n      step += 1\n      report_progress(step)\n"),
    ('q-partial', 'C30', L, "    def stateless_attack_fn(images, labels, rngs):\n      return attacks.stateless_attack_pgd(\n          images, labels, rngs, apply_fn=apply_fn, loss_fn=loss_fn,\n          max_epsilon=config.max_epsilon,\n          num_updates=config.num_updates)\n", "    stateless_attack_fn = functools.partial(\n        attacks.stateless_attack_pgd, apply_fn=apply_fn, loss_fn=loss_fn,\n        max_epsilon=config.max_epsilon, num_updates=config.num_updates)\n", "import io\n", "import functools\nimport io\n"),
    ('q-where', 'C30', A, "num_images = batch_size if valid is None else jnp.sum(valid)", "if valid is None:\n    num_images = batch_size\n  else:\n    num_images = valid.sum()"),
]
