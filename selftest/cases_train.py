T = 'vmoe/train/trainer.py'
CT = 'vmoe/projects/contrastive/trainer.py'
EV = 'vmoe/evaluate/evaluator.py'
FS = 'vmoe/evaluate/fewshot.py'
A = 'vmoe/projects/adversarial_attacks/attacks.py'
U = 'vmoe/utils.py'
PA = 'vmoe/train/periodic_actions.py'
FIRE = [
    ('rng-mix-frozen', 'C14', T, '    state = state.replace(rngs=flax.core.freeze(rngs) if frozen_rngs else rngs)\n    return state, metrics', '    return state, metrics'),
    ('rng-next-same', 'C14', T, '    return total_loss, (next_rngs, metrics)', '    return total_loss, (rngs, metrics)'),
    ('rng-micro-same', 'C14', T, '      return new_grad, next_rngs, new_metrics', '      return new_grad, rngs, new_metrics'),
    ('rng-incoming-used', 'C14', T, "    logits, metrics = state.apply_fn({'params': params}, images, rngs=rngs)", "    logits, metrics = state.apply_fn({'params': params}, images, rngs=state.rngs)"),
    ('rng-not-stored', 'C14', T, '      grads, rngs=next_rngs)', '      grads)'),
    ('rng-stored-old', 'C14', T, '      grads, rngs=next_rngs)', '      grads, rngs=state.rngs)'),
    ('rng-micro-outer', 'C14', T, '          params, imgs, lbls, rngs)\n      new_grad', '          params, imgs, lbls, next_rngs)\n      new_grad'),
    ('rng-contrastive', 'C14', CT, '(next_rngs, metrics)', '(rngs, metrics)'),
    ('rng-eval-state', 'C14', EV, '    return state.update(num_valid, correct, loss, next_rngs)'[2:], '  return state.update(num_valid, correct, loss, state.rngs)'),
    ('rng-eval-update-ignores', 'C14', EV, 'sum_loss=sum_loss, rngs=rngs)', 'sum_loss=sum_loss)'),
    ('rng-fewshot', 'C14', FS, 'return FewShotState(rngs=next_rngs)', 'return FewShotState(rngs=rngs)'),
    ('rng-fewshot-sub', 'C14', FS, '        rng = jax.random.fold_in(rng, sub_seed)\n', ''),
    ('rng-fewshot-perm', 'C14', FS, '(seed, step, sub_seed) if seed_fold_in_step', '(seed, step) if seed_fold_in_step'),
    ('rng-attack-back', 'C14', T, '    state = state.replace(rngs=rngs)\n    return train_step_fn(state, images', '    return train_step_fn(state, images'),
    ('rng-mixup-next', 'C14', T, "    rngs['mixup'] = next_mixup_rng", "    rngs['mixup'] = mixup_rng"),
    ('rng-mixup-nosplit', 'C14', T, '    mixup_rng, next_mixup_rng = jax.random.split(mixup_rng)\n', '    next_mixup_rng = mixup_rng\n'),
    ('rng-mixup-drawn-split', 'C14', T, '    mixup_rng, next_mixup_rng = jax.random.split(mixup_rng)\n', '    next_mixup_rng = jax.random.split(mixup_rng)[1]\n'),
    ('rng-mixup-mutates', 'C14', T, 'else dict(state.rngs)', 'else state.rngs'),
    ('rng-streams-same', 'C14', U, '  rngs = jax.random.split(jax.random.PRNGKey(seed), len(rng_keys))\n  return dict(zip(rng_keys, rngs))', '  rng = jax.random.PRNGKey(seed)\n  return {k: rng for k in rng_keys}'),
    ('rng-children-same', 'C14', U, 'lambda rng: rng[i], rngs)', 'lambda rng: rng[0], rngs)'),
    ('rng-children-count', 'C14', U, 'lambda rng: jax.random.split(rng, num_splits), rngs)', 'lambda rng: jax.random.split(rng, 2), rngs)'),
    ('loop-last-step', 'C15', T, 'range(init_step + 1, train_steps + 1), tr_iter', 'range(init_step + 1, train_steps), tr_iter'),
    ('loop-first-step', 'C15', CT, 'range(init_step + 1, train_steps + 1), tr_iter', 'range(init_step, train_steps), tr_iter'),
    ('loop-restart', 'C15', T, 'range(init_step + 1, train_steps + 1), tr_iter', 'range(1, train_steps + 1), tr_iter'),
    ('loop-no-thread', 'C15', T, '      train_state, metrics = train_step_pjit(train_state,', '      new_state, metrics = train_step_pjit(train_state,'),
    ('loop-save-old', 'C15', T, '    profile_hook(step)\n    with', '    old_state = train_state\n    profile_hook(step)\n    with', '    _save_checkpoint(step, train_state, tr_iter)\n    eval', '    _save_checkpoint(step, old_state, tr_iter)\n    eval'),
    ('loop-save-before', 'C15', T, '    _save_checkpoint(step, train_state, tr_iter)\n    eval', '    eval', '    profile_hook(step)\n', '    profile_hook(step)\n    _save_checkpoint(step, train_state, tr_iter)\n'),
    ('loop-save-label', 'C15', CT, '    _save_checkpoint(step, train_state, tr_iter)\n    fewshot', '    _save_checkpoint(step - 1, train_state, tr_iter)\n    fewshot'),
    ('loop-data-pos', 'C15', T, 'last_seen_index = step * train_batch_size', 'last_seen_index = (step - init_step) * train_batch_size'),
    ('loop-data-pos2', 'C15', T, 'last_seen_index = step * train_batch_size', 'last_seen_index = step * train_examples'),
    ('loop-final-force', 'C15', T, '    _save_checkpoint(train_steps, train_state, tr_iter, force=True)', '    _save_checkpoint(train_steps, train_state, tr_iter)'),
    ('loop-final-wait', 'C15', CT, '    ckpt_manager.wait_until_finished()\n  multihost_utils', '  multihost_utils'),
    ('loop-final-path', 'C15', T, "f'ckpt/{train_steps}')", "f'ckpt/{train_steps - 1}')"),
    ('loop-nowait', 'C15', T, '  ckpt_manager.wait_until_finished()\n  if not', '  if not'),
    ('loop-first-path', 'C15', T, "    multihost_utils.sync_devices('training:ckpt-first')\n    _save_checkpoint(init_step, train_state, tr_iter, force=True)", "    multihost_utils.sync_devices('training:ckpt-first')\n    _save_checkpoint(init_step + 1, train_state, tr_iter, force=True)"),
    ('loop-save-guard', 'C15', T, '    _save_checkpoint(step, train_state, tr_iter)\n    eval', '    if step > init_step + 1:\n      _save_checkpoint(step, train_state, tr_iter)\n    eval'),
    ('loop-break', 'C15', T, '    profile_hook(step)\n    with', '    if step >= config.get("max_steps", step + 1): break\n    profile_hook(step)\n    with'),
    ('loop-same-batch', 'C15', T, "range(init_step + 1, train_steps + 1), tr_iter):\n", "range(init_step + 1, train_steps + 1), tr_iter):\n    batch = next(iter(datasets['train']))\n"),
    ('loop-eval-data', 'C15', T, "      dataset=datasets['train'],\n      prefetch", "      dataset=datasets['val'],\n      prefetch"),
    ('loop-epochs-floor', 'C15', T, 'int(np.ceil(train_epochs * train_examples / train_batch_size))', 'int(train_epochs * train_examples / train_batch_size)'),
    ('loop-epochs-intdiv', 'C15', T, 'int(np.ceil(train_epochs * train_examples / train_batch_size))', 'int(np.ceil(train_epochs * (train_examples // train_batch_size)))'),
    ('loop-keep', 'C15', T, 'max_to_keep=keep_last,', 'max_to_keep=keep_steps_multiple_of,'),
    ('loop-interval', 'C15', T, 'save_interval_steps=every_steps,', 'save_interval_steps=every_steps + 1,'),
    ('hook-first', 'C16', T, "      first_step=init_step + 1,\n      train_steps=train_steps,\n      extra_rng_keys=config.get('extra_rng_keys', []),\n      **config.get('evaluate'", "      first_step=init_step,\n      train_steps=train_steps,\n      extra_rng_keys=config.get('extra_rng_keys', []),\n      **config.get('evaluate'"),
    ('hook-old-params', 'C16', T, '    profile_hook(step)\n    with', '    params = train_state.params\n    profile_hook(step)\n    with', 'evaluation_hook(step, params=train_state.params', 'evaluation_hook(step, params=params'),
    ('hook-step', 'C16', CT, "    retrieval_hook(step, variables", "    retrieval_hook(step - 1, variables"),
    ('hook-skip', 'C16', T, '    evaluation_hook(step, params=train_state.params, **train_cost_fn(step))', '    if step % 2:\n      evaluation_hook(step, params=train_state.params, **train_cost_fn(step))'),
    ('hook-train-loss', 'C16', T, '      loss_fn=eval_loss_fn,', '      loss_fn=train_loss_fn,'),
    ('hook-train-loss2', 'C16', T, '      loss_fn=train_loss_fn,\n      microsteps', '      loss_fn=eval_loss_fn,\n      microsteps'),
    ('hook-nondet', 'C16', T, "  apply_fn = create_flax_model(\n      config=model_config.to_dict(), deterministic=True).apply\n  on_steps = set(kwargs.pop('on_steps', []))\n  # Always evaluate on the first and last step.\n  on_steps.update([first_step, train_steps])\n  periodic_action = fewshot", "  apply_fn = create_flax_model(\n      config=model_config.to_dict(), deterministic=False).apply\n  on_steps = set(kwargs.pop('on_steps', []))\n  # Always evaluate on the first and last step.\n  on_steps.update([first_step, train_steps])\n  periodic_action = fewshot"),
    ('hook-on-steps', 'C16', T, "  on_steps.update([first_step, train_steps])\n  periodic_action = evaluator", "  on_steps.update([first_step])\n  periodic_action = evaluator"),
    ('hook-on-steps2', 'C16', T, "  on_steps.update([first_step, train_steps])\n  return ReportProgress", "  on_steps = on_steps or {first_step, train_steps}\n  return ReportProgress"),
    ('hook-async', 'C16', EV, '        execute_async=False,', '        execute_async=True,'),
    ('hook-overrides', 'C16', T, "  model_config = override_base_config(base_model_config, model_overrides)\n  apply_fn", "  model_config = override_base_config(base_model_config, None)\n  apply_fn"),
    ('hook-override-inplace', 'C16', T, '  output = base.copy_and_resolve_references()\n', '  output = base\n'),
    ('hook-train-det', 'C16', T, 'create_flax_model(config=config.model, deterministic=False)', 'create_flax_model(config=config.model, deterministic=True)'),
    ('hook-eval-train-data', 'C16', T, "datasets={name: ds for name, ds in datasets.items() if name != 'train'},", "datasets={name: ds for name, ds in datasets.items() if name == 'train'},"),
    ('hook-loss-table', 'C16', T, '          ensemble.ensemble_sigmoid_xent_eval,', '          ensemble.ensemble_sigmoid_xent_train,'),
    ('donate-read', 'C20', T, "    progress_hook(step, scalar_metrics=(\n        train_cost_fn(step)", "    progress_hook(step, scalar_metrics=(\n        {'train/img_mean': batch['image'].mean()} | train_cost_fn(step)"),
    ('donate-labels', 'C20', CT, "    _save_checkpoint(step, train_state, tr_iter)\n    fewshot", "    writer.write_images(step, {'t': batch['image']})\n    _save_checkpoint(step, train_state, tr_iter)\n    fewshot"),
    ('donate-old-state', 'C20', T, '    profile_hook(step)\n    with', '    prev_params = train_state.params\n    profile_hook(step)\n    with', '    _save_checkpoint(step, train_state, tr_iter)\n    eval', "    writer.write_scalars(step, {'d': utils.tree_diff(prev_params, train_state.params)})\n    _save_checkpoint(step, train_state, tr_iter)\n    eval"),
    ('donate-init-state', 'C20', T, "  for step, batch in zip(range(init_step + 1, train_steps + 1), tr_iter):", "  init_params = train_state.params\n  for step, batch in zip(range(init_step + 1, train_steps + 1), tr_iter):", "  multihost_utils.sync_devices('training:completed')", "  writer.write_scalars(train_steps, {'dist': utils.dist(init_params, train_state.params)})\n  multihost_utils.sync_devices('training:completed')"),
    ('donate-params', 'C20', EV, 'donate_argnums=(0, 2, 3, 4))', 'donate_argnums=(0, 1, 2, 3, 4))'),
    ('donate-eval-read', 'C20', EV, "                                batch['labels'], batch[VALID_KEY])\n", "                                batch['labels'], batch[VALID_KEY])\n    logging.info('valid: %d', batch[VALID_KEY].sum())\n"),
    ('hk-writer', 'C16', T, "      writer=writer,\n      progress_hook=progress_hook,\n      datasets", "      writer=None,\n      progress_hook=progress_hook,\n      datasets"),
    ('hk-section', 'C16', T, "config.get('evaluate', {})", "config.get('evaluation', {})"),
    ('hk-section2', 'C16', CT, "config.get('retrieval', {})", "config.get('zeroshot', {})"),
    ('hk-rng', 'C16', T, "      extra_rng_keys=config.get('extra_rng_keys', []),\n      **config.get('evaluate', {})", "      extra_rng_keys=[],\n      **config.get('evaluate', {})"),
    ('hk-rng2', 'C16', T, "      rng_keys=extra_rng_keys,\n      report_progress=progress_hook,\n      report_progress_name='eval',", "      rng_keys=(),\n      report_progress=progress_hook,\n      report_progress_name='eval',"),
    ('hk-kwargs', 'C16', T, "      report_progress_name='fewshot',\n      on_steps=on_steps,\n      **kwargs)", "      report_progress_name='fewshot',\n      on_steps=on_steps)"),
    ('hk-every', 'C16', CT, "            every_secs=every_secs,\n", ""),
    ('hk-fewshot-off', 'C16', T, "  if not kwargs:\n    return (lambda", "  if kwargs:\n    return (lambda"),
    ('hk-base', 'C16', CT, "      base_model_config=config.model.copy_and_resolve_references(),\n      writer=writer,\n      progress_hook=progress_hook,\n      first_step=init_step + 1,\n      train_steps=train_steps,\n      **config.get('zeroshot', {}))", "      base_model_config=config.teacher.copy_and_resolve_references(),\n      writer=writer,\n      progress_hook=progress_hook,\n      first_step=init_step + 1,\n      train_steps=train_steps,\n      **config.get('zeroshot', {}))"),
    ('hk-apply-texts', 'C16', CT, "    return (None, z, None) if img is None else (z, None, None)\n\n  datasets = datasets or {}\n  if isinstance(datasets, ml_collections.ConfigDict):\n    datasets = datasets.to_dict()\n  if not", "    return (None, z, None) if txt is None else (z, None, None)\n\n  datasets = datasets or {}\n  if isinstance(datasets, ml_collections.ConfigDict):\n    datasets = datasets.to_dict()\n  if not"),
    ('hk-apply-img', 'C16', CT, "model.apply(p, images=x, texts=None, **kw)", "model.apply(p, images=None, texts=x, **kw)"),
    ('hk-profile', 'C16', T, '  if all_processes:\n', '  if not all_processes:\n'),
    ('hk-report-proc', 'C16', PA, 'jax.process_index() != self._process_index):', 'jax.process_index() == self._process_index):'),
    ('hk-report-always', 'C16', PA, '    if super().__call__(step, t):\n      self._apply_extra(step, t, **kwargs)\n      return True\n    return False', '    out = super().__call__(step, t)\n    self._apply_extra(step, t, **kwargs)\n    return out'),
    ('hk-report-name', 'C16', PA, "          '/'.join(k): float(v)", "          k[-1]: float(v)"),
    ('hk-report-drop', 'C16', PA, "flatten_dict(scalar_metrics).items()\n", "flatten_dict(scalar_metrics).items()\n          if len(k) == 1\n"),
    ('hk-report-dropped', 'C16', PA, "      self._apply_extra(step, t, **kwargs)", "      self._apply_extra(step, t)"),
]
QUIET = [
    ('hk-q-report', 'C16', PA, """      scalar_metrics = {
          '/'.join(k): float(v)
          for k, v in flax.traverse_util.flatten_dict(scalar_metrics).items()
      }
""", """      flat = flax.traverse_util.flatten_dict(scalar_metrics, sep='/')
      scalar_metrics = {}
      for name, value in flat.items():
        scalar_metrics[name] = float(value)
"""),
    ('hk-q-trigger', 'C16', PA, """    if (self._process_index is not None and
        jax.process_index() != self._process_index):
      return False
    return super()._should_trigger(step, t)""", """    here = self._process_index is None or jax.process_index() == self._process_index
    return here and super()._should_trigger(step, t)"""),
    ('hk-q-call', 'C16', PA, """    if super().__call__(step, t):
      self._apply_extra(step, t, **kwargs)
      return True
    return False""", """    triggered = super().__call__(step, t)
    if triggered:
      self._apply_extra(step, t, **kwargs)
    return triggered"""),
    ('hk-q-profile', 'C16', T, """  if all_processes:
    return periodic_actions.ProfileAllHosts(logdir=workdir, **kwargs)
  else:
    return SingleProcessPeriodicAction(
        periodic_action=periodic_actions.Profile(logdir=workdir, **kwargs))""", """  if not all_processes:
    profile = periodic_actions.Profile(logdir=workdir, **kwargs)
    return SingleProcessPeriodicAction(profile)
  return periodic_actions.ProfileAllHosts(logdir=workdir, **kwargs)"""),
    ('rng-noop', 'C14', T, '    return total_loss, (next_rngs, metrics)', '    pass\n    return total_loss, (next_rngs, metrics)'),
    ('rng-rename', 'C14', T, '    rngs, next_rngs = utils.tree_rngs_split(rngs)\n    logits, metrics = state.apply_fn({\'params\': params}, images, rngs=rngs)', '    split_rngs = utils.tree_rngs_split(rngs)\n    model_rngs = split_rngs[0]\n    next_rngs = split_rngs[1]\n    logits, metrics = state.apply_fn({\'params\': params}, images, rngs=model_rngs)'),
    ('rng-tree-comp', 'C14', U, '  slice_rngs = lambda rngs, i: jax.tree_util.tree_map(lambda rng: rng[i], rngs)\n  return tuple(slice_rngs(rngs, i) for i in range(num_splits))', '  trees = []\n  for i in range(num_splits):\n    trees.append(jax.tree_util.tree_map(lambda rng: rng[i], rngs))\n  return tuple(trees)'),
    ('rng-make-loop', 'C14', U, '  return dict(zip(rng_keys, rngs))', '  return {name: rngs[i] for i, name in enumerate(rng_keys)}'),
    ('rng-make-loop2', 'C14', U, '  return dict(zip(rng_keys, rngs))', '  out = {}\n  for name, rng in zip(rng_keys, rngs):\n    out[name] = rng\n  return out'),
    ('rng-mixup-helper', 'C14', T, "    rngs['mixup'] = next_mixup_rng\n    state = state.replace(rngs=flax.core.freeze(rngs) if frozen_rngs else rngs)", "    rngs = {**rngs, 'mixup': next_mixup_rng}\n    state = state.replace(rngs=flax.core.freeze(rngs) if frozen_rngs else rngs)"),
    ('rng-eval-swap', 'C14', EV, '  rngs, next_rngs = utils.tree_rngs_split(state.rngs)', '  next_rngs, rngs = utils.tree_rngs_split(state.rngs)'),
    ('rng-eval-inline', 'C14', EV, '  return state.update(num_valid, correct, loss, next_rngs)', '  return state.replace(num=state.num + num_valid, sum_correct=state.sum_correct + jnp.sum(correct), sum_loss=state.sum_loss + jnp.sum(loss), rngs=next_rngs)'),
    ('rng-fewshot-replace', 'C14', FS, 'return FewShotState(rngs=next_rngs)', 'return state.replace(rngs=next_rngs)'),
    ('rng-micro-extract', 'C14', T, '      new_grad, (next_rngs, new_metrics) = grad_and_metrics_fn(\n          params, imgs, lbls, rngs)', '      new_grad, aux = grad_and_metrics_fn(params, imgs, lbls, rngs)\n      next_rngs, new_metrics = aux'),
    ('loop-noop', 'C15,C16,C20', T, '    profile_hook(step)\n    with', '    pass\n    profile_hook(step)\n    with'),
    ('loop-enumerate', 'C15,C16,C20', T, '  for step, batch in zip(range(init_step + 1, train_steps + 1), tr_iter):\n', '  for step in range(init_step + 1, train_steps + 1):\n    batch = next(tr_iter)\n'),
    ('loop-first-var', 'C15,C16,C20', T, '  for step, batch in zip(range(init_step + 1, train_steps + 1), tr_iter):\n', '  first_step = init_step + 1\n  for step, batch in zip(range(first_step, train_steps + 1), tr_iter):\n'),
    ('loop-offset', 'C15,C16,C20', T, '  for step, batch in zip(range(init_step + 1, train_steps + 1), tr_iter):\n', '  for prev_step, batch in zip(range(init_step, train_steps), tr_iter):\n    step = prev_step + 1\n'),
    ('loop-hook-order', 'C15,C16,C20', T, '    _save_checkpoint(step, train_state, tr_iter)\n    evaluation_hook(step, params=train_state.params, **train_cost_fn(step))\n', '    evaluation_hook(step, params=train_state.params, **train_cost_fn(step))\n    _save_checkpoint(step, train_state, tr_iter)\n'),
    ('loop-cost-var', 'C15,C16,C20', T, '    evaluation_hook(step, params=train_state.params, **train_cost_fn(step))\n', '    cost = train_cost_fn(step)\n    params = train_state.params\n    evaluation_hook(step, params=params, **cost)\n'),
    ('loop-inline-save', 'C15,C16,C20', T, '    _save_checkpoint(step, train_state, tr_iter)\n    eval', "    with progress_hook.timed('ckpt', wait_jax_async_dispatch=False):\n      ckpt_manager.save(step, items={'state': train_state, 'dataset_iterator': {'last_seen_index': step * train_batch_size}}, force=False)\n    eval"),
    ('loop-save-nodefault', 'C15,C16,C20', T, '  def _save_checkpoint(step, ts, it, force=False):\n    last_seen_index = step * train_batch_size\n', '  def _save_checkpoint(step, ts, it, force=False):\n    del it\n    last_seen_index = train_batch_size * step\n'),
    ('loop-final-str', 'C15,C16,C20', T, "os.path.join(workdir, f'ckpt/{train_steps}')", "os.path.join(workdir, 'ckpt', str(train_steps))"),
    ('loop-ceil-order', 'C15', T, 'int(np.ceil(train_epochs * train_examples / train_batch_size))', 'int(np.ceil((train_examples * train_epochs) / train_batch_size))'),
    ('loop-unpack', 'C15,C16,C20', T, "      train_state, metrics = train_step_pjit(train_state, batch['image'],\n                                             batch['labels'])", "      images, labels = batch['image'], batch['labels']\n      output = train_step_pjit(train_state, images, labels)\n      train_state, metrics = output"),
    ('hook-on-steps-union', 'C16', T, "  on_steps = set(kwargs.pop('on_steps', []))\n  # Always evaluate on the first and last step.\n  on_steps.update([first_step, train_steps])\n  periodic_action = evaluator", "  on_steps = set(kwargs.pop('on_steps', [])) | {first_step, train_steps}\n  periodic_action = evaluator"),
    ('hook-on-steps-add', 'C16', T, "  on_steps.update([first_step, train_steps])\n  periodic_action = evaluator", "  on_steps.add(first_step)\n  on_steps.add(train_steps)\n  periodic_action = evaluator"),
    ('hook-on-steps-helper', 'C16', T, "  on_steps = set(kwargs.pop('on_steps', []))\n  # Always evaluate on the first and last step.\n  on_steps.update([first_step, train_steps])\n  periodic_action = evaluator", "  on_steps = _get_on_steps(kwargs, first_step, train_steps)\n  periodic_action = evaluator", "def create_evaluation_hook(", "def _get_on_steps(kwargs, first_step, train_steps):\n  on_steps = set(kwargs.pop('on_steps', []))\n  on_steps.update([first_step, train_steps])\n  return on_steps\n\n\ndef create_evaluation_hook("),
    ('hook-model-var', 'C16', T, "  apply_fn = create_flax_model(\n      config=model_config.to_dict(), deterministic=True).apply\n  on_steps = set(kwargs.pop('on_steps', []))\n  # Always evaluate on the first and last step.\n  on_steps.update([first_step, train_steps])\n  periodic_action = evaluator", "  model = create_flax_model(\n      config=model_config.to_dict(), deterministic=True)\n  on_steps = set(kwargs.pop('on_steps', []))\n  on_steps.update([first_step, train_steps])\n  apply_fn = model.apply\n  periodic_action = evaluator"),
    ('hook-eval-datasets', 'C16', T, "datasets={name: ds for name, ds in datasets.items() if name != 'train'},", "datasets={k: datasets[k] for k in datasets if k != 'train'},"),
    ('hook-loss-direct', 'C16', T, "    train_loss_fn, eval_loss_fn, pred_fn = loss_fns[name]\n", "    fns = loss_fns[name]\n    train_loss_fn = fns[0]\n    eval_loss_fn = fns[1]\n    pred_fn = fns[2]\n"),
    ('donate-shape', 'C20', T, "    _save_checkpoint(step, train_state, tr_iter)\n    eval", "    logging.log_first_n(logging.INFO, 'shape %r', 1, batch['image'].shape)\n    _save_checkpoint(step, train_state, tr_iter)\n    eval"),
    ('donate-eval-var', 'C20', EV, "    eval_state = eval_step_pjit(eval_state, params, batch['image'],\n                                batch['labels'], batch[VALID_KEY])\n", "    images, labels, valid = batch['image'], batch['labels'], batch[VALID_KEY]\n    eval_state = eval_step_pjit(eval_state, params, images, labels, valid)\n"),
]
