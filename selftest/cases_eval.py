E_ = 'vmoe/evaluate/evaluator.py'
K = 'vmoe/projects/contrastive/evaluators.py'
FIRE = [
    ('ev-loss-unmasked', 'C23', E_, "  loss = valid * jnp.sum(loss, axis=tuple(range(1, loss.ndim)))", "  loss = jnp.sum(loss, axis=tuple(range(1, loss.ndim)))"),
    ('ev-correct-unmasked', 'C23', E_, "  correct = (valid[:, None] * labels *\n             jax", "  correct = (labels *\n             jax"),
    ('ev-num-all', 'C23', E_, "jnp.sum(valid, dtype=jnp.float32)", "jnp.asarray(valid.shape[0], dtype=jnp.float32)"),
    ('ev-num-any', 'C23', E_, "jnp.sum(valid, dtype=jnp.float32)", "jnp.sum(jnp.ones_like(valid), dtype=jnp.float32)"),
    ('ev-mean', 'C23', E_, "valid * jnp.sum(loss, axis=tuple", "valid * jnp.mean(loss, axis=tuple"),
    ('ev-update-mean', 'C23', E_, "sum_loss = self.sum_loss + jnp.sum(loss)", "sum_loss = self.sum_loss + jnp.mean(loss)"),
    ('ev-swap', 'C23', E_, "num=num, sum_correct=sum_correct, sum_loss=sum_loss, rngs=rngs)", "num=num, sum_correct=sum_loss, sum_loss=sum_correct, rngs=rngs)"),
    ('ev-no-carry', 'C23', E_, "    num = self.num + num\n", ""),
    ('ev-max-num', 'C23', E_, "    num = self.num + num\n", "    num = jnp.maximum(self.num, num)\n"),
    ('ev-prec-labels', 'C23', E_, "metrics[f'{name}/prec@1'] = eval_state.sum_correct / eval_state.num", "metrics[f'{name}/prec@1'] = eval_state.sum_correct / max(eval_state.num, eval_state.sum_correct)"),
    ('ev-loss-per-correct', 'C23', E_, "eval_state.sum_loss / eval_state.num", "eval_state.sum_loss / eval_state.sum_correct"),
    ('ev-no-reset', 'C23', E_, "        dataset.reset()\n", ""),
    ('ev-reset-cond', 'C23', E_, "        dataset.reset()\n", "        if step > 1:\n          dataset.reset()\n"),
    ('ev-state-outside', 'C23', E_, "      for name, dataset in datasets.items():\n        eval_step_pjit_ds", "      eval_state = make_eval_state_pjit(seed)\n      for name, dataset in datasets.items():\n        eval_step_pjit_ds", "        eval_state = jax.tree_util.tree_map(lambda x: x.block_until_ready(),\n                                            make_eval_state_pjit(seed))\n", ""),
    ('ev-cache-key', 'C23', E_, "key=lambda name, *_: cachetools.keys.hashkey(name))", "key=lambda *_: cachetools.keys.hashkey('step'))"),
    ('ev-step', 'C23', E_, "      metric_writer.write_scalars(step, metrics)", "      metric_writer.write_scalars(step + 1, metrics)"),
    ('ev-kwargs', 'C23', E_, "      metrics = metrics | {k: v for k, v in kwargs.items() if v is not None}\n", ""),
    ('ev-skip-batch', 'C23', E_, "  for batch in dataset:\n", "  for batch in itertools.islice(dataset, 1, None):\n", "import functools\n", "import functools\nimport itertools\n"),
    ('ev-skip-invalid', 'C23', E_, "  for batch in dataset:\n    eval_state =", "  for batch in dataset:\n    if not batch[VALID_KEY].all(): break\n    eval_state ="),
    ('ev-no-thread', 'C23', E_, "  for batch in dataset:\n    eval_state = eval_step_pjit(eval_state,", "  first = eval_state\n  for batch in dataset:\n    eval_state = eval_step_pjit(first,"),
    ('ev-args', 'C23', E_, "batch['labels'], batch[VALID_KEY])\n  return", "batch[VALID_KEY], batch['labels'])\n  return"),
    ('ev-onehot', 'C23', E_, "jax.nn.one_hot(label_pred_fn(logits), labels.shape[1]))", "jax.nn.one_hot(label_pred_fn(logits), labels.shape[1]).cumsum(axis=1))"),
    ('ev-labels-as-logits', 'C23', E_, "label_pred_fn(logits)", "label_pred_fn(labels)"),
    ('ev-zs-task', 'C23', K, "acc = evaluator.evaluate(variables, task)", "acc = evaluator.evaluate(variables, next(iter(evaluator.datasets)))"),
    ('ev-ret-swap', 'C23', K, "for k, v in bv_metrics['img2txt'].items()", "for k, v in bv_metrics['txt2img'].items()"),
    ('ev-ret-step', 'C23', K, "      metrics = metrics | {k: v for k, v in kwargs.items() if v is not None}\n      metric_writer.write_scalars(step, metrics)\n\n    if report_progress is None:\n      return callback_fn\n    else:\n      return report_progress.timed(\n          report_progress_name, wait_jax_async_dispatch=False)(callback_fn)\n\n\nclass", "      metrics = metrics | {k: v for k, v in kwargs.items() if v is not None}\n      metric_writer.write_scalars(step - 1, metrics)\n\n    if report_progress is None:\n      return callback_fn\n    else:\n      return report_progress.timed(\n          report_progress_name, wait_jax_async_dispatch=False)(callback_fn)\n\n\nclass"),
]
QUIET = [
    ('ev-q-where', 'C23', E_, "  correct = (valid[:, None] * labels *\n             jax.nn.one_hot(label_pred_fn(logits), labels.shape[1]))", "  hits = jax.nn.one_hot(label_pred_fn(logits), labels.shape[1]) * labels\n  correct = valid * jnp.sum(hits, axis=1)"),
    ('ev-q-sum', 'C23', E_, "  loss = valid * jnp.sum(loss, axis=tuple(range(1, loss.ndim)))", "  loss = jnp.sum(loss.reshape(loss.shape[0], -1), axis=1) * valid"),
    ('ev-q-einsum', 'C23', E_, "  correct = (valid[:, None] * labels *\n             jax.nn.one_hot(label_pred_fn(logits), labels.shape[1]))", "  correct = jnp.einsum('b,bc,bc->b', valid, labels, jax.nn.one_hot(label_pred_fn(logits), labels.shape[-1]))"),
    ('ev-q-num', 'C23', E_, "jnp.sum(valid, dtype=jnp.float32)", "valid.astype(jnp.float32).sum()"),
    ('ev-q-helper', 'C23', E_, "        metrics[f'{name}/prec@1'] = eval_state.sum_correct / eval_state.num\n        metrics[f'{name}/loss'] = eval_state.sum_loss / eval_state.num\n", "        num = eval_state.num\n        metrics.update({\n            f'{name}/prec@1': eval_state.sum_correct / num,\n            f'{name}/loss': eval_state.sum_loss / num,\n        })\n"),
    ('ev-q-join', 'C23', E_, "        metrics[f'{name}/prec@1'] =", "        metrics['/'.join([name, 'prec@1'])] ="),
    ('ev-q-reset-first', 'C23', E_, "        # Reset iterator for the next evaluation.\n        dataset.reset()\n", "", "        ds_iter = get_dataset_iterator(dataset, mesh)\n", "        dataset.reset()\n        ds_iter = get_dataset_iterator(dataset, mesh)\n"),
    ('ev-q-block', 'C23', E_, "  return jax.tree_util.tree_map(lambda x: x.block_until_ready(), eval_state)", "  return jax.block_until_ready(eval_state)"),
    ('ev-q-inline', 'C23', E_, "        ds_iter = get_dataset_iterator(dataset, mesh)\n", "        ds_iter = pjit_utils.prefetch_to_device(iter(dataset), size=0, mesh=mesh)\n"),
    ('ev-q-vars', 'C23', E_, "    eval_state = eval_step_pjit(eval_state, params, batch['image'],\n                                batch['labels'], batch[VALID_KEY])\n", "    image, labels, valid = (batch[k] for k in ('image', 'labels', VALID_KEY))\n    eval_state = eval_step_pjit(eval_state, params, image, labels, valid)\n"),
    ('ev-q-reduce', 'C23', E_, "  for batch in dataset:\n    eval_state = eval_step_pjit(eval_state, params, batch['image'],\n                                batch['labels'], batch[VALID_KEY])\n", "  def one(eval_state, batch):\n    return eval_step_pjit(eval_state, params, batch['image'],\n                          batch['labels'], batch[VALID_KEY])\n  eval_state = functools.reduce(one, dataset, eval_state)\n"),
    ('ev-q-kwargs', 'C23', E_, "      metrics = metrics | {k: v for k, v in kwargs.items() if v is not None}\n", "      for k, v in kwargs.items():\n        if v is not None:\n          metrics[k] = v\n"),
]
