T1, T2, AP = 'vmoe/train/trainer.py', 'vmoe/projects/contrastive/trainer.py', 'vmoe/app.py'
B = [('', T1), ('c', T2)]


def both(name, old, new): return [(f'run{c}-{name}', 'C39', f, old, new) for c, f in B]


NL = "  metrics.update({f'global_norm/{k}': v for k, v in global_norms.items()})\n"
FIRE = ([
    ("run-advloss", "C39", T1, "train_step_fn, train_loss_fn, **adversarial_config", "train_step_fn, eval_loss_fn, **adversarial_config")] +
    both('nonorm', NL, "") +
    both('csecs', "{'train/compile_secs': t1 - t0}", "{'train/compile_secs': t1 + t0}") +
    both('csecs2', "  writer.write_scalars(init_step + 1, {'train/compile_secs': t1 - t0})\n", "") +
    both('flopsname', "{'train/step_flops_per_device': train_step_flops_per_device}", "{'train/step_flops': train_step_flops_per_device}") +
    both('outsh', "      out_shardings=(\n", "      in_shardings=(\n") +
    both('normname', "f'global_norm/{k}': v for", "f'norm/{k}': v for") +
    both('normval', "f'global_norm/{k}': v for", "f'global_norm/{k}': global_norms['grads'] for") +
    both('normsome', "for k, v in global_norms.items()", "for k, v in global_norms.items() if k != 'updates'") +
    both('steps', "train_steps=config.get('train_steps'),", "train_steps=config.get('steps'),") +
    both('epochs', "train_epochs=config.get('train_epochs'),", "train_epochs=None,") +
    both('batch', "train_batch_size = config.dataset.train.batch_size", "train_batch_size = config.dataset.train.batch_size * jax.process_count()") +
    both('examples', "input_pipeline.get_data_num_examples(config.dataset.train)", "input_pipeline.get_data_num_examples(config.dataset.val)") +
    both('refuse', "  if 'train' not in datasets:", "  if 'train' in datasets:") +
    both('ckptopts', "workdir=workdir, **config.get('save_checkpoint', {}))", "workdir=workdir, every_steps=1000)") +
    both('ckptdir', "workdir=workdir, **config.get('save_checkpoint', {}))", "workdir=os.path.join(workdir, 'train'), **config.get('save_checkpoint', {}))") +
    both('model', "create_flax_model(config=config.model,", "create_flax_model(config=config.get('train_model', config.model),") +
    both('optim', "optimizer_config=config.optimizer,", "optimizer_config=config.get('optimizer', {}),")[:0] +
    both('rngkeys', "extra_rng_keys=tuple(config.get('extra_rng_keys', [])),", "extra_rng_keys=tuple(config.get('extra_rng_keys', ['dropout'])),") +
    both('seed', "seed=config.get('seed', 0))", "seed=0)") +
    both('seed2', "seed=config.get('seed', 0))", "seed=config.get('seed', 1))") +
    both('init', "initialization_kwargs=config.get('initialization'))", "initialization_kwargs=config.get('initialize'))") +
    both('axis', "axis_resources_regexes=config.params_axis_resources,", "axis_resources_regexes=config.get('params_axis_resources', [])[:1],") +
    both('prefetch', "config.dataset.train.get('prefetch_device', 1)", "config.dataset.train.get('prefetch', 1)") +
    both('micro', "microsteps=config.get('microsteps'),", "microsteps=config.get('microsteps', 2),") +
    both('micro2', "microsteps=config.get('microsteps'),", "microsteps=None,") +
    both('summ', "create_tree_summarizer(config.get('summarize_arrays'))", "create_tree_summarizer(config.get('summarize'))") +
    both('names', "{f'train/{k}': v for k, v in metrics.items()}", "{k: v for k, v in metrics.items()}") +
    both('names2', "{f'train/{k}': v for k, v in metrics.items()}", "{f'train/{k}': v for k, v in metrics.items() if 'global_norm' not in k}") +
    both('flops', "'train/step_flops_per_device': train_step_flops_per_device", "'train/step_flops_per_device': train_step_seconds_per_device") +
    both('cost', "train_cost_fn(step) | {f", "{} | {f") +
    both('report-step', "writer.write_scalars(init_step + 1, {'train/compile_secs'", "writer.write_scalars(0, {'train/compile_secs'") +
    both('shard', "jax.tree_util.tree_map(lambda x: x.sharding, train_state),", "jax.tree_util.tree_map(lambda x: jax.sharding.PartitionSpec(), train_state),") + [
    ('run-loss', 'C39', T1, "get_loss_fn(**config.loss)", "get_loss_fn(config.loss.name)"),
    ('runc-loss', 'C39', T2, "loss_fn=sigmoid_loss,", "loss_fn=lambda x: jnp.zeros(x.shape[0]),"),
    ('runc-inputs', 'C39', T2, "(dataset_element_shape_dtype['image'],\n                          dataset_element_shape_dtype['text']),", "(dataset_element_shape_dtype['text'],\n                          dataset_element_shape_dtype['image']),"),
    ('run-inputs', 'C39', T1, "input_shape_dtypes=(datataset_element_shape_dtype['image'],),", "input_shape_dtypes=(datataset_element_shape_dtype['labels'],),"),
    ('run-adv', 'C39', T1, "train_step_fn, train_loss_fn, **adversarial_config)", "train_step_fn, train_loss_fn, attack_auxiliary_loss=True, max_epsilon=adversarial_config['max_epsilon'], num_updates=1)"),
    ('run-adv2', 'C39', T1, "  if config.get('adversarial', {}):\n    adversarial_config", "  if config.get('adversarial', {}) and not config.get('mixup', {}):\n    adversarial_config"),
    ('run-mix', 'C39', T1, "partition_spec=jax.sharding.PartitionSpec(mesh.axis_names,),", "partition_spec=jax.sharding.PartitionSpec(mesh.axis_names[0],),"),
    ('run-mix2', 'C39', T1, "  if config.get('mixup', {}):\n", "  if config.get('mixup', {}) and not config.get('adversarial', {}):\n"),
    ('run-mix3', 'C39', T1, "  if config.get('mixup', {}):\n", "  if config.get('mixup', {}) and False:\n"),
    ('run-iter', 'C39', T1, "prefetch_to_device(dataset, size=prefetch_size, mesh=mesh)", "prefetch_to_device(dataset, size=1, mesh=mesh)"),
    ('run-itermesh', 'C39', T1, "prefetch_to_device(dataset, size=prefetch_size, mesh=mesh)", "prefetch_to_device(dataset, size=prefetch_size)"),
    ('run-sig', 'C39', T1, "optax.sigmoid_binary_cross_entropy(logits, labels, **kw),\n        axis=-1)", "optax.sigmoid_binary_cross_entropy(logits, labels, **kw),\n        axis=0)"),
    ('run-sigmean', 'C39', T1, "    return jnp.sum(\n        optax.sigmoid", "    return jnp.mean(\n        optax.sigmoid"),
    ('run-sigsoft', 'C39', T1, "(default_sigmoid_xent, default_sigmoid_xent, default_label_pred_fn)", "(default_sigmoid_xent, optax.softmax_cross_entropy, default_label_pred_fn)"),
    ('run-pred', 'C39', T1, "lambda logits: jnp.argmax(logits, -1)", "lambda logits: jnp.argmax(logits, 0)"),
    ('run-lossopts', 'C39', T1, "eval_loss_fn = functools.partial(eval_loss_fn, **kwargs)", "eval_loss_fn = functools.partial(eval_loss_fn)"),
    ('run-unknown', 'C39', T1, "    raise ValueError(f'Unknown loss: {name!r}')", "    return optax.softmax_cross_entropy, optax.softmax_cross_entropy, default_label_pred_fn"),
    ('run-summlist', 'C39', T1, "TreeSummarizer(rules=config)", "TreeSummarizer(rules=config[:1])"),
    ('run-mkdir', 'C39', T1, "  multihost_utils.sync_devices('create-ckpt-dir')\n", ""),
    ('run-mkdir2', 'C39', T1, "if jax.process_index() == 0 and not tf", "if jax.process_index() == 1 and not tf"),
    ('run-mkdir3', 'C39', T1, "tf.io.gfile.makedirs(directory)", "tf.io.gfile.makedirs(workdir)"),
    ('run-wait', 'C39', T1, "timeout_secs=wait_seconds,", "timeout_secs=300,"),
    ('app-mesh', 'C39', AP, "    with mesh:\n      main(FLAGS.config, FLAGS.workdir, mesh, writer)", "    main(FLAGS.config, FLAGS.workdir, mesh, writer)"),
    ('app-local', 'C39', AP, "jax.devices())\n  partitioning", "jax.local_devices())\n  partitioning"),
    ('app-parts', 'C39', AP, "FLAGS.config.num_expert_partitions,", "jax.device_count(),")[:0] or ('app-parts', 'C39', AP, "FLAGS.config.num_expert_partitions,", "FLAGS.config.get_oneway_ref,"),
    ('app-writer', 'C39', AP, "just_logging=jax.process_index() > 0)", "just_logging=False)"),
    ('app-writer2', 'C39', AP, "just_logging=jax.process_index() > 0)", "just_logging=jax.process_index() == 0)"),
    ('app-flush', 'C39', AP, "  with metric_writers.ensure_flushes(writer):\n    with mesh:\n      main(FLAGS.config, FLAGS.workdir, mesh, writer)", "  with mesh:\n    main(FLAGS.config, FLAGS.workdir, mesh, writer)"),
    ('app-swap', 'C39', AP, "main(FLAGS.config, FLAGS.workdir, mesh, writer)", "main(FLAGS.workdir, FLAGS.config, mesh, writer)"),
    ('app-gpu', 'C39', AP, "  tf.config.set_visible_devices([], 'GPU')\n", ""),
    ('main-wrong', 'C39', 'vmoe/projects/soft_moe/main_contrastive.py', "from vmoe.projects.contrastive import trainer", "from vmoe.train import trainer"),
])

QUIET = [
    ('q-run-norm1', 'C39', T1, NL, "  for k, v in global_norms.items():\n    metrics[f'global_norm/{k}'] = v\n"),
    ('q-run-norm2', 'C39', T1, NL, "  metrics = {**metrics, **{'global_norm/' + name: global_norms[name] for name in global_norms}}\n"),
    ('q-run-norm3', 'C39', T1, NL, "  named = {f'global_norm/{k}': v for k, v in global_norms.items()}\n  metrics = dict(metrics, **named)\n"),
    ('q-run-cfg', 'C39', T1, "train_steps=config.get('train_steps'),", "train_steps=config.get('train_steps', None),"),
    ('q-run-seed', 'C39', T1, "      seed=config.get('seed', 0))", "      seed=config.get(\"seed\", 0))"),
    ('q-run-rng', 'C39', T1, "extra_rng_keys=tuple(config.get('extra_rng_keys', [])),", "extra_rng_keys=tuple(config.get('extra_rng_keys', ())),"),
    ('q-run-item', 'C39', T1, "optimizer_config=config.optimizer,", "optimizer_config=config['optimizer'],"),
    ('q-run-init', 'C39', T1, "initialization_kwargs=config.get('initialization'))", "initialization_kwargs=config.get('initialization', None))"),
    ('q-run-mixif', 'C39', T1, "  if config.get('mixup', {}):\n    mixup_config = config.mixup.to_dict()\n", "  mixup_options = config.get('mixup', {})\n  if mixup_options:\n    mixup_config = config.mixup.to_dict()\n"),
    ('q-run-adv', 'C39', T1, "    adversarial_config = config.adversarial.to_dict()\n    train_step_fn = wrap_train_step_with_adversarial_attack(\n        train_step_fn, train_loss_fn, **adversarial_config)",
     "    train_step_fn = wrap_train_step_with_adversarial_attack(\n        train_step_fn, loss_fn=train_loss_fn, **config.adversarial.to_dict())"),
    ('q-run-step', 'C39', T1, "  train_step_fn = functools.partial(\n      train_step,\n      loss_fn=train_loss_fn,\n      microsteps=config.get('microsteps'),\n      summarizer=summarizer)",
     "  step_kwargs = dict(loss_fn=train_loss_fn, microsteps=config.get('microsteps'), summarizer=summarizer)\n  train_step_fn = functools.partial(train_step, **step_kwargs)"),
    ('q-run-met', 'C39', T1, "{f'train/{k}': v for k, v in metrics.items()}", "{'train/' + name: value for name, value in metrics.items()}"),
    ('q-run-iter', 'C39', T1, "prefetch_to_device(dataset, size=prefetch_size, mesh=mesh)", "prefetch_to_device(dataset, prefetch_size, mesh)"),
    ('q-run-jit', 'C39', T2, "  train_step_pjit = jax.jit(\n      train_step_fn,\n      out_shardings=(\n          jax.tree_util.tree_map(lambda x: x.sharding, train_state),\n          None,\n      ),",
     "  state_shardings = jax.tree_util.tree_map(lambda leaf: leaf.sharding, train_state)\n  train_step_pjit = jax.jit(\n      train_step_fn,\n      out_shardings=(state_shardings, None),"),
    ('q-run-sum', 'C39', T1, "  if not config:\n    return None\n  if isinstance(config, (list, tuple)):\n    return TreeSummarizer(rules=config)\n  else:\n    return TreeSummarizer(**config)",
     "  if config:\n    if isinstance(config, (list, tuple)):\n      return TreeSummarizer(rules=config)\n    return TreeSummarizer(**config)\n  return None"),
    ('q-run-sig', 'C39', T1, "    return jnp.sum(\n        optax.sigmoid_binary_cross_entropy(logits, labels, **kw),\n        axis=-1)", "    xent = optax.sigmoid_binary_cross_entropy(logits, labels, **kw)\n    return xent.sum(axis=-1)"),
    ('q-app-writer', 'C39', AP, "just_logging=jax.process_index() > 0)", "just_logging=jax.process_index() != 0)"),
    ('q-app-with', 'C39', AP, "  with metric_writers.ensure_flushes(writer):\n    with mesh:\n      main(FLAGS.config, FLAGS.workdir, mesh, writer)", "  with metric_writers.ensure_flushes(writer), mesh:\n    main(FLAGS.config, FLAGS.workdir, mesh, writer)"),
    ('q-app-cfg', 'C39', AP, "  mesh = partitioning.get_auto_logical_mesh(FLAGS.config.num_expert_partitions,\n                                            jax.devices())", "  devices = jax.devices()\n  config = FLAGS.config\n  mesh = partitioning.get_auto_logical_mesh(config.num_expert_partitions, devices)"),
    ('q-mkdir', 'C39', T1, "  if jax.process_index() == 0 and not tf.io.gfile.exists(directory):\n    tf.io.gfile.makedirs(directory)", "  if jax.process_index() == 0:\n    tf.io.gfile.makedirs(directory)"),
]

FIRE += [
    ('ch-datasets', 'C16', T2, "for task, bv_kw in datasets.items()\n", "for task, bv_kw in datasets.items() if 'coco' in task\n"),
    ('ch-kw', 'C16', T2, "            **kwargs,\n            **bv_kw)\n", "            **kwargs)\n"),
    ('ch-task', 'C16', T2, "task=task,", "task='retrieval',"),
    ('ch-return', 'C16', T2, "        hook(*a, **kw)\n", "        return hook(*a, **kw)\n"),
    ('ch-last', 'C16', T2, "      for hook in hooks:\n", "      for hook in hooks[-1:]:\n"),
    ('ch-always', 'C16', T2, "  if not datasets:\n    return (lambda *a, **kw: None)\n", ""),
    ('ch-never', 'C16', T2, "  if not datasets:\n    return (lambda *a, **kw: None)\n", "  if datasets:\n    return (lambda *a, **kw: None)\n"),
    ('ch-nokw', 'C16', T2, "  if not kwargs:\n", "  if kwargs is None:\n"),
    ('ch-both', 'C16', T2, "if (img is None) == (txt is None):", "if img is None and txt is None:"),
    ('ch-ne', 'C16', T2, "if (img is None) == (txt is None):", "if (img is None) != (txt is None):"),
    ('ch-overr', 'C16', T2, "dataset_overrides=datasets,", "dataset_overrides=None,"),
    ('ch-names', 'C16', T2, "dataset_names=tuple(datasets.keys()),", "dataset_names=('imagenet2012',),"),
    ('ch-swap', 'C16', T2, "override_base_config(base_model_config, model_overrides)", "override_base_config(model_overrides, base_model_config)"),
    ('ch-noap', 'C16', T2, "      metric_writer=writer,\n      apply_fn=apply_fn,\n", "      metric_writer=writer,\n"),
    ('ch-texts', 'C16', T2, "images=x, texts=None, **kw)", "images=x, texts=x, **kw)"),
]
QUIET += [
    ('q-ch-keys', 'C16', T2, "            **bv_kw)\n        for task, bv_kw in datasets.items()\n", "            **datasets[task])\n        for task in datasets\n"),
    ('q-ch-xor', 'C16', T2, "if (img is None) == (txt is None):", "if not ((img is None) ^ (txt is None)):"),
    ('q-ch-and', 'C16', T2, "if (img is None) == (txt is None):", "if (img is None and txt is None) or (img is not None and txt is not None):"),
    ('q-ch-names', 'C16', T2, "dataset_names=tuple(datasets.keys()),", "dataset_names=tuple(datasets),"),
    ('q-ch-loop', 'C16', T2, "    hooks = [\n        evaluators.RetrievalPeriodicAction(", "    make = evaluators.RetrievalPeriodicAction\n    hooks = [\n        make("),
    ('q-ch-none', 'C16', T2, "  datasets = datasets or {}\n  if isinstance(datasets, ml_collections.ConfigDict):\n    datasets = datasets.to_dict()\n  if not datasets:", "  if not datasets:\n    return (lambda *a, **kw: None)\n  if isinstance(datasets, ml_collections.ConfigDict):\n    datasets = datasets.to_dict()\n  if len(datasets) == 0:"),
]
