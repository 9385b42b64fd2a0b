T = 'vmoe/train/trainer.py'
N = 'vmoe/projects/contrastive/trainer.py'
U = 'vmoe/multihost_utils.py'
P = 'vmoe/checkpoints/partitioned.py'
L = 'vmoe/projects/adversarial_attacks/lib.py'
FIRE = [
    ('sy-main', 'C29', U, "  if jax.process_index() == main_process:\n    x[0] = h\n", "  x[0] = h\n"),
    ('sy-no', 'C29', U, "  if jax.process_index() == main_process:\n    x[0] = h\n", ""),
    ('sy-any', 'C29', U, "if not (x == h).all():", "if not (x == h).any():"),
    ('sy-hash', 'C29', U, "np.uint32(zlib.crc32(name.encode()))", "np.uint32(hash(name) & 0xffffffff)"),
    ('sy-const', 'C29', U, "np.uint32(zlib.crc32(name.encode()))", "np.uint32(1)"),
    ('sy-noraise', 'C29', U, "  if not (x == h).all():\n    raise ValueError(\n        f'sync_devices failed for {name!r}. Found value: {x}, expected: {h}')\n", "  del x\n"),
    ('sy-cond', 'C29', U, "  x = np.asarray(_sync_devices_sum(x))\n", "  if jax.process_index() != main_process:\n    return\n  x = np.asarray(_sync_devices_sum(x))\n"),
    ('sy-mk', 'C29', T, "    tf.io.gfile.makedirs(directory)\n  multihost_utils.sync_devices('create-ckpt-dir')\n", "    tf.io.gfile.makedirs(directory)\n    multihost_utils.sync_devices('create-ckpt-dir')\n"),
    ('sy-mk2', 'C29', T, "  multihost_utils.sync_devices('create-ckpt-dir')\n", ""),
    ('sy-mk3', 'C29', T, "  if jax.process_index() == 0 and not tf.io.gfile.exists(directory):\n    tf.io.gfile.makedirs(directory)\n  multihost_utils.sync_devices('create-ckpt-dir')\n", "  multihost_utils.sync_devices('create-ckpt-dir')\n  if jax.process_index() == 0 and not tf.io.gfile.exists(directory):\n    tf.io.gfile.makedirs(directory)\n"),
    ('sy-mk4', 'C29', P, "  if jax.process_index() == 0:\n    base.gfile.makedirs(workdir)\n  multihost_utils.sync_devices(f'checkpoints:mkdir:{workdir}')\n", "  if jax.process_index() != 0:\n    return\n  base.gfile.makedirs(workdir)\n  multihost_utils.sync_devices(f'checkpoints:mkdir:{workdir}')\n"),
    ('sy-name', 'C29', P, "f'checkpoints:mkdir:{workdir}')", "f'checkpoints:mkdir:{workdir}:{jax.process_index()}')"),
    ('sy-first', 'C29', T, "  if init_step == 0 and not tf.io.gfile.exists(os.path.join(workdir, 'ckpt/0')):\n", "  if (jax.process_index() == 0 and init_step == 0 and\n      not tf.io.gfile.exists(os.path.join(workdir, 'ckpt/0'))):\n"),
    ('sy-save', 'C29', T, "    with progress_hook.timed('ckpt', wait_jax_async_dispatch=False):\n      ckpt_manager.save(", "    with progress_hook.timed('ckpt', wait_jax_async_dispatch=False):\n      if jax.process_index() == 0: ckpt_manager.save("),
    ('sy-eval', 'C29', T, "    evaluation_hook(step, params=train_state.params, **train_cost_fn(step))\n", "    if jax.process_index() == 0:\n      evaluation_hook(step, params=train_state.params, **train_cost_fn(step))\n"),
    ('sy-wait', 'C29', N, "  multihost_utils.sync_devices('training:completed')\n", "  if jax.process_index() == 0:\n    multihost_utils.sync_devices('training:completed')\n"),
    ('sy-end', 'C29', T, "  multihost_utils.sync_devices('training:completed')\n", ""),
    ('sy-pgd', 'C29', L, "  if jax.process_index() == 0:\n    state_filepath", "  if jax.process_index() >= 0:\n    state_filepath"),
    ('sy-pgd2', 'C29', L, "f'{examples_prefix}-{jax.process_index():03d}-of-{jax.process_count():03d}'", "f'{examples_prefix}-of-{jax.process_count():03d}'"),
    ('sy-writer', 'C29', 'vmoe/app.py', "just_logging=jax.process_index() > 0", "just_logging=jax.process_index() > 1"),
    ('sy-mesh', 'C29', 'vmoe/app.py', "                                            jax.devices())", "                                            jax.local_devices())"),
]
QUIET = [
    ('syq-var', 'C29', U, "  if jax.process_index() == main_process:\n    x[0] = h\n", "  is_main = jax.process_index() == main_process\n  if is_main:\n    x[0] = h\n"),
    ('syq-any', 'C29', U, "  if not (x == h).all():\n", "  if (x != h).any():\n"),
    ('syq-np', 'C29', U, "  if not (x == h).all():\n", "  if not np.all(x == h):\n"),
    ('syq-mk', 'C29', T, "  if jax.process_index() == 0 and not tf.io.gfile.exists(directory):\n    tf.io.gfile.makedirs(directory)\n", "  if jax.process_index() == 0:\n    if not tf.io.gfile.exists(directory):\n      tf.io.gfile.makedirs(directory)\n"),
    ('syq-mk2', 'C29', T, "  if jax.process_index() == 0 and not tf.io.gfile.exists(directory):\n    tf.io.gfile.makedirs(directory)\n", "  _make_dir(directory)\n", "def create_checkpoint_manager(", "def _make_dir(directory):\n  if jax.process_index() != 0 or tf.io.gfile.exists(directory):\n    return\n  tf.io.gfile.makedirs(directory)\n\n\ndef create_checkpoint_manager("),
    ('syq-log', 'C29', T, "  multihost_utils.sync_devices('training:completed')\n", "  multihost_utils.sync_devices('training:completed')\n  if jax.process_index() == 0:\n    logging.info('Done.')\n"),
    ('syq-writer', 'C29', 'vmoe/app.py', "just_logging=jax.process_index() > 0", "just_logging=jax.process_index() != 0"),
    ('syq-pgd', 'C29', L, "  if jax.process_index() == 0:\n    state_filepath", "  if not jax.process_index():\n    state_filepath"),
]

for _n, _f in (('', 'vmoe/train/trainer.py'), ('c', 'vmoe/projects/contrastive/trainer.py')):
  FIRE += [
      (f'sy{_n}-first', 'C29', _f, "    multihost_utils.sync_devices('training:ckpt-first')\n", ""),
      (f'sy{_n}-last', 'C29', _f, "    multihost_utils.sync_devices('training:ckpt-last')\n", ""),
      (f'sy{_n}-lastafter', 'C29', _f, "    multihost_utils.sync_devices('training:ckpt-last')\n    _save_checkpoint(train_steps, train_state, tr_iter, force=True)\n", "    _save_checkpoint(train_steps, train_state, tr_iter, force=True)\n    multihost_utils.sync_devices('training:ckpt-last')\n"),
  ]
  QUIET += [
      (f'q-sy{_n}-out', 'C29', _f, "  if not tf.io.gfile.exists(os.path.join(workdir, f'ckpt/{train_steps}')):\n    multihost_utils.sync_devices('training:ckpt-last')\n", "  saved = tf.io.gfile.exists(os.path.join(workdir, f'ckpt/{train_steps}'))\n  multihost_utils.sync_devices('training:ckpt-last')\n  if not saved:\n"),
  ]
