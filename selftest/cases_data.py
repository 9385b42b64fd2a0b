I = 'vmoe/data/input_pipeline.py'
B = 'vmoe/data/builder.py'
J = 'vmoe/data/pjit_utils.py'
PREF = "    enqueue(size)\n    while queue:\n      yield queue.popleft()\n      enqueue(1)\n"
FIRE = [
    ('ip-flt1', 'C22', 'vmoe/data/input_pipeline.py', "data = data.filter(pre_filter_fn) if pre_filter_fn is not None else data", "pass"),
    ('ip-flt2', 'C22', 'vmoe/data/input_pipeline.py', "data = data.filter(pre_filter_fn) if pre_filter_fn is not None else data", "data = data.filter(pre_filter_fn) if pre_filter_fn is not None and variant == 'train' else data"),
    ('da-repeat', 'C22', I, "    process_fn = _compose_fns(get_data_process_fn(process), _mask_fn)\n", "    process_fn = _compose_fns(get_data_process_fn(process), _mask_fn)\n    data = data.repeat(2) if cache else data\n"),
    ('da-train-norepeat', 'C22', I, "    data = data.repeat()\n", "    data = data.repeat() if cache != 'loaded' else data\n"),
    ('da-noshuffle', 'C22', I, "    data = data.shuffle(shuffle_buffer, seed=shuffle_seed)\n", "    if shuffle_buffer > 1: data = data.shuffle(shuffle_buffer, seed=0)\n"),
    ('da-pad-first', 'C22', I, "  if variant != 'train':\n    num_fake", "  if variant != 'train' and cache is None:\n    num_fake"),
    ('da-gt1', 'C22', I, "    if num_fake_examples > 0:", "    if num_fake_examples > 1:"),
    ('da-ones', 'C22', I, "tf.zeros(spec.shape, spec.dtype)", "tf.ones(spec.shape, spec.dtype)"),
    ('da-padsize', 'C22', I, "builder.get_num_fake_examples(batch_size_per_process)", "builder.get_num_fake_examples(batch_size)"),
    ('da-batch', 'C22', I, "data.batch(batch_size_per_process, drop", "data.batch(batch_size // jax.device_count(), drop"),
    ('da-repeatpad', 'C22', I, "fake_data.repeat(num_fake_examples).cache()", "fake_data.repeat(num_fake_examples - 1).cache()"),
    ('da-mask', 'C22', I, "data.get(VALID_KEY, True)", "True"),
    ('da-maskf', 'C22', I, "data.get(VALID_KEY, True)", "data.get(VALID_KEY, False)"),
    ('da-order', 'C22', I, "_compose_fns(get_data_process_fn(process), _mask_fn)", "_compose_fns(_mask_fn, get_data_process_fn(process))"),
    ('da-check', 'C22', I, "(batch_size % jax.process_count() or batch_size % jax.device_count())", "(batch_size % jax.local_device_count())"),
    ('da-cachemap', 'C22', I, "  # Batch data.\n", "  if cache == 'loaded':\n    data = data.cache()\n", "  if cache == 'loaded':\n    data = data.cache()\n  if variant", "  if variant"),
    ('da-take', 'C22', I, "  data = builder.as_dataset()\n", "  data = builder.as_dataset().take(-1 if variant == 'train' else 50000)\n"),
    ('da-filter', 'C22', I, "data.filter(pre_filter_fn) if pre_filter_fn is not None else data", "data.filter(pre_filter_fn or (lambda d: 'labels' in d))"),
    ('da-split', 'C22', I, "      split=split,\n", "      split=split if variant != 'test' else 'test',\n"),
    ('da-max', 'C22', B, "num_examples_max = max(num_examples_per_process)", "num_examples_max = num_examples_per_process[0]"),
    ('da-mod', 'C22', B, "(-num_examples_max) % batch_size_per_process", "(-num_examples_process) % batch_size_per_process"),
    ('da-mod2', 'C22', B, "(-num_examples_max) % batch_size_per_process", "batch_size_per_process - num_examples_max % batch_size_per_process"),
    ('da-mod3', 'C22', B, "(-num_examples_max) % batch_size_per_process", "num_examples_max % batch_size_per_process"),
    ('da-drop', 'C22', B, "split = tfds.split_for_jax_process(self.split, drop_remainder=False)", "split = tfds.split_for_jax_process(self.split, drop_remainder=True)"),
    ('da-drop2', 'C22', B, "            self.split, jax.process_count(), drop_remainder=False)", "            self.split, jax.process_count(), drop_remainder=True)"),
    ('da-fakesplit', 'C22', B, "            self.split, jax.process_count(), drop_remainder=False)", "            self.split.split('[')[0], jax.process_count(), drop_remainder=False)"),
    ('da-key', 'C22', B, "key=lambda name, data_dir, *_: cachetools.keys.hashkey(name, data_dir))", "key=lambda name, *_: cachetools.keys.hashkey(name))"),
    ('da-key2', 'C22', B, "key=lambda name, data_dir, *_: cachetools.keys.hashkey(name, data_dir))", "key=lambda name, data_dir, *_: cachetools.keys.hashkey(data_dir))"),
    ('da-pidx', 'C22', B, "_get_num_fake_examples(jax.process_index(),", "_get_num_fake_examples(0,"),
    ('da-whole', 'C22', B, "        split=split,\n", "        split=self.split,\n"),
    ('da-variant', 'C22', I, "get_dataset(variant=variant, **variant_config)", "get_dataset(variant='train' if 'train' in variant else variant, **variant_config)"),
    ('da-keys', 'C22', I, "'shuffle_buffer', 'pre_filter_fn')", "'shuffle_buffer', 'pre_filter_fn', 'split')"),
    ('da-keys2', 'C22', I, "'num_parallel_calls', 'prefetch', 'prefetch_device',", "'num_parallel_calls', 'prefetch',"),
    ('da-rev', 'C22', I, "  return _compose_fns(*ops)", "  return _compose_fns(*reversed(ops))"),
    ('da-orig', 'C22', I, "    for f in fns:\n      data = f(data)\n    return data\n", "    out = data\n    for f in fns:\n      out = f(data)\n    return out\n"),
    ('pf-lifo', 'C24', J, "      yield queue.popleft()\n", "      yield queue.pop()\n"),
    ('pf-norefill', 'C24', J, PREF, PREF.replace("      enqueue(1)\n", "")),
    ('pf-drain', 'C24', J, PREF, PREF.replace("while queue:", "while len(queue) > 1:")),
    ('pf-bounded', 'C24', J, "collections.deque()", "collections.deque(maxlen=size - 1)"),
    ('pf-break', 'C24', J, PREF, PREF + "      if len(queue) < size: break\n"),
    ('pf-first', 'C24', J, PREF, PREF.replace("    enqueue(size)\n", "    enqueue(size - 1)\n")),
    ('pf-twice', 'C24', J, PREF, PREF.replace("yield queue.popleft()", "x = queue.popleft(); yield x; yield x")),
    ('pf-skip', 'C24', J, "        queue.append(jax", "        if n > 1 or queue: queue.append(jax"),
    ('pf-skipfirst', 'C24', J, "    for data in iterator:\n", "    for data in itertools.islice(iterator, 1, None):\n"),
    ('pf-shape', 'C24', J, "global_shape = (x.shape[0] * jax.process_count(),)", "global_shape = (x.shape[0] * jax.local_device_count(),)"),
    ('pf-shape2', 'C24', J, "    shape = (shape[0] * jax.process_count(),) + shape[1:]", "    shape = (shape[0],) + shape[1:]"),
    ('pf-spec', 'C24', J, "  pspec = jax.sharding.PartitionSpec(mesh.axis_names,)\n  sharding = jax.sharding.NamedSharding(mesh, pspec)\n\n  local", "  pspec = jax.sharding.PartitionSpec(*mesh.axis_names)\n  sharding = jax.sharding.NamedSharding(mesh, pspec)\n\n  local"),
    ('pf-dev', 'C24', J, "local_devices = mesh.local_devices", "local_devices = jax.local_devices()"),
    ('pf-rev', 'C24', J, "zip(per_device_arrays, local_devices)", "zip(per_device_arrays, reversed(local_devices))"),
    ('pf-axis', 'C24', J, "local_device_count, axis=0)", "local_device_count, axis=-1)"),
    ('pf-array-split', 'C24', J, "np.split(host_array", "np.array_split(host_array"),
    ('pf-same', 'C24', J, "jax.device_put(arr, d) for", "jax.device_put(per_device_arrays[0], d) for"),
    ('pf-bool', 'C24', J, "if not np.issubdtype(x.dtype, np.number) and x.dtype != bool:", "if not np.issubdtype(x.dtype, np.floating) and x.dtype != bool:"),
    ('pf-boolx', 'C24', J, "if not np.issubdtype(x.dtype, np.number) and x.dtype != bool:", "if not np.issubdtype(x.dtype, np.number):"),
]
QUIET = [
    ('q-fake-truth', 'C22', I, "    if num_fake_examples > 0:", "    if num_fake_examples:"),
    ('q-fake-always', 'C22', I, "    if num_fake_examples > 0:", "    if num_fake_examples >= 1:"),
    ('q-train-flag', 'C22', I, "  if variant == 'train':\n    # Repeat", "  is_train = variant == 'train'\n  if is_train:\n    # Repeat", "  if variant != 'train':\n    num_fake", "  if not is_train:\n    num_fake"),
    ('q-helper', 'C22', I, "      fake_elem = tf.nest.map_structure(\n          lambda spec: tf.zeros(spec.shape, spec.dtype), data.element_spec)\n      fake_data = tf.data.Dataset.from_tensors(fake_elem)\n      fake_data = fake_data.repeat(num_fake_examples).cache()\n      data = data.concatenate(fake_data)\n", "      data = data.concatenate(_fake(data.element_spec, num_fake_examples))\n", "def get_data_num_examples(", "def _fake(spec, n):\n  zeros = tf.nest.map_structure(lambda s: tf.zeros(s.shape, s.dtype), spec)\n  return tf.data.Dataset.from_tensors(zeros).repeat(n).cache()\n\n\ndef get_data_num_examples("),
    ('q-mask', 'C22', I, "      return data | {VALID_KEY: data.get(VALID_KEY, True)}", "      valid = data[VALID_KEY] if VALID_KEY in data else True\n      return {**data, VALID_KEY: valid}"),
    ('q-pad', 'C22', B, "  num_fake_examples = num_examples_max - num_examples_process\n", "  num_fake_examples = 0\n", "num_fake_examples += (-num_examples_max) % batch_size_per_process", "num_fake_examples += (-num_examples_max) % batch_size_per_process - num_examples_process + num_examples_max"),
    ('q-pad2', 'C22', B, "  # The number of examples must be a multiple of batch_size_per_process.\n  num_fake_examples += (-num_examples_max) % batch_size_per_process\n  return num_fake_examples", "  remainder = num_examples_max % batch_size_per_process\n  if remainder:\n    num_fake_examples += batch_size_per_process - remainder\n  return num_fake_examples"),
    ('q-pad3', 'C22', B, "  num_fake_examples = num_examples_max - num_examples_process\n  # The number of examples must be a multiple of batch_size_per_process.\n  num_fake_examples += (-num_examples_max) % batch_size_per_process\n  return num_fake_examples", "  num_batches = -(-num_examples_max // batch_size_per_process)\n  return num_batches * batch_size_per_process - num_examples_process"),
    ('q-even', 'C22', B, "split = tfds.split_for_jax_process(self.split, drop_remainder=False)", "split = tfds.even_splits(self.split, jax.process_count(), drop_remainder=False)[jax.process_index()]"),
    ('q-counts', 'C22', B, "    num_examples = [\n        builder.info.splits[split].num_examples for split in tfds.even_splits(\n            self.split, jax.process_count(), drop_remainder=False)\n    ]\n", "    num_examples = []\n    splits = tfds.even_splits(self.split, jax.process_count(), drop_remainder=False)\n    for s in splits:\n      num_examples.append(builder.info.splits[s].num_examples)\n"),
    ('q-compose', 'C22', I, "    for f in fns:\n      data = f(data)\n    return data\n", "    out = data\n    for pp in fns:\n      out = pp(out)\n    return out\n"),
    ('q-ops', 'C22', I, "  ops = []\n  for op_str in process_str.split('|'):\n    op_fn, op_args, op_kwargs = vmoe.utils.parse_call(op_str, vmoe.data.pp_ops)\n    ops.append(op_fn(*op_args, **op_kwargs))\n  return _compose_fns(*ops)", "  def _make(op_str):\n    op_fn, op_args, op_kwargs = vmoe.utils.parse_call(op_str, vmoe.data.pp_ops)\n    return op_fn(*op_args, **op_kwargs)\n  return _compose_fns(*[_make(s) for s in process_str.split('|')])"),
    ('q-numex', 'C22', I, "  builder_kwargs = {k: v for k, v in config.items() if k not in pipeline_keys}\n", "  builder_kwargs = dict(config)\n  for k in pipeline_keys:\n    builder_kwargs.pop(k, None)\n"),
    ('q-datasets', 'C22', I, "    variant_config = variant_config.to_dict()\n    _ = variant_config.pop('prefetch_device', None)\n", "    variant_config = {k: v for k, v in variant_config.to_dict().items() if k != 'prefetch_device'}\n"),
    ('q-refill-first', 'C24', J, PREF, "    enqueue(size)\n    while queue:\n      item = queue.popleft()\n      yield item\n      enqueue(1)\n"),
    ('q-refill-before', 'C24', J, PREF, "    enqueue(size)\n    while queue:\n      item = queue.popleft()\n      enqueue(1)\n      yield item\n"),
    ('q-len', 'C24', J, PREF, PREF.replace("while queue:", "while len(queue) > 0:")),
    ('q-put', 'C24', J, "  device_buffers = [\n      jax.device_put(arr, d) for arr, d in zip(per_device_arrays, local_devices)\n  ]\n  return device_buffers", "  buffers = []\n  for d, arr in zip(local_devices, per_device_arrays):\n    buffers.append(jax.device_put(arr, d))\n  return buffers"),
    ('q-helper24', 'C24', J, "    global_shape = (x.shape[0] * jax.process_count(),) + x.shape[1:]\n", "    global_shape = _global(x.shape)\n", "    shape = (shape[0] * jax.process_count(),) + shape[1:]\n", "    shape = _global(shape)\n", "def prefetch_to_device(", "def _global(s):\n  return (s[0] * jax.process_count(), *s[1:])\n\n\ndef prefetch_to_device("),
    ('q-pos', 'C24', J, "  if size and size > 0:", "  prefetching = size is not None and size > 0\n  if prefetching:"),
    ('q-neg', 'C24', J, "  if size and size > 0:\n", "  if not size or size < 0:\n    for data in iterator:\n      yield jax.tree_util.tree_map(_to_global, data)\n  else:\n", "  else:\n    # If size is None, 0 or negative, simply create jax.Arrays without\n    # prefetching.\n    for data in iterator:\n      yield jax.tree_util.tree_map(_to_global, data)\n", ""),
]
