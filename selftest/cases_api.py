PT = 'vmoe/checkpoints/partitioned.py'
BS = 'vmoe/checkpoints/base.py'
FIRE = [
    ('hostcopy-lost', 'C05', PT, '''      lac.chunks[i] = [
          (id_to_array[id(arr)], ls, gs) for arr, ls, gs in lst
      ]
''', '''      _ = [
          (id_to_array[id(arr)], ls, gs) for arr, ls, gs in lst
      ]
'''),
    ('tmp-other', 'C01', BS, "'.tmp.' + os.path.basename(filepath)", "'.tmp._' + os.path.basename(filepath)"),
    ('api-default-ow', 'C38', BS, '''                    overwrite: bool = True,
                    makedirs: bool = True) -> str:''', '''                    overwrite: bool = False,
                    makedirs: bool = True) -> str:'''),
    ('api-makedirs-never', 'C38', BS, 'if makedirs and not gfile.exists(wdir):', 'if makedirs and gfile.exists(wdir):'),
    ('api-makedirs-always', 'C38', BS, 'if makedirs and not gfile.exists(wdir):', 'if not gfile.exists(wdir):'),
    ('api-makedirs-late', 'C38', BS, '''  if makedirs and not gfile.exists(wdir):
    gfile.makedirs(wdir)

''', '', '''  gfile.rename(temp_filepath, filepath, overwrite=overwrite)''', '''  if makedirs and not gfile.exists(wdir):
    gfile.makedirs(wdir)
  gfile.rename(temp_filepath, filepath, overwrite=overwrite)'''),
    ('api-target-test', 'C38', BS, '''  if tree is None:
    return serialization.msgpack_restore''', '''  if not tree:
    return serialization.msgpack_restore'''),
    ('api-target-ignored', 'C38', BS, 'return serialization.from_bytes(tree, checkpoint_contents)', 'return serialization.msgpack_restore(checkpoint_contents)'),
    ('api-async-kwds', 'C38', BS, 'kwds=dict(overwrite=overwrite, makedirs=makedirs))', 'kwds=dict(overwrite=overwrite))'),
    ('api-async-kwds2', 'C38', BS, 'kwds=dict(overwrite=overwrite, makedirs=makedirs))', 'kwds=dict(overwrite=makedirs, makedirs=overwrite))'),
    ('api-multi-ow', 'C38', BS, 'save_checkpoint, overwrite=overwrite, makedirs=makedirs)', 'save_checkpoint, makedirs=makedirs)'),
    ('api-multi-restore', 'C38', BS, 'lambda item: restore_checkpoint(item[0], item[1])', 'lambda item: restore_checkpoint(item[0])'),
    ('api-remove-inverted', 'C38', BS, 'if match_fn(filepath):', 'if not match_fn(filepath):'),
    ('api-remove-exists', 'C38', BS, 'if match_fn(filepath):', "if match_fn(filepath) and '.tmp.' not in filepath:"),
    ('api-part-mkdir', 'C38', PT, '''  if makedirs:
    _make_dir_sync''', '''  if not makedirs:
    _make_dir_sync'''),
    ('api-part-mkdir-always', 'C38', PT, '''  if makedirs:
    _make_dir_sync(os.path.dirname(prefix))''', '''  _make_dir_sync(os.path.dirname(prefix))'''),
    ('api-part-ow', 'C38', PT, '''      overwrite=overwrite,
      makedirs=False,
      thread_pool=thread_pool)''', '''      makedirs=False,
      thread_pool=thread_pool)'''),
    ('api-part-proc1', 'C38', PT, '''  if jax.process_index() == 0:
    base.gfile.makedirs(workdir)''', '''  if jax.process_index() == jax.process_count() - 1:
    base.gfile.makedirs(workdir)'''),
    ('api-part-nobarrier', 'C38', PT, "  multihost_utils.sync_devices(f'checkpoints:mkdir:{workdir}')\n", ''),
    ('api-part-barrier0', 'C38', PT, "  multihost_utils.sync_devices(f'checkpoints:mkdir:{workdir}')\n", "    multihost_utils.sync_devices(f'checkpoints:mkdir:{workdir}')\n"),
    ('api-version-any', 'C38', PT, '  if version == Version.V1:\n', '  if version != Version.UNKNOWN:\n' if False else '  if version:\n' if False else '  if True:\n'),
    ('api-version-noraise', 'C38', PT, "  raise NotImplementedError(f'Unsupported checkpoint version: {version!r}')\n", ''),
    ('api-version-default', 'C38', PT, "index.get('version', Version.UNKNOWN)", "index.get('version', Version.V1)"),
    ('api-unknown-notree', 'C38', PT, '''  if tree is None:
    raise ValueError(
        'You must''', '''  if not prefix:
    raise ValueError(
        'You must'''),
    ('api-unknown-index', 'C38', PT, '  index = from_state_dict(target=tree, state=index)\n', ''),
    ('api-sharding-default', 'C38', PT, "if hasattr(arr, 'sharding'):", "if hasattr(arr, 'addressable_shards'):"),
    ('api-v1-sharding', 'C38', PT, '''    sharding = tree_map(_get_array_sharding_or_default, tree)
    sharding_state_dict = to_state_dict(sharding)
''', '''    sharding = tree_map(_get_array_sharding_or_default, index)
    sharding_state_dict = to_state_dict(sharding)
'''),
    ('api-v1-struct', 'C38', PT, '  return from_state_dict(target=sharding, state=state_dict)\n', '  return state_dict\n'),
    ('api-struct-unchecked', 'C38', PT, '  if struct != struct2:\n', '  if len(index) != len(shardings):\n'),
    ('api-limit-add', 'C38', PT, 'max(max_chunk_bytes // arr.dtype.itemsize, 1)', 'max(max_chunk_bytes // arr.ndim, 1)'),
    ('api-limit-ignored', 'C38', PT, 'if max_chunk_bytes and max_chunk_bytes >= 1:', 'if max_chunk_bytes and max_chunk_bytes < 1:'),
    ('api-size', 'C38', PT, '''  shape = tuple(s.stop - s.start for s in slicend)
  chunk_items = np.prod(shape)''', '''  shape = tuple(s.stop for s in slicend)
  chunk_items = np.prod(shape)'''),
    ('api-unordered', 'C38', PT, 'arrays = thread_pool.map(_make_jax_array, range(len(index)))', 'arrays = list(thread_pool.imap_unordered(_make_jax_array, range(len(index))))'),
]
QUIET = [
    ('api-q-helper', 'C38', BS, '''  wdir = os.path.dirname(filepath)
  if makedirs and not gfile.exists(wdir):
    gfile.makedirs(wdir)
''', '''  wdir = os.path.dirname(filepath)
  if makedirs:
    _ensure_dir(wdir)
''', '''def save_checkpoint_async(''', '''def _ensure_dir(path):
  if gfile.exists(path):
    return
  gfile.makedirs(path)


def save_checkpoint_async('''),
    ('api-q-uncond', 'C38', BS, '''  if makedirs and not gfile.exists(wdir):
''', '''  if makedirs:
'''),
    ('api-q-restore', 'C38', BS, '''  if tree is None:
    return serialization.msgpack_restore(checkpoint_contents)
  else:
    return serialization.from_bytes(tree, checkpoint_contents)
''', '''  if tree is not None:
    return serialization.from_bytes(target=tree, encoded_bytes=checkpoint_contents)
  return serialization.msgpack_restore(checkpoint_contents)
'''),
    ('api-q-restore2', 'C38', BS, '''    checkpoint_contents = fp.read()
  if tree is None:
    return serialization.msgpack_restore(checkpoint_contents)
  else:
    return serialization.from_bytes(tree, checkpoint_contents)
''', '''    data = fp.read()
  decode = serialization.msgpack_restore if tree is None else functools.partial(
      serialization.from_bytes, tree)
  return decode(data)
'''),
    ('api-q-async-lambda', 'C38', BS, '''      save_checkpoint,
      args=(filepath, tree),
      kwds=dict(overwrite=overwrite, makedirs=makedirs))
''', '''      lambda: save_checkpoint(
          filepath, tree, overwrite=overwrite, makedirs=makedirs))
'''),
    ('api-q-async-kwds', 'C38', BS, '''  return thread_pool.apply_async(
      save_checkpoint,
      args=(filepath, tree),
      kwds=dict(overwrite=overwrite, makedirs=makedirs))
''', '''  options = {'overwrite': overwrite, 'makedirs': makedirs}
  return thread_pool.apply_async(save_checkpoint, (filepath, tree), options)
'''),
    ('api-q-multi', 'C38', BS, '''  fn = functools.partial(
      save_checkpoint, overwrite=overwrite, makedirs=makedirs)
  return thread_pool.map_async(
      lambda args: fn(*args), filepath_tree_map.items())''', '''  def _save(item):
    path, tree = item
    return save_checkpoint(
        path, tree, overwrite=overwrite, makedirs=makedirs)
  return thread_pool.map_async(_save, list(filepath_tree_map.items()))'''),
    ('api-q-remove', 'C38', BS, '''  def remove(filepath):
    if match_fn(filepath):
      gfile.remove(filepath)

  thread_pool = ThreadPool() if thread_pool is None else thread_pool
  thread_pool.map(remove, filepaths)
''', '''  if thread_pool is None:
    thread_pool = ThreadPool()
  to_remove = [f for f in filepaths if match_fn(f)]
  thread_pool.map(gfile.remove, to_remove)
'''),
    ('api-q-remove2', 'C38', BS, '''    if match_fn(filepath):
      gfile.remove(filepath)
''', '''    if not match_fn(filepath):
      return
    gfile.remove(filepath)
'''),
    ('api-q-version', 'C38', PT, '''  if version == Version.UNKNOWN:
    return _restore_checkpoint_from_index_unknown(
        prefix, shard_count, index, tree, thread_pool=thread_pool,
        max_concurrent_bytes=max_concurrent_bytes)
  if version == Version.V1:
    return _restore_checkpoint_from_index_v1(
        prefix, shard_count, index, tree, thread_pool=thread_pool,
        max_concurrent_bytes=max_concurrent_bytes)
  raise NotImplementedError(f'Unsupported checkpoint version: {version!r}')
''', '''  if version is Version.V1:
    restore_fn = _restore_checkpoint_from_index_v1
  elif version is Version.UNKNOWN:
    restore_fn = _restore_checkpoint_from_index_unknown
  else:
    raise NotImplementedError(f'Unsupported checkpoint version: {version!r}')
  return restore_fn(
      prefix, shard_count, index, tree, thread_pool=thread_pool,
      max_concurrent_bytes=max_concurrent_bytes)
'''),
    ('api-q-version2', 'C38', PT, '''  if version == Version.UNKNOWN:
    return _restore_checkpoint_from_index_unknown(
        prefix, shard_count, index, tree, thread_pool=thread_pool,
        max_concurrent_bytes=max_concurrent_bytes)
  if version == Version.V1:
    return _restore_checkpoint_from_index_v1(
        prefix, shard_count, index, tree, thread_pool=thread_pool,
        max_concurrent_bytes=max_concurrent_bytes)
  raise NotImplementedError(f'Unsupported checkpoint version: {version!r}')
''', '''  restore_fns = {
      Version.UNKNOWN: _restore_checkpoint_from_index_unknown,
      Version.V1: _restore_checkpoint_from_index_v1,
  }
  if version not in restore_fns:
    raise NotImplementedError(f'Unsupported checkpoint version: {version!r}')
  return restore_fns[version](
      prefix, shard_count, index, tree, thread_pool=thread_pool,
      max_concurrent_bytes=max_concurrent_bytes)
'''),
    ('api-q-sharding', 'C38', PT, '''  if hasattr(arr, 'sharding'):
    return arr.sharding
  else:
    return NamedSharding(Mesh(jax.devices(), 'x'), PartitionSpec())
''', '''  if not hasattr(arr, 'sharding'):
    mesh = Mesh(jax.devices(), 'x')
    return NamedSharding(mesh, PartitionSpec())
  return arr.sharding
'''),
    ('api-q-v1', 'C38', PT, '''  if tree is not None:
    sharding = tree_map(_get_array_sharding_or_default, tree)
    sharding_state_dict = to_state_dict(sharding)
  else:
    sharding = tree_map(_get_array_sharding_or_default, index)
    sharding_state_dict = sharding
''', '''  source = index if tree is None else tree
  sharding = tree_map(_get_array_sharding_or_default, source)
  sharding_state_dict = sharding if tree is None else to_state_dict(sharding)
'''),
    ('api-q-mkdir', 'C38', PT, '''  if makedirs:
    _make_dir_sync(os.path.dirname(prefix))
''', '''  if makedirs:
    workdir = os.path.dirname(prefix)
    if jax.process_index() == 0:
      base.gfile.makedirs(workdir)
    multihost_utils.sync_devices(f'checkpoints:mkdir:{workdir}')
'''),
    ('api-q-limit', 'C38', PT, '''  if max_chunk_bytes and max_chunk_bytes >= 1:
    max_chunk_items = max(max_chunk_bytes // arr.dtype.itemsize, 1)
  else:
    max_chunk_items = None
''', '''  max_chunk_items = None
  if max_chunk_bytes is not None and max_chunk_bytes > 0:
    max_chunk_items = max(1, max_chunk_bytes // arr.dtype.itemsize)
'''),
    ('api-q-arrays', 'C38', PT, '''    shape, sharding = index[i].global_shape.shape, shardings[i]
    cb = lambda idx: local_buffers[i][_shard_index_to_slicend(idx, shape)]
    array = jax.make_array_from_callback(shape, sharding, cb)
    local_buffers[i] = None
    return array
''', '''    info = index[i]
    shape = info.global_shape.shape
    def _get_shard(idx):
      return local_buffers[i][_shard_index_to_slicend(idx, shape)]
    array = jax.make_array_from_callback(shape, shardings[i], _get_shard)
    local_buffers[i] = None
    return array
'''),
]
