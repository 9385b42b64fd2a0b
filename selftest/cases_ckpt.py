PT = 'vmoe/checkpoints/partitioned.py'
BS = 'vmoe/checkpoints/base.py'
SE = 'vmoe/checkpoints/serialization.py'
TY = 'vmoe/checkpoints/types.py'
TY_ = 'vmoe/checkpoints/types.py'
FIRE = [
    ('ty-tuple', 'C04', TY_, "self._slice.start, self._slice.stop, self._slice.step)", "self._slice.start, self._slice.stop)"),
    ('ty-eq', 'C04', TY_, "return self.tuple == other.tuple", "return self.tuple[0] == other.tuple[0]"),
    ('ty-lt', 'C04', TY_, "return self.tuple < other.tuple", "return self.tuple <= other.tuple"),
    ('ty-hash', 'C04', TY_, "return hash(self.tuple)", "return id(self)"),
    ('ty-tile', 'C04', TY_, "      array = np.tile(array, tile)", "      array = np.repeat(array, tile)"),
    ('ty-zip', 'C03', TY_, "return vmoe.utils.safe_zip(chunks, global_slices)", "return zip(chunks, global_slices)"),
    ('ty-new', 'C04', TY_, "map(Slice, args[0])", "map(Slice, args[0][:2])"),
    ('ty-place', 'C04', TY_, "      array[i] = SliceNd(slice_axes)", "      array[-i] = SliceNd(slice_axes)"),
    ('ty-step', 'C04', TY_, "self._slice = args[0]._slice", "self._slice = slice(args[0].start, args[0].stop)"),
    ('intersect-lt', 'C04', PT, 'if stop <= start:', 'if stop < start - 1:'),
    ('intersect-max-min', 'C04', PT, 'start = max(s_a.start or 0, s_b.start or 0)', 'start = min(s_a.start or 0, s_b.start or 0)'),
    ('local-offset-wrong-base', 'C04', PT, 'for a, b in safe_zip(intersect_slice, global_slice))', 'for a, b in safe_zip(intersect_slice, ckpt_slice))'),
    ('split-step', 'C04', PT, 'Slice(j, j + step)', 'Slice(j, j + step - 1)'),
    ('split-range', 'C04', PT, 'for j in range(start, stop, step)]', 'for j in range(start, stop - step, step)]'),
    ('split-divisor', 'C04', PT, 'if size % s == 0 and chunk_items // s <= max_chunk_items', 'if chunk_items // s <= max_chunk_items'),
    ('split-local-start', 'C04', PT, 'start, stop, step = slicend[i].start, slicend[i].stop, size // splits', 'start, stop, step = 0, size, size // splits'),
    ('shard-index-none', 'C04', PT, 'Slice(s.start or 0, size if s.stop is None else s.stop)', 'Slice(s.start or 0, size)'),
    ('find-only-first', 'C04', PT, '        yield ckpt_shard\n', '        yield ckpt_shard\n        break\n'),
    ('find-equal-only', 'C04', PT, '          _intersect_slicend(global_slice, ckpt_slice)):', '          global_slice < ckpt_slice):'),
    ('owner-mod', 'C05', PT, 'if i % jax.process_count() in processes][0]', 'if i // jax.process_count() in processes][0]'),
    ('owner-dict', 'C05', PT, 'if i % jax.process_count() == jax.process_index()', 'if i % jax.local_device_count() == jax.process_index()'),
    ('index-unsorted-shards', 'C05', PT, 'shards = [slicend_to_ckpt_shards[slicend] for slicend in global_slices]', 'shards = list(slicend_to_ckpt_shards.values())'),
    ('data-name', 'C05', PT, "filepath=prefix + '.data',\n      shard_count=shard_count)", "filepath=prefix + '.data',\n      shard_count=len(ckpt_shard_to_lazy_array_chunks))"),
    ('processes-local', 'C05', PT, 'set([s.device.process_index for s in shards])', 'set([s.device.process_index for s in shards[:1]])' if False else 'set([s.device.id for s in shards])'),
    ('tmp-name', 'C01', BS, 'gfile.rename(temp_filepath', 'gfile.copy(temp_filepath'),
    ('encode-swap', 'C03', SE, 'return [subchunks, global_slice]', 'return [subchunks[::-1], global_slice]'),
    ('decode-transpose', 'C03', SE, 'return flat_chunk.reshape(shape), global_slice', "return flat_chunk.reshape(shape, order='F'), global_slice"),
]
QUIET = [
    ('q-ty-hash', 'C04,C03', TY_, "return hash(self.tuple)", "return hash((self.start, self.stop, self.step))", "return self.tuple == other.tuple", "return (self.start, self.stop, self.step) == (other.start, other.stop, other.step)"),
    ('q-ty-new', 'C04,C03', TY_, "map(Slice, args[0])", "[Slice(a) for a in args[0]]"),
    ('q-ty-create', 'C04,C03', TY_, "    for i, slice_axes in enumerate(slices):\n      array[i] = SliceNd(slice_axes)\n    if shape:\n      array = array.reshape(shape)\n", "    for i in range(len(slices)):\n      array[i] = SliceNd(slices[i])\n    array = np.reshape(array, shape) if shape else array\n"),
    ('intersect-helper', 'C04', PT, '''    start = max(s_a.start or 0, s_b.start or 0)
    stop = min(np.inf if s_a.stop is None else s_a.stop,
               np.inf if s_b.stop is None else s_b.stop)
    if stop <= start:
      return None
    output.append(Slice(start, None if stop == np.inf else stop))
  return SliceNd(output)
''', '''    lo = max(s_b.start or 0, s_a.start or 0)
    hi = min(_stop_or_inf(s_a), _stop_or_inf(s_b))
    if not lo < hi:
      return None
    if hi == np.inf:
      output.append(Slice(lo, None))
    else:
      output.append(Slice(lo, hi))
  return SliceNd(output)


def _stop_or_inf(s):
  if s.stop is None:
    return np.inf
  return s.stop
'''),
    ('global2local-helper', 'C04', PT, '''          local_intersect_slice = tuple(
              slice(a.start - b.start, a.stop - b.start)
              for a, b in safe_zip(intersect_slice, global_slice))
          ckpt_intersect_slice = tuple(
              slice(a.start - b.start, a.stop - b.start)
              for a, b in safe_zip(intersect_slice, ckpt_slice))
          buffer[local_intersect_slice] = ckpt_chunk[ckpt_intersect_slice]
''', '''          src = _relative(intersect_slice, ckpt_slice)
          dst = _relative(intersect_slice, global_slice)
          buffer[dst] = ckpt_chunk[src]


def _relative(inner, outer):
  out = []
  for a, b in safe_zip(inner, outer):
    offset = b.start
    out.append(slice(a.start - offset, a.stop - offset))
  return tuple(out)
'''),
    ('restore-continue', 'C04', PT, '''        if intersect_slice is not None:
          local_intersect_slice = tuple(
              slice(a.start - b.start, a.stop - b.start)
              for a, b in safe_zip(intersect_slice, global_slice))
          ckpt_intersect_slice = tuple(
              slice(a.start - b.start, a.stop - b.start)
              for a, b in safe_zip(intersect_slice, ckpt_slice))
          buffer[local_intersect_slice] = ckpt_chunk[ckpt_intersect_slice]
''', '''        if intersect_slice is None:
          continue
        local_intersect_slice = tuple(
            slice(a.start - b.start, a.stop - b.start)
            for a, b in safe_zip(intersect_slice, global_slice))
        ckpt_intersect_slice = tuple(
            slice(a.start - b.start, a.stop - b.start)
            for a, b in safe_zip(intersect_slice, ckpt_slice))
        buffer[local_intersect_slice] = ckpt_chunk[ckpt_intersect_slice]
'''),
    ('find-loop-any', 'C04,C05', PT, '''      if (global_slice == ckpt_slice or  # account for scalar with shape ().
          _intersect_slicend(global_slice, ckpt_slice)):
        yield ckpt_shard
''', '''      overlap = _intersect_slicend(global_slice, ckpt_slice)
      if not overlap and global_slice != ckpt_slice:
        continue
      yield ckpt_shard
'''),
    ('split-loops', 'C04', PT, '''    start, stop, step = slicend[i].start, slicend[i].stop, size // splits
    chunks = [chunk[:i] + (Slice(j, j + step),) + chunk[i + 1:]
              for chunk in chunks for j in range(start, stop, step)]
''', '''    dim = slicend[i]
    step = size // splits
    new_chunks = []
    for chunk in chunks:
      for j in range(dim.start, dim.stop, step):
        new_chunks.append(chunk[:i] + (Slice(j, j + step),) + chunk[i + 1:])
    chunks = new_chunks
'''),
    ('smallest-min', 'C05', PT, '''  bytes_per_ckpt_shard = [(b, i) for i, b in enumerate(bytes_per_ckpt_shard)]
  bytes_per_ckpt_shard = sorted(bytes_per_ckpt_shard)
  # The i-th ckpt shard is handled by the process index = i % process_count.
  # From the previous sorted bytes_per_ckpt_shard, ignore all shards that aren't
  # handled by one of the given processes.
  return [
      i for _, i in bytes_per_ckpt_shard
      if i % jax.process_count() in processes][0]
''', '''  candidates = [
      (size, shard) for shard, size in enumerate(bytes_per_ckpt_shard)
      if shard % jax.process_count() in processes
  ]
  return min(candidates)[1]
'''),
    ('index-info-zip', 'C05', PT, '''  global_slices = sorted(slicend_to_ckpt_shards.keys())
  shards = [slicend_to_ckpt_shards[slicend] for slicend in global_slices]
''', '''  global_slices = sorted(slicend_to_ckpt_shards)
  shards = []
  for key in global_slices:
    shards.append(slicend_to_ckpt_shards[key])
'''),
    ('index-info-items', 'C05', PT, '''  global_slices = sorted(slicend_to_ckpt_shards.keys())
  shards = [slicend_to_ckpt_shards[slicend] for slicend in global_slices]
''', '''  pairs = sorted(slicend_to_ckpt_shards.items())
  global_slices = [s for s, _ in pairs]
  shards = [n for _, n in pairs]
'''),
    ('owner-dict-loop', 'C05', PT, '''  ckpt_shard_to_lazy_array_chunks = {
      i: LazyArrayChunks()
      for i in range(num_shards)
      if i % jax.process_count() == jax.process_index()
  }
''', '''  ckpt_shard_to_lazy_array_chunks = {}
  num_processes = jax.process_count()
  process_index = jax.process_index()
  for i in range(num_shards):
    if i % num_processes != process_index:
      continue
    ckpt_shard_to_lazy_array_chunks[i] = LazyArrayChunks()
'''),
    ('owner-dict-stride', 'C05', PT, '''      for i in range(num_shards)
      if i % jax.process_count() == jax.process_index()
''', '''      for i in range(jax.process_index(), num_shards, jax.process_count())
'''),
    ('fpath-lambda', 'C05', PT, '''  shard_fpath_fn = functools.partial(
      base.add_shard_suffix,
      filepath=prefix + '.data',
      shard_count=shard_count)
  filepath_to_data = {
      shard_fpath_fn(shard=ckpt_shard): obj
      for ckpt_shard, obj in ckpt_shard_to_lazy_array_chunks.items()
  }
''', '''  filepath_to_data = {}
  for ckpt_shard, obj in ckpt_shard_to_lazy_array_chunks.items():
    path = base.add_shard_suffix(f'{prefix}.data', ckpt_shard, shard_count)
    filepath_to_data[path] = obj
'''),
    ('encode-loop', 'C03', SE, '''    subchunks = [
        chunk[i:i + subchunk_size]
        for i in range(0, max(1, chunk.size), subchunk_size)
    ]
''', '''    subchunks = []
    for begin in range(0, max(1, chunk.size), subchunk_size):
      end = begin + subchunk_size
      subchunks.append(chunk[begin:end])
'''),
    ('state-comp', 'C03', SE, '''  for array_index in lazy_array_chunks.chunks.keys():
    state[str(array_index)] = list(
        map(_encode_chunk, lazy_array_chunks.iter_chunks(array_index)))
''', '''  for array_index in lazy_array_chunks.chunks:
    encoded = [_encode_chunk(p) for p in lazy_array_chunks.iter_chunks(array_index)]
    state[str(array_index)] = encoded
'''),
]
