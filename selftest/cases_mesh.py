Q = 'vmoe/partitioning.py'
RED2 = "shape = functools.reduce(lambda a, b: a + b, zip(partitions, replicas))"
TR2 = "devices.transpose(tuple(range(0, 2 * hardware_mesh.ndim, 2)) +\n                              tuple(range(1, 2 * hardware_mesh.ndim, 2)))"
LOOP = """    for regex, partition_spec in axis_resources_regexes:
      if regex.search(key) and np.prod(value.shape) > 1:
        return partition_spec
    return PartitionSpec()
"""
AXES = """  replicas = tuple(reversed(replicas))
  partitions = tuple(reversed(partitions))
  hardware_axes_order = tuple(reversed(range(hardware_mesh.ndim)))
  hardware_mesh = hardware_mesh.transpose(hardware_axes_order)
"""
FIRE = [
    ('me-tr', 'C26', Q, TR2, "devices.transpose(tuple(range(1, 2 * hardware_mesh.ndim, 2)) +\n                              tuple(range(0, 2 * hardware_mesh.ndim, 2)))"),
    ('me-notr', 'C26', Q, "  devices = " + TR2 + "\n", ""),
    ('me-red', 'C26', Q, RED2, RED2.replace('zip(partitions, replicas)', 'zip(replicas, partitions)')),
    ('me-rowcol', 'C26', Q, "  devices = devices.reshape((num_partitions, num_replicas))\n  return Mesh(devices=devices, axis_names=('expert', 'replica'))\n\n\ndef get_logical_mesh_tile", "  devices = devices.reshape((num_replicas, num_partitions)).transpose()\n  return Mesh(devices=devices, axis_names=('expert', 'replica'))\n\n\ndef get_logical_mesh_tile"),
    ('me-axes', 'C26', Q, "  devices = devices.reshape((num_partitions, num_replicas))\n  return Mesh(devices=devices, axis_names=('expert', 'replica'))\n\n\ndef get_logical_mesh_tile", "  devices = devices.reshape((num_partitions, num_replicas))\n  return Mesh(devices=devices, axis_names=('replica', 'expert'))\n\n\ndef get_logical_mesh_tile"),
    ('me-norevr', 'C26', Q, "  replicas = tuple(reversed(replicas))\n", ""),
    ('me-norevp', 'C26', Q, "  partitions = tuple(reversed(partitions))\n", ""),
    ('me-norevl', 'C26', Q, "tuple(reversed(get_hardware_mesh_local_shape()))", "get_hardware_mesh_local_shape()"),
    ('me-notile', 'C26', Q, "  if not processes_have_contiguous_device_slices(logical_mesh.devices):", "  if processes_have_contiguous_device_slices(logical_mesh.devices):"),
    ('me-fn1', 'C26', Q, "      return p // l, l, r, 1\n", "      return p // l, l, 1, r\n"),
    ('me-fn2', 'C26', Q, "      return 1, p, r // l, l\n", "      return 1, p, l, r // l\n"),
    ('me-fn3', 'C26', Q, "      return p // l, l, r, 1\n", "      return l, p // l, r, 1\n"),
    ('me-fn4', 'C26', Q, "    elif r % l == 0:\n      return 1, p, r // l, l\n    else:\n", "    elif r >= l:\n      return 1, p, r // l, l\n    else:\n"),
    ('me-tile-tr', 'C26', Q, "                              tuple(range(2, 4 * hardware_mesh.ndim, 4)) +\n                              tuple(range(3, 4 * hardware_mesh.ndim, 4)))", "                              tuple(range(3, 4 * hardware_mesh.ndim, 4)) +\n                              tuple(range(2, 4 * hardware_mesh.ndim, 4)))"),
    ('me-slice', 'C26', Q, "slice(i, j+1)", "slice(i, j)"),
    ('me-any', 'C26', Q, "return is_local_device[s].all()", "return is_local_device[s].any()"),
    ('me-anyp', 'C26', Q, "  return all(\n      process_has", "  return any(\n      process_has"),
    ('me-axis0', 'C26', Q, "np.max(local_device_indices, axis=1)", "np.max(local_device_indices, axis=0)"),
    ('me-clamp', 'C26', Q, "    num_partitions = num_devices\n", "    num_partitions = 1\n"),
    ('me-clamp2', 'C26', Q, "  if num_partitions > num_devices:", "  if num_partitions < num_devices:"),
    ('me-noprod', 'C26', Q, "  if (d * h != num_partitions or\n      any(s % p != 0 for p, s in zip((d, h), hardware_mesh_shape))):", "  if any(s % p != 0 for p, s in zip((d, h), hardware_mesh_shape)):"),
    ('me-nomod', 'C26', Q, "  if (d * h != num_partitions or\n      any(s % p != 0 for p, s in zip((d, h), hardware_mesh_shape))):", "  if d * h != num_partitions:"),
    ('me-and', 'C26', Q, "  if (d * h != num_partitions or\n", "  if (d * h != num_partitions and\n"),
    ('me-and4', 'C26', Q, "  if (c * x * y * z != num_partitions or\n", "  if (c * x * y * z != num_partitions and\n"),
    ('me-noc', 'C26', Q, "  if (c * x * y * z != num_partitions or\n", "  if (x * y * z > num_partitions or\n"),
    ('me-perm', 'C26', Q, "zip((c, x, y, z), hardware_mesh_shape)", "zip((x, y, z, c), hardware_mesh_shape)"),
    ('me-d0', 'C26', Q, "  d = min(num_partitions, hardware_mesh_shape[0])\n  h = min(num_partitions // d, hardware_mesh_shape[1])\n", "  h = min(num_partitions, hardware_mesh_shape[1])\n  d = min(num_partitions // h, hardware_mesh_shape[0])\n"),
    ('me-order', 'C26', Q, "    z = min(num_partitions, hardware_mesh_shape[3])\n    y = min(num_partitions // z, hardware_mesh_shape[2])\n", "    y = min(num_partitions, hardware_mesh_shape[2])\n    z = min(num_partitions // y, hardware_mesh_shape[3])\n"),
    ('me-yidx', 'C26', Q, "    y = min(num_partitions // z, hardware_mesh_shape[2])\n", "    y = min(num_partitions // z, hardware_mesh_shape[1])\n"),
    ('me-cdiv', 'C26', Q, "    c = min(num_partitions // (x * y), hardware_mesh_shape[0])", "    c = min(num_partitions // (x + y), hardware_mesh_shape[0])"),
    ('me-args', 'C26', Q, "  return get_logical_mesh((d, h), hardware_mesh)", "  return get_logical_mesh((h, d), hardware_mesh)"),
    ('me-args4', 'C26', Q, "  return get_logical_mesh((c, x, y, z), hardware_mesh)", "  return get_logical_mesh((x, c, y, z), hardware_mesh)"),
    ('me-dev', 'C26', Q, "                                       get_hardware_mesh_other(devices))", "                                       get_hardware_mesh_other(jax.devices()))"),
    ('me-coord', 'C26', Q, "    mesh[(c, x, y, z)] = device", "    mesh[(c, y, x, z)] = device"),
    ('me-room', 'C26', Q, "np.empty((nc, nx, ny, nz), dtype=object)", "np.empty((nc, ny, nx, nz), dtype=object)"),
    ('me-pidx', 'C26', Q, "(device.id % jax.local_device_count(), device.process_index)", "(device.process_index, device.id % jax.local_device_count())"),
    ('me-plat', 'C26', Q, "  if device.platform == 'tpu':\n    return get_device_coords_tpu", "  if device.platform != 'gpu':\n    return get_device_coords_tpu"),
    ('me-lens', 'C26', Q, "len(set(c)) for c", "len(c) for c"),
    ('pr-match', 'C27', Q, "regex.search(key)", "regex.match(key)"),
    ('pr-full', 'C27', Q, "regex.search(key)", "regex.fullmatch(key)"),
    ('pr-last', 'C27', Q, LOOP, "    result = PartitionSpec()\n    for regex, partition_spec in axis_resources_regexes:\n      if regex.search(key) and np.prod(value.shape) > 1:\n        result = partition_spec\n    return result\n"),
    ('pr-rev', 'C27', Q, "    for regex, partition_spec in axis_resources_regexes:\n", "    for regex, partition_spec in reversed(axis_resources_regexes):\n"),
    ('pr-size', 'C27', Q, "np.prod(value.shape) > 1", "np.prod(value.shape) > 0"),
    ('pr-size2', 'C27', Q, "np.prod(value.shape) > 1", "value.ndim > 1"),
    ('pr-nosize', 'C27', Q, "regex.search(key) and np.prod(value.shape) > 1", "regex.search(key)"),
    ('pr-or', 'C27', Q, "regex.search(key) and np.prod(value.shape) > 1", "regex.search(key) or np.prod(value.shape) > 1"),
    ('pr-empty', 'C27', Q, ", keep_empty_nodes=True, sep='/')", ", sep='/')"),
    ('pr-empty2', 'C27', Q, "    if value is flax.traverse_util.empty_node:\n      return value\n", "    if value is flax.traverse_util.empty_node:\n      return PartitionSpec()\n"),
    ('pr-sep', 'C27', Q, "keep_empty_nodes=True, sep='/')", "keep_empty_nodes=True, sep='.')", "unflatten_dict(axis_resources, sep='/')", "unflatten_dict(axis_resources, sep='.')"),
    ('pr-skip', 'C27', Q, "      for k, v in flat_tree_dict.items()\n", "      for k, v in flat_tree_dict.items() if not k.startswith('_')\n"),
    ('pr-default', 'C27', Q, LOOP, LOOP.replace("    return PartitionSpec()", "    return PartitionSpec('expert')")),
    ('pr-break', 'C27', Q, LOOP, "    for regex, partition_spec in axis_resources_regexes:\n      if regex.search(key):\n        return partition_spec if np.prod(value.shape) > 1 else PartitionSpec()\n      break\n    return PartitionSpec()\n"),
    ('pr-star', 'C27', Q, "  return PartitionSpec(*spec)", "  return PartitionSpec(spec)"),
    ('pr-str', 'C27', Q, "  spec = (spec,) if isinstance(spec, str) else tuple(spec)\n", "  spec = tuple(spec)\n"),
    ('pr-isp', 'C27', Q, "  if isinstance(spec, PartitionSpec):\n    return spec\n", "  if isinstance(spec, PartitionSpec):\n    return PartitionSpec(spec)\n"),
    ('pr-parse', 'C27', Q, "(re.compile(regex), parse_partition_spec(spec))", "(re.compile(regex), PartitionSpec(spec))"),
    ('pr-lower', 'C27', Q, "regex.search(key)", "regex.search(key.lower())"),
    ('pr-case', 'C27', Q, "re.compile(regex)", "re.compile(regex, re.IGNORECASE)"),
    ('pr-none', 'C27', Q, "  axis_resources = flax.serialization.from_state_dict(tree, axis_resources)\n", ""),
]
QUIET = [
    ('me-q-range', 'C26', Q, RED2, "shape = ()\n  for p, r in zip(partitions, replicas):\n    shape += (p, r)"),
    ('me-q-comp', 'C26', Q, RED2, "shape = tuple(x for pr in zip(partitions, replicas) for x in pr)"),
    ('me-q-tr', 'C26', Q, TR2, "devices.transpose([2 * k for k in range(hardware_mesh.ndim)] + [2 * k + 1 for k in range(hardware_mesh.ndim)])"),
    ('me-q-noprod', 'C26', Q, "  num_partitions = np.prod(partitions)\n  num_replicas = np.prod(replicas)\n  devices = devices.reshape((num_partitions, num_replicas))\n  return Mesh(devices=devices, axis_names=('expert', 'replica'))\n\n\ndef get_logical_mesh_tile", "  devices = devices.reshape((np.prod(partitions), -1))\n  return Mesh(devices, ('expert', 'replica'))\n\n\ndef get_logical_mesh_tile"),
    ('me-q-rev', 'C26', Q, AXES, "  replicas = replicas[::-1]\n  partitions = partitions[::-1]\n  hardware_mesh = hardware_mesh.transpose()\n"),
    ('me-q-T', 'C26', Q, AXES, "  replicas, partitions = replicas[::-1], partitions[::-1]\n  hardware_mesh = hardware_mesh.T\n"),
    ('me-q-local', 'C26', Q, "tuple(reversed(get_hardware_mesh_local_shape()))", "get_hardware_mesh_local_shape()[::-1]"),
    ('me-q-if', 'C26', Q, "  if not processes_have_contiguous_device_slices(logical_mesh.devices):\n    hardware_mesh_local_shape", "  if processes_have_contiguous_device_slices(logical_mesh.devices):\n    return logical_mesh\n  else:\n    hardware_mesh_local_shape"),
    ('me-q-min', 'C26', Q, "  if num_partitions > num_devices:\n", "  if num_partitions > num_devices:\n    pass\n  if num_devices < num_partitions:\n"),
    ('me-q-min2', 'C26', Q, "    num_partitions = num_devices\n", "  num_partitions = min(num_partitions, num_devices)\n"),
    ('me-q-other', 'C26', Q, "  if (d * h != num_partitions or\n      any(s % p != 0 for p, s in zip((d, h), hardware_mesh_shape))):", "  exact = d * h == num_partitions\n  divides = all(s % p == 0 for p, s in zip((d, h), hardware_mesh_shape))\n  if not (exact and divides):"),
    ('me-q-mod', 'C26', Q, "any(s % p != 0 for p, s in zip((d, h), hardware_mesh_shape))", "hardware_mesh_shape[0] % d or hardware_mesh_shape[1] % h"),
    ('me-q-div', 'C26', Q, "    c = min(num_partitions // (z * y * x), hardware_mesh_shape[0])", "    c = min(num_partitions // z // y // x, hardware_mesh_shape[0])"),
    ('me-q-loop', 'C26', Q, "    mesh[(c, x, y, z)] = device", "    mesh[c, x, y, z] = device"),
    ('me-q-coord', 'C26', Q, "  for (d, h), device in mesh_dict.items():\n    mesh[(d, h)] = device\n", "  for coords, device in mesh_dict.items():\n    mesh[coords] = device\n"),
    ('me-q-slices', 'C26', Q, "  s = tuple(map(lambda i, j: slice(i, j+1),\n                np.min(local_device_indices, axis=1),\n                np.max(local_device_indices, axis=1)))\n", "  lo = np.min(local_device_indices, axis=1)\n  hi = np.max(local_device_indices, axis=1) + 1\n  s = tuple(slice(i, j) for i, j in zip(lo, hi))\n"),
    ('me-q-slices2', 'C26', Q, "  s = tuple(map(lambda i, j: slice(i, j+1),\n                np.min(local_device_indices, axis=1),\n                np.max(local_device_indices, axis=1)))\n  return is_local_device[s].all()", "  lo, hi = local_device_indices.min(axis=1), local_device_indices.max(axis=1)\n  s = tuple(slice(i, j + 1) for i, j in zip(lo, hi))\n  return np.all(is_local_device[s])"),
    ('me-q-allp', 'C26', Q, "  return all(\n      process_has_contiguous_device_slice(devices, process_index)\n      for process_index in process_indices)", "  for process_index in process_indices:\n    if not process_has_contiguous_device_slice(devices, process_index):\n      return False\n  return True"),
    ('me-q-fn', 'C26', Q, "    elif r % l == 0:\n      return 1, p, r // l, l\n    else:\n      raise", "    if not r % l:\n      return (1, p, r // l, l)\n    if True:\n      raise"),
    ('pr-q-re', 'C27', Q, "(re.compile(regex), parse_partition_spec(spec))", "(regex, parse_partition_spec(spec))", "regex.search(key)", "re.search(regex, key)"),
    ('pr-q-size', 'C27', Q, "np.prod(value.shape) > 1", "value.size > 1"),
    ('pr-q-early', 'C27', Q, LOOP, "    if np.prod(value.shape) <= 1:\n      return PartitionSpec()\n    for regex, partition_spec in axis_resources_regexes:\n      if regex.search(key):\n        return partition_spec\n    return PartitionSpec()\n"),
    ('pr-q-next', 'C27', Q, LOOP, "    return next((s for r, s in axis_resources_regexes if r.search(key) and np.prod(value.shape) > 1), PartitionSpec())\n"),
    ('pr-q-break', 'C27', Q, LOOP, "    result = PartitionSpec()\n    for regex, partition_spec in axis_resources_regexes:\n      if regex.search(key) and np.prod(value.shape) > 1:\n        result = partition_spec\n        break\n    return result\n"),
    ('pr-q-cont', 'C27', Q, LOOP, "    for regex, partition_spec in axis_resources_regexes:\n      if not regex.search(key):\n        continue\n      if np.prod(value.shape) > 1:\n        return partition_spec\n    return PartitionSpec()\n"),
    ('pr-q-for', 'C27', Q, "  axis_resources = {\n      k: search_partition_spec(k, v)\n      for k, v in flat_tree_dict.items()\n  }\n", "  axis_resources = {}\n  for k in flat_tree_dict:\n    axis_resources[k] = search_partition_spec(k, flat_tree_dict[k])\n"),
    ('pr-q-spec', 'C27', Q, "  spec = (spec,) if isinstance(spec, str) else tuple(spec)\n  return PartitionSpec(*spec)", "  if isinstance(spec, str):\n    return PartitionSpec(spec)\n  return PartitionSpec(*spec)"),
    ('pr-q-wsc', 'C27', Q, "    return x\n  else:\n    return lax.with", "    return x\n  if True:\n    return lax.with"),
]
