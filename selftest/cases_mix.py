T = 'vmoe/train/trainer.py'
FIRE = [
    ('mix-roll-sign', 'C19', T, "jnp.roll(x, -i, axis=roll_axis)", "jnp.roll(x, i, axis=roll_axis)"),
    ('mix-roll-axis', 'C19', T, "shape=mixup_shape, roll_axis=1,", "shape=mixup_shape, roll_axis=0,"),
    ('mix-no-sort', 'C19', T, "  alpha = -jnp.sort(-alpha, axis=-1)\n", ""),
    ('mix-sort-asc', 'C19', T, "  alpha = -jnp.sort(-alpha, axis=-1)\n", "  alpha = jnp.sort(alpha, axis=-1)\n"),
    ('mix-sort-axis', 'C19', T, "  alpha = -jnp.sort(-alpha, axis=-1)\n", "  alpha = -jnp.sort(-alpha, axis=0)\n"),
    ('mix-labels-own', 'C19', T, "    (images, labels) = mixup(\n        rng=mixup_rng, tree=(images, labels), concentration=concentration,\n        shape=mixup_shape, roll_axis=1, partition_spec=partition_spec)\n", "    (images,) = mixup(\n        rng=mixup_rng, tree=(images,), concentration=concentration,\n        shape=mixup_shape, roll_axis=1, partition_spec=partition_spec)\n    (labels,) = mixup(\n        rng=next_mixup_rng, tree=(labels,), concentration=concentration,\n        shape=mixup_shape, roll_axis=1, partition_spec=partition_spec)\n"),
    ('mix-labels-unmixed', 'C19', T, "    images = images.reshape((-1,) + images.shape[2:])\n    labels = labels", "    images = images.reshape((-1,) + images.shape[2:])\n    labels = labels0", "    images = images.reshape((jax.device_count(), -1)", "    labels0 = labels.reshape((jax.device_count(), -1) + labels.shape[1:])\n    images = images.reshape((jax.device_count(), -1)"),
    ('mix-device-weights', 'C19', T, "      mixup_shape = (images.shape[0], 1, size)", "      mixup_shape = (1, images.shape[1], size)"),
    ('mix-size', 'C19', T, "for i in range(shape[-1]))", "for i in range(shape[-1] - 1))"),
    ('mix-first-only', 'C19', T, "    return sum(a[i] * jnp.roll", "    return sum(a[0] * jnp.roll"),
    ('mix-layout', 'C19', T, "    labels = labels.reshape((jax.device_count(), -1) + labels.shape[1:])", "    labels = labels.reshape((-1, jax.device_count()) + labels.shape[1:]).swapaxes(0, 1)"),
    ('mix-off', 'C19', T, "  if concentration is None or concentration == 0.:\n    return train_step_fn\n", "  if concentration is None:\n    return train_step_fn\n  concentration = concentration or 1.0\n"),
    ('mix-extra', 'C19', T, "state, metrics = train_step_fn(state, images, labels, *args, **kwargs)", "state, metrics = train_step_fn(state, images, labels, **kwargs)"),
    ('mix-state', 'C19', T, "    state, metrics = train_step_fn(state, images, labels, *args, **kwargs)", "    _, metrics = train_step_fn(state, images, labels, *args, **kwargs)"),
]
QUIET = [
    ('mix-flip', 'C19', T, "  alpha = -jnp.sort(-alpha, axis=-1)\n", "  alpha = jnp.flip(jnp.sort(alpha, axis=-1), axis=-1)\n"),
    ('mix-slice', 'C19', T, "  alpha = -jnp.sort(-alpha, axis=-1)\n", "  alpha = jnp.sort(alpha, axis=-1)[..., ::-1]\n"),
    ('mix-desc', 'C19', T, "  alpha = -jnp.sort(-alpha, axis=-1)\n", "  alpha = jnp.sort(alpha, axis=-1, descending=True)\n"),
    ('mix-loop', 'C19', T, "    return sum(a[i] * jnp.roll(x, -i, axis=roll_axis) for i in range(shape[-1]))", "    out = a[0] * x\n    for i in range(1, shape[-1]):\n      out = out + a[i] * jnp.roll(x, -i, axis=roll_axis)\n    return out"),
    ('mix-treemap', 'C19', T, "  arrays = list(map(mix, arrays))\n  return jax.tree.unflatten(treedef, arrays)", "  return jax.tree.map(mix, tree)"),
    ('mix-comp', 'C19', T, "  arrays = list(map(mix, arrays))\n", "  arrays = [mix(x) for x in arrays]\n"),
    ('mix-expand', 'C19', T, "    a = alpha.reshape(alpha.shape + (1,) * (x.ndim - batch_ndim))", "    a = jnp.reshape(alpha, (*alpha.shape, *([1] * (x.ndim - batch_ndim))))"),
    ('mix-helper', 'C19', T, "    images = images.reshape((jax.device_count(), -1) + images.shape[1:])\n    labels = labels.reshape((jax.device_count(), -1) + labels.shape[1:])", "    num_devices = jax.device_count()\n    def per_device(x):\n      return x.reshape((num_devices, x.shape[0] // num_devices) + x.shape[1:])\n    images, labels = per_device(images), per_device(labels)"),
    ('mix-not', 'C19', T, "  if concentration is None or concentration == 0.:\n", "  if not concentration:\n"),
    ('mix-pos-args', 'C19', T, "    (images, labels) = mixup(\n        rng=mixup_rng, tree=(images, labels), concentration", "    images, labels = mixup(\n        mixup_rng, (images, labels), concentration"),
    ('mix-tree-dict', 'C19', T, "    (images, labels) = mixup(\n        rng=mixup_rng, tree=(images, labels), concentration=concentration,\n        shape=mixup_shape, roll_axis=1, partition_spec=partition_spec)", "    mixed = mixup(\n        rng=mixup_rng, tree={'images': images, 'labels': labels}, concentration=concentration,\n        shape=mixup_shape, roll_axis=1, partition_spec=partition_spec)\n    images, labels = mixed['images'], mixed['labels']"),
]

_T = 'vmoe/train/trainer.py'
FIRE += [
    ('mx-nomap', 'C19', _T, "  arrays = list(map(mix, arrays))\n", ""),
    ('mx-rollall', 'C19', _T, "jnp.roll(x, -i, axis=roll_axis)", "jnp.roll(x, -i)"),
    ('mx-conc', 'C19', _T, "if concentration <= 0.:", "if concentration <= 1.:"),
    ('mx-conc0', 'C19', _T, "if concentration <= 0.:", "if concentration < 0.:"),
    ('mx-shape', 'C19', _T, "  if len(shape) < 2:\n", "  if len(shape) < 3:\n"),
    ('mx-axis', 'C19', _T, "if not 0 <= roll_axis < batch_ndim:", "if not 0 <= roll_axis <= batch_ndim:"),
    ('mx-axis1', 'C19', _T, "if not 0 <= roll_axis < batch_ndim:", "if not 0 < roll_axis < batch_ndim:"),
    ('mx-axisneg', 'C19', _T, "if not 0 <= roll_axis < batch_ndim:", "if not roll_axis < batch_ndim:"),
    ('mx-incons', 'C19', _T, "if x.shape[:batch_ndim] != arrays[0].shape[:batch_ndim]:", "if x.ndim != arrays[0].ndim:")][:-1] + [
    ('mx-incons2', 'C19', _T, "if x.shape[:batch_ndim] != arrays[0].shape[:batch_ndim]:", "if x.shape[batch_ndim:] != arrays[0].shape[batch_ndim:]:"),
    ('mx-incons3', 'C19', _T, "if x.shape[:batch_ndim] != arrays[0].shape[:batch_ndim]:", "if x.shape[:batch_ndim] == arrays[0].shape[:batch_ndim]:"),
    ('mx-incons4', 'C19', _T, "if x.shape[:batch_ndim] != arrays[0].shape[:batch_ndim]:", "if False:"),
    ('mx-broad', 'C19', _T, "jnp.broadcast_shapes(x.shape[:batch_ndim], shape[:-1])", "jnp.broadcast_shapes(x.shape[:batch_ndim], shape[1:])"),
]
QUIET += [
    ('q-mx-map', 'C19', _T, "  arrays = list(map(mix, arrays))\n", "  arrays = [mix(x) for x in arrays]\n"),
    ('q-mx-conc', 'C19', _T, "if concentration <= 0.:", "if not concentration > 0.:"),
    ('q-mx-shape', 'C19', _T, "  if len(shape) < 2:\n", "  if not len(shape) >= 2:\n"),
    ('q-mx-axis', 'C19', _T, "if not 0 <= roll_axis < batch_ndim:", "if roll_axis < 0 or roll_axis >= batch_ndim:"),
    ('q-mx-first', 'C19', _T, "if x.shape[:batch_ndim] != arrays[0].shape[:batch_ndim]:", "expected = arrays[0].shape[:batch_ndim]\n    if not x.shape[:batch_ndim] == expected:"),
]
