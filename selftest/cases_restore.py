T = 'vmoe/train/trainer.py'
FIRE = [
    ('res-step0', 'C21', T, "  if (step := ckpt_manager.latest_step()) is not None:", "  if step := ckpt_manager.latest_step():"),
    ('res-init-first', 'C21', T, "  if (step := ckpt_manager.latest_step()) is not None:", "  if (step := ckpt_manager.latest_step()) is not None and not initialization_kwargs:"),
    ('res-step-other', 'C21', T, "    items = ckpt_manager.restore(\n        step,", "    items = ckpt_manager.restore(\n        ckpt_manager.all_steps()[0],"),
    ('res-pos', 'C21', T, "    return items['state'], items['dataset_iterator']['last_seen_index']", "    return items['state'], None"),
    ('res-keep-init', 'C21', T, "  for k, v in new_train_state_dict.items():\n    train_state_dict[k] = v\n", "  for k, v in new_train_state_dict.items():\n    train_state_dict.setdefault(k, v)\n"),
    ('res-all-replaced', 'C21', T, "    return {k: v for k, v in train_state.items() if k in out_axis_resources}", "    return train_state"),
    ('res-inverted', 'C21', T, "      if isinstance(v, jax.ShapeDtypeStruct)\n  }", "      if not isinstance(v, jax.ShapeDtypeStruct)\n  }"),
    ('res-empty', 'C21', T, "      flax.serialization.to_state_dict(train_state), sep='/',\n      keep_empty_nodes=True)\n  out_axis", "      flax.serialization.to_state_dict(train_state), sep='/')\n  out_axis"),
    ('res-ignored-init', 'C21', T, "    train_state = initialize_train_state_from_checkpoint(\n        train_state=train_state, mesh", "    initialize_train_state_from_checkpoint(\n        train_state=train_state, mesh"),
    ('res-dispatch', 'C21', T, "    return initialization.initialize_from_vit(target", "    return initialization.initialize_from_orbax(target"),
    ('res-steps', 'C21', T, "create_optimizer(**optimizer_config, total_steps=train_steps)", "create_optimizer(**optimizer_config, total_steps=train_steps - 1)"),
    ('res-params-key', 'C21', T, "    rngs.pop('params')  # This PRNGKey is not used anymore.\n", ""),
    ('res-seed', 'C21', T, "utils.make_rngs(rng_keys, seed)", "utils.make_rngs(rng_keys, 0)"),
    ('res-det', 'C21', T, "create_flax_model(config=config.model, deterministic=False)", "create_flax_model(config=config.model, deterministic=True)"),
    ('res-wire-init', 'C21', T, "      initialization_kwargs=config.get('initialization'))", "      initialization_kwargs=None)"),
    ('res-cost', 'C21', T, "    if flops_per_device is not None:\n      output['flops'] = flops_per_device * step * jax.device_count()", "    if flops_per_device is not None:\n      output['flops'] = flops_per_device * step * jax.local_device_count()"),
    ('res-dtype', 'C21', T, "          dtype=x.dtype, sharding=x.sharding, global_shape=x.shape)", "          dtype=jnp.float32, sharding=x.sharding, global_shape=x.shape)"),
    ('res-spec', 'C21', T, "jax.sharding.NamedSharding(mesh, spec)", "jax.sharding.NamedSharding(mesh, jax.sharding.PartitionSpec())"),
    ('res-contrastive-init', 'C21', 'vmoe/projects/contrastive/trainer.py', "      initialization_kwargs=config.get('initialization'))", "      initialization_kwargs=config.get('init'))"),
]
QUIET = [
    ('res-step-var', 'C21', T, "  if (step := ckpt_manager.latest_step()) is not None:", "  step = ckpt_manager.latest_step()\n  if step is not None:"),
    ('res-update', 'C21', T, "  for k, v in new_train_state_dict.items():\n    train_state_dict[k] = v\n", "  train_state_dict.update(new_train_state_dict)\n"),
    ('res-merge', 'C21', T, "  for k, v in new_train_state_dict.items():\n    train_state_dict[k] = v\n", "  train_state_dict = {**train_state_dict, **new_train_state_dict}\n"),
    ('res-pick', 'C21', T, "  for k, v in new_train_state_dict.items():\n    train_state_dict[k] = v\n", "  train_state_dict = {k: new_train_state_dict[k] if k in new_train_state_dict else v for k, v in train_state_dict.items()}\n"),
    ('res-sharding-loop', 'C21', T, "  out_axis_resources = {\n      k: v.sharding for k, v in train_state_dict.items()\n      if isinstance(v, jax.ShapeDtypeStruct)\n  }", "  out_axis_resources = {}\n  for k, v in train_state_dict.items():\n    if isinstance(v, jax.ShapeDtypeStruct):\n      out_axis_resources[k] = v.sharding"),
    ('res-init-by-keys', 'C21', T, "    return {k: v for k, v in train_state.items() if k in out_axis_resources}", "    return {k: train_state[k] for k in out_axis_resources}"),
    ('res-helper', 'C21', T, "    items = ckpt_manager.restore(\n        step,\n        args=orbax.checkpoint.args.Composite(\n            state=orbax.checkpoint.args.PyTreeRestore(\n                train_state, restore_args=restore_args\n            ),\n            dataset_iterator=orbax.checkpoint.args.JsonRestore(),\n        ),\n    )\n    return items['state'], items['dataset_iterator']['last_seen_index']", "    args = orbax.checkpoint.args.Composite(\n        state=orbax.checkpoint.args.PyTreeRestore(\n            train_state, restore_args=restore_args),\n        dataset_iterator=orbax.checkpoint.args.JsonRestore())\n    items = ckpt_manager.restore(step, args=args)\n    last_seen_index = items['dataset_iterator']['last_seen_index']\n    return items['state'], last_seen_index"),
    ('res-dispatch-early', 'C21', T, "  elif name == 'initialize_from_vit':", "  if name == 'initialize_from_vit':"),
    ('res-dispatch-common', 'C21', T, "    return initialization.initialize_from_vit(target=train_state, mesh=mesh,\n                                              **kwargs)\n  elif name == 'initialize_from_orbax':\n    return initialization.initialize_from_orbax(target=train_state, mesh=mesh,\n                                                **kwargs)", "    fn = initialization.initialize_from_vit\n  elif name == 'initialize_from_orbax':\n    fn = initialization.initialize_from_orbax", "    raise ValueError(f'Unknown initialization method: {name!r}')\n", "    raise ValueError(f'Unknown initialization method: {name!r}')\n  return fn(target=train_state, mesh=mesh, **kwargs)\n"),
    ('res-one-map', 'C21', T, "  train_state_axis_resources = jax.tree_util.tree_map(\n      lambda spec: jax.sharding.NamedSharding(mesh, spec),\n      train_state_axis_resources,\n  )\n", "", "lambda x, y: jax.ShapeDtypeStruct(x.shape, x.dtype, sharding=y)", "lambda x, y: jax.ShapeDtypeStruct(x.shape, x.dtype, sharding=jax.sharding.NamedSharding(mesh, y))"),
    ('res-init-zip', 'C21', T, "    inputs = tuple(jnp.zeros(x.shape, dtype=x.dtype)\n                   for x in input_shape_dtypes)\n    inputs = tuple(partitioning.with_sharding_constraint(x, s.sharding)\n                   for x, s in zip(inputs, input_shape_dtypes))", "    inputs = [\n        partitioning.with_sharding_constraint(jnp.zeros(s.shape, s.dtype), s.sharding)\n        for s in input_shape_dtypes\n    ]"),
    ('res-cost-dict', 'C21', T, "    output = {}\n    if flops_per_device is not None:\n      output['flops'] = flops_per_device * step * jax.device_count()\n    if seconds_per_device is not None:\n      output['device_seconds'] = seconds_per_device * step * jax.device_count()\n    return output", "    devices = jax.device_count()\n    costs = {'flops': flops_per_device, 'device_seconds': seconds_per_device}\n    return {k: v * step * devices for k, v in costs.items() if v is not None}"),
]

_T = 'vmoe/train/trainer.py'
FIRE += [
    ('rs-nomerge', 'C21', _T, "    train_state_dict[k] = v\n", "    pass\n"),
    ('rs-noplace', 'C21', _T, "in_shardings=(), out_shardings=out_axis_resources", "in_shardings=()"),
    ('rs-noargs', 'C21', _T, "train_state, restore_args=restore_args\n", "train_state\n"),
    ('rs-nosharding', 'C21', _T, "jax.ShapeDtypeStruct(x.shape, x.dtype, sharding=y)", "jax.ShapeDtypeStruct(x.shape, x.dtype)"),
    ('rs-mesh1', 'C21', _T, "        train_state=train_state, mesh=mesh, thread_pool=thread_pool,", "        train_state=train_state, mesh=None, thread_pool=thread_pool,"),
    ('rs-mesh2', 'C21', _T, "train_state=train_state, initialize_fn=initialize_fn, mesh=mesh), None", "train_state=train_state, initialize_fn=initialize_fn), None"),
    ('rs-mesh3', 'C21', _T, "  mesh = mesh or pxla.thread_resources.env.physical_mesh\n  # Flatten", "  mesh = pxla.thread_resources.env.physical_mesh\n  # Flatten"),
    ('rs-divide', 'C18', _T, "    batch_size = images.shape[0]", "    batch_size = images.shape[1]"),
    ('rs-evaltrain', 'C16', _T, "datasets.items() if name != 'train'", "datasets.items()"),
    ('rs-modelname', 'C16', _T, "  if 'name' not in config:", "  if 'name' in config:"),
]
QUIET += [
    ('q-rs-mesh', 'C21', _T, "  mesh = mesh or pxla.thread_resources.env.physical_mesh\n  # Flatten", "  if mesh is None:\n    mesh = pxla.thread_resources.env.physical_mesh\n  # Flatten"),
    ('q-rs-update', 'C21', _T, "  for k, v in new_train_state_dict.items():\n    train_state_dict[k] = v\n", "  train_state_dict.update(new_train_state_dict)\n"),
    ('q-rs-union', 'C21', _T, "  for k, v in new_train_state_dict.items():\n    train_state_dict[k] = v\n", "  train_state_dict = {**train_state_dict, **new_train_state_dict}\n"),
]
