F = 'vmoe/evaluate/fewshot.py'
FIRE = [
    ('fs-mask', 'C33', F, "    features_list.append(np.asarray(features)[mask])\n    labels_list.append(np.asarray(labels)[mask])\n", "    features_list.append(np.asarray(features))\n    labels_list.append(np.asarray(labels))\n"),
    ('fs-mask2', 'C33', F, "    mask = np.asarray(mask).astype(np.bool_)\n", "    mask = np.asarray(mask).astype(np.int32)\n"),
    ('fs-mask3', 'C33', F, "    labels_list.append(np.asarray(labels)[mask])\n", "    labels_list.append(np.asarray(labels)[:mask.sum()])\n"),
    ('fs-valid', 'C33', F, "batch['image'], batch['label'], batch[VALID_KEY])", "batch['image'], batch['label'],\n        np.ones_like(batch[VALID_KEY]))"),
    ('fs-break', 'C33', F, "    mask = np.asarray(mask).astype(np.bool_)\n", "    mask = np.asarray(mask).astype(np.bool_)\n    if not mask.all():\n      break\n"),
    ('fs-shot', 'C33', F, "indices[:shot] for indices", "indices[:shot + 1] for indices"),
    ('fs-shot2', 'C33', F, "indices[:shot] for indices", "indices[-shot:] for indices"),
    ('fs-shot3', 'C33', F, "    all_idx = [indices[:shot] for indices in class_indices]\n    all_idx = np.concatenate(all_idx, axis=0)\n", "    all_idx = np.concatenate(class_indices, axis=0)[:shot * num_classes]\n    all_idx = np.concatenate([indices for indices in class_indices], axis=0)\n"),
    ('fs-cls', 'C33', F, "np.where(tr_labels == c)[0]) for c in range(num_classes)]", "np.where(tr_labels == c)[0]) for c in range(1, num_classes)]"),
    ('fs-cls2', 'C33', F, "np.where(tr_labels == c)[0])", "np.where(tr_labels != c)[0])"),
    ('fs-leak', 'C33', F, "      acc = _eig_fewshot_acc_fn(cache, te_features, te_labels, l2_reg)\n", "      acc = _eig_fewshot_acc_fn(cache, tr_features, tr_labels, l2_reg)\n"),
    ('fs-leak2', 'C33', F, "x, y = tr_features[all_idx], tr_labels[all_idx]", "x, y = te_features[all_idx], te_labels[all_idx]"),
    ('fs-teit', 'C33', F, "      representation_fn, state, variables, te_iter)", "      representation_fn, state, variables, tr_iter)"),
    ('fs-l2', 'C33', F, "cache, te_features, te_labels, l2_reg)", "cache, te_features, te_labels, l2_regs[0])"),
    ('fs-testwhite', 'C33', F, "  x_test = (x_test - cache['mean']) / cache['std']\n", "  x_test = (x_test - jnp.mean(x_test, axis=0, keepdims=True)) / cache['std']\n"),
    ('fs-bias', 'C33', F, "  x_test = jnp.pad(x_test, ((0, 0), (0, 1)), constant_values=BIAS_CONSTANT)\n", "  x_test = jnp.pad(x_test, ((0, 0), (0, 1)), constant_values=1.0)\n"),
    ('fs-bias2', 'C33', F, "  x_test = jnp.pad(x_test, ((0, 0), (0, 1)), constant_values=BIAS_CONSTANT)\n", "  x_test = jnp.pad(x_test, ((0, 0), (1, 0)), constant_values=BIAS_CONSTANT)\n"),
    ('fs-scal', 'C33', F, "  scaling = 1.0 / (eigs + l2_reg * jnp.ones_like(eigs))\n", "  scaling = 1.0 / (eigs * l2_reg + jnp.ones_like(eigs))\n"),
    ('fs-argmin', 'C33', F, "jnp.argmax(x_test @ w, axis=1)", "jnp.argmax(x_test @ w, axis=0)"),
    ('fs-acc', 'C33', F, "  return jnp.mean(preds == y_test)", "  return jnp.sum(preds == y_test)"),
    ('fs-dual', 'C33', F, "    rhs = q.T @ y\n    lhs = x.T @ q\n", "    rhs = q @ y\n    lhs = x.T @ q\n"),
    ('fs-dual2', 'C33', F, "    rhs = q.T @ (x.T @ y)\n", "    rhs = q @ (x.T @ y)\n"),
    ('fs-tgt', 'C33', F, "  y = 2.0 * jax.nn.one_hot(y, num_classes) - 1.0\n", "  y = 2.0 * jax.nn.one_hot(y, num_classes)\n"),
    ('fs-std', 'C33', F, "std = jnp.std(x, axis=0, keepdims=True) + 1e-5", "std = jnp.std(x, axis=1, keepdims=True) + 1e-5"),
    ('fs-mean', 'C33', F, "  x = (x - mean) / std\n", "  x = x / std\n"),
    ('fs-best', 'C33', F, "l2_regs[np.argmax(np.mean(reg_ranks, axis=0))]", "l2_regs[np.argmin(np.mean(reg_ranks, axis=0))]"),
    ('fs-best2', 'C33', F, "np.argsort(np.argsort(reg_accus))", "np.argsort(reg_accus)"),
    ('fs-best3', 'C33', F, "np.mean(reg_ranks, axis=0)", "np.mean(reg_ranks, axis=1)"),
    ('fs-best4', 'C33', F, "[res[shot, l2] for l2 in l2_regs]", "[res[shots[0], l2] for l2 in l2_regs]"),
    ('fs-rep', 'C33', F, "          all_results[name][shot, best_l2[shot]]\n          for name, shot", "          max(all_results[name][shot, l2] for l2 in l2_regs)\n          for name, shot"),
    ('fs-rep2', 'C33', F, "          accuracy = all_results[name][shot, best_l2[shot]]\n", "          accuracy = all_results[name][shot, best_l2[shots[0]]]\n"),
    ('fs-main', 'C33', F, "          ) / seeds_per_step\n", "          ) / len(all_results)\n"),
    ('fs-reset', 'C33', F, "          te_ds.reset()\n", ""),
    ('fs-names', 'C33', F, "          name = name if seeds_per_step == 1 else f'{name}-seed-{sub_seed}'\n", "          name = name if seeds_per_step == 1 else f'{name}-seed-{seed}'\n"),
    ('fs-split', 'C33', F, "_get_dataset(name, te_split),", "_get_dataset(name, tr_split),"),
]
QUIET = [
    ('fs-q-inv', 'C33', F, "  scaling = 1.0 / (eigs + l2_reg * jnp.ones_like(eigs))\n  scaling = scaling.reshape((1, -1))\n  w = (lhs * scaling) @ rhs\n", "  w = (lhs / (eigs + l2_reg)[None, :]) @ rhs\n"),
    ('fs-q-ein', 'C33', F, "    eigs, q = jnp.linalg.eigh(x.T @ x)\n", "    gram = jnp.einsum('nd,ne->de', x, x)\n    eigs, q = jnp.linalg.eigh(gram)\n"),
    ('fs-q-assoc', 'C33', F, "    rhs = q.T @ (x.T @ y)\n", "    rhs = (x @ q).T @ y\n"),
    ('fs-q-flip', 'C33', F, "  if num_points >= dim:\n    eigs, q = jnp.linalg.eigh(x.T @ x)\n    rhs = q.T @ (x.T @ y)\n    lhs = q\n  else:\n    eigs, q = jnp.linalg.eigh(x @ x.T)\n    rhs = q.T @ y\n    lhs = x.T @ q\n", "  xt = x.T\n  if dim > num_points:\n    eigs, q = jnp.linalg.eigh(x @ xt)\n    lhs, rhs = xt @ q, q.T @ y\n  else:\n    eigs, q = jnp.linalg.eigh(xt @ x)\n    lhs, rhs = q, q.T @ (xt @ y)\n"),
    ('fs-q-onehot', 'C33', F, "  y = 2.0 * jax.nn.one_hot(y, num_classes) - 1.0\n", "  one_hot = jax.nn.one_hot(y, num_classes)\n  y = one_hot * 2.0 - 1.0\n"),
    ('fs-q-helper', 'C33', F, "  mean = jnp.mean(x, axis=0, keepdims=True)\n  std = jnp.std(x, axis=0, keepdims=True) + 1e-5\n  x = (x - mean) / std\n", "  def stats(v):\n    return v.mean(axis=0, keepdims=True), v.std(axis=0, keepdims=True) + 1e-5\n  mean, std = stats(x)\n  x = (x - mean) / std\n"),
    ('fs-q-where', 'C33', F, "      rng.permutation(np.where(tr_labels == c)[0]) for c in range(num_classes)]\n", "      rng.permutation(np.flatnonzero(tr_labels == c))\n      for c in range(num_classes)\n  ]\n"),
    ('fs-q-loop', 'C33', F, "    all_idx = [indices[:shot] for indices in class_indices]\n    all_idx = np.concatenate(all_idx, axis=0)\n", "    all_idx = np.concatenate([idx[:shot] for idx in class_indices])\n"),
    ('fs-q-best', 'C33', F, "    reg_ranks = []\n    for res in all_results.values():\n      reg_accus = [res[shot, l2] for l2 in l2_regs]\n      reg_ranks.append(np.argsort(np.argsort(reg_accus)))\n", "    reg_ranks = [\n        np.argsort(np.argsort([res[shot, l2] for l2 in l2_regs]))\n        for res in all_results.values()\n    ]\n"),
    ('fs-q-rep', 'C33', F, "      metrics.update({\n          f'{report_progress_name}/{name}/{shot}shot':\n          all_results[name][shot, best_l2[shot]]\n          for name, shot in itertools.product(all_results, shots)\n      })\n", "      for name, results in all_results.items():\n        for shot in shots:\n          key = f'{report_progress_name}/{name}/{shot}shot'\n          metrics[key] = results[shot, best_l2[shot]]\n"),
    ('fs-q-mean', 'C33', F, "  return jnp.mean(preds == y_test)", "  correct = preds == y_test\n  return correct.mean()"),
    ('fs-q-repr', 'C33', F, "  features = np.concatenate(features_list, axis=0)\n  labels = np.concatenate(labels_list, axis=0)\n  return state, features, labels\n", "  return state, np.concatenate(features_list), np.concatenate(labels_list)\n"),
    ('fs-q-repr2', 'C33', F, "    mask = np.asarray(mask).astype(np.bool_)\n", "    mask = np.asarray(mask, dtype=bool)\n"),
    ('fs-q-main', 'C33', F, "          accuracy = sum(\n              all_results[f'{name}-seed-{sub_seed}'][shot, best_l2[shot]]\n              for sub_seed in range(seeds_per_step)\n          ) / seeds_per_step\n", "          accuracy = 0.\n          for sub_seed in range(seeds_per_step):\n            accuracy += all_results[f'{name}-seed-{sub_seed}'][\n                shot, best_l2[shot]]\n          accuracy = accuracy / seeds_per_step\n"),
    ('fs-q-reset', 'C33', F, "          tr_ds.reset()\n          te_ds.reset()\n", "          for ds in (tr_ds, te_ds):\n            ds.reset()\n"),
]
