V = 'vmoe/nn/vit_moe.py'
T = 'vmoe/projects/contrastive/models.py'
N = 'vmoe/projects/contrastive/trainer.py'
X = 'vmoe/nn/external.py'
FIRE = [
    ('tt-imgalways', 'C37', T, "    if images is not None:", "    if True:"),
    ('tt-auxall', 'C37', T, " for m in metrics.values() if 'auxiliary_loss' in m]", " for m in metrics.values()]"),
    ('tt-auxnot', 'C37', T, " for m in metrics.values() if 'auxiliary_loss' in m]", " for m in metrics.values() if 'auxiliary_loss' not in m]"),
    ('tt-onlytxt', 'C37', T, "    if images is None:\n      # Return text", "    if False:\n      # Return text"),
    ('tt-onlyimg', 'C37', T, "    elif texts is None:", "    elif images is None:"),
    ('tt-bias', 'C37', T, "    if self.bias_init is not None:", "    if True:"),
    ('tt-refuse', 'C37', T, "if images is None and texts is None:", "if images is None or texts is None:"),
    ('tt-default', 'C37', T, "get('name', 'TextTransformer')", "get('name', 'Transformer')"),
    ('tt-pool', 'C37', T, "case 'gmp': return", "case 'max': return"),
    ('tt-head', 'C37', T, "    if self.num_classes:", "    if True:"),
    ('v-kv', 'C37', V, "name='SelfAttention')(inputs_q=x, inputs_kv=x)", "name='SelfAttention')(inputs_q=x, inputs_kv=inputs)"),
    ('v-qn', 'C37', V, "        normalize_qk=self.attention_qk_norm,\n", ""),
    ('v-adr', 'C37', V, "        dropout_rate=self.attention_dropout_rate,\n", "        dropout_rate=self.dropout_rate,\n"),
    ('v-res', 'C37', V, "    x = x + inputs\n    # MLP-MoE", "    # MLP-MoE"),
    ('v-res2', 'C37', V, "      return x + y\n", "      return inputs + y\n"),
    ('v-res3', 'C37', V, "      return x + y, metrics\n", "      return y, metrics\n"),
    ('v-ln', 'C37', V, "    y = nn.LayerNorm(dtype=self.dtype)(x)\n    y = self.mlp_block", "    y = self.mlp_block"),
    ('v-ln2', 'C37', V, "    y = nn.LayerNorm(dtype=self.dtype)(x)\n    y = self.mlp_block", "    y = nn.LayerNorm(dtype=self.dtype)(inputs)\n    y = self.mlp_block"),
    ('v-share', 'C37', V, "    x = nn.LayerNorm(dtype=self.dtype)(inputs)\n", "    norm = nn.LayerNorm(dtype=self.dtype)\n    x = norm(inputs)\n", "    y = nn.LayerNorm(dtype=self.dtype)(x)\n    y = self.mlp_block", "    y = norm(x)\n    y = self.mlp_block"),
    ('v-dropord', 'C37', V, "    x = nn.Dropout(rate=self.dropout_rate, deterministic=self.deterministic)(x)\n    x = x + inputs\n", "    x = x + inputs\n    x = nn.Dropout(rate=self.dropout_rate, deterministic=self.deterministic)(x)\n"),
    ('v-detdrop', 'C37', V, "    x = nn.Dropout(rate=self.dropout_rate, deterministic=self.deterministic)(x)\n    x = x + inputs\n", "    x = nn.Dropout(rate=self.attention_dropout_rate, deterministic=self.deterministic)(x)\n    x = x + inputs\n"),
    ('e-off', 'C37', V, "      if block in moe_mlp_layers:", "      if block + 1 in moe_mlp_layers:"),
    ('e-num', 'C37', V, "for block in range(self.num_layers):", "for block in range(self.num_layers - 1):"),
    ('e-dense', 'C37', V, "            name=f'encoderblock_{block}', mlp_block=dense_mlp_cls)(x)", "            name=f'encoderblock_{block}', mlp_block=moe_mlp_cls)(x)"),
    ('e-merge', 'C37', V, "    moe_mlp_params = {**dense_mlp_params, **(self.moe or {})}", "    moe_mlp_params = {**(self.moe or {}), **dense_mlp_params}"),
    ('e-thread', 'C37', V, "            name=f'encoderblock_{block}', mlp_block=moe_mlp_cls)(x)", "            name=f'encoderblock_{block}', mlp_block=moe_mlp_cls)(inputs)"),
    ('e-norm', 'C37', V, "    encoded = nn.LayerNorm(name='encoder_norm')(x)\n", "    encoded = x\n"),
    ('e-pos', 'C37', V, "    x = self.add_position_emb(inputs)\n", "    x = inputs\n"),
    ('e-dr', 'C37', V, "        dropout_rate=self.dropout_rate,\n        attention_dropout_rate=self.attention_dropout_rate,\n", "        dropout_rate=self.attention_dropout_rate,\n        attention_dropout_rate=self.dropout_rate,\n"),
    ('e-qk', 'C37', V, "        attention_qk_norm=self.attention_qk_norm,\n        deterministic", "        deterministic"),
    ('e-dtype', 'C37', V, "        deterministic=self.deterministic,\n        dtype=self.dtype)\n\n    metrics = {}", "        deterministic=self.deterministic)\n\n    metrics = {}"),
    ('e-mdrop', 'C37', V, "    dense_mlp_params = dict(mlp_dim=self.mlp_dim,\n                            dropout_rate=self.dropout_rate)\n", "    dense_mlp_params = dict(mlp_dim=self.mlp_dim)\n"),
    ('p-grid', 'C37', V, "jnp.mgrid[:h, :w]", "jnp.mgrid[:w, :h]"),
    ('p-xy', 'C37', V, "[jnp.sin(x), jnp.cos(x), jnp.sin(y), jnp.cos(y)]", "[jnp.sin(y), jnp.cos(y), jnp.sin(x), jnp.cos(x)]"),
    ('p-dup', 'C37', V, "[jnp.sin(x), jnp.cos(x), jnp.sin(y), jnp.cos(y)]", "[jnp.sin(x), jnp.cos(x), jnp.sin(y), jnp.cos(x)]"),
    ('p-omega', 'C37', V, "/ (c // 4 - 1)", "/ (c // 4)"),
    ('p-temp', 'C37', V, "      temperature = position_emb.get('temperature',\n                                     self.DEFAULT_SINCOS2D_TEMPERATURE)\n", "      temperature = self.DEFAULT_SINCOS2D_TEMPERATURE\n"),
    ('p-cls', 'C37', V, "        a = inputs[:, :1, :]\n        b = inputs[:, 1:, :] + posembed\n", "        a = inputs[:, -1:, :]\n        b = inputs[:, :-1, :] + posembed\n"),
    ('p-cls2', 'C37', V, "        return jnp.concatenate([a, b], axis=1)\n      else:", "        return jnp.concatenate([b, a], axis=1)\n      else:"),
    ('p-err', 'C37', V, "      if c % 4 != 0 or c < 8:", "      if c % 4 != 0:"),
    ('p-err2', 'C37', V, "      if c % 4 != 0 or c < 8:", "      if c % 2 != 0 or c < 8:"),
    ('p-len', 'C37', V, "      elif n == h * w + 1:", "      elif n >= h * w + 1:"),
    ('p-std', 'C37', V, "stddev=0.02", "stddev=0.2"),
    ('p-def', 'C37', V, "position_emb.get('name', 'learned')", "position_emb.get('name', 'none')"),
    ('t-hw', 'C37', V, "['h'] = x.shape[1]", "['h'] = x.shape[2]", "['w'] = x.shape[2]", "['w'] = x.shape[1]"),
    ('t-h', 'C37', V, "['h'] = x.shape[1]", "['h'] = inputs.shape[1]"),
    ('t-rs', 'C37', V, "    x = x.reshape(x.shape[0], -1, x.shape[-1])\n", "    x = x.swapaxes(1, 2).reshape(x.shape[0], -1, x.shape[-1])\n"),
    ('t-last', 'C37', V, "      x = jnp.concatenate([cls, x], axis=1)\n", "      x = jnp.concatenate([x, cls], axis=1)\n"),
    ('t-zero', 'C37', V, "    if self.classifier == 'token':\n", "    if self.classifier in ('token', '0'):\n"),
    ('t-gap', 'C37', V, "      x = x.mean(axis=tuple(range(1, x.ndim - 1)))", "      x = x[:, 1:].mean(axis=tuple(range(1, x.ndim - 1)))"),
    ('t-gap2', 'C37', V, "      x = x.mean(axis=tuple(range(1, x.ndim - 1)))", "      x = x.max(axis=tuple(range(1, x.ndim - 1)))"),
    ('t-tok', 'C37', V, "      x = x[:, 0]\n", "      x = x[:, -1]\n"),
    ('t-tanh', 'C37', V, "      x = nn.tanh(x)\n", ""),
    ('t-rep', 'C37', V, "if self.representation_size is not None:", "if self.representation_size is None:"),
    ('t-zeroinit', 'C37', V, "    if self.head_kernel_zero_init:", "    if not self.head_kernel_zero_init:"),
    ('t-bias', 'C37', V, "          bias_init=nn.initializers.constant(self.head_bias_init))(x)", "          bias_init=nn.initializers.zeros)(x)"),
    ('t-det', 'C37', V, "name='Encoder', deterministic=self.deterministic, **encoder_kwargs)(x)", "name='Encoder', **encoder_kwargs)(x)"),
    ('t-stride', 'C37', V, "        strides=self.patch_size, padding='VALID', name='embedding')(inputs)", "        strides=self.patch_size, padding='SAME', name='embedding')(inputs)"),
    ('t-mapnh', 'C37', V, "          num_heads=self.encoder['num_heads'], mlp_dim=self.encoder['mlp_dim'],\n          qk_norm=self.encoder.get('attention_qk_norm', False),\n", "          num_heads=self.encoder['num_heads'], mlp_dim=self.hidden_size,\n          qk_norm=self.encoder.get('attention_qk_norm', False),\n"),
    ('t-mapqk', 'C37', V, "          qk_norm=self.encoder.get('attention_qk_norm', False),\n", "          qk_norm=self.encoder.get('qk_norm', False),\n"),
    ('t-unk', 'C37', V, "    else:\n      raise ValueError(f'Unknown classifier: {self.classifier!r}')\n", "    else:\n      x = x[:, 0]\n"),
    ('m-probe', 'C37', V, "name='MultiHeadDotProductAttention')(inputs_q=probe, inputs_kv=x)", "name='MultiHeadDotProductAttention')(inputs_q=x, inputs_kv=probe)"),
    ('m-res', 'C37', V, "    return (x + y)[:, 0, :]", "    return y[:, 0, :]"),
    ('m-qk', 'C37', V, "        normalize_qk=self.qk_norm,\n", ""),
    ('m-ln', 'C37', V, "    y = nn.LayerNorm(name='LayerNorm')(x)\n", "    y = x\n"),
    ('x-train', 'C37', X, "class VisionTransformer(models_vit.VisionTransformer):", "class VisionTransformer(models_vit.VisionTransformer):  #", "    if self.resnet is not None:\n      self.resnet = ml_collections.ConfigDict(self.resnet)\n    super().__post_init__()\n\n  @nn.compact\n  def __call__(self, inputs):  # pytype: disable=signature-mismatch  # overriding-parameter-name-checks\n    return super().__call__(inputs, train=not self.deterministic), {}", "    if self.resnet is not None:\n      self.resnet = ml_collections.ConfigDict(self.resnet)\n    super().__post_init__()\n\n  @nn.compact\n  def __call__(self, inputs):  # pytype: disable=signature-mismatch  # overriding-parameter-name-checks\n    return super().__call__(inputs, train=self.deterministic), {}"),
    ('tx-last', 'C37', T, "case 'last': return x[:, -1, :]", "case 'last': return x[:, 0, :]"),
    ('tx-gap', 'C37', T, "case 'gap': return x.mean(axis=1)", "case 'gap': return x.mean(axis=-1)"),
    ('tx-gmp', 'C37', T, "case 'gmp': return x.max(axis=1)", "case 'gmp': return x.mean(axis=1)"),
    ('tx-det', 'C37', T, "        name='Encoder', deterministic=self.deterministic, **encoder_kwargs)(x)", "        name='Encoder', **encoder_kwargs)(x)"),
    ('tx-pos', 'C37', T, "    if encoder_kwargs.get('position_emb', {}).get('name') == 'sincos2d':\n      raise ValueError(\n          'sincos2d position embeddings are not supproted for text.')\n", ""),
    ('tx-zero', 'C37', T, "    if self.head_kernel_zero_init:", "    if not self.head_kernel_zero_init:"),
    ('tw-norm', 'C37', T, "      ztxt_norm = jnp.linalg.norm(ztxt, axis=-1, keepdims=True)", "      ztxt_norm = jnp.linalg.norm(ztxt, axis=0, keepdims=True)"),
    ('tw-norm2', 'C37', T, "      ztxt /= ztxt_norm + 1e-8\n", ""),
    ('tw-exp', 'C37', T, "      s = jnp.exp(s)\n", ""),
    ('tw-log', 'C37', T, "      scale_init = jnp.log(self.scale_init)\n", "      scale_init = self.scale_init\n"),
    ('tw-tr', 'C37', T, "'...md,...nd->...mn', zimg, ztxt", "'...md,...nd->...nm', zimg, ztxt"),
    ('tw-bias', 'C37', T, "        logits += b\n", "        logits -= b\n"),
    ('tw-bias2', 'C37', T, "        logits += b\n", ""),
    ('tw-det', 'C37', T, "    model_cls, args, kwargs = utils.parse_call(model_cls, _default_text_module)\n    kwargs.update({k: v for k, v in self.text.items() if k != 'name'})\n    return functools.partial(\n        model_cls, *args, **kwargs, deterministic=self.deterministic)", "    model_cls, args, kwargs = utils.parse_call(model_cls, _default_text_module)\n    kwargs.update({k: v for k, v in self.text.items() if k != 'name'})\n    return functools.partial(\n        model_cls, *args, **kwargs)"),
    ('tw-kw', 'C37', T, "    kwargs.update({k: v for k, v in self.text.items() if k != 'name'})", "    kwargs.update({k: v for k, v in self.image.items() if k != 'name'})"),
    ('tw-met', 'C37', T, "      metrics['txt'] = metrics_txt\n", "      metrics['txt'] = metrics_img\n"),
    ('tw-img', 'C37', T, "      # Return image embeddings and metrics.\n      return zimg, metrics", "      # Return image embeddings and metrics.\n      return zimg * zimg_norm, metrics"),
    ('tw-none', 'C37', T, "    if images is None and texts is None:\n      raise ValueError('You must give at least one of images or texts arrays.')\n", ""),
    ('l-sign', 'C37', N, "  return -jnp.sum(log_lkh, axis=-1)", "  return jnp.sum(log_lkh, axis=-1)"),
    ('l-mean', 'C37', N, "  return -jnp.sum(log_lkh, axis=-1)", "  return -jnp.mean(log_lkh, axis=-1)"),
    ('l-z', 'C37', N, "  z = 2. * jnp.eye(logits.shape[-1], dtype=logits.dtype) - 1.", "  z = 1. - 2. * jnp.eye(logits.shape[-1], dtype=logits.dtype)"),
    ('l-z2', 'C37', N, "  z = 2. * jnp.eye(logits.shape[-1], dtype=logits.dtype) - 1.", "  z = jnp.eye(logits.shape[-1], dtype=logits.dtype)"),
    ('l-sq', 'C37', N, "  if logits.ndim < 2 or logits.shape[-1] != logits.shape[-2]:", "  if logits.ndim < 2:"),
    ('h-few', 'C37', N, "model.apply(p, images=x, texts=None, **kw)", "model.apply(p, images=None, texts=x, **kw)"),
    ('h-ret', 'C37', N, "    return (None, z, None) if img is None else (z, None, None)\n\n  datasets = datasets or {}\n  if isinstance(datasets, ml_collections.ConfigDict):\n    datasets = datasets.to_dict()\n  try:", "    return (z, None, None) if img is None else (None, z, None)\n\n  datasets = datasets or {}\n  if isinstance(datasets, ml_collections.ConfigDict):\n    datasets = datasets.to_dict()\n  try:"),
]
FIRE += [
    ('mb-det', 'C37', V, "    return super().__call__(inputs, deterministic=self.deterministic)", "    return super().__call__(inputs, deterministic=True)"),
    ('mb-dim', 'C37', V, "            dropout_rate=self.dropout_rate,\n            dtype=self.dtype,\n            deterministic=self.deterministic,\n            name='Mlp')\n    outputs", "            dtype=self.dtype,\n            deterministic=self.deterministic,\n            name='Mlp')\n    outputs"),
    ('mb-split', 'C37', V, "          'dropout': 'dropout' in split_rngs,", "          'dropout': 'params' in split_rngs,"),
    ('mb-split2', 'C37', V, "{'params': self.split_rngs, 'dropout': self.split_rngs}", "{'params': True, 'dropout': self.split_rngs}"),
    ('mb-rout', 'C37', V, "**(router_kwargs2 | router_kwargs))", "**router_kwargs2)"),
    ('mb-rdt', 'C37', V, "    return router_cls(*router_args, dtype=self.dtype, name='Router',", "    return router_cls(*router_args, name='Router',"),
    ('mb-rdet', 'C37', V, "    router_kwargs['deterministic'] = router_kwargs.get('deterministic',\n                                                       self.deterministic)\n", "    router_kwargs['deterministic'] = self.deterministic\n"),
    ('en-off', 'C37', 'vmoe/nn/vit_moe_ensemble.py', "      if block in moe_mlp_layers:", "      if block - 1 in moe_mlp_layers:"),
    ('en-dr', 'C37', 'vmoe/nn/vit_moe_ensemble.py', "        attention_dropout_rate=self.attention_dropout_rate,\n", ""),
    ('en-norm', 'C37', 'vmoe/nn/vit_moe_ensemble.py', "    encoded = nn.LayerNorm(name='encoder_norm')(x)\n", "    encoded = x\n"),
]
QUIET = [
    ('q-tt-aux', 'C37', T, "    auxiliary_losses = [\n        m['auxiliary_loss'] for m in metrics.values() if 'auxiliary_loss' in m]\n    if auxiliary_losses:\n      metrics['auxiliary_loss'] = sum(auxiliary_losses)\n", "    found = [m for m in metrics.values() if 'auxiliary_loss' in m]\n    if len(found) > 0:\n      metrics['auxiliary_loss'] = sum(m['auxiliary_loss'] for m in found)\n"),
    ('q-tt-ret', 'C37', T, "    if images is None:\n      # Return text embeddings and metrics.\n      return ztxt, metrics\n    elif texts is None:\n      # Return image embeddings and metrics.\n      return zimg, metrics\n    else:", "    if images is None or texts is None:\n      return (ztxt if images is None else zimg), metrics\n    else:"),
    ('mbq-kw', 'C37', V, "    return router_cls(*router_args, dtype=self.dtype, name='Router',\n                      **(router_kwargs2 | router_kwargs))", "    all_kwargs = {**router_kwargs2, **router_kwargs}\n    return router_cls(\n        *router_args, name='Router', dtype=self.dtype, **all_kwargs)"),
    ('mbq-det', 'C37', V, "    router_kwargs['deterministic'] = router_kwargs.get('deterministic',\n                                                       self.deterministic)\n", "    router_kwargs.setdefault('deterministic', self.deterministic)\n"),
    ('mbq-det2', 'C37', V, "    router_kwargs['deterministic'] = router_kwargs.get('deterministic',\n                                                       self.deterministic)\n", "    if 'deterministic' not in router_kwargs:\n      router_kwargs['deterministic'] = self.deterministic\n"),
    ('mbq-split', 'C37', V, "      split_rngs = set(self.split_rngs)\n      return {\n          'params': 'params' in split_rngs,\n          'dropout': 'dropout' in split_rngs,\n      }", "      names = tuple(self.split_rngs)\n      return {k: k in names for k in ('params', 'dropout')}"),
    ('mbq-split2', 'C37', V, "    if isinstance(self.split_rngs, bool):\n      return {'params': self.split_rngs, 'dropout': self.split_rngs}\n", "    if isinstance(self.split_rngs, bool):\n      return dict.fromkeys(('params', 'dropout'), self.split_rngs)\n"),
    ('vq-var', 'C37', V, "    x = nn.LayerNorm(dtype=self.dtype)(inputs)\n", "    norm1 = nn.LayerNorm(dtype=self.dtype)\n    x = norm1(inputs)\n"),
    ('vq-add', 'C37', V, "    x = x + inputs\n    # MLP-MoE", "    x = inputs + x\n    # MLP-MoE"),
    ('vq-rate', 'C37', V, "    x = nn.Dropout(rate=self.dropout_rate, deterministic=self.deterministic)(x)\n    x = x + inputs\n", "    dropout = nn.Dropout(self.dropout_rate, deterministic=self.deterministic)\n    x = dropout(x)\n    x = x + inputs\n"),
    ('vq-inst', 'C37', V, "    if isinstance(y, jnp.ndarray):\n      return x + y\n    else:\n      y, metrics = y\n      return x + y, metrics\n", "    if isinstance(y, tuple):\n      y, metrics = y\n      return x + y, metrics\n    return x + y\n"),
    ('vq-helper', 'C37', V, "    x = x + inputs\n    # MLP-MoE", "    x = self._residual(x, inputs)\n    # MLP-MoE", "class EncoderMoe(nn.Module):\n", "class EncoderMoe(nn.Module):\n  # Encoder.\n", "  @nn.compact\n  def __call__(self, inputs):\n    # Attention Block.\n", "  @nn.nowrap\n  def _residual(self, a, b):\n    return a + b\n\n  @nn.compact\n  def __call__(self, inputs):\n    # Attention Block.\n"),
    ('eq-name', 'C37', V, "    for block in range(self.num_layers):\n", "    for block in range(0, self.num_layers):\n"),
    ('eq-pick', 'C37', V, "      if block in moe_mlp_layers:\n        x, metrics[f'encoderblock_{block}'] = encoder_block_cls(\n            name=f'encoderblock_{block}', mlp_block=moe_mlp_cls)(x)\n      else:\n        x = encoder_block_cls(\n            name=f'encoderblock_{block}', mlp_block=dense_mlp_cls)(x)\n",
     "      name = f'encoderblock_{block}'\n      if block not in moe_mlp_layers:\n        x = encoder_block_cls(name=name, mlp_block=dense_mlp_cls)(x)\n        continue\n      x, metrics[name] = encoder_block_cls(name=name, mlp_block=moe_mlp_cls)(x)\n"),
    ('eq-dict', 'C37', V, "    moe_mlp_params = {**dense_mlp_params, **(self.moe or {})}", "    moe_mlp_params = dict(dense_mlp_params)\n    moe_mlp_params.update(self.moe or {})"),
    ('pq-outer', 'C37', V, "      x = jnp.einsum('n,d->nd', x, omega)\n      y = jnp.einsum('n,d->nd', y, omega)\n", "      x = x[:, None] * omega[None, :]\n      y = y[:, None] * omega[None, :]\n"),
    ('pq-not', 'C37', V, "      if c % 4 != 0 or c < 8:", "      if c < 8 or c % 4:"),
    ('pq-len', 'C37', V, "      if n == h * w:\n        return inputs + posembed\n      elif n == h * w + 1:\n        a = inputs[:, :1, :]\n        b = inputs[:, 1:, :] + posembed\n        return jnp.concatenate([a, b], axis=1)\n      else:\n        raise ValueError(\n            f'Unsupported sequence length {n=} for the given {h=} and {w=}.')\n", "      num_positions = h * w\n      if n not in (num_positions, num_positions + 1):\n        raise ValueError(\n            f'Unsupported sequence length {n=} for the given {h=} and {w=}.')\n      if n == num_positions:\n        return inputs + posembed\n      a = inputs[:, :1, :]\n      b = inputs[:, 1:, :] + posembed\n      return jnp.concatenate([a, b], axis=1)\n"),
    ('tq-hw', 'C37', V, "    x = x.reshape(x.shape[0], -1, x.shape[-1])\n", "    b, h, w, c = x.shape\n    x = x.reshape(b, h * w, c)\n"),
    ('tq-hw2', 'C37', V, "    x = x.reshape(x.shape[0], -1, x.shape[-1])\n", "    x = jnp.reshape(x, (x.shape[0], x.shape[1] * x.shape[2], x.shape[3]))\n"),
    ('tq-bc', 'C37', V, "      cls = jnp.tile(cls, [x.shape[0], 1, 1])\n", "      cls = jnp.broadcast_to(cls, (x.shape[0], 1, x.shape[-1]))\n"),
    ('tq-in', 'C37', V, "    if self.classifier == 'token' or self.classifier == '0':\n      x = x[:, 0]", "    if self.classifier in ('token', '0'):\n      x = x[:, 0, :]"),
    ('tq-gap', 'C37', V, "      x = x.mean(axis=tuple(range(1, x.ndim - 1)))", "      x = jnp.mean(x, axis=1)"),
    ('tq-head', 'C37', V, "    if self.num_classes:\n      # Linear head outputing the logits for classification.\n      logits = nn.Dense(\n          features=self.num_classes,\n          name='head',\n          kernel_init=self.kernel_init,\n          bias_init=nn.initializers.constant(self.head_bias_init))(x)\n      return logits, metrics\n    else:\n      return x, metrics", "    if not self.num_classes:\n      return x, metrics\n    head = nn.Dense(\n        self.num_classes,\n        kernel_init=self.kernel_init,\n        bias_init=nn.initializers.constant(self.head_bias_init),\n        name='head')\n    return head(x), metrics"),
    ('tq-pos', 'C37', V, "      encoder_kwargs['position_emb'] = dict(encoder_kwargs['position_emb'])\n      encoder_kwargs['position_emb']['h'] = x.shape[1]\n      encoder_kwargs['position_emb']['w'] = x.shape[2]\n", "      encoder_kwargs['position_emb'] = dict(\n          encoder_kwargs['position_emb'], h=x.shape[1], w=x.shape[2])\n"),
    ('mq-idx', 'C37', V, "    return (x + y)[:, 0, :]", "    out = x + y\n    return out[:, 0]"),
    ('mq-sq', 'C37', V, "    return (x + y)[:, 0, :]", "    return jnp.squeeze(x + y, axis=1)"),
    ('txq-if', 'C37', T, "    match self.pool_type:\n      case 'last': return x[:, -1, :]\n      case 'first': return x[:, 0, :]\n      case 'gap': return x.mean(axis=1)\n      case 'gmp': return x.max(axis=1)\n      case 'map':\n        return vit_moe.MapHead(\n            num_heads=self.encoder['num_heads'],\n            mlp_dim=self.encoder['mlp_dim'],\n            qk_norm=self.encoder.get('attention_qk_norm', False),\n            name='MapHead')(x)\n      case _:\n        raise NotImplementedError(f'Cannot do pooling {self.pool_type!r}')\n", "    if self.pool_type == 'last':\n      return x[:, -1, :]\n    if self.pool_type == 'first':\n      return x[:, 0, :]\n    if self.pool_type == 'gap':\n      return jnp.mean(x, axis=-2)\n    if self.pool_type == 'gmp':\n      return x.max(axis=1)\n    if self.pool_type != 'map':\n      raise NotImplementedError(f'Cannot do pooling {self.pool_type!r}')\n    return vit_moe.MapHead(\n        num_heads=self.encoder['num_heads'],\n        mlp_dim=self.encoder['mlp_dim'],\n        qk_norm=self.encoder.get('attention_qk_norm', False),\n        name='MapHead')(x)\n"),
    ('twq-helper', 'C37', T, "      zimg_norm = jnp.linalg.norm(zimg, axis=-1, keepdims=True)\n      zimg /= zimg_norm + 1e-8\n", "      zimg = _unit(zimg)\n", "class TwoTower(nn.Module):\n", "def _unit(z):\n  return z / (jnp.linalg.norm(z, axis=-1, keepdims=True) + 1e-8)\n\n\nclass TwoTower(nn.Module):\n"),
    ('twq-order', 'C37', T, "      logits *= s\n      metrics['scale'] = s\n", "      metrics['scale'] = s\n      logits = s * logits\n"),
    ('twq-kw', 'C37', T, "    kwargs.update({k: v for k, v in self.text.items() if k != 'name'})\n", "    kwargs = kwargs | {k: v for k, v in self.text.items() if k != 'name'}\n"),
    ('lq-mul', 'C37', N, "jax.nn.log_sigmoid(jnp.einsum('...mn,mn->...mn', logits, z))", "jax.nn.log_sigmoid(logits * z)"),
    ('hq-if', 'C37', N, "    return (None, z, None) if img is None else (z, None, None)\n\n  datasets = datasets or {}\n  if isinstance(datasets, ml_collections.ConfigDict):\n    datasets = datasets.to_dict()\n  try:", "    if img is not None:\n      return (z, None, None)\n    return (None, z, None)\n\n  datasets = datasets or {}\n  if isinstance(datasets, ml_collections.ConfigDict):\n    datasets = datasets.to_dict()\n  try:"),
]

A = "    auxiliary_losses = [\n        m['auxiliary_loss'] for m in metrics.values() if 'auxiliary_loss' in m]\n    if auxiliary_losses:\n      metrics['auxiliary_loss'] = sum(auxiliary_losses)\n"
TTF = 'vmoe/projects/contrastive/models.py'
FIRE += [
    ('tt-noaux', 'C37', TTF, A, ''),
    ('tt-auximg', 'C37', TTF, A, "    if 'auxiliary_loss' in metrics.get('img', {}):\n      metrics['auxiliary_loss'] = metrics['img']['auxiliary_loss']\n"),
    ('tt-auxmean', 'C37', TTF, 'sum(auxiliary_losses)', 'jnp.mean(jnp.stack(auxiliary_losses))'),
    ('tt-auxkey', 'C37', TTF, "metrics['auxiliary_loss'] = sum", "metrics['aux_loss'] = sum"),
]
QUIET += [
    ('ttq-auxget', 'C37', TTF, A, "    total = sum(m.get('auxiliary_loss', 0.0) for m in metrics.values())\n    metrics['auxiliary_loss'] = total\n"),
    ('ttq-auxloop', 'C37', TTF, A, "    total = 0.0\n    for m in metrics.values():\n      total = total + m.get('auxiliary_loss', 0.0)\n    metrics['auxiliary_loss'] = total\n"),
]

_L = 'vmoe/projects/contrastive/trainer.py'
_LT = "if logits.ndim < 2 or logits.shape[-1] != logits.shape[-2]:"
FIRE += [
    ('sl-square', 'C37', _L, _LT, "if logits.ndim < 2:"),
    ('sl-rank', 'C37', _L, _LT, "if logits.ndim < 3 or logits.shape[-1] != logits.shape[-2]:"),
    ('sl-rank2', 'C37', _L, _LT, "if logits.ndim != 2 or logits.shape[-1] != logits.shape[-2]:"),
    ('sl-first', 'C37', _L, _LT, "if logits.ndim < 2 or logits.shape[-1] != logits.shape[0]:"),
    ('sl-eq', 'C37', _L, _LT, "if logits.ndim < 2 or logits.shape[-1] == logits.shape[-2]:"),
    ('sl-axis', 'C37', _L, "return -jnp.sum(log_lkh, axis=-1)", "return -jnp.sum(log_lkh, axis=1)"),
    ('sl-axis2', 'C37', _L, "return -jnp.sum(log_lkh, axis=-1)", "return -jnp.sum(log_lkh, axis=-2)"),
    ('sl-scale', 'C37', _L, "z = 2. * jnp.eye", "z = jnp.eye"),
    ('sl-sign', 'C37', _L, "dtype=logits.dtype) - 1.", "dtype=logits.dtype) + 1."),
    ('sl-eye', 'C37', _L, "jnp.eye(logits.shape[-1],", "jnp.eye(logits.shape[0],"),
]
QUIET += [
    ('q-sl-eye', 'C37', _L, "jnp.eye(logits.shape[-1],", "jnp.eye(logits.shape[-2],"),
    ('q-sl-if', 'C37', _L, _LT, "square = logits.ndim >= 2 and logits.shape[-2] == logits.shape[-1]\n  if not square:"),
    ('q-sl-len', 'C37', _L, _LT, "if len(logits.shape) < 2 or logits.shape[-1] != logits.shape[-2]:"),
    ('q-sl-mul', 'C37', _L, "jnp.einsum('...mn,mn->...mn', logits, z)", "logits * z"),
    ('q-sl-sum', 'C37', _L, "return -jnp.sum(log_lkh, axis=-1)", "return jnp.sum(-log_lkh, -1)"),
    ('q-sl-where', 'C37', _L, "z = 2. * jnp.eye(logits.shape[-1], dtype=logits.dtype) - 1.", "eye = jnp.eye(logits.shape[-1], dtype=logits.dtype)\n  z = eye - (1. - eye)"),
]
_VE = 'vmoe/nn/vit_moe_ensemble.py'
FIRE += [
    ('w-router', 'C37', V, "'NoisyTopExpertsPerItemRouter')", "'NoisyTopItemsPerExpertRouter')"),
    ('w-parsed-kw', 'C37', V, '(router_kwargs2 | router_kwargs)', 'router_kwargs'),
    ('w-parsed-pos', 'C37', V, '*router_args, ', ''),
    ('w-parsed-mod', 'C37', V, 'default_module=routing', 'default_module=None'),
    ('w-split-not', 'C37', V, "'params': 'params' in split_rngs", "'params': 'params' not in split_rngs"),
    ('w-ungroup', 'C37,C13', V, 'outputs.reshape(*inputs_shape[:-1], outputs.shape[-1])', 'outputs.reshape(inputs_shape[1], inputs_shape[0], outputs.shape[-1])'),
    ('w-group', 'C37,C13', V, 'inputs.reshape(-1, self.group_size, inputs.shape[-1])', 'inputs.reshape(self.group_size, -1, inputs.shape[-1])'),
    ('w-probe', 'C37', V, '(1, 1, x.shape[-1]), x.dtype)\n    probe', '(1, 2, x.shape[-1]), x.dtype)\n    probe'),
    ('w-bdrop', 'C37', V, '        broadcast_dropout=False,\n', ''),
    ('w-auxhalf', 'C37', V, "m['auxiliary_loss'] for m", "0.5 * m['auxiliary_loss'] for m"),
    ('w-temp', 'C37', V, '10_000.', '1_000.'),
    ('w-noln', 'C37', V, '    x = nn.LayerNorm(dtype=self.dtype)(inputs)', '    x = inputs'),
    ('w-cls1', 'C37', V, 'nn.initializers.zeros, (1, 1, x.shape[-1]))', 'nn.initializers.ones, (1, 1, x.shape[-1]))'),
    ('w-defcls', 'C37', V, "classifier: str = 'token'", "classifier: str = 'gap'"),
    ('w-alwaysmoe', 'C37', V, 'if block in moe_mlp_layers', 'if True'),
    ('w-nodrop', 'C37', V, '    x = nn.Dropout(rate=self.dropout_rate, deterministic=self.deterministic)(x)\n    x = x + inputs', '    x = x + inputs'),
    ('w-nodense', 'C37', V, '        x = encoder_block_cls(\n            name=f', '        y = encoder_block_cls(\n            name=f'),
    ('w-e-flag', 'C37', _VE, 'is_first_moe_mlp_layer = True', 'is_first_moe_mlp_layer = False'),
    ('w-e-flag2', 'C37,C12', _VE, '          is_first_moe_mlp_layer = False\n', ''),
    ('w-e-not', 'C37', _VE, 'if is_first_moe_mlp_layer:', 'if not is_first_moe_mlp_layer:'),
    ('w-e-cls', 'C37', _VE, 'encoder_cls: Type[nn.Module] = EncoderMoeEnsemble', 'encoder_cls: Type[nn.Module] = vmoe.nn.vit_moe.EncoderMoe'),
    ('w-e-names', 'C37', _VE, "            name=f'encoderblock_{block}', mlp_block=moe_mlp_cls", "            name=f'encoderblock_{len(metrics)}', mlp_block=moe_mlp_cls"),
]
QUIET += [
    ('x-reshape', 'C37,C13', V, 'inputs.reshape(-1, self.group_size, inputs.shape[-1])', 'inputs.reshape((inputs.shape[0] * inputs.shape[1] // self.group_size, self.group_size, inputs.shape[2]))'),
    ('x-ungroup', 'C37,C13', V, 'outputs.reshape(*inputs_shape[:-1], outputs.shape[-1])', 'outputs.reshape(inputs_shape[0], inputs_shape[1], -1)'),
    ('x-router', 'C37', V, '    return router_cls(*router_args, dtype=self.dtype, name=\'Router\',\n                      **(router_kwargs2 | router_kwargs))', '    router_kwargs = {**router_kwargs2, **router_kwargs}\n    return router_cls(*router_args, dtype=self.dtype, name=\'Router\', **router_kwargs)'),
    ('x-e-first', 'C37,C12', _VE, '        if is_first_moe_mlp_layer:\n          x = jnp.repeat(x, ensemble_size, axis=0)\n          is_first_moe_mlp_layer = False\n', '        if not repeated:\n          x = jnp.repeat(x, ensemble_size, axis=0)\n        repeated = True\n', 'is_first_moe_mlp_layer = True', 'repeated = False'),
    ('x-e-min', 'C37,C12', _VE, '        if is_first_moe_mlp_layer:\n', '        if not metrics:\n'),
]
