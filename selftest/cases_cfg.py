V = 'vmoe/configs/vmoe_paper/'
VC, PI, LF = V + 'common.py', V + 'pretrain_imagenet21k.py', V + 'vmoe_s32_last2_ilsvrc2012_randaug_light1_ft_ilsvrc2012.py'
LP = V + 'vmoe_s32_last2_ilsvrc2012_randaug_light1.py'
EE = 'vmoe/configs/eee_paper/eee_s32_last2_ilsvrc2012_ft_cifar100.py'
S = 'vmoe/projects/soft_moe/configs/'
SC, SJ, SL = S + 'common.py', S + 'pretrain_jft4b.py', S + 'pretrain_laion.py'
AT = 'vmoe/projects/adversarial_attacks/configs/attack/ilsvrc2012.py'
FIRE = [
    ('cf-mixkey', 'C31', VC, "config.size = 2", "config.num = 2"),
    ('cf-mixsig', 'C31', 'vmoe/train/trainer.py', "    granularity: str = 'device',\n    size: int = 2,", "    mode: str = 'device',\n    size: int = 2,"),
    ('cf-router', 'C31', SC, "'NoisyTopItemsPerExpertRouter'", "'NoisyTopTokensPerExpertRouter'"),
    ('cf-routerren', 'C31', 'vmoe/nn/routing.py', "class NoisyTopItemsPerExpertRouter(", "class NoisyTopTokensPerExpertRouter("),
    ('cf-schedule', 'C31', SC, "'big_vision_rsqrt'", "'vision_rsqrt'"),
    ('cf-schedule2', 'C31', SC, "config.learning_rate.timescale = 10_000", "config.learning_rate.time_scale = 10_000"),
    ('cf-optim', 'C31', LF, "'name': 'sgd'", "'name': 'momentum'"),
    ('cf-optim2', 'C31', LF, "'accumulator_dtype'", "'acc_dtype'"),
    ('cf-clip', 'C31', LF, "{'global_norm': 10.0}", "{'max_norm': 10.0}"),
    ('cf-loss', 'C31', PI, "'sigmoid_xent'", "'sigmoid_cross_entropy'"),
    ('cf-ens', 'C31', EE, "config.loss.ensemble_size = ENSEMBLE_SIZE", "config.loss.ensemble_size = NUM_EXPERTS"),
    ('cf-ens2', 'C31', EE, "  config.loss.ensemble_size = ENSEMBLE_SIZE\n", ""),
    ('cf-streams', 'C31', LP, "('dropout', 'gating', 'mixup')", "('dropout', 'gating')"),
    ('cf-streams2', 'C31', LF, "('dropout', 'gating')", "('dropout', 'noise')"),
    ('cf-pp', 'C31', LF, "|flip_lr|", "|flip|"),
    ('cf-ppren', 'C31', 'vmoe/data/pp_ops.py', "def flip_lr(", "def random_flip_lr("),
    ('cf-ppkeep', 'C31', PI, 'keep("image", "labels")', 'keep("image", "label")'),
    ('cf-pparg', 'C31', LF, 'onehot({NUM_CLASSES}, inkey="label"', 'onehot({NUM_CLASSES}, in_key="label"'),
    ('cf-classes', 'C31', AT, "onehot(1000,", "onehot(1001,"),
    ('cf-classes2', 'C31', AT, "'num_classes': 1000", "'num_classes': 21843"),
    ('cf-size', 'C31', LF, "process=f'decode|resize({IMAGE_SIZE})|{pp_common}')\n  # Dataset variation used for test.", "process=f'decode|resize(224)|{pp_common}')\n  # Dataset variation used for test."),
    ('cf-range', 'C31', LF, "f'decode|resize({IMAGE_SIZE})|value_range(-1,1)|'", "f'decode|resize({IMAGE_SIZE})|value_range(0,1)|'"),
    ('cf-heldout', 'C31', PI, "'full[102400:]'", "'full'"),
    ('cf-heldout2', 'C31', LF, "split='train[99%:]'", "split='train[98%:]'"),
    ('cf-layers', 'C31', AT, "(1, 3, 5, 7, 9, 11)", "(1, 3, 5, 7, 9, 12)"),
    ('cf-heads', 'C31', SC, "[3, 6, 12, 16, 16]", "[3, 5, 12, 16, 16]"),
    ('cf-group', 'C31', AT, "'group_size': ((384 // 16)**2 + 1) * 4", "'group_size': ((384 // 16)**2 + 2) * 4"),
    ('cf-parts', 'C31', AT, "config.num_expert_partitions = config.model.encoder.moe.num_experts", "config.num_expert_partitions = 3"),
    ('cf-axes', 'C31', LF, "config.params_axis_resources = [('Moe/Mlp/.*', ('expert',))]", "config.params_axis_resources = [('MoE/Mlp/.*', ('expert',))]"),
    ('cf-initname', 'C31', LF, "'initialize_from_vmoe'", "'initialize_from_vmoe_release'"),
    ('cf-initrule', 'C31', LF, "r'params/\\1', 'vit_zoom'", "r'params/\\1', 'vit-zoom'"),
    ('cf-initrule2', 'C31', LF, "('^(.*)$', r'params/\\1'),", "('^.*$', r'params/\\1'),"),
    ('cf-initkey', 'C31', LF, "'raise_if_target_unmatched'", "'raise_unmatched'"),
    ('cf-initsig', 'C31', 'vmoe/initialization/mapping.py', "                   raise_if_target_unmatched: bool = True):", "                   raise_if_unmatched: bool = True):", "                                       raise_if_target_unmatched)", "                                       raise_if_unmatched)"),
    ('cf-descr', 'C31', LF, "'ViT-S/32, E=8, K=2, Last 2, 300 Epochs'", "'ViT-Ti/32, E=8, K=2, Last 2, 300 Epochs'"),
    ('cf-table', 'C31', SJ, "      ('S', 16): 128,\n", ""),
    ('cf-ckpt', 'C31', VC, "config.save_checkpoint.keep_last = 1", "config.save_checkpoint.keep = 1"),
    ('cf-model', 'C31', SC, "'hidden_size': [192", "'hidden_dim': [192"),
    ('cf-enc', 'C31', SC, "'attention_qk_norm': True", "'qk_norm': True"),
    ('cf-encsig', 'C31', 'vmoe/nn/vit_moe.py', "  attention_qk_norm: bool = False\n  moe:", "  attention_norm_qk: bool = False\n  moe:", "attention_qk_norm=self.attention_qk_norm,\n        deterministic=self.deterministic,\n        dtype=self.dtype)\n\n    metrics", "attention_qk_norm=self.attention_norm_qk,\n        deterministic=self.deterministic,\n        dtype=self.dtype)\n\n    metrics"),
    ('cf-disp', 'C31', AT, "'name': 'einsum'", "'name': 'einsums'"),
    ('cf-cache', 'C31', LF, "cache='batched'", "cache='batch'"),
    ('cf-missing', 'C31', PI, "  config.loss.name = 'sigmoid_xent'\n", ""),
    ('cf-steps', 'C31', LF, "  config.train_steps = 10_000\n", "  config.train_steps = 10_000\n  config.train_epochs = 3\n"),
    ('cf-warm', 'C31', LF, "'warmup_steps': 500", "'warmup_steps': 50_000"),
    ('cf-unused', 'C31', LF, "config.extra_rng_keys", "config.extra_rngs"),
    ('cf-tower', 'C31', SL, "'bias_init'", "'b_init'"),
    ('cf-towername', 'C31', SL, "contrastive.models.TwoTower'", "contrastive.models.TwoTowers'"),
    ('cf-summ', 'C31', SJ, "'max_summary_values'", "'max_values'"),
    ('cf-select', 'C31', AT, "'num_selected_experts': 2", "'num_selected_experts': 16"),
]
QUIET = [
    ('q-cf-dict', 'C31', LP, "config.mixup = common.get_mixup_config('light1')", "config.mixup = ml_collections.ConfigDict({'size': 2, 'granularity': 'device', 'concentration': 0.2})"),
    ('q-cf-setattr', 'C31', PI, "config.loss.name = 'sigmoid_xent'", "setattr(config.loss, 'name', 'sigmoid_xent')"),
    ('q-cf-item', 'C31', PI, "config.loss.name = 'sigmoid_xent'", "config['loss']['name'] = 'sigmoid_xent'"),
    ('q-cf-update', 'C31', PI, "config.loss.name = 'sigmoid_xent'", "config.loss.update({'name': 'sigmoid_xent'})"),
    ('q-cf-update2', 'C31', PI, "config.loss.name = 'sigmoid_xent'", "config.loss.update(name='sigmoid_xent')"),
    ('q-cf-loop', 'C31', PI, "config.loss.name = 'sigmoid_xent'", "for key, value in {'name': 'sigmoid_xent'}.items():\n    config.loss[key] = value"),
    ('q-cf-local', 'C31', PI, "  config.loss = ml_collections.ConfigDict()\n  config.loss.name = 'sigmoid_xent'\n", "  loss = ml_collections.ConfigDict()\n  loss.name = 'sigmoid_xent'\n  config.loss = loss\n"),
    ('q-cf-unlocked', 'C31', PI, "  config.loss.name = 'sigmoid_xent'\n", "  with config.unlocked():\n    config.loss.name = 'sigmoid_xent'\n"),
    ('q-cf-helper', 'C31', PI, "  config.loss = ml_collections.ConfigDict()\n  config.loss.name = 'sigmoid_xent'\n", "  _set_loss(config)\n", "def get_hyper(", "def _set_loss(config):\n  config.loss = ml_collections.ConfigDict()\n  config.loss.name = 'sigmoid_xent'\n\n\ndef get_hyper("),
    ('q-cf-flat', 'C31', PI, "  config.loss.name = 'sigmoid_xent'\n", "  config.update_from_flattened_dict({'loss.name': 'sigmoid_xent'})\n"),
    ('q-cf-pp', 'C31', LF, "process=(\n          f'decode_jpeg_and_inception_crop({IMAGE_SIZE})|flip_lr|{pp_common}')", "process='|'.join([f'decode_jpeg_and_inception_crop({IMAGE_SIZE})', 'flip_lr', pp_common])"),
    ('q-cf-ppfmt', 'C31', LF, "f'decode_jpeg_and_inception_crop({IMAGE_SIZE})|flip_lr|{pp_common}'", "'decode_jpeg_and_inception_crop({})|flip_lr|{}'.format(IMAGE_SIZE, pp_common)"),
    ('q-cf-ppfmt2', 'C31', LF, "f'decode_jpeg_and_inception_crop({IMAGE_SIZE})|flip_lr|{pp_common}'", "'decode_jpeg_and_inception_crop(%d)|flip_lr|%s' % (IMAGE_SIZE, pp_common)"),
    ('q-cf-table', 'C31', SC, "  variant_idx = ['Ti', 'S', 'B', 'L', 'H'].index(variant)\n", "  variant_idx = {'Ti': 0, 'S': 1, 'B': 2, 'L': 3, 'H': 4}[variant]\n"),
    ('q-cf-layers', 'C31', SC, "tuple(range(config.encoder.num_layers))[-last_n:]", "tuple(range(config.encoder.num_layers - last_n, config.encoder.num_layers))"),
    ('q-cf-where', 'C31', SJ, "  if model_type == 'vit':\n    config.model =", "  if 'vit' == model_type:\n    config.model ="),
    ('q-cf-guard', 'C31', LF, "  config = common.get_base_config()\n", "  config = common.get_base_config()\n  if IMAGE_SIZE % 32:\n    raise ValueError('Wrong size.')\n"),
    ('q-cf-kw', 'C31', PI, "onehot({NUM_CLASSES})", "onehot(depth={NUM_CLASSES})"),
    ('q-cf-seed', 'C31', VC, "  config.seed = 0\n", "  config.seed = 42\n"),
    ('q-cf-param', 'C31', 'vmoe/train/trainer.py', "    size: int = 2,\n    partition_spec", "    size: int = 2,\n    verbose: bool = False,\n    partition_spec"),
]
