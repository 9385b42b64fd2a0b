From bc3d89ac9b166359ab3e5b388d70f0eb3debad96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:59 +0000
Subject: [PATCH 01/10] fix: a step with any temporary checkpoint file is not
 complete

iterate_complete_steps_for_prefix() dropped (step, suffix) pairs with a temp
file, so a step whose '.data' shard was still being written was reported as
complete when only '.index' was required, contrary to the documentation.
---
 vmoe/checkpoints/base.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vmoe/checkpoints/base.py b/vmoe/checkpoints/base.py
index 01ff717..dea0659 100644
--- a/vmoe/checkpoints/base.py
+++ b/vmoe/checkpoints/base.py
@@ -111,13 +111,13 @@ def iterate_complete_steps_for_prefix(
   # Remove any steps where there is an associated temp file.
   workdir = os.path.dirname(prefix)
   pattern_tmp = os.path.join(workdir, f'.tmp.{os.path.basename(prefix)}') + '*'
-  incomplete_steps_and_suffixes = set(
-      map(_parse_step_and_suffix_or_error, gfile.glob(pattern_tmp)))
+  incomplete_steps = set(
+      _parse_step_and_suffix_or_error(f)[0] for f in gfile.glob(pattern_tmp))
 
   for step, group in itertools.groupby(
-      sorted(steps_and_suffixes - incomplete_steps_and_suffixes,
-             reverse=decreasing),
-      lambda x: x[0]):
+      sorted(steps_and_suffixes, reverse=decreasing), lambda x: x[0]):
+    if step in incomplete_steps:
+      continue
     if not suffixes.difference(set(x[1] for x in group)):
       yield step
 
-- 
2.43.0


From 2ea5fe9d50738018047314173a9202b8cf046c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:04 +0000
Subject: [PATCH 02/10] fix: order checkpoint steps by step number only

A step with files both with and without suffix (e.g. 'ckpt_1' and
'ckpt_1.index') made the discovery of complete steps fail, because the
suffixes (None and str) were compared to break ties.
---
 vmoe/checkpoints/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vmoe/checkpoints/base.py b/vmoe/checkpoints/base.py
index dea0659..d83a81d 100644
--- a/vmoe/checkpoints/base.py
+++ b/vmoe/checkpoints/base.py
@@ -115,7 +115,8 @@ def iterate_complete_steps_for_prefix(
       _parse_step_and_suffix_or_error(f)[0] for f in gfile.glob(pattern_tmp))
 
   for step, group in itertools.groupby(
-      sorted(steps_and_suffixes, reverse=decreasing), lambda x: x[0]):
+      sorted(steps_and_suffixes, key=lambda x: x[0], reverse=decreasing),
+      lambda x: x[0]):
     if step in incomplete_steps:
       continue
     if not suffixes.difference(set(x[1] for x in group)):
-- 
2.43.0


From e0ada12cb636d7ad65732d8abf124f6ca38df46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:30 +0000
Subject: [PATCH 03/10] fix: restore sharded checkpoints with zero-size arrays

A zero-size chunk was written with no subchunks, which the decoder cannot
concatenate, and its (empty) intersection was then used as a slice.
---
 vmoe/checkpoints/partitioned.py   | 4 ++--
 vmoe/checkpoints/serialization.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/vmoe/checkpoints/partitioned.py b/vmoe/checkpoints/partitioned.py
index a7d0402..601a579 100644
--- a/vmoe/checkpoints/partitioned.py
+++ b/vmoe/checkpoints/partitioned.py
@@ -528,8 +528,8 @@ def _restore_local_buffers(
         ckpt_chunks.chunks[i], ckpt_chunks.global_slices[i]):
       for global_slice, buffer in local_buffers[i].items():
         intersect_slice = _intersect_slicend(global_slice, ckpt_slice)
-        if (global_slice == ckpt_slice or  # account for scalars with shape ().
-            intersect_slice):
+        # Note: scalars, with shape (), have an empty intersection slice.
+        if intersect_slice is not None:
           local_intersect_slice = tuple(
               slice(a.start - b.start, a.stop - b.start)
               for a, b in safe_zip(intersect_slice, global_slice))
diff --git a/vmoe/checkpoints/serialization.py b/vmoe/checkpoints/serialization.py
index 2c0bbe3..62e6c65 100644
--- a/vmoe/checkpoints/serialization.py
+++ b/vmoe/checkpoints/serialization.py
@@ -216,7 +216,7 @@ def _lazy_array_chunks_encode(
     subchunk_size = max(1, int(_MAX_CHUNK_SIZE / chunk.dtype.itemsize))
     subchunks = [
         chunk[i:i + subchunk_size]
-        for i in range(0, chunk.size, subchunk_size)
+        for i in range(0, max(1, chunk.size), subchunk_size)
     ]
     return [subchunks, global_slice]
 
-- 
2.43.0


From 96e03fb227b54e1ae33e92892ce98c23c3e58a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:29 +0000
Subject: [PATCH 04/10] fix: mixup leaves the PRNG keys of the given state
 untouched

---
 vmoe/train/trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmoe/train/trainer.py b/vmoe/train/trainer.py
index 3c5e581..63ae3f9 100644
--- a/vmoe/train/trainer.py
+++ b/vmoe/train/trainer.py
@@ -934,7 +934,7 @@ def wrap_train_step_with_mixup(
       raise ValueError(f'Mixup requires a PRNGKey with the name "mixup", but '
                        f'only these were given: {sorted(state.rngs.keys())}')
     frozen_rngs = isinstance(state.rngs, flax.core.FrozenDict)
-    rngs = flax.core.unfreeze(state.rngs) if frozen_rngs else state.rngs
+    rngs = flax.core.unfreeze(state.rngs) if frozen_rngs else dict(state.rngs)
     # Apply mixup on images and labels.
     mixup_rng = rngs.pop('mixup')
     mixup_rng, next_mixup_rng = jax.random.split(mixup_rng)
-- 
2.43.0


From 6d1c71e141e185290c372167923973538d665a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:57 +0000
Subject: [PATCH 05/10] fix: weight decay pairs updates and parameters by name

add_decayed_weights paired the flattened updates with the flattened
parameters by position. The two trees may list the same names in a
different order (tree_map sorts the keys of dicts), and then a parameter
was decayed by the value of another one.
---
 vmoe/train/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmoe/train/optimizer.py b/vmoe/train/optimizer.py
index f90ff58..2d328c8 100644
--- a/vmoe/train/optimizer.py
+++ b/vmoe/train/optimizer.py
@@ -79,7 +79,7 @@ def add_decayed_weights(
         lambda k, g, p: (k, g + weight_decay_fn(k) * p),
         flatupdates.keys(),
         flatupdates.values(),
-        flatparams.values()))
+        [flatparams[k] for k in flatupdates]))
     updates = flax.serialization.from_state_dict(
         updates, flax.traverse_util.unflatten_dict(flatupdates, sep='/'))
     return updates, state
-- 
2.43.0


From 4666dbc70d16133af36cdb16542e229dafbe6d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:02 +0000
Subject: [PATCH 06/10] fix: the ensemble encoder honours position_emb and
 attention_qk_norm

---
 vmoe/nn/vit_moe_ensemble.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/vmoe/nn/vit_moe_ensemble.py b/vmoe/nn/vit_moe_ensemble.py
index b202b7d..1f15cac 100644
--- a/vmoe/nn/vit_moe_ensemble.py
+++ b/vmoe/nn/vit_moe_ensemble.py
@@ -80,9 +80,7 @@ class EncoderMoeEnsemble(vmoe.nn.vit_moe.EncoderMoe):
   @nn.compact
   def __call__(self, inputs):
     assert inputs.ndim == 3, f'Expected ndim = 3, but got shape {inputs.shape}'
-    x = vmoe.nn.vit_moe.AddPositionEmbs(
-        posemb_init=nn.initializers.normal(stddev=0.02),  # from BERT.
-        name='posembed_input')(inputs)
+    x = self.add_position_emb(inputs)
     x = nn.Dropout(rate=self.dropout_rate, deterministic=self.deterministic)(x)
 
     dense_mlp_params = dict(mlp_dim=self.mlp_dim,
@@ -102,6 +100,7 @@ class EncoderMoeEnsemble(vmoe.nn.vit_moe.EncoderMoe):
         num_heads=self.num_heads,
         dropout_rate=self.dropout_rate,
         attention_dropout_rate=self.attention_dropout_rate,
+        attention_qk_norm=self.attention_qk_norm,
         deterministic=self.deterministic,
         dtype=self.dtype)
 
-- 
2.43.0


From 5ff932d2046a876a93d44782bdba335084f25605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:07 +0000
Subject: [PATCH 07/10] fix: the two-tower model reports the auxiliary loss of
 its towers

---
 vmoe/projects/contrastive/models.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vmoe/projects/contrastive/models.py b/vmoe/projects/contrastive/models.py
index e105210..9e41fd8 100644
--- a/vmoe/projects/contrastive/models.py
+++ b/vmoe/projects/contrastive/models.py
@@ -158,6 +158,12 @@ class TwoTower(nn.Module):
       self.sow('intermediates', 'ztxt', ztxt)
       metrics['txt'] = metrics_txt
 
+    # The trainer adds metrics['auxiliary_loss'] to the training loss.
+    auxiliary_losses = [
+        m['auxiliary_loss'] for m in metrics.values() if 'auxiliary_loss' in m]
+    if auxiliary_losses:
+      metrics['auxiliary_loss'] = sum(auxiliary_losses)
+
     if images is None:
       # Return text embeddings and metrics.
       return ztxt, metrics
-- 
2.43.0


From 9106f0bc6ee180fba96de1ff277f384cbc4a689a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:29 +0000
Subject: [PATCH 08/10] fix: the ImageNet-21k configuration uses mixup's option
 size

---
 vmoe/configs/vmoe_paper/pretrain_imagenet21k.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmoe/configs/vmoe_paper/pretrain_imagenet21k.py b/vmoe/configs/vmoe_paper/pretrain_imagenet21k.py
index cb6d3a2..d2c3ebd 100644
--- a/vmoe/configs/vmoe_paper/pretrain_imagenet21k.py
+++ b/vmoe/configs/vmoe_paper/pretrain_imagenet21k.py
@@ -73,7 +73,7 @@ def get_config():
   config.train_epochs = get_num_epochs(config.description)
   config.mixup = ml_collections.ConfigDict()
   config.mixup.concentration = 0.5
-  config.mixup.mixup_size = 2
+  config.mixup.size = 2
 
   # These control how the model parameters are partitioned across the device
   # mesh for running the models efficiently.
-- 
2.43.0


From 8ac5b187f2b1ed13558190ce6a29e8b38d6a9c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:29 +0000
Subject: [PATCH 09/10] fix: the Soft MoE configurations name the router by its
 full path

---
 vmoe/projects/soft_moe/configs/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmoe/projects/soft_moe/configs/common.py b/vmoe/projects/soft_moe/configs/common.py
index db589c0..f066970 100644
--- a/vmoe/projects/soft_moe/configs/common.py
+++ b/vmoe/projects/soft_moe/configs/common.py
@@ -254,7 +254,7 @@ def get_vmoe_soft_router_config(
       'group_size': (image_size // patch_size)**2,
       'split_rngs': False,
       'router': {
-          'name': 'SoftRouter',
+          'name': 'vmoe.projects.soft_moe.router.SoftRouter',
           'capacity_factor': capacity_factor,
           'num_slots': num_slots,
           'partition_spec': (('expert', 'replica'),),
-- 
2.43.0


From 716d9c6fff0267468ee1321cf5195e7f2dcbd546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:05 +0000
Subject: [PATCH 10/10] fix: combine with the gates of the noisy logits in the
 KL top-experts router

---
 vmoe/projects/sparsity_constrained_ot/kl_projection_routing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmoe/projects/sparsity_constrained_ot/kl_projection_routing.py b/vmoe/projects/sparsity_constrained_ot/kl_projection_routing.py
index 914e673..cf91931 100644
--- a/vmoe/projects/sparsity_constrained_ot/kl_projection_routing.py
+++ b/vmoe/projects/sparsity_constrained_ot/kl_projection_routing.py
@@ -105,7 +105,7 @@ class KLProjectionNoisyTopExpertsPerItemRouter(
       logits_noise = noise_std * jax.random.normal(
           key=self.make_rng("gating"), shape=gates_logits.shape)
       gates_logits_noisy = gates_logits + logits_noise
-      gates_softmax_noisy = jax.nn.softmax(gates_logits)
+      gates_softmax_noisy = jax.nn.softmax(gates_logits_noisy)
       gates_plan_noisy = kl_projection_algorithm(sim_matrix=gates_logits_noisy)
       if self.load_loss_weight == 0.0:
         # no need to compute the loss in this case
-- 
2.43.0

