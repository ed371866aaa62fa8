From d4c433713c6b925f4a3dbd461ab9e0fd5334d6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:32 +0000
Subject: [PATCH 01/20] fix: do not report checkpoints with missing or
 temporary shards as complete

A step was considered complete as soon as one shard of each required suffix
existed, and a temporary file only disqualified its own suffix. A job that died
before writing all its shards left a step that was reported as complete but
could not be restored.
---
 vmoe/checkpoints/base.py | 46 ++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/vmoe/checkpoints/base.py b/vmoe/checkpoints/base.py
index 01ff717..288b794 100644
--- a/vmoe/checkpoints/base.py
+++ b/vmoe/checkpoints/base.py
@@ -13,8 +13,8 @@
 # limitations under the License.
 
 """Base functions for checkpointing."""
+import collections
 import functools
-import itertools
 import multiprocessing.pool
 import os
 import re
@@ -72,8 +72,8 @@ def iterate_complete_steps_for_prefix(
     decreasing: bool = False) -> Iterator[int]:
   """Iterates over steps with complete checkpoints from a given prefix.
 
-  Complete steps are those for which there are not incomplete (temp) checkpoint
-  shards and for which all suffixes are present.
+  Complete steps are those for which there are not incomplete (temp) or missing
+  checkpoint shards and for which all suffixes are present.
 
   E.g. If the prefix is '/dir/ckpt', the suffixes are ('.index', '.data') and
   the files in '/dir/' are: '/dir/ckpt_1.index', '/dir/ckpt_1.data',
@@ -94,7 +94,7 @@ def iterate_complete_steps_for_prefix(
     suffixes = (None,)
   suffixes = set(suffixes)
 
-  def _parse_step_and_suffix_or_error(filepath):
+  def _parse_filepath_or_error(filepath):
     m = CHECKPOINT_REGEX.fullmatch(filepath)
     assert m is not None, (
         f'Filepath {filepath!r} does not match CHECKPOINT_REGEX. '
@@ -103,22 +103,32 @@ def iterate_complete_steps_for_prefix(
       raise ValueError(f'Filepath {filepath!r} does not contain a step number.')
     step = int(m.group(2)[1:])
     suffix = m.group(3)
-    return step, suffix
-
-  # Find set of (step, suffix) from the given prefix.
-  steps_and_suffixes = set(
-      map(_parse_step_and_suffix_or_error, gfile.glob(prefix + '*')))
-  # Remove any steps where there is an associated temp file.
+    if m.group(4) is None:
+      shard, shard_count = 0, 1
+    else:
+      shard, shard_count = map(int, m.group(4)[1:].split('-of-'))
+    return step, suffix, shard, shard_count
+
+  # For each step, find the shards present of each (suffix, shard_count).
+  step_to_shards = collections.defaultdict(
+      lambda: collections.defaultdict(set))
+  for filepath in gfile.glob(prefix + '*'):
+    step, suffix, shard, shard_count = _parse_filepath_or_error(filepath)
+    step_to_shards[step][(suffix, shard_count)].add(shard)
+  # Ignore any steps where there is an associated temp file.
   workdir = os.path.dirname(prefix)
   pattern_tmp = os.path.join(workdir, f'.tmp.{os.path.basename(prefix)}') + '*'
-  incomplete_steps_and_suffixes = set(
-      map(_parse_step_and_suffix_or_error, gfile.glob(pattern_tmp)))
-
-  for step, group in itertools.groupby(
-      sorted(steps_and_suffixes - incomplete_steps_and_suffixes,
-             reverse=decreasing),
-      lambda x: x[0]):
-    if not suffixes.difference(set(x[1] for x in group)):
+  incomplete_steps = set(
+      _parse_filepath_or_error(filepath)[0]
+      for filepath in gfile.glob(pattern_tmp))
+
+  for step in sorted(step_to_shards, reverse=decreasing):
+    present_suffixes = set(suffix for suffix, _ in step_to_shards[step])
+    complete_suffixes = set(
+        suffix for (suffix, shard_count), shards in step_to_shards[step].items()
+        if len(shards) == shard_count)
+    if (step not in incomplete_steps and
+        complete_suffixes.issuperset(present_suffixes | suffixes)):
       yield step
 
 
-- 
2.43.0


From cefb4978bc3381579b4cd2160241c712c5143c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:12 +0000
Subject: [PATCH 02/20] fix: ignore checkpoints of other prefixes when looking
 for complete steps

The files of e.g. 'ckpt_ema_7' were considered part of step 7 of the prefix
'ckpt', so a checkpoint that does not exist could be reported as the latest.
---
 vmoe/checkpoints/base.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/vmoe/checkpoints/base.py b/vmoe/checkpoints/base.py
index 288b794..403a216 100644
--- a/vmoe/checkpoints/base.py
+++ b/vmoe/checkpoints/base.py
@@ -94,13 +94,22 @@ def iterate_complete_steps_for_prefix(
     suffixes = (None,)
   suffixes = set(suffixes)
 
-  def _parse_filepath_or_error(filepath):
+  def _parse_filepaths_or_error(filepaths, expected_prefix):
+    for filepath in filepaths:
+      output = _parse_filepath_or_error(filepath, expected_prefix)
+      if output is not None:
+        yield output
+
+  def _parse_filepath_or_error(filepath, expected_prefix):
     m = CHECKPOINT_REGEX.fullmatch(filepath)
     assert m is not None, (
         f'Filepath {filepath!r} does not match CHECKPOINT_REGEX. '
         f'This should not happen.')
     if m.group(2) is None:
       raise ValueError(f'Filepath {filepath!r} does not contain a step number.')
+    if os.path.basename(m.group(1)) != os.path.basename(expected_prefix):
+      # Checkpoint from another prefix, e.g. 'ckpt_ema_1' when using 'ckpt'.
+      return None
     step = int(m.group(2)[1:])
     suffix = m.group(3)
     if m.group(4) is None:
@@ -112,15 +121,15 @@ def iterate_complete_steps_for_prefix(
   # For each step, find the shards present of each (suffix, shard_count).
   step_to_shards = collections.defaultdict(
       lambda: collections.defaultdict(set))
-  for filepath in gfile.glob(prefix + '*'):
-    step, suffix, shard, shard_count = _parse_filepath_or_error(filepath)
+  for step, suffix, shard, shard_count in _parse_filepaths_or_error(
+      gfile.glob(prefix + '*'), prefix):
     step_to_shards[step][(suffix, shard_count)].add(shard)
   # Ignore any steps where there is an associated temp file.
   workdir = os.path.dirname(prefix)
-  pattern_tmp = os.path.join(workdir, f'.tmp.{os.path.basename(prefix)}') + '*'
+  prefix_tmp = os.path.join(workdir, f'.tmp.{os.path.basename(prefix)}')
   incomplete_steps = set(
-      _parse_filepath_or_error(filepath)[0]
-      for filepath in gfile.glob(pattern_tmp))
+      step for step, *_ in _parse_filepaths_or_error(
+          gfile.glob(prefix_tmp + '*'), prefix_tmp))
 
   for step in sorted(step_to_shards, reverse=decreasing):
     present_suffixes = set(suffix for suffix, _ in step_to_shards[step])
-- 
2.43.0


From 762d23fc01f0fb5ea721ccaae657e2bc8674276e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:45 +0000
Subject: [PATCH 03/20] fix: restore checkpoints with zero-size arrays

Saving a tree with an array that has no elements succeeded, but the checkpoint
could never be restored.
---
 vmoe/checkpoints/partitioned.py   | 4 ++--
 vmoe/checkpoints/serialization.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/vmoe/checkpoints/partitioned.py b/vmoe/checkpoints/partitioned.py
index a7d0402..6349a9c 100644
--- a/vmoe/checkpoints/partitioned.py
+++ b/vmoe/checkpoints/partitioned.py
@@ -528,8 +528,8 @@ def _restore_local_buffers(
         ckpt_chunks.chunks[i], ckpt_chunks.global_slices[i]):
       for global_slice, buffer in local_buffers[i].items():
         intersect_slice = _intersect_slicend(global_slice, ckpt_slice)
-        if (global_slice == ckpt_slice or  # account for scalars with shape ().
-            intersect_slice):
+        # Note: this is an empty SliceNd (not None) for scalars with shape ().
+        if intersect_slice is not None:
           local_intersect_slice = tuple(
               slice(a.start - b.start, a.stop - b.start)
               for a, b in safe_zip(intersect_slice, global_slice))
diff --git a/vmoe/checkpoints/serialization.py b/vmoe/checkpoints/serialization.py
index 2c0bbe3..88af2b0 100644
--- a/vmoe/checkpoints/serialization.py
+++ b/vmoe/checkpoints/serialization.py
@@ -216,7 +216,8 @@ def _lazy_array_chunks_encode(
     subchunk_size = max(1, int(_MAX_CHUNK_SIZE / chunk.dtype.itemsize))
     subchunks = [
         chunk[i:i + subchunk_size]
-        for i in range(0, chunk.size, subchunk_size)
+        # Note: an empty chunk is stored as a single (empty) subchunk.
+        for i in range(0, max(1, chunk.size), subchunk_size)
     ]
     return [subchunks, global_slice]
 
-- 
2.43.0


From 40168447118a62817d42e5d9ac88cba959b99e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:16 +0000
Subject: [PATCH 04/20] fix: decay each parameter with its own value

The gradients and the parameters were paired by their order in the
dictionaries, which differs when the parameters were not created in
alphabetical order (JAX sorts the keys of the gradients), so a parameter could
be decayed with the value of another one.
---
 vmoe/train/optimizer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vmoe/train/optimizer.py b/vmoe/train/optimizer.py
index f90ff58..93a3f3f 100644
--- a/vmoe/train/optimizer.py
+++ b/vmoe/train/optimizer.py
@@ -75,11 +75,11 @@ def add_decayed_weights(
         flax.serialization.to_state_dict(updates), sep='/')
     flatparams = flax.traverse_util.flatten_dict(
         flax.serialization.to_state_dict(params), sep='/')
+    # Note: the keys of updates and params may be in different order.
     flatupdates = dict(utils.safe_map(
-        lambda k, g, p: (k, g + weight_decay_fn(k) * p),
+        lambda k, g: (k, g + weight_decay_fn(k) * flatparams[k]),
         flatupdates.keys(),
-        flatupdates.values(),
-        flatparams.values()))
+        flatupdates.values()))
     updates = flax.serialization.from_state_dict(
         updates, flax.traverse_util.unflatten_dict(flatupdates, sep='/'))
     return updates, state
-- 
2.43.0


From 2065cc1f5059427ddff371a38cacdb22ca8d0ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:16 +0000
Subject: [PATCH 05/20] fix: keep the rsqrt learning rate at zero after the
 cooldown

It became negative (i.e. gradient ascent) when training for more than
decay_steps steps.
---
 vmoe/train/schedule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vmoe/train/schedule.py b/vmoe/train/schedule.py
index 91b8460..c794f86 100644
--- a/vmoe/train/schedule.py
+++ b/vmoe/train/schedule.py
@@ -16,6 +16,7 @@
 import math
 
 import jax
+import jax.numpy as jnp
 import optax
 
 
@@ -102,7 +103,7 @@ def big_vision_rsqrt_schedule(
   def _cooldown(count):
     # Note: count starts from 0, optax.join_schedules subtracts
     # decay_steps - cooldown_steps.
-    return cooldown_peak_value * (1 - count / cooldown_steps)
+    return cooldown_peak_value * jnp.maximum(0., 1. - count / cooldown_steps)
 
   schedules, boundaries = [], []
   # Warmup phase.
-- 
2.43.0


From e8e916f1162f64d42bf0c5ee4ed733373e1cfa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:16 +0000
Subject: [PATCH 06/20] fix: reject a zero timescale in the rsqrt schedule with
 a clear error

---
 vmoe/train/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmoe/train/schedule.py b/vmoe/train/schedule.py
index c794f86..ece4683 100644
--- a/vmoe/train/schedule.py
+++ b/vmoe/train/schedule.py
@@ -87,7 +87,7 @@ def big_vision_rsqrt_schedule(
     raise ValueError('decay_steps must be greater than or equal to '
                      f'warmup_steps + cooldown_steps, but got {decay_steps}, '
                      f'{warmup_steps} and {cooldown_steps}, respectively.')
-  if timescale < 0:
+  if timescale <= 0:
     raise ValueError(f'timescale must be positive, but got {timescale}')
 
   # This is the value of the learning rate just before the cooldown.
-- 
2.43.0


From 9fbf68f8d047606338def17614ae87a92c810277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:52 +0000
Subject: [PATCH 07/20] fix: do not leave a temp file behind when a checkpoint
 file cannot be renamed

When a checkpoint already exists and overwrite=False, saving raised an error but
left the temp file, and the existing (intact) checkpoint was then considered
incomplete.
---
 vmoe/checkpoints/base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vmoe/checkpoints/base.py b/vmoe/checkpoints/base.py
index 403a216..e913be7 100644
--- a/vmoe/checkpoints/base.py
+++ b/vmoe/checkpoints/base.py
@@ -192,7 +192,13 @@ def save_checkpoint(filepath: str,
   temp_filepath = os.path.join(wdir, '.tmp.' + os.path.basename(filepath))
   with gfile.GFile(temp_filepath, 'wb') as fp:
     fp.write(serialization.to_bytes(tree))
-  gfile.rename(temp_filepath, filepath, overwrite=overwrite)
+  try:
+    gfile.rename(temp_filepath, filepath, overwrite=overwrite)
+  except Exception:
+    # A temp file left behind would make an existing checkpoint with the same
+    # filepath look incomplete.
+    gfile.remove(temp_filepath)
+    raise
   return filepath
 
 
-- 
2.43.0


From f14c1ab0be3d7fbd0fbf817848999adf6341f70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:40 +0000
Subject: [PATCH 08/20] fix: no NaN learning rate after a polynomial decay with
 a fractional power

---
 vmoe/train/schedule.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vmoe/train/schedule.py b/vmoe/train/schedule.py
index ece4683..9f77a89 100644
--- a/vmoe/train/schedule.py
+++ b/vmoe/train/schedule.py
@@ -47,7 +47,7 @@ def warmup_polynomial_decay_schedule(peak_value: float, end_value: float,
                                      power: float, warmup_steps: int,
                                      decay_steps: int) -> optax.Schedule:
   """Linear warmup followed by polynomial decay."""
-  return optax.join_schedules([
+  fn = optax.join_schedules([
       optax.linear_schedule(
           init_value=0.0, end_value=peak_value, transition_steps=warmup_steps),
       optax.polynomial_schedule(
@@ -56,6 +56,10 @@ def warmup_polynomial_decay_schedule(peak_value: float, end_value: float,
           power=power,
           transition_steps=decay_steps - warmup_steps)
   ], [warmup_steps])
+  # When jitted, XLA may replace the division by transition_steps by a
+  # multiplication, and after the decay the base of the power can be slightly
+  # negative, which is NaN for a fractional power.
+  return lambda count: jnp.where(count < decay_steps, fn(count), end_value)
 
 
 def big_vision_rsqrt_schedule(
-- 
2.43.0


From 7288e9ef3b72467c403026db5e200a5952a8fc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:42 +0000
Subject: [PATCH 09/20] fix: SoftRouter mu_similarity_max when all similarities
 are negative

The diagonal was replaced by the maximum of the matrix with a zero diagonal,
so that mu_similarity_max was never below 0.
---
 vmoe/projects/soft_moe/router.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vmoe/projects/soft_moe/router.py b/vmoe/projects/soft_moe/router.py
index 2dbb3bc..360b91b 100644
--- a/vmoe/projects/soft_moe/router.py
+++ b/vmoe/projects/soft_moe/router.py
@@ -158,8 +158,10 @@ class SoftRouter(nn.Module):
       assert mu.ndim == 3 and mu.shape[1:] == (n, p)
       mu_sim = cosine_psim(mu, batch_axes=(), contract_axes=(0,))
       mu_id = jnp.eye(n * p)[None, :, :].reshape((n, p, n, p))
-      mu_sim_masked = (1 - mu_id) * mu_sim
-      mu_sim_masked += mu_id * mu_sim_masked.max()
+      # Mask "diagonal" elements in the matrix with the highest value (unlike
+      # the similarities above, these can all be negative).
+      mu_sim_max = jnp.where(mu_id, -1., mu_sim).max()
+      mu_sim_masked = jnp.where(mu_id, mu_sim_max, mu_sim)
       metrics['mu_similarity_min'] = mu_sim_masked.min()
       metrics['mu_similarity_max'] = mu_sim_masked.max()
       metrics['mu_similarity_mean'] = (
-- 
2.43.0


From dac97e01ef03025dad52beebc2cf58d6850ca923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:04 +0000
Subject: [PATCH 10/20] fix: replace filtered examples by fake ones in
 evaluation datasets

With pre_filter_fn, the number of fake examples was computed from the
unfiltered split: the last examples could be dropped (drop_remainder=True) and
the processes could do a different number of steps.
---
 vmoe/data/input_pipeline.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/vmoe/data/input_pipeline.py b/vmoe/data/input_pipeline.py
index f895ccf..bf9a138 100644
--- a/vmoe/data/input_pipeline.py
+++ b/vmoe/data/input_pipeline.py
@@ -106,6 +106,7 @@ def get_dataset(
                      f'and {jax.device_count()} respectively.')
   batch_size_per_process = batch_size // jax.process_count()
   data = builder.as_dataset()
+  num_examples = int(data.cardinality())
   data = data.filter(pre_filter_fn) if pre_filter_fn is not None else data
   # Optionally, cache loaded data.
   if cache == 'loaded':
@@ -130,12 +131,21 @@ def get_dataset(
       deterministic=False)
   if variant != 'train':
     num_fake_examples = builder.get_num_fake_examples(batch_size_per_process)
+    num_total_examples = num_examples + num_fake_examples
+    # Examples that are filtered out must be replaced by fake ones. Otherwise, the
+    # processes could do a different number of steps and the last examples could
+    # be dropped.
+    replace_filtered = pre_filter_fn is not None and num_examples >= 0
+    if replace_filtered:
+      num_fake_examples = num_total_examples
     if num_fake_examples > 0:
       fake_elem = tf.nest.map_structure(
           lambda spec: tf.zeros(spec.shape, spec.dtype), data.element_spec)
       fake_data = tf.data.Dataset.from_tensors(fake_elem)
       fake_data = fake_data.repeat(num_fake_examples).cache()
       data = data.concatenate(fake_data)
+      if replace_filtered:
+        data = data.take(num_total_examples)
   # Batch data.
   data = data.batch(batch_size_per_process, drop_remainder=True)
   # Optionally, cache data after batching.
-- 
2.43.0


From 0a4f121568efe796afd68e7e3da8450e8b8410fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:20 +0000
Subject: [PATCH 11/20] fix: get_logical_mesh_tile_by_process keeps the devices
 of a process together

The devices of a process were not a contiguous slice of the logical mesh when an
axis of the hardware mesh had both several partitions and several replicas.
---
 vmoe/partitioning.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/vmoe/partitioning.py b/vmoe/partitioning.py
index 6a0a087..4a1cfc2 100644
--- a/vmoe/partitioning.py
+++ b/vmoe/partitioning.py
@@ -277,15 +277,16 @@ def get_logical_mesh_tile_by_process(
     hardware_mesh_local_shape: Tuple[int, ...]) -> Mesh:
   """Returns a logical mesh where all process' devices form a contiguous slice."""
   # Split each axis of the hardware mesh in
-  # (partitions_process, partitions_device, replica_process, replica_device).
-  # For TPUs: (Z, Y, X, C) -> (Z_P_H, Z_P_D, Z_R_H, Z_R_D, Y_P_H, ...).
+  # (partitions_process, replica_process, partitions_device, replica_device).
+  # Notice that the devices of a process are consecutive in each axis.
+  # For TPUs: (Z, Y, X, C) -> (Z_P_H, Z_R_H, Z_P_D, Z_R_D, Y_P_H, ...).
   def fn(p, r, l):
     # (p, r) are the number of (partitions, replicas) across a given axis.
     # l is the number of devices per process across a given axis.
     if p % l == 0:
-      return p // l, l, r, 1
+      return p // l, r, l, 1
     elif r % l == 0:
-      return 1, p, r // l, l
+      return p, r // l, 1, l
     else:
       raise ValueError(
           f'Neither p = {p}, nor r = {r} are multiples of l = {l}')
@@ -296,8 +297,8 @@ def get_logical_mesh_tile_by_process(
   # Put all partition_process axes first, then partition_devices axes, then
   # all replica_process axes, and finally all replica_device axes.
   devices = devices.transpose(tuple(range(0, 4 * hardware_mesh.ndim, 4)) +
-                              tuple(range(1, 4 * hardware_mesh.ndim, 4)) +
                               tuple(range(2, 4 * hardware_mesh.ndim, 4)) +
+                              tuple(range(1, 4 * hardware_mesh.ndim, 4)) +
                               tuple(range(3, 4 * hardware_mesh.ndim, 4)))
   # Reshape devices to (num_partitions, num_replicas).
   num_partitions = np.prod(partitions)
-- 
2.43.0


From c3d53baabf6575c19aadfe2bb33f7fe21b29c5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:31 +0000
Subject: [PATCH 12/20] fix: ignore items over capacity in get_combine_weights
 with indices dispatcher

The experts without capacity left for an item were reported as processing it
with the ExpertIndicesDispatcher, but not with the EinsumDispatcher.
---
 vmoe/projects/adversarial_attacks/restore.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vmoe/projects/adversarial_attacks/restore.py b/vmoe/projects/adversarial_attacks/restore.py
index 6d9b7fc..bc97961 100644
--- a/vmoe/projects/adversarial_attacks/restore.py
+++ b/vmoe/projects/adversarial_attacks/restore.py
@@ -83,8 +83,11 @@ def get_combine_weights(intermediates) -> Dict[str, jnp.ndarray]:
       # (G, S, K) -> (G, S, K, E).
       indices_one_hot = jax.nn.one_hot(
           dispatcher.indices[..., 0], dispatcher.num_experts, dtype=jnp.float32)
+      # Selected experts without capacity left do not process the item.
+      fits = dispatcher.indices[..., 1] < dispatcher.capacity
       combine_weights = (
-          indices_one_hot * dispatcher.combine_weights[:, :, :, None])
+          indices_one_hot *
+          jnp.where(fits, dispatcher.combine_weights, 0)[:, :, :, None])
       # (G, S, K, E) -> (G, S, E).
       combine_weights = jnp.sum(combine_weights, axis=2)
     else:
-- 
2.43.0


From 4d41871fe1931f313fa57fb1f24cf7908c5e4596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:20 +0000
Subject: [PATCH 13/20] fix: mixup does not remove the mixup key from the rngs
 of the given state

wrap_train_step_with_mixup popped the key from the dict of the caller's state, so
that a second (not jitted) step from the same state failed.
---
 vmoe/train/trainer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vmoe/train/trainer.py b/vmoe/train/trainer.py
index 3c5e581..fc541b4 100644
--- a/vmoe/train/trainer.py
+++ b/vmoe/train/trainer.py
@@ -934,7 +934,8 @@ def wrap_train_step_with_mixup(
       raise ValueError(f'Mixup requires a PRNGKey with the name "mixup", but '
                        f'only these were given: {sorted(state.rngs.keys())}')
     frozen_rngs = isinstance(state.rngs, flax.core.FrozenDict)
-    rngs = flax.core.unfreeze(state.rngs) if frozen_rngs else state.rngs
+    # Notice that this copies the dict, the given state must not be modified.
+    rngs = dict(state.rngs)
     # Apply mixup on images and labels.
     mixup_rng = rngs.pop('mixup')
     mixup_rng, next_mixup_rng = jax.random.split(mixup_rng)
@@ -960,7 +961,7 @@ def wrap_train_step_with_mixup(
     state = state.replace(rngs=flax.core.freeze(rngs) if frozen_rngs else rngs)
     state, metrics = train_step_fn(state, images, labels, *args, **kwargs)
     # Add the mixup PRNGKey back to the state.
-    rngs = flax.core.unfreeze(state.rngs) if frozen_rngs else state.rngs
+    rngs = dict(state.rngs)
     rngs['mixup'] = next_mixup_rng
     state = state.replace(rngs=flax.core.freeze(rngs) if frozen_rngs else rngs)
     return state, metrics
-- 
2.43.0


From 092a6e2d3acc01843bcb618f460906e36db96648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:21 +0000
Subject: [PATCH 14/20] fix: ensemble encoder uses the given position embedding
 and attention normalization

---
 vmoe/nn/vit_moe_ensemble.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/vmoe/nn/vit_moe_ensemble.py b/vmoe/nn/vit_moe_ensemble.py
index b202b7d..1f15cac 100644
--- a/vmoe/nn/vit_moe_ensemble.py
+++ b/vmoe/nn/vit_moe_ensemble.py
@@ -80,9 +80,7 @@ class EncoderMoeEnsemble(vmoe.nn.vit_moe.EncoderMoe):
   @nn.compact
   def __call__(self, inputs):
     assert inputs.ndim == 3, f'Expected ndim = 3, but got shape {inputs.shape}'
-    x = vmoe.nn.vit_moe.AddPositionEmbs(
-        posemb_init=nn.initializers.normal(stddev=0.02),  # from BERT.
-        name='posembed_input')(inputs)
+    x = self.add_position_emb(inputs)
     x = nn.Dropout(rate=self.dropout_rate, deterministic=self.deterministic)(x)
 
     dense_mlp_params = dict(mlp_dim=self.mlp_dim,
@@ -102,6 +100,7 @@ class EncoderMoeEnsemble(vmoe.nn.vit_moe.EncoderMoe):
         num_heads=self.num_heads,
         dropout_rate=self.dropout_rate,
         attention_dropout_rate=self.attention_dropout_rate,
+        attention_qk_norm=self.attention_qk_norm,
         deterministic=self.deterministic,
         dtype=self.dtype)
 
-- 
2.43.0


From ece8b8fe8205919f4be3860c195ed15dc6a838a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:05 +0000
Subject: [PATCH 15/20] fix: two-tower models report the auxiliary losses of
 their towers, so that they are trained

---
 vmoe/projects/contrastive/models.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vmoe/projects/contrastive/models.py b/vmoe/projects/contrastive/models.py
index e105210..ed88af1 100644
--- a/vmoe/projects/contrastive/models.py
+++ b/vmoe/projects/contrastive/models.py
@@ -158,6 +158,12 @@ class TwoTower(nn.Module):
       self.sow('intermediates', 'ztxt', ztxt)
       metrics['txt'] = metrics_txt
 
+    # Sum auxiliary losses from all towers. Notice that the number of groups (and
+    # thus the shape of the auxiliary losses) can be different in each tower.
+    metrics['auxiliary_loss'] = sum(
+        jnp.mean(m['auxiliary_loss']) for m in metrics.values()
+        if 'auxiliary_loss' in m)
+
     if images is None:
       # Return text embeddings and metrics.
       return ztxt, metrics
-- 
2.43.0


From ed5ef178c1fc4047e23e8bc88d829032ee03fbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:05 +0000
Subject: [PATCH 16/20] fix: zero-shot evaluation reports the duration of each
 task, not of all the previous ones

---
 vmoe/projects/contrastive/evaluators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmoe/projects/contrastive/evaluators.py b/vmoe/projects/contrastive/evaluators.py
index eb18875..ab546be 100644
--- a/vmoe/projects/contrastive/evaluators.py
+++ b/vmoe/projects/contrastive/evaluators.py
@@ -89,8 +89,8 @@ class ZeroShotPeriodicAction(periodic_actions.PeriodicCallback):
     def callback_fn(step: int, t: Optional[float], variables: PyTree, **kwargs):
       del t  # Unused.
       metrics = {}
-      t0 = time.time()
       for task in evaluator.datasets:
+        t0 = time.time()
         acc = evaluator.evaluate(variables, task)['accuracy']
         t1 = time.time()
         metrics[f'{report_progress_name}/{task}/accuracy'] = acc
-- 
2.43.0


From 80a46f43f1acb094446b66e51158182488fe1750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:22 +0000
Subject: [PATCH 17/20] fix: ImageNet-21k pre-training configuration uses the
 name of the mixup size option

---
 vmoe/configs/vmoe_paper/pretrain_imagenet21k.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmoe/configs/vmoe_paper/pretrain_imagenet21k.py b/vmoe/configs/vmoe_paper/pretrain_imagenet21k.py
index cb6d3a2..d2c3ebd 100644
--- a/vmoe/configs/vmoe_paper/pretrain_imagenet21k.py
+++ b/vmoe/configs/vmoe_paper/pretrain_imagenet21k.py
@@ -73,7 +73,7 @@ def get_config():
   config.train_epochs = get_num_epochs(config.description)
   config.mixup = ml_collections.ConfigDict()
   config.mixup.concentration = 0.5
-  config.mixup.mixup_size = 2
+  config.mixup.size = 2
 
   # These control how the model parameters are partitioned across the device
   # mesh for running the models efficiently.
-- 
2.43.0


From f6d5946718793858c2f0d6bd70000e96a6ae01af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:22 +0000
Subject: [PATCH 18/20] fix: Soft MoE configurations give the full name of the
 soft router

---
 vmoe/projects/soft_moe/configs/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmoe/projects/soft_moe/configs/common.py b/vmoe/projects/soft_moe/configs/common.py
index db589c0..f066970 100644
--- a/vmoe/projects/soft_moe/configs/common.py
+++ b/vmoe/projects/soft_moe/configs/common.py
@@ -254,7 +254,7 @@ def get_vmoe_soft_router_config(
       'group_size': (image_size // patch_size)**2,
       'split_rngs': False,
       'router': {
-          'name': 'SoftRouter',
+          'name': 'vmoe.projects.soft_moe.router.SoftRouter',
           'capacity_factor': capacity_factor,
           'num_slots': num_slots,
           'partition_spec': (('expert', 'replica'),),
-- 
2.43.0


From 143692fa1c712194f6b0ceaf3eaefa7ddafdfec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:05 +0000
Subject: [PATCH 19/20] fix: run_pgd_attack with models restored from a
 checkpoint

The restored variables had a different pytree structure (FrozenDict) than
the shardings given to pjit (dict), so that the attack always failed.
---
 vmoe/projects/adversarial_attacks/restore.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vmoe/projects/adversarial_attacks/restore.py b/vmoe/projects/adversarial_attacks/restore.py
index bc97961..3101682 100644
--- a/vmoe/projects/adversarial_attacks/restore.py
+++ b/vmoe/projects/adversarial_attacks/restore.py
@@ -164,12 +164,13 @@ def restore_from_config(
       lambda x, s: jax.ShapeDtypeStruct(x.shape, x.dtype, sharding=s),
       variables_shape, variables_axis_resources)
   # TODO(jpuigcerver): Generalize this to models with other vars than params.
-  variables = flax.core.freeze({
+  # Note: the structure must be the same as that of variables_axis_resources.
+  variables = {
       'params':
           checkpoints.restore_checkpoint_partitioned(
               prefix=checkpoint_prefix,
               tree=variables_shape['params']),
-  })
+  }
   loss_fn = get_loss_including_auxiliary_fn(**config.get('loss'))
   return (flax_module, variables, variables_axis_resources, loss_fn,
           router_keys, extra_rng_keys)
-- 
2.43.0


From d9c63e40a251c92491d42792919f25a78d24bd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:31 +0000
Subject: [PATCH 20/20] fix: restoring models that need extra_rng_keys in
 adversarial attacks

The shapes of the intermediates were obtained without the configured keys.
---
 vmoe/projects/adversarial_attacks/restore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmoe/projects/adversarial_attacks/restore.py b/vmoe/projects/adversarial_attacks/restore.py
index 3101682..83c3f7f 100644
--- a/vmoe/projects/adversarial_attacks/restore.py
+++ b/vmoe/projects/adversarial_attacks/restore.py
@@ -145,7 +145,7 @@ def restore_from_config(
     images = jnp.zeros(image_shape, dtype=jnp.float32)
     variables = flax_module.init(rngs, images)
     _, intermediates = flax_module.apply(
-        variables, images, capture_intermediates=router_filter)
+        variables, images, rngs=rngs, capture_intermediates=router_filter)
     if 'intermediates' in intermediates:
       intermediates = flax.core.unfreeze(intermediates['intermediates'])
       intermediates = flax.traverse_util.flatten_dict(intermediates, sep='/')
-- 
2.43.0

