From 0e61e26886866aa3cf91d3540e5f8686329be823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:18 +0000
Subject: [PATCH 01/16] fix: keep the particle region at least as large as the
 image

Truncating 'size / resolution * resolution' can lose a pixel (e.g. image
height 256 with resolution 1.51953125 gave a region of 255 rows), so that
generated images came out smaller than configured.
---
 src/synthpix/sampler/synthetic.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/sampler/synthetic.py b/src/synthpix/sampler/synthetic.py
index fd4da6a..fa18e83 100644
--- a/src/synthpix/sampler/synthetic.py
+++ b/src/synthpix/sampler/synthetic.py
@@ -348,9 +348,16 @@ class SyntheticImageSampler(Sampler):
         )
 
         # Calculate the position bounds in pixels
+        # (never smaller than the image at its offset: rounding may lose a pixel)
         self.position_bounds = (
-            int(position_bounds[0] * resolution),
-            int(position_bounds[1] * resolution),
+            max(
+                int(position_bounds[0] * resolution),
+                image_shape[0] + self.img_offset[0],
+            ),
+            max(
+                int(position_bounds[1] * resolution),
+                image_shape[1] + self.img_offset[1],
+            ),
         )
 
         # Update generation specification with adjusted parameters
-- 
2.43.0


From 4ff163f95e8e9d8a011e1dc49b9174547bb3a3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:12 +0000
Subject: [PATCH 02/16] fix: serve a file again when it is listed twice in a
 row

---
 src/synthpix/scheduler/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/synthpix/scheduler/base.py b/src/synthpix/scheduler/base.py
index f01748e..a1fbd82 100644
--- a/src/synthpix/scheduler/base.py
+++ b/src/synthpix/scheduler/base.py
@@ -188,6 +188,10 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
                 self._slice_idx += 1
                 return sample
             except FileEndedError as e:
+                # Forget the exhausted file, or a repetition of the same path
+                # right after it would be considered as already consumed
+                self._cached_file = None
+                self._cached_data = None
                 self.index += 1
                 continue  # Skip to the next file
 
-- 
2.43.0


From f2a0d6b37e23073956dfa2d1b3d75c5843aacd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:12 +0000
Subject: [PATCH 03/16] fix: keep the episode order when the wrapped scheduler
 is randomized

---
 src/synthpix/scheduler/episodic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/scheduler/episodic.py b/src/synthpix/scheduler/episodic.py
index ebd1929..48e49d0 100644
--- a/src/synthpix/scheduler/episodic.py
+++ b/src/synthpix/scheduler/episodic.py
@@ -285,6 +285,7 @@ class EpisodicFlowFieldScheduler(EpisodicSchedulerProtocol):
             f"{len(interleaved)} files"
         )
 
-        # Inject new order and reset cursors without reshuffling internally
-        self.scheduler.file_list = interleaved
+        # Reset cursors first and then inject the new order: a reset reshuffles
+        # the current file list when the scheduler is randomized
         self.scheduler.reset()
+        self.scheduler.file_list = interleaved
-- 
2.43.0


From 46700253e196f632a9a7605056935197e0597574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:12 +0000
Subject: [PATCH 04/16] fix: return leaf directories in a reproducible order

---
 src/synthpix/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/synthpix/utils.py b/src/synthpix/utils.py
index 9ea50a9..0751dd7 100644
--- a/src/synthpix/utils.py
+++ b/src/synthpix/utils.py
@@ -463,7 +463,8 @@ def discover_leaf_dirs(
     dir_paths = {os.path.normpath(os.path.dirname(p)) for p in paths}  # dedupe upfront
     leaves: list[str] = []
 
-    for d in dir_paths:
+    # Sets have no stable order: sort so that results are reproducible across runs
+    for d in sorted(dir_paths):
         try:
             with os.scandir(d) as it:
                 # Early-exit on the first subdirectory
-- 
2.43.0


From 905f2e8dc29b076eea45452d1665f83388258d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:12 +0000
Subject: [PATCH 05/16] fix: accept directories in the HDF5 scheduler

---
 src/synthpix/scheduler/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/synthpix/scheduler/hdf5.py b/src/synthpix/scheduler/hdf5.py
index 98be557..277f3a4 100644
--- a/src/synthpix/scheduler/hdf5.py
+++ b/src/synthpix/scheduler/hdf5.py
@@ -37,7 +37,7 @@ class HDF5FlowFieldScheduler(BaseFlowFieldScheduler):
             key: Random key for reproducibility.
         """
         super().__init__(file_list, randomize, loop, key)
-        if not all(file_path.endswith(".h5") for file_path in file_list):
+        if not all(file_path.endswith(".h5") for file_path in self.file_list):
             raise ValueError("All files must be HDF5 files with .h5 extension.")
 
     def load_file(self, file_path: str) -> SchedulerData:
-- 
2.43.0


From 53bf2bb2ead8e9c356ec84fc3982a25f8001fc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:12 +0000
Subject: [PATCH 06/16] fix: resize images to (height, width) in the MAT
 scheduler

---
 src/synthpix/scheduler/mat.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/synthpix/scheduler/mat.py b/src/synthpix/scheduler/mat.py
index 95c6a70..bea80ad 100644
--- a/src/synthpix/scheduler/mat.py
+++ b/src/synthpix/scheduler/mat.py
@@ -146,8 +146,11 @@ class MATFlowFieldScheduler(BaseFlowFieldScheduler):
             for key in ("I0", "I1"):
                 img = data[key]
                 if img.shape[:2] != self.output_shape:
+                    # PIL resize expects (width, height)
                     data[key] = np.asarray(
-                        Image.fromarray(img).resize(self.output_shape)
+                        Image.fromarray(img).resize(
+                            (self.output_shape[1], self.output_shape[0])
+                        )
                     )
 
         flow = data["V"]
-- 
2.43.0


From f0dae4d1fd5ede4138c9a7de0c483f2e79027094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:12 +0000
Subject: [PATCH 07/16] fix: pass the configured key on to the schedulers

---
 src/synthpix/scheduler/hdf5.py  | 1 +
 src/synthpix/scheduler/mat.py   | 1 +
 src/synthpix/scheduler/numpy.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/synthpix/scheduler/hdf5.py b/src/synthpix/scheduler/hdf5.py
index 277f3a4..b6d8c07 100644
--- a/src/synthpix/scheduler/hdf5.py
+++ b/src/synthpix/scheduler/hdf5.py
@@ -116,4 +116,5 @@ class HDF5FlowFieldScheduler(BaseFlowFieldScheduler):
             file_list=config.get("file_list", []),
             randomize=config.get("randomize", False),
             loop=config.get("loop", True),
+            key=config.get("key"),
         )
diff --git a/src/synthpix/scheduler/mat.py b/src/synthpix/scheduler/mat.py
index bea80ad..6fa5339 100644
--- a/src/synthpix/scheduler/mat.py
+++ b/src/synthpix/scheduler/mat.py
@@ -229,4 +229,5 @@ class MATFlowFieldScheduler(BaseFlowFieldScheduler):
             loop=config.get("loop", False),
             include_images=config.get("include_images", False),
             output_shape=tuple(config.get("output_shape", (256, 256))),
+            key=config.get("key"),
         )
diff --git a/src/synthpix/scheduler/numpy.py b/src/synthpix/scheduler/numpy.py
index 8ef5336..e833424 100644
--- a/src/synthpix/scheduler/numpy.py
+++ b/src/synthpix/scheduler/numpy.py
@@ -140,4 +140,5 @@ class NumpyFlowFieldScheduler(BaseFlowFieldScheduler):
             randomize=config.get("randomize", False),
             loop=config.get("loop", True),
             include_images=config.get("include_images", False),
+            key=config.get("key"),
         )
-- 
2.43.0


From 552edf1b24d66041ffd3922b66c9bd71c3424ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:02 +0000
Subject: [PATCH 08/16] fix: do not take the queue slot the prefetching thread
 needs to shut down

---
 src/synthpix/scheduler/prefetch.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/synthpix/scheduler/prefetch.py b/src/synthpix/scheduler/prefetch.py
index 6da4e22..bfcdb51 100644
--- a/src/synthpix/scheduler/prefetch.py
+++ b/src/synthpix/scheduler/prefetch.py
@@ -236,16 +236,18 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
         except queue.Empty:
             pass
 
-        # If consumer is stuck on get(), inject the end-of-stream signal
-        try:
-            self._queue.put(None, block=False)
-        except queue.Full:
-            pass
-
         # Wait for the thread to finish
         if self._thread.is_alive():
             self._thread.join(timeout=join_timeout)
 
+        # If consumer is stuck on get(), inject the end-of-stream signal.
+        # Only once the producer is done, as the slot may be the one it needs.
+        if not self._thread.is_alive():
+            try:
+                self._queue.put(None, block=False)
+            except queue.Full:
+                pass
+
     def __del__(self) -> None:
         """Gracefully shuts down the scheduler upon deletion."""
         self.shutdown()
-- 
2.43.0


From 4ca4ad18d1e3848f09cbf02597ba62a03708c4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:02 +0000
Subject: [PATCH 09/16] fix: do not drop a prefetched batch to signal the end
 of the stream

---
 src/synthpix/scheduler/prefetch.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/synthpix/scheduler/prefetch.py b/src/synthpix/scheduler/prefetch.py
index bfcdb51..cc2580f 100644
--- a/src/synthpix/scheduler/prefetch.py
+++ b/src/synthpix/scheduler/prefetch.py
@@ -161,15 +161,11 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
                 try:
                     self._queue.put(None, block=True, timeout=eos_timeout)
                 except queue.Full:
-                    # If the queue is full for <eos_timeout>, I remove one item
-                    # before I can put the end‑of‑stream signal.
+                    # If the queue is full for <eos_timeout>, I append the
+                    # end‑of‑stream signal beyond its size: no batch is lost.
 
                     # Acquire the mutex to ensure atomicity
                     with self._queue.mutex:
-                        if self._queue.queue:
-                            # Remove one item from the queue to free up a slot
-                            self._queue.queue.popleft()
-
                         # Write the EOS sentinel atomically
                         self._queue.queue.append(None)
 
-- 
2.43.0


From a3019ff48d91b4d81b4fca1f231e210128414a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:02 +0000
Subject: [PATCH 10/16] fix: do not count the end-of-stream signal as an
 episode step

---
 src/synthpix/scheduler/prefetch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/synthpix/scheduler/prefetch.py b/src/synthpix/scheduler/prefetch.py
index cc2580f..77a445b 100644
--- a/src/synthpix/scheduler/prefetch.py
+++ b/src/synthpix/scheduler/prefetch.py
@@ -111,10 +111,10 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
             if self.startup:
                 self.startup = False
 
-            self._t += 1
             if batch is None:
                 logger.info("End of stream reached, stopping iteration.")
                 raise StopIteration
+            self._t += 1
             return batch
         except queue.Empty:
             logger.info("Unable to get data.")
-- 
2.43.0


From e09d43d98255dca356b6875783e528190b787624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:02 +0000
Subject: [PATCH 11/16] fix: prefetch and organize in episodes the batches the
 sampler requests

---
 src/synthpix/make.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/make.py b/src/synthpix/make.py
index e804a1c..23096e9 100644
--- a/src/synthpix/make.py
+++ b/src/synthpix/make.py
@@ -183,12 +183,17 @@ def make(
     # Initialize the base scheduler
     scheduler = scheduler_class.from_config(kwargs)
 
+    # Number of flow fields the sampler requests at once from the scheduler
+    scheduler_batch_size = (
+        batch_size if include_images else dataset_config["flow_fields_per_batch"]
+    )
+
     # If episode_length is specified, use EpisodicFlowFieldScheduler
     if episode_length > 0:
         key, epi_key = jax.random.split(key)
         scheduler = EpisodicFlowFieldScheduler(
             scheduler=scheduler,
-            batch_size=batch_size,
+            batch_size=scheduler_batch_size,
             episode_length=episode_length,
             key=epi_key,
         )
@@ -197,7 +202,7 @@ def make(
     if buffer_size > 0:
         scheduler = PrefetchingFlowFieldScheduler(
             scheduler=scheduler,
-            batch_size=batch_size,
+            batch_size=scheduler_batch_size,
             buffer_size=buffer_size,
         )
 
-- 
2.43.0


From 379e2526db3e5910bbec5abb4213af6fae7f1bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:13 +0000
Subject: [PATCH 12/16] fix: use one batch per flow batch also for prefetched
 episodes

---
 src/synthpix/sampler/synthetic.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/synthpix/sampler/synthetic.py b/src/synthpix/sampler/synthetic.py
index fa18e83..3801295 100644
--- a/src/synthpix/sampler/synthetic.py
+++ b/src/synthpix/sampler/synthetic.py
@@ -15,6 +15,7 @@ from synthpix.data_generate import (
     generate_images_from_flow,
 )
 from synthpix.scheduler.episodic import EpisodicFlowFieldScheduler
+from synthpix.scheduler.prefetch import PrefetchingFlowFieldScheduler
 from synthpix.types import ImageGenerationSpecification, SynthpixBatch
 from synthpix.utils import (
     DEBUG_JIT,
@@ -160,8 +161,12 @@ class SyntheticImageSampler(Sampler):
         if not isinstance(batches_per_flow_batch, int) or batches_per_flow_batch <= 0:
             raise ValueError("batches_per_flow_batch must be a positive integer.")
         self.batches_per_flow_batch = batches_per_flow_batch
+        # An episodic scheduler may be behind a prefetching one
+        source = self.scheduler
+        if isinstance(source, PrefetchingFlowFieldScheduler):
+            source = source.scheduler
         if (
-            isinstance(self.scheduler, EpisodicFlowFieldScheduler)
+            isinstance(source, EpisodicFlowFieldScheduler)
             and batches_per_flow_batch != 1
         ):
             self.batches_per_flow_batch = 1
-- 
2.43.0


From 6202c08df02e073b4d5e384a29e324d06968bee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:45 +0000
Subject: [PATCH 13/16] fix: keep raising StopIteration once the scheduler has
 ended

---
 src/synthpix/sampler/synthetic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/sampler/synthetic.py b/src/synthpix/sampler/synthetic.py
index 3801295..25d274f 100644
--- a/src/synthpix/sampler/synthetic.py
+++ b/src/synthpix/sampler/synthetic.py
@@ -478,10 +478,12 @@ class SyntheticImageSampler(Sampler):
             self._current_flows is None
             or self._batches_generated >= self.batches_per_flow_batch
         ):
-            # Reset the batch counter
+            scheduler_batch = self.scheduler.get_batch(self.flow_fields_per_batch)
+
+            # Reset the batch counter (only now: once the scheduler has ended,
+            # the flow fields of the last batch must not be used again)
             self._batches_generated = 0
 
-            scheduler_batch = self.scheduler.get_batch(self.flow_fields_per_batch)
             self._current_flows = scheduler_batch.flow_fields
             self._mask_scheduler = (
                 scheduler_batch.mask
-- 
2.43.0


From 904f7b2e8501e0f68fa58d85ff8ebf5e4170a159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 14/16] fix: pad the last batch of color images

---
 src/synthpix/scheduler/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/scheduler/base.py b/src/synthpix/scheduler/base.py
index a1fbd82..1fa3731 100644
--- a/src/synthpix/scheduler/base.py
+++ b/src/synthpix/scheduler/base.py
@@ -272,14 +272,14 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
             if images1 is not None:
                 images1 = np.pad(
                     images1,
-                    ((0, pad_size), (0, 0), (0, 0)),
+                    ((0, pad_size),) + ((0, 0),) * (images1.ndim - 1),
                     mode="constant",
                     constant_values=0,
                 )
             if images2 is not None:
                 images2 = np.pad(
                     images2,
-                    ((0, pad_size), (0, 0), (0, 0)),
+                    ((0, pad_size),) + ((0, 0),) * (images2.ndim - 1),
                     mode="constant",
                     constant_values=0,
                 )
-- 
2.43.0


From c606d0f1d66f3b8586c2aa17d2deb791f38e7317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:44 +0000
Subject: [PATCH 15/16] fix: refuse NaN as time step or noise deviation

---
 src/synthpix/types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/types.py b/src/synthpix/types.py
index 14184b4..4d416e9 100644
--- a/src/synthpix/types.py
+++ b/src/synthpix/types.py
@@ -300,10 +300,10 @@ class ImageGenerationSpecification:
             raise ValueError("noise_gaussian_mean must be a non-negative number.")
         if (
             not isinstance(self.noise_gaussian_std, (int, float))
-            or self.noise_gaussian_std < 0
+            or not self.noise_gaussian_std >= 0
         ):
             raise ValueError("noise_gaussian_std must be a non-negative number.")
-        if not isinstance(self.dt, (int, float)) or self.dt <= 0:
+        if not isinstance(self.dt, (int, float)) or not self.dt > 0:
             raise ValueError("dt must be a positive number.")
 
     def update(self, **kwargs) -> Self:
-- 
2.43.0


From 956efb38f87a12e6db41fa09707c93847e430e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:02 +0000
Subject: [PATCH 16/16] fix: draw scheduler keys from a stream of their own

---
 src/synthpix/make.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/synthpix/make.py b/src/synthpix/make.py
index 23096e9..6bb94da 100644
--- a/src/synthpix/make.py
+++ b/src/synthpix/make.py
@@ -157,6 +157,8 @@ def make(
     cpu = jax.devices("cpu")[0]
     seed = dataset_config.get("seed", 0)
     key = jax.random.PRNGKey(seed)
+    # The sampler splits the key of the same seed: use a separate stream here
+    key = jax.random.fold_in(key, 2**31 - 1)
     key = jax.device_put(key, cpu)
 
     key, sched_key = jax.random.split(key)
-- 
2.43.0

