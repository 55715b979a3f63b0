From 35daffdd2962ffc6cd3569a4b67816291fb524e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:17 +0000
Subject: [PATCH 01/31] fix: deliver a file listed twice in a row once per
 listing

---
 src/synthpix/scheduler/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/synthpix/scheduler/base.py b/src/synthpix/scheduler/base.py
index f01748e..96b254d 100644
--- a/src/synthpix/scheduler/base.py
+++ b/src/synthpix/scheduler/base.py
@@ -188,6 +188,9 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
                 self._slice_idx += 1
                 return sample
             except FileEndedError as e:
+                # Drop the exhausted file, the next entry may be the same path
+                self._cached_file = None
+                self._cached_data = None
                 self.index += 1
                 continue  # Skip to the next file
 
-- 
2.43.0


From 1eab9784b2e0c368b47425d798968cc4e220fdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:17 +0000
Subject: [PATCH 02/31] fix: do not loop forever when none of the files can be
 loaded

---
 src/synthpix/scheduler/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/synthpix/scheduler/base.py b/src/synthpix/scheduler/base.py
index 96b254d..8d45a91 100644
--- a/src/synthpix/scheduler/base.py
+++ b/src/synthpix/scheduler/base.py
@@ -161,10 +161,16 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
 
         Raises:
             StopIteration: If no more data and loop is False.
+            RuntimeError: If loop is True and a whole pass over the files
+                yields no data.
         """
+        wrapped = False
         while self.index < len(self.file_list) or self.loop:
             # Handle loop around
             if self.index >= len(self.file_list):
+                if wrapped:
+                    raise RuntimeError("None of the files could be loaded.")
+                wrapped = True
                 self.reset()
 
             # Get the current file path
-- 
2.43.0


From a152868aa3d6c4880fb49d643158e1dbd85abd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:17 +0000
Subject: [PATCH 03/31] fix: pad the last batch of colour images

---
 src/synthpix/scheduler/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/scheduler/base.py b/src/synthpix/scheduler/base.py
index 8d45a91..89125f3 100644
--- a/src/synthpix/scheduler/base.py
+++ b/src/synthpix/scheduler/base.py
@@ -277,14 +277,14 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
             if images1 is not None:
                 images1 = np.pad(
                     images1,
-                    ((0, pad_size), (0, 0), (0, 0)),
+                    ((0, pad_size),) + ((0, 0),) * (images1.ndim - 1),
                     mode="constant",
                     constant_values=0,
                 )
             if images2 is not None:
                 images2 = np.pad(
                     images2,
-                    ((0, pad_size), (0, 0), (0, 0)),
+                    ((0, pad_size),) + ((0, 0),) * (images2.ndim - 1),
                     mode="constant",
                     constant_values=0,
                 )
-- 
2.43.0


From f5913e393dc083c4a928c02e49d14e89c621bfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:17 +0000
Subject: [PATCH 04/31] fix: accept directories of .h5 files

---
 src/synthpix/scheduler/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/synthpix/scheduler/hdf5.py b/src/synthpix/scheduler/hdf5.py
index 98be557..277f3a4 100644
--- a/src/synthpix/scheduler/hdf5.py
+++ b/src/synthpix/scheduler/hdf5.py
@@ -37,7 +37,7 @@ class HDF5FlowFieldScheduler(BaseFlowFieldScheduler):
             key: Random key for reproducibility.
         """
         super().__init__(file_list, randomize, loop, key)
-        if not all(file_path.endswith(".h5") for file_path in file_list):
+        if not all(file_path.endswith(".h5") for file_path in self.file_list):
             raise ValueError("All files must be HDF5 files with .h5 extension.")
 
     def load_file(self, file_path: str) -> SchedulerData:
-- 
2.43.0


From 0b16e313b392753ebf024acff9829e4b96b0c38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:17 +0000
Subject: [PATCH 05/31] fix: resize .mat images to (height, width)

---
 src/synthpix/scheduler/mat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/synthpix/scheduler/mat.py b/src/synthpix/scheduler/mat.py
index 95c6a70..c9f8dd9 100644
--- a/src/synthpix/scheduler/mat.py
+++ b/src/synthpix/scheduler/mat.py
@@ -146,8 +146,9 @@ class MATFlowFieldScheduler(BaseFlowFieldScheduler):
             for key in ("I0", "I1"):
                 img = data[key]
                 if img.shape[:2] != self.output_shape:
+                    # PIL resize expects (width, height)
                     data[key] = np.asarray(
-                        Image.fromarray(img).resize(self.output_shape)
+                        Image.fromarray(img).resize(self.output_shape[::-1])
                     )
 
         flow = data["V"]
-- 
2.43.0


From 9dcf7311ec3292e68e10d8b1f82399e041e93c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 06/31] fix: do not drop a prefetched batch to signal the end
 of the stream

---
 src/synthpix/scheduler/prefetch.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/synthpix/scheduler/prefetch.py b/src/synthpix/scheduler/prefetch.py
index 6da4e22..1ebd04e 100644
--- a/src/synthpix/scheduler/prefetch.py
+++ b/src/synthpix/scheduler/prefetch.py
@@ -161,15 +161,12 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
                 try:
                     self._queue.put(None, block=True, timeout=eos_timeout)
                 except queue.Full:
-                    # If the queue is full for <eos_timeout>, I remove one item
-                    # before I can put the end‑of‑stream signal.
+                    # If the queue is full for <eos_timeout>, I append the
+                    # end‑of‑stream signal beyond the capacity: dropping an
+                    # item instead would lose a batch.
 
                     # Acquire the mutex to ensure atomicity
                     with self._queue.mutex:
-                        if self._queue.queue:
-                            # Remove one item from the queue to free up a slot
-                            self._queue.queue.popleft()
-
                         # Write the EOS sentinel atomically
                         self._queue.queue.append(None)
 
-- 
2.43.0


From 48be8e7bf7cda6ae4fc2830ee53c14a2111737dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 07/31] fix: stop the prefetching thread on shutdown even if
 blocked on a full queue

---
 src/synthpix/scheduler/prefetch.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/synthpix/scheduler/prefetch.py b/src/synthpix/scheduler/prefetch.py
index 1ebd04e..3011cef 100644
--- a/src/synthpix/scheduler/prefetch.py
+++ b/src/synthpix/scheduler/prefetch.py
@@ -177,10 +177,15 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
                 self._stop_event.set()
                 return
 
-            # This will block until there is free space in the queue:
-            # no busy‑waiting needed.
-            # Exception cannot be raised here, would be dead code.
-            self._queue.put(batch, block=True)
+            # Wait until there is free space in the queue, giving up the batch
+            # if asked to stop in the meantime (shutdown() may refill the slot
+            # it frees with the end‑of‑stream signal).
+            while not self._stop_event.is_set():
+                try:
+                    self._queue.put(batch, block=True, timeout=0.1)
+                    break
+                except queue.Full:
+                    continue
 
     def reset(self) -> None:
         """Resets the prefetching scheduler and underlying scheduler."""
-- 
2.43.0


From 6326ebe75bcda1c18cb8aa6762a760d1b597bee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 08/31] fix: drop late batches of a skipped episode when the
 flush times out

---
 src/synthpix/scheduler/prefetch.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/synthpix/scheduler/prefetch.py b/src/synthpix/scheduler/prefetch.py
index 3011cef..bc9160b 100644
--- a/src/synthpix/scheduler/prefetch.py
+++ b/src/synthpix/scheduler/prefetch.py
@@ -61,6 +61,8 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
 
         self._started = False
         self._t = 0
+        # Batches of skipped episodes still to be dropped
+        self._stale = 0
 
         if not isinstance(startup_timeout, (int, float)) or startup_timeout <= 0:
             raise ValueError("startup_timeout must be a positive number.")
@@ -104,9 +106,14 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
                 )
         try:
             if self.startup:
-                batch = self._queue.get(block=True, timeout=self.startup_timeout)
+                timeout = self.startup_timeout
             else:
-                batch = self._queue.get(block=True, timeout=self.steady_state_timeout)
+                timeout = self.steady_state_timeout
+            batch = self._queue.get(block=True, timeout=timeout)
+            while self._stale > 0 and batch is not None:
+                # Left over from an episode that next_episode() skipped
+                self._stale -= 1
+                batch = self._queue.get(block=True, timeout=timeout)
 
             if self.startup:
                 self.startup = False
@@ -212,6 +219,7 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
         # Reinitialize the scheduler and start the thread
         self.scheduler.reset()
         self._t = 0
+        self._stale = 0
         self._started = False
         self._stop_event.clear()
         self._queue = queue.Queue(maxsize=self.buffer_size)
@@ -288,10 +296,10 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
             return
 
         if self._started and self.steps_remaining() > 0:
-            to_discard = self.steps_remaining()
-            discarded = 0
+            self._stale += self.steps_remaining()
             deadline = time.time() + join_timeout
-            while discarded < to_discard:
+            # What cannot be flushed in time is dropped by get_batch()
+            while self._stale > 0:
                 remaining_time = deadline - time.time()
                 if remaining_time <= 0:
                     break
@@ -301,7 +309,7 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
                     continue
                 if item is None:  # End-of-stream signal
                     break
-                discarded += 1
+                self._stale -= 1
         else:
             self._start_worker()
 
-- 
2.43.0


From 7976fed9d2fa480e53b3a699bc43d52b277f1ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 09/31] fix: start the prefetching thread once when consumers
 race for the first batch

---
 src/synthpix/scheduler/prefetch.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/synthpix/scheduler/prefetch.py b/src/synthpix/scheduler/prefetch.py
index bc9160b..aa84eff 100644
--- a/src/synthpix/scheduler/prefetch.py
+++ b/src/synthpix/scheduler/prefetch.py
@@ -60,6 +60,7 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
         self._thread = threading.Thread(target=self._worker, daemon=True)
 
         self._started = False
+        self._start_lock = threading.Lock()
         self._t = 0
         # Batches of skipped episodes still to be dropped
         self._stale = 0
@@ -137,10 +138,11 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
 
     def _start_worker(self) -> None:
         """Starts the background prefetching thread if not already started."""
-        if not self._started:
-            self._started = True
-            self._thread.start()
-            logger.debug("Background thread started.")
+        with self._start_lock:
+            if not self._started:
+                self._started = True
+                self._thread.start()
+                logger.debug("Background thread started.")
 
     def _worker(self, eos_timeout: float = 2.0) -> None:
         """Background thread that fetches batches from the scheduler.
-- 
2.43.0


From 5cbd02f993f1ee1b8782274eaa11e69609f2947e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:59 +0000
Subject: [PATCH 10/31] fix: keep episodes intact over a shuffling scheduler

---
 src/synthpix/scheduler/episodic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/scheduler/episodic.py b/src/synthpix/scheduler/episodic.py
index ebd1929..9356506 100644
--- a/src/synthpix/scheduler/episodic.py
+++ b/src/synthpix/scheduler/episodic.py
@@ -285,6 +285,7 @@ class EpisodicFlowFieldScheduler(EpisodicSchedulerProtocol):
             f"{len(interleaved)} files"
         )
 
-        # Inject new order and reset cursors without reshuffling internally
-        self.scheduler.file_list = interleaved
+        # Reset cursors, then inject the new order: a scheduler that shuffles
+        # its files on reset would otherwise break up the episodes
         self.scheduler.reset()
+        self.scheduler.file_list = interleaved
-- 
2.43.0


From b3729653a29b4649535fd7b2531e8ca9fd22e70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:59 +0000
Subject: [PATCH 11/31] fix: discover leaf directories in a reproducible order

---
 src/synthpix/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/synthpix/utils.py b/src/synthpix/utils.py
index 9ea50a9..7125329 100644
--- a/src/synthpix/utils.py
+++ b/src/synthpix/utils.py
@@ -463,7 +463,8 @@ def discover_leaf_dirs(
     dir_paths = {os.path.normpath(os.path.dirname(p)) for p in paths}  # dedupe upfront
     leaves: list[str] = []
 
-    for d in dir_paths:
+    # Sorted: the order must not depend on string hashing
+    for d in sorted(dir_paths):
         try:
             with os.scandir(d) as it:
                 # Early-exit on the first subdirectory
-- 
2.43.0


From ff3c690ca20029d6289d55bee5e6b4bb53678884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:59 +0000
Subject: [PATCH 12/31] fix: build episodes from the listed files only

---
 src/synthpix/scheduler/episodic.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/synthpix/scheduler/episodic.py b/src/synthpix/scheduler/episodic.py
index 9356506..af76a0c 100644
--- a/src/synthpix/scheduler/episodic.py
+++ b/src/synthpix/scheduler/episodic.py
@@ -234,7 +234,16 @@ class EpisodicFlowFieldScheduler(EpisodicSchedulerProtocol):
         """
         # Extract the leaf directories from the file list
         leaf_dirs = discover_leaf_dirs(self.file_list)
-        dir2files = {d: sorted(glob.glob(os.path.join(d, "*.mat"))) for d in leaf_dirs}
+        # Only the listed files belong to the dataset
+        listed = {os.path.normpath(f) for f in self.file_list}
+        dir2files = {
+            d: [
+                f
+                for f in sorted(glob.glob(os.path.join(d, "*.mat")))
+                if os.path.normpath(f) in listed
+            ]
+            for d in leaf_dirs
+        }
 
         # Sanity-check: all directories must contain enough frames
         for d, files in dir2files.items():
-- 
2.43.0


From 9cf18dd29bd06712f8e7e5549766b0d7491864d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:00 +0000
Subject: [PATCH 13/31] fix: let the configured seed reach the file shuffling

---
 src/synthpix/scheduler/hdf5.py  | 1 +
 src/synthpix/scheduler/mat.py   | 1 +
 src/synthpix/scheduler/numpy.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/synthpix/scheduler/hdf5.py b/src/synthpix/scheduler/hdf5.py
index 277f3a4..b6d8c07 100644
--- a/src/synthpix/scheduler/hdf5.py
+++ b/src/synthpix/scheduler/hdf5.py
@@ -116,4 +116,5 @@ class HDF5FlowFieldScheduler(BaseFlowFieldScheduler):
             file_list=config.get("file_list", []),
             randomize=config.get("randomize", False),
             loop=config.get("loop", True),
+            key=config.get("key"),
         )
diff --git a/src/synthpix/scheduler/mat.py b/src/synthpix/scheduler/mat.py
index c9f8dd9..418ac80 100644
--- a/src/synthpix/scheduler/mat.py
+++ b/src/synthpix/scheduler/mat.py
@@ -227,4 +227,5 @@ class MATFlowFieldScheduler(BaseFlowFieldScheduler):
             loop=config.get("loop", False),
             include_images=config.get("include_images", False),
             output_shape=tuple(config.get("output_shape", (256, 256))),
+            key=config.get("key"),
         )
diff --git a/src/synthpix/scheduler/numpy.py b/src/synthpix/scheduler/numpy.py
index 8ef5336..e833424 100644
--- a/src/synthpix/scheduler/numpy.py
+++ b/src/synthpix/scheduler/numpy.py
@@ -140,4 +140,5 @@ class NumpyFlowFieldScheduler(BaseFlowFieldScheduler):
             randomize=config.get("randomize", False),
             loop=config.get("loop", True),
             include_images=config.get("include_images", False),
+            key=config.get("key"),
         )
-- 
2.43.0


From 1b5a63d3a1884fc8f68da524edbd2d125963363c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:38 +0000
Subject: [PATCH 14/31] fix: wrap schedulers with the batch size the sampler
 requests

---
 src/synthpix/make.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/make.py b/src/synthpix/make.py
index e804a1c..e6fcfff 100644
--- a/src/synthpix/make.py
+++ b/src/synthpix/make.py
@@ -180,6 +180,11 @@ def make(
             "output_shape": tuple(dataset_config.get("image_shape", (256, 256))),
         }
 
+    # The synthetic sampler draws flow_fields_per_batch flow fields at a time
+    scheduler_batch_size = (
+        batch_size if include_images else dataset_config["flow_fields_per_batch"]
+    )
+
     # Initialize the base scheduler
     scheduler = scheduler_class.from_config(kwargs)
 
@@ -188,7 +193,7 @@ def make(
         key, epi_key = jax.random.split(key)
         scheduler = EpisodicFlowFieldScheduler(
             scheduler=scheduler,
-            batch_size=batch_size,
+            batch_size=scheduler_batch_size,
             episode_length=episode_length,
             key=epi_key,
         )
@@ -197,7 +202,7 @@ def make(
     if buffer_size > 0:
         scheduler = PrefetchingFlowFieldScheduler(
             scheduler=scheduler,
-            batch_size=batch_size,
+            batch_size=scheduler_batch_size,
             buffer_size=buffer_size,
         )
 
-- 
2.43.0


From 9fe190879349c589715d50a15609778d0ca04f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:38 +0000
Subject: [PATCH 15/31] fix: accept the documented configuration for image
 files

---
 src/synthpix/make.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/synthpix/make.py b/src/synthpix/make.py
index e6fcfff..8035352 100644
--- a/src/synthpix/make.py
+++ b/src/synthpix/make.py
@@ -58,7 +58,8 @@ def make(
     Required configuration keys:
     - scheduler_class: The file extension of the scheduler to use (".h5", ".mat", or ".npy").
     - batch_size: The batch size for training (positive integer).
-    - flow_fields_per_batch: Number of flow fields to use per batch.
+    - flow_fields_per_batch: Number of flow fields to use per batch. Required when
+        generating synthetic images (include_images=False).
     - batches_per_flow_batch: Required when generating synthetic images (include_images=False).
 
     Optional configuration keys:
@@ -66,7 +67,8 @@ def make(
     - buffer_size: Size of prefetching buffer (non-negative int, default 0).
     - episode_length: Length of episodes for episodic scheduler (non-negative int, default 0).
     - seed: Random seed (int, default 0).
-    - file_list: List of data files (list, default empty).
+    - file_list: List of data files or directories, or a single path
+        (list or str, default empty).
     - randomize: Whether to randomize file order (bool, default False).
     - loop: Whether to loop through files (bool, default True).
     - image_shape: Shape for image extraction when include_images=True (tuple, default (256, 256)).
@@ -150,7 +152,7 @@ def make(
     episode_length = dataset_config.get("episode_length", 0)
     if not isinstance(episode_length, int) or episode_length < 0:
         raise ValueError("episode_length must be a non-negative integer.")
-    if "flow_fields_per_batch" not in dataset_config:
+    if not include_images and "flow_fields_per_batch" not in dataset_config:
         raise ValueError("config must contain 'flow_fields_per_batch' key.")
 
     # Initialize the random number generator
@@ -161,8 +163,12 @@ def make(
 
     key, sched_key = jax.random.split(key)
 
+    file_list = dataset_config.get("file_list", [])
+    if isinstance(file_list, str):
+        file_list = [file_list]
+
     kwargs = {
-        "file_list": dataset_config.get("file_list", []),
+        "file_list": file_list,
         "randomize": dataset_config.get("randomize", False),
         "loop": dataset_config.get("loop", True),
         "key": sched_key,
-- 
2.43.0


From a31dcfe49ca10c10641473aeaae9c987be20653d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:38 +0000
Subject: [PATCH 16/31] fix: do not lose image rows or columns to floating
 point rounding

---
 src/synthpix/sampler/synthetic.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/synthpix/sampler/synthetic.py b/src/synthpix/sampler/synthetic.py
index fd4da6a..7724ccd 100644
--- a/src/synthpix/sampler/synthetic.py
+++ b/src/synthpix/sampler/synthetic.py
@@ -342,15 +342,17 @@ class SyntheticImageSampler(Sampler):
         )
 
         # Calculate the image offset in pixels
+        # (truncating, but not because of floating point rounding errors)
+        eps = 1e-6
         self.img_offset = (
-            int((img_offset[0] - position_bounds_offset[0]) * resolution),
-            int((img_offset[1] - position_bounds_offset[1]) * resolution),
+            int((img_offset[0] - position_bounds_offset[0]) * resolution + eps),
+            int((img_offset[1] - position_bounds_offset[1]) * resolution + eps),
         )
 
         # Calculate the position bounds in pixels
         self.position_bounds = (
-            int(position_bounds[0] * resolution),
-            int(position_bounds[1] * resolution),
+            int(position_bounds[0] * resolution + eps),
+            int(position_bounds[1] * resolution + eps),
         )
 
         # Update generation specification with adjusted parameters
-- 
2.43.0


From eece7a4457faf2d4610259d2b9c6f02726db1955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:38 +0000
Subject: [PATCH 17/31] fix: do not serve old flow fields again after the end
 of the data

---
 src/synthpix/sampler/synthetic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/sampler/synthetic.py b/src/synthpix/sampler/synthetic.py
index 7724ccd..89de842 100644
--- a/src/synthpix/sampler/synthetic.py
+++ b/src/synthpix/sampler/synthetic.py
@@ -468,10 +468,11 @@ class SyntheticImageSampler(Sampler):
             self._current_flows is None
             or self._batches_generated >= self.batches_per_flow_batch
         ):
-            # Reset the batch counter
+            scheduler_batch = self.scheduler.get_batch(self.flow_fields_per_batch)
+
+            # Reset the batch counter, only now that there is new data
             self._batches_generated = 0
 
-            scheduler_batch = self.scheduler.get_batch(self.flow_fields_per_batch)
             self._current_flows = scheduler_batch.flow_fields
             self._mask_scheduler = (
                 scheduler_batch.mask
-- 
2.43.0


From 02d35516904972dd4a54002923026d05611bd12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 18/31] fix: use one batch per flow batch for prefetched
 episodes too

---
 src/synthpix/sampler/synthetic.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/synthpix/sampler/synthetic.py b/src/synthpix/sampler/synthetic.py
index 89de842..65ef0e4 100644
--- a/src/synthpix/sampler/synthetic.py
+++ b/src/synthpix/sampler/synthetic.py
@@ -14,7 +14,6 @@ from synthpix.data_generate import (
     input_check_gen_img_from_flow,
     generate_images_from_flow,
 )
-from synthpix.scheduler.episodic import EpisodicFlowFieldScheduler
 from synthpix.types import ImageGenerationSpecification, SynthpixBatch
 from synthpix.utils import (
     DEBUG_JIT,
@@ -160,10 +159,9 @@ class SyntheticImageSampler(Sampler):
         if not isinstance(batches_per_flow_batch, int) or batches_per_flow_batch <= 0:
             raise ValueError("batches_per_flow_batch must be a positive integer.")
         self.batches_per_flow_batch = batches_per_flow_batch
-        if (
-            isinstance(self.scheduler, EpisodicFlowFieldScheduler)
-            and batches_per_flow_batch != 1
-        ):
+        # Episodic schedulers, also when wrapped (e.g. for prefetching)
+        episodic = getattr(self.scheduler, "episode_length", None) is not None
+        if episodic and batches_per_flow_batch != 1:
             self.batches_per_flow_batch = 1
             logger.warning("Using batches_per_flow_batch = 1 for episodic setting.")
 
-- 
2.43.0


From e59179f9a2400e42459ca8deeb211f3df2ba183b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 19/31] fix: keep every configuration value intact when
 updating the file

---
 src/synthpix/sanity.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/synthpix/sanity.py b/src/synthpix/sanity.py
index 244d50d..cfeab0e 100644
--- a/src/synthpix/sanity.py
+++ b/src/synthpix/sanity.py
@@ -9,6 +9,7 @@ import h5py
 import jax.numpy as jnp
 import numpy as np
 from goggles import get_logger
+from ruamel.yaml import YAML
 from tqdm import tqdm
 
 from .sampler import SyntheticImageSampler
@@ -50,16 +51,11 @@ def update_config_file(config_path: str, updated_values: dict) -> None:
     for key, value in updated_values.items():
         config_data[key] = convert_to_standard_type(value)
 
-    # Handle file_list separately
-    file_list = config_data.pop("file_list", [])
-
-    with open(config_path, "w") as file:
-        for key, value in config_data.items():
-            file.write(f"{key}: {value}\n")
-        if file_list and isinstance(file_list, list):
-            file.write("file_list:\n")
-            for item in file_list:
-                file.write(f"  - {str(item)}\n")
+    # Let the YAML library quote the values as needed
+    yaml = YAML(typ="safe", pure=True)
+    yaml.sort_base_mapping_type_on_output = False
+    with open(config_path, "w", encoding="utf-8") as file:
+        yaml.dump(dict(config_data), file)
 
 
 def calculate_min_and_max_speeds(file_list: list[str]) -> dict[str, float]:
-- 
2.43.0


From ac19b9f2282314edc470b3452a86bfa4bb50a90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:16 +0000
Subject: [PATCH 20/31] fix: stopping prefetch thread does not wait to enqueue
 the end-of-stream signal

---
 src/synthpix/scheduler/prefetch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/synthpix/scheduler/prefetch.py b/src/synthpix/scheduler/prefetch.py
index aa84eff..430e206 100644
--- a/src/synthpix/scheduler/prefetch.py
+++ b/src/synthpix/scheduler/prefetch.py
@@ -167,6 +167,9 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
                 # produced an incomplete batch. In the latter case, the behavior is so
                 # that the prefetching scheduler will ignore the incomplete batch
                 # and signal end‑of‑stream to consumer
+                if self._stop_event.is_set():
+                    # Nobody will make room anymore
+                    eos_timeout = 0
                 try:
                     self._queue.put(None, block=True, timeout=eos_timeout)
                 except queue.Full:
-- 
2.43.0


From 8788d145f155e15199c45ae9c0bfaf617ebe44c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:53 +0000
Subject: [PATCH 21/31] fix: spread any number of flow fields over the devices

---
 src/synthpix/sampler/synthetic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/synthpix/sampler/synthetic.py b/src/synthpix/sampler/synthetic.py
index 65ef0e4..e5ada6b 100644
--- a/src/synthpix/sampler/synthetic.py
+++ b/src/synthpix/sampler/synthetic.py
@@ -479,6 +479,12 @@ class SyntheticImageSampler(Sampler):
             # While instead self.mask_images refers to the static mask provided at initialization
             self._files_scheduler = scheduler_batch.files
 
+            # Every device needs the same number of flow fields
+            n_flows = self._current_flows.shape[0]
+            if n_flows % self.ndevices != 0:
+                n_padded = (n_flows // self.ndevices + 1) * self.ndevices
+                self._current_flows = self._current_flows[np.arange(n_padded) % n_flows]
+
             # Shard the flow fields across devices
             self._current_flows = jnp.array(self._current_flows, device=self.sharding)
             # Creating the output flow field
-- 
2.43.0


From 76ef8c3695a5462e4f7a7d36d8eb9858bac16838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:40 +0000
Subject: [PATCH 22/31] fix: move particles by the flow also if their region is
 not whole grid steps

---
 src/synthpix/sampler/synthetic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/sampler/synthetic.py b/src/synthpix/sampler/synthetic.py
index e5ada6b..8bbd096 100644
--- a/src/synthpix/sampler/synthetic.py
+++ b/src/synthpix/sampler/synthetic.py
@@ -395,8 +395,10 @@ class SyntheticImageSampler(Sampler):
             flow_field=flow,
             parameters=generation_specification,
             position_bounds=self.position_bounds,
-            flow_field_res_x=self.flow_field_res_x,
-            flow_field_res_y=self.flow_field_res_y,
+            # The region of the particles has a whole number of grid steps,
+            # its resolution can differ from the one of the whole flow field
+            flow_field_res_x=flow.shape[2] * self.resolution / self.position_bounds[1],
+            flow_field_res_y=flow.shape[1] * self.resolution / self.position_bounds[0],
             mask=self.mask_images,
             histogram=self.histogram,
         )
-- 
2.43.0


From ff7b0fbcecb1408e3b2691ab202c5ee9b93a85a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:40 +0000
Subject: [PATCH 23/31] fix: keep the image at its offset when the padding is
 rounded up

---
 src/synthpix/sampler/synthetic.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/synthpix/sampler/synthetic.py b/src/synthpix/sampler/synthetic.py
index 8bbd096..f4d6fbf 100644
--- a/src/synthpix/sampler/synthetic.py
+++ b/src/synthpix/sampler/synthetic.py
@@ -333,10 +333,11 @@ class SyntheticImageSampler(Sampler):
         pad_x = int(jnp.ceil(zero_padding[1] * self.flow_field_res_x))
         self.zero_padding = (pad_y, pad_x)
 
-        # Set the position bounds offset
+        # Set the position bounds offset from the edge of the padded flow field
+        # (the padding can be larger than needed, being a number of grid steps)
         self.position_bounds_offset = (
-            max(0, position_bounds_offset[0]),
-            max(0, position_bounds_offset[1]),
+            max(0, position_bounds_offset[0] + pad_y / self.flow_field_res_y),
+            max(0, position_bounds_offset[1] + pad_x / self.flow_field_res_x),
         )
 
         # Calculate the image offset in pixels
-- 
2.43.0


From a14be8519f2267a3a87f391563a4b5813a26d2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:59 +0000
Subject: [PATCH 24/31] fix: refuse repeated device IDs when building the
 sampler

They were accepted and failed only when the first batch was generated.
---
 src/synthpix/sampler/synthetic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/synthpix/sampler/synthetic.py b/src/synthpix/sampler/synthetic.py
index f4d6fbf..c42b0ff 100644
--- a/src/synthpix/sampler/synthetic.py
+++ b/src/synthpix/sampler/synthetic.py
@@ -139,6 +139,8 @@ class SyntheticImageSampler(Sampler):
             devices = [all_devices[i] for i in device_ids if i < len(all_devices)]
             if len(devices) == 0:
                 raise ValueError("No valid device IDs provided.")
+            if len(set(devices)) != len(devices):
+                raise ValueError("device_ids must not contain duplicates.")
             logger.info(f"Using devices {devices} for sharding.")
 
         self.ndevices = len(devices)
-- 
2.43.0


From 18ea1d9e4946e9824090dac5ff7f7148e88039ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:59 +0000
Subject: [PATCH 25/31] fix: refuse a velocities_per_pixel that leaves an empty
 flow field

---
 src/synthpix/sampler/synthetic.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/synthpix/sampler/synthetic.py b/src/synthpix/sampler/synthetic.py
index c42b0ff..d135d9e 100644
--- a/src/synthpix/sampler/synthetic.py
+++ b/src/synthpix/sampler/synthetic.py
@@ -217,6 +217,11 @@ class SyntheticImageSampler(Sampler):
             int(image_shape[0] * velocities_per_pixel),
             int(image_shape[1] * velocities_per_pixel),
         )
+        if 0 in self.output_flow_field_shape:
+            raise ValueError(
+                "velocities_per_pixel is too small for the image shape, "
+                "the output flow field would be empty."
+            )
 
         self.max_diameter = max(r[1] for r in generation_specification.diameter_ranges)
 
-- 
2.43.0


From 77e3e501dee8d3e11dedbaeb4c42083a28a05541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:59 +0000
Subject: [PATCH 26/31] fix: refuse NaN for dt and noise_gaussian_std like for
 the other fields

---
 src/synthpix/types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/types.py b/src/synthpix/types.py
index 14184b4..4d416e9 100644
--- a/src/synthpix/types.py
+++ b/src/synthpix/types.py
@@ -300,10 +300,10 @@ class ImageGenerationSpecification:
             raise ValueError("noise_gaussian_mean must be a non-negative number.")
         if (
             not isinstance(self.noise_gaussian_std, (int, float))
-            or self.noise_gaussian_std < 0
+            or not self.noise_gaussian_std >= 0
         ):
             raise ValueError("noise_gaussian_std must be a non-negative number.")
-        if not isinstance(self.dt, (int, float)) or self.dt <= 0:
+        if not isinstance(self.dt, (int, float)) or not self.dt > 0:
             raise ValueError("dt must be a positive number.")
 
     def update(self, **kwargs) -> Self:
-- 
2.43.0


From 8ff9d62e3321cbe335d62ae5148879112304e0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:14 +0000
Subject: [PATCH 27/31] fix: skip .npy entries whose images cannot be loaded

The images were read when the entry was delivered, so an unreadable one
made this and every later request fail instead of being skipped.
---
 src/synthpix/scheduler/numpy.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/synthpix/scheduler/numpy.py b/src/synthpix/scheduler/numpy.py
index e833424..05cc581 100644
--- a/src/synthpix/scheduler/numpy.py
+++ b/src/synthpix/scheduler/numpy.py
@@ -77,7 +77,7 @@ class NumpyFlowFieldScheduler(BaseFlowFieldScheduler):
                     )
 
     def load_file(self, file_path: str) -> SchedulerData:
-        """Load the raw flow array from .npy.
+        """Load the raw flow array from .npy and, if enabled, its images.
 
         Args:
             file_path: Path to the .npy file.
@@ -85,7 +85,21 @@ class NumpyFlowFieldScheduler(BaseFlowFieldScheduler):
         Returns:
             Loaded SchedulerData.
         """
-        return SchedulerData(flow_fields=np.load(file_path), files=(file_path,))
+        data = SchedulerData(flow_fields=np.load(file_path), files=(file_path,))
+        if not self.include_images:
+            return data
+
+        mb = re.match(r"flow_(\d+)\.npy$", os.path.basename(file_path))
+        if not mb:
+            raise ValueError(f"Bad filename: {file_path}")
+        t = int(mb.group(1))
+        folder = os.path.dirname(file_path)
+        prev = np.array(
+            Image.open(os.path.join(folder, f"img_{t-1}.jpg")).convert("RGB")
+        )
+        nxt = np.array(Image.open(os.path.join(folder, f"img_{t}.jpg")).convert("RGB"))
+
+        return data.update(images1=prev, images2=nxt)
 
     def get_next_slice(self) -> SchedulerData:
         """Return either the flow array or, if enabled, flow plus images.
@@ -103,18 +117,7 @@ class NumpyFlowFieldScheduler(BaseFlowFieldScheduler):
             # Images are not loaded by default, but we ensure it nonetheless
             return data.update(images1=None, images2=None)
 
-        # load images on-demand
-        mb = re.match(r"flow_(\d+)\.npy$", os.path.basename(self._cached_file))
-        if not mb:
-            raise ValueError(f"Bad filename: {self._cached_file}")
-        t = int(mb.group(1))
-        folder = os.path.dirname(self._cached_file)
-        prev = np.array(
-            Image.open(os.path.join(folder, f"img_{t-1}.jpg")).convert("RGB")
-        )
-        nxt = np.array(Image.open(os.path.join(folder, f"img_{t}.jpg")).convert("RGB"))
-
-        return data.update(images1=prev, images2=nxt)
+        return data
 
     def get_flow_fields_shape(self) -> tuple[int, ...]:
         """Return the shape of a single flow array.
-- 
2.43.0


From b4490871999660419c6fbae8092cb70c6e6288bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:14 +0000
Subject: [PATCH 28/31] fix: keep the step counter when an episodic scheduler
 is iterated over

iter() in the middle of an episode rewound the counter but not the files.
---
 src/synthpix/scheduler/episodic.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/synthpix/scheduler/episodic.py b/src/synthpix/scheduler/episodic.py
index af76a0c..3dc1c7c 100644
--- a/src/synthpix/scheduler/episodic.py
+++ b/src/synthpix/scheduler/episodic.py
@@ -113,7 +113,6 @@ class EpisodicFlowFieldScheduler(EpisodicSchedulerProtocol):
 
     def __iter__(self) -> Self:
         """Returns self so the object can be used in a ``for`` loop."""
-        self._t = 0
         return self
 
     @property
-- 
2.43.0


From 787934828a61e02d6896cf92e3de1577b07b46be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:14 +0000
Subject: [PATCH 29/31] fix: sample flow functions at (x, y)

generate_array_flow_field passed row and column as x and y, and a time
of shape (1,) which added an axis to fields depending on time.
---
 src/synthpix/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/synthpix/utils.py b/src/synthpix/utils.py
index 7125329..06f4d8d 100644
--- a/src/synthpix/utils.py
+++ b/src/synthpix/utils.py
@@ -192,7 +192,7 @@ def generate_array_flow_field(
 
     # vmap over both axes, and apply the flow function at time t=1
     arr = jax.vmap(
-        lambda i: jax.vmap(lambda j: jnp.array(flow_f(jnp.ones(1), i, j)))(cols)
+        lambda y: jax.vmap(lambda x: jnp.array(flow_f(jnp.ones(()), x, y)))(cols)
     )(rows)
 
     return arr
-- 
2.43.0


From 21c218bcdc365eb804ab72c26db92f40c9a8dee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:15 +0000
Subject: [PATCH 30/31] fix: draw particles at the border where they are

Particles closer to the border than their patch were moved inward; now
the part of the patch outside the image is dropped.
---
 src/synthpix/generate.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/synthpix/generate.py b/src/synthpix/generate.py
index 6f5566a..bd7ecf6 100644
--- a/src/synthpix/generate.py
+++ b/src/synthpix/generate.py
@@ -97,7 +97,7 @@ def img_gen_from_data(
 
     Notes:
         - Particle positions are rounded to the nearest integer pixel locations.
-        - Out-of-bounds particles are clipped to ensure valid rendering.
+        - The parts of a particle outside the image are dropped.
 
     Args:
         particle_positions: Array of particle positions (y, x) in pixels.
@@ -129,10 +129,6 @@ def img_gen_from_data(
     def single_particle_scatter(pos, diameter_x, diameter_y, rho, amp):
         y0, x0 = pos[0], pos[1]
 
-        # Clip to image bounds
-        y0 = jnp.clip(y0, patch_radius, H - patch_radius - 1e-6)
-        x0 = jnp.clip(x0, patch_radius, W - patch_radius - 1e-6)
-
         # Compute top-left corner of the patch
         top_left = (
             jnp.floor(y0 - patch_radius).astype(int),
@@ -169,7 +165,9 @@ def img_gen_from_data(
 
     # Scatter into final image
     image = jnp.zeros((H, W))
-    image = image.at[tuple(all_coords.T)].add(all_updates)
+    image = image.at[tuple(all_coords.T)].add(
+        all_updates, mode="drop", wrap_negative_indices=False
+    )
 
     # Clip to image bounds
     if clip:
-- 
2.43.0


From 1d428f883268eede91bbed2ee22dec4abab2e3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:15 +0000
Subject: [PATCH 31/31] fix: center the patch of a particle on its nearest
 pixel

It was centered on the pixel below and left of it, and with a radius of
zero the nearest pixel could stay dark.
---
 src/synthpix/generate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/synthpix/generate.py b/src/synthpix/generate.py
index bd7ecf6..770c153 100644
--- a/src/synthpix/generate.py
+++ b/src/synthpix/generate.py
@@ -96,7 +96,7 @@ def img_gen_from_data(
     is rendered as a 2D Gaussian kernel.
 
     Notes:
-        - Particle positions are rounded to the nearest integer pixel locations.
+        - Each particle is drawn on a patch around its nearest pixel.
         - The parts of a particle outside the image are dropped.
 
     Args:
@@ -131,8 +131,8 @@ def img_gen_from_data(
 
         # Compute top-left corner of the patch
         top_left = (
-            jnp.floor(y0 - patch_radius).astype(int),
-            jnp.floor(x0 - patch_radius).astype(int),
+            jnp.floor(y0 + 0.5).astype(int) - patch_radius,
+            jnp.floor(x0 + 0.5).astype(int) - patch_radius,
         )
 
         # fractional offset of the true center within that patch
-- 
2.43.0

