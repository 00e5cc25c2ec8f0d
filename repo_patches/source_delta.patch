From 8088577b7c65e282d09a2b4e384a357168328766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:55 +0000
Subject: [PATCH 001/105] fix: CRC decoding with zero check bits returned an
 empty block

---
 hermespy/fec/cyclic_redundancy_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/fec/cyclic_redundancy_check.py b/hermespy/fec/cyclic_redundancy_check.py
index 254b53d..4ab0a5c 100644
--- a/hermespy/fec/cyclic_redundancy_check.py
+++ b/hermespy/fec/cyclic_redundancy_check.py
@@ -64,7 +64,7 @@ class CyclicRedundancyCheck(Encoder, RandomNode, Serializable):
         return np.append(data, self._rng.integers(0, 2, self.__check_block_size))
 
     def decode(self, code: np.ndarray) -> np.ndarray:
-        return code[: -self.__check_block_size]
+        return code[: len(code) - self.__check_block_size]
 
     @property
     def bit_block_size(self) -> int:
-- 
2.43.0


From 36b8c672da5c48e8f18c601b0377222c3a85138d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:14 +0000
Subject: [PATCH 002/105] fix: 802.11a scrambler could not decode what it had
 encoded, both directions advanced one register

---
 hermespy/fec/scrambler.py | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/hermespy/fec/scrambler.py b/hermespy/fec/scrambler.py
index 1ecda1c..54e5e79 100644
--- a/hermespy/fec/scrambler.py
+++ b/hermespy/fec/scrambler.py
@@ -191,7 +191,8 @@ class Scrambler80211a(Encoder, Serializable):
     """
 
     __seed: np.ndarray
-    __queue: deque
+    __transmit_queue: deque
+    __receive_queue: deque
     __default_seed: np.ndarray = np.array([0, 1, 0, 1, 1, 0, 1], dtype=int)
 
     def __init__(self, seed: np.ndarray | None = None) -> None:
@@ -208,7 +209,8 @@ class Scrambler80211a(Encoder, Serializable):
 
         # The default seed is all zeros
         self.__seed = self.__default_seed.copy() if seed is None else seed
-        self.__queue = deque(self.__seed, 7)
+        self.__transmit_queue = deque(self.__seed, 7)
+        self.__receive_queue = deque(self.__seed, 7)
 
     @property
     def seed(self) -> np.ndarray:
@@ -238,42 +240,53 @@ class Scrambler80211a(Encoder, Serializable):
                 raise ValueError("Only bits (i.e. 0 or 1) represent valid seed fields")
 
         self.__seed = value
-        self.__queue = deque(self.__seed, 7)
+        self.__transmit_queue = deque(self.__seed, 7)
+        self.__receive_queue = deque(self.__seed, 7)
 
     def encode(self, data: np.ndarray) -> np.ndarray:
-        code = np.array([self.__scramble_bit(bit) for bit in data], dtype=int)
+        code = np.array([self.__scramble_bit(bit, self.__transmit_queue) for bit in data], dtype=int)
         return code
 
     def decode(self, code: np.ndarray) -> np.ndarray:
-        data = np.array([self.__scramble_bit(bit) for bit in code], dtype=int)
+        data = np.array([self.__scramble_bit(bit, self.__receive_queue) for bit in code], dtype=int)
         return data
 
-    def __forward_code_bit(self) -> int:
+    def __forward_code_bit(self, queue: deque | None = None) -> int:
         """Generate the next bit in the scrambling sequence.
 
         The sequence depends on the configured seed.
 
+        Args:
+            queue:
+                The register queue to be advanced.
+                The transmit queue by default.
+
         Returns:
             int:
                 The next bit within the scrambling sequence
         """
 
-        code_bit = (self.__queue[3] + self.__queue[6]) % 2
-        self.__queue.appendleft(code_bit)
+        queue = self.__transmit_queue if queue is None else queue
+
+        code_bit = (queue[3] + queue[6]) % 2
+        queue.appendleft(code_bit)
 
         return code_bit
 
-    def __scramble_bit(self, bit: int) -> int:
+    def __scramble_bit(self, bit: int, queue: deque) -> int:
         """Scramble a given bit.
 
         Args:
             bit(int):
                 The bit to be scrambled.
 
+            queue:
+                The register queue providing the scrambling sequence.
+
         Returns:
             int: The scrambled bit."""
 
-        return (self.__forward_code_bit() + bit) % 2
+        return (self.__forward_code_bit(queue) + bit) % 2
 
     @property
     def bit_block_size(self) -> int:
-- 
2.43.0


From fb5f3a72cff1157c755fb73181db597ccafff3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:14 +0000
Subject: [PATCH 003/105] fix: pipeline data block size was wrong after coding
 steps with code rates not dividing evenly

---
 hermespy/fec/coding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/fec/coding.py b/hermespy/fec/coding.py
index 7242f9f..5b3b159 100644
--- a/hermespy/fec/coding.py
+++ b/hermespy/fec/coding.py
@@ -391,7 +391,7 @@ class EncoderManager(RandomNode, Serializable):
 
             repetitions = int(encoder.bit_block_size / num_bits)
             block_size *= repetitions
-            num_bits *= int(repetitions / encoder.rate)
+            num_bits = encoder.code_block_size
 
         return block_size
 
-- 
2.43.0


From b73e8977609ec58989cf8303a8d5ec3b142c9eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:50 +0000
Subject: [PATCH 004/105] fix: frames of different bit counts could be counted
 as error-free

array_equiv broadcasts, so a single transmitted bit compared equal to any number of
received copies and to an empty frame.
---
 hermespy/modem/evaluators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/modem/evaluators.py b/hermespy/modem/evaluators.py
index a0a42b7..29b156f 100644
--- a/hermespy/modem/evaluators.py
+++ b/hermespy/modem/evaluators.py
@@ -377,7 +377,7 @@ class FrameErrorEvaluator(CommunicationEvaluator, Serializable):
         # Compare the decoded bit streams of each communication frame
         # If they differ, increase the frame errror count
         for f, (tx_frame, rx_frame) in enumerate(zip(transmission.frames, reception.frames)):
-            frame_errors[f] = not np.array_equiv(tx_frame.bits, rx_frame.decoded_bits)
+            frame_errors[f] = not np.array_equal(tx_frame.bits, rx_frame.decoded_bits)
 
         return FrameErrorEvaluation(frame_errors)
 
-- 
2.43.0


From 2fcd0693a0048f6cbfba39348c9809993493f3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:28 +0000
Subject: [PATCH 005/105] fix: block error evaluation failed on frames of
 different block counts

A frame pair with unequal numbers of blocks could not be compared; missing and
surplus blocks are now counted as errors, as missing frames already were.
---
 hermespy/modem/evaluators.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/hermespy/modem/evaluators.py b/hermespy/modem/evaluators.py
index 29b156f..f1a2b91 100644
--- a/hermespy/modem/evaluators.py
+++ b/hermespy/modem/evaluators.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 from abc import ABC, abstractmethod
+from itertools import zip_longest
 from typing_extensions import override
 
 import numpy as np
@@ -305,22 +306,21 @@ class BlockErrorEvaluator(CommunicationEvaluator, Serializable):
 
         # Compare the decoded bit streams of each communication frame partioned into blocks into blocks
         # Every block with at least one bit error is considered a block error and increases the error counter
-        num_tx_blocks = 0
-        for tx_frame in transmission.frames:
-            num_tx_blocks += tx_frame.bits.size // tx_frame.bit_block_size
-        num_rx_blocks = 0
-        for rx_frame in reception.frames:
-            num_rx_blocks += rx_frame.decoded_bits.size // rx_frame.bit_block_size
-
-        block_errors = np.ones(max(num_tx_blocks, num_rx_blocks), dtype=bool)
+        # Blocks without counterpart are considered errors as well
+        tx_blocks = [f.bits.reshape((-1, f.bit_block_size)) for f in transmission.frames]
+        rx_blocks = [f.decoded_bits.reshape((-1, f.bit_block_size)) for f in reception.frames]
+
+        block_errors = np.ones(
+            sum(
+                max(len(tx), len(rx)) for tx, rx in zip_longest(tx_blocks, rx_blocks, fillvalue=())
+            ),
+            dtype=bool,
+        )
         b = 0
-        for tx_frame, rx_frame in zip(transmission.frames, reception.frames):
-            tx_blocks = tx_frame.bits.reshape((-1, tx_frame.bit_block_size))
-            rx_blocks = rx_frame.decoded_bits.reshape((-1, rx_frame.bit_block_size))
-            num_blocks = max(tx_blocks.shape[0], rx_blocks.shape[0])
-
-            block_errors[b : b + num_blocks] = np.any(tx_blocks != rx_blocks, axis=1)
-            b += num_blocks
+        for tx, rx in zip(tx_blocks, rx_blocks):
+            num_common = min(len(tx), len(rx))
+            block_errors[b : b + num_common] = np.any(tx[:num_common] != rx[:num_common], axis=1)
+            b += max(len(tx), len(rx))
 
         return BlockErrorEvaluation(block_errors)
 
-- 
2.43.0


From ab595cc1cbe8eced6f443920ce346d64a0c964a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:28 +0000
Subject: [PATCH 006/105] fix: removing a hook from within a callback aborted
 the notification

---
 hermespy/core/hooks.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hermespy/core/hooks.py b/hermespy/core/hooks.py
index 8002b5b..e8ea46b 100644
--- a/hermespy/core/hooks.py
+++ b/hermespy/core/hooks.py
@@ -116,5 +116,7 @@ class Hookable(Generic[_RT]):
                 Output of the DSP layer.
         """
 
-        for hook in self.__hooks:
-            hook(output)
+        # Callbacks may add or remove hooks while being notified
+        for hook in tuple(self.__hooks):
+            if hook in self.__hooks:
+                hook(output)
-- 
2.43.0


From 9c03dc2ae948d4e02e4321df07af40180c589d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:52 +0000
Subject: [PATCH 007/105] fix: simulation progress was wrong or failed for
 multi-dimensional grids

Coordinates were used as a first-axis index array; select the active sections by flag.
---
 hermespy/core/pymonte/actors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/core/pymonte/actors.py b/hermespy/core/pymonte/actors.py
index f330fbe..557a2d5 100644
--- a/hermespy/core/pymonte/actors.py
+++ b/hermespy/core/pymonte/actors.py
@@ -144,7 +144,7 @@ class MonteCarloQueueManager(object):
 
         return (
             (self.__num_grid_sections - self.__num_active_sections) * self.__num_samples
-            + np.sum(self.__grid_task_count[self.__active_section_coordinates])
+            + np.sum(self.__grid_task_count[self.__active_section_flags])
         ) / self.__max_num_samples, self.__active_section_flags
 
 
-- 
2.43.0


From c8b0d119c762d4ad5fbc7d7d3c71b8321ec5ff13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:59 +0000
Subject: [PATCH 008/105] fix: unspecified stage impact of one considered
 object was overridden by another

A grid dimension over several objects kept the impact of whichever registered object came
last, skipping stages that the objects without specified impact may affect.
---
 hermespy/core/pymonte/grid.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hermespy/core/pymonte/grid.py b/hermespy/core/pymonte/grid.py
index dcabc0d..60d1633 100644
--- a/hermespy/core/pymonte/grid.py
+++ b/hermespy/core/pymonte/grid.py
@@ -371,13 +371,19 @@ class GridDimension(GridDimensionInfo):
                         "Diverging impacts on multi-object grid dimension initialization"
                     )
 
-                self.__first_impact = first_impact
-                self.__last_impact = last_impact
+                # An unspecified impact of any considered object is an unspecified impact of the dimension
+                if not self.__considered_objects:
+                    self.__first_impact = first_impact
+                    self.__last_impact = last_impact
 
                 # Updated the depicted title if the dimension offers an option and it wasn't exactly specified
                 if title is None and dimension_registration.title is not None:
                     title = dimension_registration.title
 
+            else:
+                self.__first_impact = None
+                self.__last_impact = None
+
             self.__considered_objects += (considered_object,)
 
             # If the dimension value is a scalar dimension, we can directly use the lshift operator to configure
-- 
2.43.0


From b7c076c6f9ea48b3d6792393e82c8fcb62240eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:18 +0000
Subject: [PATCH 009/105] fix: simulation grids were mixed up when dimensions
 got sorted by impact

Actors sweep the dimensions sorted by first impact, whereas the queue manager and the
collector numbered the grid sections by the unsorted dimensions.
---
 hermespy/core/pymonte/monte_carlo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/core/pymonte/monte_carlo.py b/hermespy/core/pymonte/monte_carlo.py
index bc61dc6..0126275 100644
--- a/hermespy/core/pymonte/monte_carlo.py
+++ b/hermespy/core/pymonte/monte_carlo.py
@@ -358,7 +358,7 @@ class MonteCarlo(Generic[MO]):
             remote_queue_manager_class = ray.remote(MonteCarloQueueManager)
             queue_manager = remote_queue_manager_class.options(
                 num_cpus=0, enable_task_events=self.__debug
-            ).remote(self.dimensions, self.num_samples)
+            ).remote(_dimensions, self.num_samples)
 
             # Initialize actor pool
             remote_actor_class = ray.remote(actor)
@@ -368,7 +368,7 @@ class MonteCarlo(Generic[MO]):
             remote_collector_class = ray.remote(MonteCarloCollector)
             collector = remote_collector_class.options(
                 num_cpus=0, max_concurrency=2, enable_task_events=self.__debug
-            ).remote(queue_manager, actors, self.dimensions, self.evaluators)
+            ).remote(queue_manager, actors, _dimensions, self.evaluators)
 
         # Initialize progress bar
         progress = Progress(
-- 
2.43.0


From cec2ed75c5dc82d59d4ed333112756468cad3ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:28 +0000
Subject: [PATCH 010/105] fix: samples of the final simulation batches were
 lost

The simulation fetched its results as soon as all samples were scheduled, without waiting for the
actors to compute them, and the collector processed outdated replies of the actors, possibly
concurrently in two threads.
---
 hermespy/core/pymonte/actors.py      | 40 +++++++++++++++++++---------
 hermespy/core/pymonte/monte_carlo.py |  6 +++--
 2 files changed, 31 insertions(+), 15 deletions(-)

diff --git a/hermespy/core/pymonte/actors.py b/hermespy/core/pymonte/actors.py
index 557a2d5..a8ca73e 100644
--- a/hermespy/core/pymonte/actors.py
+++ b/hermespy/core/pymonte/actors.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 from abc import abstractmethod
+from threading import Lock
 from typing import Callable, Generic, Sequence
 
 import numpy as np
@@ -176,6 +177,7 @@ class MonteCarloCollector(object):
         self.__results = [e.initialize_result(grid) for e in evaluators]
         self.__active = False
         self.__future_map: dict[ObjectRef, MonteCarloActor] = {}
+        self.__processing_lock = Lock()
 
     def run(self) -> None:
         """Start up the collector, collecting samples from all actors.
@@ -188,14 +190,23 @@ class MonteCarloCollector(object):
 
         while self.__active:
             # Wait for the next sample to be available
-            ready_future = wait(list(self.__future_map.keys()), num_returns=1)[0][0]
+            query_futures = list(self.__future_map.keys())
+            if len(query_futures) < 1:
+                break
+
+            ready_future = wait(query_futures, num_returns=1)[0][0]
 
-            # Process the samples received from the actor
-            self.__process_samples(ready_future, True)
+            with self.__processing_lock:
+                # The remaining results have already been collected if the collector was stopped
+                if not self.__active:
+                    break
 
-            # Re-queue the request for the next result
-            actor = self.__future_map.pop(ready_future)
-            self.__future_map[actor.fetch_results.remote()] = actor  # type: ignore[attr-defined]
+                # Process the samples received from the actor
+                actor = self.__future_map.pop(ready_future)
+                self.__process_samples(ready_future, True)
+
+                # Re-queue the request for the next result
+                self.__future_map[actor.fetch_results.remote()] = actor  # type: ignore[attr-defined]
 
     def __process_samples(
         self,
@@ -239,15 +250,18 @@ class MonteCarloCollector(object):
         Returns: list of evaluation results from the collector run.
         """
 
-        # Stop the collector
-        self.__active = False
+        with self.__processing_lock:
+            # Stop the collector
+            self.__active = False
 
-        # Process the last results within the queue
-        query_futures = list(self.__future_map.keys())
-        futures = wait(query_futures, num_returns=len(query_futures))[0]
+            # Process the last results within the queue,
+            # including results stashed by the actors after having answered the queued requests
+            query_futures = list(self.__future_map.keys())
+            query_futures += [a.fetch_results.remote() for a in self.__actors]  # type: ignore[attr-defined]
+            self.__future_map.clear()
 
-        for future in futures:
-            self.__process_samples(future, False)
+            for future in query_futures:
+                self.__process_samples(future, False)
 
         return self.__results
 
diff --git a/hermespy/core/pymonte/monte_carlo.py b/hermespy/core/pymonte/monte_carlo.py
index 0126275..8a1947d 100644
--- a/hermespy/core/pymonte/monte_carlo.py
+++ b/hermespy/core/pymonte/monte_carlo.py
@@ -382,8 +382,7 @@ class MonteCarlo(Generic[MO]):
         with Live(status_group, console=self.console) if self.__console_mode == ConsoleMode.INTERACTIVE else nullcontext():  # type: ignore
 
             # Start running the actors
-            for a in actors:
-                _ = a.run.remote()  # type: ignore
+            actor_runs = [a.run.remote() for a in actors]  # type: ignore
 
             # Start the collector
             _ = collector.run.remote()  # type: ignore
@@ -471,6 +470,9 @@ class MonteCarlo(Generic[MO]):
         # Fetch all remote samples at the controller#
         with self.console.status("Collecting remote results ...", spinner="dots") if self.__console_mode == ConsoleMode.INTERACTIVE else nullcontext():  # type: ignore
 
+            # All samples are scheduled, wait for the actors to finish computing them
+            ray.wait(actor_runs, num_returns=len(actor_runs))
+
             evaluation_results: list[EvaluationResult] = ray.get(collector.fetch_results.remote())  # type: ignore
 
         # Measure elapsed time
-- 
2.43.0


From 442038ba589e40ec96963f4670d99ad948d996c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:28 +0000
Subject: [PATCH 011/105] fix: results stashed while an actor was queried could
 be lost

---
 hermespy/core/pymonte/actors.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hermespy/core/pymonte/actors.py b/hermespy/core/pymonte/actors.py
index a8ca73e..4303553 100644
--- a/hermespy/core/pymonte/actors.py
+++ b/hermespy/core/pymonte/actors.py
@@ -374,8 +374,11 @@ class MonteCarloActor(Generic[MO]):
         Returns: list of results from the actor run.
         """
 
-        results = self.__results.copy()
-        self.__results.clear()  # Clear the results after fetching
+        # Take the results one by one, the running thread might append further results in the meantime
+        results: list[ObjectRef[list[MonteCarloSample]]] = []
+        while len(self.__results) > 0:
+            results.append(self.__results.pop(0))
+
         return results
 
     def __run_batch(self, batch: list[tuple[int, ...]]) -> list[MonteCarloSample]:
-- 
2.43.0


From 8ee26ca4c9d4779681e2957f98e1006dbe7944be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:28 +0000
Subject: [PATCH 012/105] fix: PAPR evaluations ignored the configured minimum
 number of samples

---
 hermespy/core/evaluators.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hermespy/core/evaluators.py b/hermespy/core/evaluators.py
index 21c8b52..b226e34 100644
--- a/hermespy/core/evaluators.py
+++ b/hermespy/core/evaluators.py
@@ -465,7 +465,14 @@ class PAPR(ScalarEvaluator):
 
     @override
     def initialize_result(self, grid: Sequence[GridDimensionInfo]) -> ScalarEvaluationResult:
-        return ScalarEvaluationResult(grid, self, self.tolerance, self.confidence)
+        return ScalarEvaluationResult(
+            grid,
+            self,
+            self.tolerance,
+            self.confidence,
+            self.min_num_samples,
+            self.plot_surface,
+        )
 
     def __del__(self) -> None:
         if self.__output_hook is not None:
-- 
2.43.0


From 745f9a8a1efaa036ff8ed5d36028f7ab7fa8b274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:50 +0000
Subject: [PATCH 013/105] fix: changed parameters with unknown impact could be
 evaluated without re-executing any affected stage

---
 hermespy/core/pymonte/actors.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hermespy/core/pymonte/actors.py b/hermespy/core/pymonte/actors.py
index 4303553..e60f288 100644
--- a/hermespy/core/pymonte/actors.py
+++ b/hermespy/core/pymonte/actors.py
@@ -429,6 +429,10 @@ class MonteCarloActor(Generic[MO]):
                             self.__stage_identifiers.index(grid_dimension.first_impact),
                         )
 
+                    # Impacts on stages unknown to this actor may affect any stage
+                    else:
+                        first_impact = 0
+
                     if grid_dimension.last_impact is None:
                         last_impact = self.__num_stages - 1
 
@@ -437,6 +441,9 @@ class MonteCarloActor(Generic[MO]):
                             last_impact, self.__stage_identifiers.index(grid_dimension.last_impact)
                         )
 
+                    else:
+                        last_impact = self.__num_stages - 1
+
                 if first_impact >= self.__num_stages:
                     first_impact = 0
 
-- 
2.43.0


From 627df2acf0a3d873392881c13db8cefbb9f46748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:50 +0000
Subject: [PATCH 014/105] fix: grid sections got less samples than stage
 arguments if the respective stage was skipped

---
 hermespy/core/pymonte/actors.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hermespy/core/pymonte/actors.py b/hermespy/core/pymonte/actors.py
index e60f288..cba1f1e 100644
--- a/hermespy/core/pymonte/actors.py
+++ b/hermespy/core/pymonte/actors.py
@@ -450,6 +450,13 @@ class MonteCarloActor(Generic[MO]):
                 if last_impact <= 0:
                     last_impact = self.__num_stages - 1
 
+                # Stages iterating over several arguments generate samples for each of them,
+                # therefore they and all subsequent stages are always executed
+                for s, identifier in enumerate(self.__stage_identifiers):
+                    if len(self.__stage_arguments.get(identifier, [tuple()])) > 1:
+                        first_impact = min(first_impact, s)
+                        last_impact = self.__num_stages - 1
+
                 artifacts: list[list[Artifact]] = []
                 self.__execute_stages(first_impact, last_impact, artifacts)
 
-- 
2.43.0


From 3c7e9e4cea6a2f763041222ceec27485e70b5868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:24 +0000
Subject: [PATCH 015/105] fix: emit at most 2^b levels from mid-tread
 quantisers

---
 hermespy/simulation/rf/blocks/ad.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/hermespy/simulation/rf/blocks/ad.py b/hermespy/simulation/rf/blocks/ad.py
index 18e2c90..063dc49 100644
--- a/hermespy/simulation/rf/blocks/ad.py
+++ b/hermespy/simulation/rf/blocks/ad.py
@@ -482,21 +482,18 @@ class ADC(ConverterBase, DSPOutputBlock):
                 )
 
             # Mid-tread quantization
-            # Note that mid-tread quantization generates an odd number of levels
+            # Note that zero is one of the levels, so that there is one more level below than above it
             else:
                 step = 2 * max_amplitude / (self.num_quantization_levels + 1)
+                max_level = self.num_quantization_levels // 2
 
-                clipped_signal = np.empty_like(input_signal)
-                clipped_signal.real = np.clip(
-                    input_signal.real, -max_amplitude, max_amplitude - step
+                quantized_signal.real = step * np.clip(
+                    np.floor(input_signal.real / step + 0.5), -max_level, max_level - 1
                 )
-                clipped_signal.imag = np.clip(
-                    input_signal.imag, -max_amplitude, max_amplitude - step
+                quantized_signal.imag = step * np.clip(
+                    np.floor(input_signal.imag / step + 0.5), -max_level, max_level - 1
                 )
 
-                quantized_signal.real = step * np.floor(clipped_signal.real / step + 0.5)
-                quantized_signal.imag = step * np.floor(clipped_signal.imag / step + 0.5)
-
         return quantized_signal
 
     def __convert_frame(self, frame_signal: RFSignal) -> RFSignal:
-- 
2.43.0


From c0021f8b68dc649f368d2f4edf1d26cc914b092a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:22 +0000
Subject: [PATCH 016/105] fix: gain control estimates the root mean square over
 all streams

---
 hermespy/simulation/rf/blocks/ad.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hermespy/simulation/rf/blocks/ad.py b/hermespy/simulation/rf/blocks/ad.py
index 063dc49..f8d2afa 100644
--- a/hermespy/simulation/rf/blocks/ad.py
+++ b/hermespy/simulation/rf/blocks/ad.py
@@ -342,7 +342,9 @@ class AutomaticGainControl(GainControlBase):
         elif self.agc_type == GainControlType.RMS_AMPLITUDE:
             max_amplitude = 0
             max_amplitude = max(
-                rms_value(np.real(input_signal)), rms_value(np.imag(input_signal)), max_amplitude
+                rms_value(np.real(input_signal).view(np.ndarray).flatten()),
+                rms_value(np.imag(input_signal).view(np.ndarray).flatten()),
+                max_amplitude,
             )
 
         else:
-- 
2.43.0


From d801d5739bdf5ffd9719a8acf7404cbd1ddf6ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 017/105] fix: keep sparse signal columns whose streams cancel
 out

---
 hermespy/core/signal_model.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/hermespy/core/signal_model.py b/hermespy/core/signal_model.py
index 9cc47e1..81173a5 100644
--- a/hermespy/core/signal_model.py
+++ b/hermespy/core/signal_model.py
@@ -1764,9 +1764,7 @@ class SparseSignal(Signal):
             return [SignalBlock(block.shape[0], block.shape[1], offset, block.tobytes())]
 
         # Find nonzero columns indices
-        nonzero_cols_idx = np.sum(block.view(np.ndarray), axis=0).nonzero()[
-            0
-        ]  # [3, 4, 5, 6, 12, 13, 14, 16, 17, ...]
+        nonzero_cols_idx = np.any(block.view(np.ndarray) != 0.0, axis=0).nonzero()[0]  # [3, 4, 5, 6, 12, 13, 14, 16, 17, ...]
         if len(nonzero_cols_idx) == 0:
             return []
         # Calculate nonzero windows offsets and stops
-- 
2.43.0


From 63878e06d0de95bd0b4276a254c8ed4b59ca31c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 018/105] fix: slice sparse signals from negative indices and
 with sample steps

---
 hermespy/core/signal_model.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hermespy/core/signal_model.py b/hermespy/core/signal_model.py
index 81173a5..a653aeb 100644
--- a/hermespy/core/signal_model.py
+++ b/hermespy/core/signal_model.py
@@ -2075,11 +2075,9 @@ class SparseSignal(Signal):
 
         # Handle the case in which samples are selcted by a slice, i.e. [..., a:b:c]
         if isinstance(sample_selector, slice):
-            samples_start: int = sample_selector.start if sample_selector.start is not None else 0
-            samples_end: int = (
-                sample_selector.stop if sample_selector.stop is not None else self.num_samples
-            )
-            samples_step: int = sample_selector.step if sample_selector.step is not None else 1
+            samples_start, samples_end, samples_step = sample_selector.indices(self.num_samples)
+            if samples_step < 1:
+                raise NotImplementedError("Only positive steps are implemented")
 
             for block in self.blocks:
 
@@ -2090,11 +2088,13 @@ class SparseSignal(Signal):
                 # Calculate the first index of the new block in the result
                 block_start_index = max(samples_start - block.offset, 0)
                 block_start_index += (
-                    block_start_index + block.offset - samples_start
+                    samples_start - block_start_index - block.offset
                 ) % samples_step
 
                 # Calculate the last index of the new block in the result
                 block_end_index = min(samples_end - block.offset, block.num_samples)
+                if block_start_index >= block_end_index:
+                    continue
 
                 # Correctly slice the block
                 sliced_block_samples = block.view(np.ndarray)[
-- 
2.43.0


From 52bb411000db1fbbf58767193b6610b3ef381db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:52 +0000
Subject: [PATCH 019/105] fix: write samples to sparse signals

---
 hermespy/core/signal_model.py | 218 ++++++----------------------------
 1 file changed, 37 insertions(+), 181 deletions(-)

diff --git a/hermespy/core/signal_model.py b/hermespy/core/signal_model.py
index a653aeb..d696f73 100644
--- a/hermespy/core/signal_model.py
+++ b/hermespy/core/signal_model.py
@@ -1992,48 +1992,6 @@ class SparseSignal(Signal):
             should_flatten_samples,
         )
 
-    def _find_affectedblocks(self, s10: int, s11: int) -> tuple[int, int]:
-        """Find indices of blocks that are affected by the given samples slice.
-
-        Arguments:
-            s10: Start of the samples slice.
-            s11: Stop of the samples slice.
-
-        Return:
-            b_start, b_stop:
-                Indices of the first and the last affected blocks.
-        """
-
-        # Done with a binary search algotrithm.
-
-        # Starting block
-        L = 0
-        R = len(self.blocks) - 1
-        b_start = L
-        while L < R:
-            b_start = -((R + L) // -2)  # upside-down floor division
-            if self.blocks[b_start].offset > s10:
-                R = b_start - 1
-            else:
-                L = b_start
-        if self.blocks[b_start].offset > s10 and b_start != 0:
-            b_start -= 1
-
-        # Stopping block
-        L = 0
-        R = len(self.blocks) - 1
-        b_stop = R
-        while L < R:
-            b_stop = (R + L) // 2
-            if self.blocks[b_stop].end < s11:
-                L = b_stop + 1
-            else:
-                R = b_stop
-        if self.blocks[b_stop].end < s11 and (len(self.blocks) - 1) > b_stop:
-            b_stop += 1
-
-        return b_start, b_stop
-
     @override
     def __getitem__(
         self, key: tuple[slice | SupportsIndex | Sequence[SupportsIndex], ...]
@@ -2172,73 +2130,23 @@ class SparseSignal(Signal):
             )
         if isboolmask:
             raise NotImplementedError("SparseSignal __setitem__ does not support boolean masks yet")
-        num_streams = -((s01 - s00) // -s02)
-        num_samples = -((s11 - s10) // -s12)
 
         # clamp the slices to the actual dimensions
-        num_streams = min(self.num_streams, num_streams)
-        num_samples = min(self.num_samples, num_samples)
         s01 = min(self.num_streams, s01)
         s11 = min(self.num_samples, s11)
 
-        # If insertion happens entirely before the first block
-        if s11 < self.blocks[0].offset:
-            # then create new blocks and insert them into the model
-            if not isinstance(value, np.ndarray):
-                value = np.complex128(value)
-                if value == 0.0 + 0.0j:
-                    return
-                bs_new = [
-                    SignalBlock(
-                        num_streams,
-                        num_samples,
-                        s10,
-                        bytearray(np.full((num_streams, num_samples), value, np.complex128)),
-                    )
-                ]
-            else:
-                bs_new = self.__from_dense(value.reshape((num_streams, num_samples)))
-            self.__blocks = bs_new + self.blocks
-            return
-
-        # Get sliced streames indices
+        # Do nothing if no samples are affected
         stream_idx = np.arange(s00, s01, s02)
-        # Do nothing if no streams are affected
-        if stream_idx.size == 0:
+        num_samples = s11 - s10
+        if stream_idx.size == 0 or num_samples < 1:
             return
 
         # Parse and validate value samples
-        # Parse scalar values
-        if not isinstance(value, np.ndarray):
-            value = np.complex128(value)
-
-            # Special case: Do nothing if the value is zero
-            if value == 0.0 + 0.0j:
-                bs_new = []
-
-            # Otherwise the added blocks are a single block of the given value
-            else:
-                bs_new = [
-                    SignalBlock(
-                        num_streams,
-                        num_samples,
-                        s10,
-                        bytearray(np.full((num_streams, num_samples), value, np.complex128)),
-                    )
-                ]
-
-        # Parse matrix values
-        else:  # else value is a samples matrix
-            if value.ndim == 1:
-                value = value.reshape((num_streams, num_samples))
-            bs_new = self.__from_dense(value, s10)
-            if len(bs_new) == 0:
-                return  # pragma: no cover
-            if bs_new[-1].end - bs_new[0].offset > num_samples or bs_new[0].shape[0] != num_streams:
-                raise ValueError("Shape mismatch")
-
-        # Find blocks that will be overwritten or modified.
-        b_start, b_stop = self._find_affectedblocks(s10, s11)
+        samples = value.view(np.ndarray) if isinstance(value, Signal) else np.asarray(value)
+        if samples.ndim == 1:
+            samples = samples.reshape((stream_idx.size, num_samples))
+        if samples.ndim != 0 and samples.shape != (stream_idx.size, num_samples):
+            raise ValueError("Shape mismatch")
 
         # Example:
         #     s10                   s11
@@ -2246,88 +2154,36 @@ class SparseSignal(Signal):
         # xxxxxxxx0000000xxxx000xxxxxxxxx -- self signal
         #      yyyyy00yy0000yyyyy0000     -- value
         # xxxxxyyyyy00yy0000yyyyy0000xxxx -- result
-        # ^   ^                           -- remaining samples from the first affected block
+        # ^   ^                           -- remaining samples of the blocks before
         #      ^   value samples    ^
-        #                            ^  ^ -- remaining samples from the last affected block
-
-        # Init the resulting blocks
-        # Here the resulting blocks list is divided
-        # onto 3 parts as on the ascii example.
-        # b_start and b_stop can be sliced partially and will be added to the lists right after.
-        # value argument will be applied only to the middle blocks (_mid).
-        blocks_new_beg = self.__blocks[:b_start]
-        blocks_new_mid = [b for b in self.__blocks[b_start + 1 : b_stop]]
-        blocks_new_end = self.__blocks[b_stop + 1 :]
-
-        # Cut the first affected block
-        # Example:
-        #      s10                  s10
-        #       v                    v
-        # xxxxxxxxxxxx00000 -> xxxxxxxxxxxx00000
-        # [ b_start  ]         [1st ][2nd ]
-        b = self.blocks[b_start]
-        cut_col = max(s10 - b.offset, 0)  # max is for s10 < self.blocks[0].offset
-        b_l = b[:, :cut_col]
-        b_r = b[:, cut_col:]
-        b_r.offset += cut_col
-        if b_l.size != 0:
-            blocks_new_beg.append(b_l)
-        if b_r.size != 0:
-            blocks_new_mid = [b_r] + blocks_new_mid
-
-        # Cut the last affected block
-        if b_start != b_stop:
-            b = self.blocks[b_stop]
-            cut_col = s11 - b.offset
-            b_l = b[:, :cut_col]
-            b_r = b[:, cut_col:]
-            b_r.offset += cut_col
-            if b_l.size != 0:
-                blocks_new_mid.append(b_l)
-            if b_r.size != 0:
-                blocks_new_end = [b_r] + blocks_new_end
-
-        # If only some of the streams are being replaced,
-        # then block merging must be performed.
-        if stream_idx.size != self.num_streams:
-            b_offs, b_stops = self._getblocks_union(blocks_new_mid, bs_new)
-
-            # Asseble the new blocks
-            incoming_signal = SparseSignal(
-                bs_new, self.sampling_rate, self.carrier_frequency, self.noise_power, self.delay
-            )
-            blocks_new_mid_new = []
-            for b_off, b_stop in zip(b_offs, b_stops):
-                b_new = self[(slice(None, None), slice(b_off, b_stop))].view(np.ndarray)
-                b_new[stream_idx, :] = incoming_signal[:, b_off : min(b_stop, s11)]
-
-                blocks_new_mid_new.append(
-                    SignalBlock(b_new.shape[0], b_new.shape[1], b_off, bytearray(b_new))
-                )
-            blocks_new_mid = blocks_new_mid_new
-
-        # Otherwise, the middle blocks are being simply replaced with the new ones
-        else:
-            blocks_new_mid = bs_new
-
-        # Insert the result into this sparse signal model
-        self.__blocks = blocks_new_beg + blocks_new_mid + blocks_new_end
-        # merge new beginning blocks if needed
-        if len(blocks_new_beg) != 0:
-            b2_idx = len(blocks_new_beg)
-            b1 = self.__blocks[b2_idx - 1]
-            b2 = self.__blocks[b2_idx]
-            if b1.end == b2.offset:
-                self.__blocks[b2_idx - 1] = b1.append_samples(b2)
-                self.__blocks.pop(b2_idx)
-        # merge new ending blocks if needed
-        if len(blocks_new_end) != 0:
-            b2_idx = -len(blocks_new_end)
-            b1 = self.__blocks[b2_idx - 1]
-            b2 = self.__blocks[b2_idx]
-            if b1.end == b2.offset:
-                self.__blocks[b2_idx - 1] = b1.append_samples(b2)
-                self.__blocks.pop(b2_idx)
+        #                            ^  ^ -- remaining samples of the blocks after
+        region = np.zeros((self.num_streams, num_samples), dtype=np.complex128)
+        blocks_beg: list[SignalBlock] = []
+        blocks_end: list[SignalBlock] = []
+        for b in self.blocks:
+            if b.offset < s10:
+                blocks_beg.append(b[:, : s10 - b.offset])
+
+            start, stop = max(b.offset, s10), min(b.end, s11)
+            if start < stop:
+                region[:, start - s10 : stop - s10] = b[:, start - b.offset : stop - b.offset]
+
+            if b.end > s11:
+                cut_col = max(s11 - b.offset, 0)
+                b_r = b[:, cut_col:]
+                b_r.offset = b.offset + cut_col
+                blocks_end.append(b_r)
+
+        region[stream_idx, :] = samples
+
+        # Insert the result into this sparse signal model and merge adjacent blocks
+        blocks: list[SignalBlock] = []
+        for b in [*blocks_beg, *self.__from_dense(region, s10), *blocks_end]:
+            if len(blocks) > 0 and blocks[-1].end == b.offset:
+                blocks[-1] = blocks[-1].append_samples(b)
+            else:
+                blocks.append(b)
+        self.__blocks = blocks if len(blocks) > 0 else [SignalBlock(self.num_streams, 0)]
 
     @override
     def resample(self, sampling_rate: float, aliasing_filter: bool = True) -> SparseSignal:
-- 
2.43.0


From 165ed61e8ad5bad1074bbcb14413b8005b75a2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:52 +0000
Subject: [PATCH 020/105] fix: append streams to sparse signals of other block
 layouts

---
 hermespy/core/signal_model.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/hermespy/core/signal_model.py b/hermespy/core/signal_model.py
index d696f73..2f1141b 100644
--- a/hermespy/core/signal_model.py
+++ b/hermespy/core/signal_model.py
@@ -2469,19 +2469,27 @@ class SparseSignal(Signal):
             for b_ in self.__from_dense(b):
                 blocks_incoming.append(b_)
 
+        if any(b.end > self.num_samples for b in blocks_incoming):
+            raise ValueError("Number of samples do not match")
+
         # Create new resulting blocks
         new_num_streams = self.num_streams + value.shape[0]
         b_offs, b_stops = self._getblocks_union(self.blocks, blocks_incoming)
 
         blocks_new = []
         for block_start, block_stop in zip(b_offs, b_stops):
+            new_block = np.zeros((new_num_streams, block_stop - block_start), np.complex128)
+            for blocks, streams in (
+                (self.blocks, slice(0, self.num_streams)),
+                (blocks_incoming, slice(self.num_streams, new_num_streams)),
+            ):
+                for b in blocks:
+                    start, stop = max(b.offset, block_start), min(b.end, block_stop)
+                    if start < stop:
+                        new_block[streams, start - block_start : stop - block_start] = b[
+                            :, start - b.offset : stop - b.offset
+                        ]
 
-            # Select the respective blocks to be mergerd from both signal models
-            initial_block = self[:, block_start:block_stop].view(np.ndarray)
-            appended_block = value[:, block_start:block_stop].view(np.ndarray)
-
-            # Merge the blocks into a new block with increased number of streams
-            new_block = np.concatenate((initial_block, appended_block), axis=0)
             blocks_new.append(
                 SignalBlock(
                     new_num_streams, block_stop - block_start, block_start, new_block.tobytes()
-- 
2.43.0


From c9008102ce7d151739a7e88971e9be3bafc359dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:52 +0000
Subject: [PATCH 021/105] fix: compute the energy and power of sparse signals
 per stream

---
 hermespy/core/signal_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/core/signal_model.py b/hermespy/core/signal_model.py
index 2f1141b..c5105cc 100644
--- a/hermespy/core/signal_model.py
+++ b/hermespy/core/signal_model.py
@@ -1715,12 +1715,12 @@ class SparseSignal(Signal):
     @property
     @override
     def energy(self) -> np.ndarray:
-        return np.sum([b.energy for b in self.blocks])
+        return np.sum([b.energy for b in self.blocks], axis=0)
 
     @property
     @override
     def power(self) -> np.ndarray:
-        return np.mean([b.power for b in self.blocks], axis=0)
+        return self.energy / sum(b.num_samples for b in self.blocks)
 
     @override
     def view(self, dtype: type[AT]) -> AT:
-- 
2.43.0


From 993c3be7b5fae6036a6af85f0c1a3e3b9ee0be4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:07 +0000
Subject: [PATCH 022/105] fix: superimpose delayed signals and stream subsets
 without loss

Dense signals cut the end of delayed signals instead of shifting them.
Sparse signals could not superimpose subsets of their streams and
shifted the blocks of the added signal itself.
---
 hermespy/core/signal_model.py | 37 +++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/hermespy/core/signal_model.py b/hermespy/core/signal_model.py
index c5105cc..c7e9f14 100644
--- a/hermespy/core/signal_model.py
+++ b/hermespy/core/signal_model.py
@@ -1474,6 +1474,7 @@ class DenseSignal(SignalBlock, Signal):  # type: ignore[misc]
             _added_signal = added_signal
 
         # Account for possible delay differences
+        shift = 0
         if self.delay != _added_signal.delay:
             if interpolation == InterpolationMode.NEAREST:
                 if self.delay > _added_signal.delay:
@@ -1484,13 +1485,9 @@ class DenseSignal(SignalBlock, Signal):  # type: ignore[misc]
                         ) :,
                     ]
                 else:
-                    _added_signal = _added_signal[
-                        :,
-                        : _added_signal.num_samples
-                        - int(
-                            round((_added_signal.delay - self.delay) * _added_signal.sampling_rate)
-                        ),
-                    ]
+                    shift = int(
+                        round((_added_signal.delay - self.delay) * _added_signal.sampling_rate)
+                    )
 
             else:
                 raise NotImplementedError(
@@ -1499,14 +1496,14 @@ class DenseSignal(SignalBlock, Signal):  # type: ignore[misc]
 
         if (
             _added_signal.num_streams <= self.num_streams
-            and _added_signal.num_samples <= self.num_samples
+            and shift + _added_signal.num_samples <= self.num_samples
         ):
             return_signal = self
 
         else:
             # Generate a new dense signal with enough memory to hold both signals
             new_num_streams = max(self.num_streams, _added_signal.num_streams)
-            new_num_samples = max(self.num_samples, _added_signal.num_samples)
+            new_num_samples = max(self.num_samples, shift + _added_signal.num_samples)
             dense_signal = DenseSignal.Zeros(
                 new_num_streams,
                 new_num_samples,
@@ -1523,7 +1520,8 @@ class DenseSignal(SignalBlock, Signal):  # type: ignore[misc]
         # Add the added_signal to the new dense signal
         _stream_indices = slice(None) if stream_indices is None else stream_indices
         for b in _added_signal.blocks:
-            return_signal[_stream_indices, b.offset : b.end] += b[_stream_indices, :].superimpose_to(  # type: ignore
+            samples = slice(b.offset + shift, b.end + shift)
+            return_signal[_stream_indices, samples] += b[_stream_indices, :].superimpose_to(  # type: ignore
                 return_signal.sampling_rate,
                 return_signal.carrier_frequency,
                 _added_signal.sampling_rate,
@@ -2233,8 +2231,9 @@ class SparseSignal(Signal):
             num_delay_samples = int(
                 round((added_signal.delay - self.delay) * added_signal.sampling_rate)
             )
-            added_blocks = added_signal.blocks
             if interpolation is InterpolationMode.NEAREST:
+                # Shift copies, the added signal itself must remain unchanged
+                added_blocks = [b.copy() for b in added_signal.blocks]
                 for b in added_blocks:
                     b.offset += num_delay_samples
 
@@ -2242,9 +2241,8 @@ class SparseSignal(Signal):
                 raise NotImplementedError("Only InterpolationMode.NEAREST is implemented")
 
         # Parse stream indices
-        num_streams = added_signal.num_streams if stream_indices is None else len(stream_indices)
         _stream_indices: np.ndarray = (
-            np.arange(num_streams)
+            np.arange(added_signal.num_streams)
             if stream_indices is None
             else np.asarray(stream_indices, dtype=np.int64).flatten()
         )
@@ -2280,10 +2278,13 @@ class SparseSignal(Signal):
             w_size = w_stop - w_off
 
             # Initialize a new block with zeros
-            unified_block = np.zeros((num_streams, w_size), np.complex128)
+            unified_block = np.zeros((self.num_streams, w_size), np.complex128)
 
-            # Sum the samples from self
-            for blocks in [self.blocks, added_resampled_blocks]:
+            # Sum the samples from self and the selected streams of the added signal
+            for blocks, streams in [
+                (self.blocks, np.arange(self.num_streams)),
+                (added_resampled_blocks, _stream_indices),
+            ]:
                 for b in blocks:
 
                     # If the block ends before this window's start, skip it
@@ -2304,7 +2305,9 @@ class SparseSignal(Signal):
                     b_stop_index = min(b.num_samples, w_off - b.offset + w_size)
 
                     # Add the overlapping sections
-                    unified_block[:, w_start_index:w_stop_index] += b[:, b_start_index:b_stop_index]
+                    unified_block[streams, w_start_index:w_stop_index] += b[
+                        streams, b_start_index:b_stop_index
+                    ]
 
             unified_blocks.append(
                 SignalBlock(self.num_streams, w_size, w_off, unified_block.tobytes())
-- 
2.43.0


From 6674503f53acf78c381e92281fbee5341a7c98dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:07 +0000
Subject: [PATCH 023/105] fix: superimpose all signals impinging on a device

The superposition's result was discarded, so that processing more than
one impinging signal always resulted in an empty signal.
---
 hermespy/core/device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/core/device.py b/hermespy/core/device.py
index b8ec5e7..71f5aff 100644
--- a/hermespy/core/device.py
+++ b/hermespy/core/device.py
@@ -1520,7 +1520,7 @@ class Device(ABC, Generic[DST], Transformable, RandomNode, Serializable):
                 carrier_frequency=self.carrier_frequency,
             )
             for signal in impinging_signals:
-                superimposed_signal.superimpose(signal)
+                superimposed_signal = superimposed_signal.superimpose(signal)
 
         else:
             superimposed_signal = impinging_signals[0]
-- 
2.43.0


From 7656a2689173a56c3446fa297b064c4650833f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 024/105] fix: add noise to sparse signals

---
 hermespy/simulation/rf/noise/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hermespy/simulation/rf/noise/model.py b/hermespy/simulation/rf/noise/model.py
index 90e9614..eaacb97 100644
--- a/hermespy/simulation/rf/noise/model.py
+++ b/hermespy/simulation/rf/noise/model.py
@@ -152,7 +152,8 @@ class AWGNRealization(NoiseRealization):
             rng.standard_normal(signal.shape) + 1j * rng.standard_normal(signal.shape)
         )
 
-        noisy_signal = signal.copy()
+        # Noise is added to all samples, including the implicit zeros of sparse signals
+        noisy_signal = signal.to_dense().copy()
         for block in noisy_signal.blocks:
             block += noise_samples  # type: ignore
         noisy_signal.noise_power = self.power
-- 
2.43.0


From 88e6908697bcdd099fe251ae3a43d02775ec0cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:58 +0000
Subject: [PATCH 025/105] fix: samples of simulations were lost by concurrent
 result requests

Concurrent requests to fetch an actor's results could fail with an index error.
Requests issued by a collector starting after its results have been fetched
took samples without ever collecting them.
---
 hermespy/core/pymonte/actors.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/hermespy/core/pymonte/actors.py b/hermespy/core/pymonte/actors.py
index cba1f1e..8ea1bc6 100644
--- a/hermespy/core/pymonte/actors.py
+++ b/hermespy/core/pymonte/actors.py
@@ -175,7 +175,7 @@ class MonteCarloCollector(object):
         self.__queue_manager = queue_manager
         self.__actors = actors
         self.__results = [e.initialize_result(grid) for e in evaluators]
-        self.__active = False
+        self.__active = True
         self.__future_map: dict[ObjectRef, MonteCarloActor] = {}
         self.__processing_lock = Lock()
 
@@ -185,8 +185,12 @@ class MonteCarloCollector(object):
         This method will block and keep running until :meth:`fetch_results` is called.
         """
 
-        self.__future_map = {a.fetch_results.remote(): a for a in self.__actors}  # type: ignore[attr-defined]
-        self.__active = True
+        with self.__processing_lock:
+            # Do not query any actor if the results have already been fetched
+            if not self.__active:
+                return
+
+            self.__future_map = {a.fetch_results.remote(): a for a in self.__actors}  # type: ignore[attr-defined]
 
         while self.__active:
             # Wait for the next sample to be available
@@ -374,12 +378,14 @@ class MonteCarloActor(Generic[MO]):
         Returns: list of results from the actor run.
         """
 
-        # Take the results one by one, the running thread might append further results in the meantime
+        # Take the results one by one, the running thread might append further results
+        # and concurrent requests might take results in the meantime
         results: list[ObjectRef[list[MonteCarloSample]]] = []
-        while len(self.__results) > 0:
-            results.append(self.__results.pop(0))
-
-        return results
+        while True:
+            try:
+                results.append(self.__results.pop(0))
+            except IndexError:
+                return results
 
     def __run_batch(self, batch: list[tuple[int, ...]]) -> list[MonteCarloSample]:
         """Run the simulation actor.
-- 
2.43.0


From f847874b72a639abad5017349193eacbe695d282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:40 +0000
Subject: [PATCH 026/105] fix: decibel values of logarithmic sequences follow
 their linear values

Decibel values were cached, so that they were wrong for amplitude conversions
and after in-place operations or writes to slices.
---
 hermespy/core/logarithmic.py | 39 +++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/hermespy/core/logarithmic.py b/hermespy/core/logarithmic.py
index 5784f7f..103f273 100644
--- a/hermespy/core/logarithmic.py
+++ b/hermespy/core/logarithmic.py
@@ -253,7 +253,6 @@ class Logarithmic(float):
 class LogarithmicSequence(np.ndarray[tuple[int], np.dtype[np.float64]]):
     """A sequence of logarithmic numbers."""
 
-    __values_db: list[float]
     __conversion: DbConversionType
 
     def __new__(
@@ -300,12 +299,9 @@ class LogarithmicSequence(np.ndarray[tuple[int], np.dtype[np.float64]]):
         if instance is None:
             return  # pragma: no cover
 
-        # Convert view
-        view = self.view(np.ndarray).flatten()
-
         # Abort if a numpy boolean array is represented
         # This is required to work around a strange bug in assert_array_almost_equal
-        if not issubclass(view.dtype.type, np.floating) or self.ndim < 1:
+        if not issubclass(self.dtype.type, np.floating) or self.ndim < 1:
             np.ndarray.__array_finalize__(self, instance)
             return
 
@@ -314,7 +310,6 @@ class LogarithmicSequence(np.ndarray[tuple[int], np.dtype[np.float64]]):
 
         # Configure class atributes
         self.__conversion = conversion
-        self.__values_db = [lin2db(float(value), conversion) for value in view]
 
     @property
     def conversion(self) -> DbConversionType:
@@ -325,6 +320,20 @@ class LogarithmicSequence(np.ndarray[tuple[int], np.dtype[np.float64]]):
 
         return self.__conversion
 
+    def __to_logarithmic(self, value: float) -> Logarithmic:
+        """Represent a linear entry of this sequence as a logarithmic number.
+
+        The logarithmic value is computed on demand, since the linear entries may
+        be altered by in-place operations or by writing to views of this sequence.
+
+        Args:
+            value: Linear value of the entry.
+
+        Returns: Logarithmic representation of the entry.
+        """
+
+        return Logarithmic.From_Tuple(value, lin2db(float(value), self.conversion), self.conversion)
+
     @override
     def tolist(self) -> list[Logarithmic]:  # type: ignore[override]
         """Convert to list representation.
@@ -332,30 +341,18 @@ class LogarithmicSequence(np.ndarray[tuple[int], np.dtype[np.float64]]):
         Returns: list of logarithmics.
         """
 
-        return [
-            Logarithmic.From_Tuple(lin, log, self.conversion)
-            for lin, log in zip(self.view(np.ndarray), self.__values_db)
-        ]
+        return [self.__to_logarithmic(value) for value in self.view(np.ndarray)]
 
     @override
     def __getitem__(self, i: SupportsIndex) -> Logarithmic | np.ndarray:  # type: ignore[override]
         if isinstance(i, (int, np.integer)):
-            return Logarithmic.From_Tuple(
-                np.ndarray.__getitem__(self, i), self.__values_db[i], self.conversion
-            )
+            return self.__to_logarithmic(np.ndarray.__getitem__(self, i))
 
         return np.ndarray.__getitem__(self, i)
 
     @override
     def __setitem__(self, i: SupportsIndex, item: Logarithmic | float | int) -> None:  # type: ignore[override]
-        # Convert non-logarithmic items to logarithmic
-        if isinstance(item, Logarithmic):
-            np.ndarray.__setitem__(self, i, float(item))
-            self.__values_db[i] = item.value_db
-
-        else:
-            np.ndarray.__setitem__(self, i, item)
-            self.__values_db[i] = lin2db(item, self.conversion)
+        np.ndarray.__setitem__(self, i, item)
 
     def __reduce__(
         self,
-- 
2.43.0


From dd8bd31f838480510a95fe33708493eb2aa38f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:56 +0000
Subject: [PATCH 027/105] fix: preserve the timing of sparse signals consisting
 of a single block

---
 hermespy/core/signal_model.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/hermespy/core/signal_model.py b/hermespy/core/signal_model.py
index c7e9f14..8e311d7 100644
--- a/hermespy/core/signal_model.py
+++ b/hermespy/core/signal_model.py
@@ -895,18 +895,28 @@ class Signal(ABC, Iterable, Serializable):
             SparseSignal if samples argument is a list of ndarrays. DenseSignal otherwise.
         """
 
-        if isinstance(samples, Sequence) and len(samples) != 1:
-            return SparseSignal(samples, sampling_rate, carrier_frequency, noise_power, delay)
+        if not isinstance(samples, Sequence):
+            return DenseSignal.FromNDArray(
+                samples, sampling_rate, carrier_frequency, noise_power, delay
+            )
+
+        # Move the blocks to the requested offsets
+        blocks: list[SignalBlock] = [s.view(SignalBlock) for s in samples]
+        if offsets is not None:
+            for block, offset in zip(blocks, offsets):
+                block.offset = offset
+
+        if len(blocks) != 1:
+            return SparseSignal(blocks, sampling_rate, carrier_frequency, noise_power, delay)
 
-        dense_delay = delay
-        dense_delay += offsets[0] / sampling_rate if offsets and len(offsets) > 0 else 0.0
+        # A single block is represented by a dense signal, so its offset adds to the signal's delay
         return DenseSignal.FromNDArray(
             # For now, samples are cast to complex128 to avoid issues with deserialization
-            samples[0] if isinstance(samples, Sequence) else samples,
+            blocks[0],
             sampling_rate,
             carrier_frequency,
             noise_power,
-            dense_delay,
+            delay + blocks[0].offset / sampling_rate,
         )
 
     @staticmethod
@@ -1290,6 +1300,7 @@ class DenseSignal(SignalBlock, Signal):  # type: ignore[misc]
         dense_signal = array.astype(np.complex128).view(DenseSignal)
 
         # Update additional attributes
+        dense_signal.offset = 0
         dense_signal.sampling_rate = sampling_rate
         dense_signal.carrier_frequency = carrier_frequency
         dense_signal.noise_power = noise_power
-- 
2.43.0


From 2f5872b8f534398e9d7db2b619ba8565cb12f29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:56 +0000
Subject: [PATCH 028/105] fix: use matrix roots for the impedance coupling of
 multiple antennas

---
 hermespy/simulation/coupling/impedance.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hermespy/simulation/coupling/impedance.py b/hermespy/simulation/coupling/impedance.py
index 97b5301..fc4a7ad 100644
--- a/hermespy/simulation/coupling/impedance.py
+++ b/hermespy/simulation/coupling/impedance.py
@@ -5,6 +5,7 @@ from typing import TYPE_CHECKING
 from typing_extensions import override
 
 import numpy as np
+from scipy.linalg import fractional_matrix_power
 
 from hermespy.core import DeserializationProcess, SerializationProcess, SignalBlock
 from .coupling import Coupling
@@ -178,7 +179,9 @@ class ImpedanceCoupling(Coupling):
             else self.transmit_correlation
         )
 
-        transmit_coupling = transmit_impedance.real**-0.5 @ transmit_correlation**0.5
+        transmit_coupling = fractional_matrix_power(
+            transmit_impedance.real, -0.5
+        ) @ fractional_matrix_power(transmit_correlation, 0.5)
         transmitted_samples = transmit_coupling @ signal
 
         return SignalBlock(
@@ -206,9 +209,9 @@ class ImpedanceCoupling(Coupling):
         receive_coupling = (
             2
             * receive_impedance[0, 0].real
-            * matching_impedance.real**0.5
+            * fractional_matrix_power(matching_impedance.real, 0.5)
             @ np.linalg.inv(matching_impedance + receive_correlation)
-            @ receive_correlation**0.5
+            @ fractional_matrix_power(receive_correlation, 0.5)
         )
         received_samples = receive_coupling @ signal
         return SignalBlock(
-- 
2.43.0


From f8886a60eb2a0caeb15820f681b4db793ead22bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:56 +0000
Subject: [PATCH 029/105] fix: resetting the isolation clears its leakage
 factors

---
 hermespy/simulation/isolation/specific.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hermespy/simulation/isolation/specific.py b/hermespy/simulation/isolation/specific.py
index 896db2e..45d4434 100644
--- a/hermespy/simulation/isolation/specific.py
+++ b/hermespy/simulation/isolation/specific.py
@@ -70,6 +70,7 @@ class SpecificIsolation(ScalarDimension, Isolation):
     ) -> None:
         if value is None:
             self.__isolation = None
+            self.__leakage_factors = None
             return
 
         if isinstance(value, (float, int)):
-- 
2.43.0


From c59979116ac9892440cce2a39193103c1cb883e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:56 +0000
Subject: [PATCH 030/105] fix: ideal channels do not alter the signals
 propagated

---
 hermespy/channel/ideal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/channel/ideal.py b/hermespy/channel/ideal.py
index ce30de7..674fd19 100644
--- a/hermespy/channel/ideal.py
+++ b/hermespy/channel/ideal.py
@@ -112,7 +112,7 @@ class IdealChannelSample(ChannelSample):
                 )
 
         # Apply channel gain
-        propagated_samples *= np.sqrt(self.__gain)
+        propagated_samples = propagated_samples * np.sqrt(self.__gain)
         return SignalBlock(
             self.num_receive_antennas,
             signal.num_samples,
-- 
2.43.0


From 00b7e87d9fba69f7bdfeacde47ea0fffa8ae88bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:56 +0000
Subject: [PATCH 031/105] fix: the gain of delay channels scales the signal
 power

---
 hermespy/channel/delay/delay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/channel/delay/delay.py b/hermespy/channel/delay/delay.py
index ce0496f..e498353 100644
--- a/hermespy/channel/delay/delay.py
+++ b/hermespy/channel/delay/delay.py
@@ -74,7 +74,7 @@ class DelayChannelSample(ChannelSample):
 
     @property
     def expected_energy_scale(self) -> float:
-        return self.__path_gain(self.carrier_frequency)
+        return self.__path_gain(self.carrier_frequency) ** 2
 
     def __spatial_response(self) -> np.ndarray:
 
@@ -108,7 +108,7 @@ class DelayChannelSample(ChannelSample):
         Returns: Linear path gain scaling the amplitude of a propagated signal.
         """
 
-        gain_factor = self.gain
+        gain_factor = self.gain**0.5
 
         if self.model_propagation_loss:
             if carrier_frequency == 0.0:
-- 
2.43.0


From bcffd24172068dc0604f6c9cfc77d5ddb1d10573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:56 +0000
Subject: [PATCH 032/105] fix: superimpose overlapping blocks of propagated
 sparse signals

---
 hermespy/channel/channel.py | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/hermespy/channel/channel.py b/hermespy/channel/channel.py
index d5e93c1..2c6ab19 100644
--- a/hermespy/channel/channel.py
+++ b/hermespy/channel/channel.py
@@ -367,7 +367,18 @@ class ChannelSample(object):
             )
 
         # Propagate each signal block
-        propagated_blocks = [self._propagate(b, interpolation_mode) for b in _signal.blocks]
+        propagated_blocks: list[SignalBlock] = []
+        for block in _signal.blocks:
+            propagated_block = self._propagate(block, interpolation_mode)
+
+            # Delayed components of a block may overlap with the blocks succeeding it
+            if len(propagated_blocks) > 0 and propagated_block.offset < propagated_blocks[-1].end:
+                propagated_block = self.__superimpose_blocks(
+                    propagated_blocks.pop(), propagated_block
+                )
+
+            propagated_blocks.append(propagated_block)
+
         block_offsets = [b.offset for b in propagated_blocks]
         return Signal.Create(
             propagated_blocks,
@@ -378,6 +389,26 @@ class ChannelSample(object):
             offsets=block_offsets,
         )
 
+    @staticmethod
+    def __superimpose_blocks(first: SignalBlock, second: SignalBlock) -> SignalBlock:
+        """Superimpose two overlapping signal blocks.
+
+        Args:
+
+            first: Block starting first.
+            second: Block starting at or after the first block.
+
+        Returns: Block covering the time spans of both blocks.
+        """
+
+        num_samples = max(first.end, second.end) - first.offset
+        samples = np.zeros((first.num_streams, num_samples), dtype=np.complex128)
+        samples[:, : first.num_samples] += first
+        second_start = second.offset - first.offset
+        samples[:, second_start : second_start + second.num_samples] += second
+
+        return SignalBlock(first.num_streams, num_samples, first.offset, samples.tobytes())
+
     @abstractmethod
     def state(
         self,
-- 
2.43.0


From 056c4c26251ba054c92220a002f9f97296b79bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:56 +0000
Subject: [PATCH 033/105] fix: truncated channel states of multipath fading
 channels

---
 hermespy/channel/fading/fading.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hermespy/channel/fading/fading.py b/hermespy/channel/fading/fading.py
index befbf8a..7de9677 100644
--- a/hermespy/channel/fading/fading.py
+++ b/hermespy/channel/fading/fading.py
@@ -352,7 +352,7 @@ class MultipathFadingSample(ChannelSample):
         siso_csi = np.zeros((num_samples, num_taps), dtype=np.complex128)
         for path_impulse, path_delay_samples in self.__path_impulse_generator(num_samples):
             # Skip paths with delays larger than the maximum delay required by the CSI request
-            if path_delay_samples > num_taps:
+            if path_delay_samples >= num_taps:
                 continue
 
             siso_csi[:, path_delay_samples] += path_impulse
@@ -360,7 +360,12 @@ class MultipathFadingSample(ChannelSample):
         # For the multipath fading model, the MIMO CSI is the outer product of the SISO CSI with the spatial response
         # The resulting multidimensional array is sparse in its fourth dimension and converted to a GCXS array for memory efficiency
         mimo_csi = GCXS.from_numpy(
-            np.einsum("ij,kl->ijkl", self.spatial_response, siso_csi), compressed_axes=(0, 1, 2)
+            np.einsum(
+                "ij,kl->ijkl",
+                self.spatial_response[: self.num_receive_antennas, : self.num_transmit_antennas],
+                siso_csi,
+            ),
+            compressed_axes=(0, 1, 2),
         )
 
         state = ChannelStateInformation(
-- 
2.43.0


From 8382f141c3ef7d659a7a024d1a3c340d473d9074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:56 +0000
Subject: [PATCH 034/105] fix: Doppler phases of sparse signals consider the
 block offsets

---
 hermespy/channel/cdl/cluster_delay_lines.py | 6 +++---
 hermespy/channel/fading/fading.py           | 6 +++---
 hermespy/channel/radar/radar.py             | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/hermespy/channel/cdl/cluster_delay_lines.py b/hermespy/channel/cdl/cluster_delay_lines.py
index 22e98f7..c9fdae7 100644
--- a/hermespy/channel/cdl/cluster_delay_lines.py
+++ b/hermespy/channel/cdl/cluster_delay_lines.py
@@ -407,7 +407,7 @@ class ClusterDelayLineSample(ChannelSample):
         return float(np.sum(self.cluster_powers))
 
     def __ray_impulse_generator(
-        self, sampling_rate: float, num_samples: int, center_frequency: float
+        self, sampling_rate: float, num_samples: int, center_frequency: float, first_sample: int = 0
     ) -> Generator[Tuple[np.ndarray, np.ndarray, float], None, None]:
         """Sequential generation of individual ray impulse responses.
 
@@ -444,7 +444,7 @@ class ClusterDelayLineSample(ChannelSample):
         # Wavelength factor
         wavelength_factor = center_frequency / speed_of_light
         relative_velocity = self.receiver_velocity - self.transmitter_velocity
-        fast_fading = wavelength_factor * np.arange(num_samples) / sampling_rate
+        fast_fading = wavelength_factor * (first_sample + np.arange(num_samples)) / sampling_rate
 
         # Compute the cluster propagation parameters
         for subcluster_idx in range(0, virtual_num_clusters):
@@ -542,7 +542,7 @@ class ClusterDelayLineSample(ChannelSample):
         )[0]
 
         for channel, impulse, delay in self.__ray_impulse_generator(
-            self.bandwidth, signal.num_samples, self.carrier_frequency
+            self.bandwidth, signal.num_samples, self.carrier_frequency, signal.offset
         ):
             if interpolation == InterpolationMode.NEAREST:
                 delay_in_samples = int((delay + self.delay_offset) * self.bandwidth)
diff --git a/hermespy/channel/fading/fading.py b/hermespy/channel/fading/fading.py
index 7de9677..beb5ca3 100644
--- a/hermespy/channel/fading/fading.py
+++ b/hermespy/channel/fading/fading.py
@@ -291,14 +291,14 @@ class MultipathFadingSample(ChannelSample):
         return self.gain * np.sum(self.power_profile)
 
     def __path_impulse_generator(
-        self, num_samples: int
+        self, num_samples: int, first_sample: int = 0
     ) -> Generator[Tuple[np.ndarray, int], None, None]:
 
         path_delay_samples = np.rint(self.delay_profile * self.bandwidth).astype(int)
 
         num_sinusoids = self.__nlos_angles.shape[1]
         n = 1 + np.arange(num_sinusoids)
-        timestamps = np.arange(num_samples) / self.bandwidth
+        timestamps = (first_sample + np.arange(num_samples)) / self.bandwidth
 
         nlos_time = self.nlos_doppler * timestamps
         los_time = self.los_doppler * timestamps
@@ -388,7 +388,7 @@ class MultipathFadingSample(ChannelSample):
                 (_spatial_response.shape[1], num_propagated_samples), dtype=np.complex128
             )
             for path_impulse, path_num_delay_samples in self.__path_impulse_generator(
-                signal.num_samples
+                signal.num_samples, signal.offset
             ):
                 propagated_samples[
                     :, path_num_delay_samples : path_num_delay_samples + signal.num_samples
diff --git a/hermespy/channel/radar/radar.py b/hermespy/channel/radar/radar.py
index 90ee65a..1028018 100644
--- a/hermespy/channel/radar/radar.py
+++ b/hermespy/channel/radar/radar.py
@@ -120,7 +120,7 @@ class RadarChannelSample(ChannelSample):
                 signal,
                 self.bandwidth,
                 self.carrier_frequency,
-                self.time,
+                self.time + signal.offset / self.bandwidth,
                 propagated_samples,
                 delay,
                 velocity,
-- 
2.43.0


From 3de6cbe41e1cd9c8d1364f09b9fbf4de77c6a9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:14 +0000
Subject: [PATCH 035/105] fix: channel sampling ignored keyword arguments

---
 hermespy/channel/channel.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/hermespy/channel/channel.py b/hermespy/channel/channel.py
index 2c6ab19..7bc7b6a 100644
--- a/hermespy/channel/channel.py
+++ b/hermespy/channel/channel.py
@@ -566,8 +566,8 @@ class ChannelRealization(Serializable, Generic[CST]):
         *args,
         **kwargs,
     ) -> CST:
-        carrier_frequency = float(args[0]) if len(args) > 0 else None
-        bandwidth = float(args[1]) if len(args) > 1 else None
+        carrier_frequency = float(args[0]) if len(args) > 0 else kwargs.get("carrier_frequency")
+        bandwidth = float(args[1]) if len(args) > 1 else kwargs.get("bandwidth")
 
         from hermespy.simulation import SimulatedDevice, SimulatedDeviceState
 
@@ -687,9 +687,9 @@ class ChannelRealization(Serializable, Generic[CST]):
         receiver_device: SimulatedDevice | int
 
         if isinstance(transmitter, SimulatedDevice) and isinstance(receiver, SimulatedDevice):
-            timestamp = float(args[0]) if len(args) > 0 else 0.0
-            carrier_frequency = float(args[1]) if len(args) > 1 else None
-            bandwidth = float(args[2]) if len(args) > 2 else None
+            timestamp = float(args[0]) if len(args) > 0 else kwargs.get("timestamp", 0.0)
+            carrier_frequency = float(args[1]) if len(args) > 1 else kwargs.get("carrier_frequency")
+            bandwidth = float(args[2]) if len(args) > 2 else kwargs.get("bandwidth")
 
             transmitter_device = transmitter
             receiver_device = receiver
@@ -700,8 +700,8 @@ class ChannelRealization(Serializable, Generic[CST]):
             receiver, SimulatedDeviceState
         ):
             timestamp = sample.time
-            carrier_frequency = float(args[0]) if len(args) > 0 else None
-            bandwidth = float(args[1]) if len(args) > 1 else None
+            carrier_frequency = float(args[0]) if len(args) > 0 else kwargs.get("carrier_frequency")
+            bandwidth = float(args[1]) if len(args) > 1 else kwargs.get("bandwidth")
 
             transmitter_device = transmitter.device_id
             receiver_device = receiver.device_id
-- 
2.43.0


From 4bbfe2dfb103b10f8f4723086a679b2d3d738f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:08 +0000
Subject: [PATCH 036/105] fix: scalar components of quaternions

---
 hermespy/core/transformation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hermespy/core/transformation.py b/hermespy/core/transformation.py
index d515f68..c78770f 100644
--- a/hermespy/core/transformation.py
+++ b/hermespy/core/transformation.py
@@ -209,7 +209,7 @@ class Transformation(np.ndarray, Serializable):
             S = 2 * (tr + 1.0) ** 0.5
             return np.array(
                 [
-                    0.25 / S,
+                    0.25 * S,
                     (self[2, 1] - self[1, 2]) / S,
                     (self[0, 2] - self[2, 0]) / S,
                     (self[1, 0] - self[0, 1]) / S,
@@ -222,7 +222,7 @@ class Transformation(np.ndarray, Serializable):
             return np.array(
                 [
                     (self[2, 1] - self[1, 2]) / S,
-                    0.25 / S,
+                    0.25 * S,
                     (self[0, 1] + self[1, 0]) / S,
                     (self[0, 2] + self[2, 0]) / S,
                 ],
@@ -235,7 +235,7 @@ class Transformation(np.ndarray, Serializable):
                 [
                     (self[0, 2] - self[2, 0]) / S,
                     (self[0, 1] + self[1, 0]) / S,
-                    0.25 / S,
+                    0.25 * S,
                     (self[1, 2] + self[2, 1]) / S,
                 ],
                 dtype=np.float64,
@@ -247,7 +247,7 @@ class Transformation(np.ndarray, Serializable):
                 (self[1, 0] - self[0, 1]) / S,
                 (self[0, 2] + self[2, 0]) / S,
                 (self[1, 2] + self[2, 1]) / S,
-                0.25 / S,
+                0.25 * S,
             ],
             dtype=np.float64,
         )
-- 
2.43.0


From 0c2dc48dffa449a7bf32c6b328f8392ada7bd6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:08 +0000
Subject: [PATCH 037/105] fix: orientation of transformations pitched by minus
 ninety degrees

---
 hermespy/core/transformation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hermespy/core/transformation.py b/hermespy/core/transformation.py
index c78770f..1c03020 100644
--- a/hermespy/core/transformation.py
+++ b/hermespy/core/transformation.py
@@ -153,7 +153,12 @@ class Transformation(np.ndarray, Serializable):
             )
 
         else:
-            rpy = np.array([np.arctan2(self[0, 1], self[1, 1]), 0.5 * np.pi, 0], dtype=np.float64)
+            # The pitch is either plus or minus ninety degrees
+            pitch_sign = 1.0 if self[2, 0] < 0 else -1.0
+            rpy = np.array(
+                [np.arctan2(pitch_sign * self[0, 1], self[1, 1]), pitch_sign * 0.5 * np.pi, 0],
+                dtype=np.float64,
+            )
 
         return rpy.view(np.ndarray)
 
-- 
2.43.0


From a781e3c90d5f18eb12ca6a846376ce8f3cde10d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:08 +0000
Subject: [PATCH 038/105] fix: looking at targets keeps rotations orthonormal
 and updates linked frames

---
 hermespy/core/transformation.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/hermespy/core/transformation.py b/hermespy/core/transformation.py
index 1c03020..76f147b 100644
--- a/hermespy/core/transformation.py
+++ b/hermespy/core/transformation.py
@@ -473,18 +473,23 @@ class Transformation(np.ndarray, Serializable):
         up_ = np.asarray(up)
         if up_.shape != (3,):
             raise ValueError(f"Got up of an unexpected shape (expected (3,), got {up_.shape})")
-        up_ /= np.linalg.norm(up_)
+        up_ = up_ / np.linalg.norm(up_)
 
         # Calculate new orientation
         # forward vector
         pos = self.translation
         f = target_ - pos
         f_norm = np.linalg.norm(f)
-        f = f / f_norm if f_norm != 0.0 else pos  # normalize
+        # The direction towards the own position is undefined, keep the current orientation
+        if f_norm == 0.0:
+            return self
+        f = f / f_norm  # normalize
         # side/right vector
         s = np.cross(up_, f)
-        s_norm = np.linalg.norm(s)
-        s = s / s_norm if s_norm != 0.0 else up_  # normalize
+        # Select any direction orthogonal to the line of sight if it is parallel to the up vector
+        if np.linalg.norm(s) < 1e-7:
+            s = np.cross(np.eye(3)[np.argmin(np.abs(f))], f)
+        s = s / np.linalg.norm(s)  # normalize
         # up vector
         u = np.cross(f, s)
         # Calcualte the new transformation matrix
@@ -776,6 +781,7 @@ class Transformable(Serializable, TransformableLink):
         """
 
         self.pose.lookat(target, up)
+        self._kinematics_updated()
 
     def _kinematics_updated(self) -> None:
         # Clear the cached forwards transformation if the base has been updated
-- 
2.43.0


From a7acca9cef73790bb78e57d22d88abc813d00e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:09 +0000
Subject: [PATCH 039/105] fix: random nodes initialized with a mother drew from
 their own stream

---
 hermespy/core/random_node.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hermespy/core/random_node.py b/hermespy/core/random_node.py
index 4447dd5..bb63b17 100644
--- a/hermespy/core/random_node.py
+++ b/hermespy/core/random_node.py
@@ -86,6 +86,10 @@ class RandomNode(object):
         self.seed = seed
         self.__mother_node = mother_node
 
+        # Nodes with a mother draw from the mother's generator unless they are seeded
+        if mother_node is not None and seed is None:
+            self.__generator = None
+
     @property
     def _rng(self) -> Generator:
         """Random number generator.
-- 
2.43.0


From a21b96c20e5c36ac0aaaf3721a80e08c66bf9c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:33 +0000
Subject: [PATCH 040/105] fix: MaxDetector reported its point at swapped
 azimuth and zenith

---
 hermespy/radar/detection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/radar/detection.py b/hermespy/radar/detection.py
index 128c90c..7370dbc 100644
--- a/hermespy/radar/detection.py
+++ b/hermespy/radar/detection.py
@@ -448,7 +448,7 @@ class MaxDetector(RadarDetector, Serializable):
         cloud = RadarPointCloud(cube.range_bins.max())
         cloud.add_point(
             PointDetection.FromSpherical(
-                angles_of_arrival[0], angles_of_arrival[1], range, velocity, point_power
+                angles_of_arrival[1], angles_of_arrival[0], range, velocity, point_power
             )
         )
 
-- 
2.43.0


From cd4656920c17ea851faee4afa2ab201861957a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:33 +0000
Subject: [PATCH 041/105] fix: operating characteristics replayed from a
 scenario dropped all observations

---
 hermespy/radar/evaluators.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/hermespy/radar/evaluators.py b/hermespy/radar/evaluators.py
index caa6717..90d0c09 100644
--- a/hermespy/radar/evaluators.py
+++ b/hermespy/radar/evaluators.py
@@ -1027,11 +1027,10 @@ class ReceiverOperatingCharacteristic(RadarEvaluator, Serializable):
         result = RocEvaluationResult(
             [GridDimensionInfo([SamplePoint(0)], "Scenario", "linear", ValueType.LIN)], None
         )
-        artifacts = np.empty(1, dtype=object)
-        artifacts[0] = [
-            ReceiverOperatingCharacteristic.__evaluation_from_receptions(h0, h1).artifact()
-            for h0, h1 in zip(null_receptions, alt_receptions)
-        ]
+        for h0, h1 in zip(null_receptions, alt_receptions):
+            evaluation = ReceiverOperatingCharacteristic.__evaluation_from_receptions(h0, h1)
+            result.add_artifact((0,), evaluation.artifact(), False)
+
         return result
 
     @classmethod
-- 
2.43.0


From d79a5bce88e7f175a402133e5f224e36280bad25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:33 +0000
Subject: [PATCH 042/105] fix: operating characteristics ignored the configured
 number of thresholds

---
 hermespy/radar/evaluators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/radar/evaluators.py b/hermespy/radar/evaluators.py
index 90d0c09..7abcd79 100644
--- a/hermespy/radar/evaluators.py
+++ b/hermespy/radar/evaluators.py
@@ -814,7 +814,7 @@ class ReceiverOperatingCharacteristic(RadarEvaluator, Serializable):
 
     @override
     def initialize_result(self, grid: Sequence[GridDimensionInfo]) -> RocEvaluationResult:
-        return RocEvaluationResult(grid, self)
+        return RocEvaluationResult(grid, self, self.__num_thresholds)
 
     @staticmethod
     def FromScenarios(
-- 
2.43.0


From d980147f2c52ed77525b6624f753390afd058194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:33 +0000
Subject: [PATCH 043/105] fix: operating characteristic plots showed a single
 threshold instead of the curve

---
 hermespy/radar/evaluators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/radar/evaluators.py b/hermespy/radar/evaluators.py
index 7abcd79..2dedf28 100644
--- a/hermespy/radar/evaluators.py
+++ b/hermespy/radar/evaluators.py
@@ -615,8 +615,8 @@ class RocEvaluationResult(EvaluationResult[RocArtifact]):
         section_magnitudes = tuple(s.num_sample_points for s in self.grid)
         for section_indices, line in zip(np.ndindex(section_magnitudes), visualization.lines[0, 0]):
             # Select the graph line scalars
-            x_axis = probabilities[section_indices + (None, 1)]  # type: ignore[arg-type]
-            y_axis = probabilities[section_indices + (None, 0)]  # type: ignore[arg-type]
+            x_axis = probabilities[section_indices + (slice(None), 1)]  # type: ignore[arg-type]
+            y_axis = probabilities[section_indices + (slice(None), 0)]  # type: ignore[arg-type]
 
             # Update the respective line
             line.set_data(x_axis, y_axis)
-- 
2.43.0


From 4da2a5b94d68e4fd230ba36e520b32369112d2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:28 +0000
Subject: [PATCH 044/105] fix: the carrier shift of superimposed signals
 restarted at each block of a sparse signal

---
 hermespy/core/signal_model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hermespy/core/signal_model.py b/hermespy/core/signal_model.py
index 8e311d7..1675592 100644
--- a/hermespy/core/signal_model.py
+++ b/hermespy/core/signal_model.py
@@ -646,7 +646,11 @@ class SignalBlock(np.ndarray[tuple[int, int], np.dtype[np.complex128]], Serializ
         # ToDo: Reminder, mixing like this currently does not account for possible delays.
         if frequency_distance != 0.0:
             mix_sinusoid = np.exp(
-                -2j * pi * np.arange(self.shape[1]) * frequency_distance / sampling_rate
+                -2j
+                * pi
+                * np.arange(self.offset, self.offset + self.shape[1])
+                * frequency_distance
+                / sampling_rate
             )
             mixed_samples = filtered_samples * mix_sinusoid[None, :]
         else:
-- 
2.43.0


From c7e1118067c8d05f78ac984a2eafd3e54af66ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:52 +0000
Subject: [PATCH 045/105] fix: connecting two radio-frequency blocks again
 dropped their previous connection

---
 hermespy/simulation/rf/chain.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/hermespy/simulation/rf/chain.py b/hermespy/simulation/rf/chain.py
index 69bb7bb..af8b56f 100644
--- a/hermespy/simulation/rf/chain.py
+++ b/hermespy/simulation/rf/chain.py
@@ -200,7 +200,12 @@ class RFBlockReference(Generic[RFBT], Serializable):
         ):
             raise ValueError(f"Invalid input port index {_input_ports}")
 
-        self.__outgoing_connections[input] = (_output_ports, _input_ports)
+        # Extend the ports already connected between both blocks
+        connected_outputs, connected_inputs = self.__outgoing_connections.get(input, ([], []))
+        self.__outgoing_connections[input] = (
+            [*connected_outputs, *_output_ports],
+            [*connected_inputs, *_input_ports],
+        )
 
     def connect_from(
         self, output: RFBlockReference, output_ports: int | list[int], input_ports: int | list[int]
@@ -224,7 +229,12 @@ class RFBlockReference(Generic[RFBT], Serializable):
         ):
             raise ValueError(f"Invalid input port index {_input_ports}")
 
-        self.__incoming_connections[output] = (_output_ports, _input_ports)
+        # Extend the ports already connected between both blocks
+        connected_outputs, connected_inputs = self.__incoming_connections.get(output, ([], []))
+        self.__incoming_connections[output] = (
+            [*connected_outputs, *_output_ports],
+            [*connected_inputs, *_input_ports],
+        )
 
     def propagate(self, state: RFBlockRealization, input: RFSignal) -> RFSignal:
         """Propagate a signal through the referenced block.
-- 
2.43.0


From 7cd4f8722920886091c5f6dd4d193800c8cf80cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:54 +0000
Subject: [PATCH 046/105] fix: connecting an already connected radio-frequency
 input port corrupted the chain

---
 hermespy/simulation/rf/chain.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/hermespy/simulation/rf/chain.py b/hermespy/simulation/rf/chain.py
index af8b56f..7484949 100644
--- a/hermespy/simulation/rf/chain.py
+++ b/hermespy/simulation/rf/chain.py
@@ -497,7 +497,9 @@ class RFChain(RandomNode, Serializable):
             port_b: Second port to connect.
 
         Raises:
-            ValueError: If two ports of the same type are connected.
+            ValueError:
+                If two ports of the same type are connected.
+                If an input port is already connected.
         """
 
         # Ensure a connection from outputs to inputs
@@ -524,6 +526,13 @@ class RFChain(RandomNode, Serializable):
         output_block = output_port.block_reference
         input_block = input_port.block_reference
 
+        # Ensure that each input port is fed by a single output port
+        open_input_ports = input_block.open_input_ports
+        if any(p not in open_input_ports for p in input_port.port_indices):
+            raise ValueError(
+                f"Cannot connect input ports {input_port.port_indices}, only ports {open_input_ports} are not connected yet"
+            )
+
         # Register connection from output block ports to input block ports
         output_block.connect_to(
             input_port.block_reference, output_port.port_indices, input_port.port_indices
-- 
2.43.0


From 8db04eff970b921229708c02e518dc62a741d0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:44 +0000
Subject: [PATCH 047/105] fix: unconnected input ports of radio-frequency
 blocks received uninitialised memory

---
 hermespy/simulation/rf/chain.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hermespy/simulation/rf/chain.py b/hermespy/simulation/rf/chain.py
index 7484949..8a4d252 100644
--- a/hermespy/simulation/rf/chain.py
+++ b/hermespy/simulation/rf/chain.py
@@ -6,6 +6,8 @@ from collections.abc import MutableMapping
 from typing import Generic, Iterable, SupportsIndex, SupportsInt
 from typing_extensions import override
 
+import numpy as np
+
 from hermespy.core import (
     DenseSignal,
     RandomNode,
@@ -657,9 +659,11 @@ class RFChain(RandomNode, Serializable):
         ]
 
         # Combine all relevant inputs into a single DenseSignal
+        # Ports without any impinging signal remain silent
         block_input = RFSignal(
             block.block.num_input_ports, num_samples, chain_realization.sampling_rate
         )
+        block_input[:, :] = np.zeros(block_input.shape, dtype=np.complex128)
         for impinging_signal, (output_ports, input_ports) in zip(
             connected_block_ouputs, block.incoming_connections.values()
         ):
-- 
2.43.0


From e3f844fd638276a850ce01662a50450d600a3b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:57 +0000
Subject: [PATCH 048/105] fix: selecting a stream of a radio-frequency signal
 several times raised an error

---
 hermespy/simulation/rf/signal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/simulation/rf/signal.py b/hermespy/simulation/rf/signal.py
index 45728bf..a643ef0 100644
--- a/hermespy/simulation/rf/signal.py
+++ b/hermespy/simulation/rf/signal.py
@@ -126,13 +126,13 @@ class RFSignal(DenseSignal):
 
         # Recover additional attributes lost in numpy view/copy operations
         if hasattr(obj, "carrier_frequencies"):
-            self.carrier_frequencies = obj.carrier_frequencies[: self.num_streams].copy()  # type: ignore
+            self.carrier_frequencies = np.resize(obj.carrier_frequencies, self.num_streams)  # type: ignore
         else:
             self.carrier_frequencies = np.full(
                 (self.num_streams,), self.carrier_frequency, np.float64
             )
         if hasattr(obj, "noise_powers"):
-            self.noise_powers = obj.noise_powers[: self.num_streams].copy()  # type: ignore
+            self.noise_powers = np.resize(obj.noise_powers, self.num_streams)  # type: ignore
         else:
             self.noise_powers = np.full((self.num_streams,), self.noise_power, np.float64)
 
-- 
2.43.0


From 373b7f9aba03b8b8ec1bcac38d49d3c587772a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:47 +0000
Subject: [PATCH 049/105] fix: the number of decoded symbol blocks was divided
 by the decoding rate

---
 hermespy/modem/precoding/symbol_precoding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/modem/precoding/symbol_precoding.py b/hermespy/modem/precoding/symbol_precoding.py
index 2246002..59c1ff4 100644
--- a/hermespy/modem/precoding/symbol_precoding.py
+++ b/hermespy/modem/precoding/symbol_precoding.py
@@ -216,7 +216,7 @@ class ReceiveSymbolCoding(ReceivePrecoding[ReceiveSymbolDecoder], Serializable):
 
         num_blocks = Fraction(num_input_blocks, 1)
 
-        for precoder in reversed(self):
-            num_blocks /= precoder.decode_rate
+        for precoder in self:
+            num_blocks *= precoder.decode_rate
 
         return int(num_blocks)
-- 
2.43.0


From bd09113f94d6c55a729c8bebc794776a265c297c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:56 +0000
Subject: [PATCH 050/105] fix: antenna selection combining only supported
 channels of two transmitted streams

---
 hermespy/modem/precoding/single_carrier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/modem/precoding/single_carrier.py b/hermespy/modem/precoding/single_carrier.py
index 5287c95..6d57308 100644
--- a/hermespy/modem/precoding/single_carrier.py
+++ b/hermespy/modem/precoding/single_carrier.py
@@ -42,7 +42,7 @@ class SingleCarrier(ReceiveSymbolDecoder, Serializable):
         new_symbols = np.take_along_axis(symbols.raw, antenna_selection[np.newaxis, ::], axis=0)
         # stream_noises = np.take_along_axis(symbols, antenna_selection.T, axis=0)
 
-        channel_state_selection = antenna_selection[np.newaxis, np.newaxis, ::].repeat(2, axis=1)
+        channel_state_selection = antenna_selection[np.newaxis, np.newaxis, ::]
         new_states = np.take_along_axis(dense_states, channel_state_selection, axis=0)
 
         symbols.raw = new_symbols
-- 
2.43.0


From 08c18af450f06f7ef5164a75af534038822ca941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:46 +0000
Subject: [PATCH 051/105] fix: guard intervals of chirp FSK frames contained
 uninitialised memory

---
 hermespy/modem/waveform_chirp_fsk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/modem/waveform_chirp_fsk.py b/hermespy/modem/waveform_chirp_fsk.py
index b170ea5..e219df5 100644
--- a/hermespy/modem/waveform_chirp_fsk.py
+++ b/hermespy/modem/waveform_chirp_fsk.py
@@ -295,7 +295,7 @@ class ChirpFSKWaveform(PilotCommunicationWaveform):
             self.freq_difference,
             samples_in_chirp,
         )
-        frame_samples = np.empty(
+        frame_samples = np.zeros(
             self.samples_per_frame(bandwidth, oversampling_factor), dtype=complex
         )
 
-- 
2.43.0


From 02348144e6689691c7dab910de3770c53d8c5b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:15 +0000
Subject: [PATCH 052/105] fix: symbol sections counted samples of disabled
 prefixes

---
 hermespy/modem/waveforms/orthogonal/waveform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hermespy/modem/waveforms/orthogonal/waveform.py b/hermespy/modem/waveforms/orthogonal/waveform.py
index b37cb3e..eca376c 100644
--- a/hermespy/modem/waveforms/orthogonal/waveform.py
+++ b/hermespy/modem/waveforms/orthogonal/waveform.py
@@ -631,7 +631,9 @@ class SymbolSection(GridSection["OrthogonalWaveform"]):
 
         # Add up the additional samples from cyclic prefixes
         for resource_idx in self.pattern:
-            num += int(num_samples_per_slot * self.wave.grid_resources[resource_idx].prefix_ratio)
+            resource = self.wave.grid_resources[resource_idx]
+            if resource.prefix_type != PrefixType.NONE:
+                num += int(num_samples_per_slot * resource.prefix_ratio)
 
         # Add up the base samples from each timeslot
         return num * self.num_repetitions
-- 
2.43.0


From e2394e8b777be8464e52b29c4e4bac6cbf1e52b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:15 +0000
Subject: [PATCH 053/105] fix: sample offsets of orthogonal sections were
 corrected in the first section only

---
 hermespy/modem/waveforms/orthogonal/waveform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hermespy/modem/waveforms/orthogonal/waveform.py b/hermespy/modem/waveforms/orthogonal/waveform.py
index eca376c..46e7060 100644
--- a/hermespy/modem/waveforms/orthogonal/waveform.py
+++ b/hermespy/modem/waveforms/orthogonal/waveform.py
@@ -1362,6 +1362,7 @@ class OrthogonalWaveform(ConfigurablePilotWaveform, ABC):
                         oversampling_factor,
                     )
                 )
+            block_idx += section.num_words
 
         return Symbols(symbol_grid[np.newaxis, :, :])
 
-- 
2.43.0


From c9513f4709fc8d0c9ecb47b56cfd550443f1926a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:15 +0000
Subject: [PATCH 054/105] fix: OFDM sample offset correction assumed a wrong
 frequency for the last subcarrier

---
 hermespy/modem/waveforms/orthogonal/ofdm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hermespy/modem/waveforms/orthogonal/ofdm.py b/hermespy/modem/waveforms/orthogonal/ofdm.py
index 7a83659..2ef6a4d 100644
--- a/hermespy/modem/waveforms/orthogonal/ofdm.py
+++ b/hermespy/modem/waveforms/orthogonal/ofdm.py
@@ -166,14 +166,14 @@ class OFDMWaveform(OrthogonalWaveform, Serializable):
         frame_start_idx = (
             oversampling_factor * self.num_subcarriers
         ) // 2 - self.num_subcarriers // 2
-        freqs = fftshift(fftfreq(oversampling_factor * self.num_subcarriers))[
-            frame_start_idx : frame_start_idx + self.num_subcarriers
-        ]
+        freqs = fftshift(fftfreq(oversampling_factor * self.num_subcarriers))
 
         if self.dc_suppression:
-            dc_index = int(0.5 * symbol_subgrid.shape[1])
+            dc_index = int(0.5 * self.num_subcarriers * oversampling_factor)
             freqs[dc_index:] = np.roll(freqs[dc_index:], -1)
 
+        freqs = freqs[frame_start_idx : frame_start_idx + self.num_subcarriers]
+
         return symbol_subgrid * np.exp(2j * np.pi * freqs * sample_offset)
 
     @override
-- 
2.43.0


From 497e514b27abf432c51d4bc1edc8c39fdc1a9793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:15 +0000
Subject: [PATCH 055/105] fix: pilots of orthogonal waveforms were not updated
 after configuration changes

---
 .../modem/waveforms/orthogonal/waveform.py    | 26 +------------------
 1 file changed, 1 insertion(+), 25 deletions(-)

diff --git a/hermespy/modem/waveforms/orthogonal/waveform.py b/hermespy/modem/waveforms/orthogonal/waveform.py
index 46e7060..9e857f6 100644
--- a/hermespy/modem/waveforms/orthogonal/waveform.py
+++ b/hermespy/modem/waveforms/orthogonal/waveform.py
@@ -722,9 +722,6 @@ class PilotSection(Generic[OWT], GridSection[OWT], Serializable):
     """Pilot symbol section within an resource grid."""
 
     __pilot_elements: Symbols | None
-    __cached_num_subcarriers: int
-    __cached_oversampling_factor: int
-    __cached_pilot: np.ndarray | None
 
     def __init__(self, pilot_elements: Symbols | None = None, wave: OWT | None = None) -> None:
         """
@@ -743,9 +740,6 @@ class PilotSection(Generic[OWT], GridSection[OWT], Serializable):
 
         # Initialize class attributes
         self.__pilot_elements = pilot_elements
-        self.__cached_num_subcarriers = -1
-        self.__cached_oversampling_factor = -1
-        self.__cached_pilot = None
 
     @GridSection.num_repetitions.setter  # type: ignore
     def num_repetitions(self, value: int) -> None:
@@ -816,9 +810,6 @@ class PilotSection(Generic[OWT], GridSection[OWT], Serializable):
         if value.num_symbols < 1:
             raise ValueError("Subsymbol pilot configuration must contain at least one symbol")
 
-        # Reset the cached pilot, since the subsymbols have changed
-        self.__cached_pilot = None
-
         self.__pilot_elements = value
 
     def _pilot_sequence(self, num_symbols: int | None = None) -> np.ndarray:
@@ -874,23 +865,8 @@ class PilotSection(Generic[OWT], GridSection[OWT], Serializable):
         if self.wave is None:
             raise RuntimeError("Pilot section must be associated with a waveform")
 
-        # Return the cached pilot signal if available and the relevant frame parameters haven't changed
-        if (
-            self.__cached_pilot is not None
-            and self.__cached_num_subcarriers == self.wave.num_subcarriers
-            and self.__cached_oversampling_factor == oversampling_factor
-        ):
-            return self.__cached_pilot
-
         pilot_symbols = self._pilot_sequence(self.wave.num_subcarriers)
-        pilot = self.wave._forward_transformation(pilot_symbols[np.newaxis, :], oversampling_factor)
-
-        # Cache the pilot
-        self.__cached_pilot = pilot
-        self.__cached_num_subcarriers = self.wave.num_subcarriers
-        self.__cached_oversampling_factor = oversampling_factor
-
-        return pilot
+        return self.wave._forward_transformation(pilot_symbols[np.newaxis, :], oversampling_factor)
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
-- 
2.43.0


From a6db6bdb3844a661a61c6727e4697dc60a6a2f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:44 +0000
Subject: [PATCH 056/105] fix: conventional beams and device focuses ignored
 the orientation of the antenna array

---
 hermespy/beamforming/conventional.py | 26 ++++++++------------------
 hermespy/simulation/beamforming.py   |  3 ++-
 2 files changed, 10 insertions(+), 19 deletions(-)

diff --git a/hermespy/beamforming/conventional.py b/hermespy/beamforming/conventional.py
index f462807..93387a0 100644
--- a/hermespy/beamforming/conventional.py
+++ b/hermespy/beamforming/conventional.py
@@ -4,9 +4,8 @@ from __future__ import annotations
 from typing_extensions import override
 
 import numpy as np
-from scipy.constants import pi, speed_of_light
 
-from hermespy.core import AntennaArrayState, DeserializationProcess, Direction, SerializationProcess
+from hermespy.core import AntennaArrayState, AntennaMode, DeserializationProcess, SerializationProcess
 from .beamformer import TransmitBeamformer, ReceiveBeamformer
 
 
@@ -76,18 +75,13 @@ class ConventionalBeamformer(TransmitBeamformer, ReceiveBeamformer):
             with the first dimension being the number of angles and the second dimension the number of antennas.
         """
 
-        # Query topology of receiving antenna ports
-        topology = (
-            np.array([p.global_position for p in array.receive_antennas], dtype=np.float64)
-            - array.global_position
-        )
-
         # Build receive beamforming codebook of steering vectors for each angle of interest
         book = np.empty((angles.shape[0], array.num_receive_antennas), dtype=complex)
         for n, (azimuth, zenith) in enumerate(angles):
-            direction = Direction.From_Spherical(azimuth, zenith)
-            weights = np.exp(-2j * pi * carrier_frequency / speed_of_light * (topology @ direction))
-            book[n, :] = weights
+            response = array.spherical_phase_response(
+                carrier_frequency, azimuth, zenith, AntennaMode.RX
+            )
+            book[n, :] = response.conj()
 
         return book / array.num_receive_antennas
 
@@ -102,13 +96,9 @@ class ConventionalBeamformer(TransmitBeamformer, ReceiveBeamformer):
         azimuth, zenith = focus_angles[0, :]
 
         # Compute conventional beamformer weights
-        topology = (
-            np.array([p.global_position for p in array.transmit_antennas], dtype=np.float64)
-            - array.global_position
-        )
-        direction = Direction.From_Spherical(azimuth, zenith)
-        # Conventional steering vector
-        weights = np.exp(-2j * pi * carrier_frequency / speed_of_light * (topology @ direction))
+        weights = array.spherical_phase_response(
+            carrier_frequency, azimuth, zenith, AntennaMode.TX
+        ).conj()
 
         # Weight the streams accordingly
         samples = weights[:, np.newaxis] @ samples
diff --git a/hermespy/simulation/beamforming.py b/hermespy/simulation/beamforming.py
index 0654a00..8f8328c 100644
--- a/hermespy/simulation/beamforming.py
+++ b/hermespy/simulation/beamforming.py
@@ -56,7 +56,8 @@ class DeviceFocus(BeamFocus):
         receiver_position = self.focused_device.trajectory.sample(device.timestamp).pose.translation
 
         direction = Direction.From_Cartesian(receiver_position - transmitter_position, True)
-        return direction.to_spherical()
+        local_direction = device.antennas.backwards_transformation.transform_direction(direction)
+        return local_direction.to_spherical()
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
-- 
2.43.0


From 9a3fe1e2e35933c4ede706349693749cb2662d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:44 +0000
Subject: [PATCH 057/105] fix: null steering beamformers focused the mirrored
 instead of the configured direction

---
 hermespy/beamforming/nullsteeringbeamformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/beamforming/nullsteeringbeamformer.py b/hermespy/beamforming/nullsteeringbeamformer.py
index 22e1260..62b30a1 100644
--- a/hermespy/beamforming/nullsteeringbeamformer.py
+++ b/hermespy/beamforming/nullsteeringbeamformer.py
@@ -65,7 +65,7 @@ class NullSteeringBeamformer(TransmitBeamformer, ReceiveBeamformer):
         A = np.array([a1, a2]).T
         PA = A.conj() @ pinvh(A.T @ A.conj(), check_finite=False) @ A.T
         Identity_Matrix = np.eye(PA.shape[0])
-        wns = (Identity_Matrix - PA) @ a0
+        wns = (Identity_Matrix - PA) @ a0.conj()
         wns /= np.linalg.norm(wns)
         return wns
 
-- 
2.43.0


From 038eb6082d290e11021b64d53d714cfc403163d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:44 +0000
Subject: [PATCH 058/105] fix: null steering beamformers required all antennas
 to both transmit and receive

---
 hermespy/beamforming/nullsteeringbeamformer.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/hermespy/beamforming/nullsteeringbeamformer.py b/hermespy/beamforming/nullsteeringbeamformer.py
index 62b30a1..e8c167a 100644
--- a/hermespy/beamforming/nullsteeringbeamformer.py
+++ b/hermespy/beamforming/nullsteeringbeamformer.py
@@ -7,7 +7,7 @@ import numpy as np
 from scipy.linalg import pinvh
 
 from hermespy.beamforming import TransmitBeamformer, ReceiveBeamformer
-from hermespy.core import AntennaArrayState, DeserializationProcess, SerializationProcess
+from hermespy.core import AntennaArrayState, AntennaMode, DeserializationProcess, SerializationProcess
 
 __author__ = "Alan Thomas"
 __copyright__ = "Copyright 2026, Barkhausen Institut gGmbH"
@@ -49,17 +49,21 @@ class NullSteeringBeamformer(TransmitBeamformer, ReceiveBeamformer):
 
     # calculate the null steering beamformer weights
     def _weights(
-        self, carrier_frequency: float, focus_angles: np.ndarray, array: AntennaArrayState
+        self,
+        carrier_frequency: float,
+        focus_angles: np.ndarray,
+        array: AntennaArrayState,
+        mode: AntennaMode,
     ) -> np.ndarray:
 
         a0 = array.spherical_phase_response(
-            carrier_frequency, focus_angles[0, 0], focus_angles[0, 1]
+            carrier_frequency, focus_angles[0, 0], focus_angles[0, 1], mode
         )
         a1 = array.spherical_phase_response(
-            carrier_frequency, focus_angles[1, 0], focus_angles[1, 1]
+            carrier_frequency, focus_angles[1, 0], focus_angles[1, 1], mode
         )
         a2 = array.spherical_phase_response(
-            carrier_frequency, focus_angles[2, 0], focus_angles[2, 1]
+            carrier_frequency, focus_angles[2, 0], focus_angles[2, 1], mode
         )
 
         A = np.array([a1, a2]).T
@@ -78,7 +82,7 @@ class NullSteeringBeamformer(TransmitBeamformer, ReceiveBeamformer):
     ) -> np.ndarray:
 
         # Compute nullsteering beamformer weights
-        weights = self._weights(carrier_frequency, focus_angles, array)
+        weights = self._weights(carrier_frequency, focus_angles, array, AntennaMode.TX)
         # Weight the streams accordingly
         samples = weights[:, np.newaxis] @ samples
 
@@ -95,7 +99,7 @@ class NullSteeringBeamformer(TransmitBeamformer, ReceiveBeamformer):
         # Query the sensor array response vectors for the angles of interest and create a dictionary from it which contains the beamforming weights
         dictionary = np.empty((array.num_receive_antennas, angles.shape[0]), dtype=complex)
         for d, focus in enumerate(angles):
-            dictionary[:, d] = self._weights(carrier_frequency, focus, array)
+            dictionary[:, d] = self._weights(carrier_frequency, focus, array, AntennaMode.RX)
 
         beamformed_samples = dictionary.T @ samples
         return beamformed_samples[:, np.newaxis, :]
-- 
2.43.0


From a6603a6a1dd4b567299e2f95163646866f12069b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:44 +0000
Subject: [PATCH 059/105] fix: directions along the vertical axis were
 converted to undefined zenith angles

---
 hermespy/core/transformation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/core/transformation.py b/hermespy/core/transformation.py
index 76f147b..45c8354 100644
--- a/hermespy/core/transformation.py
+++ b/hermespy/core/transformation.py
@@ -79,7 +79,7 @@ class Direction(np.ndarray):
 
         # Equation 7.1-7 of ETSI TR 138901 v17
         # Only valid if the direction has been normalized!!!!
-        zenith = np.arccos(unit_vector[2])
+        zenith = np.arccos(min(max(unit_vector[2], -1.0), 1.0))
 
         return np.array([azimuth, zenith], dtype=np.float64)
 
-- 
2.43.0


From 26367bc97278fbe5ca9340fefa76b7017d628233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:48 +0000
Subject: [PATCH 060/105] fix: arrays and objects recreated at the address of a
 released one were stored as links to its data

---
 hermespy/core/factory.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/hermespy/core/factory.py b/hermespy/core/factory.py
index d1eb6e7..ec2a19f 100644
--- a/hermespy/core/factory.py
+++ b/hermespy/core/factory.py
@@ -840,16 +840,18 @@ class HDFSerializationProcess(SerializationProcess):
 
     __base_group: Group
     __group: Group
-    __arrays: MutableMapping[int, np.ndarray]
-    __objects: MutableMapping[int, str]  # Mapping of serialized objects to their HDF5 paths
+    # Mappings of serialized arrays and objects to their HDF5 paths
+    # The instances are referenced to ensure that their memory addresses stay unique during the process
+    __arrays: MutableMapping[int, tuple[np.ndarray, str]]
+    __objects: MutableMapping[int, tuple[Serializable, str]]
 
     def __init__(
         self,
         tag_registry: Mapping[str, Type[Serializable]],
         base_group: Group,
         group: Group,
-        arrays: MutableMapping[int, np.ndarray],
-        objects: MutableMapping[int, str],
+        arrays: MutableMapping[int, tuple[np.ndarray, str]],
+        objects: MutableMapping[int, tuple[Serializable, str]],
     ) -> None:
         # Init base class
         SerializationProcess.__init__(self, tag_registry)
@@ -893,13 +895,13 @@ class HDFSerializationProcess(SerializationProcess):
 
         # If the array has already been serialized, just create a soft link to it
         if cache and uid in self.__arrays:
-            self.__group[name] = SoftLink(self.__arrays[uid])
+            self.__group[name] = SoftLink(self.__arrays[uid][1])
             return
 
         # Write the array to the group and record its exact location to the object cache
         new = self.__group.create_dataset(name, array.shape, array.dtype, array)
         if cache:
-            self.__arrays[uid] = new.name
+            self.__arrays[uid] = (array, new.name)
 
     @override
     def serialize_floating(self, value: float, name: str) -> None:
@@ -934,16 +936,16 @@ class HDFSerializationProcess(SerializationProcess):
         obj_key: int = id(obj)
 
         # If the object has already been serialized, just create a soft link to it
-        obj_path = self.__objects.get(obj_key, None)
-        if obj_path is not None:
-            self.__group[name] = SoftLink(obj_path)
+        known_obj = self.__objects.get(obj_key, None)
+        if known_obj is not None:
+            self.__group[name] = SoftLink(known_obj[1])
             return
 
         # Create a new group for the object
         new_group = self._create_group(self.__group, name)
 
         # Save the object's path for future reference
-        self.__objects[obj_key] = new_group.name
+        self.__objects[obj_key] = (obj, new_group.name)
 
         # Create a new serialization process
         process = HDFSerializationProcess(
-- 
2.43.0


From 09370a43c89c769cb7b2d60ff1810a2dad380a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:03 +0000
Subject: [PATCH 061/105] fix: scramblers lost their seed when stored

---
 hermespy/fec/scrambler.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/hermespy/fec/scrambler.py b/hermespy/fec/scrambler.py
index 54e5e79..22f4ca5 100644
--- a/hermespy/fec/scrambler.py
+++ b/hermespy/fec/scrambler.py
@@ -134,6 +134,7 @@ class Scrambler3GPP(Encoder, Serializable):
 
     __transmit_rng: PseudoRandomGenerator
     __receive_rng: PseudoRandomGenerator
+    __seed: np.ndarray
     __default_seed = np.array([0, 1, 0, 1, 1, 0, 1], int)
 
     def __init__(self, seed: np.ndarray | None = None) -> None:
@@ -149,10 +150,10 @@ class Scrambler3GPP(Encoder, Serializable):
         Encoder.__init__(self)
 
         # Initialize the pseudo random number generator
-        seed = self.__default_seed.copy() if seed is None else seed
+        self.__seed = self.__default_seed.copy() if seed is None else seed
 
-        self.__transmit_rng = PseudoRandomGenerator(seed)
-        self.__receive_rng = PseudoRandomGenerator(seed)
+        self.__transmit_rng = PseudoRandomGenerator(self.__seed)
+        self.__receive_rng = PseudoRandomGenerator(self.__seed)
 
     def encode(self, data: np.ndarray) -> np.ndarray:
         codeword = self.__transmit_rng.generate_sequence(data.shape[0])
@@ -176,12 +177,12 @@ class Scrambler3GPP(Encoder, Serializable):
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
-        return
+        process.serialize_array(np.asarray(self.__seed), "seed")
 
     @override
     @classmethod
     def Deserialize(cls, process: DeserializationProcess) -> Scrambler3GPP:
-        return cls()
+        return cls(process.deserialize_array("seed", int))
 
 
 class Scrambler80211a(Encoder, Serializable):
@@ -298,9 +299,9 @@ class Scrambler80211a(Encoder, Serializable):
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
-        return
+        process.serialize_array(np.asarray(self.__seed), "seed")
 
     @override
     @classmethod
     def Deserialize(cls, process: DeserializationProcess) -> Scrambler80211a:
-        return cls()
+        return cls(process.deserialize_array("seed", int))
-- 
2.43.0


From c846133f670ce33a93dd9e372dd2a47de14f507e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:22 +0000
Subject: [PATCH 062/105] fix: simulated antennas lost their weight and custom
 arrays their type when stored

---
 hermespy/core/antennas.py       |  2 +-
 hermespy/simulation/antennas.py | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/hermespy/core/antennas.py b/hermespy/core/antennas.py
index cecea0e..ad806ea 100644
--- a/hermespy/core/antennas.py
+++ b/hermespy/core/antennas.py
@@ -1479,7 +1479,7 @@ class CustomAntennaArray(Generic[AT], AntennaArray[AT], Serializable):
     @classmethod
     @override
     def Deserialize(cls, process: DeserializationProcess) -> CustomAntennaArray:
-        return CustomAntennaArray(
+        return cls(
             process.deserialize_object_sequence("antennas", Antenna),
             process.deserialize_array("pose", np.float64).view(Transformation),
         )
diff --git a/hermespy/simulation/antennas.py b/hermespy/simulation/antennas.py
index 7578bfa..5343281 100644
--- a/hermespy/simulation/antennas.py
+++ b/hermespy/simulation/antennas.py
@@ -19,12 +19,14 @@ from hermespy.core import (
     AntennaArray,
     AntennaMode,
     CustomAntennaArray,
+    DeserializationProcess,
     Dipole,
     Executable,
     IdealAntenna,
     LinearAntenna,
     PatchAntenna,
     ReceiveState,
+    SerializationProcess,
     Signal,
     SignalBlock,
     Transformation,
@@ -137,6 +139,18 @@ class SimulatedAntenna(Antenna):
             offsets=signal.block_offsets,
         )
 
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        super().serialize(process)
+        process.serialize_complex(self.weight, "weight")
+
+    @classmethod
+    @override
+    def Deserialize(cls, process: DeserializationProcess) -> SimulatedAntenna:
+        antenna = super().Deserialize(process)  # type: ignore[misc]
+        antenna.weight = process.deserialize_complex("weight", 1.0 + 0.0j)
+        return antenna
+
 
 class SimulatedDipole(SimulatedAntenna, Dipole):
     """Model of single dipole antenna within an antenna array."""
-- 
2.43.0


From 14e1b544221864ed28ad646996637c56ad1e9563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:53 +0000
Subject: [PATCH 063/105] fix: signal transmitters and noise models lost their
 seeds and ports when stored

---
 hermespy/core/operators.py            | 16 +++++++++++++++-
 hermespy/simulation/rf/noise/model.py |  5 +++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/hermespy/core/operators.py b/hermespy/core/operators.py
index 7a0f88e..03bbb8b 100644
--- a/hermespy/core/operators.py
+++ b/hermespy/core/operators.py
@@ -154,13 +154,27 @@ class SignalTransmitter(StaticOperator, Transmitter[Transmission], Serializable)
     @override
     def serialize(self, process: SerializationProcess) -> None:
         process.serialize_object(self.__signal, "signal")
+        if self.seed is not None:
+            process.serialize_integer(self.seed, "seed")
+        if self.selected_transmit_ports is not None:
+            process.serialize_array(
+                np.asarray(self.selected_transmit_ports, np.int64), "selected_transmit_ports"
+            )
+        if self.carrier_frequency is not None:
+            process.serialize_floating(self.carrier_frequency, "carrier_frequency")
 
     @override
     @classmethod
     def Deserialize(
         cls: Type[SignalTransmitter], process: DeserializationProcess
     ) -> SignalTransmitter:
-        return SignalTransmitter(process.deserialize_object("signal", Signal))
+        transmit_ports = process.deserialize_array("selected_transmit_ports", np.int64, None)
+        return SignalTransmitter(
+            process.deserialize_object("signal", Signal),
+            process.deserialize_integer("seed", None),
+            transmit_ports.flatten().tolist() if transmit_ports is not None else None,
+            process.deserialize_floating("carrier_frequency", None),
+        )
 
 
 class SignalReceiver(StaticOperator, Receiver[Reception], Serializable):
diff --git a/hermespy/simulation/rf/noise/model.py b/hermespy/simulation/rf/noise/model.py
index eaacb97..88c67cd 100644
--- a/hermespy/simulation/rf/noise/model.py
+++ b/hermespy/simulation/rf/noise/model.py
@@ -180,9 +180,10 @@ class AWGN(NoiseModel[AWGNRealization]):
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
-        return
+        if self.seed is not None:
+            process.serialize_integer(self.seed, "seed")
 
     @override
     @classmethod
     def Deserialize(cls: Type[AWGN], process: DeserializationProcess) -> AWGN:
-        return cls()
+        return cls(process.deserialize_integer("seed", None))
-- 
2.43.0


From 19212a3ccbed641fb98ba146341153c71fddddb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:00 +0000
Subject: [PATCH 064/105] fix: radio-frequency blocks lost their configuration
 when stored

---
 hermespy/simulation/rf/blocks/ad.py         |  9 ++++++++
 hermespy/simulation/rf/blocks/filters.py    | 21 +++++++++++++++++++
 hermespy/simulation/rf/blocks/ramp.py       |  4 ++++
 hermespy/simulation/rf/blocks/shift.py      | 23 +++++++++++++++++++++
 hermespy/simulation/rf/blocks/source.py     | 23 +++++++++++++++++++++
 hermespy/simulation/rf/blocks/split.py      | 15 ++++++++++++++
 hermespy/simulation/rf/blocks/sum.py        | 15 ++++++++++++++
 hermespy/simulation/rf/blocks/x4.py         | 11 ++++++++++
 hermespy/simulation/rf/noise/phase_noise.py |  4 +++-
 9 files changed, 124 insertions(+), 1 deletion(-)

diff --git a/hermespy/simulation/rf/blocks/ad.py b/hermespy/simulation/rf/blocks/ad.py
index f8d2afa..95afd09 100644
--- a/hermespy/simulation/rf/blocks/ad.py
+++ b/hermespy/simulation/rf/blocks/ad.py
@@ -612,6 +612,11 @@ class ADC(ConverterBase, DSPOutputBlock):
             process.serialize_integer(self.num_quantization_bits, "num_quantization_bits")
         process.serialize_object(self.gain, "gain")
         process.serialize_object(self.quantizer_type, "quantizer_type")
+        process.serialize_integer(self.num_output_ports, "num_ports")
+        process.serialize_object(self.noise_model, "noise_model")
+        process.serialize_object(self.noise_level, "noise_level")
+        if self.seed is not None:
+            process.serialize_integer(self.seed, "seed")
 
     @override
     @classmethod
@@ -620,6 +625,10 @@ class ADC(ConverterBase, DSPOutputBlock):
             process.deserialize_integer("num_quantization_bits", None),
             process.deserialize_object("gain", GainControlBase, None),
             process.deserialize_object("quantizer_type", QuantizerType, QuantizerType.MID_RISER),
+            process.deserialize_integer("num_ports", 1),
+            process.deserialize_object("noise_model", NoiseModel, None),
+            process.deserialize_object("noise_level", NoiseLevel, None),
+            process.deserialize_integer("seed", None),
         )
 
 
diff --git a/hermespy/simulation/rf/blocks/filters.py b/hermespy/simulation/rf/blocks/filters.py
index 6541911..683f277 100644
--- a/hermespy/simulation/rf/blocks/filters.py
+++ b/hermespy/simulation/rf/blocks/filters.py
@@ -7,6 +7,7 @@ from typing_extensions import override
 import numpy as np
 from scipy.signal import butter, filtfilt
 
+from hermespy.core import DeserializationProcess, SerializationProcess
 from ..block import RFBlock, RFBlockRealization, RFBlockPort, RFBlockPortType
 from ..signal import RFSignal
 from ..noise import NoiseModel, NoiseLevel, NoiseRealization
@@ -232,3 +233,23 @@ class HPF(Filter):
             oversampling_factor,
             self.noise_model.realize(self.noise_level.get_power(bandwidth)),
         )
+
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        process.serialize_floating(self.cutoff_frequency, "cutoff_frequency")
+        process.serialize_integer(self.filter_order, "filter_order")
+        process.serialize_object(self.noise_model, "noise_model")
+        process.serialize_object(self.noise_level, "noise_level")
+        if self.seed is not None:
+            process.serialize_integer(self.seed, "seed")
+
+    @classmethod
+    @override
+    def Deserialize(cls, process: DeserializationProcess) -> HPF:
+        return cls(
+            process.deserialize_floating("cutoff_frequency"),
+            process.deserialize_integer("filter_order"),
+            process.deserialize_object("noise_model", NoiseModel, None),
+            process.deserialize_object("noise_level", NoiseLevel, None),
+            process.deserialize_integer("seed", None),
+        )
diff --git a/hermespy/simulation/rf/blocks/ramp.py b/hermespy/simulation/rf/blocks/ramp.py
index fd28f6a..76bd4c2 100644
--- a/hermespy/simulation/rf/blocks/ramp.py
+++ b/hermespy/simulation/rf/blocks/ramp.py
@@ -216,6 +216,8 @@ class RampGenerator(RFBlock):
         process.serialize_floating(self.chirp_slope, "chirp_slope")
         process.serialize_floating(self.chirp_interval, "chirp_interval")
         process.serialize_integer(self.num_chirps, "num_chirps")
+        process.serialize_object(self.noise_model, "noise_model")
+        process.serialize_object(self.noise_level, "noise_level")
         if self.seed is not None:
             process.serialize_integer(self.seed, "seed")
 
@@ -227,5 +229,7 @@ class RampGenerator(RFBlock):
             chirp_bandwidth=process.deserialize_floating("chirp_bandwidth"),
             chirp_slope=process.deserialize_floating("chirp_slope"),
             chirp_interval=process.deserialize_floating("chirp_interval"),
+            noise_model=process.deserialize_object("noise_model", NoiseModel, None),
+            noise_level=process.deserialize_object("noise_level", NoiseLevel, None),
             seed=process.deserialize_integer("seed", None),
         )
diff --git a/hermespy/simulation/rf/blocks/shift.py b/hermespy/simulation/rf/blocks/shift.py
index 8d81bb2..dff3d7d 100644
--- a/hermespy/simulation/rf/blocks/shift.py
+++ b/hermespy/simulation/rf/blocks/shift.py
@@ -5,6 +5,7 @@ from typing_extensions import override
 
 import numpy as np
 
+from hermespy.core import DeserializationProcess, SerializationProcess
 from ..block import RFBlock, RFBlockRealization, RFBlockPort, RFBlockPortType
 from ..signal import RFSignal
 from ..noise import NoiseModel, NoiseLevel
@@ -117,3 +118,25 @@ class Shift(RFBlock):
         """
 
         return self.__o
+
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        process.serialize_floating(self.phase, "phase")
+        process.serialize_integer(self.num_quantization_bits, "num_quantization_bits")
+        process.serialize_integer(self.__num_ports, "num_ports")
+        process.serialize_object(self.noise_model, "noise_model")
+        process.serialize_object(self.noise_level, "noise_level")
+        if self.seed is not None:
+            process.serialize_integer(self.seed, "seed")
+
+    @classmethod
+    @override
+    def Deserialize(cls, process: DeserializationProcess) -> Shift:
+        return cls(
+            process.deserialize_floating("phase"),
+            process.deserialize_integer("num_quantization_bits"),
+            process.deserialize_integer("num_ports"),
+            process.deserialize_object("noise_model", NoiseModel, None),
+            process.deserialize_object("noise_level", NoiseLevel, None),
+            process.deserialize_integer("seed", None),
+        )
diff --git a/hermespy/simulation/rf/blocks/source.py b/hermespy/simulation/rf/blocks/source.py
index 8da0522..e74af14 100644
--- a/hermespy/simulation/rf/blocks/source.py
+++ b/hermespy/simulation/rf/blocks/source.py
@@ -13,6 +13,7 @@ from ..noise import (
     PhaseNoise,
     PhaseNoiseRealization,
 )
+from hermespy.core import DeserializationProcess, SerializationProcess
 from ..block import RFBlock, RFBlockRealization, RFBlockPort, RFBlockPortType
 from ..signal import RFSignal
 
@@ -212,3 +213,25 @@ class Source(RFBlock):
         # Add phase noise to the output signal
         noisy_output = realization.phase_noise.add_noise(output)
         return noisy_output
+
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        process.serialize_floating(self.carrier_frequency, "carrier_frequency")
+        process.serialize_object(self.phase_noise, "phase_noise")
+        process.serialize_floating(self.amplitude, "amplitude")
+        process.serialize_object(self.noise_model, "noise_model")
+        process.serialize_object(self.noise_level, "noise_level")
+        if self.seed is not None:
+            process.serialize_integer(self.seed, "seed")
+
+    @classmethod
+    @override
+    def Deserialize(cls, process: DeserializationProcess) -> Source:
+        return cls(
+            process.deserialize_floating("carrier_frequency"),
+            process.deserialize_object("phase_noise", PhaseNoise),
+            process.deserialize_floating("amplitude"),
+            process.deserialize_object("noise_model", NoiseModel, None),
+            process.deserialize_object("noise_level", NoiseLevel, None),
+            process.deserialize_integer("seed", None),
+        )
diff --git a/hermespy/simulation/rf/blocks/split.py b/hermespy/simulation/rf/blocks/split.py
index 92c8e14..0cac475 100644
--- a/hermespy/simulation/rf/blocks/split.py
+++ b/hermespy/simulation/rf/blocks/split.py
@@ -5,6 +5,7 @@ from typing_extensions import override
 
 import numpy as np
 
+from hermespy.core import DeserializationProcess, SerializationProcess
 from ..block import RFBlock, RFBlockRealization, RFBlockPort, RFBlockPortType
 from ..signal import RFSignal
 
@@ -73,3 +74,17 @@ class Split(RFBlock):
         """
 
         return self.__o
+
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        process.serialize_integer(self.num_output_ports, "num_outputs")
+        if self.seed is not None:
+            process.serialize_integer(self.seed, "seed")
+
+    @classmethod
+    @override
+    def Deserialize(cls, process: DeserializationProcess) -> Split:
+        return cls(
+            process.deserialize_integer("num_outputs"),
+            seed=process.deserialize_integer("seed", None),
+        )
diff --git a/hermespy/simulation/rf/blocks/sum.py b/hermespy/simulation/rf/blocks/sum.py
index 48821d1..ae66525 100644
--- a/hermespy/simulation/rf/blocks/sum.py
+++ b/hermespy/simulation/rf/blocks/sum.py
@@ -5,6 +5,7 @@ from typing_extensions import override
 
 import numpy as np
 
+from hermespy.core import DeserializationProcess, SerializationProcess
 from ..block import RFBlock, RFBlockRealization, RFBlockPort, RFBlockPortType
 from ..signal import RFSignal
 
@@ -78,3 +79,17 @@ class Sum(RFBlock):
         """Output port of the summation block."""
 
         return self.__o
+
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        process.serialize_integer(self.num_input_ports, "num_input_ports")
+        if self.seed is not None:
+            process.serialize_integer(self.seed, "seed")
+
+    @classmethod
+    @override
+    def Deserialize(cls, process: DeserializationProcess) -> Sum:
+        return cls(
+            process.deserialize_integer("num_input_ports"),
+            seed=process.deserialize_integer("seed", None),
+        )
diff --git a/hermespy/simulation/rf/blocks/x4.py b/hermespy/simulation/rf/blocks/x4.py
index 3d994eb..df4600c 100644
--- a/hermespy/simulation/rf/blocks/x4.py
+++ b/hermespy/simulation/rf/blocks/x4.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 from typing_extensions import override
 
+from hermespy.core import DeserializationProcess, SerializationProcess
 from ..block import RFBlock, RFBlockRealization, RFBlockPort, RFBlockPortType
 from ..signal import RFSignal
 
@@ -71,3 +72,13 @@ class X4(RFBlock):
         output: RFSignal = input.copy()
         output.carrier_frequencies = input.carrier_frequencies * 4
         return output
+
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        if self.seed is not None:
+            process.serialize_integer(self.seed, "seed")
+
+    @classmethod
+    @override
+    def Deserialize(cls, process: DeserializationProcess) -> X4:
+        return cls(seed=process.deserialize_integer("seed", None))
diff --git a/hermespy/simulation/rf/noise/phase_noise.py b/hermespy/simulation/rf/noise/phase_noise.py
index 2e1cd90..a18bd31 100644
--- a/hermespy/simulation/rf/noise/phase_noise.py
+++ b/hermespy/simulation/rf/noise/phase_noise.py
@@ -330,6 +330,8 @@ class OscillatorPhaseNoise(PhaseNoise, Serializable):
         process.serialize_floating(self.__K0, "K0")
         process.serialize_floating(self.__K2, "K2")
         process.serialize_floating(self.__K3, "K3")
+        if self.seed is not None:
+            process.serialize_integer(self.seed, "seed")
 
     @override
     @classmethod
@@ -337,4 +339,4 @@ class OscillatorPhaseNoise(PhaseNoise, Serializable):
         K0 = process.deserialize_floating("K0")
         K2 = process.deserialize_floating("K2")
         K3 = process.deserialize_floating("K3")
-        return OscillatorPhaseNoise(K0, K2, K3)
+        return OscillatorPhaseNoise(K0, K2, K3, process.deserialize_integer("seed", None))
-- 
2.43.0


From 90adfde09b5c48e5049b3b684a6421c6a1f5cd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:28 +0000
Subject: [PATCH 065/105] fix: connections within radio-frequency chains were
 lost when stored

---
 hermespy/simulation/rf/chain.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/hermespy/simulation/rf/chain.py b/hermespy/simulation/rf/chain.py
index 8a4d252..57cf2a9 100644
--- a/hermespy/simulation/rf/chain.py
+++ b/hermespy/simulation/rf/chain.py
@@ -693,6 +693,15 @@ class RFChain(RandomNode, Serializable):
         process.serialize_object_sequence(self.__rf_output_blocks, "rf_output_blocks")
         process.serialize_object_sequence(self.__rf_origin_blocks, "rf_origin_blocks")
 
+        # Serialize the connections, each as output block, input block, output port and input port
+        connections = [
+            (self.__block_references.index(output_block), input_index, output_port, input_port)
+            for input_index, input_block in enumerate(self.__block_references)
+            for output_block, ports in input_block.incoming_connections.items()
+            for output_port, input_port in zip(*ports)
+        ]
+        process.serialize_array(np.asarray(connections, np.int64).reshape((-1, 4)), "connections")
+
         # Serialize random seed if available
         if self.seed is not None:
             process.serialize_integer(self.seed, "seed")
@@ -722,4 +731,13 @@ class RFChain(RandomNode, Serializable):
             process.deserialize_object_sequence("rf_origin_blocks", RFBlockReference)
         )
 
+        # Restore the connections between the block references
+        connections = process.deserialize_array("connections", np.int64, None)
+        if connections is not None:
+            for output_index, input_index, output_port, input_port in connections.tolist():
+                output_block = chain_instance.__block_references[output_index]
+                input_block = chain_instance.__block_references[input_index]
+                output_block.connect_to(input_block, output_port, input_port)
+                input_block.connect_from(output_block, output_port, input_port)
+
         return chain_instance
-- 
2.43.0


From 45048e59810092400befa368428feae1faa31997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:58 +0000
Subject: [PATCH 066/105] fix: antenna correlations could not be loaded once
 stored

---
 hermespy/channel/fading/correlation.py | 19 ++++++++++++++++++-
 hermespy/core/factory.py               |  2 +-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/hermespy/channel/fading/correlation.py b/hermespy/channel/fading/correlation.py
index e9b27cd..fc2f755 100644
--- a/hermespy/channel/fading/correlation.py
+++ b/hermespy/channel/fading/correlation.py
@@ -2,9 +2,17 @@
 
 from __future__ import annotations
 
+from typing_extensions import override
+
 import numpy as np
 
-from hermespy.core import AntennaArrayState, AntennaMode, SerializableEnum
+from hermespy.core import (
+    AntennaArrayState,
+    AntennaMode,
+    DeserializationProcess,
+    SerializableEnum,
+    SerializationProcess,
+)
 from .fading import AntennaCorrelation
 
 __author__ = "Tobias Kronauer"
@@ -104,3 +112,12 @@ class StandardAntennaCorrelation(AntennaCorrelation):
         raise RuntimeError(
             f"3GPP standard antenna covariance is only defined for 1, 2 and 4 antennas, device has {n} antennas"
         )
+
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        process.serialize_string(self.correlation.name, "correlation")
+
+    @classmethod
+    @override
+    def Deserialize(cls, process: DeserializationProcess) -> StandardAntennaCorrelation:
+        return cls(process.deserialize_string("correlation"))
diff --git a/hermespy/core/factory.py b/hermespy/core/factory.py
index ec2a19f..2a172d1 100644
--- a/hermespy/core/factory.py
+++ b/hermespy/core/factory.py
@@ -1089,7 +1089,7 @@ class HDFDeserializationProcess(DeserializationProcess):
         else:
             array_dataset = self.__group[name]
 
-        deserialized_array = np.asarray(array_dataset, dtype=dtype)
+        deserialized_array = np.asarray(array_dataset[()], dtype=dtype)
         self.__arrays[array_dataset.name] = deserialized_array
         return deserialized_array
 
-- 
2.43.0


From f9b19e8ed29b65d4f4c920ae16470158e90e006b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:58 +0000
Subject: [PATCH 067/105] fix: realizations of fading channels could not be
 loaded once stored

---
 hermespy/channel/fading/fading.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/channel/fading/fading.py b/hermespy/channel/fading/fading.py
index beb5ca3..af069aa 100644
--- a/hermespy/channel/fading/fading.py
+++ b/hermespy/channel/fading/fading.py
@@ -583,7 +583,7 @@ class MultipathFadingRealization(ChannelRealization[MultipathFadingSample]):
             process.deserialize_floating("nlos_doppler"),
             process.deserialize_object("antenna_correlation", AntennaCorrelation, None),
             set(),
-            **Channel._DeserializeParameters(process),  # type: ignore[arg-type]
+            **ChannelRealization._DeserializeParameters(process),  # type: ignore[arg-type]
         )
 
 
-- 
2.43.0


From da02c7ffd6903b794bb0270dccf9ba24a9a4de17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:06 +0000
Subject: [PATCH 068/105] fix: fading channels lost their line of sight
 parameters when stored

---
 hermespy/channel/fading/fading.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hermespy/channel/fading/fading.py b/hermespy/channel/fading/fading.py
index af069aa..0ea5000 100644
--- a/hermespy/channel/fading/fading.py
+++ b/hermespy/channel/fading/fading.py
@@ -940,7 +940,9 @@ class MultipathFadingChannel(
         process.serialize_integer(self.num_sinusoids, "num_sinusoids")
         process.serialize_floating(self.__correlation_distance, "correlation_distance")
         process.serialize_floating(self.__doppler_frequency, "doppler_frequency")
-        process.serialize_floating(self.__los_doppler_frequency, "los_doppler_frequency")
+        process.serialize_floating(self.los_angle, "los_angle")
+        if self.__los_doppler_frequency is not None:
+            process.serialize_floating(self.__los_doppler_frequency, "los_doppler_frequency")
         if self.antenna_correlation is not None:
             process.serialize_object(self.antenna_correlation, "antenna_correlation")
         Channel.serialize(self, process)
@@ -963,7 +965,10 @@ class MultipathFadingChannel(
                 "doppler_frequency": process.deserialize_floating(
                     "doppler_frequency", cls._DEFAULT_DOPPLER_FREQUENCY
                 ),
-                "los_doppler_frequency": process.deserialize_floating("los_doppler_frequency"),
+                "los_angle": process.deserialize_floating("los_angle", None),
+                "los_doppler_frequency": process.deserialize_floating(
+                    "los_doppler_frequency", None
+                ),
                 "antenna_correlation": process.deserialize_object(
                     "antenna_correlation", AntennaCorrelation, None
                 ),
-- 
2.43.0


From 05d319ed2a272fa0fe6c13906920f0a40caef7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:39 +0000
Subject: [PATCH 069/105] fix: fading channel models with a predefined line of
 sight could not be loaded once stored

---
 hermespy/channel/fading/cost259.py | 10 +++++++---
 hermespy/channel/fading/tdl.py     |  7 +++++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/hermespy/channel/fading/cost259.py b/hermespy/channel/fading/cost259.py
index b9fe1aa..3474691 100644
--- a/hermespy/channel/fading/cost259.py
+++ b/hermespy/channel/fading/cost259.py
@@ -250,13 +250,15 @@ class Cost259(MultipathFadingChannel):
     @classmethod
     @override
     def Deserialize(cls, process: DeserializationProcess) -> Cost259:
-        return cls(
-            model_type=process.deserialize_object("model_type", Cost259Type, cls.__DEFAULT_TYPE),
+        model_type = process.deserialize_object("model_type", Cost259Type, cls.__DEFAULT_TYPE)
+        los_angle = process.deserialize_floating("los_angle")
+        channel = cls(
+            model_type=model_type,
             correlation_distance=process.deserialize_floating(
                 "correlation_distance", cls._DEFAULT_DECORRELATION_DISTANCE
             ),
             num_sinusoids=process.deserialize_integer("num_sinusoids", cls._DEFAULT_NUM_SINUSOIDS),
-            los_angle=process.deserialize_floating("los_angle"),
+            los_angle=los_angle if model_type != Cost259Type.HILLY else None,
             doppler_frequency=process.deserialize_floating(
                 "doppler_frequency", cls._DEFAULT_DOPPLER_FREQUENCY
             ),
@@ -266,3 +268,5 @@ class Cost259(MultipathFadingChannel):
             ),
             **Channel._DeserializeParameters(process),  # type: ignore[arg-type]
         )
+        channel.los_angle = los_angle
+        return channel
diff --git a/hermespy/channel/fading/tdl.py b/hermespy/channel/fading/tdl.py
index 8716f6a..37d05b5 100644
--- a/hermespy/channel/fading/tdl.py
+++ b/hermespy/channel/fading/tdl.py
@@ -424,7 +424,7 @@ class TDL(MultipathFadingChannel):
     @classmethod
     @override
     def Deserialize(cls, process: DeserializationProcess) -> TDL:
-        return cls(
+        channel = cls(
             model_type=process.deserialize_object("model_type", TDLType, cls._DEFAULT_TYPE),
             rms_delay=process.deserialize_floating("rms_delay", cls._DEFAULT_RMS_DELAY),
             correlation_distance=process.deserialize_floating(
@@ -435,9 +435,12 @@ class TDL(MultipathFadingChannel):
             doppler_frequency=process.deserialize_floating(
                 "doppler_frequency", cls._DEFAULT_DOPPLER_FREQUENCY
             ),
-            los_doppler_frequency=process.deserialize_floating("los_doppler_frequency"),
             antenna_correlation=process.deserialize_object(
                 "antenna_correlation", AntennaCorrelation, None
             ),
             **Channel._DeserializeParameters(process),  # type: ignore[arg-type]
         )
+
+        # The line of sight frequency can't be specified during the initialization of some models
+        channel.los_doppler_frequency = process.deserialize_floating("los_doppler_frequency")
+        return channel
-- 
2.43.0


From 60a5f1ef60c5853376c0d799a5bcd33cca9a68ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:40 +0000
Subject: [PATCH 070/105] fix: channel models lost their seed when stored

---
 hermespy/channel/cdl/cdl.py                 | 4 ++--
 hermespy/channel/cdl/cluster_delay_lines.py | 4 ++--
 hermespy/channel/ideal.py                   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/hermespy/channel/cdl/cdl.py b/hermespy/channel/cdl/cdl.py
index f0cced9..8062d9d 100644
--- a/hermespy/channel/cdl/cdl.py
+++ b/hermespy/channel/cdl/cdl.py
@@ -476,7 +476,7 @@ class CDL(Channel[CDLRealization, ClusterDelayLineSample]):
         process.serialize_floating(self.rms_delay, "rms_delay")
         process.serialize_floating(self.rayleigh_factor, "rayleigh_factor")
         process.serialize_floating(self.decorrelation_distance, "decorrelation_distance")
-        process.serialize_floating(self.gain, "gain")
+        Channel.serialize(self, process)
 
     @classmethod
     @override
@@ -488,5 +488,5 @@ class CDL(Channel[CDLRealization, ClusterDelayLineSample]):
             process.deserialize_floating(
                 "decorrelation_distance", cls.__DEFAULT_DECORRELATION_DISTANCE
             ),
-            gain=process.deserialize_floating("gain"),
+            **Channel._DeserializeParameters(process),  # type: ignore[arg-type]
         )
diff --git a/hermespy/channel/cdl/cluster_delay_lines.py b/hermespy/channel/cdl/cluster_delay_lines.py
index c9fdae7..d451f6a 100644
--- a/hermespy/channel/cdl/cluster_delay_lines.py
+++ b/hermespy/channel/cdl/cluster_delay_lines.py
@@ -2287,7 +2287,7 @@ class ClusterDelayLineBase(Channel[CDLRT, ClusterDelayLineSample], Generic[CDLRT
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
-        process.serialize_floating(self.gain, "gain")
+        Channel.serialize(self, process)
         process.serialize_object(self.delay_normalization, "delay_normalization")
         process.serialize_integer(self.oxygen_absorption, "oxygen_absorption")
         if self.expected_state is not None:
@@ -2296,7 +2296,7 @@ class ClusterDelayLineBase(Channel[CDLRT, ClusterDelayLineSample], Generic[CDLRT
     @classmethod
     def _DeserializeParameters(cls, process: DeserializationProcess) -> dict[str, object]:
         return {
-            "gain": process.deserialize_floating("gain", cls._DEFAULT_GAIN),
+            **Channel._DeserializeParameters(process),
             "delay_normalization": process.deserialize_object(
                 "delay_normalization", DelayNormalization, cls._DEFAULT_DELAY_NORMALIZATION
             ),
diff --git a/hermespy/channel/ideal.py b/hermespy/channel/ideal.py
index 674fd19..c75d93c 100644
--- a/hermespy/channel/ideal.py
+++ b/hermespy/channel/ideal.py
@@ -156,9 +156,9 @@ class IdealChannel(Channel[IdealChannelRealization, IdealChannelSample]):
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
-        process.serialize_floating(self.gain, "gain")
+        Channel.serialize(self, process)
 
     @override
     @classmethod
     def Deserialize(cls, process: DeserializationProcess) -> IdealChannel:
-        return IdealChannel(process.deserialize_floating("gain"))
+        return IdealChannel(**Channel._DeserializeParameters(process))  # type: ignore[arg-type]
-- 
2.43.0


From 53361866f82a98d6bddf6282e3969e1bb2604705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:40 +0000
Subject: [PATCH 071/105] fix: realizations of radar channels without target or
 with a velocity vector could not be restored

---
 hermespy/channel/radar/single.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hermespy/channel/radar/single.py b/hermespy/channel/radar/single.py
index 8432864..fb81d23 100644
--- a/hermespy/channel/radar/single.py
+++ b/hermespy/channel/radar/single.py
@@ -159,10 +159,10 @@ class SingleTargetRadarChannelRealization(RadarChannelRealization):
     @override
     def Deserialize(cls, process: DeserializationProcess) -> SingleTargetRadarChannelRealization:
         target_velocity = process.deserialize_array("target_velocity", np.float64).flatten()
-        _target_velocity: float | tuple[float, float]
+        _target_velocity: float | tuple[float, float] | np.ndarray = target_velocity
         if len(target_velocity) == 1:
             _target_velocity = float(target_velocity[0])
-        else:
+        elif len(target_velocity) == 2:
             _target_velocity = (float(target_velocity[0]), float(target_velocity[1]))
         return SingleTargetRadarChannelRealization(
             process.deserialize_object("consistent_realization", ConsistentRealization),
@@ -171,7 +171,7 @@ class SingleTargetRadarChannelRealization(RadarChannelRealization):
             process.deserialize_object("target_zenith_variable", ConsistentUniform),
             process.deserialize_object("target_velocity_variable", ConsistentUniform),
             process.deserialize_object("target_phase_variable", ConsistentUniform),
-            process.deserialize_range("target_range"),
+            process.deserialize_range("target_range", None),
             process.deserialize_range("target_azimuth"),
             process.deserialize_range("target_zenith"),
             process.deserialize_floating("target_cross_section"),
-- 
2.43.0


From 78fe708a4261be5c144f27faca819deb4af20845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:40 +0000
Subject: [PATCH 072/105] fix: evaluators lost their parameters when stored

---
 hermespy/core/pymonte/scalar.py               | 39 ++++++++++++++++++-
 hermespy/modem/evaluators.py                  |  7 ++--
 hermespy/radar/evaluators.py                  | 15 ++-----
 .../simulation/evaluators/interference.py     |  5 ++-
 4 files changed, 50 insertions(+), 16 deletions(-)

diff --git a/hermespy/core/pymonte/scalar.py b/hermespy/core/pymonte/scalar.py
index 6ca7d85..b55311b 100644
--- a/hermespy/core/pymonte/scalar.py
+++ b/hermespy/core/pymonte/scalar.py
@@ -2,7 +2,7 @@
 
 from __future__ import annotations
 from abc import ABC, abstractmethod
-from typing import Sequence, TypeVar
+from typing import Sequence, TYPE_CHECKING, TypeVar
 from typing_extensions import override
 from warnings import catch_warnings, simplefilter
 
@@ -19,6 +19,9 @@ from .artifact import Artifact
 from .evaluation import Evaluator, EvaluationResult
 from .grid import GridDimensionInfo
 
+if TYPE_CHECKING:
+    from ..factory import DeserializationProcess, SerializationProcess  # pragma: no cover
+
 __author__ = "Jan Adler"
 __copyright__ = "Copyright 2026, Barkhausen Institut gGmbH"
 __credits__ = ["Jan Adler"]
@@ -283,6 +286,40 @@ class ScalarEvaluator(Evaluator):
         self.min_num_samples = min_num_samples
         self.plot_surface = plot_surface
 
+    def serialize(self, process: SerializationProcess) -> None:
+        """Serialize the evaluator's parameters.
+
+        Args:
+            process: The current stage of the serialization process.
+        """
+
+        process.serialize_floating(self.confidence, "confidence")
+        process.serialize_floating(self.tolerance, "tolerance")
+        process.serialize_integer(self.min_num_samples, "min_num_samples")
+        process.serialize_string(self.plot_scale, "plot_scale")
+        process.serialize_string(self.tick_format.name, "tick_format")
+        process.serialize_integer(int(self.plot_surface), "plot_surface")
+
+    def _deserialize_parameters(self, process: DeserializationProcess) -> None:
+        """Restore the evaluator's serialized parameters.
+
+        Parameters missing within the serialization remain unchanged.
+
+        Args:
+            process: The current stage of the deserialization process.
+        """
+
+        self.confidence = process.deserialize_floating("confidence", self.confidence)
+        self.tolerance = process.deserialize_floating("tolerance", self.tolerance)
+        self.min_num_samples = process.deserialize_integer("min_num_samples", self.min_num_samples)
+        self.plot_scale = process.deserialize_string("plot_scale", self.plot_scale)
+        self.tick_format = ValueType[
+            process.deserialize_string("tick_format", self.tick_format.name)
+        ]
+        self.plot_surface = bool(
+            process.deserialize_integer("plot_surface", int(self.plot_surface))
+        )
+
     @override
     def initialize_result(self, grid: Sequence[GridDimensionInfo]) -> ScalarEvaluationResult:
         return ScalarEvaluationResult(
diff --git a/hermespy/modem/evaluators.py b/hermespy/modem/evaluators.py
index f1a2b91..e5631fe 100644
--- a/hermespy/modem/evaluators.py
+++ b/hermespy/modem/evaluators.py
@@ -148,16 +148,17 @@ class CommunicationEvaluator(ScalarEvaluator, Serializable):
     def serialize(self, process: SerializationProcess) -> None:
         process.serialize_object(self.__transmitting_modem, "transmitting_modem")
         process.serialize_object(self.__receiving_modem, "receiving_modem")
-        process.serialize_integer(self.__plot_surface, "plot_surface")
+        ScalarEvaluator.serialize(self, process)
 
     @classmethod
     @override
     def Deserialize(cls, process: DeserializationProcess) -> CommunicationEvaluator:
-        return cls(
+        evaluator = cls(
             process.deserialize_object("transmitting_modem", TransmittingModem),
             process.deserialize_object("receiving_modem", ReceivingModem),
-            bool(process.deserialize_integer("plot_surface", cls._DEFAULT_PLOT_SURFACE)),
         )
+        evaluator._deserialize_parameters(process)
+        return evaluator
 
 
 class ErrorEvaluation(EvaluationTemplate[np.ndarray, StemVisualization], ABC):
diff --git a/hermespy/radar/evaluators.py b/hermespy/radar/evaluators.py
index 2dedf28..cb354ea 100644
--- a/hermespy/radar/evaluators.py
+++ b/hermespy/radar/evaluators.py
@@ -411,23 +411,16 @@ class DetectionProbEvaluator(ScalarEvaluator, Serializable):
     @override
     def serialize(self, process: SerializationProcess) -> None:
         process.serialize_object(self.__radar, "radar")
-        process.serialize_floating(self.confidence, "confidence")
-        process.serialize_floating(self.tolerance, "tolerance")
-        process.serialize_integer(self.min_num_samples, "min_num_samples")
+        ScalarEvaluator.serialize(self, process)
 
     @classmethod
     @override
     def Deserialize(
         cls: Type[DetectionProbEvaluator], process: DeserializationProcess
     ) -> DetectionProbEvaluator:
-        return DetectionProbEvaluator(
-            radar=process.deserialize_object("radar", Radar),
-            confidence=process.deserialize_floating("confidence", cls._DEFAULT_CONFIDENCE),
-            tolerance=process.deserialize_floating("tolerance", cls._DEFAULT_TOLERANCE),
-            min_num_samples=process.deserialize_integer(
-                "min_num_samples", cls._DEFAULT_MIN_NUM_SAMPLES
-            ),
-        )
+        evaluator = cls(process.deserialize_object("radar", Radar))
+        evaluator._deserialize_parameters(process)
+        return evaluator
 
 
 class RocArtifact(Artifact):
diff --git a/hermespy/simulation/evaluators/interference.py b/hermespy/simulation/evaluators/interference.py
index 135572e..cb60cfb 100644
--- a/hermespy/simulation/evaluators/interference.py
+++ b/hermespy/simulation/evaluators/interference.py
@@ -93,12 +93,15 @@ class SI(ScalarEvaluator, Serializable):
     @override
     def serialize(self, process: SerializationProcess) -> None:
         process.serialize_object(self.__device, "device")
+        ScalarEvaluator.serialize(self, process)
 
     @classmethod
     @override
     def Deserialize(cls, process: DeserializationProcess) -> SI:
         device = process.deserialize_object("device", SimulatedDevice)
-        return cls(device)
+        evaluator = cls(device)
+        evaluator._deserialize_parameters(process)
+        return evaluator
 
 
 class SSINR(SI):
-- 
2.43.0


From 3b6743bd05dbd9d287d06a56f7aa90da9dd9595f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:29 +0000
Subject: [PATCH 073/105] fix: impedance couplings could not be loaded with
 complex matrices

---
 hermespy/simulation/coupling/impedance.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/hermespy/simulation/coupling/impedance.py b/hermespy/simulation/coupling/impedance.py
index fc4a7ad..28c1e3c 100644
--- a/hermespy/simulation/coupling/impedance.py
+++ b/hermespy/simulation/coupling/impedance.py
@@ -236,10 +236,12 @@ class ImpedanceCoupling(Coupling):
     def Deserialize(cls, process: DeserializationProcess) -> ImpedanceCoupling:
         return cls(
             transmit_correlation=process.deserialize_array(
-                "transmit_correlation", np.float64, None
+                "transmit_correlation", np.complex128, None
             ),
-            receive_correlation=process.deserialize_array("receive_correlation", np.float64, None),
-            transmit_impedance=process.deserialize_array("transmit_impedance", np.float64, None),
-            receive_impedance=process.deserialize_array("receive_impedance", np.float64, None),
-            matching_impedance=process.deserialize_array("matching_impedance", np.float64, None),
+            receive_correlation=process.deserialize_array(
+                "receive_correlation", np.complex128, None
+            ),
+            transmit_impedance=process.deserialize_array("transmit_impedance", np.complex128, None),
+            receive_impedance=process.deserialize_array("receive_impedance", np.complex128, None),
+            matching_impedance=process.deserialize_array("matching_impedance", np.complex128, None),
         )
-- 
2.43.0


From 72bbce4f0b0d6fa3fe64c6617c21046d7678bfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:30 +0000
Subject: [PATCH 074/105] fix: simulated drops lost their channel realizations
 when loaded

---
 hermespy/simulation/drop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/simulation/drop.py b/hermespy/simulation/drop.py
index 84750e5..7caa23e 100644
--- a/hermespy/simulation/drop.py
+++ b/hermespy/simulation/drop.py
@@ -59,7 +59,7 @@ class SimulatedDrop(Drop[SimulatedDeviceTransmission, SimulatedDeviceReception])
     def Deserialize(cls: Type[SimulatedDrop], process: DeserializationProcess) -> SimulatedDrop:
         drop = Drop.Deserialize(process)
         channel_realizations = process.deserialize_object_sequence(
-            "channel_realiations", ChannelRealization
+            "channel_realizations", ChannelRealization
         )
         return SimulatedDrop(
             drop.timestamp, drop.device_transmissions, channel_realizations, drop.device_receptions
-- 
2.43.0


From 43c8bbba8113d358e4ba94d33315f9b2587d76ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:31 +0000
Subject: [PATCH 075/105] fix: modems configured with an encoder manager
 applied its encoders repeatedly

---
 hermespy/modem/modem.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hermespy/modem/modem.py b/hermespy/modem/modem.py
index 5046aed..2587875 100644
--- a/hermespy/modem/modem.py
+++ b/hermespy/modem/modem.py
@@ -541,8 +541,7 @@ class BaseModem(Generic[CWT], RandomNode, Serializable):
             self.encoder_manager = encoding
         else:
             self.encoder_manager = EncoderManager()
-        if encoding is not None:
-            for encoder in encoding.encoders if isinstance(encoding, EncoderManager) else encoding:
+            for encoder in encoding if encoding is not None else []:
                 self.encoder_manager.add_encoder(encoder)
 
         # Initialize the remaining attributes
-- 
2.43.0


From 689909cfdc9cf37dfbccffde3715b2e3afa6aeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:32 +0000
Subject: [PATCH 076/105] fix: encoder managers and modems lost their padding
 configuration when stored

---
 hermespy/fec/coding.py  |  7 ++++++-
 hermespy/modem/modem.py | 11 ++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/hermespy/fec/coding.py b/hermespy/fec/coding.py
index 5b3b159..43c127b 100644
--- a/hermespy/fec/coding.py
+++ b/hermespy/fec/coding.py
@@ -466,11 +466,16 @@ class EncoderManager(RandomNode, Serializable):
     @override
     def serialize(self, process: SerializationProcess) -> None:
         process.serialize_object_sequence(self._encoders, "encoders")
+        process.serialize_integer(int(self.allow_padding), "allow_padding")
+        process.serialize_integer(int(self.allow_truncating), "allow_truncating")
 
     @override
     @classmethod
     def Deserialize(cls, process: DeserializationProcess) -> EncoderManager:
-        manager = cls()
+        manager = cls(
+            bool(process.deserialize_integer("allow_padding", True)),
+            bool(process.deserialize_integer("allow_truncating", True)),
+        )
         encoders = process.deserialize_object_sequence("encoders", Encoder)
         for encoder in encoders:
             manager.add_encoder(encoder)
diff --git a/hermespy/modem/modem.py b/hermespy/modem/modem.py
index 2587875..00e2502 100644
--- a/hermespy/modem/modem.py
+++ b/hermespy/modem/modem.py
@@ -614,14 +614,23 @@ class BaseModem(Generic[CWT], RandomNode, Serializable):
     @override
     def serialize(self, process: SerializationProcess) -> None:
         process.serialize_object_sequence(self.encoder_manager.encoders, "bit_coding")
+        process.serialize_integer(int(self.encoder_manager.allow_padding), "allow_padding")
+        process.serialize_integer(int(self.encoder_manager.allow_truncating), "allow_truncating")
         if self.waveform is not None:
             process.serialize_object(self.waveform, "waveform")
         process.serialize_object(self.frame_generator, "frame_generator")
 
     @classmethod
     def _DeserializeParameters(cls, process: DeserializationProcess) -> dict[str, object]:
+        encoding = EncoderManager(
+            bool(process.deserialize_integer("allow_padding", True)),
+            bool(process.deserialize_integer("allow_truncating", True)),
+        )
+        for encoder in process.deserialize_object_sequence("bit_coding", Encoder):
+            encoding.add_encoder(encoder)
+
         return {
-            "encoding": process.deserialize_object_sequence("bit_coding", Encoder),
+            "encoding": encoding,
             "waveform": process.deserialize_object("waveform", CommunicationWaveform, None),
             "frame_generator": process.deserialize_object("frame_generator", FrameGenerator, None),
         }
-- 
2.43.0


From 093e0e69268c70b87f6b5ad17ab4429c9e5a0ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:41 +0000
Subject: [PATCH 077/105] fix: symbol mappings lost their soft output and
 real-valued options when stored

---
 hermespy/modem/tools/psk_qam_mapping.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hermespy/modem/tools/psk_qam_mapping.py b/hermespy/modem/tools/psk_qam_mapping.py
index 189abb0..7e9099c 100644
--- a/hermespy/modem/tools/psk_qam_mapping.py
+++ b/hermespy/modem/tools/psk_qam_mapping.py
@@ -528,6 +528,8 @@ class PskQamMapping(Serializable):
         process.serialize_integer(self.modulation_order, "modulation_order")
         if self.mapping is not None:
             process.serialize_array(self.mapping, "mapping")
+        process.serialize_integer(int(self.soft_output), "soft_output")
+        process.serialize_integer(int(self.is_complex), "is_complex")
 
     @classmethod
     @override
@@ -535,4 +537,6 @@ class PskQamMapping(Serializable):
         return cls(
             process.deserialize_integer("modulation_order"),
             process.deserialize_array("mapping", np.complex128, None),
+            bool(process.deserialize_integer("soft_output", False)),
+            bool(process.deserialize_integer("is_complex", True)),
         )
-- 
2.43.0


From b26ff62dc6e5482aba658b31b35c1c97b78b96b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:49 +0000
Subject: [PATCH 078/105] fix: OFDM waveforms lost their DC suppression option
 when stored

---
 hermespy/modem/waveforms/orthogonal/ofdm.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hermespy/modem/waveforms/orthogonal/ofdm.py b/hermespy/modem/waveforms/orthogonal/ofdm.py
index 2ef6a4d..48f4e62 100644
--- a/hermespy/modem/waveforms/orthogonal/ofdm.py
+++ b/hermespy/modem/waveforms/orthogonal/ofdm.py
@@ -9,7 +9,7 @@ import numpy as np
 from scipy.fft import fft, fftfreq, fftshift, ifft, ifftshift
 from scipy.signal import find_peaks
 
-from hermespy.core import Serializable, SerializationProcess
+from hermespy.core import DeserializationProcess, Serializable, SerializationProcess
 from ...waveform import Synchronization
 from ...waveform_correlation_synchronization import CorrelationSynchronization
 from .waveform import (
@@ -179,6 +179,14 @@ class OFDMWaveform(OrthogonalWaveform, Serializable):
     @override
     def serialize(self, process: SerializationProcess) -> None:
         OrthogonalWaveform.serialize(self, process)
+        process.serialize_integer(int(self.dc_suppression), "dc_suppression")
+
+    @classmethod
+    @override
+    def _DeserializeParameters(cls, process: DeserializationProcess) -> dict[str, Any]:
+        params = OrthogonalWaveform._DeserializeParameters(process)
+        params["dc_suppression"] = bool(process.deserialize_integer("dc_suppression", True))
+        return params
 
 
 class SchmidlCoxPilotSection(PilotSection[OFDMWaveform]):
-- 
2.43.0


From 55b20f333aa96d1ee10709012bae83f087601e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:04 +0000
Subject: [PATCH 079/105] fix: chirp FSK waveforms ignored their configured
 synchronization

---
 hermespy/modem/waveform_chirp_fsk.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hermespy/modem/waveform_chirp_fsk.py b/hermespy/modem/waveform_chirp_fsk.py
index e219df5..081b9e8 100644
--- a/hermespy/modem/waveform_chirp_fsk.py
+++ b/hermespy/modem/waveform_chirp_fsk.py
@@ -81,11 +81,14 @@ class ChirpFSKWaveform(PilotCommunicationWaveform):
                 Base waveform generator initialization arguments.
         """
 
+        # Select the default synchronization routine if no other routine is configured
+        if kwargs.get("synchronization") is None:
+            kwargs["synchronization"] = ChirpFSKSynchronization()
+
         # Init base class
         PilotCommunicationWaveform.__init__(self, **kwargs)
 
         # Configure waveform paramters
-        self.synchronization = ChirpFSKSynchronization()
         self.chirp_duration = chirp_duration
         self.freq_difference = freq_difference
         self.num_pilot_chirps = num_pilot_chirps
-- 
2.43.0


From ac3b4d3ac54396965e685c8c4b9b169143cbf827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:24 +0000
Subject: [PATCH 080/105] fix: modems configured with a coding pipeline never
 returned

---
 hermespy/modem/modem.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/hermespy/modem/modem.py b/hermespy/modem/modem.py
index 00e2502..7dd5c86 100644
--- a/hermespy/modem/modem.py
+++ b/hermespy/modem/modem.py
@@ -702,8 +702,7 @@ class TransmittingModemBase(Generic[CWT], BaseModem[CWT]):
             self.__transmit_symbol_coding = transmit_symbol_coding
         else:
             self.__transmit_symbol_coding = TransmitSymbolCoding()
-        if transmit_symbol_coding is not None:
-            for transmit_symbol_encoder in transmit_symbol_coding:
+            for transmit_symbol_encoder in transmit_symbol_coding if transmit_symbol_coding is not None else []:
                 self.__transmit_symbol_coding[-1] = transmit_symbol_encoder
 
         # Initialize transmit signal coding configuration
@@ -711,8 +710,7 @@ class TransmittingModemBase(Generic[CWT], BaseModem[CWT]):
             self.__transmit_signal_coding = transmit_signal_coding
         else:
             self.__transmit_signal_coding = TransmitSignalCoding()
-        if transmit_signal_coding is not None:
-            for transmit_signal_encoder in transmit_signal_coding:
+            for transmit_signal_encoder in transmit_signal_coding if transmit_signal_coding is not None else []:
                 self.__transmit_signal_coding[-1] = transmit_signal_encoder
 
         # Initialize remaining attributes
@@ -1057,8 +1055,7 @@ class ReceivingModemBase(Generic[CWT], BaseModem[CWT]):
             self.__receive_symbol_coding = receive_symbol_coding
         else:
             self.__receive_symbol_coding = ReceiveSymbolCoding()
-        if receive_symbol_coding is not None:
-            for receive_symbol_decoder in receive_symbol_coding:
+            for receive_symbol_decoder in receive_symbol_coding if receive_symbol_coding is not None else []:
                 self.__receive_symbol_coding[-1] = receive_symbol_decoder
 
         # Initialize receive signal coding configuration
@@ -1066,8 +1063,7 @@ class ReceivingModemBase(Generic[CWT], BaseModem[CWT]):
             self.__receive_signal_coding = receive_signal_coding
         else:
             self.__receive_signal_coding = ReceiveSignalCoding()
-        if receive_signal_coding is not None:
-            for receive_signal_decoder in receive_signal_coding:
+            for receive_signal_decoder in receive_signal_coding if receive_signal_coding is not None else []:
                 self.__receive_signal_coding[-1] = receive_signal_decoder
 
     @property
-- 
2.43.0


From c74617b5ad7464fdbc4cbf6aa88c3dceeb3a130f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:44 +0000
Subject: [PATCH 081/105] fix: order of stored precoding pipelines was reversed
 when loaded

---
 hermespy/core/device.py | 4 ++--
 hermespy/modem/modem.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/hermespy/core/device.py b/hermespy/core/device.py
index 71f5aff..2fbd22b 100644
--- a/hermespy/core/device.py
+++ b/hermespy/core/device.py
@@ -1655,10 +1655,10 @@ class Device(ABC, Generic[DST], Transformable, RandomNode, Serializable):
             "receive_dsp": process.deserialize_object_sequence("receive_dsp", Receiver),
             "transmit_encoding": process.deserialize_object_sequence(
                 "transmit_encoding", TransmitStreamEncoder
-            ),
+            )[::-1],
             "receive_decoding": process.deserialize_object_sequence(
                 "receive_decoding", ReceiveStreamDecoder
-            ),
+            )[::-1],
             "power": process.deserialize_floating("power", cls._DEFAULT_POWER),
             "pose": process.deserialize_object("pose", Transformation, None),
         }
diff --git a/hermespy/modem/modem.py b/hermespy/modem/modem.py
index 7dd5c86..360e696 100644
--- a/hermespy/modem/modem.py
+++ b/hermespy/modem/modem.py
@@ -907,10 +907,10 @@ class TransmittingModemBase(Generic[CWT], BaseModem[CWT]):
         parameters["bits_source"] = process.deserialize_object("bits_source", BitsSource)
         parameters["transmit_symbol_coding"] = process.deserialize_object_sequence(
             "transmit_symbol_coding", TransmitSymbolEncoder
-        )
+        )[::-1]
         parameters["transmit_signal_coding"] = process.deserialize_object_sequence(
             "transmit_signal_coding", TransmitStreamEncoder
-        )
+        )[::-1]
         return parameters
 
 
@@ -1282,10 +1282,10 @@ class ReceivingModemBase(Generic[CWT], BaseModem[CWT]):
         parameters = BaseModem._DeserializeParameters(process)
         parameters["receive_symbol_coding"] = process.deserialize_object_sequence(
             "receive_symbol_coding", ReceiveSymbolDecoder
-        )
+        )[::-1]
         parameters["receive_signal_coding"] = process.deserialize_object_sequence(
             "receive_signal_coding", ReceiveStreamDecoder
-        )
+        )[::-1]
         return parameters
 
 
-- 
2.43.0


From c4d168c51645dbe48785d57e0ca3e132dccb5ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:02 +0000
Subject: [PATCH 082/105] fix: joint communication and sensing operators lost
 their communication pipelines when stored

---
 hermespy/jcas/jcas.py              | 29 ++++++++++++++++++++++++++++-
 hermespy/jcas/matched_filtering.py |  7 +++----
 hermespy/jcas/ofdm_radar.py        |  4 +++-
 3 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/hermespy/jcas/jcas.py b/hermespy/jcas/jcas.py
index cae21ef..ead54bd 100644
--- a/hermespy/jcas/jcas.py
+++ b/hermespy/jcas/jcas.py
@@ -169,8 +169,35 @@ class DuplexJCASOperator(
     @override
     def serialize(self, process: SerializationProcess) -> None:
         RadarBase.serialize(self, process)
+        TransmittingModemBase.serialize(self, process)
+        ReceivingModemBase.serialize(self, process)
+
+    def _deserialize_communication(self, process: DeserializationProcess) -> None:
+        """Restore the operator's communication processing pipeline.
+
+        Args:
+            process: The current stage of the deserialization process.
+        """
+
+        parameters = TransmittingModemBase._DeserializeParameters(process)
+        parameters.update(ReceivingModemBase._DeserializeParameters(process))
+
+        self.waveform = parameters["waveform"]  # type: ignore[assignment]
+        self.encoder_manager = parameters["encoding"]  # type: ignore[assignment]
+        self.frame_generator = parameters["frame_generator"]  # type: ignore[assignment]
+        self.bits_source = parameters["bits_source"]  # type: ignore[assignment]
+        for coding, name in [
+            (self.transmit_symbol_coding, "transmit_symbol_coding"),
+            (self.transmit_signal_coding, "transmit_signal_coding"),
+            (self.receive_symbol_coding, "receive_symbol_coding"),
+            (self.receive_signal_coding, "receive_signal_coding"),
+        ]:
+            for precoder in parameters[name]:  # type: ignore[attr-defined]
+                coding[-1] = precoder
 
     @classmethod
     @override
     def Deserialize(cls: Type[_DJOT], process: DeserializationProcess) -> _DJOT:
-        return cls(**cls._DeserializeParameters(process))  # type: ignore[arg-type]
+        operator = cls(**cls._DeserializeParameters(process))  # type: ignore[arg-type]
+        operator._deserialize_communication(process)
+        return operator
diff --git a/hermespy/jcas/matched_filtering.py b/hermespy/jcas/matched_filtering.py
index 4d245ec..54669ab 100644
--- a/hermespy/jcas/matched_filtering.py
+++ b/hermespy/jcas/matched_filtering.py
@@ -336,18 +336,17 @@ class MatchedFilterJcas(
         process.serialize_floating(self.max_range, "max_range")
         process.serialize_floating(self.max_velocity, "max_velocity")
         process.serialize_floating(self.velocity_resolution, "velocity_resolution")
-        if self.waveform is not None:
-            process.serialize_object(self.waveform, "waveform")
 
     @classmethod
     @override
     def Deserialize(cls, process: DeserializationProcess) -> MatchedFilterJcas:
-        return MatchedFilterJcas(
+        operator = MatchedFilterJcas(
             process.deserialize_floating("max_range"),
-            process.deserialize_object("waveform", CommunicationWaveform, None),
             max_velocity=process.deserialize_floating("max_velocity", cls._DEFAULT_MAX_VELOCITY),
             velocity_resolution=process.deserialize_floating(
                 "velocity_resolution", cls._DEFAULT_VELOCITY_RESOLUTION
             ),
             **cls._DeserializeParameters(process),  # type: ignore[arg-type]
         )
+        operator._deserialize_communication(process)
+        return operator
diff --git a/hermespy/jcas/ofdm_radar.py b/hermespy/jcas/ofdm_radar.py
index d0578f9..3d1ce9a 100644
--- a/hermespy/jcas/ofdm_radar.py
+++ b/hermespy/jcas/ofdm_radar.py
@@ -257,4 +257,6 @@ class OFDMRadar(DuplexJCASOperator[OFDMWaveform], Serializable):
     @classmethod
     @override
     def Deserialize(cls: Type[OFDMRadar], process: DeserializationProcess) -> OFDMRadar:
-        return cls(**cls._DeserializeParameters(process))  # type: ignore[arg-type]
+        operator = cls(**cls._DeserializeParameters(process))  # type: ignore[arg-type]
+        operator._deserialize_communication(process)
+        return operator
-- 
2.43.0


From 6ff6c0ed01fb5a6eb3c027711e1cfa8b0448d444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:26 +0000
Subject: [PATCH 083/105] fix: missing strings were loaded as the text None

---
 hermespy/core/factory.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hermespy/core/factory.py b/hermespy/core/factory.py
index 2a172d1..923955f 100644
--- a/hermespy/core/factory.py
+++ b/hermespy/core/factory.py
@@ -1073,7 +1073,7 @@ class HDFDeserializationProcess(DeserializationProcess):
 
         # If the array does not exist, attempt to return the default value
         if link is None:
-            if default == UNDEF:
+            if default is UNDEF:
                 raise RuntimeError(
                     f"Array '{name}' does not exist in the HDF5 file and no default value was provided"
                 )
@@ -1133,7 +1133,12 @@ class HDFDeserializationProcess(DeserializationProcess):
     @override
     def deserialize_string(self, name: str, default: _RT | UNDEF_TYPE = UNDEF) -> str | _RT:
         deserialization = self.__fetch_attribute(name, default)
-        return default if deserialization is UNDEF else str(deserialization)
+        if deserialization is UNDEF:
+            return default  # type: ignore[return-value]
+        elif isinstance(deserialization, str):
+            return deserialization
+        else:
+            raise RuntimeError(f"Attribute '{name}' is not a string")
 
     @override
     def _deserialize_object(self, name: str, expected_type: Type[_OT], default: _RT) -> _OT | _RT:
-- 
2.43.0


From 0f75ec490a742a8ccf8528340859d756799de9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:25 +0000
Subject: [PATCH 084/105] fix: amplifiers with memory lost their gain and noise
 when stored

---
 hermespy/simulation/rf/blocks/amps.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/hermespy/simulation/rf/blocks/amps.py b/hermespy/simulation/rf/blocks/amps.py
index 30d8da8..f9f4edd 100644
--- a/hermespy/simulation/rf/blocks/amps.py
+++ b/hermespy/simulation/rf/blocks/amps.py
@@ -747,12 +747,19 @@ class MemoryPolynomialPowerAmplifier(PowerAmplifier):
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
+        PowerAmplifier.serialize(self, process)
         process.serialize_array(self.coeff_matrix, "coeff_matrix")
 
     @classmethod
     @override
     def Deserialize(cls, process: DeserializationProcess) -> MemoryPolynomialPowerAmplifier:
-        return cls(process.deserialize_array("coeff_matrix", np.complex128))  # type: ignore
+        return cls(
+            process.deserialize_array("coeff_matrix", np.complex128),  # type: ignore
+            gain=process.deserialize_floating("gain", cls._DEFAULT_GAIN),
+            noise_model=process.deserialize_object("noise_model", NoiseModel, None),
+            noise_level=process.deserialize_object("noise_level", NoiseLevel, None),
+            seed=process.deserialize_integer("seed", None),
+        )
 
 
 class MemoryCTPolynomialPowerAmplifier(PowerAmplifier):
@@ -856,9 +863,16 @@ class MemoryCTPolynomialPowerAmplifier(PowerAmplifier):
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
+        PowerAmplifier.serialize(self, process)
         process.serialize_array(self.coeff_matrix, "coeff_matrix")
 
     @classmethod
     @override
     def Deserialize(cls, process: DeserializationProcess) -> MemoryCTPolynomialPowerAmplifier:
-        return cls(process.deserialize_array("coeff_matrix", np.complex128))  # type: ignore
+        return cls(
+            process.deserialize_array("coeff_matrix", np.complex128),  # type: ignore
+            gain=process.deserialize_floating("gain", cls._DEFAULT_GAIN),
+            noise_model=process.deserialize_object("noise_model", NoiseModel, None),
+            noise_level=process.deserialize_object("noise_level", NoiseLevel, None),
+            seed=process.deserialize_integer("seed", None),
+        )
-- 
2.43.0


From b83da90d56299ab2e12f3848e63044a1f8c25863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:01 +0000
Subject: [PATCH 085/105] fix: modems and radars lost their seed when stored

---
 hermespy/core/device.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hermespy/core/device.py b/hermespy/core/device.py
index 2fbd22b..b57d7fe 100644
--- a/hermespy/core/device.py
+++ b/hermespy/core/device.py
@@ -752,6 +752,8 @@ class Receiver(Generic[ReceptionType], RandomNode, MixingOperator):
             process.serialize_array(
                 np.asarray(self.selected_receive_ports), "selected_receive_ports"
             )
+        if self.seed is not None:
+            process.serialize_integer(self.seed, "seed")
 
     @classmethod
     @override
@@ -760,6 +762,7 @@ class Receiver(Generic[ReceptionType], RandomNode, MixingOperator):
         params["selected_receive_ports"] = process.deserialize_array(
             "selected_receive_ports", np.int64, None
         )  # type: ignore
+        params["seed"] = process.deserialize_integer("seed", None)
         return params
 
 
@@ -1032,6 +1035,8 @@ class Transmitter(Generic[TransmissionType], RandomNode, MixingOperator):
             process.serialize_array(
                 np.asarray(self.selected_transmit_ports), "selected_transmit_ports"
             )
+        if self.seed is not None:
+            process.serialize_integer(self.seed, "seed")
 
     @classmethod
     @override
@@ -1040,6 +1045,7 @@ class Transmitter(Generic[TransmissionType], RandomNode, MixingOperator):
         params["selected_transmit_ports"] = process.deserialize_array(
             "selected_transmit_ports", np.int64, None
         )
+        params["seed"] = process.deserialize_integer("seed", None)
         return params
 
 
-- 
2.43.0


From adc8111274398a172024d5effb44dd76a7db9792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:47 +0000
Subject: [PATCH 086/105] fix: simulated devices lost their antennas,
 trajectory, noise and seed when stored

---
 hermespy/simulation/simulated_device.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/hermespy/simulation/simulated_device.py b/hermespy/simulation/simulated_device.py
index 40b4f87..22e8413 100644
--- a/hermespy/simulation/simulated_device.py
+++ b/hermespy/simulation/simulated_device.py
@@ -52,6 +52,7 @@ from .rf import (
     N0,
     NoiseRealization,
     AWGN,
+    SNR,
 )
 from .isolation import Isolation, PerfectIsolation
 from .coupling import Coupling, PerfectCoupling
@@ -2075,12 +2076,17 @@ class SimulatedDevice(Device[SimulatedDeviceState], Moveable):
     @override
     def serialize(self, process: SerializationProcess) -> None:
         Device.serialize(self, process)
+        if self.seed is not None:
+            process.serialize_integer(self.seed, "seed")
+        process.serialize_object(self.trajectory, "trajectory")
+        process.serialize_object(self.antennas, "antennas")
         process.serialize_object(self.rf, "rf")
         process.serialize_object(self.isolation, "isolation")
         process.serialize_object(self.coupling, "coupling")
         process.serialize_object(self.trigger_model, "trigger_model")
-        # Note: Deactivated due to circular dependency
-        # process.serialize_object(self.noise_level, "noise_level")
+        # Note: Signal-to-noise ratios are skipped due to their circular dependency
+        if not isinstance(self.noise_level, SNR):
+            process.serialize_object(self.noise_level, "noise_level")
         process.serialize_object(self.noise_model, "noise_model")  # type: ignore[operator]
         process.serialize_floating(self.carrier_frequency, "carrier_frequency")
         process.serialize_floating(self.bandwidth, "bandwidth")
@@ -2093,6 +2099,10 @@ class SimulatedDevice(Device[SimulatedDeviceState], Moveable):
         base_parameters = Device._DeserializeParameters(process)
         base_parameters.update(
             {
+                "seed": process.deserialize_integer("seed", None),
+                "pose": process.deserialize_object(
+                    "trajectory", Trajectory, base_parameters["pose"]
+                ),
                 "antennas": process.deserialize_object("antennas", SimulatedAntennaArray, None),
                 "rf": process.deserialize_object("rf", RFChain, None),
                 "isolation": process.deserialize_object("isolation", Isolation, None),
-- 
2.43.0


From 63a9052a770a31b41e80f8fa4ecfced9a96cd65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:17 +0000
Subject: [PATCH 087/105] fix: mapped pilot sequences lost their type and
 mapping when stored

---
 hermespy/modem/waveform.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/hermespy/modem/waveform.py b/hermespy/modem/waveform.py
index 09e9639..9515b3f 100644
--- a/hermespy/modem/waveform.py
+++ b/hermespy/modem/waveform.py
@@ -748,6 +748,8 @@ class CustomPilotSymbolSequence(PilotSymbolSequence):
 class MappedPilotSymbolSequence(CustomPilotSymbolSequence):
     """Pilot symbol sequence derived from a mapping."""
 
+    __mapping: PskQamMapping
+
     def __init__(self, mapping: PskQamMapping) -> None:
         """
 
@@ -756,6 +758,16 @@ class MappedPilotSymbolSequence(CustomPilotSymbolSequence):
         """
 
         CustomPilotSymbolSequence.__init__(self, mapping.get_mapping())
+        self.__mapping = mapping
+
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        process.serialize_object(self.__mapping, "mapping")
+
+    @override
+    @classmethod
+    def Deserialize(cls, process: DeserializationProcess) -> MappedPilotSymbolSequence:
+        return cls(process.deserialize_object("mapping", PskQamMapping))
 
 
 class ConfigurablePilotWaveform(PilotCommunicationWaveform):
-- 
2.43.0


From 7d1e059434d6ea5ea0752bd86530ecdf83755f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:46 +0000
Subject: [PATCH 088/105] fix: waveforms lost their pilot sequences when stored

---
 hermespy/modem/waveform.py                      | 8 ++++++++
 hermespy/modem/waveform_single_carrier.py       | 6 ++++++
 hermespy/modem/waveforms/orthogonal/waveform.py | 6 ++++++
 3 files changed, 20 insertions(+)

diff --git a/hermespy/modem/waveform.py b/hermespy/modem/waveform.py
index 9515b3f..9f28aac 100644
--- a/hermespy/modem/waveform.py
+++ b/hermespy/modem/waveform.py
@@ -830,3 +830,11 @@ class ConfigurablePilotWaveform(PilotCommunicationWaveform):
             symbol_sequence = np.tile(symbol_sequence, num_repetitions)
 
         return symbol_sequence[:num_symbols]
+
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        PilotCommunicationWaveform.serialize(self, process)
+        process.serialize_object(self.pilot_symbol_sequence, "pilot_symbol_sequence")
+        process.serialize_integer(
+            int(self.repeat_pilot_symbol_sequence), "repeat_pilot_symbol_sequence"
+        )
diff --git a/hermespy/modem/waveform_single_carrier.py b/hermespy/modem/waveform_single_carrier.py
index 9f3ce05..ca18558 100644
--- a/hermespy/modem/waveform_single_carrier.py
+++ b/hermespy/modem/waveform_single_carrier.py
@@ -474,6 +474,12 @@ class FilteredSingleCarrierWaveform(ConfigurablePilotWaveform):
         parameters["pilot_rate"] = process.deserialize_integer(
             "pilot_rate", cls.__DEFAULT_PILOT_RATE
         )
+        parameters["pilot_symbol_sequence"] = process.deserialize_object(
+            "pilot_symbol_sequence", PilotSymbolSequence, None
+        )
+        parameters["repeat_pilot_symbol_sequence"] = bool(
+            process.deserialize_integer("repeat_pilot_symbol_sequence", 1)
+        )
         return parameters
 
     @override
diff --git a/hermespy/modem/waveforms/orthogonal/waveform.py b/hermespy/modem/waveforms/orthogonal/waveform.py
index 9e857f6..97b2ad1 100644
--- a/hermespy/modem/waveforms/orthogonal/waveform.py
+++ b/hermespy/modem/waveforms/orthogonal/waveform.py
@@ -1365,6 +1365,12 @@ class OrthogonalWaveform(ConfigurablePilotWaveform, ABC):
                     "grid_structure", GridSection
                 ),
                 "pilot_section": process.deserialize_object("pilot_section", PilotSection, None),
+                "pilot_sequence": process.deserialize_object(
+                    "pilot_symbol_sequence", PilotSymbolSequence, None
+                ),
+                "repeat_pilot_sequence": bool(
+                    process.deserialize_integer("repeat_pilot_symbol_sequence", 1)
+                ),
             }
         )
         return params
-- 
2.43.0


From a7b89976a7ba966832864835eea9c8989fd2a377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:57 +0000
Subject: [PATCH 089/105] fix: objects were loaded twice if their links were
 read before them

---
 hermespy/core/factory.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hermespy/core/factory.py b/hermespy/core/factory.py
index 923955f..a75332a 100644
--- a/hermespy/core/factory.py
+++ b/hermespy/core/factory.py
@@ -1162,6 +1162,10 @@ class HDFDeserializationProcess(DeserializationProcess):
         else:
             object_group = self.__group[name]
 
+            # The object might have already been deserialized via a link stored elsewhere
+            if object_group.name in self.__objects:
+                return self.__objects[object_group.name]  # type: ignore[return-value]
+
         # Get the object's type
         object_type: str | None = object_group.attrs.get("type", default=None)
         if object_type is None:
-- 
2.43.0


From 11fbf27d8a003e35c9962be072c9c75bc344d048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:57 +0000
Subject: [PATCH 090/105] fix: short signals failed to pass oversampled
 radio-frequency blocks

---
 hermespy/simulation/rf/block.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hermespy/simulation/rf/block.py b/hermespy/simulation/rf/block.py
index e04281c..0ae40a5 100644
--- a/hermespy/simulation/rf/block.py
+++ b/hermespy/simulation/rf/block.py
@@ -212,13 +212,13 @@ class RFBlock(ABC, Generic[RFBRT], RandomNode, Serializable):
             )
 
             # Append zeros to the propagated signal if it is too short to be filtered with the anti-aliasing filter
-            if propagated_signal.num_samples < (antialiasing_filter_sos.shape[1] + 1) * 4:
+            min_num_samples = 3 * (2 * antialiasing_filter_sos.shape[0] + 1) + 1
+            if propagated_signal.num_samples < min_num_samples:
                 padded_samples = propagated_signal.append_samples(
                     np.zeros(
                         (
                             propagated_signal.num_streams,
-                            (antialiasing_filter_sos.shape[1] + 1) * 4
-                            - propagated_signal.num_samples,
+                            min_num_samples - propagated_signal.num_samples,
                         ),
                         dtype=np.complex128,
                     )
-- 
2.43.0


From ac11975f5ce0e7a2d1b84234600f253e311ec61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:48 +0000
Subject: [PATCH 091/105] fix: radio-frequency signals lost their noise power
 when stored

---
 hermespy/simulation/rf/signal.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hermespy/simulation/rf/signal.py b/hermespy/simulation/rf/signal.py
index a643ef0..be73074 100644
--- a/hermespy/simulation/rf/signal.py
+++ b/hermespy/simulation/rf/signal.py
@@ -287,6 +287,8 @@ class RFSignal(DenseSignal):
         process.serialize_floating(self.sampling_rate, "sampling_rate")
         process.serialize_array(self.carrier_frequencies, "carrier_frequencies")
         process.serialize_array(self.noise_powers, "noise_powers")
+        process.serialize_floating(self.carrier_frequency, "carrier_frequency")
+        process.serialize_floating(self.noise_power, "noise_power")
         process.serialize_floating(self.delay, "delay")
 
     @classmethod
@@ -298,7 +300,7 @@ class RFSignal(DenseSignal):
         noise_powers = process.deserialize_array("noise_powers", dtype=np.float64)
         delay = process.deserialize_floating("delay", 0.0)
 
-        return cls(
+        signal = cls(
             samples.shape[0],
             samples.shape[1],
             sampling_rate,
@@ -307,3 +309,8 @@ class RFSignal(DenseSignal):
             delay,
             buffer=samples.tobytes(),
         )
+        signal.carrier_frequency = process.deserialize_floating(
+            "carrier_frequency", signal.carrier_frequency
+        )
+        signal.noise_power = process.deserialize_floating("noise_power", signal.noise_power)
+        return signal
-- 
2.43.0


From 2fd87f44af4671fb19baaeb19e487836874b6f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:18 +0000
Subject: [PATCH 092/105] fix: simulation scenarios lost their channels, noise
 and seed when stored

---
 hermespy/simulation/scenario.py | 39 +++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/hermespy/simulation/scenario.py b/hermespy/simulation/scenario.py
index b7bd098..bd8490e 100644
--- a/hermespy/simulation/scenario.py
+++ b/hermespy/simulation/scenario.py
@@ -13,11 +13,13 @@ from mpl_toolkits.mplot3d.art3d import Line3DCollection  # type: ignore
 
 from hermespy.channel import Channel, ChannelRealization, ChannelSample, IdealChannel
 from hermespy.core import (
+    DeserializationProcess,
     DeviceInput,
     DeviceOutput,
     InterpolationMode,
     register,
     Scenario,
+    SerializationProcess,
     Signal,
     Transmission,
     VAT,
@@ -803,6 +805,43 @@ class SimulationScenario(Scenario[SimulatedDevice, SimulatedDeviceState, Simulat
 
         return drops[0] if len(drops) < 2 else drops
 
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        Scenario.serialize(self, process)
+        if self.seed is not None:
+            process.serialize_integer(self.seed, "seed")
+        if self.noise_level is not None:
+            process.serialize_object(self.noise_level, "noise_level")
+        if self.noise_model is not None:
+            process.serialize_object(self.noise_model, "noise_model")
+        process.serialize_object(self.__default_channel, "default_channel")
+
+        # Serialize the links as equally sized sequences of device pairs and their channels
+        links = [(list(devices), channel) for devices, channel in self.__links.items()]
+        process.serialize_object_sequence([devices[0] for devices, _ in links], "link_alphas")
+        process.serialize_object_sequence([devices[-1] for devices, _ in links], "link_betas")
+        process.serialize_object_sequence([channel for _, channel in links], "link_channels")
+
+    @override
+    @classmethod
+    def Deserialize(cls, process: DeserializationProcess) -> SimulationScenario:
+        scenario = cls(
+            process.deserialize_object("default_channel", Channel, None),
+            seed=process.deserialize_integer("seed", None),
+            devices=process.deserialize_object_sequence("devices", SimulatedDevice),
+        )
+        scenario.noise_level = process.deserialize_object("noise_level", NoiseLevel, None)  # type: ignore[operator]
+        scenario.noise_model = process.deserialize_object("noise_model", NoiseModel, None)  # type: ignore[operator]
+
+        for alpha, beta, channel in zip(
+            process.deserialize_object_sequence("link_alphas", SimulatedDevice),
+            process.deserialize_object_sequence("link_betas", SimulatedDevice),
+            process.deserialize_object_sequence("link_channels", Channel),
+        ):
+            scenario.set_channel(alpha, beta, channel)
+
+        return scenario
+
     @property
     def visualize(self) -> _ScenarioVisualizer:
         return self.__visualizer
-- 
2.43.0


From 5d3847c95719e763e09b549952ea9350a206c9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:32 +0000
Subject: [PATCH 093/105] fix: disabled encoders were enabled once stored and
 loaded

---
 hermespy/fec/coding.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hermespy/fec/coding.py b/hermespy/fec/coding.py
index 43c127b..650cd25 100644
--- a/hermespy/fec/coding.py
+++ b/hermespy/fec/coding.py
@@ -466,6 +466,9 @@ class EncoderManager(RandomNode, Serializable):
     @override
     def serialize(self, process: SerializationProcess) -> None:
         process.serialize_object_sequence(self._encoders, "encoders")
+        process.serialize_array(
+            np.array([encoder.enabled for encoder in self._encoders], dtype=np.int64), "enabled"
+        )
         process.serialize_integer(int(self.allow_padding), "allow_padding")
         process.serialize_integer(int(self.allow_truncating), "allow_truncating")
 
@@ -477,6 +480,8 @@ class EncoderManager(RandomNode, Serializable):
             bool(process.deserialize_integer("allow_truncating", True)),
         )
         encoders = process.deserialize_object_sequence("encoders", Encoder)
-        for encoder in encoders:
+        enabled = process.deserialize_array("enabled", np.int64, np.ones(len(encoders), np.int64))
+        for encoder, flag in zip(encoders, enabled):
+            encoder.enabled = bool(flag)
             manager.add_encoder(encoder)
         return manager
-- 
2.43.0


From 8bef014a6f864eec0aca1670bb973b887ecb1520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:43 +0000
Subject: [PATCH 094/105] fix: signal-to-noise ratios lost their channel and
 those of devices were not stored

---
 hermespy/simulation/rf/noise/level.py   |  8 +++++++-
 hermespy/simulation/simulated_device.py | 13 +++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/hermespy/simulation/rf/noise/level.py b/hermespy/simulation/rf/noise/level.py
index 5b1c4e4..9ee1bdc 100644
--- a/hermespy/simulation/rf/noise/level.py
+++ b/hermespy/simulation/rf/noise/level.py
@@ -203,6 +203,7 @@ class SNR(NoiseLevel):
     __snr: float
     __reference: Device | Transmitter | Receiver
     __expected_channel_scale: float
+    __channel: Channel | None
 
     def __init__(
         self, snr: float, reference: Device | Transmitter | Receiver, channel: Channel | None = None
@@ -227,6 +228,7 @@ class SNR(NoiseLevel):
         self.snr = snr
         self.reference = reference
         self.__expected_channel_scale = 1.0
+        self.__channel = channel
 
         if channel is not None:
             channel.add_sample_hook(self.__update_expected_channel_scale)
@@ -296,10 +298,14 @@ class SNR(NoiseLevel):
     def serialize(self, process: SerializationProcess) -> None:
         process.serialize_floating(self.snr, "snr")
         process.serialize_object(self.reference, "reference")
+        if self.__channel is not None:
+            process.serialize_object(self.__channel, "channel")
 
     @classmethod
     @override
     def Deserialize(cls, process: DeserializationProcess) -> SNR:
         return cls(
-            process.deserialize_floating("snr"), process.deserialize_object("reference", Device)
+            process.deserialize_floating("snr"),
+            process.deserialize_object("reference", Serializable),  # type: ignore[type-abstract]
+            process.deserialize_object("channel", Channel, None),  # type: ignore[type-abstract]
         )
diff --git a/hermespy/simulation/simulated_device.py b/hermespy/simulation/simulated_device.py
index 22e8413..3442e2c 100644
--- a/hermespy/simulation/simulated_device.py
+++ b/hermespy/simulation/simulated_device.py
@@ -2084,9 +2084,11 @@ class SimulatedDevice(Device[SimulatedDeviceState], Moveable):
         process.serialize_object(self.isolation, "isolation")
         process.serialize_object(self.coupling, "coupling")
         process.serialize_object(self.trigger_model, "trigger_model")
-        # Note: Signal-to-noise ratios are skipped due to their circular dependency
+        # Note: Signal-to-noise ratios referring to devices are circular dependencies
         if not isinstance(self.noise_level, SNR):
             process.serialize_object(self.noise_level, "noise_level")
+        elif self.noise_level.reference is self:
+            process.serialize_floating(self.noise_level.snr, "snr")
         process.serialize_object(self.noise_model, "noise_model")  # type: ignore[operator]
         process.serialize_floating(self.carrier_frequency, "carrier_frequency")
         process.serialize_floating(self.bandwidth, "bandwidth")
@@ -2130,4 +2132,11 @@ class SimulatedDevice(Device[SimulatedDeviceState], Moveable):
     @override
     def Deserialize(cls, process: DeserializationProcess) -> SimulatedDevice:
         parameters = cls._DeserializeParameters(process)
-        return cls(**parameters)  # type: ignore[arg-type]
+        device = cls(**parameters)  # type: ignore[arg-type]
+
+        # Restore signal-to-noise ratios referring to the device itself
+        snr = process.deserialize_floating("snr", 0.0)
+        if snr > 0.0:
+            device.noise_level = SNR(snr, device)
+
+        return device
-- 
2.43.0


From a3ec908221a82a38336c73da6bcebe6f4b1f6a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:26 +0000
Subject: [PATCH 095/105] fix: receiver operating characteristics and root mean
 square errors could not be stored

---
 hermespy/radar/evaluators.py | 42 +++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/hermespy/radar/evaluators.py b/hermespy/radar/evaluators.py
index cb354ea..e4cfd1b 100644
--- a/hermespy/radar/evaluators.py
+++ b/hermespy/radar/evaluators.py
@@ -52,7 +52,7 @@ from abc import ABC
 from collections.abc import Sequence
 from itertools import product
 from typing import Type
-from typing_extensions import override
+from typing_extensions import override, Self
 
 import numpy as np
 from matplotlib.axes import Axes
@@ -280,6 +280,34 @@ class RadarEvaluator(Evaluator, ABC):
     def __del__(self) -> None:
         self.__receive_hook.remove()
 
+    def serialize(self, process: SerializationProcess) -> None:
+        process.serialize_object(self.transmitting_device, "transmitting_device")
+        process.serialize_object(self.receiving_device, "receiving_device")
+        process.serialize_object(self.receiving_radar, "receiving_radar")
+        process.serialize_object(self.radar_channel, "radar_channel")
+        process.serialize_string(self.plot_scale, "plot_scale")
+        process.serialize_string(self.tick_format.name, "tick_format")
+
+    @classmethod
+    def _DeserializeParameters(cls, process: DeserializationProcess) -> dict[str, object]:
+        return {
+            "transmitting_device": process.deserialize_object(
+                "transmitting_device", SimulatedDevice
+            ),
+            "receiving_device": process.deserialize_object("receiving_device", SimulatedDevice),
+            "receiving_radar": process.deserialize_object("receiving_radar", Radar),
+            "radar_channel": process.deserialize_object("radar_channel", RadarChannelBase),  # type: ignore[type-abstract]
+        }
+
+    @classmethod
+    def Deserialize(cls, process: DeserializationProcess) -> Self:
+        evaluator = cls(**cls._DeserializeParameters(process))  # type: ignore[arg-type]
+        evaluator.plot_scale = process.deserialize_string("plot_scale", evaluator.plot_scale)
+        evaluator.tick_format = ValueType[
+            process.deserialize_string("tick_format", evaluator.tick_format.name)
+        ]
+        return evaluator
+
 
 class DetectionProbArtifact(ArtifactTemplate[bool]):
     """Artifacto of the probability of detection for a radar detector.
@@ -718,6 +746,18 @@ class ReceiverOperatingCharacteristic(RadarEvaluator, Serializable):
 
         self.__input = input
 
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        RadarEvaluator.serialize(self, process)
+        process.serialize_integer(self.__num_thresholds, "num_thresholds")
+
+    @classmethod
+    @override
+    def _DeserializeParameters(cls, process: DeserializationProcess) -> dict[str, object]:
+        parameters = RadarEvaluator._DeserializeParameters(process)
+        parameters["num_thresholds"] = process.deserialize_integer("num_thresholds", 101)
+        return parameters
+
     def __output_callback(self, output: SimulatedDeviceOutput) -> None:
         """Callback notificying the evaluator of newly generated device outputs.
 
-- 
2.43.0


From cd8b52e8ce447c01ae629e1a3626d92dc3185ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:44 +0000
Subject: [PATCH 096/105] fix: scalar parameters of stored radio-frequency
 signals changed their type when loaded

---
 hermespy/simulation/rf/signal.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/hermespy/simulation/rf/signal.py b/hermespy/simulation/rf/signal.py
index be73074..a58f392 100644
--- a/hermespy/simulation/rf/signal.py
+++ b/hermespy/simulation/rf/signal.py
@@ -287,8 +287,9 @@ class RFSignal(DenseSignal):
         process.serialize_floating(self.sampling_rate, "sampling_rate")
         process.serialize_array(self.carrier_frequencies, "carrier_frequencies")
         process.serialize_array(self.noise_powers, "noise_powers")
-        process.serialize_floating(self.carrier_frequency, "carrier_frequency")
-        process.serialize_floating(self.noise_power, "noise_power")
+        process.serialize_array(
+            np.array([self.carrier_frequency, self.noise_power], dtype=np.float64), "scalars"
+        )
         process.serialize_floating(self.delay, "delay")
 
     @classmethod
@@ -309,8 +310,12 @@ class RFSignal(DenseSignal):
             delay,
             buffer=samples.tobytes(),
         )
-        signal.carrier_frequency = process.deserialize_floating(
-            "carrier_frequency", signal.carrier_frequency
+
+        # Restore scalar parameters, which may deviate from the ones of the first stream
+        scalars = process.deserialize_array(
+            "scalars", np.float64, np.array([signal.carrier_frequency, signal.noise_power])
         )
-        signal.noise_power = process.deserialize_floating("noise_power", signal.noise_power)
+        signal.carrier_frequency = scalars[0]
+        signal.noise_power = scalars[1]
+
         return signal
-- 
2.43.0


From 277cebdee847179c621a57c2d815986e3529fa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:16 +0000
Subject: [PATCH 097/105] fix: X410 radio-frequency presets lost their channels
 and gains when stored

---
 hermespy/simulation/rf/presets/ettus/x410.py | 22 +++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/hermespy/simulation/rf/presets/ettus/x410.py b/hermespy/simulation/rf/presets/ettus/x410.py
index 53d85a3..71d0a03 100644
--- a/hermespy/simulation/rf/presets/ettus/x410.py
+++ b/hermespy/simulation/rf/presets/ettus/x410.py
@@ -71,6 +71,11 @@ class X410(RFChain):
 
         # Initialize class attributes
         self.__carrier_frequency = carrier_frequency
+        self.__num_tx_channels = num_tx_channels
+        self.__num_rx_channels = num_rx_channels
+        self.__tx_gain = tx_gain
+        self.__rx_gain = rx_gain
+        self.__phase_noise = phase_noise
 
         # Build the phase noise model
         pn: OscillatorPhaseNoise | None = None
@@ -105,12 +110,23 @@ class X410(RFChain):
     @override
     def serialize(self, process: SerializationProcess) -> None:
         process.serialize_floating(self.__carrier_frequency, "carrier_frequency")
+        process.serialize_integer(self.__num_tx_channels, "num_tx_channels")
+        process.serialize_integer(self.__num_rx_channels, "num_rx_channels")
+        process.serialize_floating(self.__tx_gain, "tx_gain")
+        process.serialize_floating(self.__rx_gain, "rx_gain")
+        process.serialize_integer(int(self.__phase_noise), "phase_noise")
         if self.seed is not None:
             process.serialize_integer(self.seed, "seed")
 
     @classmethod
     @override
     def Deserialize(cls: type[X410], process: DeserializationProcess) -> X410:
-        carrier_frequency = process.deserialize_floating("carrier_frequency")
-        seed = process.deserialize_integer("seed", None)
-        return cls(carrier_frequency=carrier_frequency, seed=seed)
+        return cls(
+            process.deserialize_floating("carrier_frequency"),
+            process.deserialize_integer("num_tx_channels", 1),
+            process.deserialize_integer("num_rx_channels", 1),
+            process.deserialize_floating("tx_gain", db2lin(30)),
+            process.deserialize_floating("rx_gain", db2lin(30)),
+            bool(process.deserialize_integer("phase_noise", True)),
+            process.deserialize_integer("seed", None),
+        )
-- 
2.43.0


From 4f563c1dca957eb87fe1ab45eef9cd367b6f439e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:29 +0000
Subject: [PATCH 098/105] fix: 5G NR waveforms and links lost most of their
 configuration when stored

---
 hermespy/modem/ieee_5gnr.py           | 23 ++++-------------------
 hermespy/modem/waveforms/ieee_5gnr.py | 11 ++++++++---
 2 files changed, 12 insertions(+), 22 deletions(-)

diff --git a/hermespy/modem/ieee_5gnr.py b/hermespy/modem/ieee_5gnr.py
index ce081ee..6161a20 100644
--- a/hermespy/modem/ieee_5gnr.py
+++ b/hermespy/modem/ieee_5gnr.py
@@ -5,8 +5,6 @@ from os.path import abspath, dirname, join
 from typing import Sequence, Type
 from typing_extensions import override
 
-import numpy as np
-
 # Attempt import LDPC channel coding. Might not be available on Windows
 try:
     from hermespy.fec import LDPCCoding  # type: ignore
@@ -111,20 +109,7 @@ class NRSlotLink(SimplexLink):
     @classmethod
     def Deserialize(cls: Type[NRSlotLink], process: DeserializationProcess) -> NRSlotLink:
         slot = process.deserialize_object("waveform", NRSlot)
-        selected_transmit_ports = process.deserialize_array(
-            "selected_transmit_ports", np.int64, None
-        )
-        selected_receive_ports = process.deserialize_array("selected_receive_ports", np.int64, None)
-        return NRSlotLink(
-            num_resource_blocks=slot.num_resource_blocks,
-            selected_transmit_ports=(
-                selected_transmit_ports.tolist() if selected_transmit_ports else None
-            ),
-            selected_receive_ports=(
-                selected_receive_ports.tolist() if selected_receive_ports else None
-            ),
-            carrier_frequency=process.deserialize_floating("carrier_frequency", None),
-            bits_source=process.deserialize_object("bits_source", BitsSource),
-            frame_generator=process.deserialize_object("frame_generator", FrameGenerator),
-            seed=process.deserialize_integer("seed", None),
-        )
+        link = cls(num_resource_blocks=slot.num_resource_blocks)
+        link.__slot = slot
+        SimplexLink.__init__(link, **SimplexLink._DeserializeParameters(process))  # type: ignore[arg-type]
+        return link
diff --git a/hermespy/modem/waveforms/ieee_5gnr.py b/hermespy/modem/waveforms/ieee_5gnr.py
index 2ba516b..b55dd18 100644
--- a/hermespy/modem/waveforms/ieee_5gnr.py
+++ b/hermespy/modem/waveforms/ieee_5gnr.py
@@ -242,16 +242,19 @@ class NRSlot(OFDMWaveform):
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
+        OFDMWaveform.serialize(self, process)
         process.serialize_integer(self.num_resource_blocks, "num_resource_blocks")
 
     @override
     @classmethod
     def Deserialize(cls: Type[NRSlot], process: DeserializationProcess) -> NRSlot:
-        return cls(
+        slot = cls(
             num_resource_blocks=process.deserialize_integer(
                 "num_resource_blocks", IEEE_5GNR_MIN_NUM_RBS
             )
         )
+        OFDMWaveform.__init__(slot, **OFDMWaveform._DeserializeParameters(process))
+        return slot
 
 
 class NRSubframe(NRSlot):
@@ -325,18 +328,20 @@ class NRSubframe(NRSlot):
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
+        NRSlot.serialize(self, process)
         process.serialize_integer(self.numerology, "numerology")
-        process.serialize_integer(self.num_resource_blocks, "num_resource_blocks")
 
     @override
     @classmethod
     def Deserialize(cls: Type[NRSubframe], process: DeserializationProcess) -> NRSubframe:
-        return cls(
+        subframe = cls(
             numerology=process.deserialize_integer("numerology", 0),
             num_resource_blocks=process.deserialize_integer(
                 "num_resource_blocks", IEEE_5GNR_MIN_NUM_RBS
             ),
         )
+        OFDMWaveform.__init__(subframe, **OFDMWaveform._DeserializeParameters(process))
+        return subframe
 
 
 class NRFrame(NRSubframe):
-- 
2.43.0


From e03541c91ac223c1d38d5204ef8c98b274fa6a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:01 +0000
Subject: [PATCH 099/105] fix: TI radar presets were loaded as plain chains of
 their blocks

---
 hermespy/simulation/rf/presets/ti/xwr1843.py | 39 +++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/hermespy/simulation/rf/presets/ti/xwr1843.py b/hermespy/simulation/rf/presets/ti/xwr1843.py
index 6f3831e..2275406 100644
--- a/hermespy/simulation/rf/presets/ti/xwr1843.py
+++ b/hermespy/simulation/rf/presets/ti/xwr1843.py
@@ -8,7 +8,14 @@ from scipy.constants import speed_of_light
 from scipy.fft import fft2, fftshift
 from scipy.signal import resample
 
-from hermespy.core import TransmitState, ReceiveState, DenseSignal, Signal
+from hermespy.core import (
+    DenseSignal,
+    DeserializationProcess,
+    ReceiveState,
+    SerializationProcess,
+    Signal,
+    TransmitState,
+)
 from hermespy.radar.fmcw import RadarWaveform
 from ... import (
     RampGenerator,
@@ -80,6 +87,12 @@ class TIXWR1843(RadarWaveform, RFChain):
         RFChain.__init__(self, seed)
 
         # Initialize parameters
+        self.__carrier_frequency = carrier_frequency
+        self.__num_chirps = num_chirps
+        self.__chirp_bandwidth = chirp_bandwidth
+        self.__chirp_slope = chirp_slope
+        self.__chirp_interval = chirp_interval
+        self.__hpf_cutoff = hpf_cutoff
         self.ramp = RampGenerator(
             num_chirps=num_chirps,
             chirp_bandwidth=chirp_bandwidth,
@@ -231,3 +244,27 @@ class TIXWR1843(RadarWaveform, RFChain):
             np.arange(self.ramp.num_chirps) * self.relative_doppler_resolution
             - self.max_relative_doppler
         )
+
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        process.serialize_floating(self.__carrier_frequency, "carrier_frequency")
+        process.serialize_integer(self.__num_chirps, "num_chirps")
+        process.serialize_floating(self.__chirp_bandwidth, "chirp_bandwidth")
+        process.serialize_floating(self.__chirp_slope, "chirp_slope")
+        process.serialize_floating(self.__chirp_interval, "chirp_interval")
+        process.serialize_floating(self.__hpf_cutoff, "hpf_cutoff")
+        if self.seed is not None:
+            process.serialize_integer(self.seed, "seed")
+
+    @classmethod
+    @override
+    def Deserialize(cls: type[TIXWR1843], process: DeserializationProcess) -> TIXWR1843:
+        return cls(
+            process.deserialize_floating("carrier_frequency"),
+            process.deserialize_integer("num_chirps"),
+            process.deserialize_floating("chirp_bandwidth"),
+            process.deserialize_floating("chirp_slope"),
+            process.deserialize_floating("chirp_interval"),
+            process.deserialize_floating("hpf_cutoff"),
+            process.deserialize_integer("seed", None),
+        )
-- 
2.43.0


From f2ec862623e375eb960ddf27e34a810805ba3e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:29 +0000
Subject: [PATCH 100/105] fix: bit and symbol energy noise levels could not be
 loaded

---
 hermespy/simulation/modem/noise.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/hermespy/simulation/modem/noise.py b/hermespy/simulation/modem/noise.py
index ca4539c..a9a7633 100644
--- a/hermespy/simulation/modem/noise.py
+++ b/hermespy/simulation/modem/noise.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 from typing_extensions import override
 
+from hermespy.core import DeserializationProcess, Serializable, SerializationProcess
 from hermespy.modem import BaseModem, CommunicationWaveform
 from ..rf.noise import NoiseLevel
 
@@ -89,6 +90,19 @@ class CommunicationNoiseLevel(NoiseLevel):
                 )
             return self.reference.waveform
 
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        process.serialize_floating(self.level, "level")
+        process.serialize_object(self.reference, "reference")
+
+    @classmethod
+    @override
+    def Deserialize(cls, process: DeserializationProcess) -> CommunicationNoiseLevel:
+        return cls(
+            process.deserialize_object("reference", Serializable),  # type: ignore[type-abstract]
+            process.deserialize_floating("level"),
+        )
+
 
 class EBN0(CommunicationNoiseLevel):
     """Fixed noise power configuration."""
-- 
2.43.0


From c237c1b68f4583dd661c2e73fb6718799113bdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:52 +0000
Subject: [PATCH 101/105] fix: scramblers lost their seed when stored, reduced
 to the lines required

---
 hermespy/fec/scrambler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hermespy/fec/scrambler.py b/hermespy/fec/scrambler.py
index 22f4ca5..37e3654 100644
--- a/hermespy/fec/scrambler.py
+++ b/hermespy/fec/scrambler.py
@@ -150,10 +150,11 @@ class Scrambler3GPP(Encoder, Serializable):
         Encoder.__init__(self)
 
         # Initialize the pseudo random number generator
-        self.__seed = self.__default_seed.copy() if seed is None else seed
+        seed = self.__default_seed.copy() if seed is None else seed
+        self.__seed = seed
 
-        self.__transmit_rng = PseudoRandomGenerator(self.__seed)
-        self.__receive_rng = PseudoRandomGenerator(self.__seed)
+        self.__transmit_rng = PseudoRandomGenerator(seed)
+        self.__receive_rng = PseudoRandomGenerator(seed)
 
     def encode(self, data: np.ndarray) -> np.ndarray:
         codeword = self.__transmit_rng.generate_sequence(data.shape[0])
-- 
2.43.0


From 5044dd9597be76c758228340aa7caed76f39148c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:52 +0000
Subject: [PATCH 102/105] fix: element counts of stored uniform antenna arrays
 were loaded as floats

---
 hermespy/core/antennas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/core/antennas.py b/hermespy/core/antennas.py
index ad806ea..86ce1ff 100644
--- a/hermespy/core/antennas.py
+++ b/hermespy/core/antennas.py
@@ -1419,7 +1419,7 @@ class UniformArray(Generic[AT], AntennaArray[AT], Serializable):
     def Deserialize(cls, process: DeserializationProcess) -> UniformArray:
         pose = process.deserialize_array("pose", np.float64).view(Transformation)
         spacing = process.deserialize_floating("spacing")
-        dimensions = process.deserialize_array("dimensions", np.float64).flatten().tolist()
+        dimensions = process.deserialize_array("dimensions", np.int64).flatten().tolist()
         element = process.deserialize_object("element", Antenna)
         return cls(element, spacing, dimensions, pose)  # type: ignore[arg-type]
 
-- 
2.43.0


From e7df52d269454dcf520b8977b1ec94fc2765a7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:52 +0000
Subject: [PATCH 103/105] fix: line of sight angle of hilly COST 259 channels
 changed its type when loaded

---
 hermespy/channel/fading/cost259.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/channel/fading/cost259.py b/hermespy/channel/fading/cost259.py
index 3474691..08619ac 100644
--- a/hermespy/channel/fading/cost259.py
+++ b/hermespy/channel/fading/cost259.py
@@ -199,7 +199,7 @@ class Cost259(MultipathFadingChannel):
                 ]
             )
             rice_factors = np.hstack([np.array([np.inf]), np.zeros(delays.size - 1)])
-            los_angle = np.arccos(0.7)
+            los_angle = float(np.arccos(0.7))
 
         else:
             raise ValueError("Requested model type not supported")
-- 
2.43.0


From aa5a15da039ec9554faee2b687fc3583a95c3b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:52 +0000
Subject: [PATCH 104/105] fix: dummy scenarios could not be loaded with the
 default channel

---
 hermespy/simulation/scenario.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hermespy/simulation/scenario.py b/hermespy/simulation/scenario.py
index bd8490e..f271d61 100644
--- a/hermespy/simulation/scenario.py
+++ b/hermespy/simulation/scenario.py
@@ -826,10 +826,13 @@ class SimulationScenario(Scenario[SimulatedDevice, SimulatedDeviceState, Simulat
     @classmethod
     def Deserialize(cls, process: DeserializationProcess) -> SimulationScenario:
         scenario = cls(
-            process.deserialize_object("default_channel", Channel, None),
             seed=process.deserialize_integer("seed", None),
             devices=process.deserialize_object_sequence("devices", SimulatedDevice),
         )
+        scenario.__default_channel = process.deserialize_object(
+            "default_channel", Channel, scenario.__default_channel
+        )
+        scenario.__channels = [scenario.__default_channel]
         scenario.noise_level = process.deserialize_object("noise_level", NoiseLevel, None)  # type: ignore[operator]
         scenario.noise_model = process.deserialize_object("noise_model", NoiseModel, None)  # type: ignore[operator]
 
-- 
2.43.0


From ab65a0d7c2f0793ed3011856dd9bb040eae00af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:50 +0000
Subject: [PATCH 105/105] fix: silent sparse signals lost their streams

---
 hermespy/core/signal_model.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hermespy/core/signal_model.py b/hermespy/core/signal_model.py
index 1675592..9e5f869 100644
--- a/hermespy/core/signal_model.py
+++ b/hermespy/core/signal_model.py
@@ -1671,7 +1671,10 @@ class SparseSignal(Signal):
         # Initialize blocks
         # Note that this assumes that sequences of blocks or arrays are already sparsified
         if isinstance(samples, np.ndarray):
-            self.__blocks = self.__from_dense(samples, 0)
+            blocks = self.__from_dense(samples, 0)
+            self.__blocks = blocks if len(blocks) > 0 else [
+                SignalBlock(np.atleast_2d(samples).shape[0], 0)
+            ]
         else:
             self.__blocks = list(samples)
 
@@ -2112,6 +2115,11 @@ class SparseSignal(Signal):
         #     return res[::s02, ::s12]
         # res = res[s00:s01:s02, ::s12]
 
+        # Selections without any samples still consist of the selected streams
+        if len(selected_blocks) < 1:
+            num_streams = np.empty((self.num_streams, 0))[stream_selector].shape[0]  # type: ignore
+            selected_blocks.append(SignalBlock(num_streams, 0))
+
         # If only a single block is selected, return it as a dense signal
         if len(selected_blocks) == 1 and selected_blocks[0].offset == 0:
             return DenseSignal.FromNDArray(
-- 
2.43.0

