From d3b05f6fdec96fb9c4d9a893b032f9d171dced8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:02 +0000
Subject: [PATCH 01/88] fix: Batch addition paired values by insertion order
 instead of by key

---
 tianshou/data/batch.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tianshou/data/batch.py b/tianshou/data/batch.py
index 70478a8..c258db1 100644
--- a/tianshou/data/batch.py
+++ b/tianshou/data/batch.py
@@ -803,14 +803,15 @@ class Batch(BatchProtocol):
     def __iadd__(self, other: Self | Number | np.number) -> Self:
         """Algebraic addition with another Batch instance in-place."""
         if isinstance(other, Batch):
-            for (batch_key, obj), value in zip(
-                self.__dict__.items(),
-                other.__dict__.values(),
-                strict=True,
-            ):  # TODO are keys consistent?
+            if self.get_keys() != other.get_keys():
+                raise ValueError(
+                    "Only batches with the same keys can be added, "
+                    f"but got {list(self.get_keys())} and {list(other.get_keys())}.",
+                )
+            for batch_key, obj in self.items():
                 if isinstance(obj, Batch) and len(obj.get_keys()) == 0:
                     continue
-                self.__dict__[batch_key] += value
+                self.__dict__[batch_key] += other.__dict__[batch_key]
             return self
         if _is_number(other):
             for batch_key, obj in self.items():
-- 
2.43.0


From fad8facb474c540ec09a885185695839248c8845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:57 +0000
Subject: [PATCH 02/88] fix: unfinished_index of an empty buffer raised
 AttributeError

---
 tianshou/data/buffer/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/data/buffer/base.py b/tianshou/data/buffer/base.py
index 5c4451d..5810428 100644
--- a/tianshou/data/buffer/base.py
+++ b/tianshou/data/buffer/base.py
@@ -302,7 +302,7 @@ class ReplayBuffer:
     def unfinished_index(self) -> np.ndarray:
         """Return the index of unfinished episode."""
         last = (self._insertion_idx - 1) % self._size if self._size else 0
-        return np.array([last] if not self.done[last] and self._size else [], int)
+        return np.array([last] if self._size and not self.done[last] else [], int)
 
     def prev(self, index: int | np.ndarray) -> np.ndarray:
         """Return the index of previous transition.
-- 
2.43.0


From f2f8180007b08b70a34a90b8bc08a53bfa70187a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:57 +0000
Subject: [PATCH 03/88] fix: PrioritizedReplayBuffer could not be indexed with
 a list

---
 tianshou/data/buffer/prio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/data/buffer/prio.py b/tianshou/data/buffer/prio.py
index ac0220f..31d1316 100644
--- a/tianshou/data/buffer/prio.py
+++ b/tianshou/data/buffer/prio.py
@@ -99,7 +99,7 @@ class PrioritizedReplayBuffer(ReplayBuffer):
                 else self._indices[: len(self)][index]
             )
         else:
-            indices = cast(np.ndarray, index)
+            indices = np.asarray(index) if isinstance(index, list) else cast(np.ndarray, index)
         batch = super().__getitem__(indices)
         weight = self.get_weight(indices)
         # ref: https://github.com/Kaixhin/Rainbow/blob/master/memory.py L154
-- 
2.43.0


From daa0efd423735e91f9c0d560a6c30755d5396a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:55 +0000
Subject: [PATCH 04/88] fix: PrioritizedReplayBuffer kept sampling cleared
 transitions after reset

---
 tianshou/data/buffer/prio.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tianshou/data/buffer/prio.py b/tianshou/data/buffer/prio.py
index 31d1316..bd3fb99 100644
--- a/tianshou/data/buffer/prio.py
+++ b/tianshou/data/buffer/prio.py
@@ -46,6 +46,13 @@ class PrioritizedReplayBuffer(ReplayBuffer):
     def init_weight(self, index: int | np.ndarray) -> None:
         self.weight[index] = self._max_prio**self._alpha
 
+    def reset(self, keep_statistics: bool = False) -> None:
+        super().reset(keep_statistics)
+        self._max_prio = self._min_prio = 1.0
+        # the weights of the buffers in a PrioritizedReplayBufferManager are owned by the manager
+        if hasattr(self, "weight"):
+            self.weight = SegmentTree(self.maxsize)
+
     def update(self, buffer: ReplayBuffer) -> np.ndarray:
         indices = super().update(buffer)
         self.init_weight(indices)
-- 
2.43.0


From da8d8d452150bef12b5ddfa4ba86e87cc65e3dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:30 +0000
Subject: [PATCH 05/88] fix: vector buffers lost the storage shared with their
 sub-buffers when pickled, copied or loaded

---
 tianshou/data/buffer/cached.py  | 8 ++++++++
 tianshou/data/buffer/manager.py | 9 ++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/tianshou/data/buffer/cached.py b/tianshou/data/buffer/cached.py
index 6c7a6e1..428c566 100644
--- a/tianshou/data/buffer/cached.py
+++ b/tianshou/data/buffer/cached.py
@@ -1,3 +1,5 @@
+from typing import Any
+
 import numpy as np
 
 from tianshou.data import ReplayBuffer, ReplayBufferManager
@@ -43,6 +45,12 @@ class CachedReplayBuffer(ReplayBufferManager):
         self.cached_buffers = self.buffers[1:]
         self.cached_buffer_num = cached_buffer_num
 
+    def __setstate__(self, state: dict[str, Any]) -> None:
+        super().__setstate__(state)
+        # these are serialized separately by save_hdf5
+        self.main_buffer = self.buffers[0]
+        self.cached_buffers = self.buffers[1:]
+
     def add(
         self,
         batch: RolloutBatchProtocol,
diff --git a/tianshou/data/buffer/manager.py b/tianshou/data/buffer/manager.py
index e8176aa..1aae6b9 100644
--- a/tianshou/data/buffer/manager.py
+++ b/tianshou/data/buffer/manager.py
@@ -1,5 +1,5 @@
 from collections.abc import Sequence
-from typing import Union, cast
+from typing import Any, Union, cast
 
 import numpy as np
 from numba import njit
@@ -74,6 +74,13 @@ class ReplayBufferManager(ReplayBuffer):
         for buf in self.buffers:
             buf.reset(keep_statistics=keep_statistics)
 
+    def __setstate__(self, state: dict[str, Any]) -> None:
+        super().__setstate__(state)
+        # the storage shared with the contained buffers is duplicated by serialization, so share it again
+        if len(self._meta.get_keys()) > 0:
+            for offset, buf in zip(self._offset, self.buffers, strict=True):
+                buf._meta = self._meta[offset : offset + buf.maxsize]
+
     def _set_batch_for_children(self) -> None:
         for offset, buf in zip(self._offset, self.buffers, strict=True):
             buf.set_batch(self._meta[offset : offset + buf.maxsize])
-- 
2.43.0


From ac2e577a9e0bb4d9be051c27bfbf339ac6caaf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:03 +0000
Subject: [PATCH 06/88] fix: ReplayBuffer.from_data marked the first instead of
 the last transition as the newest

---
 tianshou/data/buffer/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tianshou/data/buffer/base.py b/tianshou/data/buffer/base.py
index 5810428..42b5ce7 100644
--- a/tianshou/data/buffer/base.py
+++ b/tianshou/data/buffer/base.py
@@ -280,6 +280,7 @@ class ReplayBuffer:
         batch = cast(RolloutBatchProtocol, batch)
         buf.set_batch(batch)
         buf._size = size
+        buf.last_index[0] = size - 1
         return buf
 
     def reset(self, keep_statistics: bool = False) -> None:
-- 
2.43.0


From 25e8105cdfd2a0f43a62e054fad996e03260c937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:18 +0000
Subject: [PATCH 07/88] fix: set_beta of PrioritizedVectorReplayBuffer did not
 change the weights it returns

---
 tianshou/data/buffer/vecbuf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tianshou/data/buffer/vecbuf.py b/tianshou/data/buffer/vecbuf.py
index 00b2560..3dcd6a0 100644
--- a/tianshou/data/buffer/vecbuf.py
+++ b/tianshou/data/buffer/vecbuf.py
@@ -62,6 +62,7 @@ class PrioritizedVectorReplayBuffer(PrioritizedReplayBufferManager):
         super().__init__(buffer_list)
 
     def set_beta(self, beta: float) -> None:
+        super().set_beta(beta)
         for buffer in self.buffers:
             buffer.set_beta(beta)
 
-- 
2.43.0


From 22d388d95e99379a59703595caa360beb9b8036f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:18 +0000
Subject: [PATCH 08/88] fix: PrioritizedVectorReplayBuffer ignored weight_norm

---
 tianshou/data/buffer/prio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/data/buffer/prio.py b/tianshou/data/buffer/prio.py
index bd3fb99..e8f8685 100644
--- a/tianshou/data/buffer/prio.py
+++ b/tianshou/data/buffer/prio.py
@@ -40,7 +40,7 @@ class PrioritizedReplayBuffer(ReplayBuffer):
         # save weight directly in this class instead of self._meta
         self.weight = SegmentTree(size)
         self.__eps = np.finfo(np.float32).eps.item()
-        self.options.update(alpha=alpha, beta=beta)
+        self.options.update(alpha=alpha, beta=beta, weight_norm=weight_norm)
         self._weight_norm = weight_norm
 
     def init_weight(self, index: int | np.ndarray) -> None:
-- 
2.43.0


From db9fc19d64ef7d17bc3adb7223a03b7390851f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:00 +0000
Subject: [PATCH 09/88] fix: HER with ignore_obs_next recomputed rewards with
 the original goal

---
 tianshou/data/buffer/her.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tianshou/data/buffer/her.py b/tianshou/data/buffer/her.py
index 087f8d0..0368616 100644
--- a/tianshou/data/buffer/her.py
+++ b/tianshou/data/buffer/her.py
@@ -173,6 +173,10 @@ class HERReplayBuffer(ReplayBuffer):
         else:
             tmp_ep_obs_next = self[self.next(unique_ep_indices)].obs
             assert isinstance(tmp_ep_obs_next, BatchProtocol)
+            tmp_ep_obs_next.desired_goal[:, her_ep_indices] = future_obs.achieved_goal[
+                None,
+                her_ep_indices,
+            ]
             ep_rew[:, her_ep_indices] = self._compute_reward(tmp_ep_obs_next)[:, her_ep_indices]
 
         # Sanity check
-- 
2.43.0


From 32e74e435edb6cdb723d728ae00c7d4a185da796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:30 +0000
Subject: [PATCH 10/88] fix: tensor hidden states were not reset when an
 episode ended

---
 tianshou/data/collector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tianshou/data/collector.py b/tianshou/data/collector.py
index 514db4c..0e22ced 100644
--- a/tianshou/data/collector.py
+++ b/tianshou/data/collector.py
@@ -1066,7 +1066,8 @@ class Collector(BaseCollector[TCollectStats], Generic[TCollectStats]):
         last_hidden_state_RH: np.ndarray | torch.Tensor | Batch | None,
     ) -> None:
         if isinstance(last_hidden_state_RH, torch.Tensor):
-            last_hidden_state_RH[env_ind_local_D].zero_()  # type: ignore[index]
+            # NOTE: indexing with an array creates a copy, so the values have to be assigned
+            last_hidden_state_RH[env_ind_local_D] = 0  # type: ignore[index]
         elif isinstance(last_hidden_state_RH, np.ndarray):
             last_hidden_state_RH[env_ind_local_D] = (
                 None if last_hidden_state_RH.dtype == object else 0
-- 
2.43.0


From 2e99df52456e4fc1a718ddfb8112285acb3703be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:30 +0000
Subject: [PATCH 11/88] fix: lengths of episodes spanning a buffer reset
 disagreed with their returns

---
 tianshou/data/collector.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tianshou/data/collector.py b/tianshou/data/collector.py
index 0e22ced..43ea327 100644
--- a/tianshou/data/collector.py
+++ b/tianshou/data/collector.py
@@ -943,9 +943,10 @@ class Collector(BaseCollector[TCollectStats], Generic[TCollectStats]):
 
                 # Step 9
                 # execute episode hooks for those envs which emitted 'done'
-                for local_done_idx, cur_ep_return in zip(
+                for local_done_idx, cur_ep_return, cur_ep_len in zip(
                     env_done_local_idx_D,
                     episode_returns_D,
+                    episode_lens_D,
                     strict=True,
                 ):
                     # retrieve the episode batch from the buffer using the episode start and stop indices
@@ -985,6 +986,10 @@ class Collector(BaseCollector[TCollectStats], Generic[TCollectStats]):
                         episode_batch=ep_batch,
                         episode_return=cur_ep_return,
                     )
+                    # ep_batch misses the first part of the episode if the buffer was reset
+                    # (keeping statistics) since the episode started
+                    if collect_stats.lens.size > 0:
+                        collect_stats.lens[-1] = cur_ep_len
 
                 # Step 12
                 # preparing for the next iteration
-- 
2.43.0


From 5fef825988a138a8845adc4905497b9f2b86574a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:12 +0000
Subject: [PATCH 12/88] fix: Collector never accumulated collect_time, so
 reported collect times were 0

---
 tianshou/data/collector.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/tianshou/data/collector.py b/tianshou/data/collector.py
index 43ea327..c1521e8 100644
--- a/tianshou/data/collector.py
+++ b/tianshou/data/collector.py
@@ -478,6 +478,7 @@ class BaseCollector(Generic[TCollectStats], ABC):
                 gym_reset_kwargs=gym_reset_kwargs,
             )
         collect_time = time.time() - pre_collect_time
+        self.collect_time += collect_time
         collect_stats.set_collect_time(collect_time, update_collect_speed=True)
         collect_stats.refresh_all_sequence_stats()
 
@@ -1174,8 +1175,6 @@ class AsyncCollector(Collector[CollectStats]):
         render: float | None = None,
         gym_reset_kwargs: dict[str, Any] | None = None,
     ) -> CollectStats:
-        start_time = time.time()
-
         step_count = 0
         num_collected_episodes = 0
         episode_returns: list[float] = []
@@ -1349,8 +1348,6 @@ class AsyncCollector(Collector[CollectStats]):
         # generate statistics
         self.collect_step += step_count
         self.collect_episode += num_collected_episodes
-        collect_time = max(time.time() - start_time, 1e-9)
-        self.collect_time += collect_time
 
         # persist for future collect iterations
         self._ready_env_ids_R = ready_env_ids_R
-- 
2.43.0


From 49ad680fcfe263e1da03961da3e08802de15b973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:07 +0000
Subject: [PATCH 13/88] fix: AsyncCollector could not be reset with more than
 wait_num envs in flight or with a wrapped env

---
 tianshou/data/collector.py    | 3 ++-
 tianshou/env/venv_wrappers.py | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/tianshou/data/collector.py b/tianshou/data/collector.py
index c1521e8..966d21a 100644
--- a/tianshou/data/collector.py
+++ b/tianshou/data/collector.py
@@ -1162,7 +1162,8 @@ class AsyncCollector(Collector[CollectStats]):
         gym_reset_kwargs: dict[str, Any] | None = None,
     ) -> tuple[np.ndarray, np.ndarray]:
         # we need to step through the envs and wait until they are ready to be able to interact with them
-        if self.env.waiting_id:
+        # (each call to step only waits for `wait_num` envs)
+        while self.env.waiting_id:
             self.env.step(None, id=self.env.waiting_id)
         return super().reset_env(gym_reset_kwargs=gym_reset_kwargs)
 
diff --git a/tianshou/env/venv_wrappers.py b/tianshou/env/venv_wrappers.py
index 9297dde..03f0636 100644
--- a/tianshou/env/venv_wrappers.py
+++ b/tianshou/env/venv_wrappers.py
@@ -22,6 +22,10 @@ class VectorEnvWrapper(BaseVectorEnv):
     def __len__(self) -> int:
         return len(self.venv)
 
+    @property
+    def waiting_id(self) -> list[int]:  # type: ignore[override]
+        return self.venv.waiting_id
+
     def __getattribute__(self, key: str) -> Any:
         if key in GYM_RESERVED_KEYS:  # reserved keys in gym.Env
             return getattr(self.venv, key)
-- 
2.43.0


From 4ff4cd613d47db8c46159e9835b6a9b71da48b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:55 +0000
Subject: [PATCH 14/88] fix: AsyncCollector failed for policies without state
 or outputs and for non-scalar actions

---
 tianshou/data/collector.py | 71 +++++++++++++++++++++-----------------
 1 file changed, 40 insertions(+), 31 deletions(-)

diff --git a/tianshou/data/collector.py b/tianshou/data/collector.py
index 966d21a..22382cd 100644
--- a/tianshou/data/collector.py
+++ b/tianshou/data/collector.py
@@ -21,6 +21,7 @@ from tianshou.data import (
     VectorReplayBuffer,
     to_numpy,
 )
+from tianshou.data.batch import create_value
 from tianshou.data.buffer.base import MalformedBufferError
 from tianshou.data.stats import compute_dim_to_summary_stats
 from tianshou.data.types import (
@@ -1122,7 +1123,7 @@ class AsyncCollector(Collector[CollectStats]):
         self._current_hidden_state_in_all_envs_EH: np.ndarray | torch.Tensor | Batch | None = copy(
             self._pre_collect_hidden_state_RH,
         )
-        self._current_action_in_all_envs_EA: np.ndarray = np.empty(self.env_num)
+        self._current_action_in_all_envs_EA: np.ndarray | None = None
         self._current_policy_in_all_envs_E: Batch | None = None
 
     def reset(
@@ -1152,7 +1153,7 @@ class AsyncCollector(Collector[CollectStats]):
         self._current_obs_in_all_envs_EO = copy(self._pre_collect_obs_RO)
         self._current_info_in_all_envs_E = copy(self._pre_collect_info_R)
         self._current_hidden_state_in_all_envs_EH = copy(self._pre_collect_hidden_state_RH)
-        self._current_action_in_all_envs_EA = np.empty(self.env_num)
+        self._current_action_in_all_envs_EA = None
         self._current_policy_in_all_envs_E = None
         return result
 
@@ -1167,6 +1168,22 @@ class AsyncCollector(Collector[CollectStats]):
             self.env.step(None, id=self.env.waiting_id)
         return super().reset_env(gym_reset_kwargs=gym_reset_kwargs)
 
+    def _assign_in_all_envs(
+        self,
+        current_E: _TArrLike | None,
+        ready_env_ids_R: np.ndarray,
+        value_R: _TArrLike,
+    ) -> _TArrLike:
+        """Assign the values of the ready envs, allocating the storage for all envs at first use."""
+        if isinstance(value_R, Batch) and len(value_R.get_keys()) == 0 and not current_E:
+            return value_R
+        if current_E is None or (
+            isinstance(current_E, Batch) and len(current_E.get_keys()) == 0
+        ):
+            current_E = create_value(value_R, self.env_num, stack=False)
+        current_E[ready_env_ids_R] = value_R
+        return current_E
+
     @override
     def _collect(
         self,
@@ -1210,14 +1227,9 @@ class AsyncCollector(Collector[CollectStats]):
                 raise RuntimeError(
                     "Current obs is None, did you call reset or pass reset_at_collect=True?",
                 )
-            if (
-                not len(self._current_obs_in_all_envs_EO)
-                == len(self._current_action_in_all_envs_EA)
-                == self.env_num
-            ):  # major difference
+            if len(self._current_obs_in_all_envs_EO) != self.env_num:  # major difference
                 raise RuntimeError(
-                    f"{len(self._current_obs_in_all_envs_EO)=} and"
-                    f"{len(self._current_action_in_all_envs_EA)=} have to equal"
+                    f"{len(self._current_obs_in_all_envs_EO)=} has to equal"
                     f" {self.env_num=} as it tracks the current transition"
                     f"in all envs",
                 )
@@ -1232,25 +1244,22 @@ class AsyncCollector(Collector[CollectStats]):
             )
 
             # save act_RA/policy_R/ hidden_state_RH before env.step
-            self._current_action_in_all_envs_EA[ready_env_ids_R] = collect_batch_R.act
-            if self._current_policy_in_all_envs_E:
-                self._current_policy_in_all_envs_E[ready_env_ids_R] = collect_batch_R.policy_entry
-            else:
-                self._current_policy_in_all_envs_E = collect_batch_R.policy_entry  # first iteration
+            self._current_action_in_all_envs_EA = self._assign_in_all_envs(
+                self._current_action_in_all_envs_EA,
+                ready_env_ids_R,
+                collect_batch_R.act,
+            )
+            self._current_policy_in_all_envs_E = self._assign_in_all_envs(
+                self._current_policy_in_all_envs_E,
+                ready_env_ids_R,
+                collect_batch_R.policy_entry,
+            )
             if collect_batch_R.hidden_state is not None:
-                if self._current_hidden_state_in_all_envs_EH is not None:
-                    # Need to cast since if it's a Tensor, the assignment might in fact fail if hidden_state_RH is not
-                    # a tensor as well. This is hard to express with proper typing, even using @overload, so we cheat
-                    # and hope that if one of the two is a tensor, the other one is as well.
-                    self._current_hidden_state_in_all_envs_EH = cast(
-                        np.ndarray | Batch,
-                        self._current_hidden_state_in_all_envs_EH,
-                    )
-                    self._current_hidden_state_in_all_envs_EH[
-                        ready_env_ids_R
-                    ] = collect_batch_R.hidden_state
-                else:
-                    self._current_hidden_state_in_all_envs_EH = collect_batch_R.hidden_state
+                self._current_hidden_state_in_all_envs_EH = self._assign_in_all_envs(
+                    self._current_hidden_state_in_all_envs_EH,
+                    ready_env_ids_R,
+                    collect_batch_R.hidden_state,
+                )
 
             # step in env
             obs_next_RO, rew_R, terminated_R, truncated_R, info_R = self.env.step(
@@ -1272,7 +1281,9 @@ class AsyncCollector(Collector[CollectStats]):
                 Batch(
                     obs=self._current_obs_in_all_envs_EO[ready_env_ids_R],
                     act=self._current_action_in_all_envs_EA[ready_env_ids_R],
-                    policy=self._current_policy_in_all_envs_E[ready_env_ids_R],
+                    policy=self._current_policy_in_all_envs_E[ready_env_ids_R]
+                    if len(self._current_policy_in_all_envs_E.get_keys()) > 0
+                    else Batch(),
                     obs_next=obs_next_RO,
                     rew=rew_R,
                     terminated=terminated_R,
@@ -1303,7 +1314,7 @@ class AsyncCollector(Collector[CollectStats]):
             last_obs_RO = copy(obs_next_RO)
             last_info_R = copy(info_R)
             last_hidden_state_RH = copy(
-                self._current_hidden_state_in_all_envs_EH[ready_env_ids_R],  # type: ignore[index]
+                _nullable_slice(self._current_hidden_state_in_all_envs_EH, ready_env_ids_R),
             )
             if num_episodes_done_this_iter:
                 env_ind_local_D = np.where(done_R)[0]
@@ -1338,8 +1349,6 @@ class AsyncCollector(Collector[CollectStats]):
                     self._current_hidden_state_in_all_envs_EH,
                 )
                 self._current_hidden_state_in_all_envs_EH[ready_env_ids_R] = last_hidden_state_RH
-            else:
-                self._current_hidden_state_in_all_envs_EH = last_hidden_state_RH
 
             if (n_step and step_count >= n_step) or (
                 n_episode and num_collected_episodes >= n_episode
-- 
2.43.0


From 879ec994bf01fd7e0b910a37b9c89bf32b76e7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:24 +0000
Subject: [PATCH 15/88] fix: EpisodeRolloutHookMerged rejected hooks with
 distinct keys and accepted overlapping ones

---
 tianshou/data/collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/data/collector.py b/tianshou/data/collector.py
index 22382cd..b7b0266 100644
--- a/tianshou/data/collector.py
+++ b/tianshou/data/collector.py
@@ -1513,7 +1513,7 @@ class EpisodeRolloutHookMerged(EpisodeRolloutHook):
                 continue
 
             if self.check_overlapping_keys and (
-                duplicated_entries := set(new_entries).difference(result)
+                duplicated_entries := set(new_entries).intersection(result)
             ):
                 raise KeyError(
                     f"Combined rollout hook {rollout_hook} leads to previously "
-- 
2.43.0


From e6ab6706288ffdfb28661946b62ea6e43d2c9d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:21 +0000
Subject: [PATCH 16/88] fix: vector buffers dropped fields that step hooks or
 users add to a rollout batch

---
 tianshou/data/buffer/manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tianshou/data/buffer/manager.py b/tianshou/data/buffer/manager.py
index 1aae6b9..165398e 100644
--- a/tianshou/data/buffer/manager.py
+++ b/tianshou/data/buffer/manager.py
@@ -83,7 +83,7 @@ class ReplayBufferManager(ReplayBuffer):
 
     def _set_batch_for_children(self) -> None:
         for offset, buf in zip(self._offset, self.buffers, strict=True):
-            buf.set_batch(self._meta[offset : offset + buf.maxsize])
+            buf._meta = self._meta[offset : offset + buf.maxsize]
 
     def set_batch(self, batch: RolloutBatchProtocol) -> None:
         super().set_batch(batch)
@@ -151,7 +151,7 @@ class ReplayBufferManager(ReplayBuffer):
         """
         # preprocess batch
         new_batch = Batch()
-        for key in set(self._reserved_keys).intersection(batch.get_keys()):
+        for key in batch.get_keys():
             new_batch.__dict__[key] = batch[key]
         batch = new_batch
         batch.__dict__["done"] = np.logical_or(batch.terminated, batch.truncated)
-- 
2.43.0


From 7e9dc976e19355db0fb5766db87c68a7b50ea7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:24 +0000
Subject: [PATCH 17/88] fix: StepHookAddActionDistribution stored the
 distribution of the whole step batch for every transition

---
 tianshou/data/collector.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tianshou/data/collector.py b/tianshou/data/collector.py
index b7b0266..10a1d88 100644
--- a/tianshou/data/collector.py
+++ b/tianshou/data/collector.py
@@ -21,7 +21,7 @@ from tianshou.data import (
     VectorReplayBuffer,
     to_numpy,
 )
-from tianshou.data.batch import create_value
+from tianshou.data.batch import create_value, get_sliced_dist
 from tianshou.data.buffer.base import MalformedBufferError
 from tianshou.data.stats import compute_dim_to_summary_stats
 from tianshou.data.types import (
@@ -1415,7 +1415,14 @@ class StepHookAddActionDistribution(StepHook):
         action_batch: CollectActionBatchProtocol,
         rollout_batch: RolloutBatchProtocol,
     ) -> None:
-        rollout_batch[self.ACTION_DIST_KEY] = action_batch.dist
+        dist = action_batch.dist
+        if dist is None:
+            return
+        # one distribution per transition, such that each row of the buffer holds its own
+        dist_R = np.empty(len(rollout_batch.rew), dtype=object)
+        for i in range(len(dist_R)):
+            dist_R[i] = get_sliced_dist(dist, [i])
+        rollout_batch.set_array_at_key(dist_R, self.ACTION_DIST_KEY)
 
 
 class EpisodeRolloutHookProtocol(Protocol):
-- 
2.43.0


From aa0d7bf8d5c0cf8151c1e6a554abff3329ebd1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:29 +0000
Subject: [PATCH 18/88] fix: shared memory environments returned 0 for scalar
 observations

---
 tianshou/env/worker/subproc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tianshou/env/worker/subproc.py b/tianshou/env/worker/subproc.py
index 7756f6e..8d909f3 100644
--- a/tianshou/env/worker/subproc.py
+++ b/tianshou/env/worker/subproc.py
@@ -84,8 +84,9 @@ def _worker(
         obs: dict | tuple | np.ndarray,
         buffer: dict | tuple | ShArray,
     ) -> None:
-        if isinstance(obs, np.ndarray) and isinstance(buffer, ShArray):
-            buffer.save(obs)
+        if isinstance(buffer, ShArray):
+            # the observations of e.g. discrete spaces are scalars
+            buffer.save(np.asarray(obs))
         elif isinstance(obs, tuple) and isinstance(buffer, tuple):
             for o, b in zip(obs, buffer, strict=True):
                 _encode_obs(o, b)
-- 
2.43.0


From ee484e5ff20a9826a73bf85664cb892089e7b53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:29 +0000
Subject: [PATCH 19/88] fix: dict observations of shared memory environments
 were overwritten by later steps

---
 tianshou/env/worker/subproc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tianshou/env/worker/subproc.py b/tianshou/env/worker/subproc.py
index 8d909f3..e2cefa1 100644
--- a/tianshou/env/worker/subproc.py
+++ b/tianshou/env/worker/subproc.py
@@ -183,7 +183,8 @@ class SubprocEnvWorker(EnvWorker):
             buffer: dict | tuple | ShArray | None,
         ) -> dict | tuple | np.ndarray:
             if isinstance(buffer, ShArray):
-                return buffer.get()
+                # copy, since the shared memory is overwritten by the next step
+                return buffer.get().copy()
             if isinstance(buffer, tuple):
                 return tuple([decode_obs(b) for b in buffer])
             if isinstance(buffer, dict):
-- 
2.43.0


From d1622ef41fae1f2bd5cb0eab98a4e6754b2ac75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:02 +0000
Subject: [PATCH 20/88] fix: asynchronous DummyVectorEnv returned only every
 other finished step

---
 tianshou/env/worker/dummy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tianshou/env/worker/dummy.py b/tianshou/env/worker/dummy.py
index 0ed0b03..251cf7f 100644
--- a/tianshou/env/worker/dummy.py
+++ b/tianshou/env/worker/dummy.py
@@ -31,8 +31,9 @@ class DummyEnvWorker(EnvWorker):
         wait_num: int,
         timeout: float | None = None,
     ) -> list["DummyEnvWorker"]:
-        # Sequential EnvWorker objects are always ready
-        return workers
+        # Sequential EnvWorker objects are always ready. The given list must not be returned
+        # itself, as the caller removes the ready workers from it while iterating over the result
+        return list(workers)
 
     def send(self, action: np.ndarray | None, **kwargs: Any) -> None:
         if action is None:
-- 
2.43.0


From 8bf2ed13830c6be5dad63fad9085eb875567470a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:02 +0000
Subject: [PATCH 21/88] fix: asynchronous RayVectorEnv failed with fewer than
 wait_num steps in flight

---
 tianshou/env/worker/ray.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tianshou/env/worker/ray.py b/tianshou/env/worker/ray.py
index 76b8422..f70197e 100644
--- a/tianshou/env/worker/ray.py
+++ b/tianshou/env/worker/ray.py
@@ -51,7 +51,8 @@ class RayEnvWorker(EnvWorker):
         timeout: float | None = None,
     ) -> list["RayEnvWorker"]:
         results = [x.result for x in workers]
-        ready_results, _ = ray.wait(results, num_returns=wait_num, timeout=timeout)
+        num_returns = min(wait_num, len(results))
+        ready_results, _ = ray.wait(results, num_returns=num_returns, timeout=timeout)
         return [workers[results.index(result)] for result in ready_results]
 
     def send(self, action: np.ndarray | None, **kwargs: Any) -> None:
-- 
2.43.0


From 8f4d8db1ef1f0dce0051cda8774c9568a56618f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:23 +0000
Subject: [PATCH 22/88] fix: MovAvg did not exclude NaN values other than the
 np.nan object

---
 tianshou/utils/statistics.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tianshou/utils/statistics.py b/tianshou/utils/statistics.py
index 779b0ba..e59f9ac 100644
--- a/tianshou/utils/statistics.py
+++ b/tianshou/utils/statistics.py
@@ -27,7 +27,6 @@ class MovAvg:
         super().__init__()
         self.size = size
         self.cache: list[np.number] = []
-        self.banned = [np.inf, np.nan, -np.inf]
 
     def add(
         self,
@@ -43,7 +42,7 @@ class MovAvg:
         if np.isscalar(data_array):
             data_array = [data_array]
         for number in data_array:  # type: ignore
-            if number not in self.banned:
+            if np.isfinite(number):
                 self.cache.append(number)
         if self.size > 0 and len(self.cache) > self.size:
             self.cache = self.cache[-self.size :]
-- 
2.43.0


From 6169ee68e39852cbc5170663ca6688d2a69e033c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:23 +0000
Subject: [PATCH 23/88] fix: RunningMeanStd used its initial standard deviation
 as variance

---
 tianshou/utils/statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/utils/statistics.py b/tianshou/utils/statistics.py
index e59f9ac..7d1c420 100644
--- a/tianshou/utils/statistics.py
+++ b/tianshou/utils/statistics.py
@@ -84,7 +84,7 @@ class RunningMeanStd:
         clip_max: float | None = 10.0,
         epsilon: float = np.finfo(np.float32).eps.item(),
     ) -> None:
-        self.mean, self.var = mean, std
+        self.mean, self.var = mean, std**2
         self.clip_max = clip_max
         self.count = 0
         self.eps = epsilon
-- 
2.43.0


From fff138ac5f480260e40f637c2c483fd913179060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:15 +0000
Subject: [PATCH 24/88] fix: seeded reset of a vector environment did not seed
 dummy and Ray workers' action spaces

---
 tianshou/env/worker/dummy.py | 2 +-
 tianshou/env/worker/ray.py   | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/tianshou/env/worker/dummy.py b/tianshou/env/worker/dummy.py
index 251cf7f..9f53b36 100644
--- a/tianshou/env/worker/dummy.py
+++ b/tianshou/env/worker/dummy.py
@@ -37,7 +37,7 @@ class DummyEnvWorker(EnvWorker):
 
     def send(self, action: np.ndarray | None, **kwargs: Any) -> None:
         if action is None:
-            self.result = self.env.reset(**kwargs)
+            self.result = self.reset(**kwargs)
         else:
             self.result = self.env.step(action)  # type: ignore
 
diff --git a/tianshou/env/worker/ray.py b/tianshou/env/worker/ray.py
index f70197e..fbccce4 100644
--- a/tianshou/env/worker/ray.py
+++ b/tianshou/env/worker/ray.py
@@ -58,6 +58,8 @@ class RayEnvWorker(EnvWorker):
     def send(self, action: np.ndarray | None, **kwargs: Any) -> None:
         # self.result is actually a handle
         if action is None:
+            if "seed" in kwargs:
+                super().seed(kwargs["seed"])
             self.result = self.env.reset.remote(**kwargs)
         else:
             self.result = self.env.step.remote(action)
-- 
2.43.0


From 409ac305b0789ead2ad319d7b50b80b0066309e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:15 +0000
Subject: [PATCH 25/88] fix: PettingZooEnv repeated the rewards of departed
 agents and returned the same list each step

---
 tianshou/env/pettingzoo_env.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tianshou/env/pettingzoo_env.py b/tianshou/env/pettingzoo_env.py
index 1967414..e08386d 100644
--- a/tianshou/env/pettingzoo_env.py
+++ b/tianshou/env/pettingzoo_env.py
@@ -115,8 +115,8 @@ class PettingZooEnv(AECEnv, ABC):
             else:
                 obs = {"agent_id": self.env.agent_selection, "obs": observation}
 
-        for agent_id, reward in self.env.rewards.items():
-            self.rewards[self.agent_idx[agent_id]] = reward
+        # a new list for each step, in which agents that have left the environment have no reward
+        self.rewards = [self.env.rewards.get(agent_id, 0) for agent_id in self.agents]
         return obs, self.rewards, term, trunc, info
 
     def close(self) -> None:
-- 
2.43.0


From 9bb475bb882beb54cab4de4da6e67e91d4733bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:35 +0000
Subject: [PATCH 26/88] fix: DQN's plain (non-double) target maximised over
 masked-out actions

---
 tianshou/policy/modelfree/dqn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tianshou/policy/modelfree/dqn.py b/tianshou/policy/modelfree/dqn.py
index e0ada07..44c590a 100644
--- a/tianshou/policy/modelfree/dqn.py
+++ b/tianshou/policy/modelfree/dqn.py
@@ -132,7 +132,9 @@ class DQNPolicy(BasePolicy[TDQNTrainingStats], Generic[TDQNTrainingStats]):
         if self.is_double:
             return target_q[np.arange(len(result.act)), result.act]
         # Nature DQN, over estimate
-        return target_q.max(dim=1)[0]
+        mask = getattr(obs_next_batch.obs, "mask", None)
+        act = self.compute_q_value(target_q, mask).argmax(dim=1)
+        return target_q[np.arange(len(act)), act]
 
     def process_fn(
         self,
-- 
2.43.0


From 18c4bd80277a97bf20bb4d7f7badf731fac09365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:35 +0000
Subject: [PATCH 27/88] fix: BDQ computed wrong targets for a batch with a
 single transition

---
 tianshou/policy/modelfree/bdq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/policy/modelfree/bdq.py b/tianshou/policy/modelfree/bdq.py
index d7196a9..48f6fc7 100644
--- a/tianshou/policy/modelfree/bdq.py
+++ b/tianshou/policy/modelfree/bdq.py
@@ -111,7 +111,7 @@ class BranchingDQNPolicy(DQNPolicy[TBDQNTrainingStats]):
             act = to_torch(act, dtype=torch.long, device=target_q.device)
         else:
             act = target_q.max(-1).indices.unsqueeze(-1)
-        return torch.gather(target_q, -1, act).squeeze()
+        return torch.gather(target_q, -1, act).squeeze(-1)
 
     def _compute_return(
         self,
-- 
2.43.0


From a7a454cdeabb4872acc7e2788a82cd9ced930d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:35 +0000
Subject: [PATCH 28/88] fix: BDQ ignored discount_factor

---
 tianshou/policy/modelfree/bdq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/policy/modelfree/bdq.py b/tianshou/policy/modelfree/bdq.py
index 48f6fc7..7440ac4 100644
--- a/tianshou/policy/modelfree/bdq.py
+++ b/tianshou/policy/modelfree/bdq.py
@@ -144,7 +144,7 @@ class BranchingDQNPolicy(DQNPolicy[TBDQNTrainingStats]):
         indices: np.ndarray,
     ) -> BatchWithReturnsProtocol:
         """Compute the 1-step return for BDQ targets."""
-        return self._compute_return(batch, buffer, indices)
+        return self._compute_return(batch, buffer, indices, gamma=self.gamma)
 
     def forward(
         self,
-- 
2.43.0


From 39c7097db80a1d6f0b9b6661f6c91b5fe71438da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:35 +0000
Subject: [PATCH 29/88] fix: BDQ did not bootstrap at truncated and unfinished
 transitions

---
 tianshou/policy/modelfree/bdq.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tianshou/policy/modelfree/bdq.py b/tianshou/policy/modelfree/bdq.py
index 7440ac4..d4bb30b 100644
--- a/tianshou/policy/modelfree/bdq.py
+++ b/tianshou/policy/modelfree/bdq.py
@@ -124,11 +124,9 @@ class BranchingDQNPolicy(DQNPolicy[TBDQNTrainingStats]):
         with torch.no_grad():
             target_q_torch = self._target_q(buffer, indice)  # (bsz, ?)
         target_q = to_numpy(target_q_torch)
-        end_flag = buffer.done.copy()
-        end_flag[buffer.unfinished_index()] = True
-        end_flag = end_flag[indice]
+        value_mask = self.value_mask(buffer, indice)
         mean_target_q = np.mean(target_q, -1) if len(target_q.shape) > 1 else target_q
-        _target_q = rew + gamma * mean_target_q * (1 - end_flag)
+        _target_q = rew + gamma * mean_target_q * value_mask
         target_q = np.repeat(_target_q[..., None], self.num_branches, axis=-1)
         target_q = np.repeat(target_q[..., None], self._action_per_branch, axis=-1)
 
-- 
2.43.0


From 7938d37b402a0153024b8bc9100f21f9128fe3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:35 +0000
Subject: [PATCH 30/88] fix: C51 and Rainbow combined n-step returns with the
 distribution at s_{t+1}

---
 tianshou/policy/modelfree/c51.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/tianshou/policy/modelfree/c51.py b/tianshou/policy/modelfree/c51.py
index 5bfdba0..27d0366 100644
--- a/tianshou/policy/modelfree/c51.py
+++ b/tianshou/policy/modelfree/c51.py
@@ -6,7 +6,7 @@ import numpy as np
 import torch
 
 from tianshou.data import Batch, ReplayBuffer
-from tianshou.data.types import RolloutBatchProtocol
+from tianshou.data.types import BatchWithReturnsProtocol, RolloutBatchProtocol
 from tianshou.policy import DQNPolicy
 from tianshou.policy.base import TLearningRateScheduler
 from tianshou.policy.modelfree.dqn import DQNTrainingStats
@@ -98,6 +98,20 @@ class C51Policy(DQNPolicy[TC51TrainingStats], Generic[TC51TrainingStats]):
     def compute_q_value(self, logits: torch.Tensor, mask: np.ndarray | None) -> torch.Tensor:
         return super().compute_q_value((logits * self.support).sum(2), mask)
 
+    def process_fn(
+        self,
+        batch: RolloutBatchProtocol,
+        buffer: ReplayBuffer,
+        indices: np.ndarray,
+    ) -> BatchWithReturnsProtocol:
+        batch = super().process_fn(batch, buffer, indices)
+        # the target distribution is the one at s_{t+n}
+        for _ in range(self.n_step - 1):
+            indices = buffer.next(indices)
+        if self.n_step > 1:
+            batch.obs_next = buffer[indices].obs_next
+        return batch
+
     def _target_dist(self, batch: RolloutBatchProtocol) -> torch.Tensor:
         obs_next_batch = Batch(obs=batch.obs_next, info=[None] * len(batch))
         if self._target:
-- 
2.43.0


From c1ba8dbcaca746d188dae08738c4a2f93e0cb7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:31 +0000
Subject: [PATCH 31/88] fix: REDQ with automatic temperature failed at the
 first actor update

---
 tianshou/policy/modelfree/redq.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tianshou/policy/modelfree/redq.py b/tianshou/policy/modelfree/redq.py
index 25f2997..92f8186 100644
--- a/tianshou/policy/modelfree/redq.py
+++ b/tianshou/policy/modelfree/redq.py
@@ -217,8 +217,8 @@ class REDQPolicy(DDPGPolicy[TREDQTrainingStats]):
             self.actor_optim.step()
 
             if self.is_auto_alpha:
-                log_prob = obs_result.log_prob.detach() + self._target_entropy
-                alpha_loss = -(self._log_alpha * log_prob).mean()
+                log_prob = obs_result.log_prob.detach() + self.target_entropy
+                alpha_loss = -(self.log_alpha * log_prob).mean()
                 self.alpha_optim.zero_grad()
                 alpha_loss.backward()
                 self.alpha_optim.step()
@@ -235,5 +235,5 @@ class REDQPolicy(DDPGPolicy[TREDQTrainingStats]):
             actor_loss=self._last_actor_loss,
             critic_loss=critic_loss.item(),
             alpha=self.alpha.item() if isinstance(self.alpha, torch.Tensor) else self.alpha,
-            alpha_loss=alpha_loss,
+            alpha_loss=None if alpha_loss is None else alpha_loss.item(),
         )
-- 
2.43.0


From a491de7609daaac379a26dead9e424d032b2c3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:16 +0000
Subject: [PATCH 32/88] fix: TRPO kept the rejected parameters when its line
 search failed

---
 tianshou/policy/modelfree/trpo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tianshou/policy/modelfree/trpo.py b/tianshou/policy/modelfree/trpo.py
index e7aa5cf..6b0f65a 100644
--- a/tianshou/policy/modelfree/trpo.py
+++ b/tianshou/policy/modelfree/trpo.py
@@ -165,7 +165,9 @@ class TRPOPolicy(NPGPolicy[TTRPOTrainingStats]):
                         if i < self.max_backtracks - 1:
                             step_size = step_size * self.backtrack_coeff
                         else:
-                            self._set_from_flat_params(self.actor, new_flat_params)
+                            # none of the steps was acceptable: stay at the old parameters
+                            self._set_from_flat_params(self.actor, flat_params)
+                            kl = torch.zeros_like(kl)
                             step_size = torch.tensor([0.0])
                             warnings.warn(
                                 "Line search failed! It seems hyperparamters"
-- 
2.43.0


From aff7ca0336401a849cefba83dcba2333b50f0835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:13 +0000
Subject: [PATCH 33/88] fix: BCQ did not perturb the next actions of its critic
 targets

---
 tianshou/policy/imitation/bcq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/policy/imitation/bcq.py b/tianshou/policy/imitation/bcq.py
index 991c4aa..6a35ca2 100644
--- a/tianshou/policy/imitation/bcq.py
+++ b/tianshou/policy/imitation/bcq.py
@@ -179,7 +179,7 @@ class BCQPolicy(BasePolicy[TBCQTrainingStats], Generic[TBCQTrainingStats]):
             # now obs_next: (num_sampled_action * batch_size, state_dim)
 
             # perturbed action generated by VAE
-            act_next = self.vae.decode(obs_next)
+            act_next = self.actor_perturbation_target(obs_next, self.vae.decode(obs_next))
             # now obs_next: (num_sampled_action * batch_size, action_dim)
             target_Q1 = self.critic_target(obs_next, act_next)
             target_Q2 = self.critic2_target(obs_next, act_next)
-- 
2.43.0


From 4f5fab4dc29015c347283a9f952cfbf43ff7c10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:13 +0000
Subject: [PATCH 34/88] fix: BCQ did not bootstrap at truncated transitions

---
 tianshou/policy/imitation/bcq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/policy/imitation/bcq.py b/tianshou/policy/imitation/bcq.py
index 6a35ca2..69481c3 100644
--- a/tianshou/policy/imitation/bcq.py
+++ b/tianshou/policy/imitation/bcq.py
@@ -197,7 +197,7 @@ class BCQPolicy(BasePolicy[TBCQTrainingStats], Generic[TBCQTrainingStats]):
 
             target_Q = (
                 batch.rew.reshape(-1, 1)
-                + torch.logical_not(batch.done).reshape(-1, 1) * self.gamma * target_Q
+                + torch.logical_not(batch.terminated).reshape(-1, 1) * self.gamma * target_Q
             )
             target_Q = target_Q.float()
 
-- 
2.43.0


From 8013b6109b80b7c9674015112e93ac68345d8e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:13 +0000
Subject: [PATCH 35/88] fix: DiscreteCRR did not bootstrap at truncated
 transitions

---
 tianshou/policy/imitation/discrete_crr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/policy/imitation/discrete_crr.py b/tianshou/policy/imitation/discrete_crr.py
index 9c54129..1a6b32a 100644
--- a/tianshou/policy/imitation/discrete_crr.py
+++ b/tianshou/policy/imitation/discrete_crr.py
@@ -123,7 +123,7 @@ class DiscreteCRRPolicy(PGPolicy[TDiscreteCRRTrainingStats]):
             q_t_target = self.critic_old(batch.obs_next)
             rew = to_torch_as(batch.rew, q_t_target)
             expected_target_q = (q_t_target * target_m.probs).sum(-1, keepdim=True)
-            expected_target_q[batch.done > 0] = 0.0
+            expected_target_q[batch.terminated > 0] = 0.0
             target = rew.unsqueeze(1) + self.gamma * expected_target_q
         critic_loss = 0.5 * F.mse_loss(qa_t, target)
         # Actor loss
-- 
2.43.0


From 118856a0cae4807c9ffdfe29f9ab9b6ac332a8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:13 +0000
Subject: [PATCH 36/88] fix: CQL did not bootstrap at truncated transitions

---
 tianshou/policy/imitation/cql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/policy/imitation/cql.py b/tianshou/policy/imitation/cql.py
index 66438c7..1ff62f9 100644
--- a/tianshou/policy/imitation/cql.py
+++ b/tianshou/policy/imitation/cql.py
@@ -280,7 +280,7 @@ class CQLPolicy(SACPolicy[TCQLTrainingStats]):
 
             target_Q = torch.min(target_Q1, target_Q2) - self.alpha * new_log_pi
 
-            target_Q = rew + torch.logical_not(batch.done) * self.gamma * target_Q.flatten()
+            target_Q = rew + torch.logical_not(batch.terminated) * self.gamma * target_Q.flatten()
             target_Q = target_Q.float()
             # shape: (batch_size)
 
-- 
2.43.0


From 6d61d6b76f94700ce0d2f82bdf08ff1da8bc4dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:13 +0000
Subject: [PATCH 37/88] fix: CQL drew its random actions from a degenerate
 range

---
 tianshou/policy/imitation/cql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/policy/imitation/cql.py b/tianshou/policy/imitation/cql.py
index 1ff62f9..8efa0a7 100644
--- a/tianshou/policy/imitation/cql.py
+++ b/tianshou/policy/imitation/cql.py
@@ -295,7 +295,7 @@ class CQLPolicy(SACPolicy[TCQLTrainingStats]):
         # CQL
         random_actions = (
             torch.FloatTensor(batch_size * self.num_repeat_actions, act.shape[-1])
-            .uniform_(-self.min_action, self.max_action)
+            .uniform_(self.min_action, self.max_action)
             .to(self.device)
         )
 
-- 
2.43.0


From 8dbdd3df604dde23069d83672e00787da4573cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:13 +0000
Subject: [PATCH 38/88] fix: CQL could not process a buffer twice

---
 tianshou/policy/imitation/cql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/policy/imitation/cql.py b/tianshou/policy/imitation/cql.py
index 8efa0a7..e0abd0b 100644
--- a/tianshou/policy/imitation/cql.py
+++ b/tianshou/policy/imitation/cql.py
@@ -230,7 +230,7 @@ class CQLPolicy(SACPolicy[TCQLTrainingStats]):
             # TODO: don't access _meta directly
             buffer._meta = cast(
                 RolloutBatchProtocol,
-                Batch(**buffer._meta.__dict__, calibration_returns=returns),
+                Batch(**{**buffer._meta.__dict__, "calibration_returns": returns}),
             )
         return buffer
 
-- 
2.43.0


From 9fdb70c86526837e0f39dc24508cdcb0d1c03cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:13 +0000
Subject: [PATCH 39/88] fix: CQL assigned calibration returns to the wrong
 transitions of partly filled or wrapped buffers

---
 tianshou/policy/imitation/cql.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tianshou/policy/imitation/cql.py b/tianshou/policy/imitation/cql.py
index e0abd0b..962c6f8 100644
--- a/tianshou/policy/imitation/cql.py
+++ b/tianshou/policy/imitation/cql.py
@@ -227,10 +227,13 @@ class CQLPolicy(SACPolicy[TCQLTrainingStats]):
                 gamma=self.gamma,
                 gae_lambda=1.0,
             )
+            # one entry per slot: the sampled rows are in chronological order and may not fill the buffer
+            slot_returns = np.zeros((buffer.maxsize, *returns.shape[1:]), dtype=returns.dtype)
+            slot_returns[indices] = returns
             # TODO: don't access _meta directly
             buffer._meta = cast(
                 RolloutBatchProtocol,
-                Batch(**{**buffer._meta.__dict__, "calibration_returns": returns}),
+                Batch(**{**buffer._meta.__dict__, "calibration_returns": slot_returns}),
             )
         return buffer
 
-- 
2.43.0


From 2a51927b0fb602c9386afa4caaeaba77aeb9dcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:13 +0000
Subject: [PATCH 40/88] fix: CQL took its log-sum-exp over three values instead
 of all sampled actions

---
 tianshou/policy/imitation/cql.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/tianshou/policy/imitation/cql.py b/tianshou/policy/imitation/cql.py
index 962c6f8..1a5e182 100644
--- a/tianshou/policy/imitation/cql.py
+++ b/tianshou/policy/imitation/cql.py
@@ -314,16 +314,6 @@ class CQLPolicy(SACPolicy[TCQLTrainingStats]):
 
         random_value1, random_value2 = self.calc_random_values(tmp_obs, random_actions)
 
-        for value in [
-            current_pi_value1,
-            current_pi_value2,
-            next_pi_value1,
-            next_pi_value2,
-            random_value1,
-            random_value2,
-        ]:
-            value.reshape(batch_size, self.num_repeat_actions, 1)
-
         if self.calibrated:
             returns = (
                 batch.calibration_returns.unsqueeze(1)
@@ -342,9 +332,21 @@ class CQLPolicy(SACPolicy[TCQLTrainingStats]):
             next_pi_value2 = torch.max(next_pi_value2, returns)
 
         # cat q values
-        cat_q1 = torch.cat([random_value1, current_pi_value1, next_pi_value1], 1)
-        cat_q2 = torch.cat([random_value2, current_pi_value2, next_pi_value2], 1)
-        # shape: (batch_size, 3 * num_repeat, 1)
+        cat_q1 = torch.cat(
+            [
+                value.reshape(batch_size, self.num_repeat_actions)
+                for value in (random_value1, current_pi_value1, next_pi_value1)
+            ],
+            1,
+        )
+        cat_q2 = torch.cat(
+            [
+                value.reshape(batch_size, self.num_repeat_actions)
+                for value in (random_value2, current_pi_value2, next_pi_value2)
+            ],
+            1,
+        )
+        # shape: (batch_size, 3 * num_repeat)
 
         cql1_scaled_loss = (
             torch.logsumexp(cat_q1 / self.temperature, dim=1).mean()
-- 
2.43.0


From 50bcd9a74a6912a1781dbc311785b74c6f692273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:13 +0000
Subject: [PATCH 41/88] fix: GAIL failed for batches with fewer rows than
 discriminator updates

---
 tianshou/policy/imitation/gail.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/policy/imitation/gail.py b/tianshou/policy/imitation/gail.py
index 524f040..9793baf 100644
--- a/tianshou/policy/imitation/gail.py
+++ b/tianshou/policy/imitation/gail.py
@@ -169,7 +169,7 @@ class GAILPolicy(PPOPolicy[TGailTrainingStats]):
         losses = []
         acc_pis = []
         acc_exps = []
-        bsz = len(batch) // self.disc_update_num
+        bsz = max(1, len(batch) // self.disc_update_num)
         for b in batch.split(bsz, merge_last=True):
             logits_pi = self.disc(b)
             exp_b = self.expert_buffer.sample(bsz)[0]
-- 
2.43.0


From 0f530bfc93ce35e0cf4ee1ad4f676524ff01aee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:25 +0000
Subject: [PATCH 42/88] fix: DiscreteCRR weighted every action with the mean
 weight of the batch

---
 tianshou/policy/imitation/discrete_crr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/policy/imitation/discrete_crr.py b/tianshou/policy/imitation/discrete_crr.py
index 1a6b32a..3e6abfd 100644
--- a/tianshou/policy/imitation/discrete_crr.py
+++ b/tianshou/policy/imitation/discrete_crr.py
@@ -137,7 +137,7 @@ class DiscreteCRRPolicy(PGPolicy[TDiscreteCRRTrainingStats]):
             actor_loss_coef = (advantage / self._beta).exp().clamp(0, self._ratio_upper_bound)
         else:
             actor_loss_coef = 1.0  # effectively behavior cloning
-        actor_loss = (-dist.log_prob(act) * actor_loss_coef).mean()
+        actor_loss = (-dist.log_prob(act).unsqueeze(1) * actor_loss_coef).mean()
         # CQL loss/regularizer
         min_q_loss = (q_t.logsumexp(1) - qa_t).mean()
         loss = actor_loss + critic_loss + self._min_q_weight * min_q_loss
-- 
2.43.0


From 5f2a96159f61109a45e738ffe68ee32b11cf162e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:07 +0000
Subject: [PATCH 43/88] fix: BCQ kept target networks in train mode and the VAE
 out of eval mode

---
 tianshou/policy/imitation/bcq.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tianshou/policy/imitation/bcq.py b/tianshou/policy/imitation/bcq.py
index 69481c3..bb7a2ad 100644
--- a/tianshou/policy/imitation/bcq.py
+++ b/tianshou/policy/imitation/bcq.py
@@ -92,16 +92,19 @@ class BCQPolicy(BasePolicy[TBCQTrainingStats], Generic[TBCQTrainingStats]):
         )
         self.actor_perturbation = actor_perturbation
         self.actor_perturbation_target = copy.deepcopy(self.actor_perturbation)
+        self.actor_perturbation_target.eval()
         self.actor_perturbation_optim = actor_perturbation_optim
 
         self.critic = critic
         self.critic_target = copy.deepcopy(self.critic)
+        self.critic_target.eval()
         self.critic_optim = critic_optim
 
         critic2 = critic2 or copy.deepcopy(critic)
         critic2_optim = critic2_optim or clone_optimizer(critic_optim, critic2.parameters())
         self.critic2 = critic2
         self.critic2_target = copy.deepcopy(self.critic2)
+        self.critic2_target.eval()
         self.critic2_optim = critic2_optim
 
         self.vae = vae
@@ -120,6 +123,7 @@ class BCQPolicy(BasePolicy[TBCQTrainingStats], Generic[TBCQTrainingStats]):
         self.actor_perturbation.train(mode)
         self.critic.train(mode)
         self.critic2.train(mode)
+        self.vae.train(mode)
         return self
 
     def forward(
-- 
2.43.0


From 7378745912f89bd38b25428f9f28a2099f4b1b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:07 +0000
Subject: [PATCH 44/88] fix: DiscreteCRR switched its target networks to train
 mode

---
 tianshou/policy/imitation/discrete_crr.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tianshou/policy/imitation/discrete_crr.py b/tianshou/policy/imitation/discrete_crr.py
index 3e6abfd..fe5a975 100644
--- a/tianshou/policy/imitation/discrete_crr.py
+++ b/tianshou/policy/imitation/discrete_crr.py
@@ -1,6 +1,6 @@
 from copy import deepcopy
 from dataclasses import dataclass
-from typing import Any, Literal, TypeVar
+from typing import Any, Literal, Self, TypeVar
 
 import gymnasium as gym
 import torch
@@ -100,6 +100,13 @@ class DiscreteCRRPolicy(PGPolicy[TDiscreteCRRTrainingStats]):
         self._beta = beta
         self._min_q_weight = min_q_weight
 
+    def train(self, mode: bool = True) -> Self:
+        """Set the module in training mode, except for the target networks."""
+        self.training = mode
+        self.actor.train(mode)
+        self.critic.train(mode)
+        return self
+
     def sync_weight(self) -> None:
         self.actor_old.load_state_dict(self.actor.state_dict())
         self.critic_old.load_state_dict(self.critic.state_dict())
-- 
2.43.0


From 6ded3c9134f7b7a6840984bec4f2878275051b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:07 +0000
Subject: [PATCH 45/88] fix: FQF never switched its fraction network between
 train and eval mode

---
 tianshou/policy/modelfree/fqf.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tianshou/policy/modelfree/fqf.py b/tianshou/policy/modelfree/fqf.py
index 9c87f9c..981c93a 100644
--- a/tianshou/policy/modelfree/fqf.py
+++ b/tianshou/policy/modelfree/fqf.py
@@ -1,5 +1,5 @@
 from dataclasses import dataclass
-from typing import Any, Literal, TypeVar, cast
+from typing import Any, Literal, Self, TypeVar, cast
 
 import gymnasium as gym
 import numpy as np
@@ -94,6 +94,12 @@ class FQFPolicy(QRDQNPolicy[TFQFTrainingStats]):
         self.ent_coef = ent_coef
         self.fraction_optim = fraction_optim
 
+    def train(self, mode: bool = True) -> Self:
+        """Set the module in training mode, except for the target network."""
+        super().train(mode)
+        self.fraction_model.train(mode)
+        return self
+
     def _target_q(self, buffer: ReplayBuffer, indices: np.ndarray) -> torch.Tensor:
         obs_next_batch = Batch(
             obs=buffer[indices].obs_next,
-- 
2.43.0


From b9b7592a9b79928e20662d57537918db7af9d84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:42 +0000
Subject: [PATCH 46/88] fix: ICM did not tell its inner policy about training
 steps

---
 tianshou/policy/modelbased/icm.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tianshou/policy/modelbased/icm.py b/tianshou/policy/modelbased/icm.py
index 9a603b7..6f48dd5 100644
--- a/tianshou/policy/modelbased/icm.py
+++ b/tianshou/policy/modelbased/icm.py
@@ -16,6 +16,7 @@ from tianshou.policy.base import (
     TTrainingStats,
 )
 from tianshou.utils.net.discrete import IntrinsicCuriosityModule
+from tianshou.utils.torch_utils import policy_within_training_step
 
 
 class ICMTrainingStats(TrainingStatsWrapper):
@@ -103,7 +104,8 @@ class ICMPolicy(BasePolicy[ICMTrainingStats]):
             Please refer to :meth:`~tianshou.policy.BasePolicy.forward` for
             more detailed explanation.
         """
-        return self.policy.forward(batch, state, **kwargs)
+        with policy_within_training_step(self.policy, self.is_within_training_step):
+            return self.policy.forward(batch, state, **kwargs)
 
     _TArrOrActBatch = TypeVar("_TArrOrActBatch", bound="np.ndarray | ActBatchProtocol")
 
@@ -134,7 +136,8 @@ class ICMPolicy(BasePolicy[ICMTrainingStats]):
         mse_loss, act_hat = self.model(batch.obs, batch.act, batch.obs_next)
         batch.policy = Batch(orig_rew=batch.rew, act_hat=act_hat, mse_loss=mse_loss)
         batch.rew += to_numpy(mse_loss * self.reward_scale)
-        return self.policy.process_fn(batch, buffer, indices)
+        with policy_within_training_step(self.policy, self.is_within_training_step):
+            return self.policy.process_fn(batch, buffer, indices)
 
     def post_process_fn(
         self,
@@ -156,7 +159,8 @@ class ICMPolicy(BasePolicy[ICMTrainingStats]):
         *args: Any,
         **kwargs: Any,
     ) -> ICMTrainingStats:
-        training_stat = self.policy.learn(batch, **kwargs)
+        with policy_within_training_step(self.policy, self.is_within_training_step):
+            training_stat = self.policy.learn(batch, **kwargs)
         self.optim.zero_grad()
         act_hat = batch.policy.act_hat
         act = to_torch(batch.act, dtype=torch.long, device=act_hat.device)
-- 
2.43.0


From 8bfadfddadc5d1f5b9f4f88f251233068040d73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:42 +0000
Subject: [PATCH 47/88] fix: MultiAgentPolicyManager did not tell its policies
 about training steps

---
 tianshou/policy/multiagent/mapolicy.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/tianshou/policy/multiagent/mapolicy.py b/tianshou/policy/multiagent/mapolicy.py
index 05cc8db..71df63a 100644
--- a/tianshou/policy/multiagent/mapolicy.py
+++ b/tianshou/policy/multiagent/mapolicy.py
@@ -8,6 +8,7 @@ from tianshou.data.batch import BatchProtocol, IndexType
 from tianshou.data.types import ActBatchProtocol, ObsBatchProtocol, RolloutBatchProtocol
 from tianshou.policy import BasePolicy
 from tianshou.policy.base import TLearningRateScheduler, TrainingStats
+from tianshou.utils.torch_utils import policy_within_training_step
 
 try:
     from tianshou.env.pettingzoo_env import PettingZooEnv
@@ -155,7 +156,8 @@ class MultiAgentPolicyManager(BasePolicy):
                     tmp_batch.obs = tmp_batch.obs.obs
                 if hasattr(tmp_batch.obs_next, "obs"):
                     tmp_batch.obs_next = tmp_batch.obs_next.obs
-            results[agent] = policy.process_fn(tmp_batch, buffer, tmp_indice)
+            with policy_within_training_step(policy, self.is_within_training_step):
+                results[agent] = policy.process_fn(tmp_batch, buffer, tmp_indice)
         if has_rew:  # restore from save_rew
             buffer._meta.rew = save_rew
         return cast(MAPRolloutBatchProtocol, Batch(results))
@@ -233,11 +235,12 @@ class MultiAgentPolicyManager(BasePolicy):
                     tmp_batch.obs = tmp_batch.obs.obs
                 if hasattr(tmp_batch.obs_next, "obs"):
                     tmp_batch.obs_next = tmp_batch.obs_next.obs
-            out = policy(
-                batch=tmp_batch,
-                state=None if state is None else state[agent_id],
-                **kwargs,
-            )
+            with policy_within_training_step(policy, self.is_within_training_step):
+                out = policy(
+                    batch=tmp_batch,
+                    state=None if state is None else state[agent_id],
+                    **kwargs,
+                )
             act = out.act
             each_state = out.state if (hasattr(out, "state") and out.state is not None) else Batch()
             results.append((True, agent_index, out, act, each_state))
@@ -273,7 +276,8 @@ class MultiAgentPolicyManager(BasePolicy):
         for agent_id, policy in self.policies.items():
             data = batch[agent_id]
             if len(data.get_keys()) != 0:
-                train_stats = policy.learn(batch=data, **kwargs)
+                with policy_within_training_step(policy, self.is_within_training_step):
+                    train_stats = policy.learn(batch=data, **kwargs)
                 agent_id_to_stats[agent_id] = train_stats
         return MapTrainingStats(agent_id_to_stats)
 
-- 
2.43.0


From 11f141d3de1f18aa5ca5e0abf64f632af0942053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:42 +0000
Subject: [PATCH 48/88] fix: MultiAgentPolicyManager left its policies in train
 mode after an update in eval mode

---
 tianshou/policy/multiagent/mapolicy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tianshou/policy/multiagent/mapolicy.py b/tianshou/policy/multiagent/mapolicy.py
index 71df63a..bd5ed94 100644
--- a/tianshou/policy/multiagent/mapolicy.py
+++ b/tianshou/policy/multiagent/mapolicy.py
@@ -285,6 +285,7 @@ class MultiAgentPolicyManager(BasePolicy):
     # No need for a similar eval function, as eval internally uses the train function.
     def train(self, mode: bool = True) -> Self:
         """Set each internal policy in training mode."""
+        self.training = mode
         for policy in self.policies.values():
             policy.train(mode)
         return self
-- 
2.43.0


From 064ca2bd63437ec75af39502aa3d1f5f5974ab9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:45 +0000
Subject: [PATCH 49/88] fix: RandomActionPolicy's actions were clipped to [-1,
 1]

---
 tianshou/policy/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tianshou/policy/base.py b/tianshou/policy/base.py
index 066a23a..19180ac 100644
--- a/tianshou/policy/base.py
+++ b/tianshou/policy/base.py
@@ -736,7 +736,8 @@ class RandomActionPolicy(BasePolicy):
         self,
         action_space: gym.Space,
     ) -> None:
-        super().__init__(action_space=action_space)
+        # the actor samples from the action space, so there is nothing to be bounded
+        super().__init__(action_space=action_space, action_bound_method=None)
         if not isinstance(action_space, gym.spaces.Discrete | gym.spaces.Box):
             raise NotImplementedError(
                 f"RandomActionPolicy currently only supports Discrete and Box action spaces, but got {action_space}.",
-- 
2.43.0


From 3c6a47e6909837919f2c5a0944f901e4376dcf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:45 +0000
Subject: [PATCH 50/88] fix: compute_action failed for scalar observations and
 dropped action dimensions of size one

---
 tianshou/policy/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tianshou/policy/base.py b/tianshou/policy/base.py
index 19180ac..b80e9f4 100644
--- a/tianshou/policy/base.py
+++ b/tianshou/policy/base.py
@@ -303,9 +303,9 @@ class BasePolicy(nn.Module, Generic[TTrainingStats], ABC):
         :return: action as int (for discrete env's) or array (for continuous ones).
         """
         obs = np.array(obs)  # convert array-like to array (e.g. LazyFrames)
-        obs = obs[None, :]  # add batch dimension
+        obs = obs[None]  # add batch dimension
         obs_batch = cast(ObsBatchProtocol, Batch(obs=obs, info=info))
-        act = self.forward(obs_batch, state=state).act.squeeze()
+        act = self.forward(obs_batch, state=state).act[0]  # remove batch dimension
         if isinstance(act, torch.Tensor):
             act = act.detach().cpu().numpy()
         act = self.map_action(act)
-- 
2.43.0


From 89c20b89ab541292b1425bbe07842ee5af816cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:40 +0000
Subject: [PATCH 51/88] fix: PSRL wrote its observations into the caller's
 transition prior

---
 tianshou/policy/modelbased/psrl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tianshou/policy/modelbased/psrl.py b/tianshou/policy/modelbased/psrl.py
index 8c13747..433ecab 100644
--- a/tianshou/policy/modelbased/psrl.py
+++ b/tianshou/policy/modelbased/psrl.py
@@ -44,7 +44,8 @@ class PSRLModel:
         discount_factor: float,
         epsilon: float,
     ) -> None:
-        self.trans_count = trans_count_prior
+        # a copy: the counts are updated in place by observe()
+        self.trans_count = np.array(trans_count_prior, dtype=float)
         self.n_state, self.n_action = rew_mean_prior.shape
         self.rew_mean = rew_mean_prior
         self.rew_std = rew_std_prior
-- 
2.43.0


From 9ef9e3233e065e451871b968ffa82f53fb77e35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:32 +0000
Subject: [PATCH 52/88] fix: PSRL lost the reward prior of unobserved pairs and
 got NaN deviations with non-zero prior means

---
 tianshou/policy/modelbased/psrl.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tianshou/policy/modelbased/psrl.py b/tianshou/policy/modelbased/psrl.py
index 433ecab..5af843f 100644
--- a/tianshou/policy/modelbased/psrl.py
+++ b/tianshou/policy/modelbased/psrl.py
@@ -49,7 +49,8 @@ class PSRLModel:
         self.n_state, self.n_action = rew_mean_prior.shape
         self.rew_mean = rew_mean_prior
         self.rew_std = rew_std_prior
-        self.rew_square_sum = np.zeros_like(rew_mean_prior)
+        # consistent with rew_count, in which the prior mean has the weight epsilon
+        self.rew_square_sum = epsilon * np.square(rew_mean_prior, dtype=float)
         self.rew_std_prior = rew_std_prior
         self.discount_factor = discount_factor
         self.rew_count = np.full(rew_mean_prior.shape, epsilon)  # no weight
@@ -88,9 +89,11 @@ class PSRLModel:
         sum_count = self.rew_count + rew_count
         self.rew_mean = (self.rew_mean * self.rew_count + rew_sum) / sum_count
         self.rew_square_sum += rew_square_sum
-        raw_std2 = self.rew_square_sum / sum_count - self.rew_mean**2
+        raw_std2 = np.maximum(self.rew_square_sum / sum_count - self.rew_mean**2, 0)
+        # the weight of the prior mean is not an observation
+        obs_count = sum_count - self.eps
         self.rew_std = np.sqrt(
-            1 / (sum_count / (raw_std2 + self.__eps) + 1 / self.rew_std_prior**2),
+            1 / (obs_count / (raw_std2 + self.__eps) + 1 / self.rew_std_prior**2),
         )
         self.rew_count = sum_count
 
-- 
2.43.0


From eff7a713fc8cf380ee8ca19124d084a231d04f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:32 +0000
Subject: [PATCH 53/88] fix: OUNoise restarted at every call if the size was
 not given as a tuple

---
 tianshou/exploration/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/exploration/random.py b/tianshou/exploration/random.py
index a797a90..af91508 100644
--- a/tianshou/exploration/random.py
+++ b/tianshou/exploration/random.py
@@ -73,7 +73,7 @@ class OUNoise(BaseNoise):
 
         Return an numpy array which size is equal to ``size``.
         """
-        if self._x is None or isinstance(self._x, np.ndarray) and self._x.shape != size:
+        if self._x is None or isinstance(self._x, np.ndarray) and self._x.shape != tuple(size):
             self._x = 0.0
         if mu is None:
             mu = self._mu
-- 
2.43.0


From cef8bc860a9239651798f8059705ef1f10d73e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:32 +0000
Subject: [PATCH 54/88] fix: MultiAgentPolicyManager could not compute actions
 without action masks while collecting

---
 tianshou/policy/multiagent/mapolicy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/policy/multiagent/mapolicy.py b/tianshou/policy/multiagent/mapolicy.py
index bd5ed94..3318671 100644
--- a/tianshou/policy/multiagent/mapolicy.py
+++ b/tianshou/policy/multiagent/mapolicy.py
@@ -233,7 +233,7 @@ class MultiAgentPolicyManager(BasePolicy):
             if not hasattr(tmp_batch.obs, "mask"):
                 if hasattr(tmp_batch.obs, "obs"):
                     tmp_batch.obs = tmp_batch.obs.obs
-                if hasattr(tmp_batch.obs_next, "obs"):
+                if hasattr(tmp_batch, "obs_next") and hasattr(tmp_batch.obs_next, "obs"):
                     tmp_batch.obs_next = tmp_batch.obs_next.obs
             with policy_within_training_step(policy, self.is_within_training_step):
                 out = policy(
-- 
2.43.0


From a3ac01807d4d61d5426f4672251aeac44bcc5f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:07 +0000
Subject: [PATCH 55/88] fix: the evaluation that confirms an early stop during
 training ignored reward_metric

---
 tianshou/trainer/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tianshou/trainer/base.py b/tianshou/trainer/base.py
index 355c9d3..bb1f892 100644
--- a/tianshou/trainer/base.py
+++ b/tianshou/trainer/base.py
@@ -563,6 +563,7 @@ class BaseTrainer(ABC):
                     self.episode_per_test,
                     self.logger,
                     self.env_step,
+                    self.reward_metric,
                 )
                 assert test_result.returns_stat is not None  # for mypy
                 if self.stop_fn(test_result.returns_stat.mean):
-- 
2.43.0


From 34c27896ad48812b912378c4af474c17a27b07ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:07 +0000
Subject: [PATCH 56/88] fix: the policy that stopped training early was
 reported as the best but not passed to save_best_fn

---
 tianshou/trainer/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tianshou/trainer/base.py b/tianshou/trainer/base.py
index bb1f892..8bc9233 100644
--- a/tianshou/trainer/base.py
+++ b/tianshou/trainer/base.py
@@ -571,6 +571,9 @@ class BaseTrainer(ABC):
                     self.best_reward = test_result.returns_stat.mean
                     self.best_reward_std = test_result.returns_stat.std
                     self.best_score = self.compute_score_fn(test_result)
+                    self.best_epoch = self.epoch
+                    if self.save_best_fn:
+                        self.save_best_fn(self.policy)
 
         return should_stop_training
 
-- 
2.43.0


From 443ed6f8f8519b11736bed90f03b4ec63518a601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:07 +0000
Subject: [PATCH 57/88] fix: trainers resumed at max_epoch trained for another
 epoch

---
 tianshou/trainer/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tianshou/trainer/base.py b/tianshou/trainer/base.py
index 8bc9233..091d1fd 100644
--- a/tianshou/trainer/base.py
+++ b/tianshou/trainer/base.py
@@ -317,11 +317,11 @@ class BaseTrainer(ABC):
         self.epoch += 1
         self.iter_num += 1
 
-        if self.iter_num > 1:
-            # iterator exhaustion check
-            if self.epoch > self.max_epoch:
-                raise StopIteration
+        # iterator exhaustion check
+        if self.epoch > self.max_epoch:
+            raise StopIteration
 
+        if self.iter_num > 1:
             # exit flag 1, when stop_fn succeeds in train_step or test_step
             if self.stop_fn_flag:
                 raise StopIteration
-- 
2.43.0


From 46bfb202ba3d83b497fff13ef8f1033db167a4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:07 +0000
Subject: [PATCH 58/88] fix: resetting a trainer kept its gradient steps,
 episodes, update time and smoothed losses

---
 tianshou/trainer/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tianshou/trainer/base.py b/tianshou/trainer/base.py
index 091d1fd..f88f8ae 100644
--- a/tianshou/trainer/base.py
+++ b/tianshou/trainer/base.py
@@ -264,6 +264,10 @@ class BaseTrainer(ABC):
         """Initialize or reset the instance to yield a new iterator from zero."""
         self.is_run = False
         self.env_step = 0
+        self.env_episode = 0
+        self._gradient_step = 0
+        self.policy_update_time = 0.0
+        self.stat.clear()
         if self.resume_from_log:
             (
                 self.start_epoch,
-- 
2.43.0


From 665bf4f22542d442fd97fae3ef4769638f51eeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:07 +0000
Subject: [PATCH 59/88] fix: OnpolicyTrainer counted two gradient steps for an
 update on the whole buffer

---
 tianshou/trainer/base.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tianshou/trainer/base.py b/tianshou/trainer/base.py
index f88f8ae..6ea6895 100644
--- a/tianshou/trainer/base.py
+++ b/tianshou/trainer/base.py
@@ -764,9 +764,7 @@ class OnpolicyTrainer(BaseTrainer):
         # TODO: remove the gradient step counting in trainers? Doesn't seem like
         #   it's important and it adds complexity
         self._gradient_step += 1
-        if self.batch_size is None:
-            self._gradient_step += 1
-        elif self.batch_size > 0:
+        if self.batch_size is not None and self.batch_size > 0:
             self._gradient_step += int((len(self.train_collector.buffer) - 0.1) // self.batch_size)
 
         # Note 1: this is the main difference to the off-policy trainer!
-- 
2.43.0


From 646bd38d4623a5a28fe4b0237bab480f977256a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:07 +0000
Subject: [PATCH 60/88] fix: trainers without a test collector failed unless
 episode_per_test was given

---
 tianshou/trainer/base.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tianshou/trainer/base.py b/tianshou/trainer/base.py
index 6ea6895..0708477 100644
--- a/tianshou/trainer/base.py
+++ b/tianshou/trainer/base.py
@@ -495,7 +495,6 @@ class BaseTrainer(ABC):
 
         :return: the data collection stats
         """
-        assert self.episode_per_test is not None
         assert self.train_collector is not None
         if self.train_fn:
             self.train_fn(self.epoch, self.env_step)
-- 
2.43.0


From b741e5eb0020d67e8054714490463096bdebc44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:34 +0000
Subject: [PATCH 61/88] fix: make DiscreteCRRPolicy picklable (no lambda as
 dist_fn)

---
 tianshou/policy/imitation/discrete_crr.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tianshou/policy/imitation/discrete_crr.py b/tianshou/policy/imitation/discrete_crr.py
index fe5a975..b6535b8 100644
--- a/tianshou/policy/imitation/discrete_crr.py
+++ b/tianshou/policy/imitation/discrete_crr.py
@@ -24,6 +24,11 @@ class DiscreteCRRTrainingStats(PGTrainingStats):
 TDiscreteCRRTrainingStats = TypeVar("TDiscreteCRRTrainingStats", bound=DiscreteCRRTrainingStats)
 
 
+def _categorical_from_logits(logits: torch.Tensor) -> Categorical:
+    # a module-level function, because a lambda would make the policy impossible to pickle
+    return Categorical(logits=logits)
+
+
 class DiscreteCRRPolicy(PGPolicy[TDiscreteCRRTrainingStats]):
     r"""Implementation of discrete Critic Regularized Regression. arXiv:2006.15134.
 
@@ -75,7 +80,7 @@ class DiscreteCRRPolicy(PGPolicy[TDiscreteCRRTrainingStats]):
             actor=actor,
             optim=optim,
             action_space=action_space,
-            dist_fn=lambda x: Categorical(logits=x),
+            dist_fn=_categorical_from_logits,
             discount_factor=discount_factor,
             reward_normalization=reward_normalization,
             observation_space=observation_space,
-- 
2.43.0


From c303c256552b684626ed208141991b51238d592f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:34 +0000
Subject: [PATCH 62/88] fix: restore learning rate schedulers through their own
 load_state_dict

---
 tianshou/utils/lr_scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/utils/lr_scheduler.py b/tianshou/utils/lr_scheduler.py
index 59890c7..2fc3513 100644
--- a/tianshou/utils/lr_scheduler.py
+++ b/tianshou/utils/lr_scheduler.py
@@ -37,4 +37,4 @@ class MultipleLRSchedulers:
             state_dict, in the same order as the schedulers.
         """
         for s, sd in zip(self.schedulers, state_dict, strict=True):
-            s.__dict__.update(sd)
+            s.load_state_dict(sd)
-- 
2.43.0


From da3616a763f76073d1501e7e02df58cac97fb1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:35 +0000
Subject: [PATCH 63/88] fix: ActorProb returns the hidden state of its
 preprocessing net

---
 tianshou/utils/net/continuous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/utils/net/continuous.py b/tianshou/utils/net/continuous.py
index a0b85ed..722bfeb 100644
--- a/tianshou/utils/net/continuous.py
+++ b/tianshou/utils/net/continuous.py
@@ -258,7 +258,7 @@ class ActorProb(BaseActor):
             shape = [1] * len(mu.shape)
             shape[1] = -1
             sigma = (self.sigma_param.view(shape) + torch.zeros_like(mu)).exp()
-        return (mu, sigma), state
+        return (mu, sigma), hidden
 
 
 class RecurrentActorProb(nn.Module):
-- 
2.43.0


From cfba7e83b94112759e02b0af185cf0fd37205829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:35 +0000
Subject: [PATCH 64/88] fix: accept preprocess_net_output_dim for nets without
 output_dim

---
 tianshou/utils/net/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/utils/net/common.py b/tianshou/utils/net/common.py
index 243a040..f21853d 100644
--- a/tianshou/utils/net/common.py
+++ b/tianshou/utils/net/common.py
@@ -698,7 +698,7 @@ def getattr_with_matching_alt_value(obj: Any, attr_name: str, alt_value: T | Non
         if the attribute is not present
     :return: the value
     """
-    v = getattr(obj, attr_name)
+    v = getattr(obj, attr_name, None)
     if v is not None:
         if alt_value is not None and v != alt_value:
             raise ValueError(
-- 
2.43.0


From 902f61e485f151956fbffbbd007dcb706eff6357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:35 +0000
Subject: [PATCH 65/88] fix: BranchingNet without common hidden layers

---
 tianshou/utils/net/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tianshou/utils/net/common.py b/tianshou/utils/net/common.py
index f21853d..6405328 100644
--- a/tianshou/utils/net/common.py
+++ b/tianshou/utils/net/common.py
@@ -516,7 +516,7 @@ class BranchingNet(NetBase[Any]):
             device,
         )
         # value network
-        value_input_dim = common_hidden_sizes[-1]
+        value_input_dim = self.common.output_dim
         value_output_dim = 1
         self.value = MLP(
             value_input_dim,
@@ -529,7 +529,7 @@ class BranchingNet(NetBase[Any]):
             device,
         )
         # action branching network
-        action_input_dim = common_hidden_sizes[-1]
+        action_input_dim = self.common.output_dim
         action_output_dim = action_per_branch
         self.branches = nn.ModuleList(
             [
-- 
2.43.0


From b80a638617d67ee333757a90175486211ce830e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:55 +0000
Subject: [PATCH 66/88] fix: dict state decorator for single observations of
 differing shapes

---
 tianshou/utils/net/common.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tianshou/utils/net/common.py b/tianshou/utils/net/common.py
index 6405328..3be2d2c 100644
--- a/tianshou/utils/net/common.py
+++ b/tianshou/utils/net/common.py
@@ -583,7 +583,7 @@ def get_dict_state_decorator(
         this list order.
     :returns: a 2-items tuple ``decorator_fn`` and ``new_state_shape``
     """
-    original_shape = state_shape
+    first_ndim = int(np.size(state_shape[keys[0]]))
     flat_state_shapes = []
     for k in keys:
         flat_state_shapes.append(int(np.prod(state_shape[k])))
@@ -591,9 +591,11 @@ def get_dict_state_decorator(
 
     def preprocess_obs(obs: Batch | dict | torch.Tensor | np.ndarray) -> torch.Tensor:
         if isinstance(obs, dict) or (isinstance(obs, Batch) and keys[0] in obs):
-            if original_shape[keys[0]] == obs[keys[0]].shape:
+            if len(obs[keys[0]].shape) == first_ndim:
                 # No batch dim
-                new_obs = torch.Tensor([obs[k] for k in keys]).flatten()
+                new_obs = torch.cat(
+                    [torch.as_tensor(obs[k], dtype=torch.float32).flatten() for k in keys],
+                )
                 # new_obs = torch.Tensor([obs[k] for k in keys]).reshape(1, -1)
             else:
                 bsz = obs[keys[0]].shape[0]
-- 
2.43.0


From aac7f2b1c9c612b79ce36d4cdc4f1e26b7d04d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:16 +0000
Subject: [PATCH 67/88] fix: Experiment.run returns the result of the training

---
 tianshou/highlevel/experiment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/highlevel/experiment.py b/tianshou/highlevel/experiment.py
index c0be23d..721bc60 100644
--- a/tianshou/highlevel/experiment.py
+++ b/tianshou/highlevel/experiment.py
@@ -435,7 +435,7 @@ class Experiment(ToStringMixin, DataclassPPrintMixin):
                     )
 
                 log.info("Starting training")
-                world.trainer.run()
+                trainer_result = world.trainer.run()
                 if use_persistence:
                     world.logger.finalize()
                 log.info(f"Training result:\n{pformat(trainer_result)}")
-- 
2.43.0


From d817ebbf342d49e7f8f099679714e5328dbfa41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:16 +0000
Subject: [PATCH 68/88] fix: SamplingConfig.episode_per_collect reaches the
 trainer

---
 tianshou/highlevel/agent.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tianshou/highlevel/agent.py b/tianshou/highlevel/agent.py
index 2ad5339..2b13950 100644
--- a/tianshou/highlevel/agent.py
+++ b/tianshou/highlevel/agent.py
@@ -196,6 +196,7 @@ class OnPolicyAgentFactory(AgentFactory, ABC):
             episode_per_test=sampling_config.num_test_episodes,
             batch_size=sampling_config.batch_size,
             step_per_collect=sampling_config.step_per_collect,
+            episode_per_collect=sampling_config.episode_per_collect,
             save_best_fn=policy_persistence.get_save_best_fn(world),
             save_checkpoint_fn=policy_persistence.get_save_checkpoint_fn(world),
             logger=world.logger,
@@ -238,6 +239,7 @@ class OffPolicyAgentFactory(AgentFactory, ABC):
             max_epoch=sampling_config.num_epochs,
             step_per_epoch=sampling_config.step_per_epoch,
             step_per_collect=sampling_config.step_per_collect,
+            episode_per_collect=sampling_config.episode_per_collect,
             episode_per_test=sampling_config.num_test_episodes,
             batch_size=sampling_config.batch_size,
             save_best_fn=policy_persistence.get_save_best_fn(world),
-- 
2.43.0


From 4ed9d8d6cf7be745f4f4e6951bc8d892408ff0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:16 +0000
Subject: [PATCH 69/88] fix: ActorFactoryDefault uses the given hidden sizes
 and activation in the discrete case

---
 tianshou/highlevel/module/actor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tianshou/highlevel/module/actor.py b/tianshou/highlevel/module/actor.py
index 4a1fe5c..edec2ea 100644
--- a/tianshou/highlevel/module/actor.py
+++ b/tianshou/highlevel/module/actor.py
@@ -140,8 +140,9 @@ class ActorFactoryDefault(ActorFactory):
                     raise ValueError(self.continuous_actor_type)
         elif env_type == EnvType.DISCRETE:
             factory = ActorFactoryDiscreteNet(
-                self.DEFAULT_HIDDEN_SIZES,
+                self.hidden_sizes,
                 softmax_output=self.discrete_softmax,
+                activation=self.hidden_activation,
             )
         else:
             raise ValueError(f"{env_type} not supported")
-- 
2.43.0


From d645628cd21ed212c68f18735123da08ec5522a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:16 +0000
Subject: [PATCH 70/88] fix: LoggerFactoryDefault passes save_interval to the
 tensorboard logger

---
 tianshou/highlevel/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/highlevel/logger.py b/tianshou/highlevel/logger.py
index f0e3e59..6bf712c 100644
--- a/tianshou/highlevel/logger.py
+++ b/tianshou/highlevel/logger.py
@@ -77,7 +77,7 @@ class LoggerFactoryDefault(LoggerFactory):
                 return logger
             case "tensorboard":
                 writer = self._create_writer(log_dir)
-                return TensorboardLogger(writer)
+                return TensorboardLogger(writer, save_interval=self.save_interval)
             case _:
                 raise ValueError(f"Unknown logger type '{self.logger_type}'")
 
-- 
2.43.0


From cc6d86764075c45fa86f64e841cb1fdf3981eb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:16 +0000
Subject: [PATCH 71/88] fix: intrinsic curiosity wrapper factory accepts
 discrete environments

---
 tianshou/highlevel/params/policy_wrapper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tianshou/highlevel/params/policy_wrapper.py b/tianshou/highlevel/params/policy_wrapper.py
index 43cbfed..3789aa4 100644
--- a/tianshou/highlevel/params/policy_wrapper.py
+++ b/tianshou/highlevel/params/policy_wrapper.py
@@ -2,6 +2,7 @@ from abc import ABC, abstractmethod
 from collections.abc import Sequence
 from typing import Generic, TypeVar
 
+import numpy as np
 from sensai.util.string import ToStringMixin
 
 from tianshou.highlevel.env import Environments
@@ -55,6 +56,8 @@ class PolicyWrapperFactoryIntrinsicCuriosity(
     ) -> ICMPolicy:
         feature_net = self.feature_net_factory.create_intermediate_module(envs, device)
         action_dim = envs.get_action_shape()
+        if isinstance(action_dim, np.integer):  # type of the size of a discrete gymnasium space
+            action_dim = int(action_dim)
         if not isinstance(action_dim, int):
             raise ValueError(f"Environment action shape must be an integer, got {action_dim}")
         feature_dim = feature_net.output_dim
-- 
2.43.0


From 24501d31c220214a349a5748426d32f8bc3ef023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:16 +0000
Subject: [PATCH 72/88] fix: linear learning rate schedule does not turn
 negative

---
 tianshou/highlevel/params/lr_scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/highlevel/params/lr_scheduler.py b/tianshou/highlevel/params/lr_scheduler.py
index 09c4c42..341615b 100644
--- a/tianshou/highlevel/params/lr_scheduler.py
+++ b/tianshou/highlevel/params/lr_scheduler.py
@@ -32,4 +32,4 @@ class LRSchedulerFactoryLinear(LRSchedulerFactory):
             )
 
         def compute(self, epoch: int) -> float:
-            return 1.0 - epoch / self.max_update_num
+            return max(0.0, 1.0 - epoch / self.max_update_num)
-- 
2.43.0


From 60aa8d24076f9eed678ae688df8d5f5be1a05f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:59 +0000
Subject: [PATCH 73/88] fix: create_uniform_action_dist for boxes that are not
 one-dimensional

---
 tianshou/utils/torch_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tianshou/utils/torch_utils.py b/tianshou/utils/torch_utils.py
index 1ffb9fc..671d618 100644
--- a/tianshou/utils/torch_utils.py
+++ b/tianshou/utils/torch_utils.py
@@ -66,8 +66,9 @@ def create_uniform_action_dist(
     :return: A PyTorch distribution for sampling actions.
     """
     if isinstance(action_space, spaces.Box):
-        low = torch.FloatTensor(action_space.low).unsqueeze(0).repeat(batch_size, 1)
-        high = torch.FloatTensor(action_space.high).unsqueeze(0).repeat(batch_size, 1)
+        repeats = (batch_size, *(1 for _ in action_space.shape))
+        low = torch.FloatTensor(action_space.low).unsqueeze(0).repeat(repeats)
+        high = torch.FloatTensor(action_space.high).unsqueeze(0).repeat(repeats)
         return dist.Uniform(low, high)
 
     elif isinstance(action_space, spaces.Discrete):
-- 
2.43.0


From b3bb11660c6aca4470a63b51ec1234db64107f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:59 +0000
Subject: [PATCH 74/88] fix: default actor of discrete SAC experiments outputs
 logits

---
 tianshou/highlevel/experiment.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/tianshou/highlevel/experiment.py b/tianshou/highlevel/experiment.py
index 721bc60..84b06e1 100644
--- a/tianshou/highlevel/experiment.py
+++ b/tianshou/highlevel/experiment.py
@@ -694,8 +694,9 @@ class RandomActionExperimentBuilder(ExperimentBuilder):
 
 
 class _BuilderMixinActorFactory(ActorFutureProviderProtocol):
-    def __init__(self, continuous_actor_type: ContinuousActorType):
+    def __init__(self, continuous_actor_type: ContinuousActorType, discrete_softmax: bool = True):
         self._continuous_actor_type = continuous_actor_type
+        self._discrete_softmax = discrete_softmax
         self._actor_future = ActorFuture()
         self._actor_factory: ActorFactory | None = None
 
@@ -731,6 +732,7 @@ class _BuilderMixinActorFactory(ActorFutureProviderProtocol):
             hidden_activation=hidden_activation,
             continuous_unbounded=continuous_unbounded,
             continuous_conditioned_sigma=continuous_conditioned_sigma,
+            discrete_softmax=self._discrete_softmax,
         )
         return self
 
@@ -741,7 +743,10 @@ class _BuilderMixinActorFactory(ActorFutureProviderProtocol):
     def _get_actor_factory(self) -> ActorFactory:
         actor_factory: ActorFactory
         if self._actor_factory is None:
-            actor_factory = ActorFactoryDefault(self._continuous_actor_type)
+            actor_factory = ActorFactoryDefault(
+                self._continuous_actor_type,
+                discrete_softmax=self._discrete_softmax,
+            )
         else:
             actor_factory = self._actor_factory
         return ActorFactoryTransientStorageDecorator(actor_factory, self._actor_future)
@@ -805,7 +810,8 @@ class _BuilderMixinActorFactory_DiscreteOnly(_BuilderMixinActorFactory):
     """Specialization of the actor mixin where only environments with discrete action spaces are supported."""
 
     def __init__(self) -> None:
-        super().__init__(ContinuousActorType.UNSUPPORTED)
+        # the only discrete-only algorithm (discrete SAC) expects its actor to output logits
+        super().__init__(ContinuousActorType.UNSUPPORTED, discrete_softmax=False)
 
     def with_actor_factory_default(
         self,
-- 
2.43.0


From 1e1ac80c310b08d6a939263a26ef2c5cedb6d460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:59 +0000
Subject: [PATCH 75/88] fix: restored and copied experiments can reuse the
 actor in the critic

---
 tianshou/highlevel/module/actor.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tianshou/highlevel/module/actor.py b/tianshou/highlevel/module/actor.py
index edec2ea..2dba2b9 100644
--- a/tianshou/highlevel/module/actor.py
+++ b/tianshou/highlevel/module/actor.py
@@ -41,6 +41,11 @@ class ActorFuture:
 
     actor: BaseActor | nn.Module | None = None
 
+    def __getstate__(self) -> dict:
+        # the actor is transient, but the identity of the container must be retained, because
+        # the factory creating the actor and the factory reusing it share the container
+        return {"actor": None}
+
 
 class ActorFutureProviderProtocol(Protocol):
     def get_actor_future(self) -> ActorFuture:
@@ -269,14 +274,10 @@ class ActorFactoryTransientStorageDecorator(ActorFactory):
         self.actor_factory = actor_factory
         self._actor_future = actor_future
 
-    def __getstate__(self) -> dict:
-        d = dict(self.__dict__)
-        del d["_actor_future"]
-        return d
-
     def __setstate__(self, state: dict) -> None:
         self.__dict__ = state
-        self._actor_future = ActorFuture()
+        if "_actor_future" not in state:  # objects persisted before the future was part of the state
+            self._actor_future = ActorFuture()
 
     def _tostring_excludes(self) -> list[str]:
         return [*super()._tostring_excludes(), "_actor_future"]
-- 
2.43.0


From 3de14e4035c6ae1302f55dfda10260a4a505e47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:59 +0000
Subject: [PATCH 76/88] fix: LoggedCollectStats ignores unknown fields instead
 of failing on them

---
 tianshou/evaluation/rliable_evaluation_hl.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tianshou/evaluation/rliable_evaluation_hl.py b/tianshou/evaluation/rliable_evaluation_hl.py
index 2b8ff51..5a04ec3 100644
--- a/tianshou/evaluation/rliable_evaluation_hl.py
+++ b/tianshou/evaluation/rliable_evaluation_hl.py
@@ -45,12 +45,13 @@ class LoggedCollectStats:
         Converts SequenceSummaryStats from dict format to dataclass format and ignores fields that are not present.
         """
         field_names = [f.name for f in fields(cls)]
-        for k, v in data.items():
-            if k not in field_names:
-                data.pop(k)
-            if isinstance(v, dict):
-                data[k] = LoggedSummaryData(**v)
-        return cls(**data)
+        return cls(
+            **{
+                k: LoggedSummaryData(**v) if isinstance(v, dict) else v
+                for k, v in data.items()
+                if k in field_names
+            },
+        )
 
 
 @dataclass
-- 
2.43.0


From e858cb443052c8336789fbd67352d05b603eb0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:59 +0000
Subject: [PATCH 77/88] fix: evaluation results can be loaded from runs without
 logged training data

---
 tianshou/evaluation/rliable_evaluation_hl.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tianshou/evaluation/rliable_evaluation_hl.py b/tianshou/evaluation/rliable_evaluation_hl.py
index 5a04ec3..0b49f08 100644
--- a/tianshou/evaluation/rliable_evaluation_hl.py
+++ b/tianshou/evaluation/rliable_evaluation_hl.py
@@ -130,7 +130,7 @@ class RLiableExperimentResult:
             if DataScope.TEST not in data or not data[DataScope.TEST]:
                 continue
             restored_test_data = data[DataScope.TEST]
-            restored_train_data = data[DataScope.TRAIN]
+            restored_train_data = data.get(DataScope.TRAIN, {})
 
             assert isinstance(restored_test_data, dict)
             assert isinstance(restored_train_data, dict)
@@ -168,7 +168,7 @@ class RLiableExperimentResult:
         if not test_data_found and not train_data_found:
             raise RuntimeError(f"No test or train data found in {exp_dir}.")
 
-        min_train_len = min([len(arr) for arr in train_episode_returns])
+        min_train_len = min([len(arr) for arr in train_episode_returns], default=0)
         if max_env_step is not None:
             min_train_len = min(min_train_len, max_env_step)
         min_test_len = min([len(arr) for arr in test_episode_returns])
@@ -176,7 +176,8 @@ class RLiableExperimentResult:
             min_test_len = min(min_test_len, max_env_step)
 
         assert env_step_at_test is not None
-        assert env_step_at_train is not None
+        if env_step_at_train is None:
+            env_step_at_train = np.array([])
 
         env_step_at_test = env_step_at_test[:min_test_len]
         env_step_at_train = env_step_at_train[:min_train_len]
-- 
2.43.0


From 019203a2db3ac1d8a04187ee118aae1c2e829f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:15 +0000
Subject: [PATCH 78/88] fix: critic reusing the actor network can take actions
 as input

---
 tianshou/highlevel/module/critic.py | 1 +
 tianshou/utils/net/continuous.py    | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/tianshou/highlevel/module/critic.py b/tianshou/highlevel/module/critic.py
index 0352fd1..f8543db 100644
--- a/tianshou/highlevel/module/critic.py
+++ b/tianshou/highlevel/module/critic.py
@@ -207,6 +207,7 @@ class CriticFactoryReuseActor(CriticFactory):
                 actor.get_preprocess_net(),
                 device=device,
                 apply_preprocess_net_to_obs_only=True,
+                action_dim=int(np.prod(envs.get_action_shape())) if use_action else 0,
             ).to(device)
         else:
             raise ValueError
diff --git a/tianshou/utils/net/continuous.py b/tianshou/utils/net/continuous.py
index 722bfeb..5990399 100644
--- a/tianshou/utils/net/continuous.py
+++ b/tianshou/utils/net/continuous.py
@@ -113,6 +113,8 @@ class Critic(CriticBase):
     :param apply_preprocess_net_to_obs_only: whether to apply `preprocess_net` to the observations only (before
         concatenating with the action) - and without the observations being modified in any way beforehand.
         This allows the actor's preprocessing network to be reused for the critic.
+    :param action_dim: the (flattened) dimension of the actions that are concatenated with the output of
+        `preprocess_net`. Only used if `apply_preprocess_net_to_obs_only` is enabled.
 
     For advanced usage (how to customize the network), please refer to
     :ref:`build_the_network`.
@@ -127,6 +129,7 @@ class Critic(CriticBase):
         linear_layer: TLinearLayer = nn.Linear,
         flatten_input: bool = True,
         apply_preprocess_net_to_obs_only: bool = False,
+        action_dim: int = 0,
     ) -> None:
         super().__init__()
         self.device = device
@@ -134,6 +137,8 @@ class Critic(CriticBase):
         self.output_dim = 1
         self.apply_preprocess_net_to_obs_only = apply_preprocess_net_to_obs_only
         input_dim = get_output_dim(preprocess_net, preprocess_net_output_dim)
+        if apply_preprocess_net_to_obs_only:
+            input_dim += action_dim
         self.last = MLP(
             input_dim,
             1,
-- 
2.43.0


From e46f119d790045fd5d44c4bbc59178826127e29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:44 +0000
Subject: [PATCH 79/88] fix: load_and_eval_experiments heeds show_plots and
 save_plots for both scopes

---
 tianshou/evaluation/rliable_evaluation_hl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/evaluation/rliable_evaluation_hl.py b/tianshou/evaluation/rliable_evaluation_hl.py
index 0b49f08..bb28573 100644
--- a/tianshou/evaluation/rliable_evaluation_hl.py
+++ b/tianshou/evaluation/rliable_evaluation_hl.py
@@ -352,7 +352,7 @@ def load_and_eval_experiments(
     rliable_result = RLiableExperimentResult.load_from_disk(log_dir, max_env_step=max_env_step)
     if scope == "both":
         for scope in [DataScope.TEST, DataScope.TRAIN]:
-            rliable_result.eval_results(show_plots=True, save_plots=True, scope=scope)
+            rliable_result.eval_results(show_plots=show_plots, save_plots=save_plots, scope=scope)
     else:
         rliable_result.eval_results(show_plots=show_plots, save_plots=save_plots, scope=scope)
     return rliable_result
-- 
2.43.0


From 33b033acc188304f7d4f44cc5fa9f3a3563ed93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:44 +0000
Subject: [PATCH 80/88] fix: TensorboardLogger.restore_logged_data returns all
 logged values

---
 tianshou/utils/logger/tensorboard.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tianshou/utils/logger/tensorboard.py b/tianshou/utils/logger/tensorboard.py
index ef504cb..e3283e9 100644
--- a/tianshou/utils/logger/tensorboard.py
+++ b/tianshou/utils/logger/tensorboard.py
@@ -150,7 +150,10 @@ class TensorboardLogger(BaseLogger):
         form a nested structure, where the hierarchy is represented by the slashes
         in the tensorboard key-strings.
         """
-        ea = event_accumulator.EventAccumulator(log_path)
+        ea = event_accumulator.EventAccumulator(
+            log_path,
+            size_guidance={event_accumulator.SCALARS: 0},  # keep all values instead of a sample
+        )
         ea.Reload()
 
         def add_value_to_innermost_nested_dict(
-- 
2.43.0


From 5f2810029a79733427cac9644f659a76612e34a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:21 +0000
Subject: [PATCH 81/88] fix: in-place cat_ and stack_ of batches with keys that
 are only reserved or partially present

---
 tianshou/data/batch.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/tianshou/data/batch.py b/tianshou/data/batch.py
index c258db1..b705480 100644
--- a/tianshou/data/batch.py
+++ b/tianshou/data/batch.py
@@ -971,17 +971,18 @@ class Batch(BatchProtocol):
             # reserved keys
             self.__dict__[key] = Batch()
         for key in keys_partial:
+            result: Any = None
             for i, batch in enumerate(batches):
                 if key not in batch.__dict__:
                     continue
                 value = batch.get(key)
                 if isinstance(value, Batch) and len(value.get_keys()) == 0:
                     continue
-                try:
-                    self.__dict__[key][sum_lens[i] : sum_lens[i + 1]] = value
-                except KeyError:
-                    self.__dict__[key] = create_value(value, sum_lens[-1], stack=False)
-                    self.__dict__[key][sum_lens[i] : sum_lens[i + 1]] = value
+                # self may already hold a value for the key, so don't write into it
+                if result is None:
+                    result = create_value(value, sum_lens[-1], stack=False)
+                result[sum_lens[i] : sum_lens[i + 1]] = value
+            self.__dict__[key] = result
 
     def cat_(self, batches: BatchProtocol | Sequence[dict | BatchProtocol]) -> None:
         if isinstance(batches, BatchProtocol | dict):
@@ -1109,6 +1110,7 @@ class Batch(BatchProtocol):
             # reserved keys
             self.__dict__[key] = Batch()
         for key in keys_partial:
+            result: Any = None
             for i, batch in enumerate(batches):
                 if key not in batch.__dict__:
                     continue
@@ -1119,11 +1121,11 @@ class Batch(BatchProtocol):
                     and len(value.get_keys()) == 0  # type: ignore
                 ):
                     continue  # type: ignore
-                try:
-                    self.__dict__[key][i] = value
-                except KeyError:
-                    self.__dict__[key] = create_value(value, len(batches))
-                    self.__dict__[key][i] = value
+                # self may already hold a value for the key, so don't write into it
+                if result is None:
+                    result = create_value(value, len(batches))
+                result[i] = value
+            self.__dict__[key] = result
 
     @staticmethod
     def stack(batches: Sequence[dict | TBatch], axis: int = 0) -> TBatch:
-- 
2.43.0


From d2f9c223e1d4ceace30010ad3189f6ed43b67adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:21 +0000
Subject: [PATCH 82/88] fix: dist_to_atleast_2d adds the batch dimension to
 Independent distributions

---
 tianshou/data/batch.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tianshou/data/batch.py b/tianshou/data/batch.py
index b705480..36c602b 100644
--- a/tianshou/data/batch.py
+++ b/tianshou/data/batch.py
@@ -294,10 +294,8 @@ def dist_to_atleast_2d(dist: TDistribution) -> TDistribution:
     elif isinstance(dist, Normal):
         return Normal(loc=dist.loc.unsqueeze(0), scale=dist.scale.unsqueeze(0))  # type: ignore[return-value]
     elif isinstance(dist, Independent):
-        return Independent(
-            dist_to_atleast_2d(dist.base_dist),
-            dist.reinterpreted_batch_ndims,
-        )  # type: ignore[return-value]
+        # the base distribution has further batch dimensions, which are event dimensions here
+        return dist.expand(torch.Size([1]))  # type: ignore[return-value]
     else:
         raise NotImplementedError(f"Unsupported distribution for conversion to 2D: {type(dist)}")
 
-- 
2.43.0


From 93b89ea8cf0944f2c0ab96915a3e40618d7ddd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:31 +0000
Subject: [PATCH 83/88] fix: Collector raised on NaN in the buffer even with
 raise_on_nan_in_buffer=False

---
 tianshou/data/collector.py | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/tianshou/data/collector.py b/tianshou/data/collector.py
index 10a1d88..f8ce3f2 100644
--- a/tianshou/data/collector.py
+++ b/tianshou/data/collector.py
@@ -1038,19 +1038,6 @@ class Collector(BaseCollector[TCollectStats], Generic[TCollectStats]):
             ):
                 break
 
-        # Check if we screwed up somewhere
-        if self.buffer.hasnull():
-            nan_batch = self.buffer.isnull().apply_values_transform(np.sum)
-
-            raise MalformedBufferError(
-                "NaN detected in the buffer. You can drop them with `buffer.dropnull()`. "
-                "This error is most often caused by an incorrect use of `EpisodeRolloutHooks`"
-                "together with the `n_steps` (instead of `n_episodes`) option, or by "
-                "an incorrect implementation of `StepHook`."
-                "Here an overview of the number of NaNs per field: \n"
-                f"{nan_batch}",
-            )
-
         # Step 14
         # update instance-lifetime counters, different from collect_stats
         self.collect_step += step_count
-- 
2.43.0


From e9bb27649845a41585bddb38d9ad85da3f33eddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:34 +0000
Subject: [PATCH 84/88] fix: WandbLogger passes write_flush and save_interval
 to the tensorboard logger

The positional arguments were shifted by one (info_interval was left out),
so write_flush was ignored.
---
 tianshou/utils/logger/wandb.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tianshou/utils/logger/wandb.py b/tianshou/utils/logger/wandb.py
index 9172bf5..31a1e6f 100644
--- a/tianshou/utils/logger/wandb.py
+++ b/tianshou/utils/logger/wandb.py
@@ -110,6 +110,7 @@ class WandbLogger(BaseLogger):
             self.train_interval,
             self.test_interval,
             self.update_interval,
+            self.info_interval,
             self.save_interval,
             self.write_flush,
         )
-- 
2.43.0


From 8b2d3bbbeb4f24a4b8e0b311a793e9b95eb1f712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:00 +0000
Subject: [PATCH 85/88] fix: Batch.stack_ failed on different shapes with a
 common leading dimension

---
 tianshou/data/batch.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tianshou/data/batch.py b/tianshou/data/batch.py
index 36c602b..74b7042 100644
--- a/tianshou/data/batch.py
+++ b/tianshou/data/batch.py
@@ -1090,7 +1090,11 @@ class Batch(BatchProtocol):
                         "You are using tensors with different shape,"
                         " fallback to dtype=object by default.",
                     )
-                    self.__dict__[shared_key] = np.array(value, dtype=object)
+                    # np.array(value) would also try to go into the elements' dimensions
+                    object_array = np.empty(len(value), dtype=object)
+                    for i, element in enumerate(value):
+                        object_array[i] = element
+                    self.__dict__[shared_key] = object_array
         # all the keys
         keys_total = set.union(*[set(batch.keys()) for batch in batches])
         # keys that are reserved in all batches
-- 
2.43.0


From 6e6ba75dff45dcdf5fca77b50cf7b42062cca093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:53 +0000
Subject: [PATCH 86/88] fix: copying or unpickling wrapped training statistics
 recursed endlessly

---
 tianshou/policy/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tianshou/policy/base.py b/tianshou/policy/base.py
index b80e9f4..b1acefc 100644
--- a/tianshou/policy/base.py
+++ b/tianshou/policy/base.py
@@ -96,6 +96,9 @@ class TrainingStatsWrapper(TrainingStats):
         return self._wrapped_stats
 
     def __getattr__(self, name: str) -> Any:
+        if name == "_wrapped_stats":
+            # not present yet while an instance is being copied or unpickled
+            raise AttributeError(name)
         return getattr(self._wrapped_stats, name)
 
     def __setattr__(self, name: str, value: Any) -> None:
-- 
2.43.0


From c69aabe56dcf94dce2cee3681a439bf41a5abedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:55 +0000
Subject: [PATCH 87/88] fix: arrays of strings came back from HDF5 as bytes

---
 tianshou/data/utils/converter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tianshou/data/utils/converter.py b/tianshou/data/utils/converter.py
index acda782..2e6715f 100644
--- a/tianshou/data/utils/converter.py
+++ b/tianshou/data/utils/converter.py
@@ -119,6 +119,9 @@ def to_hdf5(x: Hdf5ConvertibleType, y: h5py.Group, compression: str | None = Non
             y[k].attrs["__data_type__"] = "Tensor"
         elif isinstance(v, np.ndarray):
             try:
+                if v.dtype.hasobject:
+                    # HDF5 would accept arrays of str objects, but return them as bytes
+                    raise TypeError("Object arrays are not supported by HDF5.")
                 # NumPy arrays are written to datasets
                 y.create_dataset(k, data=v, compression=compression)
                 y[k].attrs["__data_type__"] = "ndarray"
-- 
2.43.0


From ba5e128c5129ce131a37737a649039606708d2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:24 +0000
Subject: [PATCH 88/88] fix: scalar and empty tensors could not be saved to or
 restored from HDF5

---
 tianshou/data/utils/converter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tianshou/data/utils/converter.py b/tianshou/data/utils/converter.py
index 2e6715f..ac5ce54 100644
--- a/tianshou/data/utils/converter.py
+++ b/tianshou/data/utils/converter.py
@@ -115,7 +115,8 @@ def to_hdf5(x: Hdf5ConvertibleType, y: h5py.Group, compression: str | None = Non
             to_hdf5(subgrp_data, subgrp, compression=compression)
         elif isinstance(v, torch.Tensor):
             # PyTorch tensors are written to datasets
-            y.create_dataset(k, data=to_numpy(v), compression=compression)
+            # scalars cannot be compressed
+            y.create_dataset(k, data=to_numpy(v), compression=compression if v.ndim > 0 else None)
             y[k].attrs["__data_type__"] = "Tensor"
         elif isinstance(v, np.ndarray):
             try:
@@ -158,7 +159,7 @@ def from_hdf5(x: h5py.Group, device: str | None = None) -> Hdf5ConvertibleValues
         if x.attrs["__data_type__"] == "ndarray":
             return np.array(x)
         if x.attrs["__data_type__"] == "Tensor":
-            return torch.tensor(x, device=device)
+            return torch.tensor(np.array(x), device=device)
         return pickle.loads(x[()])
     # handle groups representing a dict or a Batch
     y = dict(x.attrs.items())
-- 
2.43.0

