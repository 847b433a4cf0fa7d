From 4a4aaa98d8d9963ed270a662bf965cbe96c33024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:31 +0000
Subject: [PATCH 01/87] fix: sort_bin_shuffle seq ordering: empty bins must not
 turn the seq indices into floats

---
 returnn/datasets/basic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/basic.py b/returnn/datasets/basic.py
index 798ef00..9f2b1f2 100644
--- a/returnn/datasets/basic.py
+++ b/returnn/datasets/basic.py
@@ -603,7 +603,8 @@ class Dataset:
                     part = seq_index[i * len(seq_index) // bins : (i + 1) * len(seq_index) // bins][:]
                 if seq_ordering_method.startswith("sort_bin_shuffle_x2"):
                     random_generator.shuffle(part)  # Shuffle within the bin.
-                out_index.append(part)
+                # Note: explicit dtype, because the bin can be empty, and then the default dtype would be float.
+                out_index.append(numpy.array(part, dtype="int64"))
             seq_index = numpy.concatenate(out_index)
         elif seq_ordering_method.startswith("laplace"):
             assert get_seq_len
-- 
2.43.0


From 935b7c0a3afe87ca25aef704b7888141d6ec15dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:57 +0000
Subject: [PATCH 02/87] fix: SimpleHDFWriter extend_existing_file: know all
 existing extra keys upfront

Otherwise the seq lengths of the extra data were stored in wrong columns (the column depends on the sorted list
of all extra keys), and labels of existing extra keys were overwritten by dummy labels.
---
 returnn/datasets/hdf.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/returnn/datasets/hdf.py b/returnn/datasets/hdf.py
index ad13b49..5bc9bf3 100644
--- a/returnn/datasets/hdf.py
+++ b/returnn/datasets/hdf.py
@@ -1158,6 +1158,12 @@ class SimpleHDFWriter:
 
         self._extra_num_time_steps = {}  # type: typing.Dict[str,int]  # key -> num-steps
         self._prepared_extra = set()
+        if extend_existing_file and "targets/data" in self._file:
+            # We need to know all existing extra data keys upfront, as data_key_idx depends on it (see above).
+            for data_key, dataset in self._file["targets/data"].items():
+                self._datasets[data_key] = dataset
+                self._extra_num_time_steps[data_key] = dataset.shape[0]
+                self._prepared_extra.add(data_key)
         if extra_type:
             self._prepare_extra(extra_type, extra_labels if extra_labels else {})
 
-- 
2.43.0


From dac7e05334caf13e6b64d4347d8dbfa591280785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:18 +0000
Subject: [PATCH 03/87] fix: CombinedDataset sampling_sizes: init with epoch
 None

Many datasets have no seqs for epoch None (via initialize()), which resulted in a ZeroDivisionError.
---
 returnn/datasets/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/datasets/meta.py b/returnn/datasets/meta.py
index 0fe2190..d77f7b4 100644
--- a/returnn/datasets/meta.py
+++ b/returnn/datasets/meta.py
@@ -1059,7 +1059,7 @@ class CombinedDataset(CachedDataset2):
         if total_num_seqs is not None:
             self.dataset_seq_idx_boundaries = self._create_dataset_seq_idx_boundaries()
 
-            if self.sampling_sizes:
+            if self.sampling_sizes and epoch is not None:  # epoch is None via initialize(), sub-datasets can be empty then
                 seq_order = self._get_sampling_seq_order()
             elif self.seq_ordering == "random_dataset":
                 seq_order = self._get_random_dataset_seq_order(total_num_seqs)
-- 
2.43.0


From 7584b7db14c1d30bb5bbc3b01d0cee3666a0c0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:58 +0000
Subject: [PATCH 04/87] fix: CombinedDataset/ConcatDataset: re-init the same
 epoch after it was already (partly) consumed

Same as MetaDataset, otherwise the sub-datasets stay at the current position, and loading fails.
---
 returnn/datasets/meta.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/returnn/datasets/meta.py b/returnn/datasets/meta.py
index d77f7b4..21f0852 100644
--- a/returnn/datasets/meta.py
+++ b/returnn/datasets/meta.py
@@ -782,7 +782,7 @@ class ConcatDataset(CachedDataset2):
         :param list[str]|None seq_list: List of sequence tags, to set a predefined order.
         :param list[int]|None seq_order: List of corpus sequence indices, to set a predefined order.
         """
-        need_reinit = self.epoch is None or self.epoch != epoch
+        need_reinit = self.epoch is None or self.epoch != epoch or self.expected_load_seq_start > 0
         super(ConcatDataset, self).init_seq_order(epoch=epoch, seq_list=seq_list, seq_order=seq_order)
         self.dataset_seq_idx_offsets = [0]
         if not need_reinit:
@@ -1033,7 +1033,7 @@ class CombinedDataset(CachedDataset2):
         """
 
         assert seq_list is None and seq_order is None, "seq_list and seq_order not supported for %s" % self.__class__
-        need_reinit = self.epoch is None or self.epoch != epoch
+        need_reinit = self.epoch is None or self.epoch != epoch or self.expected_load_seq_start > 0
         num_seqs_saved = self._num_seqs
         super(CombinedDataset, self).init_seq_order(
             epoch=epoch, seq_list=seq_list, seq_order=seq_order
-- 
2.43.0


From ba9421a2fc1f8665e353b15de7bb584b73da0e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:58 +0000
Subject: [PATCH 05/87] fix: Dataset.get_complete_frac with unknown and not
 estimated num_seqs

---
 returnn/datasets/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/datasets/basic.py b/returnn/datasets/basic.py
index 9f2b1f2..0608a72 100644
--- a/returnn/datasets/basic.py
+++ b/returnn/datasets/basic.py
@@ -973,7 +973,7 @@ class Dataset:
             except Exception:  # also not always available
                 num_seqs = None  # ignore
 
-        if math.isinf(num_seqs):
+        if num_seqs is not None and math.isinf(num_seqs):
             if allow_only_lr_suitable:
                 # cannot compute meaningful complete_frac for infinite num_seqs
                 return None
-- 
2.43.0


From ef275b0869142e14c71dacbcdd11a5f3048af000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:26 +0000
Subject: [PATCH 06/87] fix: StaticDataset/MapDatasetWrapper: loading seqs
 beyond num_seqs must be allowed

As documented in CachedDataset2._load_seqs/_collect_single_seq, and as e.g. used by ConcatDataset.
---
 returnn/datasets/generating.py | 2 ++
 returnn/datasets/map.py        | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/returnn/datasets/generating.py b/returnn/datasets/generating.py
index 3d08804..845657f 100644
--- a/returnn/datasets/generating.py
+++ b/returnn/datasets/generating.py
@@ -1168,6 +1168,8 @@ class StaticDataset(CachedDataset2):
         :param int seq_idx:
         :rtype: DatasetSeq
         """
+        if seq_idx >= len(self._seq_order):
+            return None
         corpus_seq_idx = self._seq_order[seq_idx]
         data = self.data[corpus_seq_idx]
         return DatasetSeq(
diff --git a/returnn/datasets/map.py b/returnn/datasets/map.py
index 43ef533..fffdfb3 100644
--- a/returnn/datasets/map.py
+++ b/returnn/datasets/map.py
@@ -167,6 +167,8 @@ class MapDatasetWrapper(CachedDataset2):
         :param int seq_idx: sorted seq idx
         :return:
         """
+        if seq_idx >= len(self._seq_order):
+            return None
         corpus_seq_idx = self.get_corpus_seq_idx(seq_idx)
         return DatasetSeq(
             seq_idx, features=self._dataset[corpus_seq_idx], seq_tag=self._dataset.get_seq_tag(corpus_seq_idx)
-- 
2.43.0


From 4701cada9c292af3693e2f03acefd3780321d06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:40 +0000
Subject: [PATCH 07/87] fix: PostprocessingDataset, LaplaceOrdering: handle
 datasets which cannot provide complete_frac

---
 returnn/datasets/postprocessing.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/returnn/datasets/postprocessing.py b/returnn/datasets/postprocessing.py
index e477d7a..2c79ac6 100644
--- a/returnn/datasets/postprocessing.py
+++ b/returnn/datasets/postprocessing.py
@@ -334,6 +334,8 @@ class PostprocessingDataset(CachedDataset2):
             if complete_frac is not None:
                 comp_frac_raw_tensor = numpy.array(complete_frac, dtype=numpy.float32)
                 tensor_dict.data["complete_frac"].raw_tensor = comp_frac_raw_tensor
+            else:
+                del tensor_dict.data["complete_frac"]  # not available
             seq_tag_raw_tensor = str_to_numpy_array(self._dataset.get_tag(seq_index))
             tensor_dict.data["seq_tag"].raw_tensor = seq_tag_raw_tensor
 
@@ -414,10 +416,13 @@ class LaplaceOrdering(Callable[[Iterator[TensorDict]], Iterator[TensorDict]]):
         while True:
             # Make sure to not reorder the monotonically increasing values for complete_frac
             # so that the trainer can calculate the appropriate learning rates.
-            complete_frac_values = [tdict.data["complete_frac"].raw_tensor for tdict in seq_buffer]
+            complete_frac_values = [
+                tdict.data["complete_frac"].raw_tensor for tdict in seq_buffer if "complete_frac" in tdict.data
+            ]
             seq_buffer.sort(key=self._get_seq_len, reverse=is_down_phase)
-            for sorted_item, comp_frac in zip(seq_buffer, complete_frac_values):
-                sorted_item.data["complete_frac"].raw_tensor = comp_frac
+            if len(complete_frac_values) == len(seq_buffer):  # might not be available
+                for sorted_item, comp_frac in zip(seq_buffer, complete_frac_values):
+                    sorted_item.data["complete_frac"].raw_tensor = comp_frac
 
             next_seq_buffer = []
 
-- 
2.43.0


From 1a51785a68d95f51ccda1c01c7011b9108ccf259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:59 +0000
Subject: [PATCH 08/87] fix: Dataset.get_complete_frac when the estimated
 num_seqs is too low

---
 returnn/datasets/basic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/returnn/datasets/basic.py b/returnn/datasets/basic.py
index 0608a72..9776824 100644
--- a/returnn/datasets/basic.py
+++ b/returnn/datasets/basic.py
@@ -972,6 +972,8 @@ class Dataset:
                 num_seqs = self.estimated_num_seqs
             except Exception:  # also not always available
                 num_seqs = None  # ignore
+            if num_seqs is not None:
+                num_seqs = max(num_seqs, sorted_seq_idx + 1)  # the estimate can be too low
 
         if num_seqs is not None and math.isinf(num_seqs):
             if allow_only_lr_suitable:
-- 
2.43.0


From d058706d3959791d16006b08cf80ebb356264823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:50 +0000
Subject: [PATCH 09/87] fix: ConcatDataset: do not load beyond the end of the
 sub-datasets

E.g. HDFDataset does not allow this.
---
 returnn/datasets/meta.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/meta.py b/returnn/datasets/meta.py
index 21f0852..8ffac73 100644
--- a/returnn/datasets/meta.py
+++ b/returnn/datasets/meta.py
@@ -832,7 +832,11 @@ class ConcatDataset(CachedDataset2):
             dataset = self.datasets[dataset_idx]
             dataset_seq_idx_start = sub_start + self.dataset_seq_idx_offsets[dataset_idx]
             dataset_seq_idx_end = end + self.dataset_seq_idx_offsets[dataset_idx]
-            dataset.load_seqs(dataset_seq_idx_start, dataset_seq_idx_end)
+            # Not all datasets allow to load beyond the end.
+            dataset_load_end = dataset_seq_idx_end
+            while dataset_load_end > dataset_seq_idx_start and not dataset.is_less_than_num_seqs(dataset_load_end - 1):
+                dataset_load_end -= 1
+            dataset.load_seqs(dataset_seq_idx_start, dataset_load_end)
             if dataset.is_less_than_num_seqs(dataset_seq_idx_end):
                 # We are still inside this dataset and have loaded everything.
                 # Thus we can stop now.
-- 
2.43.0


From 9d0f3f9c8b9726d398572fe6622dc5a5151d329a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:23 +0000
Subject: [PATCH 10/87] fix: MetaDataset: same epoch again after predefined
 seq_list/seq_order must use the normal seq order

---
 returnn/datasets/meta.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/returnn/datasets/meta.py b/returnn/datasets/meta.py
index 8ffac73..6bceb9f 100644
--- a/returnn/datasets/meta.py
+++ b/returnn/datasets/meta.py
@@ -290,6 +290,7 @@ class MetaDataset(CachedDataset2):
         self.num_outputs = self.data_dims
 
         self.orig_seq_order_is_initialized = False
+        self._have_predefined_seq_order = False
         self.seq_list_ordered = None  # type: typing.Optional[typing.Dict[str,typing.List[str]]]
 
     def _load_seq_list(self, seq_list_file: Optional[Union[str, Dict[str, str]]] = None) -> Dict[str, List[str]]:
@@ -397,8 +398,10 @@ class MetaDataset(CachedDataset2):
             or self.seq_list_ordered is None
             or seq_list is not None
             or seq_order is not None
+            or self._have_predefined_seq_order  # from last call
             or self.expected_load_seq_start > 0
         )
+        self._have_predefined_seq_order = seq_list is not None or seq_order is not None
         super(MetaDataset, self).init_seq_order(epoch=epoch, seq_list=seq_list, seq_order=seq_order)
         if epoch is None:
             # This is called via initialize() with epoch=None, just to init some other things.
-- 
2.43.0


From 8ad4e591fcffa9656fdf36f57692b6644c7aff1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:06 +0000
Subject: [PATCH 11/87] fix: chunking: data keys which are repeated in full for
 every chunk must not stop the chunking

Sequences with a data key of length <= 1 were cut after the first chunk.
---
 returnn/datasets/basic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/basic.py b/returnn/datasets/basic.py
index 9776824..45eb47a 100644
--- a/returnn/datasets/basic.py
+++ b/returnn/datasets/basic.py
@@ -1229,7 +1229,11 @@ class Dataset:
                         chunk_end.value = None
                     yield s, chunk_start, chunk_end
                     t += chunk_step
-                    if any([length[key] - t[key] <= self.min_chunk_size[key] for key in length.keys()]):
+                    if any(
+                        length[key] - t[key] <= self.min_chunk_size[key]
+                        for key in length.keys()
+                        if key not in keys_with_full_seqs
+                    ):
                         break
             s += 1
 
-- 
2.43.0


From 84f0fba793cf31838fc22880f47a2a594fd2f5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:06 +0000
Subject: [PATCH 12/87] fix: raw_dict_split_batch with scalar entries, and
 without empty parts

The raw dict from collate_batch contains num_seqs, epoch, complete_frac as scalars,
so splitting a batch on OOM always failed. Also uneven splits could produce empty batches.
---
 returnn/torch/data/extern_data.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/returnn/torch/data/extern_data.py b/returnn/torch/data/extern_data.py
index dc7d222..c104e94 100644
--- a/returnn/torch/data/extern_data.py
+++ b/returnn/torch/data/extern_data.py
@@ -130,6 +130,10 @@ def raw_dict_split_batch(
     for k, v in extern_data_raw.items():
         if not isinstance(v, (torch.Tensor, numpy.ndarray)):
             raise TypeError(f"got invalid value of type ({type(v).__name__}) for key {k!r}")
+        if len(v.shape) == 0:  # no batch dim, e.g. num_seqs, epoch, complete_frac
+            for res_ in res:
+                res_[k] = v
+            continue
         offset = 0
         for i, split_size in enumerate(splits):
             res[i][k] = v[offset : offset + split_size]
@@ -146,10 +150,9 @@ def raw_dict_split_batch(
 def _make_split_seq_from_num_splits(num_splits: int, total: int) -> List[int]:
     assert num_splits <= total
     remaining = total
-    split_size = -(-total // num_splits)  # ceildiv
     res = []
     for i in range(num_splits):
-        res.append(min(remaining, split_size))
+        res.append(-(-remaining // (num_splits - i)))  # ceildiv
         remaining -= res[-1]
     assert remaining == 0 and len(res) == num_splits and sum(res) == total
     return res
-- 
2.43.0


From ba2cfb833464d20fb3cca51f7c4a6cfffcaa725f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:10 +0000
Subject: [PATCH 13/87] fix: ShufflingDataPipe with an empty stream of batches

---
 returnn/torch/data/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/torch/data/pipeline.py b/returnn/torch/data/pipeline.py
index fa6237d..40a8abc 100644
--- a/returnn/torch/data/pipeline.py
+++ b/returnn/torch/data/pipeline.py
@@ -566,7 +566,7 @@ class ShufflingDataPipe(torch.utils.data.IterDataPipe):
                     has_ended = True
 
             if len(self._buffer) < self._buffer_size:
-                assert has_ended and not self._next_buffer
+                assert (has_ended or not self._buffer) and not self._next_buffer
                 break
 
             self._buffer.clear()
-- 
2.43.0


From 979f4ccde3536f4bf36c27896fe7b0cd9d12c1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:10 +0000
Subject: [PATCH 14/87] fix: LaplaceOrdering with an empty stream of seqs

---
 returnn/datasets/postprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/datasets/postprocessing.py b/returnn/datasets/postprocessing.py
index 2c79ac6..1d708fa 100644
--- a/returnn/datasets/postprocessing.py
+++ b/returnn/datasets/postprocessing.py
@@ -438,7 +438,7 @@ class LaplaceOrdering(Callable[[Iterator[TensorDict]], Iterator[TensorDict]]):
                     has_ended = True
 
             if len(seq_buffer) < self.num_seqs_per_bin:
-                assert has_ended and not next_seq_buffer
+                assert (has_ended or not seq_buffer) and not next_seq_buffer
                 break
 
             is_down_phase = not is_down_phase
-- 
2.43.0


From a4e97a66caa89f422dc473e797556fda8e3a03e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:21 +0000
Subject: [PATCH 15/87] fix: DistributeFilesDataset with sharding: do not shard
 the sub dataset again

Each shard only got a fraction of the sequences of its files.
---
 returnn/datasets/distrib_files.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/returnn/datasets/distrib_files.py b/returnn/datasets/distrib_files.py
index 9f6c2d5..210d49b 100644
--- a/returnn/datasets/distrib_files.py
+++ b/returnn/datasets/distrib_files.py
@@ -327,6 +327,8 @@ class DistributeFilesDataset(CachedDataset2):
         import tree
 
         dataset_dict = self.get_sub_epoch_dataset(files)
+        # The sharding was already done here on file level, so the sub dataset must not shard again.
+        dataset_dict = {"_num_shards": 1, "_shard_index": 0, **dataset_dict}
         dataset_dict = extend_dataset_dict_from_parent_dataset(dataset_dict, parent_dataset=self)
 
         flat_sub_dset = tree.flatten_with_path(dataset_dict)
-- 
2.43.0


From adaa2f8d4cbfdb3a214ed249b4eaeb688361f38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:24 +0000
Subject: [PATCH 16/87] fix: DistributeFilesDataset: init the same epoch again
 after it was already (partly) consumed

---
 returnn/datasets/distrib_files.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/returnn/datasets/distrib_files.py b/returnn/datasets/distrib_files.py
index 210d49b..1a5206f 100644
--- a/returnn/datasets/distrib_files.py
+++ b/returnn/datasets/distrib_files.py
@@ -305,6 +305,7 @@ class DistributeFilesDataset(CachedDataset2):
                 del self._workers[k]
         for ep_ in range(epoch, epoch + self.preload_next_n_sub_epochs + 1):
             if ep_ in self._workers:
+                self._workers[ep_].reset_if_consumed()
                 continue
             full_epoch_0idx_ = (ep_ - 1) // self.partition_epoch
             files_order: List[List[FileTree]] = self._files_order_cache[full_epoch_0idx_]
@@ -533,6 +534,16 @@ class _WorkerProcParent:
         self.parent_conn.send(("init_seq_order", {"epoch": self.full_epoch_0idx + 1}))
         self._has_num_seqs = False
         self._num_seqs: Optional[int] = None  # remains None if unknown
+        self._is_consumed = False  # whether any seq was requested
+
+    def reset_if_consumed(self):
+        """start again from the beginning of this sub epoch, in case we already read some of it"""
+        if not self._is_consumed:
+            return
+        self._lazy_wait_for_init_seq_order()
+        self.parent_conn.send(("init_seq_order", {"epoch": self.full_epoch_0idx + 1}))
+        self._has_num_seqs = False
+        self._is_consumed = False
 
     def _lazy_wait_for_init_seq_order(self):
         if self._has_num_seqs:
@@ -550,6 +561,7 @@ class _WorkerProcParent:
     def get_data_seq(self, seq_idx: int) -> Optional[DatasetSeq]:
         """get data seq"""
         self._lazy_wait_for_init_seq_order()
+        self._is_consumed = True
         self.parent_conn.send(("get_data_seq", {"seq_idx": seq_idx}))
         msg, data = self.parent_conn.recv()
         assert msg == "data_seq"
-- 
2.43.0


From c125528a31cac456eb11b1ee99060463d5cb42df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:52 +0000
Subject: [PATCH 17/87] fix: MultiProcDataset sharding_method dedicated: shards
 with different number of seqs

The epoch ended with the first worker which reached the end of its shard, so the remaining seqs of the others were lost.
---
 returnn/datasets/multi_proc.py | 42 +++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/returnn/datasets/multi_proc.py b/returnn/datasets/multi_proc.py
index 9aeddf8..bd99ec0 100644
--- a/returnn/datasets/multi_proc.py
+++ b/returnn/datasets/multi_proc.py
@@ -3,7 +3,8 @@ Multi-processing dataset
 """
 
 from __future__ import annotations
-from typing import Optional, Any, Dict, List
+from typing import Optional, Any, Deque, Dict, List
+from collections import deque
 import sys
 import gc
 import multiprocessing as mp
@@ -76,6 +77,10 @@ class MultiProcDataset(CachedDataset2):
         self._seq_order_proc = None  # type: Optional[mp.Process]
         self._worker_procs = None  # type: Optional[List[mp.Process]]
         self._cur_max_complete_frac: Optional[float] = None
+        # For sharding_method "dedicated": The shards can have different (and unknown) number of seqs.
+        self._dedicated_active_workers: Deque[int] = deque()  # round-robin, without the workers which reached the end
+        self._dedicated_worker_next_seq_idx: List[int] = []  # per worker
+        self._dedicated_next_seq_idx = 0
 
         if _meta_info_cache:
             # This allows to skip the lazy init in self.initialize().
@@ -408,6 +413,9 @@ class MultiProcDataset(CachedDataset2):
         self._cur_max_complete_frac = 0.0
 
         if self._sharding_method == "dedicated":
+            self._dedicated_active_workers = deque(range(self.num_workers))
+            self._dedicated_worker_next_seq_idx = [0] * self.num_workers
+            self._dedicated_next_seq_idx = 0
             for worker_conn in self._worker_parent_conns:
                 worker_conn.send(("init_seq_order", {"epoch": epoch, "seq_list": seq_list, "seq_order": seq_order}))
             num_child_seqs = []
@@ -436,11 +444,10 @@ class MultiProcDataset(CachedDataset2):
         return True
 
     def _collect_single_seq(self, seq_idx: int) -> Optional[DatasetSeq]:
-        worker_idx = seq_idx % self.num_workers
-        worker = self._worker_parent_conns[worker_idx]
-        worker.send(("get_data_seq", {"seq_idx": seq_idx // self.num_workers}))
-        msg, data = worker.recv()
-        assert msg == "data_seq"
+        if self._sharding_method == "dedicated":
+            data = self._get_data_seq_dedicated(seq_idx)
+        else:
+            data = self._get_data_seq_from_worker(seq_idx % self.num_workers, seq_idx // self.num_workers)
         if data is None:
             return None
         assert isinstance(data, DatasetSeq)
@@ -453,6 +460,29 @@ class MultiProcDataset(CachedDataset2):
         data.seq_idx = seq_idx
         return data
 
+    def _get_data_seq_from_worker(self, worker_idx: int, seq_idx: int) -> Optional[DatasetSeq]:
+        worker = self._worker_parent_conns[worker_idx]
+        worker.send(("get_data_seq", {"seq_idx": seq_idx}))
+        msg, data = worker.recv()
+        assert msg == "data_seq"
+        return data
+
+    def _get_data_seq_dedicated(self, seq_idx: int) -> Optional[DatasetSeq]:
+        assert seq_idx >= self._dedicated_next_seq_idx
+        data = None
+        while self._dedicated_next_seq_idx <= seq_idx:
+            if not self._dedicated_active_workers:
+                return None
+            worker_idx = self._dedicated_active_workers[0]
+            data = self._get_data_seq_from_worker(worker_idx, self._dedicated_worker_next_seq_idx[worker_idx])
+            if data is None:  # this worker reached the end, but the others maybe not yet
+                self._dedicated_active_workers.popleft()
+                continue
+            self._dedicated_active_workers.rotate(-1)
+            self._dedicated_worker_next_seq_idx[worker_idx] += 1
+            self._dedicated_next_seq_idx += 1
+        return data
+
     def get_total_num_seqs(self, *, fast: bool = False) -> int:
         """total num seqs"""
         if self._total_num_seqs is None:
-- 
2.43.0


From 49b4275fa164bedaa3b61ab15bdf22f2f1b59162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:48 +0000
Subject: [PATCH 18/87] fix: MultiProcDataset: total num seqs, all tags,
 finish_epoch after pickling or freeing the resources

---
 returnn/datasets/multi_proc.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/returnn/datasets/multi_proc.py b/returnn/datasets/multi_proc.py
index bd99ec0..0b0b8ae 100644
--- a/returnn/datasets/multi_proc.py
+++ b/returnn/datasets/multi_proc.py
@@ -89,6 +89,7 @@ class MultiProcDataset(CachedDataset2):
             self.num_inputs = _meta_info_cache["num_inputs"]
             self.num_outputs = _meta_info_cache["num_outputs"]
             self._total_num_seqs = _meta_info_cache["total_num_seqs"]
+            self._all_tags = _meta_info_cache["all_tags"]
             self.labels = _meta_info_cache["labels"]
             self._data_keys = _meta_info_cache["data_keys"]
             self._data_dtypes = _meta_info_cache["data_dtypes"]
@@ -315,7 +316,8 @@ class MultiProcDataset(CachedDataset2):
                     parent_conn.send(("num_outputs", dataset.num_outputs))
                     parent_conn.send(("labels", dataset.labels))
                 elif msg == "get_total_num_seqs":
-                    assert dataset
+                    if dataset is None:  # e.g. after finish_epoch(free_resources=True)
+                        dataset = init_dataset(dataset_dict)
                     try:
                         total_num_seqs = dataset.get_total_num_seqs()
                         assert isinstance(total_num_seqs, int)
@@ -323,7 +325,8 @@ class MultiProcDataset(CachedDataset2):
                         total_num_seqs = NotImplementedError(f"{exc} in {dataset}")
                     parent_conn.send(("total_num_seqs", total_num_seqs))
                 elif msg == "get_all_tags":
-                    assert dataset
+                    if dataset is None:  # e.g. after finish_epoch(free_resources=True)
+                        dataset = init_dataset(dataset_dict)
                     try:
                         all_tags = dataset.get_all_tags()
                         assert isinstance(all_tags, list)
@@ -331,11 +334,13 @@ class MultiProcDataset(CachedDataset2):
                         all_tags = NotImplementedError(f"{exc} in {dataset}")
                     parent_conn.send(("all_tags", all_tags))
                 elif msg == "get_data_keys":
-                    assert dataset
+                    if dataset is None:  # e.g. after finish_epoch(free_resources=True)
+                        dataset = init_dataset(dataset_dict)
                     data_keys = dataset.get_data_keys()
                     parent_conn.send(("data_keys", data_keys))
                 elif msg == "get_data_dtypes":
-                    assert dataset
+                    if dataset is None:  # e.g. after finish_epoch(free_resources=True)
+                        dataset = init_dataset(dataset_dict)
                     data_keys = dataset.get_data_keys()
                     parent_conn.send(("data_dtypes", {k: dataset.get_data_dtype(k) for k in data_keys}))
                 elif msg == "init_seq_order":
@@ -486,6 +491,7 @@ class MultiProcDataset(CachedDataset2):
     def get_total_num_seqs(self, *, fast: bool = False) -> int:
         """total num seqs"""
         if self._total_num_seqs is None:
+            self._lazy_init()
             worker = self._seq_order_proc_parent_conn
             worker.send(("get_total_num_seqs", {}))
             msg, self._total_num_seqs = worker.recv()
@@ -500,6 +506,7 @@ class MultiProcDataset(CachedDataset2):
     def get_all_tags(self):
         """all tags"""
         if self._all_tags is None:
+            self._lazy_init()
             worker = self._seq_order_proc_parent_conn
             worker.send(("get_all_tags", {}))
             msg, self._all_tags = worker.recv()
@@ -514,7 +521,7 @@ class MultiProcDataset(CachedDataset2):
     def finish_epoch(self, *, free_resources: bool = False):
         """finish epoch"""
         super().finish_epoch(free_resources=free_resources)
-        for worker_parent_conn in self._worker_parent_conns:
+        for worker_parent_conn in self._worker_parent_conns or []:
             worker_parent_conn.send(("finish_epoch", {"free_resources": free_resources}))
 
     def get_data_keys(self) -> List[str]:
-- 
2.43.0


From 6b2f3c36a8534ed81bd3ebcb2f961f9b5a2db4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:27 +0000
Subject: [PATCH 19/87] fix: rf.gather clip_to_valid (Torch) with empty seqs,
 e.g. via rf.reverse_sequence

---
 returnn/torch/frontend/_backend.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index 82f2108..56a0ad2 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -991,9 +991,9 @@ class TorchBackend(Backend[torch.Tensor]):
             raise TypeError(f"Unsupported type for indices: {type(indices)}")
         if clip_to_valid:
             if axis.dyn_size_ext is not None:
-                indices = rf.clip_by_value(
-                    indices, 0, axis.get_dyn_size_ext_for_device(indices.device) - 1, allow_broadcast_all_sources=True
-                )
+                # Min 0 for the upper limit, because there can be seqs of len 0.
+                max_idx = rf.relu(axis.get_dyn_size_ext_for_device(indices.device) - 1)
+                indices = rf.clip_by_value(indices, 0, max_idx, allow_broadcast_all_sources=True)
             else:
                 indices = indices.copy()
                 indices.raw_tensor = torch.clamp(indices.raw_tensor, 0, source.raw_tensor.shape[axis_int] - 1)
-- 
2.43.0


From 3546363e243c0900026946e74e89eadc1b1e45cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:27 +0000
Subject: [PATCH 20/87] fix: rf.slice (Torch): negative start or end, and step

---
 returnn/torch/frontend/_backend.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index 56a0ad2..f4df4d8 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -1173,9 +1173,19 @@ class TorchBackend(Backend[torch.Tensor]):
             if isinstance(end, Tensor):
                 assert end.dims == ()
                 end = end.raw_tensor
+            axis_size = source.raw_tensor.shape[axis_int]
             if end is None:
-                end = axis.get_dim_value()
+                end = axis_size
+            elif isinstance(end, int) and end < 0:
+                end += axis_size
+            if isinstance(start, int) and start < 0:
+                start += axis_size
             out.raw_tensor = torch.narrow(source.raw_tensor, dim=axis_int, start=start, length=end - start)
+            if isinstance(step, Tensor):
+                assert step.dims == ()
+                step = int(step.raw_tensor)
+            if step is not None and step != 1:
+                out.raw_tensor = out.raw_tensor[(slice(None),) * axis_int + (slice(None, None, step),)]
         return out
 
     @staticmethod
-- 
2.43.0


From aab0213d76ddba5f954b2a2b542a70e065595b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:27 +0000
Subject: [PATCH 21/87] fix: rf.pad (Torch) with non-scalar value: use the
 actual left/right padding

---
 returnn/torch/frontend/_backend.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index f4df4d8..4d7030c 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -494,11 +494,15 @@ class TorchBackend(Backend[torch.Tensor]):
             assert isinstance(value, Tensor) and value.dims  # non-scalar
             assert all(dim in source.dims and dim not in axes for dim in value.dims)
             assert len(axes) == 1  # not implemented otherwise currently...
-            ext_dim = Dim(1, name="ext")
-            value_ext = rf.expand_dim(value, ext_dim)
-            out = TorchBackend.concat(
-                (source, axes[0]), (value_ext, ext_dim), allow_broadcast=True, out_dim=out_dims[0]
-            )
+            parts = [(source, axes[0])]
+            left_, right_ = int(raw_pad[-2]), int(raw_pad[-1])
+            if left_ > 0:
+                ext_dim = Dim(left_, name="ext_left")
+                parts.insert(0, (rf.expand_dim(value, ext_dim), ext_dim))
+            if right_ > 0:
+                ext_dim = Dim(right_, name="ext_right")
+                parts.append((rf.expand_dim(value, ext_dim), ext_dim))
+            out = TorchBackend.concat(*parts, allow_broadcast=True, out_dim=out_dims[0])
         if any(dim.need_masking() for dim in out_dims) and handle_dynamic_dims:
             if all(right == 0 for right in raw_pad[1::2]) and mode != "circular":
                 pass  # no masking needed
-- 
2.43.0


From a082d730d9630a5278ef464ccdaf177ce67836d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:27 +0000
Subject: [PATCH 22/87] fix: rf.pad (Torch) with default value and dynamic dims

---
 returnn/torch/frontend/_backend.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index 4d7030c..c1aa068 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -533,7 +533,9 @@ class TorchBackend(Backend[torch.Tensor]):
                             out.raw_tensor = torch.where(
                                 mask.copy_compatible_to_dims_raw(out.dims),
                                 out.raw_tensor,
-                                value.copy_compatible_to_dims_raw(out.dims) if isinstance(value, Tensor) else value,
+                                value.copy_compatible_to_dims_raw(out.dims)
+                                if isinstance(value, Tensor)
+                                else (0 if value is None else value),
                             )
         return out
 
-- 
2.43.0


From 354ca9bdf0eb0be47fdf006eb2bb6715f1b81cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:27 +0000
Subject: [PATCH 23/87] fix: rf.matmul (Torch): check whether the reduce dims
 need masking

---
 returnn/torch/frontend/_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index c1aa068..79d9145 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -1358,7 +1358,7 @@ class TorchBackend(Backend[torch.Tensor]):
         if isinstance(reduce, Dim):
             reduce = [reduce]
 
-        if use_mask and any(dim.dyn_size_ext for dim in reduce):
+        if use_mask and any(dim.need_masking() for dim in reduce):
             raise NotImplementedError("masking in matmul reduce not yet implemented")
 
         a_dims = a.dims
-- 
2.43.0


From 9579b81f20f8ec1d42e95168755834273323a862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:27 +0000
Subject: [PATCH 24/87] fix: rf.edit_distance with static dims

---
 returnn/frontend/loss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/returnn/frontend/loss.py b/returnn/frontend/loss.py
index 0098bbd..5bf76e3 100644
--- a/returnn/frontend/loss.py
+++ b/returnn/frontend/loss.py
@@ -120,8 +120,8 @@ def edit_distance(a: Tensor, a_spatial_dim: Dim, b: Tensor, b_spatial_dim: Dim,
     for dim in b.remaining_dims(b_spatial_dim):
         if dim not in batch_dims:
             batch_dims.append(dim)
-    a_seq_len = a_spatial_dim.get_dyn_size_ext_for_device(dev)  # [B]
-    b_seq_len = b_spatial_dim.get_dyn_size_ext_for_device(dev)  # [B]
+    a_seq_len = a_spatial_dim.get_size_tensor(device=dev)  # [B]
+    b_seq_len = b_spatial_dim.get_size_tensor(device=dev)  # [B]
     a_tensor_ext, (a_spatial_dim_ext,) = rf.pad(
         a, axes=[a_spatial_dim], padding=[(b_spatial_dim, b_spatial_dim)], handle_dynamic_dims=False
     )  # [Tb+Ta+Tb,B]
-- 
2.43.0


From c17d6149dd1aed64c4d0f49f1c447f4c7fd1adff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:41 +0000
Subject: [PATCH 25/87] fix: rf.scatter: padded frames with explicit fill
 value, int dtype in max/min mode, multiple out dims

---
 returnn/frontend/array_.py | 44 +++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/returnn/frontend/array_.py b/returnn/frontend/array_.py
index 32f0a68..7246192 100644
--- a/returnn/frontend/array_.py
+++ b/returnn/frontend/array_.py
@@ -830,36 +830,46 @@ def scatter(
     if not out_dim:
         assert isinstance(indices, Tensor) and indices.sparse_dim
         out_dim = indices.sparse_dim
+    if mode == "sum":
+        neutral_value = 0
+    elif mode == "max":
+        neutral_value = numpy.iinfo(source.dtype).min if "int" in source.dtype else float("-inf")
+    elif mode == "min":
+        neutral_value = numpy.iinfo(source.dtype).max if "int" in source.dtype else float("inf")
+    else:
+        raise ValueError(f"scatter: invalid mode {mode!r}")
     if fill_value is None:
-        if mode == "sum":
-            fill_value = 0
-        elif mode == "max":
-            if "int" in source.dtype:
-                fill_value = numpy.iinfo(source.raw_tensor.dtype).min
-            else:
-                fill_value = float("-inf")
-        elif mode == "min":
-            if "int" in source.dtype:
-                fill_value = numpy.iinfo(source.raw_tensor.dtype).max
-            else:
-                fill_value = float("inf")
-        else:
-            raise ValueError(f"scatter: invalid mode {mode!r}")
+        fill_value = neutral_value
     indices_dim = indices_dim if isinstance(indices_dim, (list, tuple)) else [indices_dim]
     if any(dim.need_masking() for dim in indices_dim):
         if use_mask is None:
             use_mask = rf.use_mask_default(default=True, default_false_for_behavior_version_up_to=22)
         if use_mask:
-            source = source.copy_masked(fill_value, dims=indices_dim)
+            source = source.copy_masked(neutral_value, dims=indices_dim)
     else:
         use_mask = False
+    # If we mask, the padded frames must not have any effect, so we need the neutral value.
+    # However, we want the fill value when there are only padded frames.
+    separate_fill = use_mask and (isinstance(fill_value, Tensor) or fill_value != neutral_value)
     # noinspection PyProtectedMember
     out = source._raw_backend.scatter(
-        source, indices=indices, indices_dim=indices_dim, mode=mode, fill_value=fill_value, out_dim=out_dim
+        source,
+        indices=indices,
+        indices_dim=indices_dim,
+        mode=mode,
+        fill_value=neutral_value if separate_fill else fill_value,
+        out_dim=out_dim,
     )
+    if separate_fill:
+        ones = rf.ones(dims=indices.dims, dtype="int32", device=source.device).copy_masked(0, dims=indices_dim)
+        # noinspection PyProtectedMember
+        counts = source._raw_backend.scatter(
+            ones, indices=indices, indices_dim=indices_dim, mode="sum", fill_value=0, out_dim=out_dim
+        )
+        out = rf.where(counts > 0, out, fill_value)
     if use_mask and mode != "sum":
         # Make sure we don't leave any infinities in the output.
-        out = out.copy_masked(0, dims=[out_dim])
+        out = out.copy_masked(0, dims=out_dim if isinstance(out_dim, (list, tuple)) else [out_dim])
     return out
 
 
-- 
2.43.0


From df8540112ab9569af3c4c088a683b5530d611aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:41 +0000
Subject: [PATCH 26/87] fix: rf.slice (Torch) with step on static dim

---
 returnn/torch/frontend/_backend.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index 79d9145..1dbc544 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -1186,12 +1186,13 @@ class TorchBackend(Backend[torch.Tensor]):
                 end += axis_size
             if isinstance(start, int) and start < 0:
                 start += axis_size
-            out.raw_tensor = torch.narrow(source.raw_tensor, dim=axis_int, start=start, length=end - start)
+            out_raw = torch.narrow(source.raw_tensor, dim=axis_int, start=start, length=end - start)
             if isinstance(step, Tensor):
                 assert step.dims == ()
                 step = int(step.raw_tensor)
             if step is not None and step != 1:
-                out.raw_tensor = out.raw_tensor[(slice(None),) * axis_int + (slice(None, None, step),)]
+                out_raw = out_raw[(slice(None),) * axis_int + (slice(None, None, step),)]
+            out.raw_tensor = out_raw
         return out
 
     @staticmethod
-- 
2.43.0


From 8daef823e1b9e0179ca983c9022635dcd34e6952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:41 +0000
Subject: [PATCH 27/87] fix: rf.reduce (Torch): padded frames vs infinite
 values

---
 returnn/torch/frontend/_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index 1dbc544..8ee57a6 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -1495,9 +1495,9 @@ class TorchBackend(Backend[torch.Tensor]):
             source = source.copy()
             dtype = source.raw_tensor.dtype
             if mode in ("max", "logsumexp", "argmax"):
-                mask_value = torch.finfo(dtype).min if dtype.is_floating_point else torch.iinfo(dtype).min
+                mask_value = float("-inf") if dtype.is_floating_point else torch.iinfo(dtype).min
             elif mode in ("min", "argmin"):
-                mask_value = torch.finfo(dtype).max if dtype.is_floating_point else torch.iinfo(dtype).max
+                mask_value = float("inf") if dtype.is_floating_point else torch.iinfo(dtype).max
             elif mode == "sum":
                 mask_value = 0
             elif mode == "mean":
-- 
2.43.0


From 59b9207c2e1d8ab32c0d692b9e74abfefa63724d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:41 +0000
Subject: [PATCH 28/87] fix: rf.reduce_max/reduce_min (Torch) over multiple
 dims

---
 returnn/torch/frontend/_backend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index 8ee57a6..372f650 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -1521,6 +1521,8 @@ class TorchBackend(Backend[torch.Tensor]):
             if mode in ["max", "min"]:
                 # result is a tuple (values, indices). https://pytorch.org/docs/stable/generated/torch.max.html
                 raw_result, _ = raw_result
+        elif mode in ["max", "min"]:  # torch.max/min does not support multiple dims
+            raw_result = getattr(torch, "a" + mode)(source.raw_tensor, dim=raw_dims)
         else:
             raw_result = func(source.raw_tensor, dim=raw_dims)
         if correction_factor is not None:
-- 
2.43.0


From a8a6074e4db553dc9bdff1ab99206c7816e70810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:31 +0000
Subject: [PATCH 29/87] fix: rf.reduce_logmeanexp over static dims

---
 returnn/frontend/reduce.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/returnn/frontend/reduce.py b/returnn/frontend/reduce.py
index 94fdca5..1428e56 100644
--- a/returnn/frontend/reduce.py
+++ b/returnn/frontend/reduce.py
@@ -117,7 +117,9 @@ def reduce_logmeanexp(source: Tensor[T], *, axis: Union[Dim, Sequence[Dim]], use
     :return: tensor with axis removed
     """
     s = reduce_logsumexp(source, axis=axis, use_mask=use_mask)
-    return s - rf.safe_log(rf.cast(rf.num_elements_of_shape(axis, use_mask=use_mask, device=s.device), s.dtype))
+    n = rf.num_elements_of_shape(axis, use_mask=use_mask, device=s.device)
+    n = rf.convert_to_tensor(n, device=s.device)  # can be int if all static
+    return s - rf.safe_log(rf.cast(n, s.dtype))
 
 
 def reduce_any(source: Tensor[T], *, axis: Union[Dim, Sequence[Dim]], use_mask: bool = True) -> Tensor[T]:
-- 
2.43.0


From 47cc9fb1c1862ea8c93526932b51e48319675134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:14 +0000
Subject: [PATCH 30/87] fix: Dim math, static op dynamic: do not return stale
 cached dim after the dynamic dim was reset

---
 returnn/tensor/_dim_extra.py | 51 +++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 27 deletions(-)

diff --git a/returnn/tensor/_dim_extra.py b/returnn/tensor/_dim_extra.py
index 793e875..cead5c6 100644
--- a/returnn/tensor/_dim_extra.py
+++ b/returnn/tensor/_dim_extra.py
@@ -2080,8 +2080,7 @@ class _DimMixin:
         :return: self + other. note that this is not commutative, i.e. different from other + self.
         :rtype: Dim
         """
-        cache_key = ("add", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
+        cache, cache_key = self._get_cache_dim_math("add", other)
         cache_entry = cache.get(cache_key, None)
         if cache_entry:
             cache_entry.complete_dyn_size()
@@ -2098,8 +2097,7 @@ class _DimMixin:
         :return: other + self
         :rtype: Dim
         """
-        cache_key = ("add_left", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
+        cache, cache_key = self._get_cache_dim_math("add_left", other)
         cache_entry = cache.get(cache_key, None)
         if cache_entry:
             cache_entry.complete_dyn_size()
@@ -2123,8 +2121,7 @@ class _DimMixin:
         :return: self - other
         :rtype: Dim
         """
-        cache_key = ("sub", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
+        cache, cache_key = self._get_cache_dim_math("sub", other)
         cache_entry = cache.get(cache_key, None)
         if cache_entry:
             cache_entry.complete_dyn_size()
@@ -2141,8 +2138,7 @@ class _DimMixin:
         :return: (-other) + self
         :rtype: Dim
         """
-        cache_key = ("sub_left", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
+        cache, cache_key = self._get_cache_dim_math("sub_left", other)
         cache_entry = cache.get(cache_key, None)
         if cache_entry:
             cache_entry.complete_dyn_size()
@@ -2158,8 +2154,7 @@ class _DimMixin:
         :param Dim|int other:
         :rtype: Dim
         """
-        cache_key = ("mul", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
+        cache, cache_key = self._get_cache_dim_math("mul", other)
         cache_entry = cache.get(cache_key, None)
         if cache_entry:
             cache_entry.complete_dyn_size()
@@ -2175,8 +2170,7 @@ class _DimMixin:
         :param Dim|int other:
         :rtype: Dim
         """
-        cache_key = ("mul_left", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
+        cache, cache_key = self._get_cache_dim_math("mul_left", other)
         cache_entry = cache.get(cache_key, None)
         if cache_entry:
             cache_entry.complete_dyn_size()
@@ -2192,8 +2186,7 @@ class _DimMixin:
         :param Dim|int other:
         :rtype: Dim
         """
-        cache_key = ("floordiv", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
+        cache, cache_key = self._get_cache_dim_math("floordiv", other)
         cache_entry = cache.get(cache_key, None)
         if cache_entry:
             cache_entry.complete_dyn_size()
@@ -2216,8 +2209,7 @@ class _DimMixin:
         :param Dim|int other:
         :rtype: Dim
         """
-        cache_key = ("truediv_left", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
+        cache, cache_key = self._get_cache_dim_math("truediv_left", other)
         cache_entry = cache.get(cache_key, None)
         if cache_entry:
             cache_entry.complete_dyn_size()
@@ -2233,8 +2225,7 @@ class _DimMixin:
         :param Dim|int other:
         :rtype: Dim
         """
-        cache_key = ("truediv", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
+        cache, cache_key = self._get_cache_dim_math("truediv", other)
         cache_entry = cache.get(cache_key, None)
         if cache_entry:
             cache_entry.complete_dyn_size()
@@ -2250,8 +2241,7 @@ class _DimMixin:
         :param Dim|int other:
         :rtype: Dim
         """
-        cache_key = ("ceildiv_left", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
+        cache, cache_key = self._get_cache_dim_math("ceildiv_left", other)
         cache_entry = cache.get(cache_key, None)
         if cache_entry:
             cache_entry.complete_dyn_size()
@@ -2267,8 +2257,7 @@ class _DimMixin:
         :param Dim|int other:
         :rtype: Dim
         """
-        cache_key = ("ceildiv", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
+        cache, cache_key = self._get_cache_dim_math("ceildiv", other)
         cache_entry = cache.get(cache_key, None)
         if cache_entry:
             cache_entry.complete_dyn_size()
@@ -2291,16 +2280,24 @@ class _DimMixin:
         """
         return self.derived_from_op and self.derived_from_op.kind == "constant"
 
+    def _get_cache_dim_math(
+        self: Dim, op_kind: str, operand: Union[Dim, int]
+    ) -> Tuple[_CacheDimMath, Tuple[str, Union[Dim, int]]]:
+        if isinstance(operand, _d.Dim) and self.dimension is not None and operand.dimension is None:
+            # static <op> dynamic. The result depends on the dynamic sizes of the operand,
+            # so it must be invalidated when the operand is reset (e.g. for each new batch), see reset_raw.
+            # The static dim (self) is usually never reset. So store it in the operand.
+            # noinspection PyProtectedMember
+            return operand.get_same_base()._make_extra().cache_dim_math, (op_kind + "_with_static", self)
+        # noinspection PyProtectedMember
+        return self.get_same_base()._make_extra().cache_dim_math, (op_kind, operand)
+
     def _cache_dim_math_get(
         self: Dim, op_kind: str, operand: Union[Dim, int]
     ) -> Tuple[_CacheDimMath, Tuple[str, Union[Dim, int]], Optional[Dim]]:
-        same_base = self.get_same_base()
-        # noinspection PyProtectedMember
-        extra = same_base._make_extra()
         if isinstance(operand, _d.Dim) and operand.is_constant_static_dim():
             operand = operand.dimension
-        cache = extra.cache_dim_math
-        cache_key = (op_kind, operand)
+        cache, cache_key = self._get_cache_dim_math(op_kind, operand)
         return cache, cache_key, cache.get(cache_key, None)
 
     def __sis_state__(self):
-- 
2.43.0


From d8d6397f178b91fac682146d78e2905576d82171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:40 +0000
Subject: [PATCH 31/87] fix: RF Cache.get, original dim with same size can be
 out of scope

---
 returnn/frontend/_cache.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/returnn/frontend/_cache.py b/returnn/frontend/_cache.py
index a6b0075..4649067 100644
--- a/returnn/frontend/_cache.py
+++ b/returnn/frontend/_cache.py
@@ -60,7 +60,9 @@ class Cache:
                 assert isinstance(key_item, DimWrapper)
                 dim_orig = key_item_orig.dim_ref()
                 dim = key_item.dim_ref()
-                assert isinstance(dim_orig, Dim) and isinstance(dim, Dim)
+                assert isinstance(dim, Dim)
+                if dim_orig is None:
+                    continue  # went out of scope, thus it also cannot be in the cached value
                 dim_map[dim_orig] = dim
 
         # noinspection PyShadowingNames
-- 
2.43.0


From e3c696617a948d4126e6ca1f9d583ac0bce31e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:40 +0000
Subject: [PATCH 32/87] fix: RF Cache, do not mix up single_step_dim with other
 dims of size 1

---
 returnn/frontend/_cache.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/returnn/frontend/_cache.py b/returnn/frontend/_cache.py
index 4649067..0c18618 100644
--- a/returnn/frontend/_cache.py
+++ b/returnn/frontend/_cache.py
@@ -190,7 +190,11 @@ class DimWrapper:
         if isinstance(other, DimWrapper):
             if self.dim_value is not None:
                 return self.dim_value == other.dim_value
-            return self.dim_ref() == other.dim_ref() and self.dyn_size_ref() is other.dyn_size_ref()
+            if other.dim_value is not None or self.dim_ref() != other.dim_ref():
+                return False
+            if self.dyn_size_ref is None or other.dyn_size_ref is None:
+                return self.dyn_size_ref is other.dyn_size_ref
+            return self.dyn_size_ref() is other.dyn_size_ref()
         return False
 
     def __hash__(self):
@@ -198,6 +202,9 @@ class DimWrapper:
 
 
 def _dim_value_for_key(dim: Dim) -> Optional[int]:
+    if dim.special:
+        # E.g. single_step_dim has size 1 but is handled differently than other dims of size 1.
+        return None
     if dim.size is not None:
         return dim.size
     if dim.dyn_size_ext is not None and not dim.dyn_size_ext.dims:
-- 
2.43.0


From dfd94bc3460283c20d58b6f15a7963350980db64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:19 +0000
Subject: [PATCH 33/87] fix: RF RunningMean, wrong assert on dims disallowed
 any input to be reduced

---
 returnn/frontend/reduce.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/frontend/reduce.py b/returnn/frontend/reduce.py
index 1428e56..03c7a1b 100644
--- a/returnn/frontend/reduce.py
+++ b/returnn/frontend/reduce.py
@@ -249,7 +249,7 @@ class RunningMean(rf.Module):
         """
 
         def _update_running_stats():
-            assert all(d in self.shape for d in x.dims)
+            assert all(d in x.dims for d in self.shape)
             x_ = rf.reduce_mean(x, axis=[d for d in x.dims if d not in self.shape])
             self.mean.assign_add(self.alpha * (x_ - self.mean))
 
-- 
2.43.0


From 9ccb10d7240a9665872f62dafebe99ff4d90d7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:19 +0000
Subject: [PATCH 34/87] fix: RF moments, mean must also respect use_mask

---
 returnn/frontend/normalization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/frontend/normalization.py b/returnn/frontend/normalization.py
index 16bb70a..8df9836 100644
--- a/returnn/frontend/normalization.py
+++ b/returnn/frontend/normalization.py
@@ -33,7 +33,7 @@ def moments(
         while in most other frameworks, the default is ``correction=0``, which is the biased variance estimation.
     :return: tuple (mean, variance). it has the same shape as the input with the axis removed
     """
-    mean = rf.reduce_mean(x, axis=axis)
+    mean = rf.reduce_mean(x, axis=axis, use_mask=use_mask)
     # stop_gradient does not change the gradient here
     variance = rf.reduce_mean(rf.squared_difference(x, rf.stop_gradient(mean)), axis=axis, use_mask=use_mask)
     if isinstance(correction, Tensor) or correction != 0:
-- 
2.43.0


From 034f86edf8e4de307b5c746681d94491c47a6f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:19 +0000
Subject: [PATCH 35/87] fix: RF stft, out spatial dim for
 window_use_frame_length=False

---
 returnn/frontend/signal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/returnn/frontend/signal.py b/returnn/frontend/signal.py
index a4f4bb7..69f937c 100644
--- a/returnn/frontend/signal.py
+++ b/returnn/frontend/signal.py
@@ -82,7 +82,10 @@ def stft(
         from .conv import make_conv_out_spatial_dims
 
         (out_spatial_dim,) = make_conv_out_spatial_dims(
-            [in_spatial_dim], filter_size=frame_length, strides=frame_step, padding="valid"
+            [in_spatial_dim],
+            filter_size=frame_length if window_use_frame_length else fft_length,
+            strides=frame_step,
+            padding="valid",
         )
     # noinspection PyProtectedMember
     return (
-- 
2.43.0


From 5b89fc0ab523ef73ddbe436d2097feb76617a5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:41 +0000
Subject: [PATCH 36/87] fix: torch conv, padding same with odd filter size and
 dilation

---
 returnn/torch/frontend/_backend.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index 372f650..9a3166b 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -1929,10 +1929,10 @@ class TorchBackend(Backend[torch.Tensor]):
             )
         use_striding = strides and (strides > 1 if isinstance(strides, int) else any(s > 1 for s in strides))
         if padding == "same" and not use_striding and all(d.dimension % 2 == 1 for d in filter_size):
-            if all(filter_size[0].dimension == d.dimension for d in filter_size):  # all same
-                padding = (filter_size[0].dimension - 1) // 2
-            else:
-                padding = tuple(d.dimension // 2 for d in filter_size)
+            dilations = dilation_rate or 1
+            dilations = [dilations] * len(filter_size) if isinstance(dilations, int) else dilations
+            paddings = tuple(d.dimension // 2 * dilation for d, dilation in zip(filter_size, dilations))
+            padding = paddings[0] if all(p == paddings[0] for p in paddings) else paddings
         if padding == "same" and (use_striding or torch.onnx.is_in_onnx_export()):
             # padding='same' is not supported for strided convolutions.
             # Moreover, padding specified as a string isn't supported for ONNX exporting as of 2023/05/19.
-- 
2.43.0


From 98b45c77685a9a5c58bc73a49fc28a45618c8564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:41 +0000
Subject: [PATCH 37/87] fix: torch pool, padding same with stride 1 and even
 pool size

---
 returnn/torch/frontend/_backend.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index 9a3166b..4b3b102 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -2054,6 +2054,7 @@ class TorchBackend(Backend[torch.Tensor]):
             [-1, batch_dims[-1].get_dim_value() if batch_dims else 1] + [d.get_dim_value() for d in in_spatial_dims],
         )
         assert isinstance(strides, (list, tuple)) and len(strides) == len(in_spatial_dims) == len(pool_size)
+        cut_first_frame_axes = []
         if isinstance(padding, str) and padding.lower() == "same":
             # padding='same' is not quite the same as ceil_mode=True, so we explicitly pad here.
             padding = []
@@ -2061,7 +2062,13 @@ class TorchBackend(Backend[torch.Tensor]):
                 # See comment in conv.
                 # I'm a bit unsure here... https://github.com/pytorch/pytorch/issues/148123
                 pad = s - 1 - (src_raw.shape[2 + i] - 1) % strides[i]
-                padding.append(pad // 2)
+                if strides[i] == 1 and pad % 2 == 1:
+                    # Torch pads the same amount left/right, and ceil_mode does not add more on the right for stride 1.
+                    # Thus pad one more on both sides, and cut off the first frame of the output below.
+                    padding.append(pad // 2 + 1)
+                    cut_first_frame_axes.append(2 + i)
+                else:
+                    padding.append(pad // 2)
             ceil_mode = True
         elif isinstance(padding, str) and padding.lower() == "valid":
             padding = 0
@@ -2082,6 +2089,8 @@ class TorchBackend(Backend[torch.Tensor]):
         if mode == "avg":
             kwargs["count_include_pad"] = False
         out_raw = func(src_raw, kernel_size=pool_size, stride=strides, ceil_mode=ceil_mode, padding=padding, **kwargs)
+        for axis in cut_first_frame_axes:
+            out_raw = out_raw.narrow(axis, 1, out_raw.shape[axis] - 1)
         out = Tensor("pool", dims=batch_dims + list(out_spatial_dims), dtype=source.dtype)
         out.raw_tensor = torch.reshape(out_raw, [d.get_dim_value() for d in out.dims])
         if source.feature_dim and source.feature_dim in out.dims:
-- 
2.43.0


From 53c7d335cb54c18e1f23b104fc43186c887cde2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:39 +0000
Subject: [PATCH 38/87] fix: RF scan with cond, the final state must include
 the last iteration of each entry

---
 returnn/frontend/loop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/frontend/loop.py b/returnn/frontend/loop.py
index d290f85..7d321b1 100644
--- a/returnn/frontend/loop.py
+++ b/returnn/frontend/loop.py
@@ -160,7 +160,7 @@ def scan(
             ys_ = tree.map_structure(lambda ys__, y_: ys__.push_back(y_) if ys__ is not None else None, ys_, y)
             c = cond(None, s_)
             c = rf.logical_and(c, prev_cond)
-            s_ = rf.nested.mask_nested(s_, mask=c, mask_value=s, allow_dim_extension=False)
+            s_ = rf.nested.mask_nested(s_, mask=prev_cond, mask_value=s, allow_dim_extension=False)
             return i + 1, seq_len_, c, s_, ys_
 
         if cond_before_body:
-- 
2.43.0


From 7a28092eb4a76b7dc938fb35994f9bc2961efb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:04 +0000
Subject: [PATCH 39/87] fix: RF relative_positional_encoding, single step with
 history dim of per-sequence sizes

---
 returnn/frontend/attention.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/frontend/attention.py b/returnn/frontend/attention.py
index b0d4991..74813bf 100644
--- a/returnn/frontend/attention.py
+++ b/returnn/frontend/attention.py
@@ -942,7 +942,7 @@ def relative_positional_encoding(
         arg, feat_dim_ = rf.replace_dim(arg, in_dim=feat_dim_, out_dim=feat_dim)
         emb = rf.sin(arg)
         emb.verify_out_shape(
-            {out_spatial_dim, feat_dim} if out_spatial_dim != single_step_dim else {feat_dim},
+            {feat_dim} | indices.dims_set,
             allow_missing_implicit_dims=True,
         )
         emb.feature_dim = feat_dim
-- 
2.43.0


From 6745d79694f4e3a8ceeb225b8827a515850f4cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:13 +0000
Subject: [PATCH 40/87] fix: torch updater, weight decay options with
 weight_decay=0 are not passed to the optimizer class

---
 returnn/torch/updater.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/returnn/torch/updater.py b/returnn/torch/updater.py
index 791d158..e524667 100644
--- a/returnn/torch/updater.py
+++ b/returnn/torch/updater.py
@@ -504,6 +504,10 @@ class Updater:
             )
             return network_params
 
+        # Those are our own options. Always remove them, also when they are not used, the optimizer does not know them.
+        blacklist_wd_modules = optimizer_opts.pop("weight_decay_modules_blacklist", None)
+        custom_include_check = optimizer_opts.pop("weight_decay_custom_include_check", None)
+
         weight_decay = optimizer_opts.get("weight_decay", 0.0)
         if not weight_decay:
             return network_params
@@ -512,12 +516,10 @@ class Updater:
         # Parameters without weight decay: biases + LayerNorm/Embedding layers.
         wd_params = set()
         no_wd_params = set()
-        blacklist_wd_modules = optimizer_opts.pop("weight_decay_modules_blacklist", None)
         if blacklist_wd_modules is None:
             blacklist_wd_modules = (torch.nn.LayerNorm, torch.nn.Embedding)
         else:
             blacklist_wd_modules = _wrap_user_blacklist_wd_modules(blacklist_wd_modules)
-        custom_include_check = optimizer_opts.pop("weight_decay_custom_include_check", None)
         if custom_include_check:
             assert callable(custom_include_check), f"invalid weight_decay_custom_include_check {custom_include_check!r}"
         # Tracker of visited parameters to only add each parameter once, in case two modules share common parameters.
-- 
2.43.0


From f9066be5bf6fd5cb3062d6c00509e89d3274d09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:13 +0000
Subject: [PATCH 41/87] fix: torch updater, weight_decay_custom_include_check
 gets the full param name

---
 returnn/torch/updater.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/torch/updater.py b/returnn/torch/updater.py
index e524667..4afd6b8 100644
--- a/returnn/torch/updater.py
+++ b/returnn/torch/updater.py
@@ -539,7 +539,7 @@ class Updater:
                 custom_include = None
                 if custom_include_check:
                     custom_include = custom_include_check(
-                        module=module, rf_module=rf_module, full_param_name=param_name, param=param
+                        module=module, rf_module=rf_module, full_param_name=full_param_name, param=param
                     )
                 if custom_include is not None:
                     assert isinstance(custom_include, bool), "weight_decay_custom_include_check did not return bool"
-- 
2.43.0


From 95349998e80126c04e0aaaba07f846b58521080b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:13 +0000
Subject: [PATCH 42/87] fix: torch updater, learning_rate_multiplier stays in
 effect when the learning rate is set

---
 returnn/torch/updater.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/returnn/torch/updater.py b/returnn/torch/updater.py
index 4afd6b8..329140c 100644
--- a/returnn/torch/updater.py
+++ b/returnn/torch/updater.py
@@ -130,6 +130,7 @@ class Updater:
                 raise NotImplementedError("not implemented for not callable dynamic_learning_rate")
 
         self._optimizer_opts = None
+        self._optimizer_lr_multiplier = 1.0
         self.optimizer = None  # type: typing.Optional[torch.optim.Optimizer]
 
         self._grad_clip = self.config.float("gradient_clip", 0.0)
@@ -187,7 +188,7 @@ class Updater:
             self._effective_learning_rate = float(lr)
         if self.optimizer:
             for param_group in self.optimizer.param_groups:
-                param_group["lr"] = self._effective_learning_rate
+                param_group["lr"] = self._effective_learning_rate * self._optimizer_lr_multiplier
 
     def set_current_train_step(self, *, global_train_step: int, epoch: int, epoch_continuous: Optional[float] = None):
         """
@@ -425,8 +426,8 @@ class Updater:
             opt_kwargs["eps"] = opt_kwargs.pop("epsilon")
         if "learning_rate" in opt_kwargs or "lr" in opt_kwargs:
             raise ValueError("'learning_rate' should be set outside of the 'optimizer' dict.")
-        lr = lr * opt_kwargs.pop("learning_rate_multiplier", 1.0)
-        opt_kwargs["lr"] = lr
+        self._optimizer_lr_multiplier = opt_kwargs.pop("learning_rate_multiplier", 1.0)
+        opt_kwargs["lr"] = lr * self._optimizer_lr_multiplier
 
         params_or_param_groups = self._get_optimizer_param_groups(optim_class, opt_kwargs)
         optimizer = optim_class(params_or_param_groups, **opt_kwargs)
-- 
2.43.0


From 69dc479f953d1bda69c6221cbe577a587c0737ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:14 +0000
Subject: [PATCH 43/87] fix: learning rate control, relative error with zero
 score, avoid ZeroDivisionError

---
 returnn/learning_rate_control.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/returnn/learning_rate_control.py b/returnn/learning_rate_control.py
index 3d59e3e..610868a 100644
--- a/returnn/learning_rate_control.py
+++ b/returnn/learning_rate_control.py
@@ -338,10 +338,15 @@ class LearningRateControl:
             return None
         if old_key != new_key:
             return None
-        if self.relative_error_div_by_old:
-            relative_error = (new_error - old_error) / abs(old_error)
+        error_diff = new_error - old_error
+        div = abs(old_error) if self.relative_error_div_by_old else abs(new_error)
+        if div:
+            relative_error = error_diff / div
+        elif error_diff:
+            # E.g. error rate reached exactly zero.
+            relative_error = float("inf") if error_diff > 0 else float("-inf")
         else:
-            relative_error = (new_error - old_error) / abs(new_error)
+            relative_error = 0.0
         if self.relative_error_also_relative_to_learning_rate:
             learning_rate = self.get_most_recent_learning_rate(new_epoch, exclude_current=False)
             if learning_rate > 0:
-- 
2.43.0


From 2cca73e99c8392fdd99f32c8ca3d4636e1526915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:00 +0000
Subject: [PATCH 44/87] fix: StaticDataset is picklable

---
 returnn/datasets/generating.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/returnn/datasets/generating.py b/returnn/datasets/generating.py
index 845657f..7f165de 100644
--- a/returnn/datasets/generating.py
+++ b/returnn/datasets/generating.py
@@ -1044,6 +1044,10 @@ class StaticDataset(CachedDataset2):
     Provide all the data as a list of dict of numpy arrays.
     """
 
+    # For pickling. output_dim (num_outputs) covers input_dim already.
+    _getnewargs_exclude_attrs = CachedDataset2._getnewargs_exclude_attrs.union(("input_dim",))
+    _getnewargs_remap = dict(output_dim="num_outputs", **CachedDataset2._getnewargs_remap)
+
     @classmethod
     def copy_from_dataset(cls, dataset, start_seq_idx=0, max_seqs=None):
         """
-- 
2.43.0


From 79bd3990e9ace74c165eda4e44630e316bb2e330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:49 +0000
Subject: [PATCH 45/87] fix: CombinedDataset is picklable

---
 returnn/datasets/meta.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/returnn/datasets/meta.py b/returnn/datasets/meta.py
index 6bceb9f..e14244d 100644
--- a/returnn/datasets/meta.py
+++ b/returnn/datasets/meta.py
@@ -971,6 +971,7 @@ class CombinedDataset(CachedDataset2):
         super(CombinedDataset, self).__init__(**kwargs)
         assert self.shuffle_frames_of_nseqs == 0  # not implemented. anyway only for non-recurrent nets
 
+        self.data_map = data_map
         self.dataset_keys = set([m[0] for m in data_map.keys()])  # type: typing.Set[str]
         self.dataset_idx2key_map = dict(enumerate(sorted(self.dataset_keys)))  # idx -> dataset-key
         self.data_keys = set(data_map.values())  # type: typing.Set[str]
-- 
2.43.0


From 832d18e117e72341180659b26d0f3b1de0589213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:49 +0000
Subject: [PATCH 46/87] fix: PostprocessingDataset with map_seq is picklable

---
 returnn/datasets/postprocessing.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/returnn/datasets/postprocessing.py b/returnn/datasets/postprocessing.py
index 1d708fa..b0e4aeb 100644
--- a/returnn/datasets/postprocessing.py
+++ b/returnn/datasets/postprocessing.py
@@ -139,9 +139,12 @@ class PostprocessingDataset(CachedDataset2):
         self._dataset_def = dataset
         self._map_seq = map_seq
         self._map_seq_stream = map_seq_stream
-        if map_seq_stream_preserves_num_seqs is None and map_seq_stream is not None:
-            map_seq_stream_preserves_num_seqs = getattr(map_seq_stream, "preserves_num_seqs", None)
-        self._map_seq_stream_preserves_num_seqs = map_seq_stream_preserves_num_seqs or False
+        if map_seq_stream is not None:
+            if map_seq_stream_preserves_num_seqs is None:
+                map_seq_stream_preserves_num_seqs = getattr(map_seq_stream, "preserves_num_seqs", None)
+            map_seq_stream_preserves_num_seqs = map_seq_stream_preserves_num_seqs or False
+        # Keep None for map_seq, such that this can be passed to __init__ again (pickling).
+        self._map_seq_stream_preserves_num_seqs = map_seq_stream_preserves_num_seqs
         self._map_outputs = map_outputs
         self._rng = RandomState(self._get_random_seed_for_epoch(0))
         self._seq_list_for_validation: Optional[List[str]] = None
-- 
2.43.0


From 52ba98d4d215274bce72c1615eeb0148bf0bdf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:53 +0000
Subject: [PATCH 47/87] fix: torch engine forward with bfloat16 outputs

---
 returnn/torch/engine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/returnn/torch/engine.py b/returnn/torch/engine.py
index b0b1940..7f8f4a1 100644
--- a/returnn/torch/engine.py
+++ b/returnn/torch/engine.py
@@ -1267,6 +1267,7 @@ class Engine(EngineBase):
                 raw = raw.detach().cpu()
                 if raw.dtype == torch.bfloat16:
                     raw = raw.float()
+                    y.dtype = "float32"
                 raw = raw.numpy()
             y.raw_tensor = raw
             return y
-- 
2.43.0


From 949988d20cf47a109555d684358672d3f1aa39fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:15 +0000
Subject: [PATCH 48/87] fix: torch scaled_gradient, scaled_gradient_ext with
 scale/shift tensor of any dims

---
 returnn/torch/frontend/_backend.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index 4b3b102..23eef34 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -223,6 +223,8 @@ class TorchBackend(Backend[torch.Tensor]):
         from returnn.torch.util.scaled_gradient import scaled_gradient
 
         out = tensor.copy()
+        if isinstance(scale, Tensor):
+            scale = scale.copy_compatible_to_dims_raw(out.dims)
         out.raw_tensor = scaled_gradient(out.raw_tensor, scale=scale)
         return out
 
@@ -240,8 +242,8 @@ class TorchBackend(Backend[torch.Tensor]):
         out = x.copy()
         out.raw_tensor = scaled_gradient_ext(
             out.raw_tensor,
-            scale=scale.raw_tensor if isinstance(scale, Tensor) else scale,
-            shift=shift.raw_tensor if isinstance(shift, Tensor) else shift,
+            scale=scale.copy_compatible_to_dims_raw(out.dims) if isinstance(scale, Tensor) else scale,
+            shift=shift.copy_compatible_to_dims_raw(out.dims) if isinstance(shift, Tensor) else shift,
             scale_shift_by_sum_over_axis=(
                 x.get_axis_from_description(scale_shift_by_sum_over_axis, allow_int=False)
                 if scale_shift_by_sum_over_axis is not None
-- 
2.43.0


From 4423b544416d574da39ee8d6bf8e5b92e3b8ce67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:15 +0000
Subject: [PATCH 49/87] fix: specaugment with global_train_step_dependent=False

---
 returnn/frontend/audio/specaugment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/frontend/audio/specaugment.py b/returnn/frontend/audio/specaugment.py
index e66f217..ab401b9 100644
--- a/returnn/frontend/audio/specaugment.py
+++ b/returnn/frontend/audio/specaugment.py
@@ -49,7 +49,7 @@ def specaugment(
                 x_masked,
                 mask_axis=spatial_dim,
                 broadcast_axis=feature_dim,
-                min_num=rf.minimum(step1 + step2, spatial_len),
+                min_num=rf.minimum(spatial_len, step1 + step2),
                 max_num=rf.minimum(
                     rf.maximum(spatial_len // num_spatial_mask_factor, 2) * (step0 + step1 + step2 * 2), spatial_len
                 ),
-- 
2.43.0


From 259d0b6ae1c48fc9d808a3f893a2ba3e398eb520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:15 +0000
Subject: [PATCH 50/87] fix: torch gradient_checkpoint_scope inside of other
 saved_tensors_hooks, or with those in other threads

---
 returnn/torch/util/gradient_checkpoint.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/returnn/torch/util/gradient_checkpoint.py b/returnn/torch/util/gradient_checkpoint.py
index 901a1ce..3a63647 100644
--- a/returnn/torch/util/gradient_checkpoint.py
+++ b/returnn/torch/util/gradient_checkpoint.py
@@ -566,6 +566,8 @@ def _unregister_custom_saved_tensors_hooks():
 
 
 def _custom_saved_tensors_hooks_enter(self: torch.autograd.graph.saved_tensors_hooks):
+    if not getattr(_custom_saved_tensors_hooks_tls_ctx, "active", False):  # only registered for some other thread
+        return _orig_saved_tensors_hooks_enter(self)
     _custom_saved_tensors_hooks_call_callbacks()
     # The callbacks might have unregistered us. Only add to the stack if we are still active.
     if _custom_saved_tensors_hooks_tls_ctx.active:
@@ -576,13 +578,11 @@ def _custom_saved_tensors_hooks_enter(self: torch.autograd.graph.saved_tensors_h
 def _custom_saved_tensors_hooks_exit(
     self: torch.autograd.graph.saved_tensors_hooks, exc_type=None, exc_val=None, exc_tb=None
 ):
+    if not getattr(_custom_saved_tensors_hooks_tls_ctx, "active", False):  # only registered for some other thread
+        return _orig_saved_tensors_hooks_exit(self, exc_type, exc_val, exc_tb)
     if self not in _custom_saved_tensors_hooks_tls_ctx.stack:
-        raise Exception(
-            f"saved_tensors_hooks __exit__ mismatch."
-            f" stack {_custom_saved_tensors_hooks_tls_ctx.stack},"
-            f" queued_exits {_custom_saved_tensors_hooks_tls_ctx.queued_exits},"
-            f" got self {self}"
-        )
+        # This was entered before we registered our custom hooks, i.e. it is below all what we have on our stack.
+        _custom_saved_tensors_hooks_tls_ctx.stack.insert(0, self)
     _custom_saved_tensors_hooks_tls_ctx.queued_exits.append(self)
     _custom_saved_tensors_hooks_call_callbacks()
     while _custom_saved_tensors_hooks_tls_ctx.stack:
-- 
2.43.0


From 227053e0141abcefbac2f9e3d566b46cb2585c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:52 +0000
Subject: [PATCH 51/87] fix: torch nested gradient_checkpoint_scope, exit order
 of the saved_tensors_hooks

---
 returnn/torch/util/gradient_checkpoint.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/returnn/torch/util/gradient_checkpoint.py b/returnn/torch/util/gradient_checkpoint.py
index 3a63647..e651691 100644
--- a/returnn/torch/util/gradient_checkpoint.py
+++ b/returnn/torch/util/gradient_checkpoint.py
@@ -529,6 +529,10 @@ def _register_custom_saved_tensors_hooks(*, existing_scope: torch.autograd.graph
     thread = threading.current_thread()
     with _custom_saved_tensors_hooks_lock:
         if thread in _custom_saved_tensors_hooks_registered_threads:
+            if existing_scope not in _custom_saved_tensors_hooks_tls_ctx.stack:
+                # This was entered before we registered our custom hooks (e.g. nested gradient_checkpoint_scope),
+                # i.e. it is below all what we have on our stack.
+                _custom_saved_tensors_hooks_tls_ctx.stack.insert(0, existing_scope)
             return
         if getattr(_custom_saved_tensors_hooks_tls_ctx, "stack", None) is None:
             _custom_saved_tensors_hooks_tls_ctx.stack = []
-- 
2.43.0


From 5bdb3016aa95639232e596e57cc0ed5c5554cea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:52 +0000
Subject: [PATCH 52/87] fix: torch softmax_cross_entropy_with_logits with any
 dim order

---
 returnn/torch/frontend/_backend.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index 23eef34..8aacc7f 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -650,8 +650,7 @@ class TorchBackend(Backend[torch.Tensor]):
             logits_dim_order = targets.dims
 
         # We need same order of axes as in target.
-        logits_axes_permutation = [logits_dim_order.index(dim) for dim in logits.dims]
-        logits = logits.copy_transpose(logits_axes_permutation)
+        logits = logits.copy_transpose(logits_dim_order)
 
         raw_cross_entropy = torch.nn.functional.cross_entropy(
             input=logits.raw_tensor, target=targets.raw_tensor, reduction="none"
-- 
2.43.0


From b3af8cbd7aa4e402944c47ad4680e26c41bba9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:17 +0000
Subject: [PATCH 53/87] fix: torch ctc_loss with static spatial dims

---
 returnn/torch/frontend/_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index 8aacc7f..8b9d275 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -690,7 +690,7 @@ class TorchBackend(Backend[torch.Tensor]):
         batch_n_elems = prod(batch_shape)
         logits = logits.copy_transpose([input_spatial_dim] + batch_dims + [logits.feature_dim])
         logits_raw: torch.Tensor = logits.raw_tensor
-        input_lengths: torch.Tensor = input_spatial_dim.dyn_size_ext.copy_compatible_to_dims_raw(batch_dims)
+        input_lengths: torch.Tensor = input_spatial_dim.get_size_tensor().copy_compatible_to_dims_raw(batch_dims)
         if input_lengths.numel() != batch_n_elems:
             input_lengths = input_lengths.expand(batch_shape)
         logits_raw_shape = logits_raw.shape  # [T, B..., C]
@@ -708,7 +708,7 @@ class TorchBackend(Backend[torch.Tensor]):
         targets_raw_shape = batch_shape + [targets_spatial_dim.get_dim_value()]
         if targets_raw.numel() != prod(targets_raw_shape):
             targets_raw = targets_raw.expand(targets_raw_shape)
-        targets_lengths = targets_spatial_dim.dyn_size_ext.copy_compatible_to_dims_raw(batch_dims)
+        targets_lengths = targets_spatial_dim.get_size_tensor().copy_compatible_to_dims_raw(batch_dims)
         if targets_lengths.numel() != batch_n_elems:
             targets_lengths = targets_lengths.expand(batch_shape)
         if len(batch_dims) != 1:
-- 
2.43.0


From ff67caef72ea033bc3f25c8a3e42d8dbdc190687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:48 +0000
Subject: [PATCH 54/87] fix: torch gradient_checkpoint_scope, do not exit
 saved_tensors_hooks inside of backward

---
 returnn/torch/util/gradient_checkpoint.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/returnn/torch/util/gradient_checkpoint.py b/returnn/torch/util/gradient_checkpoint.py
index e651691..afa1c86 100644
--- a/returnn/torch/util/gradient_checkpoint.py
+++ b/returnn/torch/util/gradient_checkpoint.py
@@ -173,6 +173,8 @@ class gradient_checkpoint_scope:
             return
         if not self.exit_args:
             return
+        if _is_in_backward():  # cannot exit the saved_tensors_hooks now, will be done later
+            return
         # If we are in the right thread, maybe we can do the cleanup now.
         if self.entered_thread_ref() is threading.current_thread():
             if not self.record_graph_scope.graph.is_any_recorded_tensor_alive():
@@ -509,6 +511,16 @@ def _can_exit_saved_tensors_hooks_inside_hooks() -> bool:
     return False
 
 
+def _is_in_backward() -> bool:
+    """
+    :return: whether the autograd engine currently runs backward in this thread.
+        The engine restores the thread-local state (including the stack of the saved tensors hooks) afterwards,
+        thus we must not exit any saved_tensors_hooks here which were entered before,
+        as PyTorch would otherwise end up with dangling references to those hooks.
+    """
+    return torch._C._current_graph_task_id() != -1
+
+
 _orig_saved_tensors_hooks_enter = torch.autograd.graph.saved_tensors_hooks.__enter__
 _orig_saved_tensors_hooks_exit = torch.autograd.graph.saved_tensors_hooks.__exit__
 _custom_saved_tensors_hooks_tls_ctx = threading.local()
@@ -599,6 +611,8 @@ def _custom_saved_tensors_hooks_exit(
         _custom_saved_tensors_hooks_tls_ctx.queued_exits.remove(scope)
         _orig_saved_tensors_hooks_exit(scope, exc_type, exc_val, exc_tb)
         exc_type, exc_val, exc_tb = None, None, None  # do not propagate this again (even though it's ignored anyway)
+        if _is_in_backward():  # cannot exit any further, as those were entered before
+            return
     if not _custom_saved_tensors_hooks_tls_ctx.stack:
         assert not _custom_saved_tensors_hooks_tls_ctx.queued_exits
         if _custom_saved_tensors_hooks_tls_ctx.active:  # might have been unregistered in the meantime by callbacks
@@ -617,6 +631,8 @@ def _register_custom_saved_tensors_hooks_thread_local_callback(cb: Callable[[],
 def _custom_saved_tensors_hooks_call_callbacks():
     if _custom_saved_tensors_hooks_tls_ctx.in_callback:
         return  # avoid recursive calls
+    if _is_in_backward():  # cannot exit any saved_tensors_hooks now
+        return
     try:
         _custom_saved_tensors_hooks_tls_ctx.in_callback = True
         _custom_saved_tensors_hooks_tls_ctx.callbacks = [
-- 
2.43.0


From e46d1a4b3f0a296d6ab98c9eef44bafef01682af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:02 +0000
Subject: [PATCH 55/87] fix: Dim math, floordiv and ceildiv of a product with a
 division

---
 returnn/tensor/_dim_extra.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/returnn/tensor/_dim_extra.py b/returnn/tensor/_dim_extra.py
index cead5c6..1ba0bf0 100644
--- a/returnn/tensor/_dim_extra.py
+++ b/returnn/tensor/_dim_extra.py
@@ -2569,7 +2569,9 @@ class _OpMultTerm:
             return i
         op_kind = kind + "_" + ("right" if right else "left")
         if term.derived_from_op and term.derived_from_op.kind == op_kind:
-            return i
+            # (a // b) // c == a // (b * c), but with another factor d, (d * (a // b)) // c != d * (a // (b * c)).
+            if kind not in ("floordiv", "ceildiv") or len(self.terms) == 1:
+                return i
         return None
 
     def extend_mul_div_(self, other, kind, right):
-- 
2.43.0


From 36c1b3f5fee00ad33ffa4fde1191f8eda74f142e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:01 +0000
Subject: [PATCH 56/87] fix: lru_cache, reentrant calls via object clean-up
 code

---
 returnn/util/lru_cache.py | 107 ++++++++++++++++----------------------
 1 file changed, 44 insertions(+), 63 deletions(-)

diff --git a/returnn/util/lru_cache.py b/returnn/util/lru_cache.py
index 1f45760..97196a6 100644
--- a/returnn/util/lru_cache.py
+++ b/returnn/util/lru_cache.py
@@ -70,7 +70,6 @@ def _lru_cache_wrapper(user_function, maxsize: int, typed: bool):
 
     cache: Dict[Any, list] = {}
     hits = misses = 0
-    full = False
     cache_get = cache.get  # bound method to lookup a key or return None
     cache_len = cache.__len__  # get cache size without calling len()
     lock = RLock()  # because linkedlist updates aren't threadsafe
@@ -84,7 +83,7 @@ def _lru_cache_wrapper(user_function, maxsize: int, typed: bool):
         User-facing wrapper function.
         """
         # Size limited caching that tracks accesses by recency
-        nonlocal root, hits, misses, full
+        nonlocal hits, misses
         key = make_key(args, kwds, typed)
         with lock:
             link = cache_get(key)
@@ -106,7 +105,6 @@ def _lru_cache_wrapper(user_function, maxsize: int, typed: bool):
         return result
 
     def _cache_insert(key, result):
-        nonlocal root, full
         with lock:
             if key in cache:
                 # Getting here means that this same key was added to the
@@ -114,34 +112,22 @@ def _lru_cache_wrapper(user_function, maxsize: int, typed: bool):
                 # update is already done, we need only return the
                 # computed result and update the count of misses.
                 pass
-            elif full:
-                # Use the old root to store the new key and result.
-                oldroot = root
-                oldroot[KEY] = key
-                oldroot[RESULT] = result
-                # Empty the oldest link and make it the new root.
-                # Keep a reference to the old key and old result to
-                # prevent their ref counts from going to zero during the
-                # update. That will prevent potentially arbitrary object
-                # clean-up code (i.e. __del__) from running while we're
-                # still adjusting the links.
-                root = oldroot[NEXT]
-                oldkey = root[KEY]
-                root[KEY] = root[RESULT] = None
-                # Now update the cache dictionary.
-                del cache[oldkey]
-                # Save the potentially reentrant cache[key] assignment
-                # for last, after the root and links have been put in
-                # a consistent state.
-                cache[key] = oldroot
             else:
-                # Put result in a new link at the front of the queue.
-                last = root[PREV]
-                link = [last, root, key, result]
-                last[NEXT] = root[PREV] = cache[key] = link
+                # Make room, i.e. remove the oldest entries.
+                # Note that this might free the key or result,
+                # and thus run arbitrary object clean-up code (i.e. __del__, or weakref callbacks),
+                # which potentially also uses this cache.
                 # Use the cache_len bound method instead of the len() function
                 # which could potentially be wrapped in an lru_cache itself.
-                full = cache_len() >= maxsize
+                while cache and cache_len() >= maxsize:
+                    cache_pop_oldest(fallback=None)
+                # Put result in a new link at the front of the queue.
+                # The potentially reentrant cache[key] assignment comes first, before we adjust the links.
+                link = [root, root, key, result]
+                if cache.setdefault(key, link) is link:
+                    last = root[PREV]
+                    link[PREV] = last
+                    last[NEXT] = root[PREV] = link
 
     def cache_info():
         """Report cache statistics"""
@@ -150,14 +136,14 @@ def _lru_cache_wrapper(user_function, maxsize: int, typed: bool):
 
     def cache_clear():
         """Clear the cache and cache statistics"""
-        nonlocal hits, misses, full
+        nonlocal hits, misses
         with lock:
-            for link in cache.values():
-                link.clear()  # make GC happy
+            links = list(cache.values())
             cache.clear()
             root[:] = [root, root, None, None]
             hits = misses = 0
-            full = False
+            for link in links:
+                link.clear()  # make GC happy
 
     def cache_parameters():
         """
@@ -169,7 +155,6 @@ def _lru_cache_wrapper(user_function, maxsize: int, typed: bool):
         """
         Sets a value in the cache directly.
         """
-        nonlocal root, full
         if maxsize > 0:
             key = make_key(args, kwargs, typed)
             _cache_insert(key, result)
@@ -190,26 +175,30 @@ def _lru_cache_wrapper(user_function, maxsize: int, typed: bool):
                 misses += 1
             return fallback
 
+    def _unlink(link: list) -> tuple:
+        # Expects that the link is already removed from the cache dict.
+        # Keep a reference to the old key and old result to
+        # prevent their ref counts from going to zero during the
+        # update. That will prevent potentially arbitrary object
+        # clean-up code (i.e. __del__) from running while we're
+        # still adjusting the links.
+        link_prev, link_next, key, result = link
+        link_prev[NEXT] = link_next
+        link_next[PREV] = link_prev
+        link.clear()
+        return key, result
+
     not_specified = object()
 
     def cache_pop(*args, fallback=not_specified, **kwargs):
         """
         Removes the entry from the cache.
         """
-        nonlocal hits, misses, full
         key = make_key(args, kwargs, typed)
         with lock:
-            link = cache_get(key)
+            link = cache.pop(key, None)
             if link is not None:
-                # Take out link.
-                link[PREV][NEXT] = link[NEXT]
-                link[NEXT][PREV] = link[PREV]
-                oldkey = link[KEY]
-                oldvalue = link[RESULT]
-                link.clear()
-                del cache[oldkey]
-                full = cache_len() >= maxsize
-                return oldvalue
+                return _unlink(link)[1]
             if fallback is not_specified:
                 raise KeyError("key not found")
             return fallback
@@ -218,36 +207,28 @@ def _lru_cache_wrapper(user_function, maxsize: int, typed: bool):
         """
         Removes the oldest entry from the cache.
         """
-        nonlocal root, full
         with lock:
-            if not cache:
-                if fallback is not_specified:
-                    raise KeyError("cache is empty")
-                return fallback
-            assert cache
-            # Take out oldest link.
-            link: list = root[NEXT]
-            link[NEXT][PREV] = root
-            root[NEXT] = link[NEXT]
-            oldkey = link[KEY]
-            oldvalue = link[RESULT]
-            link.clear()
-            del cache[oldkey]
-            full = cache_len() >= maxsize
-            return oldvalue
+            while cache:
+                # Take out oldest link.
+                link: list = root[NEXT]
+                if cache.pop(link[KEY], None) is not link:
+                    continue  # removed in the meantime, reentrant call
+                return _unlink(link)[1]
+            if fallback is not_specified:
+                raise KeyError("cache is empty")
+            return fallback
 
     def cache_set_maxsize(new_maxsize: int):
         """
         Resets the maxsize.
         If the new maxsize is smaller than the current cache size, the oldest entries are removed.
         """
-        nonlocal maxsize, full
+        nonlocal maxsize
         assert new_maxsize >= 0
         with lock:
             maxsize = new_maxsize
             while cache_len() > maxsize:
-                cache_pop_oldest()
-            full = cache_len() >= maxsize
+                cache_pop_oldest(fallback=None)
 
     wrapper.cache_info = cache_info
     wrapper.cache_clear = cache_clear
-- 
2.43.0


From 3e7ef8062823f7cf5aaea4e02875f0ed473cddeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:33 +0000
Subject: [PATCH 57/87] fix: torch engine, model filename without directory

---
 returnn/torch/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/torch/engine.py b/returnn/torch/engine.py
index 7f8f4a1..a890252 100644
--- a/returnn/torch/engine.py
+++ b/returnn/torch/engine.py
@@ -1121,7 +1121,7 @@ class Engine(EngineBase):
             return
         filename = self.get_epoch_model_filename() + util.get_model_filename_postfix()
         directory = os.path.dirname(filename)
-        if not os.path.exists(directory):
+        if directory and not os.path.exists(directory):
             os.makedirs(directory, exist_ok=True)
 
         print("Save model under %s" % (filename,), file=log.v4)
-- 
2.43.0


From 526370df3b261e343bbe96753e5172a2e729baf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:52 +0000
Subject: [PATCH 58/87] fix: NumpyBackend combine_raw, support all documented
 kinds (sub, truediv, floordiv, pow, squared_difference)

---
 returnn/frontend/_numpy_backend.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/returnn/frontend/_numpy_backend.py b/returnn/frontend/_numpy_backend.py
index addc272..b0a6e95 100644
--- a/returnn/frontend/_numpy_backend.py
+++ b/returnn/frontend/_numpy_backend.py
@@ -137,7 +137,14 @@ class NumpyBackend(Backend[numpy.ndarray]):
         op = getattr(numpy, kind)  # e.g. numpy.equal
         return op(a, b)
 
-    _CombineKindMap = {"mul": numpy.multiply}
+    _CombineKindMap = {
+        "sub": numpy.subtract,
+        "mul": numpy.multiply,
+        "truediv": numpy.true_divide,
+        "floordiv": numpy.floor_divide,
+        "pow": numpy.power,
+        "squared_difference": lambda a, b: numpy.square(a - b),
+    }
 
     @staticmethod
     def combine_raw(a: numpy.ndarray, kind: str, b: numpy.ndarray) -> numpy.ndarray:
-- 
2.43.0


From afb8d925d27c769208f72edeee897d2e90e90d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:15 +0000
Subject: [PATCH 59/87] fix: pickling a Tensor must not reset the batch info of
 the live tensor

---
 returnn/tensor/_tensor_extra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/tensor/_tensor_extra.py b/returnn/tensor/_tensor_extra.py
index 66aaf33..7ae8bdb 100644
--- a/returnn/tensor/_tensor_extra.py
+++ b/returnn/tensor/_tensor_extra.py
@@ -70,7 +70,7 @@ class _TensorExtra:
         self.time_dim_axis = time_dim_axis
 
     def __getstate__(self):
-        d = vars(self)
+        d = dict(vars(self))
         d["batch"] = None  # BatchInfo pickling not supported
         return d
 
-- 
2.43.0


From 7d82c80879446bf9a2d30fc79d30b46bda7fca29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:54 +0000
Subject: [PATCH 60/87] fix: NumpyBackend compare_raw of scalars, keep it a
 numpy array

---
 returnn/frontend/_numpy_backend.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/returnn/frontend/_numpy_backend.py b/returnn/frontend/_numpy_backend.py
index b0a6e95..0fd91d6 100644
--- a/returnn/frontend/_numpy_backend.py
+++ b/returnn/frontend/_numpy_backend.py
@@ -135,7 +135,10 @@ class NumpyBackend(Backend[numpy.ndarray]):
         """
         assert a.ndim == b.ndim or a.ndim == 0 or b.ndim == 0
         op = getattr(numpy, kind)  # e.g. numpy.equal
-        return op(a, b)
+        res = op(a, b)
+        if not isinstance(res, numpy.ndarray):
+            res = numpy.array(res)
+        return res
 
     _CombineKindMap = {
         "sub": numpy.subtract,
-- 
2.43.0


From b63c0d7d05233a2d9e518d02402b7eb5bd88e06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:38 +0000
Subject: [PATCH 61/87] fix: copy_split_feature_dim keeps the explicit feature
 dim, also when it is not last

---
 returnn/tensor/_tensor_extra.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/returnn/tensor/_tensor_extra.py b/returnn/tensor/_tensor_extra.py
index 7ae8bdb..91d4b9f 100644
--- a/returnn/tensor/_tensor_extra.py
+++ b/returnn/tensor/_tensor_extra.py
@@ -999,6 +999,8 @@ class _TensorMixin(_TensorMixinBase):
         other_special_axes.pop("feature_dim_axis", None)
         for k, a in other_special_axes.items():
             data_opts[k] = a if (a < new_feature_dim_axis) else (a + 1)
+        if self.feature_dim_axis_or_unspecified is not NotSpecified:
+            data_opts["feature_dim_axis"] = new_feature_dim_axis
         if self.placeholder is not None:
             backend = self._raw_backend
             backend.set_known_shape_raw(self.placeholder, self.batch_shape)
-- 
2.43.0


From 34f75f69e0757fde163a1af014c81b68572be173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:16 +0000
Subject: [PATCH 62/87] fix: TF PoolLayer: mode avg with use_time_mask, float
 mask value

---
 returnn/tf/layers/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/tf/layers/basic.py b/returnn/tf/layers/basic.py
index 5067abd..1f4713c 100644
--- a/returnn/tf/layers/basic.py
+++ b/returnn/tf/layers/basic.py
@@ -7135,7 +7135,7 @@ class PoolLayer(_ConcatInputLayer):
             in_dim=in_dim,
             in_spatial_dims=in_spatial_dims,
             use_time_mask=use_time_mask,
-            mask_value={"MAX": float("-inf"), "AVG": 0}[mode],
+            mask_value={"MAX": float("-inf"), "AVG": 0.0}[mode],
         )
         # We want to prepare the input data such that the batch-dim(s) is the very first,
         # the feature-dim is the very last ("NHWC" format) or right after batch-dim ("NCHW"),
-- 
2.43.0


From b05e4e246d5f3176e16a7a4a1f9d5cfadae51fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:52 +0000
Subject: [PATCH 63/87] fix: TF SoftmaxOverSpatialLayer: in log space, padding
 is not 0

---
 returnn/tf/layers/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/tf/layers/basic.py b/returnn/tf/layers/basic.py
index 1f4713c..c486cdb 100644
--- a/returnn/tf/layers/basic.py
+++ b/returnn/tf/layers/basic.py
@@ -2490,7 +2490,7 @@ class SoftmaxOverSpatialLayer(_ConcatInputLayer):
             energy, act_func=tf.nn.log_softmax if log_space else tf.nn.softmax
         )  # (...,T)
         self.output.placeholder = self.output_before_activation.y
-        if use_time_mask:
+        if use_time_mask and not log_space:  # in log space, the padding is not 0
             set_padding_info(self.output.placeholder, dim=self.output.dim_tags[axis], pad_value=0.0)
         # Never allow inf in output, as softmax should remove all -inf values used for masking
         self.allow_inf_in_output = False
-- 
2.43.0


From a1302d5bf261fb8ad2e70dbbc15a0cf37e78258f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:58 +0000
Subject: [PATCH 64/87] fix: FileCache: remove the temp file when copying
 fails, it made the next try fail

---
 returnn/util/file_cache.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/returnn/util/file_cache.py b/returnn/util/file_cache.py
index 1002912..8163852 100644
--- a/returnn/util/file_cache.py
+++ b/returnn/util/file_cache.py
@@ -354,8 +354,14 @@ class FileCache:
                 orig_mtime_ns = os.stat(src_filename).st_mtime_ns
                 FileInfo(mtime_ns=orig_mtime_ns).save(self._get_info_filename(dst_filename))
 
-                _copy_with_prealloc(src_filename, dst_tmp_filename)
-                os.rename(dst_tmp_filename, dst_filename)
+                try:
+                    _copy_with_prealloc(src_filename, dst_tmp_filename)
+                    os.rename(dst_tmp_filename, dst_filename)
+                except Exception:
+                    # Not crashed, so do not leave the temp file. It would block the next try, and waste disk space.
+                    if os.path.exists(dst_tmp_filename):
+                        os.remove(dst_tmp_filename)
+                    raise
 
     @staticmethod
     def _check_existing_copied_file_maybe_cleanup(src_filename: str, dst_filename: str) -> bool:
-- 
2.43.0


From fd5e5f52ccaeaa9888b072bbfaeafe4e9ff9324d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:45 +0000
Subject: [PATCH 65/87] fix: FileCache.get_file: no error of an earlier try
 when a later try worked

---
 returnn/util/file_cache.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/returnn/util/file_cache.py b/returnn/util/file_cache.py
index 8163852..8ea5109 100644
--- a/returnn/util/file_cache.py
+++ b/returnn/util/file_cache.py
@@ -118,6 +118,7 @@ class FileCache:
                 time.sleep(1)
             try:
                 self._copy_file_if_needed(src_filename, dst_filename)
+                last_error = None
                 break
             except OSError as e:
                 if e.errno == errno.ENOSPC:
-- 
2.43.0


From a98daba4c5174aba66116e69a604f4516cfc43b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:06 +0000
Subject: [PATCH 66/87] fix: FileCache.cleanup: do not remove an old file which
 another process started to use right now

---
 returnn/util/file_cache.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/returnn/util/file_cache.py b/returnn/util/file_cache.py
index 8ea5109..1a35000 100644
--- a/returnn/util/file_cache.py
+++ b/returnn/util/file_cache.py
@@ -229,6 +229,11 @@ class FileCache:
                     break
 
             if delete_reason:
+                try:
+                    if os.stat(fn).st_mtime > mtime:
+                        continue  # some other process started using it in the meantime
+                except FileNotFoundError:
+                    pass  # some other process deleted it in the meantime
                 cur_expected_free += size
                 print(
                     f"FileCache: Delete file {fn}, size {human_bytes_size(size)}. {delete_reason}."
@@ -369,7 +374,11 @@ class FileCache:
         """
         Check if the file is in the cache directory.
         """
-        if not os.path.exists(dst_filename):
+        try:
+            # Check existence, and at the same time mark it as used,
+            # such that a concurrent cleanup by some other process does not remove it from now on.
+            os.utime(dst_filename, None)
+        except FileNotFoundError:
             return False
         src_stat = os.stat(src_filename)
         dst_stat = os.stat(dst_filename)
-- 
2.43.0


From 337616380db7173ffcf53681ece65d30eb916ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:04 +0000
Subject: [PATCH 67/87] fix: FileCache: the thread which marks the files as
 used does not stop when one file is gone

---
 returnn/util/file_cache.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/returnn/util/file_cache.py b/returnn/util/file_cache.py
index 1a35000..aac3ac6 100644
--- a/returnn/util/file_cache.py
+++ b/returnn/util/file_cache.py
@@ -495,8 +495,9 @@ class _TouchFilesThread(Thread):
                 try:
                     os.utime(filename, None)
                 except Exception as exc:
+                    # E.g. the lock file or some updated file was just removed.
+                    # Do not stop here: the other files are still in use.
                     print(f"FileCache: failed updating mtime of {filename}: {exc}")
-                    raise
             if self.stop.wait(self.interval):
                 return
 
-- 
2.43.0


From be4fb058a4cf2b604bdd09ed12a9e253c3956225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:50 +0000
Subject: [PATCH 68/87] fix: NativeCodeCompiler: concurrent processes do not
 recompile or remove a lib which is in use, or see incomplete files

---
 returnn/util/native_code_compiler.py | 46 ++++++++++++++++++----------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/returnn/util/native_code_compiler.py b/returnn/util/native_code_compiler.py
index 114bea3..bd4b77a 100644
--- a/returnn/util/native_code_compiler.py
+++ b/returnn/util/native_code_compiler.py
@@ -141,7 +141,10 @@ class NativeCodeCompiler:
         import shutil
 
         try:
-            shutil.rmtree(p)
+            if os.path.isdir(p):
+                shutil.rmtree(p)
+            else:
+                os.remove(p)
         except OSError as exc:
             print("%s delete exception (%s). Will ignore and try to continue anyway." % (self.__class__.__name__, exc))
 
@@ -194,9 +197,11 @@ class NativeCodeCompiler:
         return h.hexdigest()
 
     def _save_info(self):
-        filename = self._info_filename
-        with open(filename, "w") as f:
+        # Other processes might read it at any time, so write it atomically.
+        tmp_filename = self._info_filename + ".tmp"
+        with open(tmp_filename, "w") as f:
             f.write("%s\n" % util.better_repr(self._info_dict))
+        os.replace(tmp_filename, self._info_filename)
 
     def _need_recompile(self):
         """
@@ -228,22 +233,26 @@ class NativeCodeCompiler:
         """
         On successful return, self._so_filename should exist and be up-to-date.
         """
+        # Touch it so that we can see that we used it recently.
+        # Do it before the check, such that a concurrent cleanup by some other process does not remove it from now on.
+        try:
+            os.utime(self._info_filename, None)
+        except FileNotFoundError:
+            pass  # not yet compiled
         if not self._need_recompile():
             if self.verbose:
                 print("%s: No need to recompile: %s" % (self.__class__.__name__, self._so_filename))
-            # Touch it so that we can see that we used it recently.
-            os.utime(self._info_filename, None)
-            return
-        lock = util.LockFile(self._mod_path)
-        if not self._need_recompile():  # check again
-            if self.verbose:
-                print("%s: No need to recompile after we waited: %s" % (self.__class__.__name__, self._so_filename))
-            os.utime(self._info_filename, None)
             return
-        if self._should_cleanup_old_mydir and not lock.is_locked():
-            if os.path.exists(self._mod_path):
-                self._cleanup_old_path(self._mod_path, reason="need recompile")
-        with lock:
+        with util.LockFile(self._mod_path) as lock:
+            if not self._need_recompile():  # check again
+                if self.verbose:
+                    print("%s: No need to recompile after we waited: %s" % (self.__class__.__name__, self._so_filename))
+                os.utime(self._info_filename, None)
+                return
+            if self._should_cleanup_old_mydir:
+                for p in os.listdir(self._mod_path):
+                    if p != lock.name:
+                        self._cleanup_old_path("%s/%s" % (self._mod_path, p), reason="need recompile")
             self._maybe_compile_inner()
 
     def _get_compiler_bin(self):
@@ -299,7 +308,9 @@ class NativeCodeCompiler:
         common_opts += ["-D_GLIBCXX_USE_CXX11_ABI=%i" % (1 if self.use_cxx11_abi else 0)]
         common_opts += ["-D%s=%s" % item for item in sorted(self.c_macro_defines.items())]
         common_opts += ["-g"]
-        opts = common_opts + [self._c_filename, "-o", self._so_filename]
+        # Other processes might check for the lib file at any time, so only move it there when it is complete.
+        tmp_so_filename = self._so_filename + ".tmp"
+        opts = common_opts + [self._c_filename, "-o", tmp_so_filename]
         opts += list(map(self._transform_ld_flag, self.ld_flags))
         cmd_bin = self._get_compiler_bin()
         cmd_args = [cmd_bin] + opts
@@ -321,7 +332,8 @@ class NativeCodeCompiler:
                 print("Your GCC version might be too new. This is a problem with some nvcc versions.")
                 print()
             raise CalledProcessError(returncode=proc.returncode, cmd=cmd_args)
-        assert os.path.exists(self._so_filename)
+        assert os.path.exists(tmp_so_filename)
+        os.replace(tmp_so_filename, self._so_filename)
         with open("%s/compile.log" % self._mod_path, "wb") as f:
             if self.verbose:
                 print("%s: write compile log to: %s" % (self.__class__.__name__, f.name))
-- 
2.43.0


From b36821d14ce0dc6cd4e327564f5c2496612b6e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:50 +0000
Subject: [PATCH 69/87] fix: NativeCodeCompiler: cleanup of old libs goes by
 the last usage, not by when it was compiled

---
 returnn/util/native_code_compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/returnn/util/native_code_compiler.py b/returnn/util/native_code_compiler.py
index bd4b77a..e01fa90 100644
--- a/returnn/util/native_code_compiler.py
+++ b/returnn/util/native_code_compiler.py
@@ -131,7 +131,8 @@ class NativeCodeCompiler:
             if not os.path.exists(so_path):
                 self._cleanup_old_path(full_dir_path, reason="corrupt dir, missing so")
                 continue
-            dt = time.time() - os.path.getmtime(so_path)
+            # The info file is touched on every usage.
+            dt = time.time() - os.path.getmtime(info_path)
             if dt > cleanup_time_limit_secs:
                 self._cleanup_old_path(full_dir_path, reason="%s old" % util.hms(dt))
 
-- 
2.43.0


From da2f2ebfd68c64754b3453443c120021256f67bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:41 +0000
Subject: [PATCH 70/87] fix: literal_py_to_pickle: big ints, invalid numbers
 such as -inf do not kill the process, output buffer is big enough

---
 returnn/util/literal_py_to_pickle.py |  4 +++-
 returnn/util/py-to-pickle.cpp        | 18 ++++++++++++++++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/returnn/util/literal_py_to_pickle.py b/returnn/util/literal_py_to_pickle.py
index 3837064..c7a70d0 100644
--- a/returnn/util/literal_py_to_pickle.py
+++ b/returnn/util/literal_py_to_pickle.py
@@ -42,7 +42,9 @@ def py_to_pickle(s):
         in_bytes = s.encode("utf8")
     in_ = ctypes.create_string_buffer(in_bytes)
     in_len = len(in_bytes)
-    out_len = in_len + 1000  # should always be enough (some buffer len + len of literal Python code)
+    # Should always be enough: some buffer len + max pickle len,
+    # where the worst case are short floats, e.g. "1.," (3 bytes) -> 9 bytes.
+    out_len = in_len * 4 + 1000
     out_ = ctypes.create_string_buffer(out_len)
 
     global _lib
diff --git a/returnn/util/py-to-pickle.cpp b/returnn/util/py-to-pickle.cpp
index 04e9847..22796f4 100644
--- a/returnn/util/py-to-pickle.cpp
+++ b/returnn/util/py-to-pickle.cpp
@@ -11,6 +11,7 @@
 // load_dict
 
 #include <string>
+#include <stdexcept>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -503,7 +504,9 @@ public:
 		}
 
 		if(is_float) {
-			double val = std::stod(buf);
+			double val = 0;
+			try { val = std::stod(buf); }
+			catch(const std::logic_error&) { parse_error("invalid float", c); return c; }
 			char pdata[9];
 			pdata[0] = BINFLOAT;
 			_PyFloat_Pack8(val, (unsigned char *)&pdata[1], 0);
@@ -511,7 +514,18 @@ public:
 		}
 		else {
 			int len;
-			long val = std::stol(buf);
+			long val = 0;
+			bool is_int32 = true;
+			try { val = std::stol(buf); }
+			catch(const std::out_of_range&) { is_int32 = false; }
+			catch(const std::invalid_argument&) { parse_error("invalid int", c); return c; }
+			if(!is_int32 || val != (long)(int32_t) val) {
+				// does not fit into BININT
+				write_char(LONG);
+				write_data(buf.data(), buf.length());
+				write_data("L\n", 2);
+				return c;
+			}
 			char pdata[8];
 			pdata[1] = (unsigned char)(val & 0xff);
 			pdata[2] = (unsigned char)((val >> 8) & 0xff);
-- 
2.43.0


From 39b65c5f33490a11b43670e1ec40032377ba0969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:41 +0000
Subject: [PATCH 71/87] fix: AllophoneState.from_index is the inverse of index

---
 returnn/datasets/lm.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/returnn/datasets/lm.py b/returnn/datasets/lm.py
index 74f8d1c..f562d7e 100644
--- a/returnn/datasets/lm.py
+++ b/returnn/datasets/lm.py
@@ -988,13 +988,17 @@ class AllophoneState:
         code //= 4
         result.state = code % num_states
         code //= num_states
-        for i in range(2 * context_length + 1):
+        phone_idxs = []
+        for _ in range(2 * context_length + 1):
+            phone_idxs.append(code % num_phone_classes)
+            code //= num_phone_classes
+        phone_idxs.reverse()  # the last one is the least significant one, see index()
+        for i, phone_idx in enumerate(phone_idxs):
             pos = i // 2
             if i % 2 == 1:
                 pos = -pos - 1
-            phone_idx = code % num_phone_classes
-            code //= num_phone_classes
-            result.set_phoneme(ctx_offset=pos, phone_id=phone_ids[phone_idx - 1] if phone_idx else "")
+            if phone_idx:  # 0 is the special no-context symbol
+                result.set_phoneme(ctx_offset=pos, phone_id=phone_ids[phone_idx - 1])
         return result
 
     @classmethod
-- 
2.43.0


From 08e57b7243c9ae6685e66b6b9a7db7dfe769f48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:23 +0000
Subject: [PATCH 72/87] fix: LmDataset: raw txt: last line without newline,
 whitespace-only lines, empty files, consistent with gzipped txt

---
 returnn/datasets/lm.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/returnn/datasets/lm.py b/returnn/datasets/lm.py
index f562d7e..a4470b4 100644
--- a/returnn/datasets/lm.py
+++ b/returnn/datasets/lm.py
@@ -374,18 +374,20 @@ class LmDataset(CachedDataset2):
                 # Directly mmap the file.
                 # We just need to scan once through it to find line offsets.
                 file = open(file_name, "rb")
-                file_mmap = mmap.mmap(file.fileno(), 0, flags=mmap.MAP_PRIVATE)
+                # Note: An empty file cannot be mmapped.
+                file_size = os.fstat(file.fileno()).st_size
+                file_mmap = mmap.mmap(file.fileno(), 0, flags=mmap.MAP_PRIVATE) if file_size else None
                 file_index = len(self._orth_files)
                 self._orth_files.append(file)
                 self._orth_mmaps.append(file_mmap)
 
                 pos = 0
-                while True:
+                while pos < file_size:
                     next_new_line = file_mmap.find(b"\n", pos)
                     if next_new_line == -1:
-                        break
+                        next_new_line = file_size  # last line without newline
                     line_len = next_new_line - pos
-                    if line_len or not self._skip_empty_lines:
+                    if not self._skip_empty_lines or file_mmap[pos:next_new_line].strip():
                         orths.append((file_index, pos, line_len))
                     total_bytes_read += line_len + 1
                     pos = next_new_line + 1
@@ -396,7 +398,8 @@ class LmDataset(CachedDataset2):
 
         if tmp_file is not None:
             tmp_file.flush()
-            self._orth_mmaps[tmp_file_orth_files_index] = mmap.mmap(tmp_file.fileno(), 0, flags=mmap.MAP_PRIVATE)
+            if tmp_file_offset:  # an empty file cannot be mmapped
+                self._orth_mmaps[tmp_file_orth_files_index] = mmap.mmap(tmp_file.fileno(), 0, flags=mmap.MAP_PRIVATE)
 
         if self._seq_list_file:
             if isinstance(self._seq_list_file, str):
-- 
2.43.0


From 02baefd493256d36cd6a2cc253fa2a3c3d07f64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:24 +0000
Subject: [PATCH 73/87] fix: LmDataset: auto_replace_unknown_symbol: apply
 orth_replace_map only once, no endless loop when unknown_symbol is not in
 vocab

---
 returnn/datasets/lm.py | 56 ++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 32 deletions(-)

diff --git a/returnn/datasets/lm.py b/returnn/datasets/lm.py
index a4470b4..cf4caa7 100644
--- a/returnn/datasets/lm.py
+++ b/returnn/datasets/lm.py
@@ -586,39 +586,31 @@ class LmDataset(CachedDataset2):
 
             elif self.orth_symbols is not None:
                 orth_syms = parse_orthography(orth, **self.parse_orth_opts)
-                while True:
-                    orth_syms = sum([self.orth_replace_map.get(s, [s]) for s in orth_syms], [])
-                    i = 0
-                    # For the character-based case, spaces have been replaced by word_end_symbol.
-                    space_symbol = self.word_end_symbol if self.word_end_symbol and not self.word_based else " "
-                    while i < len(orth_syms) - 1:
-                        if orth_syms[i : i + 2] == [space_symbol, space_symbol]:
-                            orth_syms[i : i + 2] = [space_symbol]  # collapse two spaces
-                        else:
-                            i += 1
-                    if self.auto_replace_unknown_symbol:
-                        try:
-                            list(
-                                map(self.orth_symbols_map.__getitem__, orth_syms)
-                            )  # convert to list to trigger map (it's lazy)
-                        except KeyError as e:
-                            if sys.version_info >= (3, 0):
-                                orth_sym = e.args[0]
-                            else:
-                                # noinspection PyUnresolvedReferences
-                                orth_sym = e.message
-                            if self.log_auto_replace_unknown_symbols:
-                                print(
-                                    "LmDataset: unknown orth symbol %r, adding to orth_replace_map as %r"
-                                    % (orth_sym, self.unknown_symbol),
-                                    file=log.v3,
-                                )
-                                self._reduce_log_auto_replace_unknown_symbols()
-                            self.orth_replace_map[orth_sym] = (
-                                [self.unknown_symbol] if self.unknown_symbol is not None else []
+                orth_syms = sum([self.orth_replace_map.get(s, [s]) for s in orth_syms], [])
+                if self.auto_replace_unknown_symbol:
+                    unknown_repl = [self.unknown_symbol] if self.unknown_symbol is not None else []
+                    for orth_sym in orth_syms:
+                        if orth_sym in self.orth_symbols_map or orth_sym in self.orth_replace_map:
+                            continue
+                        if self.log_auto_replace_unknown_symbols:
+                            print(
+                                "LmDataset: unknown orth symbol %r, adding to orth_replace_map as %r"
+                                % (orth_sym, self.unknown_symbol),
+                                file=log.v3,
                             )
-                            continue  # try this seq again with updated orth_replace_map
-                    break
+                            self._reduce_log_auto_replace_unknown_symbols()
+                        self.orth_replace_map[orth_sym] = unknown_repl
+                    # Note: Do not apply the whole orth_replace_map again here,
+                    # otherwise the result depends on whether there was some new unknown symbol.
+                    orth_syms = sum([[s] if s in self.orth_symbols_map else unknown_repl for s in orth_syms], [])
+                i = 0
+                # For the character-based case, spaces have been replaced by word_end_symbol.
+                space_symbol = self.word_end_symbol if self.word_end_symbol and not self.word_based else " "
+                while i < len(orth_syms) - 1:
+                    if orth_syms[i : i + 2] == [space_symbol, space_symbol]:
+                        orth_syms[i : i + 2] = [space_symbol]  # collapse two spaces
+                    else:
+                        i += 1
                 self.num_unknown += orth_syms.count(self.unknown_symbol)
                 if self.word_based:
                     orth_debug_str = repr(orth_syms)
-- 
2.43.0


From 6effb5cc1b6f74edd16d0343f6ae845cfcf90a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:24 +0000
Subject: [PATCH 74/87] fix: LmDataset: set random seed of vocab for each
 epoch, as for other datasets

---
 returnn/datasets/lm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/returnn/datasets/lm.py b/returnn/datasets/lm.py
index cf4caa7..b75f192 100644
--- a/returnn/datasets/lm.py
+++ b/returnn/datasets/lm.py
@@ -510,6 +510,8 @@ class LmDataset(CachedDataset2):
         self.num_unknown = 0
         if self.seq_gen:
             self.seq_gen.random_seed(self._get_random_seed_for_epoch(epoch))
+        if self.orth_vocab:
+            self.orth_vocab.set_random_seed(self._get_random_seed_for_epoch(epoch))
         return True
 
     def get_current_seq_order(self) -> List[int]:
-- 
2.43.0


From 1a6b68fe73a78c7ce84412b4af341b4237239669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:24 +0000
Subject: [PATCH 75/87] fix: TranslationDataset.get_all_tags: complete also
 while the data is still being loaded

---
 returnn/datasets/lm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/lm.py b/returnn/datasets/lm.py
index b75f192..b012f2d 100644
--- a/returnn/datasets/lm.py
+++ b/returnn/datasets/lm.py
@@ -1700,7 +1700,8 @@ class TranslationDataset(CachedDataset2):
         """
         :rtype: list[str]
         """
-        return [self._tag_prefix + str(line_nr) for line_nr in range(len(self._data[self.main_source_data_key]))]
+        # Note: The data itself might not be completely loaded yet.
+        return [self._tag_prefix + str(line_nr) for line_nr in range(self._get_data_len())]
 
     def get_corpus_seq_idx(self, seq_idx):
         """
-- 
2.43.0


From 7ccee1bfa0e818caa6d76d8774d40a426e6dcfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:24 +0000
Subject: [PATCH 76/87] fix: TranslationDataset.get_data_dim: source and target
 vocab can be different

---
 returnn/datasets/lm.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/returnn/datasets/lm.py b/returnn/datasets/lm.py
index b012f2d..a278567 100644
--- a/returnn/datasets/lm.py
+++ b/returnn/datasets/lm.py
@@ -1719,11 +1719,13 @@ class TranslationDataset(CachedDataset2):
         """
         return True  # all is sparse
 
-    def get_data_dim(self, _key: str) -> int:
+    def get_data_dim(self, key: str) -> int:
         """
-        :return: the data dim of data entry `_key`
+        :return: the data dim of data entry `key`
         """
-        return self.num_inputs  # same dim for all keys
+        if key in self.num_outputs:
+            return self.num_outputs[key][0]
+        return self.num_inputs
 
     def get_data_dtype(self, key):
         """
-- 
2.43.0


From 25bb11a6cab5d3526f29687696f8b68eae229a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:24 +0000
Subject: [PATCH 77/87] fix: TranslationDataset: seq_list_file contains line
 numbers, not tags

---
 returnn/datasets/lm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/returnn/datasets/lm.py b/returnn/datasets/lm.py
index a278567..a5ef863 100644
--- a/returnn/datasets/lm.py
+++ b/returnn/datasets/lm.py
@@ -1747,8 +1747,8 @@ class TranslationDataset(CachedDataset2):
         """
         super(TranslationDataset, self).init_seq_order(epoch=epoch, seq_list=seq_list, seq_order=seq_order)
 
-        if seq_list is None and self.seq_list:
-            seq_list = self.seq_list
+        if seq_list is None and seq_order is None and self.seq_list:
+            seq_order = self.seq_list  # these are line numbers
         if seq_order is not None:
             self._seq_order = seq_order
         elif seq_list is not None:
-- 
2.43.0


From 37c14c5838e87a66ebdc0d8787fe375fc215502d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:24 +0000
Subject: [PATCH 78/87] fix: TranslationDataset: line number out of range, do
 not wait forever

---
 returnn/datasets/lm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/datasets/lm.py b/returnn/datasets/lm.py
index a5ef863..91c880b 100644
--- a/returnn/datasets/lm.py
+++ b/returnn/datasets/lm.py
@@ -1663,7 +1663,7 @@ class TranslationDataset(CachedDataset2):
         while True:
             with self._lock:
                 if self._data_len is not None:
-                    assert line_nr <= self._data_len
+                    assert line_nr < self._data_len
                 cur_len = len(self._data[key])
                 if line_nr < cur_len:
                     return self._data[key][line_nr]
-- 
2.43.0


From f7fe6de7ea5d71e9b33e3e8443c4f783d4e3fb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:24 +0000
Subject: [PATCH 79/87] fix: TextDictDataset.init_seq_order with seq_order,
 data was not loaded

---
 returnn/datasets/text_dict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/text_dict.py b/returnn/datasets/text_dict.py
index 5799232..4589706 100644
--- a/returnn/datasets/text_dict.py
+++ b/returnn/datasets/text_dict.py
@@ -148,15 +148,16 @@ class TextDictDataset(CachedDataset2):
         else:
             raise ValueError(f"invalid item_format {self.item_format!r}")
 
+        self._load()
         if seq_order is not None:
             self._seq_order = seq_order
         elif seq_list is not None:
             raise NotImplementedError(f"{self}: seq_list not supported yet")
         else:
-            self._load()
             num_seqs = len(self._data_values)
             self._seq_order = self.get_seq_order_for_epoch(epoch=epoch, num_seqs=num_seqs, get_seq_len=_get_seq_len)
         self._num_seqs = len(self._seq_order)
+        return True
 
     def _collect_single_seq(self, seq_idx: int) -> Optional[DatasetSeq]:
         orig_seq_idx = self._seq_order[seq_idx]
-- 
2.43.0


From dea1ab172019ea3d78997a6b6f9280519dd79719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:44 +0000
Subject: [PATCH 80/87] fix: SamplingBytePairEncoder with word_prefix_symbol:
 without any such label, every word is unknown

---
 returnn/util/bpe.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/returnn/util/bpe.py b/returnn/util/bpe.py
index 6ba41f9..7daca85 100644
--- a/returnn/util/bpe.py
+++ b/returnn/util/bpe.py
@@ -254,6 +254,16 @@ class PrefixTree:
         self.bpe_finished = False  # partial word finished here with BpePostMergeSymbol at end
         self.opts = opts
 
+    def get_word_start(self) -> PrefixTree:
+        """
+        :return: node for the begin of a word, assuming self is the root
+        """
+        if self.opts.word_prefix_symbol is None:
+            return self
+        if self.opts.word_prefix_symbol not in self.arcs:  # no label for the begin of a word
+            return PrefixTree(prefix=self.opts.word_prefix_symbol, opts=self.opts)
+        return self.arcs[self.opts.word_prefix_symbol]
+
     def add(self, postfix: str) -> PrefixTree:
         """
         :param postfix:
@@ -311,7 +321,7 @@ class CharSyncSearch:
         self.hyps: List[Hyp] = [
             Hyp(
                 bpe_sym_history=[],
-                cur_node=bpe if self.opts.word_prefix_symbol is None else bpe.arcs[self.opts.word_prefix_symbol],
+                cur_node=bpe.get_word_start(),
             )
         ]
         self.final_bpe_seqs: Optional[List[List[str]]] = None
@@ -393,7 +403,7 @@ class DepthFirstSearch:
         self._add_hyp(
             HypInPos(
                 bpe_sym_history=[],
-                cur_node=bpe if self.opts.word_prefix_symbol is None else bpe.arcs[self.opts.word_prefix_symbol],
+                cur_node=bpe.get_word_start(),
                 pos=0,
             )
         )
-- 
2.43.0


From 74cbf5e1c26f04b6aa03857b01f5a3dde95d5b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:37 +0000
Subject: [PATCH 81/87] fix: LmDataset: error_on_invalid_seq False: num seqs is
 not known in advance when seqs are skipped

---
 returnn/datasets/lm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/lm.py b/returnn/datasets/lm.py
index 91c880b..7e436e8 100644
--- a/returnn/datasets/lm.py
+++ b/returnn/datasets/lm.py
@@ -503,7 +503,10 @@ class LmDataset(CachedDataset2):
                 num_seqs=len(self._orths_offsets_and_lens),
                 get_seq_len=lambda i: self._orths_offsets_and_lens[i][2],
             )
-        self._num_seqs = len(self.seq_order)
+        # Some seqs might be skipped. Then we do not know the num seqs in advance.
+        may_skip = not (self.error_on_invalid_seq or self.auto_replace_unknown_symbol or self.orth_vocab is not None)
+        if not may_skip or len(self.seq_order) == 0:
+            self._num_seqs = len(self.seq_order)
         self.next_orth_idx = 0
         self.next_seq_idx = 0
         self.num_skipped = 0
-- 
2.43.0


From b46b06529002654b5e4e78a8230a166237f8a7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:25 +0000
Subject: [PATCH 82/87] fix: Config pickling keeps the line-based options

E.g. options like ++key value on the command line were lost in subprocesses.
---
 returnn/config.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/returnn/config.py b/returnn/config.py
index e973115..7a25711 100644
--- a/returnn/config.py
+++ b/returnn/config.py
@@ -57,6 +57,9 @@ class Config:
             "_pid": os.getpid(),
             "_self_memo_idx": memo_idx,
             "_typed_dict_pickled": buffer.getvalue(),
+            "_dict": self.dict,
+            "_files": self.files,
+            "_network_topology_json": self.network_topology_json,
             "_is_global": self is get_global_config(raise_exception=False),
         }
 
@@ -73,6 +76,9 @@ class Config:
         unpickler = _Unpickler(buffer)
         unpickler.memo[state["_self_memo_idx"]] = self
         self.typed_dict = unpickler.load()
+        self.dict = state["_dict"]
+        self.files = state["_files"]
+        self.network_topology_json = state["_network_topology_json"]
 
         if state["_is_global"] and os.getpid() != state["_pid"]:
             set_global_config(self)
-- 
2.43.0


From ea06f498295912185582aec4bdf2275fe051be62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:42 +0000
Subject: [PATCH 83/87] fix: global_config_ctx also recovers the config of the
 TF default graph

---
 returnn/config.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/returnn/config.py b/returnn/config.py
index 7a25711..6cf2628 100644
--- a/returnn/config.py
+++ b/returnn/config.py
@@ -609,11 +609,15 @@ def global_config_ctx(config: Optional[Config]):
     """
     global _global_config
     prev_global_config = _global_config
+    graph = _get_tf_default_graph()
+    prev_graph_config = getattr(graph, _TfGraphConfigAttribName, None)
     try:
         set_global_config(config)
         yield
     finally:
         _global_config = prev_global_config
+        if graph is not None:
+            setattr(graph, _TfGraphConfigAttribName, prev_graph_config)
 
 
 def set_global_config(config: Optional[Config]):
@@ -671,18 +675,29 @@ def _get_or_set_config_via_tf_default_graph(config: Optional[Config] = None, ass
     :param assign: whether to set it (even if config=None)
     :rtype: Config|None
     """
-    if "tensorflow" not in sys.modules:
+    graph = _get_tf_default_graph()
+    if graph is None:
         return None
-    from returnn.tf.compat import v1 as tf_v1
-
-    graph = tf_v1.get_default_graph()
     # We could use collection refs, but this could cause other problems,
     # and is more complicated than what we need.
     # We just use a custom own attrib.
-    attrib_name = "_RETURNN_config_in_graph"
     if assign or config:
-        setattr(graph, attrib_name, config)
-    return getattr(graph, attrib_name, None)
+        setattr(graph, _TfGraphConfigAttribName, config)
+    return getattr(graph, _TfGraphConfigAttribName, None)
+
+
+_TfGraphConfigAttribName = "_RETURNN_config_in_graph"
+
+
+def _get_tf_default_graph():
+    """
+    :return: TF default graph, or None when TF is not imported yet
+    """
+    if "tensorflow" not in sys.modules:
+        return None
+    from returnn.tf.compat import v1 as tf_v1
+
+    return tf_v1.get_default_graph()
 
 
 def network_json_from_config(config):
-- 
2.43.0


From ed594c7fa45ef8839975a5fd4f69641a23427dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:55 +0000
Subject: [PATCH 84/87] fix: task_system Pickler, keep defaults of keyword-only
 args of functions

---
 returnn/util/task_system.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/returnn/util/task_system.py b/returnn/util/task_system.py
index e5a6e67..65eb46a 100644
--- a/returnn/util/task_system.py
+++ b/returnn/util/task_system.py
@@ -753,6 +753,8 @@ class Pickler(_BasePickler):
         d = getNormalDict(obj.__dict__)
         if obj.__module__:
             d["__module__"] = obj.__module__
+        if isinstance(obj, types.FunctionType) and obj.__kwdefaults__:
+            d["__kwdefaults__"] = obj.__kwdefaults__
         self.save((obj, d))
         self.write(pickle.REDUCE)
 
-- 
2.43.0


From c62d70ef76142d63d9361979aa62391f39099030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:05 +0000
Subject: [PATCH 85/87] fix: literal_py_to_pickle: fail on unsupported input
 such as 1e20, do not silently ignore the rest

---
 returnn/util/py-to-pickle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/util/py-to-pickle.cpp b/returnn/util/py-to-pickle.cpp
index 22796f4..e4f0bb7 100644
--- a/returnn/util/py-to-pickle.cpp
+++ b/returnn/util/py-to-pickle.cpp
@@ -331,7 +331,7 @@ public:
 	void full_pass() {
 		start();
 		ParseRes res = parse();
-		if(!res.second) {
+		if(!res.second || res.first >= 0) { // no item, or not parsed until the end
 			parse_error("root", res.first);
 			return;
 		}
-- 
2.43.0


From 0174ed92423c448ac6dbaf521efe3d11d9851131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:08 +0000
Subject: [PATCH 86/87] fix: EpochWiseFilter: max_mean_len was exceeded by one
 seq too many

---
 returnn/datasets/meta.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/meta.py b/returnn/datasets/meta.py
index e14244d..4ca5aba 100644
--- a/returnn/datasets/meta.py
+++ b/returnn/datasets/meta.py
@@ -70,10 +70,14 @@ class EpochWiseFilter:
         if opts.get("max_mean_len"):
             max_mean_len = opts.get("max_mean_len")
             lens_and_seqs = numpy.array(sorted([(get_seq_len(idx), idx) for idx in seq_order]))
+            # First num where the mean exceeds the max, or len + 1 if there is none.
             best_num = util.binary_search_any(
-                cmp=lambda num: numpy.mean(lens_and_seqs[:num, 0]) - max_mean_len, low=1, high=len(lens_and_seqs) + 1
+                cmp=lambda num: 1 if numpy.mean(lens_and_seqs[:num, 0]) > max_mean_len else -1,
+                low=1,
+                high=len(lens_and_seqs) + 1,
             )
             assert best_num is not None
+            best_num = max(best_num - 1, 1)  # keep at least one seq
             selected_seq_idxs = set(lens_and_seqs[:best_num, 1])
             # Select subset of seq_order. Keep order as-is.
             seq_order = [seq_idx for seq_idx in seq_order if seq_idx in selected_seq_idxs]
-- 
2.43.0


From 05a9fc4d0614dcd7b1171b01d2a722077ba48b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:16 +0000
Subject: [PATCH 87/87] fix: CombinedDataset, allow sub-datasets with unknown
 num_seqs again

---
 returnn/datasets/meta.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/returnn/datasets/meta.py b/returnn/datasets/meta.py
index 4ca5aba..15b9f65 100644
--- a/returnn/datasets/meta.py
+++ b/returnn/datasets/meta.py
@@ -1106,8 +1106,11 @@ class CombinedDataset(CachedDataset2):
             # Re-initialize sequence orders of sub-datasets with created sequence list.
             self.used_num_seqs_per_subset = []
             for dataset_idx, dataset_key in self.dataset_idx2key_map.items():
-                assert self.datasets[dataset_key].have_corpus_seq_idx()
-                self.datasets[dataset_key].init_seq_order(epoch=epoch, seq_order=seq_order_subdatasets[dataset_idx])
+                if epoch is None and not seq_order_subdatasets[dataset_idx]:
+                    pass  # via initialize(), already empty. the sub-dataset might not have known num_seqs otherwise
+                else:
+                    assert self.datasets[dataset_key].have_corpus_seq_idx()
+                    self.datasets[dataset_key].init_seq_order(epoch=epoch, seq_order=seq_order_subdatasets[dataset_idx])
                 self.used_num_seqs_per_subset.append(len(seq_order_subdatasets[dataset_idx]))
 
         else:
-- 
2.43.0

