From 00b32fb19c0c887979499f6b242f8060d4e46d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:42 +0000
Subject: [PATCH 001/136] fix: uncompressed SDS saves lost zero-length arrays
 and everything after nested containers

---
 riptable/rt_sds.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/riptable/rt_sds.py b/riptable/rt_sds.py
index 9c0670e..1038ad9 100644
--- a/riptable/rt_sds.py
+++ b/riptable/rt_sds.py
@@ -2447,6 +2447,12 @@ def compress_dataset_internal(
     # TODO - a gateway check could go here
 
     if sharename is None:
+        # the uncompressed writer drops zero-length arrays and placeholders from the file, which shifts (or loses)
+        # every array after them; the compressed writer records them.
+        if comptype == CompressionType.Uncompressed and any(
+            arr is None or arr.size == 0 for arr in listarrays
+        ):
+            comptype = CompressionType.ZStd
         if SDSVerbose:
             print(f"calling rc.CompressFile {filename}")
         rc.CompressFile(
-- 
2.43.0


From c1128858f81278e4fb3eba7457b9e1c07590b702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:56 +0000
Subject: [PATCH 002/136] fix: boolean mask assignment wrote the wrong elements
 of strided arrays (or with strided masks)

---
 riptable/rt_fastarray.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index e65efcc..03b8ab9 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -1290,7 +1290,8 @@ class FastArray(np.ndarray):
                     is_unsupported = self._is_not_supported(newvalue)
 
                 # if supported, call our setitem, it will return False if it fails
-                if not is_unsupported:
+                # (it assumes that neither this array nor the mask has striding)
+                if not is_unsupported and self.flags.c_contiguous and fld.flags.c_contiguous:
                     if rc.SetItem(self, fld, newvalue):
                         return
             try:
-- 
2.43.0


From 175f7e6ce1e72fa0c9381dd3d8be6a5bb97ac8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:56 +0000
Subject: [PATCH 003/136] fix: copying or selecting from a Dataset with a sort
 view raised AttributeError

---
 riptable/rt_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index c6efa2a..40037c3 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -709,7 +709,7 @@ class Dataset(Struct):
                 new_sortlist = [_k for _k in self._col_sortlist if _k in ds]
                 if len(new_sortlist) > 0:
                     ds._col_sortlist = new_sortlist
-                    ds._sort_ascending = self.sort_ascending
+                    ds._sort_ascending = self._sort_ascending
             else:
                 new_sort = [(_k, _v) for _k, _v in zip(self._col_sortlist, self._sort_ascending) if _k in ds]
                 if len(new_sort) > 0:
-- 
2.43.0


From 57a568cf981fdf386e239f064935fd28f3dd4297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:07 +0000
Subject: [PATCH 004/136] fix: col_str_replace failed on a Dataset with a sort
 view

---
 riptable/rt_struct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_struct.py b/riptable/rt_struct.py
index ab0537f..63f8d57 100644
--- a/riptable/rt_struct.py
+++ b/riptable/rt_struct.py
@@ -3789,7 +3789,7 @@ class Struct:
         replaced = self._all_items.item_str_replace(old, new, maxr=max)
         if replaced and self._col_sortlist is not None:
             # fix sorts
-            for i, name in self._col_sortlist:
+            for i, name in enumerate(self._col_sortlist):
                 r = name.replace(old, new, max)
                 if r != name:
                     self._col_sortlist[i] = r
-- 
2.43.0


From fd9f46a0a5745f332829596d56466f7e9fd6e9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:07 +0000
Subject: [PATCH 005/136] fix: col_str_replace silently dropped a column when
 two names became equal

---
 riptable/rt_itemcontainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_itemcontainer.py b/riptable/rt_itemcontainer.py
index 7cf5fe1..607f872 100644
--- a/riptable/rt_itemcontainer.py
+++ b/riptable/rt_itemcontainer.py
@@ -561,7 +561,7 @@ class ItemContainer:
             if r != item:
                 replace_count += 1
                 # prevent name conflict from overwriting existing column
-                if r in self._items:
+                if r in self._items or r in new_names:
                     raise ValueError(f"Item {r} already existed, cannot make replacement in item name {item}.")
             new_names.append(r)
 
-- 
2.43.0


From dbef03f82b733b8a706420ec40c9a9b21d28a9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:14 +0000
Subject: [PATCH 006/136] fix: indexing a string array with an unsigned index
 read out of bounds

---
 riptable/rt_ledger.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/riptable/rt_ledger.py b/riptable/rt_ledger.py
index dc9687f..6c00c57 100644
--- a/riptable/rt_ledger.py
+++ b/riptable/rt_ledger.py
@@ -217,6 +217,13 @@ class MathLedger(Struct):
     def _MBGET(cls, *args):
         if cls.Verbose > 1:
             print(f"mbget ledger {args}")
+        values, index = args[0], args[1]
+        if index.dtype.kind == "u" and values.dtype.kind in "SU":
+            # rc.MBGet misreads unsigned indices when gathering strings: use a signed index
+            missing = index >= min(np.iinfo(index.dtype).max, np.iinfo(np.int64).max)
+            index = index.astype(np.int64)
+            index[missing] = np.iinfo(np.int64).min
+            args = (values, index) + args[2:]
         return cls._FUNNEL_ALL(rc.MBGet, *args)
 
     @classmethod
-- 
2.43.0


From 794f9d73382a5aedd2ff9a650f9accf1b9129ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:14 +0000
Subject: [PATCH 007/136] fix: duplicated(keep='last') marked the wrong row for
 the last group

---
 riptable/rt_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 40037c3..d5f6a2b 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -3618,7 +3618,7 @@ class Dataset(Struct):
             result[igroup[ilast]] = False
 
             # set the last one
-            result[lastindex] = False
+            result[igroup[lastindex]] = False
 
         # only return rows that occur once
         elif keep is False:
-- 
2.43.0


From de86183c1d2abcd88b3b54d81d9af379ba9cfb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:14 +0000
Subject: [PATCH 008/136] fix: Dataset.tail(0) returned every row

---
 riptable/rt_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index d5f6a2b..e7ac0ce 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -3041,7 +3041,7 @@ class Dataset(Struct):
             self._nrows = 0
             return self[:0, :]
         rows = min(self._nrows, n)
-        return self[-rows:, :]
+        return self[self._nrows - rows :, :]
 
     def dhead(self, n: int = 0) -> None:
         """
-- 
2.43.0


From 7d90f46cfb46df04250b0bd20218b8ec47db0a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:18 +0000
Subject: [PATCH 009/136] fix: next/previous row links of a grouping overflowed
 narrow bin dtypes

---
 riptable/rt_numpy.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 85406da..79ef7fd 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -1819,6 +1819,12 @@ def makeilast(key, unique_count: int, filter=None) -> np.ndarray:
     return rc.MakeiFirst(key, unique_count, filter, 1)
 
 
+# -------------------------------------------------------
+def _widen_for_row_index(key: np.ndarray) -> np.ndarray:
+    """rc.MakeiNext returns row indices in the dtype of the key: make sure they fit."""
+    return key.astype(np.promote_types(key.dtype, np.min_scalar_type(-max(len(key), 1))), copy=False)
+
+
 # -------------------------------------------------------
 def makeinext(key, unique_count: int) -> np.ndarray:
     """
@@ -1834,7 +1840,7 @@ def makeinext(key, unique_count: int) -> np.ndarray:
     An index array of the same dtype and length of the next row
     The index array will have -MAX_INT set to any locations it could not find a next
     """
-    return rc.MakeiNext(key, unique_count, 0)
+    return rc.MakeiNext(_widen_for_row_index(key), unique_count, 0)
 
 
 # -------------------------------------------------------
@@ -1851,7 +1857,7 @@ def makeiprev(key, unique_count: int) -> np.ndarray:
     -------
     The index array will have -MAX_INT set to any locations it could not find a previous
     """
-    return rc.MakeiNext(key, unique_count, 1)
+    return rc.MakeiNext(_widen_for_row_index(key), unique_count, 1)
 
 
 # -------------------------------------------------------
-- 
2.43.0


From 1d44f2ad20873b89609e83cc429a3fbf8506fb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:18 +0000
Subject: [PATCH 010/136] fix: a grouping sliced with a step counted the wrong
 rows

---
 riptable/rt_grouping.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index 2a55df1..8ddf91b 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -1538,6 +1538,9 @@ class Grouping:
                 raise ValueError("Internal error generating ikey")
 
             # enum path needs to go through hash, lazy-eval here
+        if not self._iKey.flags.c_contiguous:
+            # e.g. after slicing with a step: the low level group routines need contiguous bins
+            return self._iKey.copy()
         return self._iKey
 
     # ---------------------------------------------------------------
-- 
2.43.0


From 8d3ba627c0f7102714bfef7dc0bf1db86cad5dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:18 +0000
Subject: [PATCH 011/136] fix: as_categorical and get_group of a sorted groupby
 mislabelled the groups

---
 riptable/rt_groupby.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_groupby.py b/riptable/rt_groupby.py
index ae01641..db2fcc0 100644
--- a/riptable/rt_groupby.py
+++ b/riptable/rt_groupby.py
@@ -423,8 +423,9 @@ class GroupBy(GroupByOps):
         Categorical operation results will be sorted or unsorted depending on if 'gb' or 'gbu' called this.
         """
 
+        # the keys must be in bin order, not in display order, to match the ikey
         idx = self.grouping.ikey
-        gbkeys = self.gbkeys
+        gbkeys = self.grouping.uniquedict
 
         return TypeRegister.Categorical(idx, _from_categorical=gbkeys, sort_gb=self._sort_display)
 
-- 
2.43.0


From c46999f80a9b462de383c94d03117660e0e2b2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:25 +0000
Subject: [PATCH 012/136] fix: lexicographic grouping with an all-False filter
 kept every row

---
 riptable/rt_numpy.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 79ef7fd..9b3a852 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -2201,6 +2201,18 @@ def groupbylex(list_arrays, filter=None, cutoffs=None, base_index: int = 1, rec:
             filtertrue = filtertrue[0:truecount]
             index = filtertrue
 
+            if truecount == 0 and cutoffs is None:
+                # no rows left: LexSort would take the empty index as no index at all
+                empty_i32 = zeros(0, dtype=np.int32)
+                return {
+                    "iKey": zeros(totalcount, dtype=np.int32),
+                    "iFirstKey": empty_i32,
+                    "unique_count": 0,
+                    "iGroup": empty_i32.copy(),
+                    "iFirstGroup": zeros(1, dtype=np.int32),
+                    "nCountGroup": full(1, totalcount, dtype=np.int32),
+                }
+
         # lexsort
         if len(value_array) > 2e9:
             iGroup = rc.LexSort64(list_arrays, cutoffs=cutoffs, index=index)
-- 
2.43.0


From 9e570fdfe896eee07509f8ff6c1bc8167775efd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:00 +0000
Subject: [PATCH 013/136] fix: lexicographic grouping with a filter left the
 filtered rows out of the group index

---
 riptable/rt_numpy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 9b3a852..b2f694c 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -2208,7 +2208,7 @@ def groupbylex(list_arrays, filter=None, cutoffs=None, base_index: int = 1, rec:
                     "iKey": zeros(totalcount, dtype=np.int32),
                     "iFirstKey": empty_i32,
                     "unique_count": 0,
-                    "iGroup": empty_i32.copy(),
+                    "iGroup": filterfalse.astype(np.int32),
                     "iFirstGroup": zeros(1, dtype=np.int32),
                     "nCountGroup": full(1, totalcount, dtype=np.int32),
                 }
@@ -2253,6 +2253,8 @@ def groupbylex(list_arrays, filter=None, cutoffs=None, base_index: int = 1, rec:
 
             # the invalids are after all the valids in the iGroup
             iFirstGroup[0] = len(filtertrue)
+            if cutoffs is None:
+                iGroup = hstack([iGroup, filterfalse.astype(iGroup.dtype)])
 
         mkdict = {
             "iKey": iKey,
-- 
2.43.0


From 5f2d291d835f59a1d78e43990fdf106d23db00f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:34 +0000
Subject: [PATCH 014/136] fix: lexicographic grouping merged distinct groups of
 7 byte multi-keys

---
 riptable/rt_numpy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index b2f694c..4b68209 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -2178,6 +2178,9 @@ def groupbylex(list_arrays, filter=None, cutoffs=None, base_index: int = 1, rec:
             # make a record array for greater comparison speed
             # TODO: future optimization - rotate in parallel
             value_array = np.core.records.fromarrays(list_arrays)
+            if value_array.dtype.itemsize == 7:
+                # rc.GroupFromLexSort takes some distinct 7 byte records for equal: pad them to 8 bytes
+                value_array = np.core.records.fromarrays([*list_arrays, np.zeros(len(value_array), dtype=np.int8)])
 
             if rec:
                 # user can also specify to sort with all arrays lumped together
-- 
2.43.0


From 729f11c95cfa85575bddd3acd9188572fed8a465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:07 +0000
Subject: [PATCH 015/136] fix: transform of a group reduction was shifted by
 one group for base 0 and enum categoricals

---
 riptable/rt_groupbyops.py | 3 ++-
 riptable/rt_grouping.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_groupbyops.py b/riptable/rt_groupbyops.py
index 9dec598..4a2b519 100644
--- a/riptable/rt_groupbyops.py
+++ b/riptable/rt_groupbyops.py
@@ -339,7 +339,8 @@ class GroupByOps(ABC):
         if getattr(self, "_transform", False) or transform:
             ikey = self.grouping.ikey
             showfilter = kwargs.get("showfilter", False)
-            if not showfilter and self.grouping.base_index == 1:
+            if not showfilter:
+                # ikey is 1-based whatever the base index
                 ikey = ikey - 1
             # use fancy indexing to pull the values from the cells, back to original array
             newds = {}
diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index 8ddf91b..0b979ce 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -3543,7 +3543,8 @@ class Grouping:
         # skip if base 1
         countcol = ncountkey[base:]
         if transform:
-            if not showfilter and self.base_index == 1:
+            if not showfilter:
+                # ikey is 1-based whatever the base index
                 countcol = countcol[self.ikey - 1]
             else:
                 countcol = countcol[ikey]
-- 
2.43.0


From 7ea202f71f369913c55f79265215dc91dcc96be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:07 +0000
Subject: [PATCH 016/136] fix: count_uniques miscounted for base 0 and enum
 categoricals

---
 riptable/rt_groupbyops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_groupbyops.py b/riptable/rt_groupbyops.py
index 4a2b519..df14ac1 100644
--- a/riptable/rt_groupbyops.py
+++ b/riptable/rt_groupbyops.py
@@ -1086,7 +1086,7 @@ class GroupByOps(ABC):
             newdict = {}
             for colname, arr in origdict.items():
                 if colname not in gbk:
-                    mcat = TypeRegister.Categorical([g.catinstance, arr], filter=filter)
+                    mcat = TypeRegister.Categorical([g.ikey, arr], filter=filter)
                     if transform:
                         result = self.nansum(mcat.first_bool, transform=transform)[-1]
                     else:
-- 
2.43.0


From 00d10d648a4300c05df30d88d3c010c619faa102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:01 +0000
Subject: [PATCH 017/136] fix: grouping, sorting and group reductions failed on
 one row slices taken with a step

---
 riptable/rt_numpy.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 4b68209..ef97633 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -1874,6 +1874,7 @@ def _groupbycalculateall(*args):
     Each array has the length of unique_rows (Arg3)
     The returned arrays have the cells(accum operation) filled in
     """
+    args = ([_unstride_single(arr) for arr in args[0]],) + args[1:]
     return LedgerFunction(rc.GroupByAll32, *args)
 
 
@@ -1894,6 +1895,7 @@ def _groupbycalculateallpack(*args):
     The returned arrays have the cells(accum operation) filled in
     """
 
+    args = ([_unstride_single(arr) for arr in args[0]],) + args[1:]
     return LedgerFunction(rc.GroupByAllPack32, *args)
 
 
@@ -1981,6 +1983,17 @@ def groupbypack(ikey, ncountgroup, unique_count=None, cutoffs=None) -> dict:
     return mkdict
 
 
+# -------------------------------------------------------
+def _unstride_single(arr):
+    """
+    A one row slice taken with a step is flagged contiguous by numpy but keeps its stride,
+    which the low level key routines reject.
+    """
+    if isinstance(arr, np.ndarray) and arr.shape == (1,) and arr.strides[0] != arr.itemsize:
+        return arr.copy()
+    return arr
+
+
 # -------------------------------------------------------
 def groupbyhash(
     list_arrays, hint_size: int = 0, filter=None, hash_mode: int = 2, cutoffs=None, pack: bool = False
@@ -2076,6 +2089,7 @@ def groupbyhash(
         if len(common_len) == 1:
             common_len = common_len.pop()
             if common_len != 0:
+                list_arrays = [_unstride_single(arr) for arr in list_arrays]
                 iKey, iFirstKey, unique_count = rc.MultiKeyGroupBy32(
                     list_arrays, hint_size, filter, hash_mode, cutoffs=cutoffs
                 )
@@ -2217,6 +2231,7 @@ def groupbylex(list_arrays, filter=None, cutoffs=None, base_index: int = 1, rec:
                 }
 
         # lexsort
+        list_arrays = [_unstride_single(arr) for arr in list_arrays]
         if len(value_array) > 2e9:
             iGroup = rc.LexSort64(list_arrays, cutoffs=cutoffs, index=index)
         else:
@@ -2686,6 +2701,10 @@ def lexsort(*args, **kwargs) -> FastArray:
     if isinstance(firstarg, list):
         firstarg = firstarg[0]
 
+    args = tuple(
+        [_unstride_single(a) for a in arg] if isinstance(arg, list) else _unstride_single(arg) for arg in args
+    )
+
     if isinstance(firstarg, np.ndarray):
         # make sure fastarray
         # also if arraysize > 2billiom call LexSort64 instead
-- 
2.43.0


From 4ea23962752d334790c702691f112d5c3b2c8165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:10 +0000
Subject: [PATCH 018/136] fix: float32 group nansum returned uninitialized
 memory for groups without rows

---
 riptable/rt_grouping.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index 0b979ce..475ed93 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -3438,6 +3438,14 @@ class Grouping:
                     values, ikey, unique_rows, funcList, binLowList, binHighList, func_param
                 )
 
+                if funcNum == GB_FUNCTIONS.GB_NANSUM and any(v.dtype == np.float32 for v in accum_tuple):
+                    # the float32 nansum leaves the bins of groups without rows uninitialized
+                    empty_bins = np.ones(unique_rows + 1, dtype=bool)
+                    empty_bins[ikey._np[ikey._np >= 0]] = False
+                    for v in accum_tuple:
+                        if v.dtype == np.float32:
+                            v._np[empty_bins[: len(v)]] = 0
+
                 if Grouping.DebugMode:
                     print("accum tuple", accum_tuple)
 
-- 
2.43.0


From 7e9963894a7f388b666a2e6f3fddb6d62c395ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:11 +0000
Subject: [PATCH 019/136] fix: group cummin and cummax returned uninitialized
 memory for rows in no group

---
 riptable/rt_grouping.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index 475ed93..57ade5e 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -3432,6 +3432,18 @@ class Grouping:
                 # TODO: do you want to merge with iKey?
                 accum = rc.EmaAll32(values, ikey, unique_rows, funcNum, func_param)
 
+                if funcNum in (
+                    GB_FUNCTIONS.GB_CUMMIN,
+                    GB_FUNCTIONS.GB_CUMNANMIN,
+                    GB_FUNCTIONS.GB_CUMMAX,
+                    GB_FUNCTIONS.GB_CUMNANMAX,
+                ):
+                    # these leave the rows in no group uninitialized
+                    no_group = ikey._np == 0
+                    if no_group.any():
+                        for v in accum:
+                            v._np[no_group] = INVALID_DICT[v.dtype.num]
+
             # basic not packed
             elif funcNum >= GB_FUNCTIONS.GB_SUM and funcNum < GB_FUNCTIONS.GB_FIRST:
                 accum_tuple = _groupbycalculateall(
-- 
2.43.0


From 574b5ca27a361b331dc5dfe3c4741d1a787a688e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:11 +0000
Subject: [PATCH 020/136] fix: group fill_forward and fill_backward returned
 uninitialized memory for rows in no group

---
 riptable/rt_groupbynumba.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptable/rt_groupbynumba.py b/riptable/rt_groupbynumba.py
index b569908..4c3ca46 100644
--- a/riptable/rt_groupbynumba.py
+++ b/riptable/rt_groupbynumba.py
@@ -417,6 +417,9 @@ class GroupbyNumba(GroupByOps):
         if ret is None:
             # inplace, just pass data as ret itself
             ret = data
+        else:
+            # rows in no group are not visited below
+            ret[...] = data
 
         if limit is None:
             limit = 0
-- 
2.43.0


From 37c4f2d6a77a7300309846dc4d069632d8b88c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:11 +0000
Subject: [PATCH 021/136] fix: ema_weighted and rolling quantiles failed on
 Categoricals

---
 riptable/rt_groupbyops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_groupbyops.py b/riptable/rt_groupbyops.py
index df14ac1..1e5a0b3 100644
--- a/riptable/rt_groupbyops.py
+++ b/riptable/rt_groupbyops.py
@@ -3029,7 +3029,7 @@ class GroupByOps(ABC):
 
         answers = []
 
-        window = min(window, len(self.grouping._iKey))
+        window = min(window, len(self.grouping.ikey))
 
         for quantile in q:
             funcParam = rolling_quantile_funcParam(quantile, window)
@@ -3486,7 +3486,7 @@ class GroupByOps(ABC):
             raise ValueError("ema_weighted function requires a decay_rate floating point value")
 
         # put in fake time array
-        time_array = np.arange(self._dataset.shape[0])
+        time_array = np.arange(len(self.grouping.ikey))
         return self._ema_op(
             GB_FUNCTIONS.GB_EMAWEIGHTED,
             *args,
-- 
2.43.0


From b6d86c36f7d6b441ccb4e7015e7b15760232e1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:31 +0000
Subject: [PATCH 022/136] fix: apply_reduce(transform=True) of a sorted groupby
 gave rows another group's result

---
 riptable/rt_groupbyops.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_groupbyops.py b/riptable/rt_groupbyops.py
index 1e5a0b3..a582403 100644
--- a/riptable/rt_groupbyops.py
+++ b/riptable/rt_groupbyops.py
@@ -448,14 +448,15 @@ class GroupByOps(ABC):
             userfunc,
             *args,
             tups=tups,
-            label_keys=label_keys,
+            # a transform re-expands by bin: no labels and no sorting of the bins by key
+            label_keys=None if transform else label_keys,
             func_param=func_param,
             dtype=dtype,
             **kwargs,
         )
         if transform:
             kwargs["transform"] = True
-            return self._possibly_transform(result, label_keys=label_keys.keys(), **kwargs)
+            return self._possibly_transform(result, label_keys=(), **kwargs)
         else:
             return result
 
-- 
2.43.0


From 1c9d6cd2deddc2f4b4a023caec9bb4ead268a193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:32 +0000
Subject: [PATCH 023/136] fix: apply on a filtered lexicographic groupby placed
 row results at the wrong rows

---
 riptable/rt_grouping.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index 57ade5e..2062803 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -3204,7 +3204,11 @@ class Grouping:
                 if Grouping.DebugMode:
                     print(f"**should insert {invcount} at..{self.iFirstGroup[0]}")
                 inv_ds = TypeRegister.Dataset(newdict)
-                result = hstack([inv_ds, result])
+                if self.iFirstGroup[0] == 0:
+                    result = hstack([inv_ds, result])
+                else:
+                    # a lexicographic grouping lists the rows in no group last
+                    result = hstack([result, inv_ds])
 
             # if function was not a reduce function, possibly attach the keys
             # should this be the return_all keyword?
-- 
2.43.0


From 468f84fd1405401e0e40073a9c13da1f8279005d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:35 +0000
Subject: [PATCH 024/136] fix: Categorical.copy() lost base_index 0 and the
 ordered flag

---
 riptable/rt_categorical.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index bb110d5..2a76aee 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -1759,7 +1759,9 @@ class Categorical(GroupByOps, FastArray):
                                 index,
                                 categories=_from_categorical.categories_as_dict(),
                                 sort_display=_sort_gb,
+                                ordered=bool(ordered),
                                 categorical=True,
+                                base_index=base_index,
                                 dtype=dtype,
                                 _trusted=True,
                             )
@@ -3245,7 +3247,7 @@ class Categorical(GroupByOps, FastArray):
             _from_categorical=cat_copy,
             base_index=self.base_index,
             sort_gb=self._sort_gb,
-            ordered=self._ordered,
+            ordered=self.ordered,
             invalid=self.invalid_category,
         )
 
-- 
2.43.0


From 9ded599916ec311c62954b2778c0b4a773ee1851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:35 +0000
Subject: [PATCH 025/136] fix: expand_dict of a base_index 0 Categorical was
 off by one category

---
 riptable/rt_categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 2a76aee..7093012 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -6161,7 +6161,7 @@ class Categorical(GroupByOps, FastArray):
         else:
             xdict = {}
             for i, col in self.category_dict.items():
-                xdict[i] = self._expand_array(col, index=self._fa)
+                xdict[i] = self._expand_array(col)
         return xdict
 
     @property
-- 
2.43.0


From 8d7836640d9a306d0416c03cb8e33b916710dd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:35 +0000
Subject: [PATCH 026/136] fix: assigning a Categorical with other categories
 stored the wrong bins

---
 riptable/rt_categorical.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 7093012..4543214 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -4322,10 +4322,23 @@ class Categorical(GroupByOps, FastArray):
             # check if already aligned, if so can use same integers
             is_same, catlist = Categorical.categories_equal([self, value])
             value = catlist[1]
-            if not is_same:
-                # convert back to strings (slow)
-                # TODO: multikey will fail here
-                value = self.expand_array
+            if not self.isenum and not value.isenum and not (is_same and value.base_index == self.base_index):
+                # renumber the bins of value to the bins which the same categories have in self
+                theirs, ours = [*value.category_dict.values()], [*self.category_dict.values()]
+                if len(theirs) != len(ours):
+                    raise ValueError("Cannot assign a Categorical with a different number of keys.")
+                found, newbins = ismember(theirs, ours)
+                newbins = np.where(found, newbins.astype(np.int64) + 1, 0)
+                oldbins = value.grouping.ikey
+                value = hstack([zeros(1, dtype=np.int64), newbins])[oldbins]
+                if ((value == 0) & (oldbins != 0)).any():
+                    raise ValueError("Cannot assign values which are not in the categories.")
+                if self.base_index == 0:
+                    if (value == 0).any():
+                        raise ValueError("Cannot assign filtered values to a base index 0 Categorical.")
+                    value = value - 1
+            elif not is_same:
+                raise ValueError("Cannot assign a Categorical with a different mapping.")
 
         # first check if the value is string like
         # if it is, we have to convert it to an index first
-- 
2.43.0


From a0bb3db0ca9f389772e6ef78d5622b038f07db8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:35 +0000
Subject: [PATCH 027/136] fix: base_index 0 codes of the smallest sufficient
 type overflowed when shifted to base 1

---
 riptable/rt_grouping.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index 2062803..798d10f 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -876,7 +876,8 @@ class Grouping:
 
             if base_index == 0:
                 # possibly recast the tempikey
-                if possibly_recast:
+                # the ikey is one more than the base 0 index and must not overflow
+                if possibly_recast or self._unique_count > np.iinfo(tempikey.dtype).max:
                     tempikey = self.possibly_recast(tempikey, self._unique_count, dtype=dtype)
                 self._catinstance = tempikey
                 # return here to force lazy evaluation of ikey
-- 
2.43.0


From 6957b60ede4147a2df0f1d09179271bfa5588800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:35 +0000
Subject: [PATCH 028/136] fix: shrink with misc put the misc rows in another
 category when new categories were unused

---
 riptable/rt_grouping.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index 798d10f..0e8ab9b 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -2013,7 +2013,9 @@ class Grouping:
             if misc is not None:
                 # everything already 0 stays 0
                 zeromask = self.catinstance == 0
-                maxvalue = max(idx) + 1
+                # misc is added after all the new categories, used or not
+                maxvalue = len(newcats[0]) + 1
+                idx = idx.astype(int_dtype_from_len(maxvalue), copy=False)
                 # everything filtered out gets MISC
                 idx[~mask] = maxvalue
                 idx = hstack([0, idx, maxvalue])
-- 
2.43.0


From 09553e5e177a5519ffb2459a9ab262c2f7e7f159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:44 +0000
Subject: [PATCH 029/136] fix: set_valid with a filter on a mapped Categorical
 changed the Categorical itself

---
 riptable/rt_categorical.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 4543214..588397f 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -3274,6 +3274,8 @@ class Categorical(GroupByOps, FastArray):
         if self.isenum:
             ikey = self._fa
             if filter is not None:
+                # do not change the codes of self
+                ikey = ikey.copy()
                 if filter.dtype.char == "?":
                     # set the invalids (technically filtering not allowed on an enum)
                     ikey[~filter] = ikey.inv
-- 
2.43.0


From 46d2a283f19cb3813e154abe8d20e062172cc6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:44 +0000
Subject: [PATCH 030/136] fix: category edits left the grouping stale,
 relabelled filtered rows and could overflow the codes

---
 riptable/rt_categorical.py | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 588397f..edd88df 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -593,7 +593,7 @@ class Categories:
         return self._mode
 
     # ------------------------------------------------------------------------------
-    def _possibly_add_categories(self, new_categories):
+    def _possibly_add_categories(self, new_categories, max_count=None):
         """
         Add non-existing categories to categories. If categories were added, an array is returned to fix the old indexes.
         If no categories were added, returns None.
@@ -617,6 +617,8 @@ class Categories:
             # uniquify and sort
             if len(cats_to_add) > 0:
                 if self._auto_add_categories:
+                    if max_count is not None and len(self._list) + len(cats_to_add) > max_count:
+                        raise ValueError(f"Cannot add categories {cats_to_add}: the bins can only number {max_count}.")
                     all_together = hstack([self._list, cats_to_add])
                     self._list, fix_index = unique(all_together, return_inverse=True)
                     if self.isunicode:
@@ -1163,7 +1165,8 @@ class Categories:
                     if len(new_exists) == 1:
                         return replace_idx + self.base_index, new_exists[0]
                     else:
-                        self._list[replace_idx] = new_value
+                        # a new array: the old one may be shared, or too narrow for the new string
+                        self._list = hstack([self._list[:replace_idx], new_value, self._list[replace_idx + 1 :]])
                         self._ordered = False
                         self._sorted = False
                 else:
@@ -3868,13 +3871,27 @@ class Categorical(GroupByOps, FastArray):
             raise ValueError(f"Cannot replace mapping dictionary in a locked Categorical. Call unlock() first.")
         self.groupby_reset()
 
+    # -------------------------------------------------------
+    def _sync_grouping_categories(self):
+        """
+        Internal routine called after the category array was edited, the grouping must use the same array.
+        """
+        cats = self._categories_wrap._list
+        for grouping in (self._grouping, self._categories_wrap._grouping):
+            grouping._grouping_unique_dict = {name: cats for name in grouping.uniquedict}
+            grouping._unique_count = len(cats)
+
     # -------------------------------------------------------
     def category_add(self, value):
         """
         New category will always be added to the end of the category array.
         """
         if self._locked is False:
+            max_count = np.iinfo(self.dtype).max
+            if len(self._categories_wrap) >= max_count:
+                raise ValueError(f"Cannot add category {value}: the bins can only number {max_count}.")
             self._categories_wrap._array_edit(value, how="add")
+            self._sync_grouping_categories()
             self._ordered = False
             self._sorted = False
         else:
@@ -3910,6 +3927,7 @@ class Categorical(GroupByOps, FastArray):
                 replace_mask = self._fa == fix_index_tup[0]
                 self._fa[replace_mask] = fix_index_tup[1]
             else:
+                self._sync_grouping_categories()
                 self._ordered = False
                 self._sorted = False
         else:
@@ -4355,10 +4373,15 @@ class Categorical(GroupByOps, FastArray):
 
             else:
                 # add the category, clean up the index array afterwards
-                fix_index = self._categories_wrap._possibly_add_categories(value)
+                fix_index = self._categories_wrap._possibly_add_categories(value, np.iinfo(self.dtype).max)
                 if fix_index is not None:
+                    self._sync_grouping_categories()
                     # must be inplace to change self
-                    self._fa[:] = fix_index[self._fa - self.base_index] + self.base_index
+                    if self.base_index == 0:
+                        self._fa[:] = fix_index[self._fa]
+                    else:
+                        # filtered values remain in bin 0
+                        self._fa[:] = hstack([zeros(1, dtype=fix_index.dtype), fix_index + 1])[self._fa]
                 # convert string to int index
                 # we know value will have an exact match
                 value = self._categories_wrap.get_category_match_index(value)
-- 
2.43.0


From 447347065ddcc46c64fb0d177e764b6f27f25f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:22 +0000
Subject: [PATCH 031/136] fix: merge2 outer join of a Categorical key with a
 plain key keeps the key values

---
 riptable/rt_merge.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index 1dc93c9..b549b90 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -2757,6 +2757,11 @@ def merge2(
                     )
                 )
                 right_data = mbget_wrapper(right[field], right_fancyindex[-join_indices.right_only_rowcount :])
+                # Stacking a Categorical with a non-Categorical would use the Categorical's codes as key values.
+                if isinstance(left_data, Categorical) != isinstance(right_data, Categorical):
+                    left_data, right_data = (
+                        arr.expand_array if isinstance(arr, Categorical) else arr for arr in (left_data, right_data)
+                    )
                 out[field] = hstack((left_data, right_data))
 
         # If we're missing one of the fancy indices, it means we can just copy the columns
-- 
2.43.0


From b17849772999cd9d24463260273f1ac9ba2fecf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:23 +0000
Subject: [PATCH 032/136] fix: merge2(copy=False) keeps Categorical columns
 usable

---
 riptable/rt_merge.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index b549b90..fd64a59 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -2705,7 +2705,8 @@ def merge2(
 
     def readonly_array_wrapper(arr: FastArray) -> FastArray:
         """Create a read-only view of an array."""
-        new_arr = arr.view()
+        # A view of a Categorical would lose its categories.
+        new_arr = arr.copy(deep=False) if isinstance(arr, Categorical) else arr.view()
         new_arr.flags.writeable = False
         return new_arr
 
-- 
2.43.0


From f9f5bf518d63e7ba0800f98ffcfb34c80d453958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:23 +0000
Subject: [PATCH 033/136] fix: outer merge2 with keep returns one row for each
 distinct partially-null composite key

---
 riptable/rt_merge.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index fd64a59..553594b 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -1472,6 +1472,9 @@ def _create_merge_fancy_indices(
 
                 # Get the first/last row for each group.
                 keep_ifirstlastkey = _get_keep_ifirstlastkey_with_null(right_groupby_keygroup, keep[1])
+                if len(keep_ifirstlastkey) == right_groupby_keygroup.unique_count:
+                    # No entry for the null group, so the first entry belongs to group number 1.
+                    join_invalid_groupby_groups = join_invalid_groupby_groups - 1
                 join_invalid_groupby_rows = keep_ifirstlastkey[join_invalid_groupby_groups]
 
                 # Get the other right-only rows (those with valid join keys).
@@ -1608,6 +1611,9 @@ def _create_merge_fancy_indices(
             else:
                 # Left table is empty, so this decays to a right join.
                 recursive_how = "right"
+                if right_groupby_keygroup is not None:
+                    # Nothing can match, so what matters are the distinct keys, including the partially-null ones.
+                    right_keygroup = right_groupby_keygroup
 
             join_indices = _create_merge_fancy_indices(
                 left_keygroup, right_keygroup, right_groupby_keygroup, recursive_how, keep
@@ -2039,6 +2045,7 @@ def _get_or_create_keygroup(
 
         valid_join_tuples_mask: Optional[FastArray] = None
         valid_groupby_tuples_mask: Optional[FastArray] = None
+        all_groupby_tuples_valid = False
         if force_invalids:
             for keycol in keycols:
                 isvalid = _create_column_valid_mask(keycol)
@@ -2057,7 +2064,9 @@ def _get_or_create_keygroup(
                     # If 'isvalid' is None, that's considered to be the same as a boolean array of the correct
                     # length with all True elements; since we logical-OR the masks together for the groupby-grouping,
                     # when 'isvalid' is None we set the valid groupby tuples mask to None.
-                    if isvalid is None:
+                    # It has to stay None for any columns that follow.
+                    if isvalid is None or all_groupby_tuples_valid:
+                        all_groupby_tuples_valid = True
                         valid_groupby_tuples_mask = None
                     elif valid_groupby_tuples_mask is None:
                         # Need to copy 'isvalid' to avoid sharing the same instance with 'valid_join_tuples_mask',
-- 
2.43.0


From 6bb9595fa70779dee01afe7a31ba51c6fb39cda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:23 +0000
Subject: [PATCH 034/136] fix: outer merge2 with keep sizes its row index by
 the source row count

---
 riptable/rt_merge.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index 553594b..baf6e08 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -1546,7 +1546,8 @@ def _create_merge_fancy_indices(
                 # Create an extended version of the fancy index for 'left'; for the new elements representing
                 # rows with right-only keys, write invalid/NA values into them since they don't match any left rows.
                 extended_left_fancy_index = empty(
-                    extended_left_rowcount, dtype=int_dtype_from_len(extended_left_rowcount)
+                    extended_left_rowcount,
+                    dtype=int_dtype_from_len(max(extended_left_rowcount, len(left_keygroup.ikey))),
                 )
                 extended_left_fancy_index[: len(left_fancy_index)] = left_fancy_index
                 extended_left_fancy_index[len(left_fancy_index) :] = extended_left_fancy_index.inv
@@ -1569,7 +1570,8 @@ def _create_merge_fancy_indices(
                 # Create an extended version of the fancy index for 'right'; for the new elements representing
                 # rows with right-only keys, we write in the indices of those rows (which we extracted earlier).
                 extended_right_fancy_index = empty(
-                    extended_right_rowcount, dtype=int_dtype_from_len(extended_right_rowcount)
+                    extended_right_rowcount,
+                    dtype=int_dtype_from_len(max(extended_right_rowcount, len(right_keygroup.ikey))),
                 )
                 extended_right_fancy_index[: len(right_fancy_index)] = right_fancy_index
                 extended_right_fancy_index[len(right_fancy_index) :] = right_only_group_rows
-- 
2.43.0


From 5668d33e2e682b6e0c12a126ff9cf090aef15c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:23 +0000
Subject: [PATCH 035/136] fix: merge2 with keep treats null Categorical keys
 consistently on both sides

---
 riptable/rt_merge.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index baf6e08..d4bb975 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -1148,7 +1148,7 @@ def _build_left_fancyindex(
     # Each row in 'left' (the original Dataset) having gbkey value K needs to be repeated in-place M times,
     # where M is the multiplicity of that row's key within the *right* Grouping. If the key K from the left Grouping
     # doesn't exist in the right Grouping, those rows get a repeat value of '1' (so they're kept as-is).
-    left_ikey = _get_keep_ikey(left_keygroup, keep_left)
+    left_ikey = _get_keep_ikey_with_null(left_keygroup, keep_left)
     left_repeats = right_group_multiplicity_as_left[left_ikey]
     assert all(isnotnan(left_repeats)), "Invalid entries found in 'left_repeats'."
     # assert not hasanynan(left_repeats), "Invalid entries found in 'left_repeats'."
@@ -1197,7 +1197,7 @@ def _build_left_fancyindex(
         _fused_arange_repeat(left_repeats_cumsum, left_fancyindex)
     else:
         # Get the ifirstkey/ilastkey for the left keygroup.
-        left_ikey = _get_keep_ifirstlastkey(left_keygroup, keep_left)
+        left_ikey = _get_keep_ifirstlastkey_with_null(left_keygroup, keep_left)
 
         # When dropping duplicates, we're only keeping some of the rows; so in contrast to the
         # case above where we're (potentially) keeping all of the rows from the left Dataset,
-- 
2.43.0


From c08e686d587cef9cf32490528811cf39b725e6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:23 +0000
Subject: [PATCH 036/136] fix: left join with an empty Categorical-keyed right
 table marks the rows unmatched

---
 riptable/rt_merge.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index d4bb975..89b6b61 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -798,7 +798,11 @@ def _build_right_fancyindex(
             return empty(0, dtype=left_keyid_to_right_keyid_map.dtype)
         else:
             output_rowcount = len(left_ikey)
-            return full(output_rowcount, right_keygroup.ikey.inv, dtype=left_keyid_to_right_keyid_map.dtype)
+            return full(
+                output_rowcount,
+                INVALID_DICT[left_keyid_to_right_keyid_map.dtype.num],
+                dtype=left_keyid_to_right_keyid_map.dtype,
+            )
 
     # Create an array with the same shape as the 'left' keygroup.
     # Populate each element with the 1-based keyid of the matching key from 'right';
-- 
2.43.0


From 6f644eacb0478a3c18fad5d425cfaea2b60e1166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:23 +0000
Subject: [PATCH 037/136] fix: merge2 with keep finds the null group when
 high_card orders groups lexically

---
 riptable/rt_merge.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index 89b6b61..6f14f26 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -518,7 +518,7 @@ def _get_keep_ifirstlastkey_with_null(grouping: "Grouping", keep: Optional[str])
             #       index we'd need to use a wider dtype.
             orig_ifirstkey = grouping.ifirstkey
             # This works because the invalid group is always first (i.e. ifirstgroup[0] == 0).
-            invalid_key_first_idx = grouping.igroup[0]
+            invalid_key_first_idx = grouping.igroup[grouping.ifirstgroup[0]]
 
             # Determine the dtype needed to hold the result.
             ifirstkey_dtype = np.promote_types(orig_ifirstkey.dtype, int_dtype_from_len(invalid_key_first_idx))
@@ -541,7 +541,7 @@ def _get_keep_ifirstlastkey_with_null(grouping: "Grouping", keep: Optional[str])
             #       in the last element of the array -- if we want to represent that index we'd need to use a wider dtype.
             orig_ilastkey = grouping.ilastkey
             # This works because the invalid group is group 0 (as long as base_index > 0).
-            invalid_key_last_idx = grouping.igroup[grouping.ncountgroup[0] - 1]
+            invalid_key_last_idx = grouping.igroup[grouping.ifirstgroup[0] + grouping.ncountgroup[0] - 1]
 
             # Determine the dtype needed to hold the result.
             ilastkey_dtype = np.promote_types(orig_ilastkey.dtype, int_dtype_from_len(invalid_key_last_idx))
@@ -1466,7 +1466,10 @@ def _create_merge_fancy_indices(
         else:
             if right_groupby_keygroup is not None and right_keygroup.ncountgroup[0] > 0:
                 # Find the rows in 'right' which have the null JOIN key.
-                join_invalid_rows = right_keygroup.igroup[: right_keygroup.ncountgroup[0]]
+                join_invalid_start = right_keygroup.ifirstgroup[0]
+                join_invalid_rows = right_keygroup.igroup[
+                    join_invalid_start : join_invalid_start + right_keygroup.ncountgroup[0]
+                ]
 
                 # What GROUP BY groups do each of these rows belong to?
                 join_invalid_groupby_groups = right_groupby_keygroup.ikey[join_invalid_rows]
-- 
2.43.0


From 29a2bac03086d335568fa77f6a3a83828d5f788a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:23 +0000
Subject: [PATCH 038/136] fix: multi-key ismember accepts an empty second
 argument

---
 riptable/rt_numpy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index ef97633..4a70f8a 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -1312,6 +1312,8 @@ def ismember(
         is_multikey = True
         if all(len(x) == 0 for x in a):
             return ismember([], [])
+        if len_a == len_b and all(len(x) == 0 for x in b):
+            return ismember(a[0], [])
 
     # different number of key columns
     if is_multikey:
-- 
2.43.0


From fada834a2a5a7d39cfa063623b87e5d517626e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:17 +0000
Subject: [PATCH 039/136] fix: indexing with uint8/uint16 indices above the
 signed range returned invalids

---
 riptable/rt_ledger.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_ledger.py b/riptable/rt_ledger.py
index 6c00c57..11d482e 100644
--- a/riptable/rt_ledger.py
+++ b/riptable/rt_ledger.py
@@ -218,9 +218,10 @@ class MathLedger(Struct):
         if cls.Verbose > 1:
             print(f"mbget ledger {args}")
         values, index = args[0], args[1]
-        if index.dtype.kind == "u" and values.dtype.kind in "SU":
-            # rc.MBGet misreads unsigned indices when gathering strings: use a signed index
-            missing = index >= min(np.iinfo(index.dtype).max, np.iinfo(np.int64).max)
+        if index.dtype.kind == "u":
+            # rc.MBGet misreads unsigned indices (as signed or out of bounds): use a signed index
+            index = index.view(np.ndarray)
+            missing = index > np.iinfo(np.int64).max
             index = index.astype(np.int64)
             index[missing] = np.iinfo(np.int64).min
             args = (values, index) + args[2:]
-- 
2.43.0


From 02933ce19abdb18c04d4e12638eb5e3b3eb4fb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:31 +0000
Subject: [PATCH 040/136] fix: merge_asof nearest: measure forward distance
 without unsigned wrap-around

---
 riptable/rt_merge.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index 6f14f26..5bb1f40 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -4210,7 +4210,8 @@ class _AsOfMerge:
             right_on_forward = (
                 right_on_col if right_fancyindex_forward is None else right_on_col[right_fancyindex_forward]
             )
-            forward_distance = abs(left_on_forward - right_on_forward)
+            # Subtract this way around so the difference isn't negative, which unsigned types can't represent.
+            forward_distance = right_on_forward - left_on_forward
 
             f_forward_closer |= forward_distance < backward_distance
             del backward_distance
-- 
2.43.0


From 836ffe34d47f3c764de7c6245dcacf58e6aeada6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:31 +0000
Subject: [PATCH 041/136] fix: merge_asof copy=False: keep column types and
 leave the inputs writeable

---
 riptable/rt_merge.py      | 3 ++-
 riptable/rt_merge_asof.py | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index 5bb1f40..02fd62d 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -4260,7 +4260,8 @@ class _AsOfMerge:
 
         def readonly_array_wrapper(arr: FastArray) -> FastArray:
             """Create a read-only view of an array."""
-            new_arr = FastArray(arr)
+            # A view of a Categorical would lose its categories.
+            new_arr = arr.copy(deep=False) if isinstance(arr, Categorical) else arr.view()
             new_arr.flags.writeable = False
             return new_arr
 
diff --git a/riptable/rt_merge_asof.py b/riptable/rt_merge_asof.py
index 1b19f6c..84f9490 100644
--- a/riptable/rt_merge_asof.py
+++ b/riptable/rt_merge_asof.py
@@ -17,6 +17,7 @@ import numba as nb
 from .config import get_global_settings
 from .numba.indexing import scalar_or_lookup
 from .numba.invalid_values import get_invalid, get_max_valid, get_min_valid, is_valid
+from .rt_categorical import Categorical
 from .rt_fastarray import FastArray
 from .rt_grouping import Grouping
 from .rt_datetime import Date, DateTimeNano, DateTimeNanoScalar, TimeSpanScalar
@@ -1660,7 +1661,8 @@ def merge_asof2(
 
     def readonly_array_wrapper(arr: FastArray) -> FastArray:
         """Create a read-only view of an array."""
-        new_arr = FastArray(arr)
+        # A view of a Categorical would lose its categories.
+        new_arr = arr.copy(deep=False) if isinstance(arr, Categorical) else arr.view()
         new_arr.flags.writeable = False
         return new_arr
 
-- 
2.43.0


From 3eec23c47ee4309eb65b7300151c31165fb4ea3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:23 +0000
Subject: [PATCH 042/136] fix: Dataset.duplicated(keep='last') changed the
 grouping of a Categorical column

---
 riptable/rt_dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index e7ac0ce..2b67908 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -3613,8 +3613,8 @@ class Dataset(Struct):
             lastindex = ifirstgroup[-1] + ncountgroup[-1] - 1
 
             # skip invalid and shift everything
-            ilast = ifirstgroup[2:]
-            ilast -= 1
+            # not in place: the array may belong to the grouping of a Categorical column
+            ilast = ifirstgroup[2:] - 1
             result[igroup[ilast]] = False
 
             # set the last one
-- 
2.43.0


From 81775f35d405cafdc3ee56f116cb4d726f4aea32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:24 +0000
Subject: [PATCH 043/136] fix: nunique: skip missing dates, count False

---
 riptable/rt_fastarray.py | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 03b8ab9..2c3f551 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -3978,23 +3978,11 @@ class FastArray(np.ndarray):
         2
         """
         un = unique(self)
-        count = len(un)
-        if count > 0:
-            # unique is sorted, so check for sentinel based on dtype
-            inv = INVALID_DICT[self.dtype.num]
-            if self.dtype.char in NumpyCharTypes.AllFloat:
-                # check if last item is nan
-                if un[count - 1] != un[count - 1]:
-                    count -= 1
-            # unsigned int uses high number as sentinel
-            elif self.dtype.char in NumpyCharTypes.UnsignedInteger:
-                if un[count - 1] == inv:
-                    count -= 1
-            # all other sentinels are lowest number
-            else:
-                if un[0] == inv:
-                    count -= 1
-        return count
+        if self.dtype.char in "SU":
+            missing = un == INVALID_DICT[self.dtype.num]
+        else:
+            missing = un.isnan()
+        return len(un) - int(missing.sum())
 
     # -------------------------------------------------------
     def searchsorted(self, v, side="left", sorter=None) -> np.number:
-- 
2.43.0


From a8e5088c884e16bdce5b8ca4cbb4a74d23d6f901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:24 +0000
Subject: [PATCH 044/136] fix: isin of one value: compare 64-bit integers
 exactly

---
 riptable/rt_fastarray.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 2c3f551..2037624 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -1751,7 +1751,8 @@ class FastArray(np.ndarray):
 
         try:
             # optimization: if we have just one element, we can just parallel compare that one element
-            if len(test_elements) == 1:
+            # comparing signed with unsigned integers goes through floating point, which isn't exact
+            if len(test_elements) == 1 and {self.dtype.kind, test_elements.dtype.kind} != {"i", "u"}:
                 # string comparison to int will fail
                 result = self == test_elements[0]
                 # check for failed result
-- 
2.43.0


From 9a46ac8c156d84b67e17a8e2544879ac8df89baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:24 +0000
Subject: [PATCH 045/136] fix: lex grouping and multi-key ismember of arrays
 sliced with a step read the wrong elements

---
 riptable/rt_numpy.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 4a70f8a..7fe499c 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -1323,6 +1323,8 @@ def ismember(
                 return ismember(a[0], b[0], h)
 
             a, b = _ismember_align_multikey(a, b)
+            a = [_unstride(col) for col in a]
+            b = [_unstride(col) for col in b]
 
             return rc.MultiKeyIsMember32((a,), (b,), hint_size)
         else:
@@ -1876,7 +1878,7 @@ def _groupbycalculateall(*args):
     Each array has the length of unique_rows (Arg3)
     The returned arrays have the cells(accum operation) filled in
     """
-    args = ([_unstride_single(arr) for arr in args[0]],) + args[1:]
+    args = ([_unstride(arr) for arr in args[0]],) + args[1:]
     return LedgerFunction(rc.GroupByAll32, *args)
 
 
@@ -1897,7 +1899,7 @@ def _groupbycalculateallpack(*args):
     The returned arrays have the cells(accum operation) filled in
     """
 
-    args = ([_unstride_single(arr) for arr in args[0]],) + args[1:]
+    args = ([_unstride(arr) for arr in args[0]],) + args[1:]
     return LedgerFunction(rc.GroupByAllPack32, *args)
 
 
@@ -1986,12 +1988,13 @@ def groupbypack(ikey, ncountgroup, unique_count=None, cutoffs=None) -> dict:
 
 
 # -------------------------------------------------------
-def _unstride_single(arr):
+def _unstride(arr):
     """
-    A one row slice taken with a step is flagged contiguous by numpy but keeps its stride,
-    which the low level key routines reject.
+    Return a contiguous copy of a one-dimensional slice taken with a step, which the low level key
+    routines read as if it were contiguous or reject. A one row slice is flagged contiguous by numpy
+    but keeps its stride.
     """
-    if isinstance(arr, np.ndarray) and arr.shape == (1,) and arr.strides[0] != arr.itemsize:
+    if isinstance(arr, np.ndarray) and arr.ndim == 1 and len(arr) > 0 and arr.strides[0] != arr.itemsize:
         return arr.copy()
     return arr
 
@@ -2091,7 +2094,7 @@ def groupbyhash(
         if len(common_len) == 1:
             common_len = common_len.pop()
             if common_len != 0:
-                list_arrays = [_unstride_single(arr) for arr in list_arrays]
+                list_arrays = [_unstride(arr) for arr in list_arrays]
                 iKey, iFirstKey, unique_count = rc.MultiKeyGroupBy32(
                     list_arrays, hint_size, filter, hash_mode, cutoffs=cutoffs
                 )
@@ -2190,6 +2193,7 @@ def groupbylex(list_arrays, filter=None, cutoffs=None, base_index: int = 1, rec:
         if not isinstance(list_arrays[0], np.ndarray):
             raise ValueError("groupbylex first argument is not a list of numpy arrays")
 
+        list_arrays = [_unstride(arr) for arr in list_arrays]
         if len(list_arrays) > 1:
             # make a record array for greater comparison speed
             # TODO: future optimization - rotate in parallel
@@ -2233,7 +2237,6 @@ def groupbylex(list_arrays, filter=None, cutoffs=None, base_index: int = 1, rec:
                 }
 
         # lexsort
-        list_arrays = [_unstride_single(arr) for arr in list_arrays]
         if len(value_array) > 2e9:
             iGroup = rc.LexSort64(list_arrays, cutoffs=cutoffs, index=index)
         else:
@@ -2704,7 +2707,7 @@ def lexsort(*args, **kwargs) -> FastArray:
         firstarg = firstarg[0]
 
     args = tuple(
-        [_unstride_single(a) for a in arg] if isinstance(arg, list) else _unstride_single(arg) for arg in args
+        [_unstride(a) for a in arg] if isinstance(arg, list) else _unstride(arg) for arg in args
     )
 
     if isinstance(firstarg, np.ndarray):
-- 
2.43.0


From faad01029906ad2d111c6948e17f982354e9e03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:24 +0000
Subject: [PATCH 046/136] fix: ismember: never match values that change when
 converted to a common type; accept strided arrays

---
 riptable/rt_categorical.py |  4 ++++
 riptable/rt_numpy.py       | 49 +++++++++++++++++++++++++++++++-------
 2 files changed, 45 insertions(+), 8 deletions(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index edd88df..5e8bcbc 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -4237,7 +4237,11 @@ class Categorical(GroupByOps, FastArray):
         elif isinstance(x, (list, tuple)):
             if self.category_mode == CategoryMode.NumericArray and isinstance(x, list):
                 # user allowed to pass in floats as strings
+                # use the dtype of the categories, unless that changes the values
+                values_arr = np.asarray(x)
                 x = np.asarray(x, dtype=self.category_array.dtype)
+                if not np.array_equal(x, values_arr):
+                    x = values_arr
             x = np.array(x)
 
         # both ismember and == handle categorical specially
diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 7fe499c..484e74e 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -986,6 +986,33 @@ def unique(
         return ret
 
 
+def _ismember_coerce(a, b):
+    """
+    Convert two numeric arrays of different types to a common type to compare their values in ismember.
+
+    Returns
+    -------
+    a, b : arrays of the common type
+    keep_apart : None or a pair of flag arrays that differ wherever a value of `a` or `b` isn't representable
+        in the common type (a fraction, say), and so can't equal any value of the other array.
+    """
+    common_type = _get_lossless_common_array_type(a, b)
+    lossless = _find_lossless_common_type(a.dtype, b.dtype) is not None
+    result, flags = [], []
+    for arr, flag in ((a, 1), (b, 2)):
+        new_arr = arr if arr.dtype == common_type else arr.astype(common_type)
+        result.append(new_arr)
+        if not lossless:
+            old, new = arr.view(np.ndarray), new_arr.view(np.ndarray)
+            with np.errstate(invalid="ignore"):
+                changed = (new.astype(old.dtype) != old) | ((new < 0) != (old < 0))
+            flags.append((changed * flag).astype(np.int8).view(TypeRegister.FastArray))
+
+    if lossless or not (flags[0].view(np.ndarray).any() or flags[1].view(np.ndarray).any()):
+        return result[0], result[1], None
+    return result[0], result[1], tuple(flags)
+
+
 def _possibly_match_categoricals(a: "Categorical", b):
     """
     Parameters
@@ -1123,6 +1150,7 @@ def _ismember_align_multikey(a, b):
     if isinstance(b, list):
         b = b.copy()
 
+    extra_keys = []
     for idx, a_col in enumerate(a):
         b_col = b[idx]
         a_col = _as_fastarrays(a_col)
@@ -1172,13 +1200,15 @@ def _ismember_align_multikey(a, b):
             # cast if necessary
             if a_char != b_char:
                 # warnings.warn(f"Performance warning: numeric arrays in ismember had different dtypes {a.dtype} {b.dtype}")
-                common_type = _get_lossless_common_array_type(a_col, b_col)
-                a_col = a_col.astype(common_type, copy=False)
-                b_col = b_col.astype(common_type, copy=False)
+                a_col, b_col, keep_apart = _ismember_coerce(a_col, b_col)
+                if keep_apart is not None:
+                    extra_keys.append(keep_apart)
 
         a[idx] = a_col
         b[idx] = b_col
 
+    a = [*a, *(flags[0] for flags in extra_keys)]
+    b = [*b, *(flags[1] for flags in extra_keys)]
     return a, b
 
 
@@ -1382,13 +1412,16 @@ def ismember(
 
             # warnings.warn(f"Performance warning: numeric arrays in ismember had different dtypes {a.dtype} {b.dtype}")
             # raise TypeError('numeric arrays in ismember need to be the same dtype')
-            common_type = _get_lossless_common_array_type(a, b)
-            if a.dtype != common_type:
-                a = a.astype(common_type)
-            if b.dtype != common_type:
-                b = b.astype(common_type)
+            a, b, keep_apart = _ismember_coerce(a, b)
+            if keep_apart is not None:
+                a, b = [_unstride(a), keep_apart[0]], [_unstride(b), keep_apart[1]]
+                found, index = rc.MultiKeyIsMember32((a,), (b,), hint_size)
+                if base_index == 1:
+                    return int(not found.all()), where(found, index.astype(np.int32) + 1, 0)
+                return found, index
 
     # send to fastmath
+    a, b = _unstride(a), _unstride(b)
     if base_index == 1:
         return rc.IsMemberCategorical(a, b, h, hint_size)
     elif base_index is None or base_index == 0:
-- 
2.43.0


From 046f8d5a0ab427c199c6c969e67a470fcd03356a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:47 +0000
Subject: [PATCH 047/136] fix: astype of an array sliced with a step turned
 missing values into numbers

---
 riptable/rt_fastarray.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 2037624..ab04a5a 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -1416,11 +1416,11 @@ class FastArray(np.ndarray):
         # 19 = UNICODE string
         to_num = np.dtype(dtype).num
 
-        # check for contiguous in one or two dimensions
-        if self.flags.f_contiguous or self.flags.c_contiguous:
-            if order == "K" and subok and copy and self.dtype.num <= 13 and to_num <= 13:
-                # perform a safe conversion understanding sentinels
-                return TypeRegister.MathLedger._AS_FA_TYPE(self, to_num)
+        if order == "K" and subok and copy and self.dtype.num <= 13 and to_num <= 13:
+            # check for contiguous in one or two dimensions
+            arr = self if self.flags.f_contiguous or self.flags.c_contiguous else self.copy()
+            # perform a safe conversion understanding sentinels
+            return TypeRegister.MathLedger._AS_FA_TYPE(arr, to_num)
 
         # punt to numpy
         result = TypeRegister.MathLedger._ASTYPE(super(FastArray, self), dtype, order, casting, subok, copy)
-- 
2.43.0


From 591978e1e17987ed361879ef93de9f73d8a93bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:47 +0000
Subject: [PATCH 048/136] fix: reductions of arrays sliced with a step returned
 0 or raised

---
 riptable/rt_fastarray.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index ab04a5a..ad90447 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -2155,6 +2155,9 @@ class FastArray(np.ndarray):
             return result
 
         result = TypeRegister.MathLedger._REDUCE(self, reduceFunc)
+        if result is None and len(self) > 0 and not self.flags.contiguous:
+            # the reduction doesn't support slices taken with a step
+            result = TypeRegister.MathLedger._REDUCE(self.copy(), reduceFunc)
 
         # It's possible there was no result returned from the reduction function;
         # e.g. if the input was empty. If the function being called is well-defined
-- 
2.43.0


From 78b3dfc3750af5526f210c7797b1ce975e271765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:47 +0000
Subject: [PATCH 049/136] fix: mask_or_isnan and relatives missed invalid dates

---
 riptable/rt_dataset.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 2b67908..278a435 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -76,6 +76,7 @@ from .rt_numpy import (
     full,
     hstack,
     ismember,
+    isfinite,
     isnan,
     isnanorzero,
     isnotfinite,
@@ -4572,7 +4573,7 @@ class Dataset(Struct):
         >>> ds.mask_or_isnan()
         FastArray([False, True,  True])
         """
-        return self._mask_reduce(np.isnan, True)
+        return self._mask_reduce(isnan, True)
 
     def mask_and_isnan(self) -> FastArray:
         """
@@ -4609,7 +4610,7 @@ class Dataset(Struct):
         >>> ds.mask_and_isnan()
         FastArray([False, False,  True])
         """
-        return self._mask_reduce(np.isnan, False)
+        return self._mask_reduce(isnan, False)
 
     def mask_or_isfinite(self) -> FastArray:
         """
@@ -4662,7 +4663,7 @@ class Dataset(Struct):
         >>> ds.mask_or_isfinite()
         FastArray([ True,  True, False])
         """
-        return self._mask_reduce(np.isfinite, True)
+        return self._mask_reduce(isfinite, True)
 
     def mask_and_isfinite(self) -> FastArray:
         """
@@ -4715,7 +4716,7 @@ class Dataset(Struct):
         >>> ds.mask_and_isfinite()
         FastArray([ True, False, False])
         """
-        return self._mask_reduce(np.isfinite, False)
+        return self._mask_reduce(isfinite, False)
 
     def mask_or_isinf(self) -> FastArray:
         """
-- 
2.43.0


From 365700685940648e8136f00b3919d8de7a8c8dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:47 +0000
Subject: [PATCH 050/136] fix: fill_forward/fill_backward left invalid dates in
 place

---
 riptable/rt_fastarraynumba.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_fastarraynumba.py b/riptable/rt_fastarraynumba.py
index 7a1b9be..7e535f5 100644
--- a/riptable/rt_fastarraynumba.py
+++ b/riptable/rt_fastarraynumba.py
@@ -12,7 +12,7 @@ import numba as nb
 import numpy as np
 
 from .config import get_global_settings
-from .rt_enum import INVALID_DICT
+from .rt_enum import INVALID_DICT, TypeRegister
 from .rt_fastarray import FastArray
 from .rt_numpy import empty_like
 
@@ -132,6 +132,10 @@ def _check_fill_values(arr, fill_val, inplace: bool, limit: int):
 
     dtype = arr.dtype
     inv = INVALID_DICT[dtype.num]
+    if isinstance(arr, (TypeRegister.Date, TypeRegister.DateTimeNano)):
+        # dates have more than one invalid value, none of which is that of integers
+        inv = 0
+        arr[arr.isnan()] = inv
     inv = np.array([inv], dtype=dtype)[0]
 
     if fill_val is None:
-- 
2.43.0


From 5b85950f51ce1e3306c566b7f7ad5a686b122947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:47 +0000
Subject: [PATCH 051/136] fix: where: keep missing integers missing when numpy
 does the work

---
 riptable/rt_numpy.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 484e74e..0bfed51 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -3126,9 +3126,19 @@ def where(condition, x=None, y=None) -> FastArray | tuple[FastArray, ...]:
         if not np.isscalar(y) and len(y) == 0:
             raise ValueError(f"where: y must not be empty")
 
+        def _convert(arr):
+            # numpy doesn't know about invalids
+            if isinstance(arr, np.ndarray) and arr.dtype != common_dtype and arr.dtype.num <= 13 and common_dtype.num <= 13:
+                arr = arr.view(TypeRegister.FastArray).astype(common_dtype)
+            return arr
+
+        x, y = _convert(x), _convert(y)
         return LedgerFunction(np.where, condition, x, y)
 
     common_dtype = get_common_dtype(x, y)
+    if common_dtype == np.float16 and np.float16 not in (getattr(x, "dtype", None), getattr(y, "dtype", None)):
+        # small integers and a float scalar: numpy would return float64 here, but doesn't know about invalids
+        common_dtype = np.dtype(np.float64)
 
     if not isinstance(condition, np.ndarray):
         if condition is False or condition is True:
-- 
2.43.0


From 0f9dc6f2772aaad05c748aeaa79fbced838b945f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:59 +0000
Subject: [PATCH 052/136] fix: row-wise Dataset reductions no longer replace
 the Dataset's columns

---
 riptable/rt_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 278a435..e066041 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -6554,7 +6554,7 @@ class Dataset(Struct):
         if axis == 1:
             if fill_value is None:
                 # new fast path
-                return func(self.imatrix_make(), axis=1, **kwargs)
+                return func(self.imatrix_make(inplace=False), axis=1, **kwargs)
 
             if not any(noncomp):
                 # does not respect noncomputable cols.
-- 
2.43.0


From 8390d0d67f1125b01c6580108e7bc2a94db9e5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:59 +0000
Subject: [PATCH 053/136] fix: Dataset.quantile no longer drops the largest
 integer when values are missing

---
 riptable/rt_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_utils.py b/riptable/rt_utils.py
index ff89ee1..f54fa7f 100644
--- a/riptable/rt_utils.py
+++ b/riptable/rt_utils.py
@@ -832,7 +832,7 @@ def quantile(arr: Optional[np.ndarray], q: List[float] = None):
             # pick a subset removing the invalid
             notvalid = count - cvalid
             if arr_sort.dtype.char in NumpyCharTypes.Integer:
-                valid = arr_sort[notvalid:-1]
+                valid = arr_sort[notvalid:]
             else:
                 valid = arr_sort[0:cvalid]
 
-- 
2.43.0


From d59721af5f0d065ef0f91c5f735cdeb1fa686030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:59 +0000
Subject: [PATCH 054/136] fix: rt.nanmin/nanmax accept strided arrays and
 honour axis

---
 riptable/rt_numpy.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 0bfed51..9114bda 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -3656,7 +3656,10 @@ def nanmin(*args, **kwargs):
     else:
         # Call the implementation of this function in riptable_cpp via the Ledger class/dispatcher.
         if isinstance(firstarg, TypeRegister.FastArray):
-            result = TypeRegister.MathLedger._REDUCE(firstarg, REDUCE_FUNCTIONS.REDUCE_NANMIN)
+            if firstarg.size > 0:
+                result = firstarg.nanmin(**kwargs)
+            else:
+                result = TypeRegister.MathLedger._REDUCE(firstarg, REDUCE_FUNCTIONS.REDUCE_NANMIN)
         else:
             result = LedgerFunction(np.nanmin, *args, **kwargs)
 
@@ -3698,7 +3701,10 @@ def nanmax(*args, **kwargs):
     else:
         # Call the implementation of this function in riptable_cpp via the Ledger class/dispatcher.
         if isinstance(firstarg, TypeRegister.FastArray):
-            result = TypeRegister.MathLedger._REDUCE(firstarg, REDUCE_FUNCTIONS.REDUCE_NANMAX)
+            if firstarg.size > 0:
+                result = firstarg.nanmax(**kwargs)
+            else:
+                result = TypeRegister.MathLedger._REDUCE(firstarg, REDUCE_FUNCTIONS.REDUCE_NANMAX)
         else:
             result = LedgerFunction(np.nanmax, *args, **kwargs)
 
-- 
2.43.0


From 802cf1d08eadf0d80901a5bfdb51ca96c3a36370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:59 +0000
Subject: [PATCH 055/136] fix: nanmin/nanmax of dates and date-times skip every
 invalid value and keep the class

---
 riptable/rt_datetime.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index e549427..8a40986 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -1085,6 +1085,14 @@ class DateBase(FastArray):
 
         return result
 
+    # -------------------------------------------------------------
+    def nanmin(self, **kwargs):
+        return self[self.isnotnan()].min(**kwargs)
+
+    # -------------------------------------------------------------
+    def nanmax(self, **kwargs):
+        return self[self.isnotnan()].max(**kwargs)
+
     # -------------------------------------------------------------
     def min(self, **kwargs):
         """
@@ -5593,6 +5601,14 @@ class DateTimeNano(DateTimeBase, TimeStampBase, DateTimeCommon):
     def __lt__(self, other):
         return self._datetimenano_compare_check("__lt__", other)
 
+    # -------------------------------------------------------------
+    def nanmin(self, **kwargs):
+        return self[self.isnotnan()].min(**kwargs)
+
+    # -------------------------------------------------------------
+    def nanmax(self, **kwargs):
+        return self[self.isnotnan()].max(**kwargs)
+
     # -------------------------------------------------------------
     def min(self, **kwargs):
         """
-- 
2.43.0


From eaa8361257142fc016f06964c195f1d422adcfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:16 +0000
Subject: [PATCH 056/136] fix: mean, var, std and nansum of a matrix honour
 axis=0

---
 riptable/rt_fastarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index ad90447..bb16b9a 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -3178,7 +3178,7 @@ class FastArray(np.ndarray):
 
         if dtype is not None:
             kwargs["dtype"] = dtype
-        if axis:
+        if axis is not None and (axis or self.ndim > 1):
             kwargs["axis"] = axis
         if keepdims:
             kwargs["keepdims"] = keepdims
-- 
2.43.0


From a8d7c9be7410988f58ebb303b83366ced21282e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:16 +0000
Subject: [PATCH 057/136] fix: NumPy reductions of a FastArray no longer ignore
 positional arguments

---
 riptable/rt_fastarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index bb16b9a..47eed29 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -4557,7 +4557,7 @@ class FastArray(np.ndarray):
         # TODO:
         # kwargs of 'axis': None  'out': None should be accepted
 
-        if reduceFunc is not None and len(kwargs) == 0:
+        if reduceFunc is not None and len(args) == 1 and len(kwargs) == 0:
             # speed path (todo add call to ledger)
             # default to ddof=0 when no kwargs passed
             result = rc.Reduce(args[0], reduceFunc, 0)
-- 
2.43.0


From 9dfc9a9dae1b3a6225d90b88260e5b89758ce85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:16 +0000
Subject: [PATCH 058/136] fix: NaN-skipping reductions of integers skip
 invalids when ddof, axis or keepdims is given

---
 riptable/rt_fastarray.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 47eed29..ed02664 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -116,6 +116,20 @@ NUMPY_CONVERSION_TABLE: Mapping[Callable, REDUCE_FUNCTIONS] = {
     # np.all: REDUCE_FUNCTIONS.REDUCE_ALL,
 }
 
+# the reductions which skip invalids
+NAN_REDUCE_FUNCTIONS = frozenset(
+    (
+        REDUCE_FUNCTIONS.REDUCE_NANSUM,
+        REDUCE_FUNCTIONS.REDUCE_NANMEAN,
+        REDUCE_FUNCTIONS.REDUCE_NANVAR,
+        REDUCE_FUNCTIONS.REDUCE_NANSTD,
+        REDUCE_FUNCTIONS.REDUCE_NANMIN,
+        REDUCE_FUNCTIONS.REDUCE_NANMAX,
+        REDUCE_FUNCTIONS.REDUCE_NANARGMIN,
+        REDUCE_FUNCTIONS.REDUCE_NANARGMAX,
+    )
+)
+
 import math
 
 import numba as nb
@@ -2151,7 +2165,12 @@ class FastArray(np.ndarray):
             ]:
                 kwargs["ddof"] = 1
 
-            result = npFunc(self._np, *args, **kwargs)
+            arr = self._np
+            if reduceFunc in NAN_REDUCE_FUNCTIONS and arr.dtype.kind in "iu" and self.isnan().any():
+                # numpy does not recognize the integer invalid, but it does recognize nan
+                arr = self.astype(np.float64)._np
+
+            result = npFunc(arr, *args, **kwargs)
             return result
 
         result = TypeRegister.MathLedger._REDUCE(self, reduceFunc)
-- 
2.43.0


From 66d671297243b0c9b2f0d6b6a19c75e901d8957d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:16 +0000
Subject: [PATCH 059/136] fix: nanmean of an array without any valid value is
 nan, not 0

---
 riptable/rt_fastarray.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index ed02664..801e27f 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -2177,6 +2177,9 @@ class FastArray(np.ndarray):
         if result is None and len(self) > 0 and not self.flags.contiguous:
             # the reduction doesn't support slices taken with a step
             result = TypeRegister.MathLedger._REDUCE(self.copy(), reduceFunc)
+        if reduceFunc == REDUCE_FUNCTIONS.REDUCE_NANMEAN and result == 0 and self.isnan().all():
+            # no element contributed to the mean
+            result = np.nan
 
         # It's possible there was no result returned from the reduction function;
         # e.g. if the input was empty. If the function being called is well-defined
@@ -4580,6 +4583,9 @@ class FastArray(np.ndarray):
             # speed path (todo add call to ledger)
             # default to ddof=0 when no kwargs passed
             result = rc.Reduce(args[0], reduceFunc, 0)
+            if reduceFunc == REDUCE_FUNCTIONS.REDUCE_NANMEAN and result == 0 and self.isnan().all():
+                # no element contributed to the mean
+                result = np.nan
 
             if result is not None:
                 # TypeRegister.MathLedger._REDUCE(args[0], newfunc)
-- 
2.43.0


From c5187827a8f4846122b7315248907215e54c784f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:54 +0000
Subject: [PATCH 060/136] fix: variance of large values in arrays of 32768 or
 more elements is no longer nan

---
 riptable/rt_fastarray.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 801e27f..b70db85 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -2177,6 +2177,12 @@ class FastArray(np.ndarray):
         if result is None and len(self) > 0 and not self.flags.contiguous:
             # the reduction doesn't support slices taken with a step
             result = TypeRegister.MathLedger._REDUCE(self.copy(), reduceFunc)
+        if isinstance(result, float) and result != result and npFunc in (np.var, np.nanvar, np.std, np.nanstd):
+            # over a large array the fast variance of large values may be lost to cancellation
+            arr = self.astype(np.float64)._np if reduceFunc in NAN_REDUCE_FUNCTIONS else self._np
+            with warnings.catch_warnings(), np.errstate(all="ignore"):
+                warnings.simplefilter("ignore", RuntimeWarning)
+                result = float(npFunc(arr, ddof=1))
         if reduceFunc == REDUCE_FUNCTIONS.REDUCE_NANMEAN and result == 0 and self.isnan().all():
             # no element contributed to the mean
             result = np.nan
-- 
2.43.0


From ff15947f84bc10f71db843fec853b2773129b164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:59 +0000
Subject: [PATCH 061/136] fix: differs and transitions are right for strided
 and string arrays

---
 riptable/rt_fastarray.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index b70db85..a64c482 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -4153,7 +4153,16 @@ class FastArray(np.ndarray):
         if periods == 0:
             raise ValueError("periods of 0 is invalid for transitions")
 
-        if periods > 0:
+        if self.dtype.num > 13 or not self.flags.contiguous:
+            # the fast comparison only writes into the result for contiguous numeric arrays
+            arr = self._np
+            compare = np.equal if math_op == MATH_OPERATION.CMP_EQ else np.not_equal
+            result.fill(False)
+            if periods > 0:
+                result._np[periods:] = compare(arr[periods:], arr[:-periods])
+            else:
+                result._np[:periods] = compare(arr[:periods], arr[-periods:])
+        elif periods > 0:
             TypeRegister.MathLedger._BASICMATH_TWO_INPUTS(
                 (self[periods:], self[:-periods], result[periods:]), math_op, 0
             )
@@ -4230,11 +4239,6 @@ class FastArray(np.ndarray):
         FastArray([False, False, False, False, False, False, False, False, False,
                    False, False])
         """
-        if self.dtype.num > 13:
-            result = self != self.shift(periods)
-            if fancy:
-                return bool_to_fancy(result)
-            return result
         return self._internal_self_compare(MATH_OPERATION.CMP_EQ, periods=periods, fancy=fancy)
 
     # ---------------------------------------------------------------------------
@@ -4261,11 +4265,6 @@ class FastArray(np.ndarray):
         >>> a.transitions(periods=-1)
         FastArray([ True, True, True, False, False, True, False])
         """
-        if self.dtype.num > 13:
-            result = self != self.shift(periods)
-            if fancy:
-                return bool_to_fancy(result)
-            return result
         return self._internal_self_compare(MATH_OPERATION.CMP_NE, periods=periods, fancy=fancy)
 
     # -------------------------------------------------------
-- 
2.43.0


From 9dfad96c54d36a8f3632a5517881d7a3088dbf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:59 +0000
Subject: [PATCH 062/136] fix: timewindow_sum and timewindow_prod honour
 strides

---
 riptable/rt_fastarray.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index a64c482..9a9e95c 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -2654,11 +2654,15 @@ class FastArray(np.ndarray):
         return rc.Rolling(self, ROLLING_FUNCTIONS.ROLLING_STD, window)
 
     def rolling_nanstd(self, window: int = 3) -> FastArray:
-        return rc.Rolling(self, ROLLING_FUNCTIONS.ROLLING_NANSTD, window)
+        return rc.Rolling(self._rolling_nan_input(), ROLLING_FUNCTIONS.ROLLING_NANSTD, window)
 
     #############################################
     # TimeWindow section (cannot handle strides), time_array must be INT64
     #############################################
+    def _timewindow_input(self, time_array):
+        """the time window functions ignore strides"""
+        return tuple(arr if arr.flags.contiguous else arr.copy() for arr in (self, time_array))
+
     def timewindow_sum(self, time_array, time_dist):
         """
         The input array must be int64 and sorted with ever increasing values.
@@ -2676,7 +2680,8 @@ class FastArray(np.ndarray):
         FastArray([ 0,  1,  3,  6, 10, 15, 21, 27, 33, 39], dtype=int64)
 
         """
-        return rc.TimeWindow(self, time_array, TIMEWINDOW_FUNCTIONS.TIMEWINDOW_SUM, time_dist)
+        arr, time_array = self._timewindow_input(time_array)
+        return rc.TimeWindow(arr, time_array, TIMEWINDOW_FUNCTIONS.TIMEWINDOW_SUM, time_dist)
 
     def timewindow_prod(self, time_array, time_dist):
         """
-- 
2.43.0


From 858b5054c5f80138fe4233e63c1bd52dbcdc9654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:59 +0000
Subject: [PATCH 063/136] fix: rolling nan functions skip integer invalids

---
 riptable/rt_fastarray.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 9a9e95c..176c5ba 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -2627,17 +2627,23 @@ class FastArray(np.ndarray):
     #############################################
     # Rolling section (cannot handle strides)
     #############################################
+    def _rolling_nan_input(self) -> FastArray:
+        """rolling functions only recognize nan as an invalid"""
+        if self.dtype.char in NumpyCharTypes.AllInteger and self.isnan().any():
+            return self.astype(np.float64)
+        return self
+
     def rolling_sum(self, window: int = 3) -> FastArray:
         return rc.Rolling(self, ROLLING_FUNCTIONS.ROLLING_SUM, window)
 
     def rolling_nansum(self, window: int = 3) -> FastArray:
-        return rc.Rolling(self, ROLLING_FUNCTIONS.ROLLING_NANSUM, window)
+        return rc.Rolling(self._rolling_nan_input(), ROLLING_FUNCTIONS.ROLLING_NANSUM, window)
 
     def rolling_mean(self, window: int = 3) -> FastArray:
         return rc.Rolling(self, ROLLING_FUNCTIONS.ROLLING_MEAN, window)
 
     def rolling_nanmean(self, window: int = 3) -> FastArray:
-        return rc.Rolling(self, ROLLING_FUNCTIONS.ROLLING_NANMEAN, window)
+        return rc.Rolling(self._rolling_nan_input(), ROLLING_FUNCTIONS.ROLLING_NANMEAN, window)
 
     def rolling_quantile(self, q, window: int = 3) -> FastArray:
         window = min(window, len(self))
@@ -2648,7 +2654,7 @@ class FastArray(np.ndarray):
         return rc.Rolling(self, ROLLING_FUNCTIONS.ROLLING_VAR, window)
 
     def rolling_nanvar(self, window: int = 3) -> FastArray:
-        return rc.Rolling(self, ROLLING_FUNCTIONS.ROLLING_NANVAR, window)
+        return rc.Rolling(self._rolling_nan_input(), ROLLING_FUNCTIONS.ROLLING_NANVAR, window)
 
     def rolling_std(self, window: int = 3) -> FastArray:
         return rc.Rolling(self, ROLLING_FUNCTIONS.ROLLING_STD, window)
@@ -2699,7 +2705,8 @@ class FastArray(np.ndarray):
         >>> a.timewindow_prod(a,5)
         FastArray([    0,     0,     0,     0,     0,     0,   720,  5040, 20160, 60480], dtype=int64)
         """
-        return rc.TimeWindow(self, time_array, TIMEWINDOW_FUNCTIONS.TIMEWINDOW_PROD, time_dist)
+        arr, time_array = self._timewindow_input(time_array)
+        return rc.TimeWindow(arr, time_array, TIMEWINDOW_FUNCTIONS.TIMEWINDOW_PROD, time_dist)
 
     #############################################
     # Bottleneck section (only handles int32/int64/float32/float64)
-- 
2.43.0


From 9fd88868af2210d7a7eb87c76732d18b1698db0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:59 +0000
Subject: [PATCH 064/136] fix: diff of dates, date-times and spans yields
 invalid next to an invalid and keeps the span class

---
 riptable/rt_datetime.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 8a40986..bd8059c 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -1402,6 +1402,8 @@ class Date(DateBase, TimeStampBase):
         DateSpan
         """
         result = self._fa.diff(periods=periods)
+        invalid = self.isnan()
+        result[invalid | invalid.shift(periods)] = DateSpan.NAN_DATE
         return DateSpan(result)
 
     # ------------------------------------------------------------
@@ -2901,6 +2903,13 @@ class DateSpan(DateBase):
 
         return arr
 
+    # ------------------------------------------------------------
+    def diff(self, periods=1):
+        result = self._fa.diff(periods=periods)
+        invalid = self.isnan()
+        result[invalid | invalid.shift(periods)] = self.NAN_DATE
+        return DateSpan(result)
+
     # ------------------------------------------------------------
     def fill_invalid(self, shape=None, dtype=None, inplace=True):
         arr = self._fill_invalid_internal(shape=shape, dtype=self.dtype, inplace=inplace)
@@ -5746,7 +5755,10 @@ class DateTimeNano(DateTimeBase, TimeStampBase, DateTimeCommon):
         >>> dtn.diff(periods=6)
         TimeSpan(['Inv', 'Inv', 'Inv', 'Inv', 'Inv', 'Inv'])
         """
-        return TimeSpan(self._fa.diff(periods=periods).astype(np.float64))
+        result = self._fa.diff(periods=periods).astype(np.float64)
+        invalid = self.isnan()
+        result[invalid | invalid.shift(periods)] = np.nan
+        return TimeSpan(result)
 
     # -------------------------------------------------------------
     def __radd__(self, other):
@@ -7258,6 +7270,10 @@ class TimeSpan(TimeSpanBase, DateTimeBase):
         """
         return hstack_any(tspans, cls, TimeSpan)
 
+    # ------------------------------------------------------------
+    def diff(self, periods=1):
+        return TimeSpan(self._fa.diff(periods=periods))
+
     # ------------------------------------------------------------
     def fill_invalid(self, shape=None, dtype=None, inplace=True):
         arr = self._fill_invalid_internal(shape=shape, dtype=self.dtype, inplace=inplace)
-- 
2.43.0


From b29bfa51ae8f08bb7cc19d0e3de212b0c02dde0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:19 +0000
Subject: [PATCH 065/136] fix: where() with a one-character bytes scalar wrote
 the character's code

---
 riptable/rt_numpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 9114bda..4d1a511 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -3190,7 +3190,7 @@ def where(condition, x=None, y=None) -> FastArray | tuple[FastArray, ...]:
 
             # check if can make like a scalar
             try:
-                if len(arr) == 1:
+                if len(arr) == 1 and not isinstance(arr, (bytes, str)):
                     # print("array len1 detected")
                     if common_dtype.char in NumpyCharTypes.AllFloat:
                         arr = float(arr[0])
-- 
2.43.0


From ae3f9c801d19f7707cad532274da583976bfba7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:20 +0000
Subject: [PATCH 066/136] fix: where() read strided inputs as if contiguous

---
 riptable/rt_numpy.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 4d1a511..f8fe320 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -3220,7 +3220,13 @@ def where(condition, x=None, y=None) -> FastArray | tuple[FastArray, ...]:
         x = _possibly_convert(x)
         y = _possibly_convert(y)
 
-        # call down into C++ version of where.
+        # call down into C++ version of where, which does not follow strides.
+        if not condition.flags.c_contiguous:
+            condition = condition.copy()
+        if isinstance(x, np.ndarray) and not x.flags.c_contiguous:
+            x = x.copy()
+        if isinstance(y, np.ndarray) and not y.flags.c_contiguous:
+            y = y.copy()
         # result will be None if operation is not supported.
         result = rc.Where(condition, (x, y), common_dtype.num, common_dtype.itemsize)
         if result is not None:
-- 
2.43.0


From e749542aaa6eb854a0d9fdee5b080f7578dc12b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:20 +0000
Subject: [PATCH 067/136] fix: putmask() read and wrote strided arrays as if
 contiguous

---
 riptable/rt_numpy.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index f8fe320..547defc 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -4821,8 +4821,14 @@ def putmask(a, mask, values) -> FastArray:
         # BUG what about categoricals, etc
         return a.putmask(mask, values)
     except:
+        # the C++ version does not follow strides
+        if isinstance(mask, np.ndarray) and not mask.flags.c_contiguous:
+            mask = mask.copy()
+        if isinstance(values, np.ndarray) and not values.flags.c_contiguous:
+            values = values.copy()
+        strided = isinstance(a, np.ndarray) and not a.flags.c_contiguous
         # false is returned on failure
-        if not rc.PutMask(a, mask, values):
+        if strided or not rc.PutMask(a, mask, values):
             # final attempt use numpy
             return np.putmask(a, mask, values)
 
-- 
2.43.0


From 4b4e28e763ea3c4ff51debfe844caa446a0cfb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:20 +0000
Subject: [PATCH 068/136] fix: interp() and interp_extrap() read strided inputs
 as if contiguous

---
 riptable/rt_numpy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 547defc..5258d25 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -5488,6 +5488,7 @@ def interp(x, xp, fp):
         warnings.warn("rt.interp is downcasting to a float32 to match first array", stacklevel=2)
         xp = xp.astype(np.float32)
         fp = fp.astype(np.float32)
+    x, xp, fp = [arr if arr.flags.c_contiguous else arr.copy() for arr in (x, xp, fp)]
     return rc.InterpExtrap2d(x, xp, fp, 1)
 
 
@@ -5510,6 +5511,7 @@ def interp_extrap(x, xp, fp):
     * riptable version handles floats or doubles, wheras np is always a double
     * 2d mode is auto-detected based on `xp`/`fp`
     """
+    x, xp, fp = [arr if arr.flags.c_contiguous else arr.copy() for arr in (x, xp, fp)]
     return rc.InterpExtrap2d(x, xp, fp, 0)
 
 
-- 
2.43.0


From 3ee426f1b57cb819a221c1b2531c52072ab28c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:20 +0000
Subject: [PATCH 069/136] fix: bool_to_fancy() read a strided mask as if
 contiguous

---
 riptable/rt_numpy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 5258d25..aa9ba22 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -5601,6 +5601,8 @@ def bool_to_fancy(arr: np.ndarray, both: bool = False) -> FastArray:
     """
     if isinstance(arr, np.ndarray):
         if arr.dtype.char == "?":
+            if not arr.flags.c_contiguous:
+                arr = arr.copy()
             return rc.BooleanToFancy(arr, both=both)
         else:
             raise TypeError(f"Input array must be boolean. Got {arr.dtype}")
-- 
2.43.0


From 35c4ed2abde8f7260f52f49a77467e6898033ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:20 +0000
Subject: [PATCH 070/136] fix: mask_and/or/xor/andnot refused strided masks

---
 riptable/rt_numpy.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index aa9ba22..0fd4580 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -5682,7 +5682,14 @@ def _mask_op(bool_list, funcNum, inplace=False):
     if dtype != 0:
         raise TypeError(f"Must all be boolean types")
 
-    # we have at least two items
+    # we have at least two items, and the C++ version does not follow strides
+    strided = None
+    if inplace and isinstance(bool_list[0], np.ndarray) and not bool_list[0].flags.c_contiguous:
+        strided = bool_list[0]
+    bool_list = [
+        v.copy() if isinstance(v, np.ndarray) and v.ndim == 1 and not v.flags.c_contiguous else v for v in bool_list
+    ]
+
     # grabbing the func pointer speeds things up in testing
     ledgerFunc = TypeRegister.MathLedger._BASICMATH_TWO_INPUTS
 
@@ -5711,6 +5718,10 @@ def _mask_op(bool_list, funcNum, inplace=False):
             # this will do inplace
             func((result, bool_list[i], result), funcNum, 0)
             i += 1
+
+        if strided is not None:
+            strided[:] = result
+            result = strided
     else:
         result = func((bool_list[0], bool_list[1]), funcNum, 0)
         i = 2
-- 
2.43.0


From 5fd72cd42c9b7fe18d9dd2a07e71a1cd60acd3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:04 +0000
Subject: [PATCH 071/136] fix: ufuncs of an unsigned array and a negative
 scalar wrapped the scalar

---
 riptable/rt_fastarray.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 176c5ba..35700f1 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -334,7 +334,10 @@ def logical_find_common_type(arraytypes, scalartypes, scalarval):
     scalarval = int(scalarval)
 
     # Determine the possible integer upscaling based on the scalar value
-    if unsigned:
+    if unsigned and scalarval < 0:
+        # no unsigned type can hold the scalar
+        return np.promote_types(array, np.min_scalar_type(scalarval))
+    elif unsigned:
         if scalarval <= 255:
             final = np.uint8
         elif scalarval <= 65535:
-- 
2.43.0


From f119ef9aab6a70279f95ff3b8f983ed393d0dd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:22 +0000
Subject: [PATCH 072/136] fix: a Dataset saved with a sort view read its sort
 index from the wrong array, lost the directions, and crashed when loaded
 selectively

---
 riptable/rt_struct.py | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/riptable/rt_struct.py b/riptable/rt_struct.py
index 63f8d57..a05e03c 100644
--- a/riptable/rt_struct.py
+++ b/riptable/rt_struct.py
@@ -986,6 +986,7 @@ class Struct:
             "item_meta": [],  # list of special fastarray metadata strings
             "labels": self.label_get_names(),
             "_col_sortlist": self._col_sortlist,
+            "_sort_ascending": np.asarray(self._sort_ascending).tolist(),
             "footers": [],
         }
         return metadict
@@ -1182,6 +1183,7 @@ class Struct:
                 "item_meta": [],  # list of special fastarray metadata strings
                 "labels": self.label_get_names(),
                 "_col_sortlist": self._col_sortlist,
+                "_sort_ascending": np.asarray(self._sort_ascending).tolist(),
                 "footers": [],
             }
         )
@@ -1295,18 +1297,16 @@ class Struct:
                 meta_tups.append(t)
                 all_tups.append(t)
 
-        # get sorted row index (Dataset only)
-        if hasattr(self, "get_row_sort_info"):
-            sort_id = self.get_row_sort_info()
-            sort_idx = TypeRegister.SortCache.get_sorted_row_index(*sort_id)
-            if sort_idx is not None:
-                items.append(sort_idx)
+        # the sorted row index is not saved: it follows from the sort columns, and an array which is not one of the
+        # named items cannot be loaded selectively
 
         # get footers (currently only implemented for Accum2 result)
         if hasattr(self, "_footers"):
             for k, v in self._footers.items():
-                meta["footers"].append(k)
-                items.append(v)
+                # the values of a label without an array are kept by the columns
+                if v is not None:
+                    meta["footers"].append(k)
+                    items.append(v)
 
         # test for loading items in order with tuples only
         # TJD remove this by July 2019 since it is no longer checked
@@ -1600,7 +1600,7 @@ class Struct:
         All (if any) meta data will be read from 'item_meta' in meta object, and FastArray subclasses will be constructed.
         The container object will be constructed from the dictionary.
         Any labels (gbkeys) will be set.
-        If sorted column names exist, they will be set, and the sorted index will be added to the SortCache.
+        If sorted column names exist, they will be set.
 
         Parameters
         ----------
@@ -1616,18 +1616,24 @@ class Struct:
         # currently getting removed from root struct only
 
         def load_class_meta(data, arrays, meta):
-            arr_idx = 0
+            # these arrays follow the items
+            arr_idx = len(meta_tups)
             data.label_set_names(meta["labels"])
 
-            # send the sort index to the SortCache
             data._col_sortlist = meta.get("_col_sortlist", None)
             if data._col_sortlist is not None:
-                # if a sorted index exists, it's the last array in the list
-                uid = data._uniqueid
-                sortlist = [data[col] for col in data._col_sortlist]
-                sortidx = arrays[arr_idx]
-                TypeRegister.SortCache.store_sort(uid, sortlist, sortidx, data._sort_ascending)
-                arr_idx += 1
+                ascending = meta.get("_sort_ascending", None)
+                if ascending is None:
+                    # files without the directions hold a sorted row index, which does not say how it was sorted
+                    arr_idx += 1
+                    ascending = True
+                elif isinstance(ascending, list):
+                    ascending = TypeRegister.FastArray(ascending)
+                data._sort_ascending = ascending
+                if any(col not in data for col in data._col_sortlist):
+                    # not all of the sort columns were loaded
+                    data._col_sortlist = None
+                    data._sort_ascending = True
 
             # attach footers (accum2 operation results)
             if len(meta["footers"]) > 0:
-- 
2.43.0


From 7dcac0f03393df668af56ff4f76420bcc40fcf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:22 +0000
Subject: [PATCH 073/136] fix: the sort cache reused the order of a column with
 the same bytes and another type

---
 riptable/rt_sort_cache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_sort_cache.py b/riptable/rt_sort_cache.py
index 5490f28..3cf78b7 100644
--- a/riptable/rt_sort_cache.py
+++ b/riptable/rt_sort_cache.py
@@ -33,7 +33,7 @@ class SortCache(object):
         """
         crcvals = []
         for c in sortlist:
-            crcvals.append(crc64(c))
+            crcvals.append((c.dtype, crc64(c)))
         cls._cache[uid] = (crcvals, sortidx, len(sortidx), ascending)
 
     @classmethod
@@ -42,7 +42,7 @@ class SortCache(object):
             sortlist = list(sortdict.values())
 
             # perform a crc on known sorted values and remember the crc
-            crcvals = [crc64(vals) for vals in sortlist]
+            crcvals = [(vals.dtype, crc64(vals)) for vals in sortlist]
 
             def _cached():
                 if not (uid in cls._cache):
-- 
2.43.0


From 22a52dbe0d7e6641f18f2c7f60933244e9d1e6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:22 +0000
Subject: [PATCH 074/136] fix: a copy of a sorted view paired sort columns with
 the wrong directions

---
 riptable/rt_dataset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index e066041..750b00d 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -712,10 +712,11 @@ class Dataset(Struct):
                     ds._col_sortlist = new_sortlist
                     ds._sort_ascending = self._sort_ascending
             else:
-                new_sort = [(_k, _v) for _k, _v in zip(self._col_sortlist, self._sort_ascending) if _k in ds]
+                # the directions are kept last column first
+                new_sort = [(_k, _v) for _k, _v in zip(self._col_sortlist, self._sort_ascending[::-1]) if _k in ds]
                 if len(new_sort) > 0:
                     ds._col_sortlist = [x[0] for x in new_sort]
-                    ds._sort_ascending = [x[1] for x in new_sort]
+                    ds._sort_ascending = TypeRegister.FastArray([x[1] for x in new_sort[::-1]])
 
             ds._sort_display = self._sort_display
 
-- 
2.43.0


From 74c8fe4c806cc336c3accbd0eb26f27dd5fe51a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:22 +0000
Subject: [PATCH 075/136] fix: sort_copy failed when the Dataset has footers

---
 riptable/rt_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 750b00d..e3e4b72 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -4124,7 +4124,7 @@ class Dataset(Struct):
                 if hasattr(self, "_footers"):
                     footers = {}
                     for f, item in self._footers.items():
-                        footers[f] = item.copy()
+                        footers[f] = item.copy() if item is not None else None
                     newds._footers = footers
 
                 return newds
-- 
2.43.0


From edfe6b6c63f4f729b93b9a3ff20b7f4d9f9e2d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:22 +0000
Subject: [PATCH 076/136] fix: sort_view kept the caller's list of columns and
 renames changed it

---
 riptable/rt_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index e3e4b72..bb0bcb9 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -4132,7 +4132,7 @@ class Dataset(Struct):
         # if drops into here, sort_view was called
 
         self._sort_ascending = ascending
-        self._col_sortlist = bylist
+        self._col_sortlist = list(bylist)
         self.sorts_on()
 
         # TJD New code.. once display, turn sorts_off
-- 
2.43.0


From 76e25ae667013519740ba2f0297ffb7b8c01e051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:22 +0000
Subject: [PATCH 077/136] fix: get_sorted_col_data of an unsorted Dataset lost
 the class of the column

---
 riptable/rt_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index bb0bcb9..68a940a 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -5361,7 +5361,7 @@ class Dataset(Struct):
             if sorted_row_idx is not None:
                 return col[sorted_row_idx]
             else:
-                return np.copy(col)
+                return col.copy()
         else:
             print(str(col_name), "not found in dataset.")
 
-- 
2.43.0


From 09665acf5bc2ee3cdc814cab22c49bd5459a2a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:22 +0000
Subject: [PATCH 078/136] fix: crc32c and crc64, and with them sort views,
 refused strided arrays

---
 riptable/rt_numpy.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 0fd4580..eace40c 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -2577,12 +2577,9 @@ def crc32c(arr: np.ndarray) -> int:
     -------
     int
         The 32-bit CRC value calculated from the array data.
-
-    Notes
-    -----
-    TODO: Warn when the array has non-default striding, as that is not currently respected by
-        the implementation of this function.
     """
+    if not arr.flags.c_contiguous:
+        arr = arr.copy()
     return rc.CalculateCRC(arr)
 
 
-- 
2.43.0


From 18b8dc1aa0092ddeb3eecb10be506d07979eb360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:22 +0000
Subject: [PATCH 079/136] fix: lexsort ignored the directions when given as a
 list

---
 riptable/rt_numpy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index eace40c..3f43dd2 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -2741,6 +2741,9 @@ def lexsort(*args, **kwargs) -> FastArray:
     )
 
     if isinstance(firstarg, np.ndarray):
+        # the C++ version reads an array of flags and ignores any other sequence
+        if isinstance(kwargs.get("ascending"), (list, tuple)):
+            kwargs["ascending"] = TypeRegister.FastArray(kwargs["ascending"], dtype=bool)
         # make sure fastarray
         # also if arraysize > 2billiom call LexSort64 instead
         if firstarg.size > 2e9:
-- 
2.43.0


From 8a4d6f79ad3854cfd0925cc7477521eec4ccf5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:55 +0000
Subject: [PATCH 080/136] fix: hstack of a single Date or DateTimeNano array
 returns the array, not the list

---
 riptable/rt_hstack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_hstack.py b/riptable/rt_hstack.py
index c4cb7a7..d51dfa8 100644
--- a/riptable/rt_hstack.py
+++ b/riptable/rt_hstack.py
@@ -745,10 +745,10 @@ def _hstack_datetimenano(dtlist, destroy=False):
         if dt._timezone._timezone_str != timezone:
             raise NotImplementedError(f"Can only hstack DateTimeNano objects in the same timezone.")
     if len(dtlist) == 1:
-        return dtlist
+        return dtlist[0]
 
     # hstack int64 utc nano arrays
-    arr = rc.HStack(dtlist)
+    arr = rc.HStack([_unstride(arr) for arr in dtlist])
 
     # reconstruct with first item
     return TypeRegister.DateTimeNano.newclassfrominstance(arr, dtlist[0])
-- 
2.43.0


From 8af53c54ad5c86425cef1d669de37df6ca4101f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:55 +0000
Subject: [PATCH 081/136] fix: hstack copies slices taken with a step instead
 of failing or losing missing values

---
 riptable/rt_hstack.py | 10 +++++-----
 riptable/rt_numpy.py  |  3 ++-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/riptable/rt_hstack.py b/riptable/rt_hstack.py
index d51dfa8..5232f21 100644
--- a/riptable/rt_hstack.py
+++ b/riptable/rt_hstack.py
@@ -9,7 +9,7 @@ import riptide_cpp as rc
 
 from .rt_enum import CategoryMode, NumpyCharTypes, TypeRegister, int_dtype_from_len
 from .rt_grouping import hstack_groupings, merge_cats
-from .rt_numpy import arange, empty, hstack
+from .rt_numpy import _unstride, arange, empty, hstack
 
 
 def hstack_any(
@@ -658,7 +658,7 @@ def _hstack_categorical(cats: list, verbose: bool = False, destroy: bool = False
     # todo: see _multistack_categoricals int rt_sds.py
     # stack indices
     # this will stack the fastarrays
-    indices = rc.HStack(cats)
+    indices = rc.HStack([_unstride(arr) for arr in cats])
     idx_cutoffs = TypeRegister.FastArray([len(c._fa) for c in cats], dtype=np.int64).cumsum()
 
     # ------------------------- start rebuild here
@@ -761,7 +761,7 @@ def _hstack_timespan(tspans, destroy=False):
     This is a very simple class, rewrap the hstack result in class.
     NOTE: destroy ignored
     """
-    ts = rc.HStack(tspans)
+    ts = rc.HStack([_unstride(arr) for arr in tspans])
     return TypeRegister.TimeSpan(ts)
 
 
@@ -806,9 +806,9 @@ def _hstack_date_internal(dates, subclass=TypeRegister.Date):
             # maybe extend this to support stacking with regular DateTimeNano objects?
             raise TypeError(f"Could not perform Date.hstack() on item of type {type(d)}")
     if len(dates) == 1:
-        return dates
+        return dates[0]
 
-    stacked = rc.HStack(dates)
+    stacked = rc.HStack([_unstride(arr) for arr in dates])
     return subclass.newclassfrominstance(stacked, dates[0])
 
 
diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 3f43dd2..2681fe0 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -5772,7 +5772,8 @@ def hstack(tup: Sequence[np.ndarray], dtype: Optional[Union[str, type, np.dtype]
             dtypenum = np.dtype(dtype).num
 
     try:
-        hstack_result = rc.HStack(tup, dtypenum)
+        # a slice taken with a step is refused by the low level routine
+        hstack_result = rc.HStack([_unstride(a) for a in tup], dtypenum)
     except:
         hstack_result = np.hstack(tup)
 
-- 
2.43.0


From d2c902546d51fa59dc80e9b9cb13d6e07d9f01fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:53 +0000
Subject: [PATCH 082/136] fix: daylight savings tables of Dublin before 1981
 and Sydney before 2008 follow the time zone database

---
 riptable/rt_timezone.py | 357 ++++++++++++++++++++--------------------
 1 file changed, 175 insertions(+), 182 deletions(-)

diff --git a/riptable/rt_timezone.py b/riptable/rt_timezone.py
index 50e920a..5ff3f63 100644
--- a/riptable/rt_timezone.py
+++ b/riptable/rt_timezone.py
@@ -311,24 +311,27 @@ NYC_OFFSET_NS = 5 * NANOS_PER_HOUR
 
 DST_CUTOFFS_DUBLIN = FastArray(
     [
+        # Ireland was an hour ahead of GMT all year round until October 1971
+        "1970-01-01 00:00:00",
+        "1971-10-31 03:00:00",
         "1972-03-19 02:00:00",
-        "1972-10-29 02:00:00",
+        "1972-10-29 03:00:00",
         "1973-03-18 02:00:00",
-        "1973-10-28 02:00:00",
+        "1973-10-28 03:00:00",
         "1974-03-17 02:00:00",
-        "1974-10-27 02:00:00",
+        "1974-10-27 03:00:00",
         "1975-03-16 02:00:00",
-        "1975-10-26 02:00:00",
+        "1975-10-26 03:00:00",
         "1976-03-21 02:00:00",
-        "1976-10-24 02:00:00",
+        "1976-10-24 03:00:00",
         "1977-03-20 02:00:00",
-        "1977-10-23 02:00:00",
+        "1977-10-23 03:00:00",
         "1978-03-19 02:00:00",
-        "1978-10-29 02:00:00",
+        "1978-10-29 03:00:00",
         "1979-03-18 02:00:00",
-        "1979-10-28 02:00:00",
+        "1979-10-28 03:00:00",
         "1980-03-16 02:00:00",
-        "1980-10-26 02:00:00",
+        "1980-10-26 03:00:00",
         "1981-03-29 02:00:00",
         "1981-10-25 02:00:00",
         "1982-03-28 02:00:00",
@@ -454,24 +457,27 @@ DST_CUTOFFS_DUBLIN = FastArray(
 
 DST_REVERSE_DUBLIN = FastArray(
     [
-        "1972-03-19 01:00:00",
-        "1972-10-29 01:00:00",
-        "1973-03-18 01:00:00",
-        "1973-10-28 01:00:00",
-        "1974-03-17 01:00:00",
-        "1974-10-27 01:00:00",
-        "1975-03-16 01:00:00",
-        "1975-10-26 01:00:00",
-        "1976-03-21 01:00:00",
-        "1976-10-24 01:00:00",
-        "1977-03-20 01:00:00",
-        "1977-10-23 01:00:00",
-        "1978-03-19 01:00:00",
-        "1978-10-29 01:00:00",
-        "1979-03-18 01:00:00",
-        "1979-10-28 01:00:00",
-        "1980-03-16 01:00:00",
-        "1980-10-26 01:00:00",
+        # Ireland was an hour ahead of GMT all year round until October 1971
+        "1970-01-01 00:00:00",
+        "1971-10-31 02:00:00",
+        "1972-03-19 02:00:00",
+        "1972-10-29 02:00:00",
+        "1973-03-18 02:00:00",
+        "1973-10-28 02:00:00",
+        "1974-03-17 02:00:00",
+        "1974-10-27 02:00:00",
+        "1975-03-16 02:00:00",
+        "1975-10-26 02:00:00",
+        "1976-03-21 02:00:00",
+        "1976-10-24 02:00:00",
+        "1977-03-20 02:00:00",
+        "1977-10-23 02:00:00",
+        "1978-03-19 02:00:00",
+        "1978-10-29 02:00:00",
+        "1979-03-18 02:00:00",
+        "1979-10-28 02:00:00",
+        "1980-03-16 02:00:00",
+        "1980-10-26 02:00:00",
         "1981-03-29 01:00:00",
         "1981-10-25 01:00:00",
         "1982-03-28 01:00:00",
@@ -603,88 +609,79 @@ DUBLIN_OFFSET_NS = 0 * NANOS_PER_HOUR
 
 DST_CUTOFFS_Australia__Sydney = FastArray(
     [
-        # Prefix the array with one additional entry compared to timezones in the northern hemisphere.
-        # Code below in the TimeZone class assumes even-indexed entries represent start-of-DST transition times
-        # (local date/time within this timezone) and odd-numbered entries represent end-of-DST transition times.
-        # Timezones in the southern hemisphere start DST later in the year and end earlier in the year,
-        # so this one additional entry fixes the DST calculations below.
-        "1969-10-26 02:00:00",
-        "1970-04-05 03:00:00",
-        "1970-10-04 02:00:00",
-        "1971-04-04 03:00:00",
-        "1971-10-03 02:00:00",
-        "1972-04-02 03:00:00",
-        "1972-10-01 02:00:00",
-        "1973-04-01 03:00:00",
-        "1973-10-07 02:00:00",
-        "1974-04-07 03:00:00",
-        "1974-10-06 02:00:00",
-        "1975-04-06 03:00:00",
-        "1975-10-05 02:00:00",
-        "1976-04-04 03:00:00",
-        "1976-10-03 02:00:00",
-        "1977-04-03 03:00:00",
-        "1977-10-02 02:00:00",
-        "1978-04-02 03:00:00",
-        "1978-10-01 02:00:00",
-        "1979-04-01 03:00:00",
-        "1979-10-07 02:00:00",
-        "1980-04-06 03:00:00",
-        "1980-10-05 02:00:00",
-        "1981-04-05 03:00:00",
-        "1981-10-04 02:00:00",
+        "1971-10-31 02:00:00",
+        "1972-02-27 03:00:00",
+        "1972-10-29 02:00:00",
+        "1973-03-04 03:00:00",
+        "1973-10-28 02:00:00",
+        "1974-03-03 03:00:00",
+        "1974-10-27 02:00:00",
+        "1975-03-02 03:00:00",
+        "1975-10-26 02:00:00",
+        "1976-03-07 03:00:00",
+        "1976-10-31 02:00:00",
+        "1977-03-06 03:00:00",
+        "1977-10-30 02:00:00",
+        "1978-03-05 03:00:00",
+        "1978-10-29 02:00:00",
+        "1979-03-04 03:00:00",
+        "1979-10-28 02:00:00",
+        "1980-03-02 03:00:00",
+        "1980-10-26 02:00:00",
+        "1981-03-01 03:00:00",
+        "1981-10-25 02:00:00",
         "1982-04-04 03:00:00",
-        "1982-10-03 02:00:00",
-        "1983-04-03 03:00:00",
-        "1983-10-02 02:00:00",
-        "1984-04-01 03:00:00",
-        "1984-10-07 02:00:00",
-        "1985-04-07 03:00:00",
-        "1985-10-06 02:00:00",
-        "1986-04-06 03:00:00",
-        "1986-10-05 02:00:00",
-        "1987-04-05 03:00:00",
-        "1987-10-04 02:00:00",
-        "1988-04-03 03:00:00",
-        "1988-10-02 02:00:00",
-        "1989-04-02 03:00:00",
-        "1989-10-01 02:00:00",
-        "1990-04-01 03:00:00",
-        "1990-10-07 02:00:00",
-        "1991-04-07 03:00:00",
-        "1991-10-06 02:00:00",
-        "1992-04-05 03:00:00",
-        "1992-10-04 02:00:00",
-        "1993-04-04 03:00:00",
-        "1993-10-03 02:00:00",
-        "1994-04-03 03:00:00",
-        "1994-10-02 02:00:00",
-        "1995-04-02 03:00:00",
-        "1995-10-01 02:00:00",
-        "1996-04-07 03:00:00",
-        "1996-10-06 02:00:00",
-        "1997-04-06 03:00:00",
-        "1997-10-05 02:00:00",
-        "1998-04-05 03:00:00",
-        "1998-10-04 02:00:00",
-        "1999-04-04 03:00:00",
-        "1999-10-03 02:00:00",
-        "2000-04-02 03:00:00",
-        "2000-10-01 02:00:00",
-        "2001-04-01 03:00:00",
-        "2001-10-07 02:00:00",
-        "2002-04-07 03:00:00",
-        "2002-10-06 02:00:00",
-        "2003-04-06 03:00:00",
-        "2003-10-05 02:00:00",
-        "2004-04-04 03:00:00",
-        "2004-10-03 02:00:00",
-        "2005-04-03 03:00:00",
-        "2005-10-02 02:00:00",
+        "1982-10-31 02:00:00",
+        "1983-03-06 03:00:00",
+        "1983-10-30 02:00:00",
+        "1984-03-04 03:00:00",
+        "1984-10-28 02:00:00",
+        "1985-03-03 03:00:00",
+        "1985-10-27 02:00:00",
+        "1986-03-16 03:00:00",
+        "1986-10-19 02:00:00",
+        "1987-03-15 03:00:00",
+        "1987-10-25 02:00:00",
+        "1988-03-20 03:00:00",
+        "1988-10-30 02:00:00",
+        "1989-03-19 03:00:00",
+        "1989-10-29 02:00:00",
+        "1990-03-04 03:00:00",
+        "1990-10-28 02:00:00",
+        "1991-03-03 03:00:00",
+        "1991-10-27 02:00:00",
+        "1992-03-01 03:00:00",
+        "1992-10-25 02:00:00",
+        "1993-03-07 03:00:00",
+        "1993-10-31 02:00:00",
+        "1994-03-06 03:00:00",
+        "1994-10-30 02:00:00",
+        "1995-03-05 03:00:00",
+        "1995-10-29 02:00:00",
+        "1996-03-31 03:00:00",
+        "1996-10-27 02:00:00",
+        "1997-03-30 03:00:00",
+        "1997-10-26 02:00:00",
+        "1998-03-29 03:00:00",
+        "1998-10-25 02:00:00",
+        "1999-03-28 03:00:00",
+        "1999-10-31 02:00:00",
+        "2000-03-26 03:00:00",
+        "2000-08-27 02:00:00",
+        "2001-03-25 03:00:00",
+        "2001-10-28 02:00:00",
+        "2002-03-31 03:00:00",
+        "2002-10-27 02:00:00",
+        "2003-03-30 03:00:00",
+        "2003-10-26 02:00:00",
+        "2004-03-28 03:00:00",
+        "2004-10-31 02:00:00",
+        "2005-03-27 03:00:00",
+        "2005-10-30 02:00:00",
         "2006-04-02 03:00:00",
-        "2006-10-01 02:00:00",
-        "2007-04-01 03:00:00",
-        "2007-10-07 02:00:00",
+        "2006-10-29 02:00:00",
+        "2007-03-25 03:00:00",
+        "2007-10-28 02:00:00",
         "2008-04-06 03:00:00",
         "2008-10-05 02:00:00",
         "2009-04-05 03:00:00",
@@ -756,83 +753,79 @@ DST_CUTOFFS_Australia__Sydney = FastArray(
 
 DST_REVERSE_Australia__Sydney = FastArray(
     [
-        "1969-10-25 16:00:00",
-        "1970-04-04 16:00:00",
-        "1970-10-03 16:00:00",
-        "1971-04-03 16:00:00",
-        "1971-10-02 16:00:00",
-        "1972-04-01 16:00:00",
-        "1972-09-30 16:00:00",
-        "1973-03-31 16:00:00",
-        "1973-10-06 16:00:00",
-        "1974-04-06 16:00:00",
-        "1974-10-05 16:00:00",
-        "1975-04-05 16:00:00",
-        "1975-10-04 16:00:00",
-        "1976-04-03 16:00:00",
-        "1976-10-02 16:00:00",
-        "1977-04-02 16:00:00",
-        "1977-10-01 16:00:00",
-        "1978-04-01 16:00:00",
-        "1978-09-30 16:00:00",
-        "1979-03-31 16:00:00",
-        "1979-10-06 16:00:00",
-        "1980-04-05 16:00:00",
-        "1980-10-04 16:00:00",
-        "1981-04-04 16:00:00",
-        "1981-10-03 16:00:00",
+        "1971-10-30 16:00:00",
+        "1972-02-26 16:00:00",
+        "1972-10-28 16:00:00",
+        "1973-03-03 16:00:00",
+        "1973-10-27 16:00:00",
+        "1974-03-02 16:00:00",
+        "1974-10-26 16:00:00",
+        "1975-03-01 16:00:00",
+        "1975-10-25 16:00:00",
+        "1976-03-06 16:00:00",
+        "1976-10-30 16:00:00",
+        "1977-03-05 16:00:00",
+        "1977-10-29 16:00:00",
+        "1978-03-04 16:00:00",
+        "1978-10-28 16:00:00",
+        "1979-03-03 16:00:00",
+        "1979-10-27 16:00:00",
+        "1980-03-01 16:00:00",
+        "1980-10-25 16:00:00",
+        "1981-02-28 16:00:00",
+        "1981-10-24 16:00:00",
         "1982-04-03 16:00:00",
-        "1982-10-02 16:00:00",
-        "1983-04-02 16:00:00",
-        "1983-10-01 16:00:00",
-        "1984-03-31 16:00:00",
-        "1984-10-06 16:00:00",
-        "1985-04-06 16:00:00",
-        "1985-10-05 16:00:00",
-        "1986-04-05 16:00:00",
-        "1986-10-04 16:00:00",
-        "1987-04-04 16:00:00",
-        "1987-10-03 16:00:00",
-        "1988-04-02 16:00:00",
-        "1988-10-01 16:00:00",
-        "1989-04-01 16:00:00",
-        "1989-09-30 16:00:00",
-        "1990-03-31 16:00:00",
-        "1990-10-06 16:00:00",
-        "1991-04-06 16:00:00",
-        "1991-10-05 16:00:00",
-        "1992-04-04 16:00:00",
-        "1992-10-03 16:00:00",
-        "1993-04-03 16:00:00",
-        "1993-10-02 16:00:00",
-        "1994-04-02 16:00:00",
-        "1994-10-01 16:00:00",
-        "1995-04-01 16:00:00",
-        "1995-09-30 16:00:00",
-        "1996-04-06 16:00:00",
-        "1996-10-05 16:00:00",
-        "1997-04-05 16:00:00",
-        "1997-10-04 16:00:00",
-        "1998-04-04 16:00:00",
-        "1998-10-03 16:00:00",
-        "1999-04-03 16:00:00",
-        "1999-10-02 16:00:00",
-        "2000-04-01 16:00:00",
-        "2000-09-30 16:00:00",
-        "2001-03-31 16:00:00",
-        "2001-10-06 16:00:00",
-        "2002-04-06 16:00:00",
-        "2002-10-05 16:00:00",
-        "2003-04-05 16:00:00",
-        "2003-10-04 16:00:00",
-        "2004-04-03 16:00:00",
-        "2004-10-02 16:00:00",
-        "2005-04-02 16:00:00",
-        "2005-10-01 16:00:00",
+        "1982-10-30 16:00:00",
+        "1983-03-05 16:00:00",
+        "1983-10-29 16:00:00",
+        "1984-03-03 16:00:00",
+        "1984-10-27 16:00:00",
+        "1985-03-02 16:00:00",
+        "1985-10-26 16:00:00",
+        "1986-03-15 16:00:00",
+        "1986-10-18 16:00:00",
+        "1987-03-14 16:00:00",
+        "1987-10-24 16:00:00",
+        "1988-03-19 16:00:00",
+        "1988-10-29 16:00:00",
+        "1989-03-18 16:00:00",
+        "1989-10-28 16:00:00",
+        "1990-03-03 16:00:00",
+        "1990-10-27 16:00:00",
+        "1991-03-02 16:00:00",
+        "1991-10-26 16:00:00",
+        "1992-02-29 16:00:00",
+        "1992-10-24 16:00:00",
+        "1993-03-06 16:00:00",
+        "1993-10-30 16:00:00",
+        "1994-03-05 16:00:00",
+        "1994-10-29 16:00:00",
+        "1995-03-04 16:00:00",
+        "1995-10-28 16:00:00",
+        "1996-03-30 16:00:00",
+        "1996-10-26 16:00:00",
+        "1997-03-29 16:00:00",
+        "1997-10-25 16:00:00",
+        "1998-03-28 16:00:00",
+        "1998-10-24 16:00:00",
+        "1999-03-27 16:00:00",
+        "1999-10-30 16:00:00",
+        "2000-03-25 16:00:00",
+        "2000-08-26 16:00:00",
+        "2001-03-24 16:00:00",
+        "2001-10-27 16:00:00",
+        "2002-03-30 16:00:00",
+        "2002-10-26 16:00:00",
+        "2003-03-29 16:00:00",
+        "2003-10-25 16:00:00",
+        "2004-03-27 16:00:00",
+        "2004-10-30 16:00:00",
+        "2005-03-26 16:00:00",
+        "2005-10-29 16:00:00",
         "2006-04-01 16:00:00",
-        "2006-09-30 16:00:00",
-        "2007-03-31 16:00:00",
-        "2007-10-06 16:00:00",
+        "2006-10-28 16:00:00",
+        "2007-03-24 16:00:00",
+        "2007-10-27 16:00:00",
         "2008-04-05 16:00:00",
         "2008-10-04 16:00:00",
         "2009-04-04 16:00:00",
-- 
2.43.0


From 1d0210f8b2d4d2f8085f9b3d5d2537b7b55f7365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:53 +0000
Subject: [PATCH 083/136] fix: DateTimeNano keeps the integer missing value
 missing when read in a timezone other than UTC

---
 riptable/rt_timezone.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_timezone.py b/riptable/rt_timezone.py
index 5ff3f63..c24790f 100644
--- a/riptable/rt_timezone.py
+++ b/riptable/rt_timezone.py
@@ -4,7 +4,7 @@ import numpy as np
 import riptide_cpp as rc
 
 from .rt_datetime import NANOS_PER_HOUR, NANOS_PER_MINUTE
-from .rt_enum import TypeRegister
+from .rt_enum import INVALID_DICT, TypeRegister
 from .rt_fastarray import FastArray
 from .rt_numpy import full, putmask, searchsorted, where, zeros
 
@@ -1295,7 +1295,7 @@ class TimeZone:
             # print('was not gmt or utc', self._from_tz)
             # create an invalid mask before adjusting
             if inv_mask is None:
-                inv_mask = dtn == 0
+                inv_mask = (dtn == 0) | (dtn == INVALID_DICT[np.dtype(np.int64).num])
 
             # adjust the times so they are in UTC nanoseconds
             is_dst = self._mask_dst(dtn, cutoffs=self._dst_cutoffs)
-- 
2.43.0


From 358b0ca953127b98b6e398082d6bc388cfb19230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:53 +0000
Subject: [PATCH 084/136] fix: the instant of a daylight savings change belongs
 to the new offset, and is_dst/tz_offset work for timezones without one and
 for scalars

---
 riptable/rt_timezone.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_timezone.py b/riptable/rt_timezone.py
index c24790f..dc85674 100644
--- a/riptable/rt_timezone.py
+++ b/riptable/rt_timezone.py
@@ -1179,23 +1179,27 @@ class TimeZone:
         if cutoffs is None:
             cutoffs = self._dst_cutoffs
         if cutoffs is None:
-            return zeros(len(arr), dtype=bool)
+            return zeros(len(arr), dtype=bool) if isinstance(arr, np.ndarray) else np.bool_(False)
 
         # is_dst = (FastArray(np.searchsorted(DST_CUTOFFS, arr)) & 1).astype(bool)
         # is_dst = (rc.BinsToCutsBSearch(arr, cutoffs, 0) & 1).astype(bool)
 
-        is_dst = (searchsorted(cutoffs, arr) & 1).astype(np.bool_)
+        # the change happens at the cutoff itself
+        is_dst = (searchsorted(cutoffs, arr, side="right") & 1).astype(np.bool_)
         return is_dst
 
     # ------------------------------------------------------------
     def _is_dst(self, arr):
+        if self._dst_reverse is None:
+            # the timezone being displayed has no daylight savings time
+            return zeros(len(arr), dtype=bool) if isinstance(arr, np.ndarray) else np.bool_(False)
         return self._mask_dst(arr, self._dst_reverse)
 
     # ------------------------------------------------------------
     def _tz_offset(self, arr):
         if self._dst_reverse is None:
             reg_offset = -1 * self._offset / NANOS_PER_HOUR
-            result = full(len(arr), reg_offset)
+            result = full(len(arr), reg_offset) if isinstance(arr, np.ndarray) else reg_offset
 
         else:
             is_dst = self._mask_dst(arr, self._dst_reverse)
-- 
2.43.0


From 982f029582a6c8bd4527392fdce045f1d2f3edd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:53 +0000
Subject: [PATCH 085/136] fix: searchsorted reads slices taken with a step by
 their own elements

---
 riptable/rt_numpy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 2681fe0..c9decb2 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -673,8 +673,9 @@ def _searchsorted(array, v, side="left", sorter=None):
     if not isinstance(v, np.ndarray):
         v = np.array(v, dtype=dtype)
 
-    array = possibly_convert(array, dtype)
-    v = possibly_convert(v, dtype)
+    # the low level routine reads a slice taken with a step as if it were contiguous
+    array = _unstride(possibly_convert(array, dtype))
+    v = _unstride(possibly_convert(v, dtype))
     # we cannot handle a sorter
     if sorter is None:
         try:
-- 
2.43.0


From 4d833a7111ef11553594d5496e4c2851cf34d541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:09 +0000
Subject: [PATCH 086/136] fix: date and time strings in slices taken with a
 step are parsed by their own elements

---
 riptable/rt_datetime.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index bd8059c..5563e8f 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -46,6 +46,7 @@ from .rt_enum import (
 from .rt_fastarray import FastArray
 from .rt_hstack import hstack_any
 from .rt_numpy import (
+    _unstride,
     arange,
     empty,
     full,
@@ -356,7 +357,7 @@ def strptime_to_nano(dtstrings, format, from_tz=None, to_tz="NYC"):
     if isinstance(format, str):
         format = format.encode()
 
-    nano_times = rc.StrptimeToNanos(dtstrings, format)
+    nano_times = rc.StrptimeToNanos(_unstride(dtstrings), format)
     return DateTimeNano(nano_times, from_tz=from_tz, to_tz=to_tz)
 
 
@@ -402,7 +403,7 @@ def datetimestring_to_nano(dtstring, from_tz=None, to_tz="NYC"):
     DateTimeNano([20121212 12:34:56.001002000, 20130303 01:14:15.000000000, 20080706 15:14:13.000000000])
 
     """
-    nano_times = rc.DateTimeStringToNanos(dtstring)
+    nano_times = rc.DateTimeStringToNanos(_unstride(dtstring))
     return DateTimeNano(nano_times, from_tz=from_tz, to_tz=to_tz)
 
 
@@ -441,13 +442,13 @@ def datestring_to_nano(datestring, time=None, from_tz=None, to_tz="NYC"):
     DateTimeNano([20180101 09:30:00.000000000, 20180102 09:30:00.000000000, 20180103 09:30:00.000000000])
     """
 
-    nano_dates = rc.DateStringToNanos(datestring)
+    nano_dates = rc.DateStringToNanos(_unstride(datestring))
     if time is None:
         result = nano_dates
     else:
         if isinstance(time, (str, bytes)):
             time = TypeRegister.FastArray([time])
-        time = rc.TimeStringToNanos(time)
+        time = rc.TimeStringToNanos(_unstride(time))
 
         result = nano_dates + time
 
@@ -500,14 +501,14 @@ def timestring_to_nano(timestring, date=None, from_tz=None, to_tz="NYC"):
     DateTimeNano([20180201 01:23:45.000000000, 20180207 12:34:56.000000000, 20180512 23:22:21.000000000])
 
     """
-    nano_times = rc.TimeStringToNanos(timestring)
+    nano_times = rc.TimeStringToNanos(_unstride(timestring))
     if date is None:
         result = TimeSpan(nano_times)
     else:
         if isinstance(date, (str, bytes)):
             date = TypeRegister.FastArray([date])
 
-        date = rc.DateStringToNanos(date)
+        date = rc.DateStringToNanos(_unstride(date))
         result = date + nano_times
         result = DateTimeNano(result, from_tz=from_tz, to_tz=to_tz)
 
-- 
2.43.0


From b6d07688dc0624f973e24bf88da31ecdcbcbcc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:09 +0000
Subject: [PATCH 087/136] fix: Date.seconds_since_epoch does not overflow after
 2038

---
 riptable/rt_datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 5563e8f..8ed64e0 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -2105,7 +2105,7 @@ class Date(DateBase, TimeStampBase):
         Many existing python datetime routines expect seconds since epoch.
         This call is to eliminate "magic numbers" like 3600 from code.
         """
-        return _apply_inv_mask(self, self._fa * SECONDS_PER_DAY)
+        return _apply_inv_mask(self, self._fa.astype(np.int64) * SECONDS_PER_DAY)
 
     # ------------------------------------------------------------
     @classmethod
-- 
2.43.0


From a86a79acf8ef6d0e01605fbd61133bb8684fc191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:09 +0000
Subject: [PATCH 088/136] fix: DateTimeNano.date and the minute fields follow
 timezones with a fixed or half hour offset

---
 riptable/rt_datetime.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 8ed64e0..8345b70 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -3298,12 +3298,8 @@ class DateTimeCommon:
 
 
         """
-        if self._timezone._dst_reverse is not None:
-            arr = self._timezone.fix_dst(self._fa)
-            arr = arr - (arr % NANOS_PER_DAY)
-        else:
-            arr = self._fa
-            arr = arr - (arr % NANOS_PER_DAY)
+        arr = self._timezone.fix_dst(self._fa)
+        arr = _apply_inv_mask(self, arr - (arr % NANOS_PER_DAY))
         # from_tz needs to match to_tz (similar to from_matlab_days, except can't force 'GMT' because of DST fixup)
         # return DateTimeNano(arr, from_tz=self._timezone._to_tz, to_tz='UTC')
         result = DateTimeNano(arr, from_tz=self._timezone._to_tz, to_tz=self._timezone._to_tz)
@@ -3755,7 +3751,7 @@ class DateTimeCommon:
         None of these need to account for timezone.
         """
         inv_mask = self.isnan()
-        arr = self._fa % modulo
+        arr = self._timezone.fix_dst(self._fa) % modulo
         if span:
             if isinstance(self, DateTimeNano):
                 result = TypeRegister.TimeSpan(arr)
-- 
2.43.0


From 82bfcf46d5291acd2d5d2d0d296530d924314143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:09 +0000
Subject: [PATCH 089/136] fix: calendar fields of DateTimeNano stay missing for
 missing times, day_of_month follows the timezone, and scalars support every
 field

---
 riptable/rt_datetime.py | 57 ++++++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 20 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 8345b70..3981a42 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -551,7 +551,7 @@ def _apply_inv_mask(arr1, arr2, fillval=None, arr1_inv_mask=None, arr2_inv_mask=
         if len(arr1) == 1:
             # broadcast array of 1 path
             if arr1[0] <= 0:
-                return TypeRegister.FastArray([INVALID_DICT[arr2.dtype.num]])
+                return TypeRegister.FastArray([INVALID_DICT[arr2.dtype.num]], dtype=arr2.dtype)
             return arr2
         else:
             if arr1_inv_mask is None:
@@ -578,7 +578,7 @@ def _apply_inv_mask(arr1, arr2, fillval=None, arr1_inv_mask=None, arr2_inv_mask=
     else:
         # scalar path
         if arr1 <= 0:
-            return INVALID_DICT[arr2.dtype.num]
+            return arr2.dtype.type(INVALID_DICT[arr2.dtype.num])
         return arr2
 
 
@@ -3085,6 +3085,11 @@ class DateTimeCommon:
     """
 
     # -CLOCK HH:MM------------------------------------------------
+    def _as_array(self):
+        """Internal routine: a scalar as a one element array, in the same timezone."""
+        return DateTimeNano([int(self._fa)], from_tz="GMT", to_tz=self._timezone._to_tz)
+
+    # ------------------------------------------------------------
     @property
     def format_clock(self):
         """Set time to be displayed as HH:MM:SS"""
@@ -3145,7 +3150,7 @@ class DateTimeCommon:
 
         """
         arr = self._timezone.fix_dst(self)
-        return arr // NANOS_PER_DAY
+        return _apply_inv_mask(self, arr // NANOS_PER_DAY)
 
     # ------------------------------------------------------------
     @property
@@ -3164,7 +3169,7 @@ class DateTimeCommon:
         int64 array
         """
         arr = self._timezone.fix_dst(self)
-        return arr // NANOS_PER_SECOND
+        return _apply_inv_mask(self, arr // NANOS_PER_SECOND)
 
     # ------------------------------------------------------------
     def nanos_since_midnight(self):
@@ -3329,6 +3334,9 @@ class DateTimeCommon:
         this routine is very similar to day_of_month - can probably internal routines to avoid repeating code
 
         """
+        if not isinstance(self, np.ndarray):
+            return self._as_array().yyyymmdd[0]
+
         arr = self._fa
         arr = self._timezone.fix_dst(arr)
         year = self._year(arr, fix_dst=False)
@@ -3357,7 +3365,7 @@ class DateTimeCommon:
         final += monthnum.astype(np.int32) * 100
         final += (monthtime // NANOS_PER_DAY) + 1
 
-        return final
+        return _apply_inv_mask(self, final)
 
     # ------------------------------------------------------------
     @property
@@ -3413,6 +3421,8 @@ class DateTimeCommon:
         int32 array
 
         """
+        if not isinstance(self, np.ndarray):
+            return self._as_array().month()[0]
         return _apply_inv_mask(self, self._month(fix_dst=True))
 
     # ------------------------------------------------------------
@@ -3426,6 +3436,8 @@ class DateTimeCommon:
         >>> d.monthyear()
         FastArray([ 'Feb2000','Dec2018'])
         """
+        if not isinstance(self, np.ndarray):
+            return self._as_array().monthyear()[0]
         month = self.month()
         yearstr = self.year().astype("S")
         return MONTH_STR_ARRAY[month - 1] + yearstr
@@ -3454,7 +3466,7 @@ class DateTimeCommon:
             result = result // NANOS_PER_DAY
         result += 1
 
-        return result
+        return _apply_inv_mask(self, result)
 
     # ------------------------------------------------------------
     @property
@@ -3475,8 +3487,11 @@ class DateTimeCommon:
         int32 array
 
         """
-        arr = self._fa
-        year = self._year(arr, fix_dst=True)
+        if not isinstance(self, np.ndarray):
+            return self._as_array().day_of_month[0]
+
+        arr = self._timezone.fix_dst(self._fa)
+        year = self._year(arr, fix_dst=False)
 
         # subtract the nanos from start of year so all times are in MM-DD HH:MM:SS, etc.
         startyear = arr - self._year_splits[year - 1970]
@@ -3497,7 +3512,7 @@ class DateTimeCommon:
             monthtime = monthtime // NANOS_PER_DAY
         monthtime += 1
 
-        return monthtime
+        return _apply_inv_mask(self, monthtime)
 
     # ------------------------------------------------------------
     @property
@@ -3527,7 +3542,7 @@ class DateTimeCommon:
             np.mod(arr, 7, out=arr)
         else:
             arr = arr % 7
-        return arr
+        return _apply_inv_mask(self, arr)
 
     # ------------------------------------------------------------
     @property
@@ -3542,7 +3557,7 @@ class DateTimeCommon:
         arr -= adjust
         arr -= EPOCH_DAY_OF_WEEK
 
-        result = Date(arr)
+        result = Date(_apply_inv_mask(self, arr))
         if not isinstance(arr, np.ndarray):
             return result[0]
         return result
@@ -3608,10 +3623,11 @@ class DateTimeCommon:
         scalar or array putmask
         """
         if isinstance(arr1, np.ndarray):
-            return putmask(arr1, filter, arr2)
+            putmask(arr1, filter, arr2)
+            return arr1
         else:
             if filter:
-                return arr2
+                return type(arr1)(arr2)
             else:
                 return arr1
 
@@ -3635,7 +3651,7 @@ class DateTimeCommon:
         """
         inv_mask = self.isnan()
         isweekday = self.day_of_week < 5
-        self.putmask(isweekday, inv_mask, False)
+        isweekday = self.putmask(isweekday, inv_mask, False)
         return isweekday
 
     # ------------------------------------------------------------
@@ -3658,7 +3674,7 @@ class DateTimeCommon:
         """
         inv_mask = self.isnan()
         isweekend = self.day_of_week > 4
-        self.putmask(isweekend, inv_mask, False)
+        isweekend = self.putmask(isweekend, inv_mask, False)
         return isweekend
 
     # ------------------------------------------------------------
@@ -3686,7 +3702,7 @@ class DateTimeCommon:
         arr = self._timezone.fix_dst(self._fa)
         arr = arr % NANOS_PER_DAY
         arr = arr / NANOS_PER_DAY
-        self.putmask(arr, inv_mask, np.nan)
+        arr = self.putmask(arr, inv_mask, np.nan)
         return arr
 
     # ------------------------------------------------------------
@@ -3741,7 +3757,7 @@ class DateTimeCommon:
             result = TypeRegister.TimeSpan(arr)
         else:
             result = arr / NANOS_PER_HOUR
-        self.putmask(result, inv_mask, np.nan)
+        result = self.putmask(result, inv_mask, np.nan)
         return result
 
     # ------------------------------------------------------------
@@ -3759,7 +3775,7 @@ class DateTimeCommon:
                 result = TypeRegister.TimeSpanScalar(arr)
         else:
             result = arr / divisor
-        self.putmask(result, inv_mask, np.nan)
+        result = self.putmask(result, inv_mask, np.nan)
         return result
 
     # ------------------------------------------------------------
@@ -3995,7 +4011,7 @@ class DateTimeCommon:
         arr = self._timezone.fix_dst(self._fa)
         year = self._year(arr, fix_dst=False)
         arr = arr - self._year_splits[year - 1970]
-        return arr
+        return _apply_inv_mask(self, arr)
 
     # ------------------------------------------------------------
     def time_since_start_of_year(self):
@@ -4021,7 +4037,8 @@ class DateTimeCommon:
         Nanosecond precision will be lost after ~52 days
         """
 
-        result = TimeSpan(self.nanos_since_start_of_year())
+        nanos = self.nanos_since_start_of_year()
+        result = TimeSpan(_apply_inv_mask(self, np.float64(nanos)))
 
         if isinstance(self, DateTimeNano):
             return result
-- 
2.43.0


From 310d69594267a26168f61d511053cf86f997a48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:08 +0000
Subject: [PATCH 090/136] fix: date and time math keeps missing operands
 missing for one-row arrays and gives the missing value of the result class

---
 riptable/rt_datetime.py | 62 +++++++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 30 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 3981a42..7ba6473 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -548,33 +548,32 @@ def _apply_inv_mask(arr1, arr2, fillval=None, arr1_inv_mask=None, arr2_inv_mask=
     Called by time fraction properties and math operations.
     """
     if isinstance(arr1, np.ndarray):
-        if len(arr1) == 1:
-            # broadcast array of 1 path
-            if arr1[0] <= 0:
-                return TypeRegister.FastArray([INVALID_DICT[arr2.dtype.num]], dtype=arr2.dtype)
-            return arr2
-        else:
-            if arr1_inv_mask is None:
-                arr1_inv_mask = arr1.isnan()
-
-            if fillval is None:
-                # use the sentinel or nan for the return array type, e.g. year() returns int32
-                fillval = INVALID_DICT[arr2.dtype.num]
-            putmask(arr2, arr1_inv_mask, fillval)
-
-            # apply the invalid mask from an operation with another array
-            if arr2_inv_mask is not None:
-                # return invalid fill, fixes broadcasting if math operations
-                # was with a scalar or single item array
-                if np.isscalar(arr2_inv_mask):
-                    if arr2_inv_mask:
-                        arr2[:] = fillval
-                elif len(arr2_inv_mask) == 1:
-                    if arr2_inv_mask[0]:
-                        arr2[:] = fillval
-                else:
-                    putmask(arr2, arr2_inv_mask, fillval)
-            return arr2
+        if np.isscalar(arr2):
+            # an array of 1 may have been reduced to a scalar
+            arr2 = TypeRegister.FastArray([arr2], dtype=arr2.dtype)
+
+        if arr1_inv_mask is None:
+            arr1_inv_mask = arr1.isnan()
+
+        if fillval is None:
+            # use the sentinel or nan for the return array type, e.g. year() returns int32
+            fillval = INVALID_DICT[arr2.dtype.num]
+
+        # also apply the invalid mask from an operation with another array
+        for inv_mask in (arr1_inv_mask, arr2_inv_mask):
+            if inv_mask is None:
+                continue
+            # return invalid fill, fixes broadcasting if math operations
+            # was with a scalar or single item array
+            if np.isscalar(inv_mask):
+                if inv_mask:
+                    arr2[:] = fillval
+            elif len(inv_mask) == 1:
+                if inv_mask[0]:
+                    arr2[:] = fillval
+            else:
+                putmask(arr2, inv_mask, fillval)
+        return arr2
     else:
         # scalar path
         if arr1 <= 0:
@@ -1067,8 +1066,10 @@ class DateBase(FastArray):
         # print('other_inv_mask',other_inv_mask)
         # print('return type',return_type)
 
+        # the fill has to be an invalid of the class of the result
+        fillval = np.nan if return_type is TimeSpan else getattr(return_type, "NAN_DATE", 0)
         result = _apply_inv_mask(
-            self, result, fillval=self.NAN_DATE, arr1_inv_mask=inv_mask, arr2_inv_mask=other_inv_mask
+            self, result, fillval=fillval, arr1_inv_mask=inv_mask, arr2_inv_mask=other_inv_mask
         )
 
         if not isinstance(result, return_type):
@@ -5882,6 +5883,7 @@ class DateTimeNano(DateTimeBase, TimeStampBase, DateTimeCommon):
             elif isinstance(other, (TimeSpan, TimeSpanScalar)):
                 # apply our own mask during this track
                 return_type = DateTimeNano
+                other_inv_mask = isnan(other)
                 # upcast TimeSpan to preserve precision
                 other = other.astype(np.int64)
                 call_super = True
@@ -6919,8 +6921,8 @@ class TimeSpanBase:
             else:
                 # possible nan fill
                 if len(other_inv_mask) == 1:
-                    if isnan(other_inv_mask)[0]:
-                        result = TimeSpan(full(len(self), np.nan, dtype=np.float64))
+                    if other_inv_mask[0]:
+                        result[:] = np.nan
                 else:
                     result[other_inv_mask] = np.nan
             result = TimeSpan(result)
-- 
2.43.0


From 212bdae6ea01e8f79a2a7b9e4568e33c21aea357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:21 +0000
Subject: [PATCH 091/136] fix: date and time math accepts strided and one-row
 operands and date/time scalars, and TimeSpan minus DateSpan counts days

---
 riptable/rt_datetime.py | 49 ++++++++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 13 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 7ba6473..ed93606 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -581,6 +581,25 @@ def _apply_inv_mask(arr1, arr2, fillval=None, arr1_inv_mask=None, arr2_inv_mask=
         return arr2
 
 
+def _subtract_datetimes(arr1, arr2):
+    """Differences of dates or times, nan where either is missing.
+    The kernel needs two contiguous arrays of the same length.
+    """
+    arr1, arr2 = (arr._np if isinstance(arr, FastArray) else np.asarray(arr) for arr in (arr1, arr2))
+    arr1, arr2 = (np.ascontiguousarray(arr).view(FastArray) for arr in np.broadcast_arrays(arr1, arr2))
+    return TypeRegister.MathLedger._BASICMATH_TWO_INPUTS((arr1, arr2), MATH_OPERATION.SUBDATETIMES, 0)
+
+
+def _datetime_scalar_to_array(value):
+    """Date and time scalars take part in operations with arrays as an array of one."""
+    if isinstance(value, DateTimeNanoScalar):
+        return DateTimeNano(FastArray([value], dtype=np.int64), from_tz="GMT", to_tz=value._timezone._to_tz)
+    for scalar_type, array_type in ((TimeSpanScalar, TimeSpan), (DateScalar, Date), (DateSpanScalar, DateSpan)):
+        if isinstance(value, scalar_type):
+            return array_type(FastArray([value], dtype=value.dtype))
+    return value
+
+
 # ========================================================
 class DateTimeBase(FastArray):
     """Base class for DateTimeNano and TimeSpan.
@@ -1031,6 +1050,7 @@ class DateBase(FastArray):
         if funcname in self.forbidden_mathops:
             raise TypeError(f"Cannot perform {funcname} on {self.__class__.__name__} object.")
 
+        value = _datetime_scalar_to_array(value)
         inv_mask = self.isnan()
         other_inv_mask = None
         return_type = None
@@ -2331,15 +2351,11 @@ class Date(DateBase, TimeStampBase):
 
         All other operands will be treated as DateSpan and return Date.
         """
+        value = _datetime_scalar_to_array(value)
         if isinstance(value, Date):
-            func = TypeRegister.MathLedger._BASICMATH_TWO_INPUTS
             # need routine for int32 - int32 => int32 (operands have 0 as invalid, result has sentinel as invalid)
             # right now, using the double return, gets recasted in the constructor
-            op = MATH_OPERATION.SUBDATETIMES
-
-            functup = (self, value)
-            result = func(functup, op, 0)
-            return DateSpan(result)
+            return DateSpan(_subtract_datetimes(self, value))
 
         elif isinstance(value, DateTimeNano):
             caller = DateTimeNano(self._fa * NANOS_PER_DAY, from_tz=value._timezone._from_tz)
@@ -4119,12 +4135,7 @@ class DateTimeCommon:
                 input1, result, fillval=DateTimeBase.NAN_TIME, arr1_inv_mask=input1_mask, arr2_inv_mask=other_inv_mask
             )
         else:
-            if inplace:
-                functup = (input1, other, input1)
-            else:
-                functup = (input1, other)
-
-            result = func(functup, op, 0)
+            result = _subtract_datetimes(input1, other)
             if result is None:
                 raise RuntimeError(
                     f"Could not perform {funcname} operation with DateTimeNano and {type(other)} {other}"
@@ -5786,6 +5797,8 @@ class DateTimeNano(DateTimeBase, TimeStampBase, DateTimeCommon):
 
     # -------------------------------------------------------------
     def __add__(self, other, inplace=False):
+        if isinstance(self, np.ndarray):
+            other = _datetime_scalar_to_array(other)
         call_super = False
         other_inv_mask = None
         func = TypeRegister.MathLedger._BASICMATH_TWO_INPUTS
@@ -5848,6 +5861,8 @@ class DateTimeNano(DateTimeBase, TimeStampBase, DateTimeCommon):
 
     # -------------------------------------------------------------
     def __sub__(self, other, inplace=False):
+        if isinstance(self, np.ndarray):
+            other = _datetime_scalar_to_array(other)
         call_super = False
         other_inv_mask = None
         func = TypeRegister.MathLedger._BASICMATH_TWO_INPUTS
@@ -6812,6 +6827,8 @@ class TimeSpanBase:
     # -------------------------------------------------------------
     def __add__(self, value):
         other_inv_mask = None
+        if isinstance(self, np.ndarray):
+            value = _datetime_scalar_to_array(value)
 
         # TimeSpan add
         if not isinstance(value, np.ndarray):
@@ -6838,9 +6855,15 @@ class TimeSpanBase:
 
     # -------------------------------------------------------------
     def __sub__(self, value):
+        other_inv_mask = None
+        if isinstance(self, np.ndarray):
+            value = _datetime_scalar_to_array(value)
         if isinstance(value, (DateTimeNano, DateTimeNanoScalar, Date, DateScalar)):
             return value.__rsub__(self)
-        return self._fix_binary_ops(value, "__sub__")
+        if isinstance(value, DateSpan):
+            other_inv_mask = isnan(value)
+            value = value._fa * NANOS_PER_DAY
+        return self._fix_binary_ops(value, "__sub__", other_inv_mask=other_inv_mask)
 
     # -------------------------------------------------------------
     def __rsub__(self, value):
-- 
2.43.0


From b11c62bad9c93c49fd4d5c0b083724d22ae48547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:21 +0000
Subject: [PATCH 092/136] fix: DateSpan plus DateTimeNano keeps the timezone
 and number plus DateSpan keeps missing values

---
 riptable/rt_datetime.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index ed93606..21a9850 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -1063,7 +1063,7 @@ class DateBase(FastArray):
 
         # perform main math operation on fast array
         func = getattr(caller, funcname)
-        result = func(value)
+        result = func(value._fa if isinstance(value, DateTimeNano) else value)
         # set return type, preserve invalids for non-nano operands
         if return_type is None:
             return_type, other_inv_mask = self._check_mathops(funcname, value)
@@ -2981,7 +2981,6 @@ class DateSpan(DateBase):
             return_type = DateTimeNano
             other_inv_mask = value.isnan()
             caller = self._fa * NANOS_PER_DAY
-            value = value._fa
 
         return value, other_inv_mask, return_type, caller
 
@@ -3029,6 +3028,9 @@ class DateSpan(DateBase):
     def __iadd__(self, value):
         return self._funnel_mathops("__iadd__", value)
 
+    def __radd__(self, value):
+        return self._funnel_mathops("__add__", value)
+
     def __sub__(self, value):
         return self._funnel_mathops("__sub__", value)
 
-- 
2.43.0


From a31062b2d3ebab23d77ad86c4f42446bd7c1545e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:21 +0000
Subject: [PATCH 093/136] fix: comparisons of dates, times and spans treat a
 missing value on either side alike

---
 riptable/rt_datetime.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 21a9850..6c67f85 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -845,11 +845,13 @@ class TimeStampBase:
         Both of their compare checks need to preserve nans in the result the same way.
         """
         func = getattr(caller, funcname)
-        result = func(other)
-        if funcname == "__ne__":
-            result += self.isnan()
-        else:
-            result *= self.isnotnan()
+        result = func(other._fa if isinstance(other, DateBase) else other)
+        for operand in (self, other):
+            if isinstance(operand, (DateBase, DateTimeNano)):
+                if funcname == "__ne__":
+                    result += operand.isnan()
+                else:
+                    result *= operand.isnotnan()
         return result
 
 
@@ -2274,6 +2276,7 @@ class Date(DateBase, TimeStampBase):
         """
 
         caller = self._fa
+        other = _datetime_scalar_to_array(other)
 
         if isinstance(other, (DateSpan, TimeSpan, DateSpanScalar, TimeSpanScalar)):
             raise TypeError(f"Cannot perform {funcname} comparison operation between {type(self)} and {type(other)}.")
@@ -2284,9 +2287,8 @@ class Date(DateBase, TimeStampBase):
             # fix the timezone to match the display of the DateTimeNano
             caller = DateTimeNano(self._fa * NANOS_PER_DAY, from_tz=to_tz, to_tz=to_tz)
 
-        # looks weird now, saving explicit branchesfor if any forbidden types appear
         elif isinstance(other, Date):
-            other = other._fa
+            pass
 
         elif isinstance(other, (str, bytes)):
             other = Date(other)
@@ -3045,6 +3047,7 @@ class DateSpan(DateBase):
         """
 
         caller = self._fa
+        other = _datetime_scalar_to_array(other)
 
         if isinstance(other, (Date, DateTimeNano, TypeRegister.Categorical)):
             # Date allows categorical comparisons, DateSpan does not
@@ -3053,17 +3056,16 @@ class DateSpan(DateBase):
         elif isinstance(other, TimeSpan):
             caller = self._fa * NANOS_PER_DAY
 
-        # looks weird now, saving explicit branchesfor if any forbidden types appear
         elif isinstance(other, DateSpan):
-            other = other._fa
+            pass
 
         # Categorical will fall through to constructor too
         elif isinstance(other, np.ndarray):
             other = Date(other)
 
         # let everything else fall through for FastArray to catch
-        func = getattr(caller, funcname)
-        return func(other)
+        # restore invalids
+        return TimeStampBase._preserve_invalid_comparison(self, caller, other, funcname)
 
     # -------------------COMPARISONS------------------------------
     # ------------------------------------------------------------
@@ -5600,6 +5602,7 @@ class DateTimeNano(DateTimeBase, TimeStampBase, DateTimeCommon):
     # -------------------------------------------------------------
     def _datetimenano_compare_check(self, funcname, other):
         caller = self._fa
+        other = _datetime_scalar_to_array(other)
 
         if isinstance(other, (DateTimeNano, DateTimeNanoScalar)):
             if other._timezone._to_tz != self._timezone._to_tz:
@@ -7130,12 +7133,16 @@ class TimeSpanBase:
 
         if isinstance(other, (str, bytes)):
             other = TimeSpan(other)[0]
+        elif isinstance(self, np.ndarray):
+            other = _datetime_scalar_to_array(other)
 
         if isinstance(other, (DateTimeNano, Date)):
             raise TypeError(f"Cannot compare TimeSpan with {type(other)}")
         # upcast DateSpan to nanoseconds
         elif isinstance(other, DateSpan):
+            inv_mask = other.isnan()
             other = (other._fa * NANOS_PER_DAY).astype(np.float64)
+            other[inv_mask] = np.nan
 
         # let everything else fall through to fast array
         result = func(other)
-- 
2.43.0


From 50407481c0932a7ea9a6647e439564e72b2508dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:21 +0000
Subject: [PATCH 094/136] fix: substr slices of Categoricals, extract without a
 group on unicode, and regex functions of empty arrays

---
 riptable/rt_str.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/riptable/rt_str.py b/riptable/rt_str.py
index fa46d3d..13e4296 100644
--- a/riptable/rt_str.py
+++ b/riptable/rt_str.py
@@ -954,7 +954,7 @@ class FAString(FastArray):
         if self._intype == "S":
             regex = _maybe_encode(regex)
         regex = re.compile(regex)
-        vmatch = np.vectorize(lambda x: bool(regex.search(x)))
+        vmatch = np.vectorize(lambda x: bool(regex.search(x)), otypes=[bool])
         bools = vmatch(self.backtostring)
 
         return bools
@@ -1023,7 +1023,7 @@ class FAString(FastArray):
         if self._intype == "S":
             regex, repl = map(_maybe_encode, (regex, repl))
         regex = re.compile(regex)
-        vmatch = np.vectorize(lambda x: regex.sub(repl, x))
+        vmatch = np.vectorize(lambda x: regex.sub(repl, x), otypes=[self._intype])
         return vmatch(self.backtostring)
 
     @_handle_apply_unique
@@ -1122,7 +1122,7 @@ class FAString(FastArray):
         ngroups = compiled.groups
         if ngroups == 0:
             # convenience where we treat the entire pattern as a capture group
-            return self.extract(f"({regex.decode()})", **kwargs)
+            return self.extract(f"({regex.decode() if isinstance(regex, bytes) else regex})", **kwargs)
 
         # expand defaults to False if we have one capture group and do not specify names
         if expand is None:
@@ -1431,7 +1431,7 @@ class _SubStrAccessor:
             if y.step is not None:
                 raise NotImplementedError("slicing with step in substr is not supported")
             if y.stop is None:
-                stop = self.fastring.strlen
+                stop = np.iinfo(np.int64).max  # every string is cut off at its own length
             else:
                 stop = y.stop
             return self.fastring._substr(y.start, stop)
-- 
2.43.0


From 64f3c908579f7c48ca09df7034d03fd7656e8772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:06 +0000
Subject: [PATCH 095/136] fix: margins and grand totals of Accum2 reduce
 exactly the rows shown in the cells, also for base 0 Categoricals

---
 riptable/rt_accum2.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/riptable/rt_accum2.py b/riptable/rt_accum2.py
index c0b2183..cc8178b 100755
--- a/riptable/rt_accum2.py
+++ b/riptable/rt_accum2.py
@@ -508,11 +508,6 @@ class Accum2(GroupByOps, FastArray):
         else:
             ikey = cat.grouping.ikey
 
-            # if zero base, we need 1 base for these calculations
-            if cat.grouping.base_index == 0:
-                ikey = ikey + 1
-
-            # Optimization: combine_filter was previously called
             if filter is not None:
                 # N.B. We are going to change ikey, make a copy instead of changing the input. The input
                 #      data will be used again when user calls method on the Accum2 object again.
@@ -699,6 +694,11 @@ class Accum2(GroupByOps, FastArray):
         if name is None:
             name = str.capitalize(func.__name__)
 
+        if not showfilter:
+            # a row without a row or column key is in no cell, keep it out of the margins too
+            haskeys = (cat_rows.grouping.ikey > 0) & (cat_cols.grouping.ikey > 0)
+            filter = haskeys if filter is None else haskeys & filter
+
         # get a negative boolean filter
         newfilterX = cls._calc_badslots(cat_cols, badcols, filter, False)
         newfilterY = cls._calc_badslots(cat_rows, badrows, filter, False)
@@ -739,7 +739,11 @@ class Accum2(GroupByOps, FastArray):
             totalsY = cls._accum1_pass(cat_rows, origarr, funcNum, showfilter=showfilter, filter=newfilter, **kwargs)
 
         # calculate total of totals
-        if func is not None:
+        if not callable(funcNum):
+            # same function as the cells and margins, with all rows in one group
+            one_group = Categorical(ones(len(origarr), dtype=np.int8), ["Total"])
+            totalOfTotals = cls._accum1_pass(one_group, origarr, funcNum, filter=newfilter, **kwargs)[0]
+        elif func is not None:
             # we can have common filters, row filters, and col filters
 
             try:
@@ -1287,10 +1291,10 @@ class Accum2(GroupByOps, FastArray):
 apply_dict_total = {
     GB_FUNCTIONS.GB_SUM: ("Total", np.sum, Accum2._calc_onepass),
     GB_FUNCTIONS.GB_NANSUM: ("Nansum", np.nansum, Accum2._calc_onepass),
-    GB_FUNCTIONS.GB_MIN: ("Min", np.min, Accum2._calc_onepass),
-    GB_FUNCTIONS.GB_NANMIN: ("Nanmin", np.nanmin, Accum2._calc_onepass),
-    GB_FUNCTIONS.GB_MAX: ("Max", np.max, Accum2._calc_onepass),
-    GB_FUNCTIONS.GB_NANMAX: ("Nanmax", np.nanmax, Accum2._calc_onepass),
+    GB_FUNCTIONS.GB_MIN: ("Min", np.min, Accum2._calc_multipass),
+    GB_FUNCTIONS.GB_NANMIN: ("Nanmin", np.nanmin, Accum2._calc_multipass),
+    GB_FUNCTIONS.GB_MAX: ("Max", np.max, Accum2._calc_multipass),
+    GB_FUNCTIONS.GB_NANMAX: ("Nanmax", np.nanmax, Accum2._calc_multipass),
     GB_FUNCTIONS.GB_MEAN: ("Mean", np.mean, Accum2._calc_multipass),
     GB_FUNCTIONS.GB_NANMEAN: ("Nanmean", np.nanmean, Accum2._calc_multipass),
     GB_FUNCTIONS.GB_VAR: ("Var", np.var, Accum2._calc_multipass),
-- 
2.43.0


From 54d70d7571e421bd04e544ae33fea5ffef2d4ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:57 +0000
Subject: [PATCH 096/136] fix: margins of Accum2 follow sorted keys for every
 function

---
 riptable/rt_accum2.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/riptable/rt_accum2.py b/riptable/rt_accum2.py
index cc8178b..4348c9b 100755
--- a/riptable/rt_accum2.py
+++ b/riptable/rt_accum2.py
@@ -553,6 +553,19 @@ class Accum2(GroupByOps, FastArray):
 
     # ---------------------------------------------------------------
     @classmethod
+    def _sort_totals(cls, cat, totals, showfilter):
+        """
+        Put the totals of a categorical in the order in which its keys are displayed.
+        """
+        if cat.gb_keychain.sort_gb_data:
+            sort_idx = cat.gb_keychain.isortrows
+            if showfilter:
+                sort_idx = np.append([0], sort_idx + 1)
+            totals = totals[sort_idx]
+        return totals
+
+    # ------------------------------------------------------------
+    @classmethod
     def _add_totals(cls, cat_rows, newds, name, totalsX, totalsY, totalOfTotals):
         """
         Adds a summary column on the right (totalsY)
@@ -763,6 +776,9 @@ class Accum2(GroupByOps, FastArray):
             # todo, get invalid
             totalOfTotals = 0
 
+        totalsY = cls._sort_totals(cat_rows, totalsY, showfilter)
+        totalsX = cls._sort_totals(cat_cols, totalsX, showfilter)
+
         cls._add_totals(cat_rows, newds, name, totalsX, totalsY, totalOfTotals)
 
     # ---------------------------------------------------------------
@@ -904,18 +920,9 @@ class Accum2(GroupByOps, FastArray):
             # calc totals with both rows and cols removed
             totalOfTotals = func(im)
 
-        if cat_rows.gb_keychain.sort_gb_data:
-            sort_idx = cat_rows.gb_keychain.isortrows
-            if showfilter:
-                sort_idx = np.append([0], sort_idx + 1)
-            totalsY = totalsY[sort_idx]
+        totalsY = cls._sort_totals(cat_rows, totalsY, showfilter)
+        totalsX = cls._sort_totals(cat_cols, totalsX, showfilter)
 
-        if cat_cols.gb_keychain.sort_gb_data:
-            sort_idx = cat_cols.gb_keychain.isortrows
-            if showfilter:
-                sort_idx = np.append([0], sort_idx + 1)
-            totalsX = totalsX[sort_idx]
-        # push calculations to dataset (newds)
         cls._add_totals(cat_rows, newds, name, totalsX, totalsY, totalOfTotals)
 
     # ---------------------------------------------------------------
-- 
2.43.0


From d5bacc9df648e0517f96d6dd7eb7e6f563138631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:57 +0000
Subject: [PATCH 097/136] fix: accum_ratio does not rename categories of its
 argument

---
 riptable/rt_accumtable.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/riptable/rt_accumtable.py b/riptable/rt_accumtable.py
index 8dedb1f..bc9f4c5 100644
--- a/riptable/rt_accumtable.py
+++ b/riptable/rt_accumtable.py
@@ -999,6 +999,7 @@ def accum_ratio(
     # Handle name collisions
     for key in ["Numer", "Denom", "Ratio"]:
         if key in cat2.categories():
+            cat2 = cat2.copy()  # leave the caller's categories alone
             cat2.category_replace(key, key + "_")
 
     # Compute accum
-- 
2.43.0


From 19a450db75be994c9d3223419cd08eb098fdfac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:34 +0000
Subject: [PATCH 098/136] fix: quantile of small integers does not overflow
 between neighbours

---
 riptable/rt_bin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_bin.py b/riptable/rt_bin.py
index 637e0d2..560f4b0 100644
--- a/riptable/rt_bin.py
+++ b/riptable/rt_bin.py
@@ -101,7 +101,8 @@ def quantile(x, q, interpolation_method: str = "fraction"):
 
     def _interpolate(a, b, fraction):
         """Return the point at the given fraction between a and b, where 'fraction' must be between 0 and 1."""
-        return a + (b - a) * fraction
+        # the difference of two integers may not fit their own type
+        return a + (b - a) * fraction if x.dtype.kind == "f" else a + (float(b) - float(a)) * fraction
 
     def _get_score(at):
         if datalen == 0:
-- 
2.43.0


From 1ab2dc2430121b09282e65649bd8f071a0f581d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:34 +0000
Subject: [PATCH 099/136] fix: quantile accepts interpolation_method lower and
 higher

---
 riptable/rt_bin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_bin.py b/riptable/rt_bin.py
index 560f4b0..d2b5262 100644
--- a/riptable/rt_bin.py
+++ b/riptable/rt_bin.py
@@ -116,9 +116,9 @@ def quantile(x, q, interpolation_method: str = "fraction"):
             if interpolation_method == "fraction":
                 score = _interpolate(_val(int(idx)), _val(int(idx) + 1), idx % 1)
             elif interpolation_method == "lower":
-                score = _val(np.floor(idx))
+                score = _val(int(np.floor(idx)))
             elif interpolation_method == "higher":
-                score = _val(np.ceil(idx))
+                score = _val(int(np.ceil(idx)))
             else:
                 raise ValueError("interpolation_method can only be 'fraction', 'lower' or 'higher'")
 
-- 
2.43.0


From 456b149ec7e22c479c570279e37336aba13806f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:44 +0000
Subject: [PATCH 100/136] fix: cut compares integers with fractional or
 negative edges exactly

---
 riptable/rt_bin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_bin.py b/riptable/rt_bin.py
index d2b5262..9cb41ad 100644
--- a/riptable/rt_bin.py
+++ b/riptable/rt_bin.py
@@ -367,8 +367,8 @@ def _bins_to_cuts_new(
         ids = rc.BinsToCutsSorted(x, bins, lsort, counts, mode)
         # print("bins sorted",ids, x, bins)
     else:
-        # check for int compaing to inf, if so force upcast
-        if bins[0] == -np.inf or bins[-1] == np.inf:
+        # the edges are floats: integers must be compared as floats, or the edges lose their fraction, sign or infinity
+        if x.dtype.kind in "iu":
             x = x.astype(np.float64)
         ids = rc.BinsToCutsBSearch(x, bins, mode)
         # print("bins bsearch",ids, x, bins)
-- 
2.43.0


From 16efcf439f2f6cff0a8dcfa23c207a37f3ade4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:44 +0000
Subject: [PATCH 101/136] fix: qcut accepts an array of labels

---
 riptable/rt_bin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_bin.py b/riptable/rt_bin.py
index 9cb41ad..910a4cc 100644
--- a/riptable/rt_bin.py
+++ b/riptable/rt_bin.py
@@ -389,7 +389,7 @@ def _bins_to_cuts_new(
             # first label is always clipped
             if lsort is not None:
                 temp = [CLIPPED_LONG_NAME]
-                labels = temp + labels
+                labels = temp + list(labels)
 
         # if not is_categorical_dtype(labels):
         #    labels = Categorical(labels, categories=labels, ordered=True)
-- 
2.43.0


From 7482b7a95d2f20088198f548335942426969ab2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:44 +0000
Subject: [PATCH 102/136] fix: quantile and qcut accept one row slices

---
 riptable/rt_bin.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/riptable/rt_bin.py b/riptable/rt_bin.py
index 910a4cc..a11c56d 100644
--- a/riptable/rt_bin.py
+++ b/riptable/rt_bin.py
@@ -10,7 +10,7 @@ import riptide_cpp as rc
 
 from .rt_categorical import Categorical
 from .rt_enum import CLIPPED_LONG_NAME, NumpyCharTypes, TypeRegister
-from .rt_numpy import lexsort, unique, where
+from .rt_numpy import _unstride, lexsort, unique, where
 
 
 # ------------------------------------------------------------------------------------
@@ -53,8 +53,7 @@ def quantile(x, q, interpolation_method: str = "fraction"):
         x = TypeRegister.FastArray(x)
 
     # make sure contiguous
-    if not x.flags.contiguous:
-        x = np.ascontiguousarray(x).view(TypeRegister.FastArray)
+    x = _unstride(x)
 
     # indirect sort and pass this back...
     # print("lexsort", x, x.shape)
@@ -226,8 +225,7 @@ def qcut(x, q, labels=True, retbins=False, precision=3, duplicates="raise", filt
         x = where(filter, x, np.nan)
 
     # make sure contiguous
-    if not x.flags.contiguous:
-        x = np.ascontiguousarray(x).view(TypeRegister.FastArray)
+    x = _unstride(x)
 
     dtype = x.dtype
 
@@ -628,8 +626,7 @@ def cut(
         x = where(filter, x, np.nan)
 
     # make sure contiguous
-    if not x.flags.contiguous:
-        x = np.ascontiguousarray(x).view(TypeRegister.FastArray)
+    x = _unstride(x)
 
     if not np.iterable(bins):
         if np.isscalar(bins) and bins < 1:
-- 
2.43.0


From b6b90b7db29df4c999eb51183af3c372ba6b8f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:30 +0000
Subject: [PATCH 103/136] fix: TimeSpan reads the unit and NaT of timedelta64

---
 riptable/rt_datetime.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 6c67f85..010d1b6 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -7240,6 +7240,14 @@ class TimeSpan(TimeSpanBase, DateTimeBase):
             cls._reduce_func_builder()
             cls.ReduceFuncs = True
 
+        # timedelta64 carries its own unit and missing value
+        if values.dtype.char == "m":
+            values = values.astype("timedelta64[ns]")
+            isnat = np.isnat(values)
+            values = FastArray(values.view(np.int64)).astype(np.float64)
+            values[isnat] = np.nan
+            unit = None
+
         # handle all others as numeric
         instance = values.astype(np.float64, copy=False)
         if unit is not None:
-- 
2.43.0


From 9824f7f4a8d3ef230c33bb42a0ee5f8376133680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:30 +0000
Subject: [PATCH 104/136] fix: Arrow timestamps keep their instant and display
 zone

---
 riptable/rt_datetime.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 010d1b6..6ae18a6 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -6443,7 +6443,7 @@ class DateTimeNano(DateTimeBase, TimeStampBase, DateTimeCommon):
 
         # Convert the pyarrow array's timezone (id from tz database) to a riptable TZ string,
         # then set that on the output array.
-        from_tz_str = TypeRegister.TimeZone.normalize_tz_to_tzdb_name(arr.type.tz)
+        to_tz_str = TypeRegister.TimeZone.normalize_tz_to_tzdb_name(arr.type.tz)
 
         # Create a view of the underlying data as int64 epoch-nanoseconds.
         arr_int64 = arr.view(pa.int64())
@@ -6452,7 +6452,7 @@ class DateTimeNano(DateTimeBase, TimeStampBase, DateTimeCommon):
         # depending on which options the caller has specified.
         if arr.null_count == 0:
             arr_int64_np = arr_int64.to_numpy(zero_copy_only=not writable, writable=writable)
-            return DateTimeNano(arr_int64_np, from_tz=from_tz_str)
+            return DateTimeNano(arr_int64_np, from_tz="UTC", to_tz=to_tz_str)
         elif zero_copy_only:
             raise RuntimeError("Unable to perform zero-copy conversion from an input array containing nulls.")
         else:
@@ -6475,7 +6475,7 @@ class DateTimeNano(DateTimeBase, TimeStampBase, DateTimeCommon):
             # TODO: If writable=True here, it seems like we'll do a 2nd copy of the data? Is there any way to avoid it?
             arr_int64_np = arr_int64_filled.to_numpy(zero_copy_only=not writable, writable=writable)
 
-            return DateTimeNano(arr_int64_np, from_tz=from_tz_str)
+            return DateTimeNano(arr_int64_np, from_tz="UTC", to_tz=to_tz_str)
 
     def to_arrow(
         self,
@@ -6503,7 +6503,7 @@ class DateTimeNano(DateTimeBase, TimeStampBase, DateTimeCommon):
         import pyarrow as pa
 
         # Get the tz db / ICU timezone name.
-        tz_name = TypeRegister.TimeZone.normalize_tz_to_tzdb_name(self._timezone._from_tz)
+        tz_name = TypeRegister.TimeZone.normalize_tz_to_tzdb_name(self._timezone._to_tz)
 
         # Create the corresponding pyarrow type.
         arr_type = pa.timestamp("ns", tz=tz_name)
-- 
2.43.0


From d45e6c071ae4f96f27da555d5a9afd4f18a8c7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:30 +0000
Subject: [PATCH 105/136] fix: nulls of a widened Arrow integer array become
 invalid

---
 riptable/rt_fastarray.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 35700f1..190d980 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -5832,6 +5832,8 @@ class FastArray(np.ndarray):
                     # Widen the dtype of the output array.
                     output_dtype = min_scalar_type(arr_rt_inv, promote_invalid=True)
                     arr_pa_dtype_widened = pa.from_numpy_dtype(output_dtype)
+                    # nulls become the invalid value of the widened type
+                    arr_rt_inv = INVALID_DICT[np.dtype(output_dtype).num]
 
             # Create the output array, performing a widening conversion + filling in nulls with the riptable invalid if necessary.
             # TODO: This could be faster -- if there's a way to get a numpy boolean array from a pyarrow array's null-mask,
-- 
2.43.0


From 35a7fd2485aa748c1ae1b2ae748e3550bf8e86ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:30 +0000
Subject: [PATCH 106/136] fix: sliced Arrow fixed size binary arrays keep their
 own rows

---
 riptable/rt_fastarray.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 190d980..d66fab7 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -5929,6 +5929,8 @@ class FastArray(np.ndarray):
                 arr.buffers()[1],
                 dtype="S" + str(arr.type.byte_width),
             )
+            # the buffer also holds the rows outside of a slice
+            buf = buf[arr.offset : arr.offset + len(arr)]
 
             if writable and arr.null_count == 0:  # already made a copy if null_count != 0
                 result = FastArray(np.copy(buf))
-- 
2.43.0


From 4ea7d98bc2d75621a9ee51c3c937e96d2e5c4323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:31 +0000
Subject: [PATCH 107/136] fix: Categoricals with base index 0 convert to Arrow
 with their own labels

---
 riptable/rt_categorical.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 5e8bcbc..bfbdbbd 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -5789,9 +5789,9 @@ class Categorical(GroupByOps, FastArray):
             if not invalids_mask.any():
                 invalids_mask = None
 
-            # For self.base_index == 0, we can use iKey directly;
+            # For self.base_index == 0, the codes already are 0-based (unlike the grouping's iKey);
             # for self.base_index == 1, we need to create a new 0-based iKey to pass to pyarrow.
-            indices = self.grouping.ikey
+            indices = self._fa
             if self.base_index != 0:
                 # It's important we DON'T do this in-place, as we don't want to modify the ikey array,
                 # as that'll break this Categorical instance.
@@ -5983,9 +5983,9 @@ class Categorical(GroupByOps, FastArray):
             if not invalids_mask.any():
                 invalids_mask = None
 
-            # For self.base_index == 0, we can use iKey directly;
+            # For self.base_index == 0, the codes already are 0-based (unlike the grouping's iKey);
             # for self.base_index == 1, we need to create a new 0-based iKey to pass to pyarrow.
-            indices = self.grouping.ikey
+            indices = self._fa
             if self.base_index != 0:
                 # It's important we DON'T do this in-place, as we don't want to modify the ikey array,
                 # as that'll break this Categorical instance.
-- 
2.43.0


From 6741bdda32bfed6450a1303195ec244923c82ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:31 +0000
Subject: [PATCH 108/136] fix: pandas date and time columns of any unit convert
 exactly

---
 riptable/Utils/pandas_utils.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/riptable/Utils/pandas_utils.py b/riptable/Utils/pandas_utils.py
index 4774ba7..621b3b1 100644
--- a/riptable/Utils/pandas_utils.py
+++ b/riptable/Utils/pandas_utils.py
@@ -146,12 +146,9 @@ def pandas_series_to_riptable(series: Union["pd.Series", "pd.Categorical"], tz:
             _tz = str(dtype.tz)
         except AttributeError:
             _tz = tz
-        return TypeRegister.DateTimeNano(np.asarray(series, dtype="i8"), from_tz="UTC", to_tz=_tz)
+        return TypeRegister.DateTimeNano(np.asarray(series, dtype="M8[ns]").view("i8"), from_tz="UTC", to_tz=_tz)
     elif dtype_kind == "m":
-        arr = TypeRegister.FastArray(series, dtype="i8")
-        arr = TypeRegister.TimeSpan(arr)
-        arr[arr == pd.NaT.value] = arr.inv
-        return arr
+        return TypeRegister.TimeSpan(series.to_numpy())
     elif dtype_kind == "O":
         if len(series) > 0:
             notnull = np.where(series.notnull())[0]
-- 
2.43.0


From 195051b088efdbcd3c1c9702f14efcd78f4a2f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:31 +0000
Subject: [PATCH 109/136] fix: missing DateTimeNano become NaT in pandas

---
 riptable/Utils/pandas_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/riptable/Utils/pandas_utils.py b/riptable/Utils/pandas_utils.py
index 621b3b1..75afcfb 100644
--- a/riptable/Utils/pandas_utils.py
+++ b/riptable/Utils/pandas_utils.py
@@ -204,7 +204,9 @@ def fastarray_to_pandas_series(
         categories = _to_unicode_if_string(arr.category_array) if unicode else arr.category_array
         out = pd.Series(pd.Categorical.from_codes(codes, categories=categories))
     elif isinstance(arr, TypeRegister.DateTimeNano):
-        utc_datetime = pd.DatetimeIndex(arr._np, tz="UTC")
+        # both invalid values (zero and the integer sentinel) are NaT in pandas
+        nanos = np.where(arr.isnan(), pd.NaT.value, arr._np)
+        utc_datetime = pd.DatetimeIndex(nanos, tz="UTC")
         tz_datetime = utc_datetime.tz_convert(arr._timezone._to_tz)
         out = pd.Series(tz_datetime)
     elif isinstance(arr, TypeRegister.TimeSpan):
-- 
2.43.0


From d662ab5e4e42854e5dd6a643d187bfcef2ae427d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:11 +0000
Subject: [PATCH 110/136] fix: copy.copy and copy.deepcopy of a Categorical
 work

---
 riptable/rt_categorical.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index bfbdbbd..ba797d6 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -3186,6 +3186,13 @@ class Categorical(GroupByOps, FastArray):
         """
         _copy_name(self, cat_copy)
 
+    # -------------------------------------------------------------------------
+    def __copy__(self):
+        return self.copy(deep=False)
+
+    def __deepcopy__(self, memo=None):
+        return self.copy(deep=True)
+
     # -------------------------------------------------------------------------
     def copy(
         self,
-- 
2.43.0


From 084c3a5694bf36e789b5c611a5635c368a3780b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:10 +0000
Subject: [PATCH 111/136] fix: groups, iteration and packing of a Categorical
 ignore an earlier call's filter

---
 riptable/rt_groupbyops.py |  8 ++++----
 riptable/rt_grouping.py   | 17 ++++++++++++-----
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/riptable/rt_groupbyops.py b/riptable/rt_groupbyops.py
index a582403..8c13145 100644
--- a/riptable/rt_groupbyops.py
+++ b/riptable/rt_groupbyops.py
@@ -163,7 +163,7 @@ class GroupByOps(ABC):
         Generates pairs of labels and the stored dataset sliced by their fancy indices.
         Right now, this is only called by categorical. Groupby has a faster way of return dataset slices.
         """
-        self.grouping.pack_by_group()
+        self.grouping.pack_by_group(mustrepack=True)
         igroup = self.grouping.iGroup
         ifirstgroup = self.grouping.iFirstGroup
         ncountgroup = self.grouping.nCountGroup
@@ -184,7 +184,7 @@ class GroupByOps(ABC):
         Returns key + dataset view of key's rows for each group.
         """
 
-        self.grouping.pack_by_group()
+        self.grouping.pack_by_group(mustrepack=True)
         sortidx = self.grouping.iGroup
         ifirst = self.grouping.iFirstGroup[1:]
         ncountgroup = self.grouping.nCountGroup[1:]
@@ -257,7 +257,7 @@ class GroupByOps(ABC):
         """
         # note, cache this value?
         # fancy index
-        self.grouping.pack_by_group()
+        self.grouping.pack_by_group(mustrepack=True)
         return self.grouping.iGroup[self.grouping.iFirstGroup[1:]]
 
     # ---------------------------------------------------------------
@@ -284,7 +284,7 @@ class GroupByOps(ABC):
         """
         # note, cache this value?
         # fancy index
-        self.grouping.pack_by_group()
+        self.grouping.pack_by_group(mustrepack=True)
         return self.grouping.iGroup[self.grouping.iFirstGroup[1:] + self.grouping.nCountGroup[1:] - 1]
 
     # ---------------------------------------------------------------
diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index 0e8ab9b..c12ef7e 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -1641,7 +1641,8 @@ class Grouping:
         ncountgroup
         igroupreverse
         """
-        self.pack_by_group()
+        # an earlier calculation may have packed with its own filter
+        self.pack_by_group(mustrepack=True)
         return self.iGroup
 
     # ---------------------------------------------------------------
@@ -1659,8 +1660,9 @@ class Grouping:
         igroup
         """
         # only categoricals do not have an iFirstKey
+        igroup = self.igroup
         if self.iGroupReverse is None:
-            self.iGroupReverse = rc.ReverseShuffle(self.igroup)
+            self.iGroupReverse = rc.ReverseShuffle(igroup)
         return self.iGroupReverse
 
     # ---------------------------------------------------------------
@@ -1679,6 +1681,8 @@ class Grouping:
         ifirstgroup
         igroupreverse
         """
+        if self._packedwithfilter:
+            self.pack_by_group(mustrepack=True)
         if self.nCountGroup is None:
             if len(self.ikey):
                 self.nCountGroup = rc.BinCount(self.ikey, self.unique_count + 1)
@@ -1703,7 +1707,7 @@ class Grouping:
         ncountgroup
         igroupreverse
         """
-        self.pack_by_group()
+        self.pack_by_group(mustrepack=True)
         return self.iFirstGroup
 
     # ---------------------------------------------------------------
@@ -2659,7 +2663,8 @@ class Grouping:
 
         # check if they want full array returned (not a reduction)
         if not isreduce:
-            reverse_back = self.igroupreverse
+            # reverse the current packing, which honors the filter
+            reverse_back = rc.ReverseShuffle(self.iGroup)
 
         # check if passing multiple arrays at same time
         if tups == 1:
@@ -3102,7 +3107,9 @@ class Grouping:
 
         for i in bins:
             # groupby ikey uses base-1 indexing
-            filter_group = self.as_filter(i)
+            # use the current packing, which honors the filter
+            first = self.iFirstGroup[i]
+            filter_group = self.iGroup[first : first + self.nCountGroup[i]]
             if Grouping.DebugMode:
                 print("index", i, "filter is", filter_group)
 
-- 
2.43.0


From 7a9a13a00da67e0fec171c800f51f6014d1e8724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:10 +0000
Subject: [PATCH 112/136] fix: GroupBy names its key column after the Dataset's
 own column

---
 riptable/rt_groupby.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptable/rt_groupby.py b/riptable/rt_groupby.py
index db2fcc0..07f96a1 100644
--- a/riptable/rt_groupby.py
+++ b/riptable/rt_groupby.py
@@ -197,6 +197,9 @@ class GroupBy(GroupByOps):
         gvals = list(self.grouping._anydict.values())
         if len(keys) == len(gvals):
             self._grouping_dict = {k: gvals[i] for i, k in enumerate(keys)}
+            # a categorical may carry the name it has in another dataset
+            if len(gvals) == 1:
+                self.grouping.set_name(list(keys)[0])
         # grouping dict may be larger than keys (multikey categorical splits into multiple arrays)
         else:
             self._grouping_dict = self.grouping._anydict
-- 
2.43.0


From ed6a6ffea7757a941d32ab995b58e3c1e05c4a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:00 +0000
Subject: [PATCH 113/136] fix: imatrix_make in C order keeps rows as rows

---
 riptable/rt_imatrix.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_imatrix.py b/riptable/rt_imatrix.py
index 92d0d08..41c83c7 100644
--- a/riptable/rt_imatrix.py
+++ b/riptable/rt_imatrix.py
@@ -52,7 +52,10 @@ class IMatrix:
             colnames = [*ds.keys()]
 
         # make the matrix from the dataset
-        self._imatrix = vstack([*ds[colnames].values()], dtype=dtype, order=order)
+        # (vstack in C order makes the columns of the dataset the rows of the matrix)
+        self._imatrix = vstack([*ds[colnames].values()], dtype=dtype, order="F")
+        if order == "C":
+            self._imatrix = self._imatrix.copy(order="C")
 
         # make a dataset from the matrix
         self._dataset = TypeRegister.Dataset({c: self._imatrix[:, i] for i, c in enumerate(colnames)})
-- 
2.43.0


From c258b38b4592371150fad874a1f4d4cec941403d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:00 +0000
Subject: [PATCH 114/136] fix: melt keeps the type of date and time id columns

---
 riptable/rt_dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 68a940a..dfa76a0 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -6847,7 +6847,8 @@ class Dataset(Struct):
                 # note: multikey categorical expands to a tuple of arrays
                 # previously raised an error on expand array
                 id_data = id_data.expand_array
-            mdata[col] = np.tile(id_data._np, K)
+            # keep the type of dates and times
+            mdata[col] = id_data[np.tile(np.arange(N), K)]
 
         mdata[var_name] = FastArray(list(tempdict.keys())).repeat(N)
         mdata[value_name] = hstack(list(tempdict.values()))
-- 
2.43.0


From 439773e92c371adba0621887ff2b735c0c64398a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:00 +0000
Subject: [PATCH 115/136] fix: from_jagged_rows handles unicode rows and fill
 values and leaves the caller's list alone

---
 riptable/rt_dataset.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index dfa76a0..546bf03 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -7593,7 +7593,8 @@ class Dataset(Struct):
         TODO: maybe build all final columns in the same array and fill in a snake-like manner like Accum2.
         """
 
-        # get final dataset dims, flip all input to array
+        # get final dataset dims, flip all input to array (in a new list, the caller keeps theirs)
+        rows = list(rows)
         nrows = len(rows)
 
         # always favor bytestrings
@@ -7612,7 +7613,10 @@ class Dataset(Struct):
             elif r.dtype.char not in "US":
                 flip_to_fa = True
             if flip_to_fa:
-                r = TypeRegister.FastArray(r, dtype="S")
+                try:
+                    r = TypeRegister.FastArray(r, dtype="S")
+                except UnicodeEncodeError:
+                    r = TypeRegister.FastArray(r, dtype="U", unicode=True)
             rows[i] = r
 
             # final dtype will be unicode
@@ -7621,26 +7625,23 @@ class Dataset(Struct):
 
         ncols = len(max(rows, key=len))
         # get the string itemsize so the max string fits
-        width = max(rows, key=lambda x: x.itemsize).itemsize
+        width = max(r.itemsize // 4 if r.dtype.char == "U" else r.itemsize for r in rows)
 
         # set fill value
         if fill_value is not None:
             # match to dtype
-            if isinstance(fill_value, str):
-                if dt == "S":
-                    inv = fill_value.encode()
-            elif isinstance(fill_value, bytes):
-                if dt == "U":
-                    inv = fill_value.decode()
-            else:
-                inv = str(fill_value)
+            inv = fill_value if isinstance(fill_value, (str, bytes)) else str(fill_value)
+            if dt == "S" and isinstance(inv, str):
+                inv = inv.encode()
+            elif dt == "U" and isinstance(inv, bytes):
+                inv = inv.decode()
         else:
             # use default
             inv = INVALID_DICT[np.dtype(dt).num]
 
         # make sure final array itemsize can fit all strings
-        if dt == "U":
-            width /= 4
+        if any(len(r) < ncols for r in rows):
+            width = max(width, len(inv))
         final_dt = dt + str(width)
 
         # build final dict, column by column
-- 
2.43.0


From 74d6c8e0562b51c382e1899bafd9080d777b9f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:00 +0000
Subject: [PATCH 116/136] fix: from_jagged_dict stacks rows with empty lists

---
 riptable/rt_dataset.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 546bf03..5cc0568 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -7758,10 +7758,10 @@ class Dataset(Struct):
             # Allocate the output columns, as necessary
             cols = [0] * len(type_cols)
             col_done = [0] * len(type_cols)
-            for j, type_col in enumerate(type_cols):
-                (cols[j], col_done[j]) = (
-                    (type_col, True) if len(type_col) == num_rows else (np.zeros(num_rows, type_col.dtype), False)
-                )
+            for j, (type_col, vals) in enumerate(zip(type_cols, dct.values())):
+                # the flattened values are the column when each row contributes exactly its own values
+                done = all(num_rows_ar[i] == (len(r) if is_list_like(r) else 1) for i, r in enumerate(vals))
+                (cols[j], col_done[j]) = (type_col, True) if done else (np.zeros(num_rows, type_col.dtype), False)
 
             # Fill the output columns, as necessary
             column_names = list(dct.keys())
@@ -7769,6 +7769,9 @@ class Dataset(Struct):
             for in_row_num in range(num_in_rows):
                 num_repeats = 1
                 num_out_rows = num_rows_ar[in_row_num]
+                # an empty list leaves no combinations for this row
+                if num_out_rows == 0:
+                    continue
                 for j, vals in enumerate(dct.values()):
                     if col_done[j]:
                         continue
-- 
2.43.0


From 87a6dd8911c114bf48f130fa05b15ca6e359de08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:00 +0000
Subject: [PATCH 117/136] fix: pivot uses the Dataset's labels by default

---
 riptable/rt_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 5cc0568..801cc79 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -8048,7 +8048,7 @@ class Dataset(Struct):
         """
         if labels is None:
             # see if existing labels exist
-            labels = self.labels_get_names()
+            labels = self.label_get_names()
         elif np.isscalar(labels):
             labels = [labels]
 
-- 
2.43.0


From 67ce333a0d57bd672455d3ac52701f00f172bd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:00 +0000
Subject: [PATCH 118/136] fix: pivot does not take rows removed by the filter
 for duplicates

---
 riptable/rt_dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 801cc79..8e7bd43 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -8096,7 +8096,8 @@ class Dataset(Struct):
 
         # check for duplicates
         ncountgroup = g.ncountgroup
-        pos = ncountgroup.argmax()
+        # rows removed by the filter are all in the first bin
+        pos = ncountgroup[1:].argmax() + 1
         if ncountgroup[pos] > 1:
             # find out where a duplicate is
             raise ValueError(
-- 
2.43.0


From adcf441666e7d30f9d9e7bd765aa0869c657fa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:18 +0000
Subject: [PATCH 119/136] fix: label_filter(like=, regex=) works on byte-string
 labels

---
 riptable/rt_struct.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/riptable/rt_struct.py b/riptable/rt_struct.py
index a05e03c..5d368a1 100644
--- a/riptable/rt_struct.py
+++ b/riptable/rt_struct.py
@@ -3045,18 +3045,16 @@ class Struct:
         elif like:
             if not isinstance(like, list):
                 like = [like]
-            newlist = like
-            for idx, item in enumerate(newlist):
-                if isinstance(item, str):
-                    item = item.encode()
             # slow, need faster string contains method
-            newlist = [col.apply(lambda x: item in x) for col in labels.values() for item in newlist]
+            newlist = [
+                col.apply(lambda x: bytes_to_str(item) in bytes_to_str(x)) for col in labels.values() for item in like
+            ]
             newlist = mask_ori(newlist)
 
         # regex also slow because it has to be applied to each row item
         elif regex:
             matcher = re.compile(regex)
-            newlist = [col.apply(lambda x: matcher.search(x) is not None) for col in labels.values()]
+            newlist = [col.apply(lambda x: matcher.search(bytes_to_str(x)) is not None) for col in labels.values()]
             newlist = mask_ori(newlist)
         else:
             raise TypeError("Must pass either `items`, `like`, or `regex`")
-- 
2.43.0


From 07a2443780fdcd4750cc8c6ba01f361e94a19c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:18 +0000
Subject: [PATCH 120/136] fix: col_map checks every name before renaming the
 first column

---
 riptable/rt_struct.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/riptable/rt_struct.py b/riptable/rt_struct.py
index 5d368a1..e100a67 100644
--- a/riptable/rt_struct.py
+++ b/riptable/rt_struct.py
@@ -3289,6 +3289,12 @@ class Struct:
                 rename_dict, swaps = self._safe_reordering_of_renames(rename_dict)
             else:
                 swaps = []
+            # all names are checked before the first column is renamed
+            for old, new in rename_dict.items():
+                if not self.col_exists(old):
+                    raise ValueError(f"Invalid column to rename: {old!r} does not exist.")
+                if not self.is_valid_colname(new):
+                    raise ValueError(f"Invalid column name: {new}")
             for old, new in rename_dict.items():
                 self.col_rename(old, new)
             for old, new in swaps:
-- 
2.43.0


From 67b037998da9d9f67b27c929934dbe07fdb9dcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:18 +0000
Subject: [PATCH 121/136] fix: col_pop accepts masks, slices and arrays

---
 riptable/rt_struct.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_struct.py b/riptable/rt_struct.py
index e100a67..9a153d8 100644
--- a/riptable/rt_struct.py
+++ b/riptable/rt_struct.py
@@ -3699,8 +3699,9 @@ class Struct:
         if missing:
             raise IndexError("Unknown column(s) {} do(es) not exist and cannot be popped.".format(sorted(missing)))
 
-        if isinstance(col_idx, list):
-            newds = self[col_idx]
+        if is_list_like(col_idx):
+            col_idx = list(col_idx)
+            newds = self[col_idx] if col_idx else type(self)({})
         else:
             newds = getattr(self, col_idx)
         self.col_remove(col_idx)
-- 
2.43.0


From 8a7aa1a99f7d6c9c0b5494de14a4e641def6234d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:18 +0000
Subject: [PATCH 122/136] fix: Struct.equals compares shape, dtype, class and
 categories, not only bytes

---
 riptable/rt_struct.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_struct.py b/riptable/rt_struct.py
index 9a153d8..b04a585 100644
--- a/riptable/rt_struct.py
+++ b/riptable/rt_struct.py
@@ -3894,7 +3894,7 @@ class Struct:
                 v2 = other[c2]
                 if isinstance(v1, np.ndarray):
                     if isinstance(v2, np.ndarray):
-                        if rc.CalculateCRC(v2) != rc.CalculateCRC(v1):
+                        if not self._arrays_equal(v1, v2):
                             print(f"The columns {c1!r} and {c2!r} do not crc check")
                             return False
                     else:
@@ -3902,8 +3902,8 @@ class Struct:
                         return False
                 else:
                     if not isinstance(v2, np.ndarray):
-                        if isinstance(v2, Struct):
-                            comptest = v1.equals(v2)
+                        if isinstance(v1, Struct) or isinstance(v2, Struct):
+                            comptest = isinstance(v1, Struct) and isinstance(v2, Struct) and v1.equals(v2)
                         else:
                             comptest = v1 == v2
                         if not comptest:
@@ -3917,6 +3917,26 @@ class Struct:
                 return False
         return True
 
+    # ------------------------------------------------------------
+    @staticmethod
+    def _arrays_equal(arr1, arr2):
+        """True when both arrays are of the same class and hold the same values. Used by `equals`."""
+        if arr1.shape != arr2.shape or arr1.dtype != arr2.dtype:
+            return False
+        cat1 = isinstance(arr1, TypeRegister.Categorical)
+        if cat1 != isinstance(arr2, TypeRegister.Categorical):
+            return False
+        if cat1:
+            keys1, keys2 = list(arr1.category_dict.values()), list(arr2.category_dict.values())
+            if arr1.base_index != arr2.base_index or arr1.isenum != arr2.isenum or len(keys1) != len(keys2):
+                return False
+            if arr1.isenum and arr1.category_mapping != arr2.category_mapping:
+                return False
+            if not all(Struct._arrays_equal(k1, k2) for k1, k2 in zip(keys1, keys2)):
+                return False
+            arr1, arr2 = arr1._fa, arr2._fa
+        return rc.CalculateCRC(np.ascontiguousarray(arr1)) == rc.CalculateCRC(np.ascontiguousarray(arr2))
+
     # ------------------------------------------------------------
     # can be used to copy keylists as well
     # generic routine to copy from an ordered dict to an ordered dict
-- 
2.43.0


From cbb599a4e4b55569924feec844f82bfc8e90d35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:27 +0000
Subject: [PATCH 123/136] fix: the datasets of a Multiset have the same number
 of rows, also when it is zero

---
 riptable/rt_multiset.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/riptable/rt_multiset.py b/riptable/rt_multiset.py
index 388ad98..cc1e062 100644
--- a/riptable/rt_multiset.py
+++ b/riptable/rt_multiset.py
@@ -116,12 +116,12 @@ class Multiset(Struct):
     # ------------------------------------------------------------
     def _init_from_dict(self, dictionary):
         # all __init__ paths funnel into this
-        req_nrows = 0  # number of required rows for each contained dataset and multiset
+        req_nrows = None  # number of required rows for each contained dataset and multiset
         for k, v in dictionary.items():
             if k[0] != "_":
                 # only allow Datasets and Multisets, if their number of rows are equal
                 if isinstance(v, (TypeRegister.Dataset, TypeRegister.Multiset)):
-                    if not req_nrows:
+                    if req_nrows is None:
                         req_nrows = v._nrows
                     elif req_nrows != v._nrows:
                         raise ValueError(f"Number of rows in datasets do not match")
@@ -139,8 +139,10 @@ class Multiset(Struct):
         if not isinstance(value, (TypeRegister.Dataset, TypeRegister.Multiset)):
             raise TypeError(f"Multiset only holds Datasets and Multisets not {type(value).__name__}.")
         # number of rows must match
-        if self._nrows and self._nrows != value._nrows:
+        if self._nrows is not None and self._nrows != value._nrows:
             raise ValueError(f"Number of rows do not match")
+        # the first item decides the number of rows
+        self._nrows = value._nrows
         # passed all the checks
         return value
 
@@ -208,7 +210,7 @@ class Multiset(Struct):
         if ncols == 1:
             if not isinstance(value, (TypeRegister.Dataset, Multiset)):
                 raise TypeError(f"Multiset can only hold Datasets or Multisets not {type(value)!r}.")
-            if self._nrows and self._nrows != value._nrows:
+            if self._nrows is not None and self._nrows != value._nrows:
                 raise ValueError(f"Number of rows do not match")
             if not isinstance(col_idx, str):
                 col_idx = col_idx[0]
@@ -225,7 +227,7 @@ class Multiset(Struct):
             for _k1, _v2 in zip(col_idx, value):
                 if not isinstance(_v2, (TypeRegister.Dataset, Multiset)):
                     raise TypeError(f"Multiset can only hold Datasets or Multisets.")
-                if self._nrows and self._nrows != _v2._nrows:
+                if self._nrows is not None and self._nrows != _v2._nrows:
                     raise ValueError(f"Number of rows do not match")
                 setattr(self, _k1, _v2)
                 self._nrows = _v2._nrows
-- 
2.43.0


From 3493160dab4fb2bcf615fc8701f4b6e6d94fe13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:27 +0000
Subject: [PATCH 124/136] fix: Multiset.flatten works without label columns and
 leaves the names of the source arrays alone

---
 riptable/rt_multiset.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/riptable/rt_multiset.py b/riptable/rt_multiset.py
index cc1e062..cc6dd12 100644
--- a/riptable/rt_multiset.py
+++ b/riptable/rt_multiset.py
@@ -14,6 +14,7 @@ from .rt_enum import DS_DISPLAY_TYPES, ColHeader, DisplayDetectModes, TypeRegist
 from .rt_misc import build_header_tuples
 from .rt_sort_cache import SortCache
 from .rt_struct import Struct
+from .rt_utils import bytes_to_str
 
 
 # =====================================================================================
@@ -674,10 +675,12 @@ class Multiset(Struct):
             val_col_names = [n for n in elem.keys() if n not in label_col_names]
             if horizontal:
                 if initial:
-                    dsr = elem[label_col_names] if label_col_names else TypeRegister.Dataset()
-                dsr = TypeRegister.Dataset.concat_columns([dsr, elem[val_col_names]], do_copy=False)
+                    new_cols = {n: elem[n] for n in label_col_names}
                 for col_name in val_col_names:
-                    dsr.col_rename(col_name, delimiter.join([name, col_name]))
+                    new_name = delimiter.join([name, col_name])
+                    if new_name in new_cols:
+                        raise ValueError(f"Column name {new_name!r} from {name!r} already exists")
+                    new_cols[new_name] = elem[col_name]
             else:
                 in_col_names = [n for n in elem.keys() if n not in ([dset_col_name] + label_col_names)]
                 if col_names != in_col_names:
@@ -689,12 +692,14 @@ class Multiset(Struct):
                     inds[dset_col_name] = [name] * elem.shape[0]
                 else:
                     # Append multiset name to dataset name column
-                    elem[dset_col_name] = [delimiter.join([name, cn.decode()]) for cn in elem[dset_col_name]]
-                inds = TypeRegister.Dataset.concat_columns([inds, elem[val_col_names]], do_copy=False)
+                    inds[dset_col_name] = [delimiter.join([name, bytes_to_str(cn)]) for cn in elem[dset_col_name]]
+                inds = TypeRegister.Dataset.concat_columns([inds, elem[in_col_names]], do_copy=False)
                 dsr = inds if initial else TypeRegister.Dataset.concat_rows([dsr, inds])
                 # Move the label column(s) to front, so they are there even with label removed
                 dsr.col_move_to_front(label_col_names)
             initial = False
+        if horizontal:
+            dsr = TypeRegister.Dataset(new_cols)
         dsr.label_set_names(label_col_names)
         return dsr
 
-- 
2.43.0


From e7b2127e112c393784f61655b33659f8cb3c6008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:15 +0000
Subject: [PATCH 125/136] fix: the Filtered column of a sorted Accum2 table is
 sorted like its rows

---
 riptable/rt_accum2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_accum2.py b/riptable/rt_accum2.py
index 4348c9b..4bf8c2e 100755
--- a/riptable/rt_accum2.py
+++ b/riptable/rt_accum2.py
@@ -402,7 +402,7 @@ class Accum2(GroupByOps, FastArray):
 
         # add showfilter column first if we have to
         if showfilter:
-            newds[FILTERED_LONG_NAME] = arr[0:offsety]
+            newds[FILTERED_LONG_NAME] = arr[0:offsety][sort_idx] if row_keys.sort_gb_data else arr[0:offsety]
 
         # skip showfilter row for loop below (already added or not added above)
         offset = offsety
-- 
2.43.0


From 28c360e21d1f116734ec9aa71d6b82731a39f157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:15 +0000
Subject: [PATCH 126/136] fix: Accum2 with badrows and showfilter leaves the
 caller's array alone

---
 riptable/rt_accum2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_accum2.py b/riptable/rt_accum2.py
index 4bf8c2e..219bead 100755
--- a/riptable/rt_accum2.py
+++ b/riptable/rt_accum2.py
@@ -859,7 +859,7 @@ class Accum2(GroupByOps, FastArray):
             if newfilter_rows is not None:
                 if showfilter:
                     # all the rows are shifted one over because Filtered row comes first
-                    newfilter_rows += 1
+                    newfilter_rows = newfilter_rows + 1
                 boolmaskY[newfilter_rows] = False
 
                 # now set the invalids (hide the good value)
@@ -872,7 +872,7 @@ class Accum2(GroupByOps, FastArray):
             if newfilter_cols is not None:
                 if showfilter:
                     # all the cols are shifted one over because Filtered row comes first
-                    newfilter_cols += 1
+                    newfilter_cols = newfilter_cols + 1
                 boolmaskX[newfilter_cols] = False
 
                 # now set the invalids (hide the good value)
@@ -993,7 +993,7 @@ class Accum2(GroupByOps, FastArray):
             # badrows wants fancy index
             badrows = Accum2._calc_badslots(self._cat_rows, badrows, None, True)
             if showfilter:
-                badrows += 1
+                badrows = badrows + 1
             newds._badrows = badrows
 
         badcols = kwargs.get("badcols", None)
-- 
2.43.0


From b07ec53d2c4a17cea523a7cb6864b4ef3e661385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:38 +0000
Subject: [PATCH 127/136] fix: np.round and np.rint treat halves alike wherever
 an element lies

---
 riptable/rt_fastarray.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index d66fab7..a247a3e 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -2437,17 +2437,8 @@ class FastArray(np.ndarray):
             raise ValueError(f"{FastArray.__name__}._round_ expected FastArray subtype, got {type(a)}")
 
         original_dtype = a.dtype
-        a = a.astype(np.float64)
-        fast_function = gUnaryUFuncs.get(np.round, None)
-        if fast_function is None:
-            raise ValueError(
-                f"{FastArray.__name__}._round_ unhandled array function {np.round}\nKnown numpy array function to riptable functions: {repr(gUnaryUFuncs)}"
-            )
-
-        # For MATH_OPERATION.ROUND, _BASICMATH_ONE_INPUT returns an array `array(None, dtype=object)`
-        # if the input dtype is not a float64. As a workaround cast to float64 dtype, perform the operation,
-        # then cast back to the original dtype.
-        result = TypeRegister.MathLedger._BASICMATH_ONE_INPUT(a, fast_function, 0)
+        # N.B. MATH_OPERATION.ROUND is not used: its vectorized and scalar loops disagree on halves
+        result = np.rint(a.astype(np.float64)._np)
 
         if not isinstance(result, FastArray) and isinstance(result, np.ndarray):
             result = result.view(FastArray)
@@ -5046,6 +5037,10 @@ class FastArray(np.ndarray):
                 ## UNARY
                 ###########################################################################
                 fast_function = gUnaryUFuncs.get(ufunc, None)
+                if fast_function == MATH_OPERATION.ROUND:
+                    # the vectorized and scalar loops of ROUND disagree on halves, so the result would depend on the
+                    # position and alignment of each element; let numpy calculate it
+                    fast_function = None
             else:
                 if FastArray.Verbose > 1:
                     print("***unknown ufunc arg style: ", ufunc.nin, ufunc.nout, ufunc, args, kwargs)
-- 
2.43.0


From fd0fd6597c184315736623961e971ac2f74ae23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:14 +0000
Subject: [PATCH 128/136] fix: inequalities between two Categoricals compare
 their categories, not arbitrary merged bins

---
 riptable/rt_categorical.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index ba797d6..9502cda 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -4815,7 +4815,8 @@ class Categorical(GroupByOps, FastArray):
             else:
                 oldidx = [self._fa, other._fa]
                 oldcats = [[self.category_array, other.category_array]]
-                newidx, _ = merge_cats(oldidx, oldcats)
+                # ordered: inequalities compare the merged bins, which must follow the order of the categories
+                newidx, _ = merge_cats(oldidx, oldcats, ordered=True)
                 # print('***newidx', newidx)
                 # merge index returns stacked
                 newidx_self = newidx[: len(self)]
-- 
2.43.0


From 3914b736ae8f9411d7cf70a02d6ca3486d35e937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:14 +0000
Subject: [PATCH 129/136] fix: Categorical.to_arrow recognizes a category for
 the invalid code of a mapping

---
 riptable/rt_categorical.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 9502cda..e2f6224 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -5860,12 +5860,12 @@ class Categorical(GroupByOps, FastArray):
             # want to encode it as a valid mapping.
             # Create a mask of nulls/invalids we can pass to the DictionaryArray creation below.
             invalids_mask = None
-            have_filtered_category, filtered_category_idx = ismember(FastArray([all_codes.inv]), all_codes)
-            if have_filtered_category[0]:
-                valid_category_mask = arange(len(all_codes)) != filtered_category_idx[0]
+            # (isnan, because an invalid integer equals nothing, not even itself)
+            valid_category_mask = all_codes.isnotnan()
+            if not valid_category_mask.all():
                 all_names = all_names[valid_category_mask]
                 all_codes = all_codes[valid_category_mask]
-                invalids_mask = self._fa == all_codes.inv
+                invalids_mask = self._fa.isnan()
 
             # Create the 0-based "dictionary-encoded" indices.
             # N.B. We use ._fa here because self.ikey accounts for codes that appear in self._fa but aren't
-- 
2.43.0


From 587c2f702fc1797d38b08c944bf8079ba3ca82e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:14 +0000
Subject: [PATCH 130/136] fix: expanding a numeric Categorical keeps the type
 of the categories, so filtered rows are recognized as invalid

---
 riptable/rt_categorical.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index e2f6224..1416756 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -6264,7 +6264,8 @@ class Categorical(GroupByOps, FastArray):
         # This is because the 'hstack' function will return an array of the same type as
         # the first/leftmost argument it's given, and we want this function to return
         # an array of the same type as 'arr' so the type information is preserved.
-        invarr = np.array([inv])
+        # keep the numeric type, otherwise the invalid is no longer recognized in the wider type
+        invarr = np.array([inv], dtype=None if arr.dtype.char in "SU" else arr.dtype)
         invarr = TypeRegister.newclassfrominstance(invarr, arr)
 
         # TODO: Revisit after upgrading to numpy 1.17+ -- this might be a better approach compared to
-- 
2.43.0


From 063f4daf1b57a53322c4e76a0e0663db15b85082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:15 +0000
Subject: [PATCH 131/136] fix: Grouping.isin is False for filtered rows

---
 riptable/rt_grouping.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index c12ef7e..af99f37 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -1373,7 +1373,8 @@ class Grouping:
             if self.base_index == 0:
                 return found[self.catinstance]
             else:
-                return found[self.catinstance - 1]
+                # filtered rows are in no group
+                return found[self.catinstance - 1] & (self.catinstance != 0)
 
         # mask = None
         # result_len = len(self.catinstance)
-- 
2.43.0


From 92ecf4fda3f8519664df75c46c3b3798b05c152f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:07 +0000
Subject: [PATCH 132/136] fix: Dataset.nanmin and nanmax work by default on
 Datasets with string columns

---
 riptable/rt_dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 8e7bd43..df99054 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -6669,11 +6669,11 @@ class Dataset(Struct):
         """See documentation of :meth:`~rt.rt_dataset.Dataset.reduce`"""
         return self.reduce(nanmedian, axis=axis, as_dataset=as_dataset, fill_value=fill_value)
 
-    def nanmin(self, axis=0, as_dataset=True, fill_value=min):
+    def nanmin(self, axis=0, as_dataset=True, fill_value=lambda arr: min(arr)):
         """See documentation of :meth:`~rt.rt_dataset.Dataset.reduce`"""
         return self.reduce(nanmin, axis=axis, as_dataset=as_dataset, fill_value=fill_value)
 
-    def nanmax(self, axis=0, as_dataset=True, fill_value=max):
+    def nanmax(self, axis=0, as_dataset=True, fill_value=lambda arr: max(arr)):
         """See documentation of :meth:`~rt.rt_dataset.Dataset.reduce`"""
         return self.reduce(nanmax, axis=axis, as_dataset=as_dataset, fill_value=fill_value)
 
-- 
2.43.0


From 578160ede2c9b838a322b6af11a889e1fb3480b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:19 +0000
Subject: [PATCH 133/136] fix: stacking nested single-file saves keeps the
 class of items that only later files hold

---
 riptable/rt_sds.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/riptable/rt_sds.py b/riptable/rt_sds.py
index 1038ad9..de40c87 100644
--- a/riptable/rt_sds.py
+++ b/riptable/rt_sds.py
@@ -22,6 +22,7 @@ __all__ = [
     "SDSRebuildRootOff",
 ]
 
+import json
 import os
 import shutil
 
@@ -1330,17 +1331,14 @@ def _multistack_onefile(arrays, nameflag_tup, cutoffs, meta, sep="/"):
     """
 
     def _build_meta(metastrings):
-        # this routine does not get meta for a categorical that appears later
-        # we would have to go through all meta data to discover new items
-        # get the first meta string (they are stacked)
-        beststring = metastrings[0]
-        if len(beststring) == 0:
-            for i in range(1, len(metastrings)):
-                beststring = metastrings[i]
-                if len(beststring) > 0:
-                    break
-        # print("buildmeta returning", beststring)
-        return beststring
+        # the meta strings are stacked, one per file (empty when the file lacks the item):
+        # an item may first appear in a later file, so every file's meta data is needed
+        merged = {}
+        for metastring in metastrings:
+            if len(metastring) > 0:
+                for name, item_meta in json.loads(bytes(metastring)).items():
+                    merged.setdefault(name, item_meta)
+        return json.dumps(merged).encode()
 
     # first pass, build an array of (colname, value, arrayflag)
     data_cutoffs = {}
-- 
2.43.0


From 22ca50bf41f179ded6f2ac1c2d1d4fa2078364c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:19 +0000
Subject: [PATCH 134/136] fix: stacking nested single-file saves keeps items
 that only later files hold inside their container

---
 riptable/rt_sds.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/riptable/rt_sds.py b/riptable/rt_sds.py
index de40c87..c385c7d 100644
--- a/riptable/rt_sds.py
+++ b/riptable/rt_sds.py
@@ -1361,6 +1361,25 @@ def _multistack_onefile(arrays, nameflag_tup, cutoffs, meta, sep="/"):
                 purename = colname[pos + 1 :]
                 data_cutoffs[purename] = cutoffs[i]
 
+    # an item first found in a later file was appended at the end: put it back inside its container
+    entry_points = [tup[0] for tup in obj_array if tup[2] & SDSFlag.Nested]
+    children = {}
+    for i, tup in enumerate(obj_array):
+        parents = [name for name in entry_points if name != tup[0] and tup[0].startswith(name)]
+        children.setdefault(max(parents, key=len, default=""), []).append(i)
+
+    order = []
+
+    def _place(parent):
+        for i in children.get(parent, ()):
+            order.append(i)
+            if obj_array[i][2] & SDSFlag.Nested:
+                _place(obj_array[i][0])
+
+    _place("")
+    obj_array = obj_array[order]
+    cutoffs = [cutoffs[i] for i in order]
+
     startname = ""
     # the root meta
     meta = _build_meta(meta)
-- 
2.43.0


From cf54a71daaec1f6efc2d5ecc1546c31796db047c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:02 +0000
Subject: [PATCH 135/136] fix: merge_asof2 accepts a TimeSpan scalar as
 tolerance, as documented

---
 riptable/rt_merge_asof.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_merge_asof.py b/riptable/rt_merge_asof.py
index 84f9490..8fec3ba 100644
--- a/riptable/rt_merge_asof.py
+++ b/riptable/rt_merge_asof.py
@@ -1167,8 +1167,10 @@ def _validate_and_normalize_tolerance(
     # If 'tolerance' is a value of a signed type, don't allow negative values;
     # the 'as-of' logic won't work correctly if given a negative value.
     negative_tol_errmsg = "Negative tolerance values not supported for as-of merges."
-    if isinstance(tolerance, float) or (
-        isinstance(tolerance, np.generic) and np.issubdtype(tolerance.dtype, np.floating)
+    # N.B. TimeSpanScalar derives from np.float64, it has its own branch below.
+    if not isinstance(tolerance, TimeSpanScalar) and (
+        isinstance(tolerance, float)
+        or (isinstance(tolerance, np.generic) and np.issubdtype(tolerance.dtype, np.floating))
     ):
         if tolerance < 0 or isnan(tolerance):
             raise ValueError(negative_tol_errmsg)
-- 
2.43.0


From 33ec347b28b4c0e5bccf83b39f242c3b0bfc9581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:49 +0000
Subject: [PATCH 136/136] fix: mapping_replace removes the replaced name from
 the mapping

---
 riptable/rt_categorical.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 1416756..ca854f2 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -1085,6 +1085,7 @@ class Categories:
                 elif how == "replace":
                     if value is not None:
                         if exists is not False:
+                            self.str2intdict.pop(exists, None)
                             self.int2strdict[code] = value
                             self.str2intdict[value] = code
                         else:
-- 
2.43.0

