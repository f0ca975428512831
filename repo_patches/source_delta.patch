From f07f01692caf7cc6e025c575f294d6174d5cc7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:57 +0000
Subject: [PATCH 01/24] fix: deleting last dataset does not remove 'basepath'
 when it ends with a separator

---
 oups/store/collection.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/oups/store/collection.py b/oups/store/collection.py
index 6063968..2e96cfb 100644
--- a/oups/store/collection.py
+++ b/oups/store/collection.py
@@ -273,7 +273,12 @@ class ParquetSet:
             rmtree(dirpath)
             self._keys.remove(key)
             # Remove possibly empty directories.
+            # Number of folders strictly between dataset and 'basepath' is known
+            # from the schema, whatever how 'basepath' is written (it may end
+            # with a separator). 'basepath' itself is never removed.
             upper_dir = strip_path_tail(dirpath)
-            while (upper_dir != basepath) and (not listdir(upper_dir)):
+            for _ in range(self._indexer.depth - 1):
+                if listdir(upper_dir):
+                    break
                 rmdir(upper_dir)
                 upper_dir = strip_path_tail(upper_dir)
-- 
2.43.0


From b26d6175dcfa8a5f61a73afba8a530b1bb0cec23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:57 +0000
Subject: [PATCH 02/24] fix: keep leading empty string field in string
 representation of a key

---
 oups/store/indexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oups/store/indexer.py b/oups/store/indexer.py
index 5c25abb..78568a9 100644
--- a/oups/store/indexer.py
+++ b/oups/store/indexer.py
@@ -139,7 +139,7 @@ def _dataclass_instance_to_str(toplevel: dataclass, as_path: bool = False) -> st
     for fields_ in _dataclass_instance_to_lists(toplevel):
         # Relying on the fact that only the tail can be a dataclass instance.
         to_str.append(toplevel.fields_sep.join(map(str, fields_[:-1])))
-    if to_str[-1]:
+    if len(fields_) > 1:
         to_str[-1] += f"{toplevel.fields_sep}{str(fields_[-1])}"
     else:
         to_str[-1] = str(fields_[-1])
-- 
2.43.0


From 1f8b1dce756ef9b2a3683dabe61f245357b2ae18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:57 +0000
Subject: [PATCH 03/24] fix: do not turn a string that is not the
 representation of a key into a key

---
 oups/store/indexer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/oups/store/indexer.py b/oups/store/indexer.py
index 78568a9..9ca6540 100644
--- a/oups/store/indexer.py
+++ b/oups/store/indexer.py
@@ -194,7 +194,7 @@ def _dataclass_instance_from_str(cls: Type[dataclass], string: str) -> Union[dat
     types = _dataclass_fields_types_to_lists(cls)
     # Split string depending 'fields_sep' and 'DIR_SEP', into different fields.
     fields_sep = cls.fields_sep
-    strings_as_list = re.split(rf"{DIR_SEP}|\{fields_sep}", string)
+    strings_as_list = re.split(f"{DIR_SEP}|{re.escape(fields_sep)}", string)
     # Manages last level first.
     level_types = types.pop()  # remove last element
     level_length = len(level_types)
@@ -216,7 +216,10 @@ def _dataclass_instance_from_str(cls: Type[dataclass], string: str) -> Union[dat
                     strings_as_list[-level_length:],
                 )
             ] + [level_types[-1](*level)]
-        return cls(*level, check=False)
+        key = cls(*level, check=False)
+        # Discard strings which are not the representation of a key (too many
+        # fields, non-canonical 'int'...)
+        return key if string in (key.to_path, str(key)) else None
     except (TypeError, ValueError):
         # TypeError if the number of arguments for instantiation of a
         # dataclass is not correct (meaning the split has not been done
-- 
2.43.0


From bff22ed1e8936178e3390329430b7002b58330d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:57 +0000
Subject: [PATCH 04/24] fix: reject keys having a level with an empty name

---
 oups/store/indexer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oups/store/indexer.py b/oups/store/indexer.py
index 9ca6540..21d05fb 100644
--- a/oups/store/indexer.py
+++ b/oups/store/indexer.py
@@ -79,6 +79,9 @@ def _validate_toplevel_instance(toplevel: dataclass):
     forbidden_chars = (toplevel.fields_sep, *FORBIDDEN_CHARS)
     for fields_ in _dataclass_instance_to_lists(toplevel):
         number_of_fields = len(fields_)
+        if [field for field in fields_ if not _is_dataclass_instance(field)] == [""]:
+            # A level with an empty name has no folder of its own.
+            raise ValueError("an empty string cannot be the only field value of a level.")
         for counter, field in enumerate(fields_):
             if _is_dataclass_instance(field):
                 # If a dataclass instance.
-- 
2.43.0


From 0dab3cb87c893f67f993c45a5e1ee06d20f583f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:57 +0000
Subject: [PATCH 05/24] fix: keep ascending order when new data falls between
 or before existing row groups

---
 oups/store/writer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 871f3a4..536f894 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -496,6 +496,10 @@ def write(
                 [[(ordered_on, ">=", start), (ordered_on, "<=", end)]],
                 as_idx=True,
             )
+            if not rrgs_idx:
+                # No overlap. To keep ascending order, new data has to be
+                # inserted before the 1st row group that comes after it, if any.
+                rrgs_idx = filter_row_groups(pf, [[(ordered_on, ">", end)]], as_idx=True)[:1]
             if rrgs_idx:
                 if len(rrgs_idx) == 1:
                     rrg_start_idx = rrgs_idx[0]
-- 
2.43.0


From a0bcf5a81c9a771bc0d8b0d3d4146d967af3f7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:57 +0000
Subject: [PATCH 06/24] fix: keep ascending order when coalescing and new data
 overlaps first row group

---
 oups/store/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 536f894..3b775f2 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -522,7 +522,7 @@ def write(
             # Confirm or not coalescing of incomplete row groups.
             n_irgs = n_rrgs - rrg_start_idx_tmp
             if total_rows_in_irgs >= max_row_group_size or n_irgs >= max_nirgs:
-                if rrg_start_idx and (
+                if rrg_start_idx is not None and (
                     not rrg_end_idx or (rrg_end_idx and rrg_start_idx_tmp < rrg_end_idx)
                 ):
                     # 1st case checked: case 'ordered_on' is used with potential
-- 
2.43.0


From 1f5a1965d95ca1bc7a890fdb51fd07ab3ea1bed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:57 +0000
Subject: [PATCH 07/24] fix: record restart metadata when last seed index is 0

---
 oups/aggstream/aggstream.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index 7560311..4225935 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -789,7 +789,7 @@ def _post_n_write_agg_chunks(
         initial_agg_res = False
         main_res = None
     main_key, snap_key = key if isinstance(key, tuple) else (key, None)
-    if last_seed_index:
+    if last_seed_index is not None:
         # If 'last_seed_index', set oups metadata.
         # It is possible there is no result yet to write for different reasons:
         # - new seed data has been streamed and needs to be taken into account,
@@ -823,7 +823,7 @@ def _post_n_write_agg_chunks(
             )
         else:
             store[main_key] = write_config, main_res
-    elif last_seed_index:
+    elif last_seed_index is not None:
         # If no result, metadata is possibly to be written, as this is the
         # flag indicating the last 'aggstream' local iteration.
         try:
-- 
2.43.0


From 163ccdb90746affccdcb7bae1b28dc4b3e7d4365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:21 +0000
Subject: [PATCH 08/24] fix: oups metadata values: add falsy ones, do not store
 'None'

---
 oups/store/writer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 3b775f2..fe7d5b1 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -306,11 +306,13 @@ def write_metadata(
                     else:
                         # Case 'update'.
                         existing_oups_spec_md[key] = value
-                elif value:
+                elif value is not None:
                     # Case 'add'.
                     existing_oups_spec_md[key] = value
         else:
-            existing_oups_spec_md = new_oups_spec_md
+            existing_oups_spec_md = {
+                key: value for key, value in new_oups_spec_md.items() if value is not None
+            }
         del OUPS_METADATA[md_key]
 
         if metadata:
-- 
2.43.0


From c0b3dc637b1d37aa04b952554df02456c78bf18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:21 +0000
Subject: [PATCH 09/24] fix: do not modify user-provided metadata when writing
 oups metadata

---
 oups/store/writer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index fe7d5b1..dc782fa 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -316,7 +316,8 @@ def write_metadata(
         del OUPS_METADATA[md_key]
 
         if metadata:
-            metadata[OUPS_METADATA_KEY] = dumps(existing_oups_spec_md)
+            # Do not modify in-place the dict provided by the user.
+            metadata = {**metadata, OUPS_METADATA_KEY: dumps(existing_oups_spec_md)}
         else:
             metadata = {OUPS_METADATA_KEY: dumps(existing_oups_spec_md)}
 
-- 
2.43.0


From cb598c27c0084b6a3c90483f4123faa84595cfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:21 +0000
Subject: [PATCH 10/24] fix: expand plain column names without splitting them
 into characters

---
 oups/store/writer.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index dc782fa..ecdafde 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -202,12 +202,14 @@ def to_midx(idx: Index, levels: List[str] = None) -> MultiIndex:
     for val in idx:
         try:
             tup = literal_eval(val)
-            # Get max number of levels.
-            max_levels = max(len(tup), max_levels)
-            idx_temp.append(tup)
-        except ValueError:
+        except (ValueError, SyntaxError):
+            tup = None
+        if not isinstance(tup, tuple):
             # Keep value as string, enclosed in a tuple.
-            idx_temp.append(tuple(val))
+            tup = (val,)
+        # Get max number of levels.
+        max_levels = max(len(tup), max_levels)
+        idx_temp.append(tup)
     # Generate names of levels if required.
     diff = 0
     if levels is None:
@@ -216,6 +218,8 @@ def to_midx(idx: Index, levels: List[str] = None) -> MultiIndex:
         diff = max_levels
     elif (len_lev := len(levels)) < max_levels:
         diff = max_levels - len_lev
+        # Do not modify in-place the list provided by the user.
+        levels = list(levels)
     if diff > 0:
         levels.extend([f"l{i}" for i in range(len_lev, max_levels)])
     # Equalize length of tuples.
-- 
2.43.0


From 0117396464ba732d0d7349b161a79ec6bb663118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:57 +0000
Subject: [PATCH 11/24] fix: 'by_x_rows' keeps row counts and row indices as
 'int' when restarting

---
 oups/aggstream/segmentby.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oups/aggstream/segmentby.py b/oups/aggstream/segmentby.py
index a36fd42..f995f6e 100644
--- a/oups/aggstream/segmentby.py
+++ b/oups/aggstream/segmentby.py
@@ -467,7 +467,7 @@ def by_x_rows(
         n_rows_in_last_bin = (
             n_rows_for_new_bins
             if n_rows_for_new_bins <= by
-            else fmod(n_rows_for_new_bins, by) or by
+            else int(fmod(n_rows_for_new_bins, by)) or by
         )
     else:
         # Case 'there are not'.
-- 
2.43.0


From 5197a89da2f4442e87c65a53061938a73932d101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:59 +0000
Subject: [PATCH 12/24] fix: updating a dataset with an empty dataframe does
 not raise

---
 oups/store/writer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index ecdafde..3c345b6 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -466,6 +466,10 @@ def write(
         # Recorded row group start and end indexes.
         rrg_start_idx, rrg_end_idx = None, None
         pf = ParquetFile(dirpath)
+        if len(data) == 0:
+            # No row to add to recorded data.
+            write_metadata(pf=pf, metadata=metadata, md_key=md_key)
+            return
         n_rrgs = len(pf.row_groups)
         if duplicates_on is not None:
             if not ordered_on:
-- 
2.43.0


From e31a6589aae63553891e7f1c9d6d58af3c3f5d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:33 +0000
Subject: [PATCH 13/24] fix: coalescing does not raise when there is no
 incomplete row group to merge

---
 oups/store/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 3c345b6..c924ed9 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -541,7 +541,7 @@ def write(
                     # the tail, in which case coalescing of end data would not be
                     # performed.
                     rrg_start_idx = min(rrg_start_idx_tmp, rrg_start_idx)
-                elif not rrg_end_idx:
+                elif not rrg_end_idx and rrg_start_idx_tmp < n_rrgs:
                     # 2nd case checked: case 'ordered_on' is not used. New data is
                     # necessarily appended in this case.
                     rrg_start_idx = rrg_start_idx_tmp
-- 
2.43.0


From e5852c7ea83d40782bd41f391ae8150c1c5eb522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:33 +0000
Subject: [PATCH 14/24] fix: coalescing does not raise when
 'max_row_group_size' is not set

---
 oups/store/writer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index c924ed9..64ec56e 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -524,6 +524,8 @@ def write(
             # Number of incomplete row groups at end of recorded data.
             # Initialize number of rows with number to be written.
             total_rows_in_irgs = len(data)
+            if max_row_group_size is None:
+                max_row_group_size = MAX_ROW_GROUP_SIZE
             rrg_start_idx_tmp = n_rrgs - 1
             min_row_group_size = int(max_row_group_size * 0.9)
             while pf[rrg_start_idx_tmp].count() <= min_row_group_size and rrg_start_idx_tmp >= 0:
-- 
2.43.0


From 99ccd126a9ac46064f07df1b1953abd73b315db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:19 +0000
Subject: [PATCH 15/24] fix: do not modify user-provided list of columns
 identifying duplicates

---
 oups/store/writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 64ec56e..96ceb79 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -112,7 +112,7 @@ def iter_dataframe(
         elif isinstance(duplicates_on, list):
             if duplicates_on and sharp_on not in duplicates_on:
                 # Case 'not an empty list', and 'ordered_on' not in.
-                duplicates_on.append(sharp_on)
+                duplicates_on = [*duplicates_on, sharp_on]
         elif duplicates_on != sharp_on:
             # Case 'duplicates_on' is a single column name, but not
             # 'sharp_on'.
@@ -487,7 +487,7 @@ def write(
             elif isinstance(duplicates_on, list):
                 if duplicates_on and ordered_on not in duplicates_on:
                     # Case 'not an empty list', and 'ordered_on' not in.
-                    duplicates_on.append(ordered_on)
+                    duplicates_on = [*duplicates_on, ordered_on]
             elif duplicates_on != ordered_on:
                 # Case 'duplicates_on' is a single column name, but not
                 # 'ordered_on'.
-- 
2.43.0


From 170dd8fb711930b2b23c23e6ef49be122c1ab161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:41 +0000
Subject: [PATCH 16/24] fix: keep ascending order when a value spreads over
 several row groups at an insertion

---
 oups/store/writer.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 96ceb79..3833a34 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -15,7 +15,6 @@ from typing import Dict, Hashable, List, Tuple, Union
 from fastparquet import ParquetFile
 from fastparquet import write as fp_write
 from fastparquet.api import filter_row_groups
-from fastparquet.api import statistics
 from fastparquet.util import update_custom_metadata
 from numpy import searchsorted as np_searchsorted
 from numpy import unique as np_unique
@@ -591,12 +590,19 @@ def write(
             pf.remove_row_groups(overlapping_rgs, write_fmd=False)
             if rrg_end_idx is not None:
                 # New data has been inserted in the middle of existing row groups.
-                # Sorting row groups based on 'max' in 'ordered_on'.
-                ordered_on_idx = pf.columns.index(ordered_on)
-                pf.fmd.row_groups = sorted(
-                    pf.fmd.row_groups,
-                    key=lambda rg: statistics(rg.columns[ordered_on_idx])["max"],
+                # New row groups have been appended: they take the place of
+                # removed ones. To be noticed, statistics cannot be used for
+                # sorting, as a same value may spread over several row groups.
+                n_kept_rrgs = n_rrgs - len(overlapping_rgs)
+                kept_rgs, new_rgs = (
+                    pf.fmd.row_groups[:n_kept_rrgs],
+                    pf.fmd.row_groups[n_kept_rrgs:],
                 )
+                pf.fmd.row_groups = [
+                    *kept_rgs[:rrg_start_idx],
+                    *new_rgs,
+                    *kept_rgs[rrg_start_idx:],
+                ]
             # Rename partition files, and write fmd.
             pf._sort_part_names(write_fmd=False)
     else:
-- 
2.43.0


From 15032d1ad80fcf0d4203eae861b093db63f7e3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 17/24] fix: restart segmentation by values provided in a
 pandas Series

---
 oups/aggstream/segmentby.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/oups/aggstream/segmentby.py b/oups/aggstream/segmentby.py
index f995f6e..0c75c0a 100644
--- a/oups/aggstream/segmentby.py
+++ b/oups/aggstream/segmentby.py
@@ -23,6 +23,7 @@ from numpy import ndenumerate
 from numpy import nonzero
 from numpy import zeros
 from pandas import DataFrame as pDataFrame
+from pandas import Index
 from pandas import IntervalIndex
 from pandas import Series as pSeries
 from pandas import Timedelta
@@ -231,6 +232,10 @@ def by_scale(
                 )
         else:
             chunk_labels = chunk_ends = by
+        # Following processing is position-based. Discard index of Series if
+        # any, which label-based indexing would interfere, notably once the
+        # first values have been trimmed.
+        chunk_labels, chunk_ends = Index(chunk_labels), Index(chunk_ends)
         if buffer:
             # In case at previous iteration, there has been no snapshot,
             # 'buffer' will not contain 'KEY_RESTART_KEY', but will contain
@@ -295,7 +300,7 @@ def by_scale(
         if chunk_ends.empty:
             if isinstance(buffer, dict):
                 buffer[KEY_LAST_ON_VALUE] = on.iloc[-1]
-            return (NULL_INT64_1D_ARRAY, chunk_labels, 0, closed, chunk_ends, False)
+            return (NULL_INT64_1D_ARRAY, pSeries(chunk_labels), 0, closed, chunk_ends, False)
     if chunk_ends.dtype == DTYPE_DATETIME64:
         next_chunk_starts, n_null_chunks, data_traversed = _next_chunk_starts(
             on.to_numpy(copy=False).view(DTYPE_INT64),
-- 
2.43.0


From 813a353875814e1e5b8d0e56e0bf9c375373b3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:21 +0000
Subject: [PATCH 18/24] fix: do not modify key configuration provided by the
 user

---
 oups/aggstream/aggstream.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index 4225935..1eb9b5b 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -171,9 +171,9 @@ def _init_keys_config(
     agg_pd = {}
     for key, key_conf_in in keys_config.items():
         # Parameters in 'key_conf_in' take precedence over those in
-        # 'keys_default'. Additionally, with this step, 'key_conf_in' is a
-        # deep copy, and when parameters are popped, it does not affect
-        # the initial 'key_conf_in'.
+        # 'keys_default'. 'key_conf_in' being a copy, when parameters are
+        # popped, it does not affect the initial 'key_conf_in'.
+        key_conf_in = dict(key_conf_in)
         try:
             bin_by = key_conf_in.pop(KEY_BIN_BY)
         except KeyError:
-- 
2.43.0


From d42ad86ff0a8ad427a61c6664c78116648cc34af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:21 +0000
Subject: [PATCH 19/24] fix: accept 'None' as filter for unfiltered seed data

---
 oups/aggstream/aggstream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index 1eb9b5b..75d8496 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -1258,7 +1258,7 @@ class AggStream:
             # Check if only an "AND" part has been provided. If yes, enclose it
             # in an outer list.
             filters = {
-                filt_id: [filters_] if isinstance(filters_[0], tuple) else filters_
+                filt_id: [filters_] if filters_ and isinstance(filters_[0], tuple) else filters_
                 for filt_id, filters_ in filters.items()
             }
         # Set default values for keys' config.
-- 
2.43.0


From 1d928c68e76e935d908cc210826394519da2f4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:17 +0000
Subject: [PATCH 20/24] fix: refuse seed chunks going back before the end of
 the previous one

---
 oups/aggstream/aggstream.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index 75d8496..cc35773 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -529,12 +529,14 @@ def _iter_data(
         # No aggregation result existing yet. Whatever 'trim_start' value, no
         # trimming is possible.
         trim_start = False
-    seed_remainder = None
+    seed_remainder = last_seed_index = None
     for seed_chunk in seed:
         # Check seed chunk is ordered on 'ordered_on'.
         # This re-ordering is made because for 'trim_start' and
         # 'discard_last', this ordering is required.
-        if not seed_chunk[ordered_on].is_monotonic_increasing:
+        if not seed_chunk[ordered_on].is_monotonic_increasing or (
+            last_seed_index is not None and (seed_chunk[ordered_on] < last_seed_index).any()
+        ):
             # Currently un-eased to silently modify seed data without knowing
             # if it makes sense, so leaving this row commented.
             # seed_chunk.sort_values(by=ordered_on, inplace=True)
@@ -553,6 +555,9 @@ def _iter_data(
         # DataFrame its 'final' length.
         if not (seed_remainder is None or seed_remainder.empty):
             seed_chunk = pconcat([seed_remainder, seed_chunk], ignore_index=True)
+        # 'ordered_on' being necessarily in ascending order, last index
+        # value is its max value.
+        last_seed_index = seed_chunk.loc[:, ordered_on].iloc[-1]
         # Step 3 / Prepare filter to trim seed head and tail if requested.
         if trim_start:
             if seed_chunk.loc[:, ordered_on].iloc[-1] < restart_index:
@@ -565,9 +570,6 @@ def _iter_data(
                 trim_start = False
         else:
             filter_array = ones(len(seed_chunk), dtype=bool)
-        # 'ordered_on' being necessarily in ascending order, last index
-        # value is its max value.
-        last_seed_index = seed_chunk.loc[:, ordered_on].iloc[-1]
         if discard_last:
             filter_main_chunk = seed_chunk.loc[:, ordered_on] < last_seed_index
             seed_remainder = seed_chunk.loc[~filter_main_chunk]
-- 
2.43.0


From 0386415554d09e30d114175f06d4fa12763cf9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:12 +0000
Subject: [PATCH 21/24] fix: same bins when restarting with a frequency whose
 edges depend on the first value

---
 oups/aggstream/segmentby.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/oups/aggstream/segmentby.py b/oups/aggstream/segmentby.py
index 0c75c0a..8a3d74b 100644
--- a/oups/aggstream/segmentby.py
+++ b/oups/aggstream/segmentby.py
@@ -31,6 +31,7 @@ from pandas import concat as pconcat
 from pandas import date_range
 from pandas.core.resample import TimeGrouper
 from pandas.core.resample import _get_timestamp_range_edges as gtre
+from pandas.tseries.offsets import Tick
 
 
 # Some constants.
@@ -47,6 +48,7 @@ KEY_LAST_BIN_LABEL = "last_bin_label"
 KEY_LAST_BIN_END = "last_bin_end"
 KEY_RESTART_KEY = "restart_key"
 KEY_LAST_ON_VALUE = "last_on_value"
+KEY_ORIGIN = "origin"
 # Keys for 'bin_by' when a dict
 KEY_ON_COLS = "on_cols"
 KEY_BIN_BY = "bin_by"
@@ -208,13 +210,25 @@ def by_scale(
         # to use 'closed' provided.
         if closed is None:
             closed = by.closed
+        origin = by.origin
+        if (
+            buffer is not None
+            and isinstance(by.freq, Tick)
+            and (origin == "start" or (origin == "start_day" and Timedelta(1, "D") % by.freq))
+        ):
+            # Bin edges depend on the first value processed: keep those of the
+            # first iteration.
+            origin = buffer.setdefault(
+                KEY_ORIGIN,
+                first if origin == "start" else first.normalize(),
+            )
         start, end = gtre(
             first=first,
             last=on.iloc[-1],
             freq=by.freq,
             closed=closed,
             unit=first.unit,
-            origin=by.origin,
+            origin=origin,
             offset=by.offset,
         )
         edges = date_range(start, end, freq=by.freq)
@@ -345,9 +359,10 @@ def by_scale(
                     # Initialize this way if there are more than 2 elements at
                     # least.
                     buffer[KEY_RESTART_KEY] = chunk_ends[n_chunks - 2]
-                else:
+                elif isinstance(by.freq, Tick) or KEY_RESTART_KEY not in buffer:
                     # If there is a single incomplete bin, take first element
-                    # in 'on'.
+                    # in 'on' (with a calendar frequency, edges depend on the
+                    # restart value: the one of this bin is kept).
                     buffer[KEY_RESTART_KEY] = on.iloc[0]
             else:
                 # Take last end
-- 
2.43.0


From 0bfad1a5f5495a28bd2a7a6042ebed16aec398ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:46 +0000
Subject: [PATCH 22/24] fix: empty bins having the label of another bin do not
 set it null

---
 oups/aggstream/cumsegagg.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/oups/aggstream/cumsegagg.py b/oups/aggstream/cumsegagg.py
index e6afc18..8f32d9f 100644
--- a/oups/aggstream/cumsegagg.py
+++ b/oups/aggstream/cumsegagg.py
@@ -530,15 +530,17 @@ def cumsegagg(
         )
     # Set null values.
     if n_max_null_bins != 0:
-        null_bin_labels = bin_labels.iloc[null_bin_indices[~nisin(null_bin_indices, -1)]]
-        if not null_bin_labels.empty:
+        # Several bins can have the same label: select by position.
+        is_null_bin = zeros(n_bins, dtype=bool)
+        is_null_bin[null_bin_indices[~nisin(null_bin_indices, -1)]] = True
+        if is_null_bin.any():
             for dtype_, (
                 _,
                 cols_name_in_res,
                 _,
                 _,
             ) in agg.items():
-                bin_res.loc[null_bin_labels, cols_name_in_res] = NULL_DICT[dtype_]
+                bin_res.loc[is_null_bin, cols_name_in_res] = NULL_DICT[dtype_]
     if snap_by is not None:
         snap_res = pDataFrame(snap_res, index=snap_labels, copy=False)
         snap_res.index.name = ordered_on
@@ -558,15 +560,16 @@ def cumsegagg(
             # TODO: is not necessary to re-create an array without the -1.
             # Only indices above 0 should be used.
             # Alternatively, output number of empty snaps from 'jcumsegagg()'?
-            null_snap_labels = snap_labels[null_snap_indices[~nisin(null_snap_indices, -1)]]
-            if not null_snap_labels.empty:
+            is_null_snap = zeros(n_snaps, dtype=bool)
+            is_null_snap[null_snap_indices[~nisin(null_snap_indices, -1)]] = True
+            if is_null_snap.any():
                 for dtype_, (
                     _,
                     cols_name_in_res,
                     _,
                     _,
                 ) in agg.items():
-                    snap_res.loc[null_snap_labels, cols_name_in_res] = NULL_DICT[dtype_]
+                    snap_res.loc[is_null_snap, cols_name_in_res] = NULL_DICT[dtype_]
     if error_on_0:
         if snap_by is not None and snap_res.eq(0).any().any():
             raise ValueError(
-- 
2.43.0


From 730f8c8e6dab0398ca045829440e8c9f77973289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:57 +0000
Subject: [PATCH 23/24] fix: bins sharing their end value are not mixed by
 snapshots

---
 oups/aggstream/segmentby.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/oups/aggstream/segmentby.py b/oups/aggstream/segmentby.py
index 8a3d74b..f0c366c 100644
--- a/oups/aggstream/segmentby.py
+++ b/oups/aggstream/segmentby.py
@@ -12,12 +12,12 @@ from typing import Callable, Dict, Optional, Tuple, Union
 
 from numba import njit
 from numpy import arange
-from numpy import argsort
 from numpy import concatenate
 from numpy import diff as ndiff
 from numpy import dtype
 from numpy import full
 from numpy import insert as ninsert
+from numpy import lexsort
 from numpy import ndarray
 from numpy import ndenumerate
 from numpy import nonzero
@@ -543,6 +543,7 @@ def mergesort(
     labels: Tuple[ndarray, ndarray],
     keys: Tuple[ndarray, ndarray],
     force_last_from_second: Optional[bool] = False,
+    sub_keys: Optional[Tuple[ndarray, ndarray]] = None,
 ) -> Tuple[ndarray, ndarray]:
     """
     Mergesort labels from keys.
@@ -559,6 +560,9 @@ def mergesort(
     force_last_from_second : bool, default False
         If True, the last label in the resulting sorted array is forced to be
         the last from the second label array.
+    sub_keys : Tuple[ndarray, ndarray], default None
+        2 one-dimensional arrays of sorted keys according which labels with
+        equal keys are sorted.
 
     Returns
     -------
@@ -569,9 +573,9 @@ def mergesort(
 
     Notes
     -----
-    If a value is found in both input arrays, then value of 2nd input array
-    comes after value of 1st input array, as can be checked with insertion
-    indices.
+    If a value is found in both input arrays (with equal sub-keys, if any), then
+    value of 2nd input array comes after value of 1st input array, as can be
+    checked with insertion indices.
 
     """
     # TODO: transition this to numba.
@@ -587,12 +591,16 @@ def mergesort(
         raise ValueError(
             "not possible to have arrays of different length for second labels and keys arrays.",
         )
+    # 'lexsort' is a stable sort, its last key is the primary one.
+    sort_keys = (keys,) if sub_keys is None else (sub_keys, keys)
     if force_last_from_second:
         len_tot = len_labels1 + len_labels2
         sort_indices = full(len_tot, len_tot - 1, dtype=DTYPE_INT64)
-        sort_indices[:-1] = argsort(concatenate((keys1, keys2[:-1])), kind="mergesort")
+        sort_indices[:-1] = lexsort(
+            tuple(concatenate((k1, k2[:-1])) for k1, k2 in sort_keys),
+        )
     else:
-        sort_indices = argsort(concatenate(keys), kind="mergesort")
+        sort_indices = lexsort(tuple(map(concatenate, sort_keys)))
     return concatenate(labels)[sort_indices], nonzero(len_labels1 <= sort_indices)[0]
 
 
@@ -1002,10 +1010,14 @@ def segmentby(
         # snapshot while this last bin is in-progress.
         # Having the bin end before the snapshot would on the opposite
         # reset the data and the resulting snapshot would be a null one.
+        # Several bins can have the same end (row-count bins, right-closed, with
+        # an end value in several rows). Those ending before the last row of a
+        # snapshot have to come before it.
         next_chunk_starts, bin_indices = mergesort(
             labels=(next_snap_starts, next_chunk_starts),
             keys=(snap_ends, bin_ends),
             force_last_from_second=unknown_last_bin_end,
+            sub_keys=(next_snap_starts, next_chunk_starts),
         )
         # Take indices of 'next_chunk_starts' corresponding to bins that are
         # followed right after by a snapshot.
-- 
2.43.0


From f9517a058e167e446b4aa1409bfc53e57d5d2f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:18 +0000
Subject: [PATCH 24/24] fix: restart when no chunk end is given again

---
 oups/aggstream/segmentby.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oups/aggstream/segmentby.py b/oups/aggstream/segmentby.py
index f0c366c..fa93490 100644
--- a/oups/aggstream/segmentby.py
+++ b/oups/aggstream/segmentby.py
@@ -298,8 +298,9 @@ def by_scale(
                         "2nd chunk end in 'by' has to be larger than value "
                         f"{buffer[KEY_LAST_ON_VALUE]} to restart correctly.",
                     )
-                if (closed == RIGHT and chunk_ends[0] < last_on_value) or (
-                    closed == LEFT and chunk_ends[0] <= last_on_value
+                if len(chunk_ends) and (
+                    (closed == RIGHT and chunk_ends[0] < last_on_value)
+                    or (closed == LEFT and chunk_ends[0] <= last_on_value)
                 ):
                     # At previous iteration, if last value in 'on' is later
                     # than first chunk end, then this chunk should not be
-- 
2.43.0

