From 37c8a301adef40ab0b4c7574d2fc3bda3feb99af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:20 +0000
Subject: [PATCH 01/93] fix: keep a running minimum or maximum of 0 when later
 batches arrive

---
 dataprofiler/profilers/numerical_column_stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index fa0666a..96f30f7 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -1770,7 +1770,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         subset_properties: dict,
     ) -> None:
         min_value = df_series.min()
-        self.min = min_value if not self.min else min(self.min, min_value)
+        self.min = min_value if self.min is None else min(self.min, min_value)
         subset_properties["min"] = min_value
 
     @BaseColumnProfiler._timeit(name="max")
@@ -1781,7 +1781,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         subset_properties: dict,
     ) -> None:
         max_value = df_series.max()
-        self.max = max_value if not self.max else max(self.max, max_value)
+        self.max = max_value if self.max is None else max(self.max, max_value)
         subset_properties["max"] = max_value
 
     @BaseColumnProfiler._timeit(name="sum")
-- 
2.43.0


From 007c135dd2de264da3e24bcabeece9d1ed80337c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:31 +0000
Subject: [PATCH 02/93] fix: use the same kurtosis convention for constant data
 in merges as in one batch

---
 dataprofiler/profilers/numerical_column_stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index 96f30f7..f812c5b 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -1022,7 +1022,8 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         M2_2 = match_count2 * biased_variance2
         M2 = M2_1 + M2_2 + delta**2 * match_count1 * match_count2 / N
         if not M2:
-            return 0.0
+            # same convention as `biased_kurt` for constant data
+            return -3.0
 
         M3_1: np.float64 = biased_skewness1 * np.sqrt(M2_1**3) / np.sqrt(match_count1)
         M3_2: np.float64 = biased_skewness2 * np.sqrt(M2_2**3) / np.sqrt(match_count2)
-- 
2.43.0


From cb16d9fe1bddb44377f253d1767f9abe867237ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:31 +0000
Subject: [PATCH 03/93] fix: combine float precision variance with the sample
 size before the update

---
 dataprofiler/profilers/float_column_profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/float_column_profile.py b/dataprofiler/profilers/float_column_profile.py
index bc426a4..b19fde9 100644
--- a/dataprofiler/profilers/float_column_profile.py
+++ b/dataprofiler/profilers/float_column_profile.py
@@ -379,7 +379,6 @@ class FloatColumn(
                 self._precision["max"], subset_precision["max"]
             )
             self._precision["sum"] += subset_precision["sum"]
-            self._precision["sample_size"] += subset_precision["sample_size"]
 
             self._precision["biased_var"] = self._merge_biased_variance(
                 self._precision["sample_size"],
@@ -390,6 +389,7 @@ class FloatColumn(
                 subset_precision["mean"],
             )
 
+            self._precision["sample_size"] += subset_precision["sample_size"]
             self._precision["mean"] = (
                 self._precision["sum"] / self._precision["sample_size"]
             )
-- 
2.43.0


From 1f8ef0a6230ed7625fe546bf3ca4c940b6e7defc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:41 +0000
Subject: [PATCH 04/93] fix: updating after a one-row batch with variance
 disabled no longer divides by zero

---
 dataprofiler/profilers/profile_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 6e51265..261df97 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2470,7 +2470,7 @@ class StructuredProfiler(BaseProfiler):
                     dependent_properties["mean"][id] = data_type_profiler.mean
                     # Subtract null row count as those aren't included in corr. calc
                     dependent_properties["std"][id] = np.sqrt(
-                        data_type_profiler._biased_variance
+                        np.float64(data_type_profiler._biased_variance)
                         * n
                         / (self.total_samples - self.row_is_null_count - 1)
                     )
-- 
2.43.0


From a30c0c3c3b084277a7cf2d6bdfb2959f863e2103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:27 +0000
Subject: [PATCH 05/93] fix: keep the histogram when only one of the merged
 profiles has one

---
 dataprofiler/profilers/numerical_column_stats.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index f812c5b..cdd626e 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -345,12 +345,17 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         if "histogram_and_quantiles" in self.__calculations.keys():
             if other1._has_histogram and other2._has_histogram:
                 self._add_helper_merge_profile_histograms(other1, other2)
-            elif not other2._has_histogram:
-                self.histogram_methods = other1.histogram_methods
-                self.quantiles = other1.quantiles
             else:
-                self.histogram_methods = other2.histogram_methods
-                self.quantiles = other2.quantiles
+                # only one (or none) of the profiles has a histogram, carry it over
+                source = other2 if other2._has_histogram else other1
+                self.histogram_bin_method_names = list(
+                    source.histogram_bin_method_names
+                )
+                self.user_set_histogram_bin = source.user_set_histogram_bin
+                self.histogram_methods = copy.deepcopy(source.histogram_methods)
+                self.histogram_selection = source.histogram_selection
+                self._stored_histogram = copy.deepcopy(source._stored_histogram)
+                self.quantiles = copy.deepcopy(source.quantiles)
 
         # Merge max k mode count
         self._top_k_modes = max(other1._top_k_modes, other2._top_k_modes)
-- 
2.43.0


From 8e0853c559fc7d6cf0f813ce23724d6c020c8d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:27 +0000
Subject: [PATCH 06/93] fix: reporting a merge of profiles with a fixed bin
 count no longer raises

---
 dataprofiler/profilers/numerical_column_stats.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index cdd626e..888c5a2 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -255,11 +255,12 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         self._stored_histogram["histogram"]["current_loss"] = aggregate_histogram_loss
         self._stored_histogram["histogram"]["total_loss"] = aggregate_histogram_loss
 
-        if self.user_set_histogram_bin is None:
-            for method in self.histogram_bin_method_names:
-                self.histogram_methods[method][
-                    "suggested_bin_count"
-                ] = histogram_utils._calculate_bins_from_profile(self, method)
+        for method in self.histogram_bin_method_names:
+            self.histogram_methods[method]["suggested_bin_count"] = (
+                self.user_set_histogram_bin
+                if self.user_set_histogram_bin is not None
+                else histogram_utils._calculate_bins_from_profile(self, method)
+            )
 
         self._get_quantiles()
 
-- 
2.43.0


From b8e1842938200a86051fcf4d847cea8aefaf3db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:44 +0000
Subject: [PATCH 07/93] fix: keep the requested number of quantiles when
 merging profiles

---
 dataprofiler/profilers/numerical_column_stats.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index 888c5a2..4c88b36 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -343,6 +343,9 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         if "num_negatives" in self.__calculations.keys():
             self.num_negatives = other1.num_negatives + other2.num_negatives
 
+        # Merge number of quantiles
+        self._num_quantiles = max(other1._num_quantiles, other2._num_quantiles)
+
         if "histogram_and_quantiles" in self.__calculations.keys():
             if other1._has_histogram and other2._has_histogram:
                 self._add_helper_merge_profile_histograms(other1, other2)
-- 
2.43.0


From 6b324966b011c894c00d6da04d8e85ebcc617c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:24 +0000
Subject: [PATCH 08/93] fix: updating a merged profile extends its histogram
 instead of dropping it

---
 dataprofiler/profilers/numerical_column_stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index 4c88b36..28b3cce 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -1250,7 +1250,8 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
 
     def _histogram_to_array(self) -> np.ndarray:
         # Extend histogram to array format
-        bin_counts = self._stored_histogram["histogram"]["bin_counts"]
+        # (counts of merged histograms are whole numbers stored as floats)
+        bin_counts = self._stored_histogram["histogram"]["bin_counts"].astype(int)
         bin_edges = self._stored_histogram["histogram"]["bin_edges"]
         is_bin_non_zero = bin_counts[:-1] > 0
         bin_left_edge = bin_edges[:-2][is_bin_non_zero]
-- 
2.43.0


From 02faf81e71c84d75accb9a0b99db4a502ce822e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:20 +0000
Subject: [PATCH 09/93] fix: report a median of exactly 0 for a distribution
 split around 0

---
 dataprofiler/profilers/numerical_column_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index 28b3cce..244beff 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -1595,7 +1595,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         quantiles: np.ndarray = np.interp(
             percentiles / 100, cumsum_bin_counts, bin_edges
         )
-        if median_value:
+        if median_value is not None:
             quantiles[percentiles == 50] = median_value
         return cast(List[float], quantiles.tolist())
 
-- 
2.43.0


From fc2ed958aec608473a592faa72c25ec3b8543554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:13 +0000
Subject: [PATCH 10/93] fix: keep reporting short text columns as string after
 a merge

---
 dataprofiler/profilers/text_column_profile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataprofiler/profilers/text_column_profile.py b/dataprofiler/profilers/text_column_profile.py
index bea8dbd..5969a41 100644
--- a/dataprofiler/profilers/text_column_profile.py
+++ b/dataprofiler/profilers/text_column_profile.py
@@ -66,6 +66,8 @@ class TextColumn(
         if "vocab" in merged_profile.__calculations:
             merged_profile.vocab = self.vocab.copy()
             merged_profile._update_vocab(other.vocab)
+        if merged_profile.max:
+            merged_profile.type = "string" if merged_profile.max <= 255 else "text"
         return merged_profile
 
     def report(self, remove_disabled_flag: bool = False) -> dict:
-- 
2.43.0


From 31f0792b9f1b7ae939f0fae67c5a0bdc5f67fe07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:32 +0000
Subject: [PATCH 11/93] fix: keep column values in row order whatever the data
 frame's index

---
 dataprofiler/profilers/profile_builder.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 261df97..e516b21 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -616,7 +616,7 @@ class StructuredColProfiler:
             )
 
         na_columns: dict = dict()
-        true_sample_set = set()
+        true_sample_list: list[int] = []
         total_sample_size = 0
         query = "|".join(null_values.keys())
         regex = f"^(?:{(query)})$"
@@ -629,8 +629,11 @@ class StructuredColProfiler:
             # Query should search entire cell for all elements at once
             matches = df_subset.str.match(regex, flags=re.IGNORECASE)
 
-            # Split series into None samples and true samples
-            true_sample_set.update(df_subset[~matches].index)
+            # Split series into None samples and true samples, the latter by
+            # row position since index labels have no guaranteed order
+            true_sample_list.extend(
+                np.asarray(chunked_sample_ids, dtype=int)[~matches.to_numpy(dtype=bool)]
+            )
 
             # Iterate over all the Nones
             for index, cell in df_subset[matches].items():
@@ -639,7 +642,7 @@ class StructuredColProfiler:
             # Ensure minimum number of true samples met
             # and if total_sample_size >= sample size, exit
             if (
-                len(true_sample_set) >= min_true_samples
+                len(true_sample_list) >= min_true_samples
                 and total_sample_size >= sample_size
             ):
                 break
@@ -648,15 +651,8 @@ class StructuredColProfiler:
         if sample_ids is None:
             sample_ind_generator.close()
 
-        # If min_true_samples exists, sort
-        true_sample_list = (
-            sorted(true_sample_set)
-            if min_true_samples > 0 or sample_ids is None
-            else list(true_sample_set)
-        )
-
-        # Split out true values for later utilization
-        df_series = df_series.loc[true_sample_list]
+        # Split out true values, in row order, for later utilization
+        df_series = df_series.iloc[sorted(true_sample_list)]
         total_na = total_sample_size - len(true_sample_list)
 
         rng = rng_utils.get_random_number_generator()
-- 
2.43.0


From 26cd5316981fc1187d46c8828e922f969474de8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:50 +0000
Subject: [PATCH 12/93] fix: count the rows of a data frame with repeated index
 labels correctly

---
 dataprofiler/profilers/profile_builder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index e516b21..df52921 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2804,6 +2804,10 @@ class StructuredProfiler(BaseProfiler):
         elif isinstance(data, list):
             data = pd.DataFrame(data, dtype=object)
 
+        # Repeated index labels cannot identify rows, number the rows instead
+        if not data.index.is_unique:
+            data = data.reset_index(drop=True)
+
         # Calculate schema of incoming data
         mapping_given = defaultdict(list)
         for col_idx in range(len(data.columns)):
-- 
2.43.0


From bd478a40e49e8f6edc96144bd20f02d0ac81fe77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:14 +0000
Subject: [PATCH 13/93] fix: forget the row shift of an earlier batch when a
 later batch does not overlap

---
 dataprofiler/profilers/profile_builder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index df52921..216b443 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -442,6 +442,7 @@ class StructuredColProfiler:
         base_nti = base_stats["null_types"]
 
         # Check if indices overlap, if they do, adjust attributes accordingly
+        self._index_shift = None
         if profiler_utils.overlap(self._min_id, self._max_id, base_min, base_max):
             warnings.warn(
                 f"Overlapping indices detected. To resolve, indices "
-- 
2.43.0


From 0548fd63b6113522fa57e99a1e46e6b46f694eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:16 +0000
Subject: [PATCH 14/93] fix: honour the regex flags given for each null value
 pattern

---
 dataprofiler/profilers/profile_builder.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 216b443..568b211 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -619,8 +619,12 @@ class StructuredColProfiler:
         na_columns: dict = dict()
         true_sample_list: list[int] = []
         total_sample_size = 0
-        query = "|".join(null_values.keys())
-        regex = f"^(?:{(query)})$"
+
+        # Null patterns by the regex flags requested for them
+        patterns: dict[int, list[str]] = defaultdict(list)
+        for pattern, flags in null_values.items():
+            patterns[int(flags)].append(pattern)
+
         for chunked_sample_ids in sample_ind_generator:
             total_sample_size += len(chunked_sample_ids)
 
@@ -628,7 +632,9 @@ class StructuredColProfiler:
             df_subset = df_series.iloc[chunked_sample_ids]
 
             # Query should search entire cell for all elements at once
-            matches = df_subset.str.match(regex, flags=re.IGNORECASE)
+            matches = pd.Series(False, index=df_subset.index)
+            for flags, query in patterns.items():
+                matches |= df_subset.str.match(f"^(?:{'|'.join(query)})$", flags=flags)
 
             # Split series into None samples and true samples, the latter by
             # row position since index labels have no guaranteed order
-- 
2.43.0


From 88d14c55ac737fe131f72541bc1a91e4a27de368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:45 +0000
Subject: [PATCH 15/93] fix: apply per-column null values to the profiled
 column when columns arrive reordered

---
 dataprofiler/profilers/profile_builder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 568b211..99c400f 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2924,7 +2924,7 @@ class StructuredProfiler(BaseProfiler):
                     null_values: dict = self._profile[prof_idx]._null_values.copy()
                     if self.options.column_null_values:
                         null_values.update(
-                            self.options.column_null_values.get(col_idx, {})
+                            self.options.column_null_values.get(prof_idx, {})
                         )
 
                     multi_process_dict[col_idx] = pool.apply_async(
@@ -2970,7 +2970,7 @@ class StructuredProfiler(BaseProfiler):
                     null_values = self._profile[prof_idx]._null_values.copy()
                     if self.options.column_null_values:
                         null_values.update(
-                            self.options.column_null_values.get(col_idx, {})
+                            self.options.column_null_values.get(prof_idx, {})
                         )
 
                     clean_sampled_dict[prof_idx], base_stats = self._profile[
@@ -2993,7 +2993,7 @@ class StructuredProfiler(BaseProfiler):
 
                 null_values = self._profile[prof_idx]._null_values.copy()
                 if self.options.column_null_values:
-                    null_values.update(self.options.column_null_values.get(col_idx, {}))
+                    null_values.update(self.options.column_null_values.get(prof_idx, {}))
 
                 clean_sampled_dict[prof_idx], base_stats = self._profile[
                     prof_idx
-- 
2.43.0


From 8052349b3044a28453f75d73e3b34d9a0530e951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:32 +0000
Subject: [PATCH 16/93] fix: recognise duplicate rows when columns arrive in
 another order

---
 dataprofiler/profilers/profile_builder.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 99c400f..3f40ac2 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2223,30 +2223,37 @@ class StructuredProfiler(BaseProfiler):
             )
 
         if self.options.row_statistics.unique_count.is_enabled:
+            # Equal rows must hash equally in whichever order their columns arrive
+            rows = data.iloc[
+                :,
+                sorted(
+                    range(data.shape[1]), key=lambda idx: str(data.columns[idx]).lower()
+                ),
+            ]
             if isinstance(self.hashed_row_object, dict):
                 try:
                     self.hashed_row_object.update(
                         dict.fromkeys(
-                            pd.util.hash_pandas_object(data, index=False), True
+                            pd.util.hash_pandas_object(rows, index=False), True
                         )
                     )
                 except TypeError:
                     self.hashed_row_object.update(
                         dict.fromkeys(
-                            pd.util.hash_pandas_object(data.astype(str), index=False),
+                            pd.util.hash_pandas_object(rows.astype(str), index=False),
                             True,
                         )
                     )
             elif isinstance(self.hashed_row_object, HyperLogLog):
                 batch_size = 2048
 
-                for batch_ind in range(len(data) // batch_size + 1):
+                for batch_ind in range(len(rows) // batch_size + 1):
                     start_ind = batch_ind * batch_size
-                    if start_ind >= len(data):
+                    if start_ind >= len(rows):
                         break
                     end_ind = (batch_ind + 1) * batch_size
                     for record in (
-                        data[start_ind : min(end_ind, len(data))]
+                        rows[start_ind : min(end_ind, len(rows))]
                         .to_json(orient="records", lines=True)
                         .splitlines()
                     ):
-- 
2.43.0


From df546c42dd6e603fad299ca3634225b622cdb9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:04 +0000
Subject: [PATCH 17/93] fix: approximate row counting accepts repeated column
 names

---
 dataprofiler/profilers/profile_builder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 3f40ac2..c13fca6 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2247,6 +2247,10 @@ class StructuredProfiler(BaseProfiler):
             elif isinstance(self.hashed_row_object, HyperLogLog):
                 batch_size = 2048
 
+                # records need distinct keys
+                if not rows.columns.is_unique:
+                    rows = rows.set_axis(range(rows.shape[1]), axis=1)
+
                 for batch_ind in range(len(rows) // batch_size + 1):
                     start_ind = batch_ind * batch_size
                     if start_ind >= len(rows):
-- 
2.43.0


From e17d8c708b184df14cec7854a5a2ab3fa676d0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:43 +0000
Subject: [PATCH 18/93] fix: adding profiles with approximate row counting
 leaves the left operand unchanged

---
 dataprofiler/profilers/profile_builder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index c13fca6..0c439eb 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -1808,8 +1808,8 @@ class StructuredProfiler(BaseProfiler):
                 elif isinstance(self.hashed_row_object, HyperLogLog) and isinstance(
                     other.hashed_row_object, HyperLogLog
                 ):
-                    self.hashed_row_object.merge(other.hashed_row_object),
-                    merged_profile.hashed_row_object = self.hashed_row_object
+                    merged_profile.hashed_row_object.merge(self.hashed_row_object)
+                    merged_profile.hashed_row_object.merge(other.hashed_row_object)
 
         self_to_other_idx = self._get_and_validate_schema_mapping(
             self._col_name_to_idx, other._col_name_to_idx
-- 
2.43.0


From 2809ef17affbf34d0df3ba6d3b02c50470b7571c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:44 +0000
Subject: [PATCH 19/93] fix: recognise May dates written like 12May13 or
 May-13-13

---
 dataprofiler/profilers/datetime_column_profile.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/datetime_column_profile.py b/dataprofiler/profilers/datetime_column_profile.py
index af99283..cb4040c 100644
--- a/dataprofiler/profilers/datetime_column_profile.py
+++ b/dataprofiler/profilers/datetime_column_profile.py
@@ -277,7 +277,11 @@ class DateTimeColumn(BaseColumnPrimitiveTypeProfiler["DateTimeColumn"]):
 
             df_dates = valid_dates[~valid_dates.isnull()]
 
-            if "%b" in date_format and not df_dates.empty:
+            if (
+                date_format.replace("%b", "%B") != date_format
+                and date_format.replace("%b", "%B") in cls._date_formats
+                and not df_dates.empty
+            ):
                 may_month = 5  # May can be %b or %B we want to force, so check
                 all_may = df_dates.apply(lambda x: x.month == may_month).all()
                 if all_may:
-- 
2.43.0


From b576e41e7388d9d81b32219d782148b244d90c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:29 +0000
Subject: [PATCH 20/93] fix: report the range of a column holding the first or
 last representable date

---
 dataprofiler/profilers/datetime_column_profile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/datetime_column_profile.py b/dataprofiler/profilers/datetime_column_profile.py
index cb4040c..42349bb 100644
--- a/dataprofiler/profilers/datetime_column_profile.py
+++ b/dataprofiler/profilers/datetime_column_profile.py
@@ -306,12 +306,12 @@ class DateTimeColumn(BaseColumnPrimitiveTypeProfiler["DateTimeColumn"]):
                 tmp_max_value_obj = df_dates.iloc[max_idx]
 
                 # If minimum value, keep reference
-                if tmp_min_value_obj < min_value_obj:
+                if min_value is None or tmp_min_value_obj < min_value_obj:
                     min_value = df_series[~null_date_mask].iloc[min_idx]
                     min_value_obj = tmp_min_value_obj
 
                 # If maximum value, keep reference
-                if tmp_max_value_obj > max_value_obj:
+                if max_value is None or tmp_max_value_obj > max_value_obj:
                     max_value = df_series[~null_date_mask].iloc[max_idx]
                     max_value_obj = tmp_max_value_obj
 
-- 
2.43.0


From 5fde4ddfb8cf24f0e844562c3f46c6827c63e023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:56 +0000
Subject: [PATCH 21/93] fix: a merged count-min-sketch category profile can be
 updated

---
 dataprofiler/profilers/categorical_column_profile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataprofiler/profilers/categorical_column_profile.py b/dataprofiler/profilers/categorical_column_profile.py
index 1ca6309..b06b4ae 100644
--- a/dataprofiler/profilers/categorical_column_profile.py
+++ b/dataprofiler/profilers/categorical_column_profile.py
@@ -131,6 +131,8 @@ class CategoricalColumn(BaseColumnProfiler["CategoricalColumn"]):
                 other.sample_size,
                 cms_max_num_heavy_hitters,
             )
+            merged_profile.cms_num_hashes = self.cms_num_hashes
+            merged_profile.cms_num_buckets = self.cms_num_buckets
 
         elif not self.cms and not other.cms:
             # If both profiles have not met stop condition
-- 
2.43.0


From dacbd1d171d08de69702aedf3f33fcbc2ed7d2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:56 +0000
Subject: [PATCH 22/93] fix: keep the top-k limit on displayed categories when
 merging profiles

---
 dataprofiler/profilers/categorical_column_profile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataprofiler/profilers/categorical_column_profile.py b/dataprofiler/profilers/categorical_column_profile.py
index b06b4ae..8976cf5 100644
--- a/dataprofiler/profilers/categorical_column_profile.py
+++ b/dataprofiler/profilers/categorical_column_profile.py
@@ -109,6 +109,8 @@ class CategoricalColumn(BaseColumnProfiler["CategoricalColumn"]):
             merged_profile.__calculations, self.__calculations, other.__calculations
         )
 
+        merged_profile._top_k_categories = self._top_k_categories
+
         if self.cms and other.cms:
 
             assert isinstance(self._cms_max_num_heavy_hitters, int)
-- 
2.43.0


From bc3a5190b860c2448cd8805b73ab34370425e978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:27 +0000
Subject: [PATCH 23/93] fix: drop the stop words of either profile from the
 words of a merged text profile

---
 dataprofiler/profilers/unstructured_text_profile.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/unstructured_text_profile.py b/dataprofiler/profilers/unstructured_text_profile.py
index 96b7d06..f825194 100644
--- a/dataprofiler/profilers/unstructured_text_profile.py
+++ b/dataprofiler/profilers/unstructured_text_profile.py
@@ -503,7 +503,11 @@ class TextProfiler:
 
         # remove stop words
         merged_profile._stop_words = self._stop_words.union(other._stop_words)
-        if len(merged_profile._stop_words) != len(self._stop_words):
+        if not (
+            len(self._stop_words)
+            == len(other._stop_words)
+            == len(merged_profile._stop_words)
+        ):
             for w in list(merged_profile.word_count.keys()):
                 if w.lower() in merged_profile._stop_words:
                     merged_profile.word_count.pop(w)
-- 
2.43.0


From d624e3a1d768ed9f47803078f9791952b65d73c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:27 +0000
Subject: [PATCH 24/93] fix: count the lines of a text series with repeated
 index labels correctly

---
 dataprofiler/profilers/profile_builder.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 0c439eb..fbb142c 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -1508,7 +1508,9 @@ class UnstructuredProfiler(BaseProfiler):
             matches = data_subset.str.match(regex, flags=re.IGNORECASE)
 
             # Split series into None samples and true samples
-            true_sample_list.update(data_subset[~matches].index)
+            true_sample_list.update(
+                row for row, empty in zip(chunked_sample_ids, matches) if not empty
+            )
 
             # Ensure minimum number of true samples met
             # and if total_sample_size >= sample size, exit
@@ -1524,7 +1526,7 @@ class UnstructuredProfiler(BaseProfiler):
         true_sample_list = sorted(true_sample_list)  # type: ignore[assignment]
 
         # Split out true values for later utilization
-        data = data.loc[true_sample_list]
+        data = data.iloc[true_sample_list]
         total_empty = total_sample_size - len(true_sample_list)
 
         base_stats.update(
-- 
2.43.0


From 13be803f2072d86c4b5a8968e2947bf7a45f6863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:53 +0000
Subject: [PATCH 25/93] fix: keep the correlation matrix and null replication
 metrics when saving as pickle

---
 dataprofiler/profilers/profile_builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index fbb142c..76cac41 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -3080,7 +3080,9 @@ class StructuredProfiler(BaseProfiler):
                 "_samples_per_update": self._samples_per_update,
                 "_min_true_samples": self._min_true_samples,
                 "options": self.options,
+                "correlation_matrix": self.correlation_matrix,
                 "chi2_matrix": self.chi2_matrix,
+                "_null_replication_metrics": self._null_replication_metrics,
                 "_profile": self.profile,
                 "_col_name_to_idx": self._col_name_to_idx,
                 "times": self.times,
-- 
2.43.0


From 855bd8e8b045a3b0936f2d262ab246421a02d40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:53 +0000
Subject: [PATCH 26/93] fix: keep the sampling ratio when saving as pickle

---
 dataprofiler/profilers/profile_builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 76cac41..a0103ea 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -1614,6 +1614,7 @@ class UnstructuredProfiler(BaseProfiler):
                 "file_type": self.file_type,
                 "_samples_per_update": self._samples_per_update,
                 "_min_true_samples": self._min_true_samples,
+                "_sampling_ratio": self._sampling_ratio,
                 "_empty_line_count": self._empty_line_count,
                 "memory_size": self.memory_size,
                 "options": self.options,
@@ -3079,6 +3080,7 @@ class StructuredProfiler(BaseProfiler):
                 "hashed_row_object": self.hashed_row_object,
                 "_samples_per_update": self._samples_per_update,
                 "_min_true_samples": self._min_true_samples,
+                "_sampling_ratio": self._sampling_ratio,
                 "options": self.options,
                 "correlation_matrix": self.correlation_matrix,
                 "chi2_matrix": self.chi2_matrix,
-- 
2.43.0


From 7a2d75fa5cc6f29822abc4a2206148119ddcc51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:37 +0000
Subject: [PATCH 27/93] fix: restore the null replication metrics of a JSON
 profile under their column numbers

---
 dataprofiler/profilers/profile_builder.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index a0103ea..e1dc0b0 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2145,6 +2145,11 @@ class StructuredProfiler(BaseProfiler):
             int(k): v for k, v in data["hashed_row_object"].items()
         }
 
+        if data["_null_replication_metrics"] is not None:
+            data["_null_replication_metrics"] = {
+                int(k): v for k, v in data["_null_replication_metrics"].items()
+            }
+
         structured_profiler = super().load_from_dict(data, config)
 
         return structured_profiler
-- 
2.43.0


From 035be079023f5ab8466dba7a3b048633f57d5275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:10 +0000
Subject: [PATCH 28/93] fix: load JSON profiles whose options give null values
 with flags or per column

---
 dataprofiler/profilers/profiler_options.py | 28 ++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/dataprofiler/profilers/profiler_options.py b/dataprofiler/profilers/profiler_options.py
index 038acf8..6ddd25a 100644
--- a/dataprofiler/profilers/profiler_options.py
+++ b/dataprofiler/profilers/profiler_options.py
@@ -1622,6 +1622,34 @@ class StructuredOptions(BaseOption["StructuredOptions"]):
 
         return errors
 
+    @classmethod
+    def load_from_dict(cls, data, config: dict | None = None) -> StructuredOptions:
+        """
+        Parse attribute from json dictionary into self.
+
+        :param data: dictionary with attributes and values.
+        :type data: dict[string, Any]
+        :param config: config to override loading options params from dictionary
+        :type config: Dict | None
+
+        :return: Options with attributes populated.
+        :rtype: StructuredOptions
+        """
+
+        def load_null_values(null_values: dict) -> dict:
+            """Restore the flags of the null values, stored as integers."""
+            return {k: re.RegexFlag(v) if v else 0 for k, v in null_values.items()}
+
+        options = cast(StructuredOptions, super().load_from_dict(data, config))
+        if options.null_values is not None:
+            options.null_values = load_null_values(options.null_values)
+        if options.column_null_values is not None:
+            options.column_null_values = {
+                int(k): load_null_values(v)
+                for k, v in options.column_null_values.items()
+            }
+        return options
+
 
 class UnstructuredOptions(BaseOption["UnstructuredOptions"]):
     """For configuring options for unstructured profiler."""
-- 
2.43.0


From 2c578a51f29f1046f09de7e28782d5e9b3037f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:27 +0000
Subject: [PATCH 29/93] fix: keep the type of the column names when saving and
 loading as JSON

---
 dataprofiler/profilers/profile_builder.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index e1dc0b0..c493305 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2134,13 +2134,6 @@ class StructuredProfiler(BaseProfiler):
             data["chi2_matrix"] = np.array(data["chi2_matrix"])
         if data["correlation_matrix"] is not None:
             data["correlation_matrix"] = np.array(data["correlation_matrix"])
-        try:
-            data["_col_name_to_idx"] = defaultdict(
-                list, {int(k): v for k, v in data["_col_name_to_idx"].items()}
-            )
-        except Exception:
-            data["_col_name_to_idx"] = defaultdict(list, data["_col_name_to_idx"])
-
         data["hashed_row_object"] = {
             int(k): v for k, v in data["hashed_row_object"].items()
         }
@@ -2152,6 +2145,13 @@ class StructuredProfiler(BaseProfiler):
 
         structured_profiler = super().load_from_dict(data, config)
 
+        # JSON keys are always text, the names of the columns keep their type
+        col_name_to_idx: dict[str | int, list[int]] = defaultdict(list)
+        for idx, profile in enumerate(structured_profiler._profile):
+            name = profile.name
+            col_name_to_idx[name.lower() if isinstance(name, str) else name].append(idx)
+        structured_profiler._col_name_to_idx = col_name_to_idx
+
         return structured_profiler
 
     def _get_unique_row_ratio(self) -> float | None:
@@ -2841,6 +2841,8 @@ class StructuredProfiler(BaseProfiler):
             # Pandas columns are int by default, but need to fuzzy match strs
             if isinstance(col, str):
                 col = col.lower()
+            elif isinstance(col, np.integer):
+                col = int(col)
             mapping_given[col].append(col_idx)
 
         # Validate schema compatibility and index mapping from data to _profile
-- 
2.43.0


From c11c4fdca2933c190a59aef024ac16454f5bfa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:27 +0000
Subject: [PATCH 30/93] fix: load JSON profiles of merged histograms with their
 losses as numbers

---
 dataprofiler/profilers/numerical_column_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index 244beff..ceca73f 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -453,7 +453,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
 
             # Convert hist lists to numpy arrays
             for key in histogram_info["histogram"].keys():
-                if histogram_info["histogram"][key] is not None:
+                if isinstance(histogram_info["histogram"][key], list):
                     histogram_info["histogram"][key] = np.array(
                         histogram_info["histogram"][key]
                     )
-- 
2.43.0


From afff5ba1a08523b1c1a500906e32a30d1a5f5665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:16 +0000
Subject: [PATCH 31/93] fix: restore the data labelers when saving a profile
 fails

---
 dataprofiler/profilers/profile_builder.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index c493305..973323c 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -1134,12 +1134,13 @@ class BaseProfiler:
         # add profiler class to data_dict
         data_dict["profiler_class"] = self.__class__.__name__
 
-        # Pickle and save profile to disk
-        with open(filepath, "wb") as outfile:
-            pickle.dump(data_dict, outfile)
-
-        # Restore all data labelers
-        self._restore_data_labelers(data_labelers)
+        try:
+            # Pickle and save profile to disk
+            with open(filepath, "wb") as outfile:
+                pickle.dump(data_dict, outfile)
+        finally:
+            # Restore all data labelers
+            self._restore_data_labelers(data_labelers)
 
     def _json_save_helper(self, filepath: str | None) -> None:
         """
-- 
2.43.0


From 369d03fd10373eab80607f867a3d0e5ceaa76351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:16 +0000
Subject: [PATCH 32/93] fix: loading a profile as pickle reports a file that is
 not a pickle

---
 dataprofiler/profilers/profile_builder.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 973323c..80338c2 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -1199,10 +1199,10 @@ class BaseProfiler:
         except pickle.UnpicklingError:
             if load_method == "pickle":
                 raise ValueError("File is unable to be loaded as pickle.")
-        finally:
-            if data is None or load_method == "json":
-                with open(filepath) as infile:
-                    return load_profiler(json.load(infile), {})
+
+        if data is None:
+            with open(filepath) as infile:
+                return load_profiler(json.load(infile), {})
 
         # remove profiler class if it exists
         profiler_class: str | None = data.pop("profiler_class", None)
-- 
2.43.0


From a1ddd32e9d1276527228d7197fb8eac5f3d855a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:55 +0000
Subject: [PATCH 33/93] fix: a compact report leaves the caller's omit_keys
 unchanged

---
 .../profilers/helpers/report_helpers.py         | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/dataprofiler/profilers/helpers/report_helpers.py b/dataprofiler/profilers/helpers/report_helpers.py
index 0588252..30c8e49 100644
--- a/dataprofiler/profilers/helpers/report_helpers.py
+++ b/dataprofiler/profilers/helpers/report_helpers.py
@@ -124,15 +124,14 @@ def _prepare_report(
     max_array_len = 5
 
     if output_format == "compact":
-        omit_keys.extend(
-            [
-                "data_stats.*.statistics.times",
-                "data_stats.*.statistics.avg_predictions",
-                "data_stats.*.statistics.data_label_representation",
-                "data_stats.*.statistics.null_types_index",
-                "data_stats.*.statistics.histogram",
-            ]
-        )
+        # a new list, the one given belongs to the caller
+        omit_keys = list(omit_keys) + [
+            "data_stats.*.statistics.times",
+            "data_stats.*.statistics.avg_predictions",
+            "data_stats.*.statistics.data_label_representation",
+            "data_stats.*.statistics.null_types_index",
+            "data_stats.*.statistics.histogram",
+        ]
         output_format = "pretty"
 
     for key in report:
-- 
2.43.0


From fed7726c25636d5c98c347557266ce6feeb64459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:36 +0000
Subject: [PATCH 34/93] fix: a pretty diff of sets with different sizes no
 longer raises

---
 dataprofiler/profilers/helpers/report_helpers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/helpers/report_helpers.py b/dataprofiler/profilers/helpers/report_helpers.py
index 30c8e49..68e7db8 100644
--- a/dataprofiler/profilers/helpers/report_helpers.py
+++ b/dataprofiler/profilers/helpers/report_helpers.py
@@ -238,7 +238,10 @@ def _prepare_report(
             if output_format == "pretty":
 
                 if isinstance(value, (set, list)):
-                    value = np.array(value)
+                    try:
+                        value = np.array(value)
+                    except ValueError:  # entries of different lengths (in a diff)
+                        value = np.array(value, dtype=object)
 
                 str_value = np.array2string(value, separator=", ")
 
-- 
2.43.0


From 7986e2fb28e4bc7e74e9945fb3dfd3a9324084e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:09 +0000
Subject: [PATCH 35/93] fix: diffing a categorical column with one without
 values no longer divides by zero

---
 dataprofiler/profilers/categorical_column_profile.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/categorical_column_profile.py b/dataprofiler/profilers/categorical_column_profile.py
index 8976cf5..3712853 100644
--- a/dataprofiler/profilers/categorical_column_profile.py
+++ b/dataprofiler/profilers/categorical_column_profile.py
@@ -322,8 +322,11 @@ class CategoricalColumn(BaseColumnProfiler["CategoricalColumn"]):
 
             total_psi = 0.0
             for iter_key in self_cat_count.keys():
-                percent_self = self_cat_count[iter_key] / self.sample_size
-                percent_other = other_cat_count[iter_key] / other_profile.sample_size
+                # a profile without samples has no share in any category
+                percent_self = self_cat_count[iter_key] / max(self.sample_size, 1)
+                percent_other = other_cat_count[iter_key] / max(
+                    other_profile.sample_size, 1
+                )
                 if (percent_other != 0) and (percent_self != 0):
                     total_psi += (percent_other - percent_self) * math.log(
                         percent_other / percent_self
-- 
2.43.0


From 5e271648f8df71cca4c3a66a8224a7928439321a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:57 +0000
Subject: [PATCH 36/93] fix: null replication metrics accept whole numbers
 after decimals

---
 dataprofiler/profilers/profile_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 80338c2..1f1cb17 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2682,7 +2682,7 @@ class StructuredProfiler(BaseProfiler):
 
                 # np.array for element wise addition
                 old_sum_null = np.asarray(old_sum_null)
-                sum_null += old_sum_null
+                sum_null = sum_null + old_sum_null
 
             sum_not_null = np.delete(total_row_sum, col_id) - sum_null
 
-- 
2.43.0


From c7705979544267f7dbb0114f6915bcbe4d0c9812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:57 +0000
Subject: [PATCH 37/93] fix: profiles with null replication metrics and a
 datetime column can be merged

---
 dataprofiler/profilers/profile_builder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 1f1cb17..df8d282 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2728,7 +2728,7 @@ class StructuredProfiler(BaseProfiler):
         self_row_sum = np.asarray(
             [
                 get_data_type_profiler(profile).sum
-                if get_data_type(profile)
+                if get_data_type(profile) not in [None, "datetime"]
                 else np.nan
                 for profile in self._profile
             ]
@@ -2736,7 +2736,7 @@ class StructuredProfiler(BaseProfiler):
         other_row_sum = np.asarray(
             [
                 get_data_type_profiler(profile).sum
-                if get_data_type(profile)
+                if get_data_type(profile) not in [None, "datetime"]
                 else np.nan
                 for profile in other._profile
             ]
-- 
2.43.0


From a6c6aafac197df5a069d151989f6ca4afd760e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:46 +0000
Subject: [PATCH 38/93] fix: compare distributions on the same bins in the
 population stability index

---
 dataprofiler/profilers/numerical_column_stats.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index ceca73f..d831b92 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -714,7 +714,11 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
             len_self_bin_counts = len(self_histogram["bin_counts"])
 
             # re-calculate `self` histogram
-            if len_self_bin_counts != num_psi_bins:
+            if (
+                len_self_bin_counts != num_psi_bins
+                or self_histogram["bin_edges"][0] != min_min_edge
+                or self_histogram["bin_edges"][-1] != max_max_edge
+            ):
                 histogram, hist_loss = self._regenerate_histogram(
                     entity_count_per_bin=self_histogram["bin_counts"],
                     bin_edges=self_histogram["bin_edges"],
@@ -733,7 +737,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
             # re-calculate `other_profile` histogram
             histogram_edges_not_equal = False
             all_array_values_equal = np.array_equal(
-                other_histogram["bin_edges"], self_histogram["bin_edges"]
+                other_histogram["bin_edges"], new_self_histogram["bin_edges"]
             )
             if not all_array_values_equal:
                 histogram_edges_not_equal = True
-- 
2.43.0


From 12a2f3e508b753805a17236a453cb11e167480df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:34 +0000
Subject: [PATCH 39/93] fix: keep the correlation matrix when a batch has only
 null values

---
 dataprofiler/profilers/profile_builder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index df8d282..be98bfd 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2385,6 +2385,10 @@ class StructuredProfiler(BaseProfiler):
         :param clean_samples: the input cleaned dataset
         :type clean_samples: dict()
         """
+        if not any(len(samples) for samples in clean_samples.values()):
+            # nothing but null values, the correlation stays what it was
+            return
+
         batch_properties = self._get_correlation_dependent_properties(clean_samples)
         batch_corr = self._get_correlation(clean_samples, batch_properties)
 
@@ -2499,7 +2503,7 @@ class StructuredProfiler(BaseProfiler):
                     )
                     dependent_properties["count"][id] = n
                 # Finding the properties of the batch data if given
-                elif id in batch.keys():
+                elif id in batch.keys() and len(batch[id]):
                     history = data_type_profiler._batch_history[-1]
                     n = history["match_count"]
                     # Since we impute values, we want the total rows (including nulls)
-- 
2.43.0


From 136aac9246a42bef48e9182d073857327206dbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:34 +0000
Subject: [PATCH 40/93] fix: null replication metrics with correlation enabled
 and a text column

---
 dataprofiler/profilers/profile_builder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index be98bfd..d519933 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2340,6 +2340,7 @@ class StructuredProfiler(BaseProfiler):
                 idx for col_name in columns for idx in self._col_name_to_idx[col_name]
             ]
         clean_column_ids = []
+        clean_samples = dict(clean_samples)  # the caller goes on using its own
         for idx in column_ids:
             data_type = cast(
                 ColumnPrimitiveTypeProfileCompiler,
-- 
2.43.0


From fabbd50d23829fc74d1423cae517bc12d31acaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:06 +0000
Subject: [PATCH 41/93] fix: correlation of batches with one row or a constant
 column, and of merged profiles with text or reordered columns

---
 dataprofiler/profilers/profile_builder.py | 76 ++++++++++-------------
 1 file changed, 32 insertions(+), 44 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index d519933..b656d5b 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2414,6 +2414,18 @@ class StructuredProfiler(BaseProfiler):
         """
         corr_mat1 = self.correlation_matrix
         corr_mat2 = other.correlation_matrix
+        properties1 = self._get_correlation_dependent_properties()
+        properties2 = other._get_correlation_dependent_properties()
+
+        # the columns of the other profile in the order of this one
+        mapping = self._get_and_validate_schema_mapping(
+            self._col_name_to_idx, other._col_name_to_idx
+        )
+        order = [mapping[idx] for idx in range(len(self._profile))]
+        if corr_mat2 is not None and order:
+            corr_mat2 = corr_mat2[np.ix_(order, order)]
+            properties2 = {key: value[order] for key, value in properties2.items()}
+
         n1 = self.total_samples - self.row_is_null_count
         n2 = other.total_samples - other.row_is_null_count
         if n1 == 0:
@@ -2424,46 +2436,15 @@ class StructuredProfiler(BaseProfiler):
         if corr_mat1 is None or corr_mat2 is None:
             return None
 
-        # get column indices without nan
-        col_ids1 = np.where(~np.isnan(corr_mat1).all(axis=0))[0]
-        col_ids2 = np.where(~np.isnan(corr_mat2).all(axis=0))[0]
-
-        if len(col_ids1) != len(col_ids2) or len(col_ids1) <= 1:
-            return None
-        if (col_ids1 != col_ids2).any():
-            return None
-
-        mean1 = np.array(
-            [
-                self._profile[idx].profile["statistics"]["mean"]
-                for idx in range(len(self._profile))
-                if idx in col_ids1
-            ]
-        )
-        std1 = np.array(
-            [
-                self._profile[idx].profile["statistics"]["stddev"]
-                for idx in range(len(self._profile))
-                if idx in col_ids1
-            ]
-        )
-
-        mean2 = np.array(
-            [
-                other._profile[idx].profile["statistics"]["mean"]
-                for idx in range(len(self._profile))
-                if idx in col_ids2
-            ]
-        )
-        std2 = np.array(
-            [
-                other._profile[idx].profile["statistics"]["stddev"]
-                for idx in range(len(self._profile))
-                if idx in col_ids2
-            ]
-        )
         return self._merge_correlation_helper(
-            corr_mat1, mean1, std1, n1, corr_mat2, mean2, std2, n2
+            corr_mat1,
+            properties1["mean"],
+            properties1["std"],
+            n1,
+            corr_mat2,
+            properties2["mean"],
+            properties2["std"],
+            n2,
         )
 
     def _get_correlation_dependent_properties(self, batch: dict = None) -> dict:
@@ -2484,8 +2465,11 @@ class StructuredProfiler(BaseProfiler):
             "std": np.full(len(self._profile), np.nan),
             "count": np.full(len(self._profile), np.nan),
         }
+        columns = self.options.correlation.columns
         for id in range(len(self._profile)):
             compiler = self._profile[id]
+            if columns is not None and compiler.name not in columns:
+                continue
             data_type_compiler = compiler.profiles["data_type_profile"]
             data_type = cast(
                 ColumnPrimitiveTypeProfileCompiler, data_type_compiler
@@ -2510,7 +2494,7 @@ class StructuredProfiler(BaseProfiler):
                     # Since we impute values, we want the total rows (including nulls)
                     dependent_properties["mean"][id] = history["mean"]
                     dependent_properties["std"][id] = np.sqrt(
-                        history["biased_variance"] * n / (n - 1)
+                        np.float64(history["biased_variance"]) * n / (n - 1)
                     )
                     dependent_properties["count"][id] = n
 
@@ -2558,8 +2542,12 @@ class StructuredProfiler(BaseProfiler):
         mean_diff_vector = mean1 - mean2
         mean_diff_mat = np.outer(mean_diff_vector, mean_diff_vector)
 
-        cov1 = corr_mat1 * std_mat1
-        cov2 = corr_mat2 * std_mat2
+        # columns without variation (constant or a single row) do not have a
+        # correlation, their covariance with any other column is zero
+        flat1 = (std1 == 0) | (n1 == 1)
+        flat2 = (std2 == 0) | (n2 == 1)
+        cov1 = np.where(np.logical_or.outer(flat1, flat1), 0, corr_mat1 * std_mat1)
+        cov2 = np.where(np.logical_or.outer(flat2, flat2), 0, corr_mat2 * std_mat2)
 
         n = n1 + n2
 
@@ -2567,8 +2555,8 @@ class StructuredProfiler(BaseProfiler):
         cov = cov / (n - 1)
 
         delta = mean2 - mean1
-        M2_1 = (n1 - 1) * (std1**2)
-        M2_2 = (n2 - 1) * (std2**2)
+        M2_1 = (n1 - 1) * (std1**2) if n1 > 1 else 0
+        M2_2 = (n2 - 1) * (std2**2) if n2 > 1 else 0
         M2 = M2_1 + M2_2 + delta**2 * n1 * n2 / n
         std = np.sqrt(M2 / (n - 1))
 
-- 
2.43.0


From 94f928ce3776e99a08b4faf3c8b9ff22869eb82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:45 +0000
Subject: [PATCH 42/93] fix: null replication metrics of columns in another
 order

---
 dataprofiler/profilers/profile_builder.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index b656d5b..cfdf985 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2616,6 +2616,7 @@ class StructuredProfiler(BaseProfiler):
         :type clean_samples: dict
         """
         data = pd.DataFrame(clean_samples).apply(pd.to_numeric, errors="coerce")
+        data = data.sort_index(axis=1)  # columns may arrive in another order
 
         get_data_type = lambda profile: profile.profiles[  # NOQA: E731
             "data_type_profile"
@@ -2734,11 +2735,17 @@ class StructuredProfiler(BaseProfiler):
                 for profile in other._profile
             ]
         )
-        total_row_sum: np.ndarray = self_row_sum + other_row_sum
+        # the columns of the other profile in the order of this one
+        mapping = self._get_and_validate_schema_mapping(
+            self._col_name_to_idx, other._col_name_to_idx
+        )
+        order = [mapping[idx] for idx in range(len(self._profile))]
+        total_row_sum: np.ndarray = self_row_sum + other_row_sum[order]
         merged_properties: dict = defaultdict(dict)
         for col_id in range(len(self._profile)):
             self_profile = self._profile[col_id]
-            other_profile = other._profile[col_id]
+            other_col_id = order[col_id]
+            other_profile = other._profile[other_col_id]
 
             self_null_count = getattr(self_profile, "null_count")
             other_null_count = getattr(other_profile, "null_count")
@@ -2760,8 +2767,8 @@ class StructuredProfiler(BaseProfiler):
                 else None
             )
             other_sum_null = (
-                other._null_replication_metrics[col_id]["class_sum"][1]
-                if col_id in other._null_replication_metrics
+                other._null_replication_metrics[other_col_id]["class_sum"][1]
+                if other_col_id in other._null_replication_metrics
                 else None
             )
             # Initialize zeros array of size (number of columns - 1)
@@ -2773,7 +2780,10 @@ class StructuredProfiler(BaseProfiler):
                 sum_null += np.asarray(self_sum_null)
 
             if other_sum_null is not None:
-                sum_null += np.asarray(other_sum_null)
+                other_sum_null = np.insert(
+                    np.asarray(other_sum_null, dtype=float), other_col_id, np.nan
+                )
+                sum_null += np.delete(other_sum_null[order], col_id)
 
             sum_not_null = np.delete(total_row_sum, col_id) - sum_null
 
-- 
2.43.0


From 8fbfb2f47c20c92bbdbbe370f551a0eee0cd05be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:45 +0000
Subject: [PATCH 43/93] fix: chi2 matrix of an all-null profile merged with one
 in another column order

---
 dataprofiler/profilers/profile_builder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index cfdf985..510d4c1 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -1841,6 +1841,9 @@ class StructuredProfiler(BaseProfiler):
 
             chi2_mat1 = self.chi2_matrix
             chi2_mat2 = other.chi2_matrix
+            if chi2_mat2 is not None and self_to_other_idx:
+                order = [self_to_other_idx[idx] for idx in range(len(self._profile))]
+                chi2_mat2 = chi2_mat2[np.ix_(order, order)]
             n1 = self.total_samples - self.row_is_null_count
             n2 = other.total_samples - other.row_is_null_count
             if n1 == 0:
-- 
2.43.0


From 607b2da664ac3c42b15cf4ebfcd9fa08f4120432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:39 +0000
Subject: [PATCH 44/93] fix: a single row has no correlation instead of a
 perfect one

---
 dataprofiler/profilers/profile_builder.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 510d4c1..7268250 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2374,8 +2374,10 @@ class StructuredProfiler(BaseProfiler):
         corr_mat = np.full((n_cols, n_cols), np.nan)
 
         # then, fill in the correlations for valid columns
-        rows = [[id] for id in clean_column_ids]
-        corr_mat[rows, clean_column_ids] = np.corrcoef(data, rowvar=False)
+        # (np.corrcoef takes a single row for a single variable)
+        if len(data) > 1:
+            rows = [[id] for id in clean_column_ids]
+            corr_mat[rows, clean_column_ids] = np.corrcoef(data, rowvar=False)
 
         return corr_mat
 
-- 
2.43.0


From 1ff82d033557c28ea8ad26d3fcb0c1ad7a84f733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:54 +0000
Subject: [PATCH 45/93] fix: merge null replication metrics when a column has
 no values in one profile

---
 dataprofiler/profilers/profile_builder.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 7268250..0101386 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2745,7 +2745,13 @@ class StructuredProfiler(BaseProfiler):
             self._col_name_to_idx, other._col_name_to_idx
         )
         order = [mapping[idx] for idx in range(len(self._profile))]
-        total_row_sum: np.ndarray = self_row_sum + other_row_sum[order]
+        other_row_sum = other_row_sum[order]
+        # a column without values in one of the profiles adds nothing
+        total_row_sum: np.ndarray = np.where(
+            np.isnan(self_row_sum),
+            other_row_sum,
+            self_row_sum + np.nan_to_num(other_row_sum),
+        )
         merged_properties: dict = defaultdict(dict)
         for col_id in range(len(self._profile)):
             self_profile = self._profile[col_id]
-- 
2.43.0


From 1d1e29ddd17b07f1d46b04e431f3eb7c6e3d30c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:11 +0000
Subject: [PATCH 46/93] fix: diffing two undefined (nan) statistics reports
 unchanged

---
 dataprofiler/profilers/profiler_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profiler_utils.py b/dataprofiler/profilers/profiler_utils.py
index e38e1b0..d75fa54 100644
--- a/dataprofiler/profilers/profiler_utils.py
+++ b/dataprofiler/profilers/profiler_utils.py
@@ -443,7 +443,7 @@ def find_diff_of_numbers(stat1, stat2):
         pass
     elif stat1 is None or stat2 is None:
         return [stat1, stat2]
-    elif stat1 != stat2:
+    elif stat1 != stat2 and not (stat1 != stat1 and stat2 != stat2):  # both nan
         return stat1 - stat2
     return "unchanged"
 
-- 
2.43.0


From c13835cb23442e83f726393ba09f9887743eb14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:11 +0000
Subject: [PATCH 47/93] fix: diffing matrices of which only one has a value
 reports the difference

---
 dataprofiler/profilers/profiler_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profiler_utils.py b/dataprofiler/profilers/profiler_utils.py
index d75fa54..e194974 100644
--- a/dataprofiler/profilers/profiler_utils.py
+++ b/dataprofiler/profilers/profiler_utils.py
@@ -604,7 +604,7 @@ def find_diff_of_matrices(
 
         if mat1.shape == mat2.shape:
             diff: np.ndarray = mat1 - mat2
-            if ((diff == 0) | np.isnan(diff)).all():
+            if ((diff == 0) | (np.isnan(mat1) & np.isnan(mat2))).all():
                 return "unchanged"
             return diff
 
-- 
2.43.0


From 70055a5ca6965531bde11b7b1b1721c8635cd5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:11 +0000
Subject: [PATCH 48/93] fix: diff the row positions of a shared null type as
 sets

---
 dataprofiler/profilers/profiler_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profiler_utils.py b/dataprofiler/profilers/profiler_utils.py
index e194974..48ea6bc 100644
--- a/dataprofiler/profilers/profiler_utils.py
+++ b/dataprofiler/profilers/profiler_utils.py
@@ -638,7 +638,7 @@ def find_diff_of_dicts_with_diff_keys(
     for key, value1 in dict1.items():
         if key in dict2:
             value2 = dict2[key]
-            if isinstance(value1, list):
+            if isinstance(value1, (list, set)):
                 diff_shared[key] = find_diff_of_lists_and_sets(value1, value2)
             elif isinstance(value1, datetime.datetime):
                 diff_shared[key] = find_diff_of_dates(value1, value2)
-- 
2.43.0


From 85e8570edf06ced32ccff4b0264b6aab483e2e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:26 +0000
Subject: [PATCH 49/93] fix: the null ratio of a column covers all its batches

---
 dataprofiler/profilers/profile_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 0101386..599b1ae 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -432,7 +432,7 @@ class StructuredColProfiler:
         self._last_batch_size = base_stats["sample_size"]
         self.sample = base_stats["sample"]
         self.null_count += base_stats["null_count"]
-        self.null_ratio = base_stats["null_count"] / base_stats["sample_size"]
+        self.null_ratio = self.null_count / self.sample_size
         self.null_types = profiler_utils._combine_unique_sets(
             self.null_types, list(base_stats["null_types"].keys())
         )
-- 
2.43.0


From 406e8b8bbc52e4a548d2c13d3b445604577b52dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:28 +0000
Subject: [PATCH 50/93] fix: diffing columns of different types with categories
 disabled no longer raises

---
 dataprofiler/profilers/profile_builder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 599b1ae..b022361 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -285,6 +285,9 @@ class StructuredColProfiler:
             }
         )
 
+        # neither compiler has statistics to compare, e.g. categories are disabled
+        # and the data types differ
+        unordered_profile.setdefault("statistics", {})
         unordered_profile["statistics"].update(
             {
                 "sample_size": profiler_utils.find_diff_of_numbers(
-- 
2.43.0


From ccfc8d211ff4445eccc080e6540efe60e64cc671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:36 +0000
Subject: [PATCH 51/93] fix: diffing texts of different case sensitivity adds
 the counts of the same word

---
 .../profilers/unstructured_text_profile.py    | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/dataprofiler/profilers/unstructured_text_profile.py b/dataprofiler/profilers/unstructured_text_profile.py
index f825194..0563867 100644
--- a/dataprofiler/profilers/unstructured_text_profile.py
+++ b/dataprofiler/profilers/unstructured_text_profile.py
@@ -604,14 +604,22 @@ class TextProfiler:
         self_word_count = dict(self.word_count.most_common(self._top_k_words))
 
         other_words = list(other_profile.word_count.keys())
-        other_word_count = dict(other_profile.word_count.most_common(self._top_k_words))
+        other_word_count = dict(
+            other_profile.word_count.most_common(other_profile._top_k_words)
+        )
+
+        def lower_count(word_count: dict) -> dict:
+            lower_word_count: Counter = Counter()
+            for word, count in word_count.items():
+                lower_word_count[word.lower()] += count
+            return dict(lower_word_count)
 
         if self._is_case_sensitive and not other_profile._is_case_sensitive:
-            self_words = [each_string.lower() for each_string in self_words]
-            self_word_count = {k.lower(): v for k, v in self_word_count.items()}
+            self_words = list(dict.fromkeys(word.lower() for word in self_words))
+            self_word_count = lower_count(self_word_count)
         if not self._is_case_sensitive and other_profile._is_case_sensitive:
-            other_words = [each_string.lower() for each_string in other_words]
-            other_word_count = {k.lower(): v for k, v in other_word_count.items()}
+            other_words = list(dict.fromkeys(word.lower() for word in other_words))
+            other_word_count = lower_count(other_word_count)
 
         diff: dict = {}
         diff["vocab"] = profiler_utils.find_diff_of_lists_and_sets(
@@ -620,7 +628,7 @@ class TextProfiler:
 
         diff["vocab_count"] = profiler_utils.find_diff_of_dicts_with_diff_keys(
             dict(self.vocab_count.most_common(self._top_k_chars)),
-            dict(other_profile.vocab_count.most_common(self._top_k_chars)),
+            dict(other_profile.vocab_count.most_common(other_profile._top_k_chars)),
         )
 
         diff["words"] = profiler_utils.find_diff_of_lists_and_sets(
-- 
2.43.0


From e4b560c506608f930a784c49fbda46883d8100ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:51 +0000
Subject: [PATCH 52/93] fix: refuse an update whose column names differ in case
 before changing the profile

---
 dataprofiler/profilers/profile_builder.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index b022361..0ec46b8 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2868,6 +2868,16 @@ class StructuredProfiler(BaseProfiler):
             mapping_given, self._col_name_to_idx
         )
 
+        # Names may differ in case only, refuse them before anything is updated
+        if self._profile:
+            for col_idx, prof_idx in col_idx_to_prof_idx.items():
+                prof_name = self._profile[prof_idx].name
+                if prof_name is not None and data.columns[col_idx] != prof_name:
+                    raise ValueError(
+                        f"Column names have changed, col {data.columns[col_idx]} "
+                        f"does not match prior name {prof_name}"
+                    )
+
         try:
             from tqdm import tqdm
 
-- 
2.43.0


From 8f568dbae375cae22d5d3fe2abd803f58b96af09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:36 +0000
Subject: [PATCH 53/93] fix: report a profile merged with one without null
 replication metrics

---
 dataprofiler/profilers/profile_builder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 0ec46b8..f12d836 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2112,6 +2112,7 @@ class StructuredProfiler(BaseProfiler):
                 report["data_stats"][i]["statistics"]["quantiles"] = quantiles
             if (
                 self.options.null_replication_metrics.is_enabled
+                and self._null_replication_metrics is not None
                 and i in self._null_replication_metrics
             ):
                 report["data_stats"][i][
-- 
2.43.0


From ac5ff1893c40d4b42db852c3868788d6ff64dc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:37 +0000
Subject: [PATCH 54/93] fix: hash rows equally when a number and its text are
 both column names

---
 dataprofiler/profilers/profile_builder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index f12d836..0a59d22 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2243,7 +2243,11 @@ class StructuredProfiler(BaseProfiler):
             rows = data.iloc[
                 :,
                 sorted(
-                    range(data.shape[1]), key=lambda idx: str(data.columns[idx]).lower()
+                    range(data.shape[1]),
+                    key=lambda idx: (
+                        str(data.columns[idx]).lower(),
+                        isinstance(data.columns[idx], str),
+                    ),
                 ),
             ]
             if isinstance(self.hashed_row_object, dict):
-- 
2.43.0


From 4dbdb661d801bb1a0b66d52477e9240e05768c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:45 +0000
Subject: [PATCH 55/93] fix: refuse to update a profile with data without
 columns

---
 dataprofiler/profilers/profile_builder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 0a59d22..ae83568 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2875,6 +2875,10 @@ class StructuredProfiler(BaseProfiler):
 
         # Names may differ in case only, refuse them before anything is updated
         if self._profile:
+            if not mapping_given:
+                raise ValueError(
+                    "Attempted to update a profile with data without columns"
+                )
             for col_idx, prof_idx in col_idx_to_prof_idx.items():
                 prof_name = self._profile[prof_idx].name
                 if prof_name is not None and data.columns[col_idx] != prof_name:
-- 
2.43.0


From 6aef289a6024f084ccac0dc4947c8bd9af895d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:40 +0000
Subject: [PATCH 56/93] fix: remove only disabled statistics from a report with
 remove_disabled_flag

---
 .../profilers/float_column_profile.py         |  9 ++--
 dataprofiler/profilers/int_column_profile.py  |  7 ++-
 .../profilers/numerical_column_stats.py       | 49 ++++++++++++++-----
 dataprofiler/profilers/text_column_profile.py |  9 ++--
 4 files changed, 48 insertions(+), 26 deletions(-)

diff --git a/dataprofiler/profilers/float_column_profile.py b/dataprofiler/profilers/float_column_profile.py
index b19fde9..883df11 100644
--- a/dataprofiler/profilers/float_column_profile.py
+++ b/dataprofiler/profilers/float_column_profile.py
@@ -150,12 +150,9 @@ class FloatColumn(
         profile = self.profile
 
         if remove_disabled_flag:
-            profile_keys = list(profile.keys())
-            for profile_key in profile_keys:
-                if profile_key == "precision":
-                    if "precision" in calcs_dict_keys:
-                        continue
-                profile.pop(profile_key)
+            self._remove_disabled_stats(profile)
+            if "precision" not in calcs_dict_keys:
+                profile.pop("precision")
 
         return profile
 
diff --git a/dataprofiler/profilers/int_column_profile.py b/dataprofiler/profilers/int_column_profile.py
index 014465c..8cdcc57 100644
--- a/dataprofiler/profilers/int_column_profile.py
+++ b/dataprofiler/profilers/int_column_profile.py
@@ -70,7 +70,12 @@ class IntColumn(
             options should be excluded in the report.
         :type remove_disabled_flag: boolean
         """
-        return self.profile
+        profile = self.profile
+
+        if remove_disabled_flag:
+            self._remove_disabled_stats(profile)
+
+        return profile
 
     @classmethod
     def load_from_dict(cls, data, config: dict | None = None):
diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index d831b92..45da8da 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -415,25 +415,48 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         :return: Profile object pop'd based on values missing from __calculations
         :rtype: Profile
         """
-        calcs_dict_keys = self._NumericStatsMixin__calculations.keys()
         profile = self.profile()
 
         if remove_disabled_flag:
-            profile_keys = list(profile.keys())
-            for profile_key in profile_keys:
-                if profile_key in ["mode", "quantiles", "histogram"]:
-                    if "histogram_and_quantiles" in calcs_dict_keys:
-                        continue
-                elif profile_key == "stddev" and "variance" in calcs_dict_keys:
-                    continue
-                elif profile_key in calcs_dict_keys:
-                    continue
-                elif profile_key == "times":
-                    continue
-                profile.pop(profile_key)
+            self._remove_disabled_stats(profile)
 
         return profile
 
+    def _remove_disabled_stats(self, profile: dict) -> None:
+        """
+        Remove the disabled numeric statistics from a profile.
+
+        :param profile: profile of the column, changed in place
+        :type profile: dict
+        :return: None
+        """
+        calcs_dict_keys = self._NumericStatsMixin__calculations.keys()
+        has_histogram = "histogram_and_quantiles" in calcs_dict_keys
+        is_enabled = {
+            key: key in calcs_dict_keys
+            for key in [
+                "min",
+                "max",
+                "sum",
+                "variance",
+                "skewness",
+                "kurtosis",
+                "num_zeros",
+                "num_negatives",
+            ]
+        }
+        is_enabled["mean"] = "sum" in calcs_dict_keys
+        is_enabled["stddev"] = "variance" in calcs_dict_keys
+        is_enabled["histogram"] = is_enabled["quantiles"] = has_histogram
+        is_enabled["mode"] = has_histogram and self._mode_is_enabled
+        is_enabled["median"] = has_histogram and self._median_is_enabled
+        is_enabled["median_abs_deviation"] = (
+            has_histogram and self._median_abs_dev_is_enabled
+        )
+        for key in list(profile.keys()):
+            if not is_enabled.get(key, True):
+                profile.pop(key)
+
     def _reformat_numeric_stats_types_on_serialized_profiles(self):
         """Assistance function in the deserialization of profiler objects.
 
diff --git a/dataprofiler/profilers/text_column_profile.py b/dataprofiler/profilers/text_column_profile.py
index 5969a41..a1cd895 100644
--- a/dataprofiler/profilers/text_column_profile.py
+++ b/dataprofiler/profilers/text_column_profile.py
@@ -76,12 +76,9 @@ class TextColumn(
         profile = self.profile
 
         if remove_disabled_flag:
-            profile_keys = list(profile.keys())
-            for profile_key in profile_keys:
-                if profile_key == "vocab":
-                    if "vocab" in calcs_dict_keys:
-                        continue
-                profile.pop(profile_key)
+            self._remove_disabled_stats(profile)
+            if "vocab" not in calcs_dict_keys:
+                profile.pop("vocab")
 
         return profile
 
-- 
2.43.0


From 3c9e0bce38ed2b378a536c3994e81ddbc85e6448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:40 +0000
Subject: [PATCH 57/93] fix: keep the enabled counts in an unstructured report
 with remove_disabled_flag

---
 .../profilers/unstructured_text_profile.py        | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/dataprofiler/profilers/unstructured_text_profile.py b/dataprofiler/profilers/unstructured_text_profile.py
index 0563867..98806f1 100644
--- a/dataprofiler/profilers/unstructured_text_profile.py
+++ b/dataprofiler/profilers/unstructured_text_profile.py
@@ -647,15 +647,12 @@ class TextProfiler:
         profile = self.profile
 
         if remove_disabled_flag:
-            profile_keys = list(profile.keys())
-            for profile_key in profile_keys:
-                if profile_key == "vocab":
-                    if "vocab" in calcs_dict_keys:
-                        continue
-                if profile_key == "words":
-                    if "words" in calcs_dict_keys:
-                        continue
-                profile.pop(profile_key)
+            if "vocab" not in calcs_dict_keys:
+                profile.pop("vocab")
+                profile.pop("vocab_count")
+            if "words" not in calcs_dict_keys:
+                profile.pop("words")
+                profile.pop("word_count")
 
         return profile
 
-- 
2.43.0


From cad3aa7607bc0e42467a4d72d3edb25ec8315edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:46 +0000
Subject: [PATCH 58/93] fix: omitting "*.*" from a report drops every column
 instead of raising

---
 dataprofiler/profilers/helpers/report_helpers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataprofiler/profilers/helpers/report_helpers.py b/dataprofiler/profilers/helpers/report_helpers.py
index 68e7db8..40c9911 100644
--- a/dataprofiler/profilers/helpers/report_helpers.py
+++ b/dataprofiler/profilers/helpers/report_helpers.py
@@ -172,6 +172,7 @@ def _prepare_report(
 
                     # Omit this column
                     if omit_key in {
+                        "*.*",
                         f"*.{col_name}",
                         "data_stats.*",
                         f"data_stats.{col_name}",
-- 
2.43.0


From c241e395cb7bf3a66b951a955410e65cb6152bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:36 +0000
Subject: [PATCH 59/93] fix: read a CSV file with its quote character

---
 dataprofiler/data_readers/csv_data.py   | 2 ++
 dataprofiler/data_readers/data_utils.py | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/dataprofiler/data_readers/csv_data.py b/dataprofiler/data_readers/csv_data.py
index 7e13d40..13c5bdc 100644
--- a/dataprofiler/data_readers/csv_data.py
+++ b/dataprofiler/data_readers/csv_data.py
@@ -562,6 +562,7 @@ class CSVData(SpreadSheetDataMixin, BaseData):
             self.sample_nrows,
             self.selected_columns,
             read_in_string=True,
+            quotechar=self.quotechar,
         )
 
     def _load_data_from_file(self, input_file_path: str) -> pd.DataFrame:
@@ -609,6 +610,7 @@ class CSVData(SpreadSheetDataMixin, BaseData):
             self.sample_nrows,
             self.selected_columns,
             read_in_string=True,
+            quotechar=self.quotechar,
             encoding=self.file_encoding,
         )
 
diff --git a/dataprofiler/data_readers/data_utils.py b/dataprofiler/data_readers/data_utils.py
index 611d25d..ce75016 100644
--- a/dataprofiler/data_readers/data_utils.py
+++ b/dataprofiler/data_readers/data_utils.py
@@ -375,6 +375,7 @@ def read_csv_df(
     selected_columns: List[str] = [],
     read_in_string: bool = False,
     encoding: Optional[str] = "utf-8",
+    quotechar: Optional[str] = None,
 ) -> pd.DataFrame:
     """
     Read a CSV file in chunks and return dataframe in form of iterator.
@@ -390,6 +391,8 @@ def read_csv_df(
     :param read_in_string: if True, all the values in dataframe will be
         converted to string
     :type read_in_string: bool
+    :param quotechar: character used to quote csv values, '"' if None
+    :type quotechar: str
     :return: Iterator
     :rtype: pd.DataFrame
     """
@@ -402,6 +405,9 @@ def read_csv_df(
         "encoding": encoding,
     }
 
+    if quotechar:
+        args["quotechar"] = quotechar
+
     # If a header can be identified, don't skip blanks
     if header is not None:
         args.update({"skip_blank_lines": False})
-- 
2.43.0


From 4803d979878bc1ad1ab1361f8ca32b2771189511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:35 +0000
Subject: [PATCH 60/93] fix: keep line breaks within CSV values as they are

---
 dataprofiler/data_readers/data_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/data_readers/data_utils.py b/dataprofiler/data_readers/data_utils.py
index ce75016..165508e 100644
--- a/dataprofiler/data_readers/data_utils.py
+++ b/dataprofiler/data_readers/data_utils.py
@@ -424,10 +424,11 @@ def read_csv_df(
     if isinstance(file_path, BytesIO):
         # a BytesIO stream has to be wrapped in order to properly be detached
         # in 3.6 this avoids read_csv wrapping the stream and closing too early
-        file_path = TextIOWrapper(file_path, encoding=encoding)
+        # newlines are left to the parser, those within quotes belong to the values
+        file_path = TextIOWrapper(file_path, encoding=encoding, newline="")
         is_buf_wrapped = True
     elif isinstance(file_path, str):
-        file_path = open(file_path, encoding=encoding)
+        file_path = open(file_path, encoding=encoding, newline="")
         is_file_open = True
 
     file_data = file_path
-- 
2.43.0


From b41ab97bd1dc33d43d9e3e91d9cfbe9813f093a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:35 +0000
Subject: [PATCH 61/93] fix: read a CSV file with a line of only a tab or blank
 delimiter

---
 dataprofiler/data_readers/csv_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/data_readers/csv_data.py b/dataprofiler/data_readers/csv_data.py
index 13c5bdc..4a00c59 100644
--- a/dataprofiler/data_readers/csv_data.py
+++ b/dataprofiler/data_readers/csv_data.py
@@ -596,7 +596,7 @@ class CSVData(SpreadSheetDataMixin, BaseData):
                     if len(line) > 0:
                         if (
                             line.count(self._delimiter) == 1
-                            and line.strip()[-1] == self._delimiter
+                            and line.strip().endswith(self._delimiter)
                         ):
                             count_delimiter_last += 1
                         num_lines_read += 1
-- 
2.43.0


From 20154778185b93761941e98335c1629b0f2f1eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:21 +0000
Subject: [PATCH 62/93] fix: look at the last character of a file when
 detecting its delimiter

---
 dataprofiler/data_readers/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/data_readers/data_utils.py b/dataprofiler/data_readers/data_utils.py
index 165508e..ae6e033 100644
--- a/dataprofiler/data_readers/data_utils.py
+++ b/dataprofiler/data_readers/data_utils.py
@@ -845,7 +845,7 @@ def load_as_str_from_file(
 
             start_loc = 0
             len_sample_lines = len(sample_lines)
-            while start_loc < len_sample_lines - 1 and total_occurrences < max_lines:
+            while start_loc < len_sample_lines and total_occurrences < max_lines:
                 loc, occurrence = find_nth_loc(
                     sample_lines[start_loc:],
                     search_query=cast(str, search_query_value),
-- 
2.43.0


From ec9b4487b4dac0ce4340f9bcb2a7966bfd9b2cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:36 +0000
Subject: [PATCH 63/93] fix: read JSON lines after an empty line of text given
 as data

---
 dataprofiler/data_readers/data_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/data_readers/data_utils.py b/dataprofiler/data_readers/data_utils.py
index ae6e033..bd518c6 100644
--- a/dataprofiler/data_readers/data_utils.py
+++ b/dataprofiler/data_readers/data_utils.py
@@ -201,7 +201,7 @@ def read_json_df(
         except StopIteration:
             raw_line = None
 
-        if not raw_line:
+        if raw_line is None:
             break
         try:
             obj = unicode_to_str(
@@ -257,7 +257,7 @@ def read_json(
         except StopIteration:
             raw_line = None
 
-        if not raw_line:
+        if raw_line is None:
             break
         try:
             obj = unicode_to_str(
-- 
2.43.0


From ee02c5c3b1cc61a98a778521a379aa56b01670ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:31 +0000
Subject: [PATCH 64/93] fix: flatten nested objects of line-delimited JSON like
 those of an array

---
 dataprofiler/data_readers/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/data_readers/data_utils.py b/dataprofiler/data_readers/data_utils.py
index bd518c6..867bf1e 100644
--- a/dataprofiler/data_readers/data_utils.py
+++ b/dataprofiler/data_readers/data_utils.py
@@ -149,7 +149,7 @@ def json_to_dataframe(
             "Only JSON which represents structured data is supported for this "
             "data type (i.e. list-dicts)."
         )
-    elif first_item_type == dict:
+    elif issubclass(first_item_type, dict):
         df = pd.json_normalize(json_lines)
     else:
         df = pd.DataFrame(json_lines)
-- 
2.43.0


From 7ecd0d91bb70f1cc48c1bdd08b372d10b86d343b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:43 +0000
Subject: [PATCH 65/93] fix: keep the given quote character when detecting the
 delimiter of a CSV file

---
 dataprofiler/data_readers/csv_data.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dataprofiler/data_readers/csv_data.py b/dataprofiler/data_readers/csv_data.py
index 4a00c59..7c21c1a 100644
--- a/dataprofiler/data_readers/csv_data.py
+++ b/dataprofiler/data_readers/csv_data.py
@@ -544,7 +544,9 @@ class CSVData(SpreadSheetDataMixin, BaseData):
         """Load the data into memory from the str."""
         delimiter, quotechar = None, None
         if not self._delimiter or not self._quotechar:
-            delimiter, quotechar = self._guess_delimiter_and_quotechar(data_as_str)
+            delimiter, quotechar = self._guess_delimiter_and_quotechar(
+                data_as_str, self._quotechar
+            )
         if not self._delimiter:
             self._delimiter = delimiter
         if not self._quotechar:
@@ -574,7 +576,9 @@ class CSVData(SpreadSheetDataMixin, BaseData):
         if not self._delimiter or not self._checked_header:
             delimiter, quotechar = None, None
             if not self._delimiter or not self._quotechar:
-                delimiter, quotechar = self._guess_delimiter_and_quotechar(data_as_str)
+                delimiter, quotechar = self._guess_delimiter_and_quotechar(
+                    data_as_str, self._quotechar
+                )
             if not self._delimiter:
                 self._delimiter = delimiter
             if not self._quotechar:
@@ -660,7 +664,9 @@ class CSVData(SpreadSheetDataMixin, BaseData):
             # Checks if delimiter is a space; If so, returns false
             quotetmp = None
             if not delimiter:
-                delimiter, quotetmp = cls._guess_delimiter_and_quotechar(data_as_str)
+                delimiter, quotetmp = cls._guess_delimiter_and_quotechar(
+                    data_as_str, quotechar
+                )
             if quotetmp:
                 quotechar = quotetmp
             if header == "auto":
-- 
2.43.0


From 827ab3b5700b19ab3fc16032d3b693939e4fc484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:03 +0000
Subject: [PATCH 66/93] fix: reloading a CSV reader uses the options given, not
 those of the previous file

---
 dataprofiler/data_readers/csv_data.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/dataprofiler/data_readers/csv_data.py b/dataprofiler/data_readers/csv_data.py
index 7c21c1a..21d2404 100644
--- a/dataprofiler/data_readers/csv_data.py
+++ b/dataprofiler/data_readers/csv_data.py
@@ -769,10 +769,7 @@ class CSVData(SpreadSheetDataMixin, BaseData):
         :type options: dict
         :return: None
         """
-        if not options:
-            options = dict()
-        options.update(
-            header=self.header, delimiter=self.delimiter, quotechar=self.quotechar
-        )
+        # a copy, detection adds what it found
+        options = dict(options) if options else dict()
         super().reload(input_file_path, data, options)
         CSVData.__init__(self, self.input_file_path, data, options)
-- 
2.43.0


From be38c81c044cc0c15dfc89120bcb8337a7a05a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:49 +0000
Subject: [PATCH 67/93] fix: leave a buffer at its start after reading it as
 CSV

---
 dataprofiler/data_readers/data_utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/data_readers/data_utils.py b/dataprofiler/data_readers/data_utils.py
index 867bf1e..0230ebd 100644
--- a/dataprofiler/data_readers/data_utils.py
+++ b/dataprofiler/data_readers/data_utils.py
@@ -437,12 +437,15 @@ def read_csv_df(
     fo = pd.read_csv(file_data, **args)
     data = fo.read()
 
-    # if the buffer was wrapped, detach it before returning
+    # if the buffer was wrapped, detach it before returning; as with
+    # FileOrBufferHandler, a buffer is left at its start to be read again
     if is_buf_wrapped:
         file_path = cast(TextIOWrapper, file_path)
-        file_path.detach()
+        file_path.detach().seek(0)
     elif is_file_open:
         file_path.close()
+    elif isinstance(file_path, StringIO):
+        file_path.seek(0)
     fo.close()
 
     return data
-- 
2.43.0


From 42f2c88c07e9dc46a8badf756458249be6ca71fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:22 +0000
Subject: [PATCH 68/93] fix: the node columns of an edge list are not read as
 edge attributes

---
 dataprofiler/data_readers/graph_data.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/dataprofiler/data_readers/graph_data.py b/dataprofiler/data_readers/graph_data.py
index 337408a..6bfe8b1 100644
--- a/dataprofiler/data_readers/graph_data.py
+++ b/dataprofiler/data_readers/graph_data.py
@@ -269,14 +269,12 @@ class GraphData(BaseData):
             for column in range(0, len(csv_as_list[0])):
                 if csv_as_list[line_index][column] is None:
                     continue
-                if (
-                    column is not self._source_node
-                    or column is not self._destination_node
-                ) and self._column_names is not None:
+                is_node = column in (self._source_node, self._destination_node)
+                if not is_node and self._column_names is not None:
                     attributes[self._column_names[column]] = float(
                         csv_as_list[line_index][column]
                     )
-                elif column is self._source_node or column is self._destination_node:
+                elif is_node:
                     networkx_graph.add_node(
                         self.check_integer(csv_as_list[line_index][column])
                     )
-- 
2.43.0


From 60cc415a86d5896f201eefeb15c889fcf096cc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:37 +0000
Subject: [PATCH 69/93] fix: profile graphs whose continuous attributes are
 constant or have many edges

---
 dataprofiler/profilers/graph_profiler.py | 25 ++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/dataprofiler/profilers/graph_profiler.py b/dataprofiler/profilers/graph_profiler.py
index 0680a29..8da4967 100644
--- a/dataprofiler/profilers/graph_profiler.py
+++ b/dataprofiler/profilers/graph_profiler.py
@@ -403,7 +403,7 @@ class GraphProfiler:
                 data_as_list = self._attribute_data_as_list(graph, attribute)
                 df = pd.Series(data_as_list)
                 best_fit: str = None  # type: ignore[assignment]
-                best_mle: float = 1000
+                best_mle: float = float("inf")
                 best_fit_properties: tuple = None  # type: ignore[assignment]
 
                 for distribution in distribution_candidates:
@@ -411,19 +411,28 @@ class GraphProfiler:
 
                     # scipy 1.11.0 updated the way they handle
                     # the loc parameter in fit() for lognorm
-                    if distribution == st.lognorm and scipy_gte_1_11_0:
-                        fit = distribution.fit(df, superfit=True)
-
-                    else:
-                        fit = distribution.fit(df)
-                    mle = distribution.nnlf(fit, df)
+                    try:
+                        if distribution == st.lognorm and scipy_gte_1_11_0:
+                            fit = distribution.fit(df, superfit=True)
+
+                        else:
+                            fit = distribution.fit(df)
+                        mle = distribution.nnlf(fit, df)
+                    except (RuntimeError, ValueError):
+                        # the distribution cannot be fit to these values
+                        continue
 
-                    if mle <= best_mle:
+                    if np.isfinite(mle) and mle <= best_mle:
                         best_distrib = distribution
                         best_fit = distribution.name
                         best_mle = mle
                         best_fit_properties = fit
 
+                # no distribution fits, e.g. when all values are equal
+                if best_fit is None:
+                    continuous_distributions[attribute] = None
+                    continue
+
                 mean, variance, skew, kurtosis = best_distrib.stats(
                     best_fit_properties, moments="mvsk"
                 )
-- 
2.43.0


From 011e43dc2044cf113aeac76493c2d154b9a3be0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:59 +0000
Subject: [PATCH 70/93] fix: a cell without a label is labeled None whatever
 the other cells are

---
 dataprofiler/labelers/data_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/labelers/data_processing.py b/dataprofiler/labelers/data_processing.py
index d53980a..3d5170f 100644
--- a/dataprofiler/labelers/data_processing.py
+++ b/dataprofiler/labelers/data_processing.py
@@ -1844,7 +1844,7 @@ class StructCharPostprocessor(BaseDataPostprocessor, metaclass=AutoSubRegistrati
         if is_pred_labels:
             reverse_label_mapping = {v: k for k, v in label_mapping.items()}
             rev_label_map_vec_func = np.vectorize(
-                lambda x: reverse_label_mapping.get(x, None)
+                lambda x: reverse_label_mapping.get(x, None), otypes=[object]
             )
             results["pred"] = rev_label_map_vec_func(results["pred"])
         return results
-- 
2.43.0


From 119114ecfe66cbc0c6297e5ed5b95d5b49fcebcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:32 +0000
Subject: [PATCH 71/93] fix: keep the labels of flattened samples when the
 flatten separator is empty

---
 dataprofiler/labelers/data_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/labelers/data_processing.py b/dataprofiler/labelers/data_processing.py
index 3d5170f..3090a78 100644
--- a/dataprofiler/labelers/data_processing.py
+++ b/dataprofiler/labelers/data_processing.py
@@ -584,7 +584,7 @@ class CharPreprocessor(BaseDataPreprocessor, metaclass=AutoSubRegistrationMeta):
                             flattened_sample_len -= flatten_separator_len
                             if label_set is not None:
                                 flattened_entities = flattened_entities[
-                                    :-flatten_separator_len
+                                    : len(flattened_entities) - flatten_separator_len
                                 ]
                             force_sample = True
                         elif separate_ind == buffer_ind:
-- 
2.43.0


From 8b3979e4177c86c42adb708e33431489ec3f67bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:09 +0000
Subject: [PATCH 72/93] fix: keep NUL characters at the end of cells given to
 the character-level labeler

---
 dataprofiler/labelers/data_processing.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/labelers/data_processing.py b/dataprofiler/labelers/data_processing.py
index 3090a78..bbcb519 100644
--- a/dataprofiler/labelers/data_processing.py
+++ b/dataprofiler/labelers/data_processing.py
@@ -1421,7 +1421,7 @@ class StructCharPreprocessor(CharPreprocessor, metaclass=AutoSubRegistrationMeta
         separator: str = self._parameters["flatten_separator"]
         default_label: str = self._parameters["default_label"]
 
-        text = separator.join(data.astype(str))
+        text = separator.join(map(str, data))
         if labels is None:
             return text, None
 
@@ -1516,7 +1516,10 @@ class StructCharPreprocessor(CharPreprocessor, metaclass=AutoSubRegistrationMeta
             np_unstruct_labels = None
 
         return super().process(
-            np.array(unstructured_data), np_unstruct_labels, label_mapping, batch_size
+            np.array(unstructured_data, dtype=object),
+            np_unstruct_labels,
+            label_mapping,
+            batch_size,
         )
 
 
-- 
2.43.0


From 15991e765442720c3daf3720a0da0c102361555f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:43 +0000
Subject: [PATCH 73/93] fix: the regex model predicts nothing for no data

---
 dataprofiler/labelers/regex_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/labelers/regex_model.py b/dataprofiler/labelers/regex_model.py
index c6a690c..cd40803 100644
--- a/dataprofiler/labelers/regex_model.py
+++ b/dataprofiler/labelers/regex_model.py
@@ -225,7 +225,7 @@ class RegexModel(BaseModel, metaclass=AutoSubRegistrationMeta):
         # Construct array initial regex predictions where background is
         # predicted.
         predictions = [np.empty((0,))] * 100
-        i = 0
+        i = -1
         for i, input_string in enumerate(data):
 
             # Double array size
-- 
2.43.0


From 722e71b0e41295015cd67d403e6e94ff001a64b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:45 +0000
Subject: [PATCH 74/93] fix: merge column labels when one of the columns has no
 values

---
 dataprofiler/profilers/data_labeler_column_profile.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dataprofiler/profilers/data_labeler_column_profile.py b/dataprofiler/profilers/data_labeler_column_profile.py
index d9bfe1e..2c82944 100644
--- a/dataprofiler/profilers/data_labeler_column_profile.py
+++ b/dataprofiler/profilers/data_labeler_column_profile.py
@@ -182,14 +182,14 @@ class DataLabelerColumn(BaseColumnProfiler["DataLabelerColumn"]):
         # Combine rank distribution
         if self.sample_size or other.sample_size:
             merged_profile._rank_distribution = {
-                key: self._rank_distribution.get(key, 0)
-                + other._rank_distribution.get(key, 0)
-                for key in set(self._rank_distribution) | set(other._rank_distribution)
+                key: self.rank_distribution.get(key, 0)
+                + other.rank_distribution.get(key, 0)
+                for key in [*self.rank_distribution, *other.rank_distribution]
             }
 
             # Combine Sum Predictions
             merged_profile._sum_predictions = (
-                self._sum_predictions + other._sum_predictions
+                self.sum_predictions + other.sum_predictions
             )
         return merged_profile
 
-- 
2.43.0


From c1a362d6a28ef56b3ab8f8773d8ddd4053f611cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:59 +0000
Subject: [PATCH 75/93] fix: a validator reports the last validation only

---
 dataprofiler/validators/base_validators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataprofiler/validators/base_validators.py b/dataprofiler/validators/base_validators.py
index 5b13d12..6616458 100644
--- a/dataprofiler/validators/base_validators.py
+++ b/dataprofiler/validators/base_validators.py
@@ -92,6 +92,8 @@ class Validator:
                 )
 
         self.config = config
+        self.validation_run = False
+        self.validation_report = dict()
 
         df_type = config.get("df_type", "").lower()
 
-- 
2.43.0


From 0847477bdb74b13678ce0dff5f0e384421aa899b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:05 +0000
Subject: [PATCH 76/93] fix: use the seeded generator for the samples of merged
 columns

---
 dataprofiler/profilers/profile_builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index ae83568..8c8e70b 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -246,7 +246,8 @@ class StructuredColProfiler:
             }
         )
         samples = list(dict.fromkeys(self.sample + other.sample))
-        merged_profile.sample = random.sample(samples, min(len(samples), 5))
+        rng = rng_utils.get_random_number_generator()
+        merged_profile.sample = [samples[i] for i in rng.permutation(len(samples))[:5]]
         for profile_name in self.profiles:
             merged_profile.profiles[profile_name] = (
                 self.profiles[profile_name] + other.profiles[profile_name]
-- 
2.43.0


From 2ad18fe96f080608237f17acaef647ab86a112f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:05 +0000
Subject: [PATCH 77/93] fix: use the seeded generator for the rows looked at by
 column profiles

---
 dataprofiler/profilers/data_labeler_column_profile.py | 4 +++-
 dataprofiler/profilers/datetime_column_profile.py     | 6 +++++-
 dataprofiler/profilers/float_column_profile.py        | 6 +++++-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/dataprofiler/profilers/data_labeler_column_profile.py b/dataprofiler/profilers/data_labeler_column_profile.py
index 2c82944..9f8adfb 100644
--- a/dataprofiler/profilers/data_labeler_column_profile.py
+++ b/dataprofiler/profilers/data_labeler_column_profile.py
@@ -7,6 +7,7 @@ from typing import Dict, cast
 import numpy as np
 from pandas import DataFrame, Series
 
+from .. import rng_utils
 from ..labelers.base_data_labeler import BaseDataLabeler
 from ..labelers.data_labelers import DataLabeler
 from . import profiler_utils
@@ -461,7 +462,8 @@ class DataLabelerColumn(BaseColumnProfiler["DataLabelerColumn"]):
             return self
 
         sample_size = min(len(df_series), self._max_sample_size)
-        df_series = df_series.sample(sample_size)
+        rng = rng_utils.get_random_number_generator()
+        df_series = df_series.sample(sample_size, random_state=rng)
 
         profile = dict(sample_size=sample_size)
         self._update_predictions(
diff --git a/dataprofiler/profilers/datetime_column_profile.py b/dataprofiler/profilers/datetime_column_profile.py
index 42349bb..d3d202c 100644
--- a/dataprofiler/profilers/datetime_column_profile.py
+++ b/dataprofiler/profilers/datetime_column_profile.py
@@ -8,6 +8,7 @@ import warnings
 import numpy as np
 import pandas as pd
 
+from .. import rng_utils
 from . import profiler_utils
 from .base_column_profilers import BaseColumnPrimitiveTypeProfiler, BaseColumnProfiler
 from .profiler_options import DateTimeOptions
@@ -362,7 +363,10 @@ class DateTimeColumn(BaseColumnPrimitiveTypeProfiler["DateTimeColumn"]):
         num_samples_to_check = 50
         thresh = 0.10
         sample_size = min(num_samples_to_check, len(df_series))
-        profile = self._get_datetime_profile(df_series.sample(sample_size))
+        rng = rng_utils.get_random_number_generator()
+        profile = self._get_datetime_profile(
+            df_series.sample(sample_size, random_state=rng)
+        )
 
         if profile["match_count"] / sample_size < thresh:
             return False
diff --git a/dataprofiler/profilers/float_column_profile.py b/dataprofiler/profilers/float_column_profile.py
index 883df11..3c7cd28 100644
--- a/dataprofiler/profilers/float_column_profile.py
+++ b/dataprofiler/profilers/float_column_profile.py
@@ -7,6 +7,7 @@ import re
 import numpy as np
 import pandas as pd
 
+from .. import rng_utils
 from . import profiler_utils
 from .base_column_profilers import BaseColumnPrimitiveTypeProfiler, BaseColumnProfiler
 from .numerical_column_stats import NumericStatsMixin
@@ -301,8 +302,11 @@ class FloatColumn(
             sample_size = int(len_df * sample_ratio)
 
         # length of sampled cells after all punctuation removed
+        rng = rng_utils.get_random_number_generator()
         len_per_float = (
-            df_series_clean.sample(sample_size).replace(to_replace=r, value="").map(len)
+            df_series_clean.sample(sample_size, random_state=rng)
+            .replace(to_replace=r, value="")
+            .map(len)
         ).astype(float)
 
         # Determine statistics precision
-- 
2.43.0


From 34cd09bd25a49d9c5e9f8f253b79ef50800c8493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:05 +0000
Subject: [PATCH 78/93] fix: use the seeded generator for sampled parquet rows
 and reader batches

---
 dataprofiler/data_readers/base_data.py  | 5 ++---
 dataprofiler/data_readers/data_utils.py | 4 ++--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/dataprofiler/data_readers/base_data.py b/dataprofiler/data_readers/base_data.py
index 27d8d5d..58e21be 100644
--- a/dataprofiler/data_readers/base_data.py
+++ b/dataprofiler/data_readers/base_data.py
@@ -5,10 +5,9 @@ from collections import OrderedDict
 from io import StringIO
 from typing import Any, Dict, Generator, List, Optional, Union
 
-import numpy as np
 import pandas as pd
 
-from .. import dp_logging
+from .. import dp_logging, rng_utils
 from . import data_utils
 
 logger = dp_logging.get_child_logger(__name__)
@@ -154,7 +153,7 @@ class BaseData:
     ) -> Generator[Union[pd.DataFrame, List], None, None]:
         """Get batch generator."""
         data_length = len(self.data)
-        indices = np.random.permutation(data_length)
+        indices = rng_utils.get_random_number_generator().permutation(data_length)
         for i in range(0, data_length, batch_size):
             if isinstance(self.data, pd.DataFrame):
                 yield self.data.iloc[indices[i : i + batch_size], :]
diff --git a/dataprofiler/data_readers/data_utils.py b/dataprofiler/data_readers/data_utils.py
index 0230ebd..d4004b6 100644
--- a/dataprofiler/data_readers/data_utils.py
+++ b/dataprofiler/data_readers/data_utils.py
@@ -2,7 +2,6 @@
 import json
 import logging
 import os
-import random
 import re
 import urllib
 from collections import OrderedDict
@@ -513,7 +512,8 @@ def sample_parquet(
     n_rows = parquet_table.num_rows
     if n_rows > sample_nrows:
         sample_index = np.array([False] * n_rows)
-        sample_index[random.sample(range(n_rows), sample_nrows)] = True
+        rng = rng_utils.get_random_number_generator()
+        sample_index[rng.choice(n_rows, sample_nrows, replace=False)] = True
     else:
         sample_index = np.array([True] * n_rows)
     sample_df = parquet_table.filter(sample_index).to_pandas()
-- 
2.43.0


From 5b06a66d6d78ab26bb71b587d6897c82c581da60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:10 +0000
Subject: [PATCH 79/93] fix: labeler models keep their own parameters instead
 of the caller's dict

---
 dataprofiler/labelers/base_model.py        | 2 +-
 dataprofiler/labelers/column_name_model.py | 2 +-
 dataprofiler/labelers/regex_model.py       | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dataprofiler/labelers/base_model.py b/dataprofiler/labelers/base_model.py
index 032c2ea..629d6d2 100644
--- a/dataprofiler/labelers/base_model.py
+++ b/dataprofiler/labelers/base_model.py
@@ -54,7 +54,7 @@ class BaseModel(metaclass=abc.ABCMeta):
         # initialize class
         self._model: Any = None
         self._validate_parameters(parameters)
-        self._parameters: dict = parameters
+        self._parameters: dict = dict(parameters)
         self._label_mapping: dict[str, int] = None  # type: ignore
 
         self.set_label_mapping(label_mapping)
diff --git a/dataprofiler/labelers/column_name_model.py b/dataprofiler/labelers/column_name_model.py
index d698cfd..765e891 100644
--- a/dataprofiler/labelers/column_name_model.py
+++ b/dataprofiler/labelers/column_name_model.py
@@ -48,7 +48,7 @@ class ColumnNameModel(BaseModel, metaclass=AutoSubRegistrationMeta):
         # validate and set parameters
         self.set_label_mapping(label_mapping)
         self._validate_parameters(parameters)
-        self._parameters = parameters
+        self._parameters = dict(parameters)
 
     def _validate_parameters(self, parameters: dict) -> None:
         r"""
diff --git a/dataprofiler/labelers/regex_model.py b/dataprofiler/labelers/regex_model.py
index cd40803..759cb25 100644
--- a/dataprofiler/labelers/regex_model.py
+++ b/dataprofiler/labelers/regex_model.py
@@ -65,7 +65,7 @@ class RegexModel(BaseModel, metaclass=AutoSubRegistrationMeta):
         # initialize class
         self.set_label_mapping(label_mapping)
         self._validate_parameters(parameters)
-        self._parameters = parameters
+        self._parameters = dict(parameters)
 
     def _validate_parameters(self, parameters: dict) -> None:
         r"""
-- 
2.43.0


From 08d3ff7228a1f520b99a46a7b25379e27e82c3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:10 +0000
Subject: [PATCH 80/93] fix: setting labeler parameters changes nothing when
 one of them is invalid

---
 dataprofiler/labelers/base_data_labeler.py |  8 ++++++++
 dataprofiler/labelers/data_processing.py   | 13 ++++++++-----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/dataprofiler/labelers/base_data_labeler.py b/dataprofiler/labelers/base_data_labeler.py
index 201f789..d4c3bf1 100644
--- a/dataprofiler/labelers/base_data_labeler.py
+++ b/dataprofiler/labelers/base_data_labeler.py
@@ -238,6 +238,14 @@ class BaseDataLabeler:
                 "DataLabeler."
             )
 
+        # check all of them first, so that nothing is set if any is invalid
+        if self._preprocessor and "preprocessor" in params:
+            self._preprocessor._validate_parameters(params["preprocessor"])
+        if self._model and "model" in params:
+            self._model._validate_parameters(params["model"])
+        if self._postprocessor and "postprocessor" in params:
+            self._postprocessor._validate_parameters(params["postprocessor"])
+
         if self._preprocessor and "preprocessor" in params:
             self._preprocessor.set_params(**params["preprocessor"])
         if self._model and "model" in params:
diff --git a/dataprofiler/labelers/data_processing.py b/dataprofiler/labelers/data_processing.py
index bbcb519..60753e2 100644
--- a/dataprofiler/labelers/data_processing.py
+++ b/dataprofiler/labelers/data_processing.py
@@ -2108,19 +2108,22 @@ class StructRegexPostProcessor(
         :type parameters: dict
         :return: None
         """
-        pass  # is validated by the regex processor
-
-    def set_params(self, **kwargs: Any) -> None:
-        """Given kwargs, set the parameters if they exist."""
         allowed_parameters = self.__class__.__init__.__code__.co_varnames[
             1 : self.__class__.__init__.__code__.co_argcount
         ]
         errors = []
-        for param in kwargs:
+        for param in parameters:
             if param not in allowed_parameters:
                 errors.append(f"{param} is not an accepted parameter.")
         if errors:
             raise ValueError("\n".join(errors))
+
+        if parameters:  # the values are validated by the regex processor
+            self._parameters["regex_processor"]._validate_parameters(parameters)
+
+    def set_params(self, **kwargs: Any) -> None:
+        """Given kwargs, set the parameters if they exist."""
+        self._validate_parameters(kwargs)
         self._parameters["regex_processor"].set_params(**kwargs)
 
     @classmethod
-- 
2.43.0


From 6a4b52bb1c2f33249d426d86cd7e4756f8dc6e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:10 +0000
Subject: [PATCH 81/93] fix: allow setting some of the parameters of a column
 name model

---
 dataprofiler/labelers/column_name_model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/labelers/column_name_model.py b/dataprofiler/labelers/column_name_model.py
index 765e891..d6e2c74 100644
--- a/dataprofiler/labelers/column_name_model.py
+++ b/dataprofiler/labelers/column_name_model.py
@@ -77,6 +77,9 @@ class ColumnNameModel(BaseModel, metaclass=AutoSubRegistrationMeta):
 
         list_of_accepted_parameters = optional_parameters + required_parameters
 
+        # those not given keep their current value
+        given, parameters = parameters, {**getattr(self, "_parameters", {}), **parameters}
+
         if parameters["true_positive_dict"]:
             label_map_dict_keys = set(self.label_mapping.keys())
             true_positive_unique_labels = set(
@@ -91,7 +94,7 @@ class ColumnNameModel(BaseModel, metaclass=AutoSubRegistrationMeta):
                         of the `label_mapping` values()"""
                 )
 
-        for param in parameters:
+        for param in given:
             value = parameters[param]
             if (
                 param == "false_positive_dict"
-- 
2.43.0


From 1f4981b3345c99256c30c9d19bb57d05126ef850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:40 +0000
Subject: [PATCH 82/93] fix: report invalid options of the row statistics

---
 dataprofiler/profilers/profiler_options.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/profiler_options.py b/dataprofiler/profilers/profiler_options.py
index 6ddd25a..2edaeef 100644
--- a/dataprofiler/profilers/profiler_options.py
+++ b/dataprofiler/profilers/profiler_options.py
@@ -1202,9 +1202,9 @@ class RowStatisticsOptions(BooleanOption["RowStatisticsOptions"]):
         if not isinstance(self.null_count, BooleanOption):
             errors.append(f"{variable_path}.null_count must be an BooleanOption.")
 
-        errors += self.unique_count._validate_helper(variable_path + ".unique_counts")
+        errors += self.unique_count._validate_helper(variable_path + ".unique_count")
         errors += self.null_count._validate_helper(variable_path + ".null_count")
-        return super()._validate_helper(variable_path)
+        return errors
 
 
 class DataLabelerOptions(BaseInspectorOptions["DataLabelerOptions"]):
-- 
2.43.0


From e1604e0e0c5713c7901aa99c002c791985c2b020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:40 +0000
Subject: [PATCH 83/93] fix: validate the vocabulary and words options of text
 profiles

---
 dataprofiler/profilers/profiler_options.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataprofiler/profilers/profiler_options.py b/dataprofiler/profilers/profiler_options.py
index 2edaeef..6894d2b 100644
--- a/dataprofiler/profilers/profiler_options.py
+++ b/dataprofiler/profilers/profiler_options.py
@@ -1416,11 +1416,15 @@ class TextProfilerOptions(BaseInspectorOptions["TextProfilerOptions"]):
             errors.append(
                 "{}.vocab must be a BooleanOption " "object.".format(variable_path)
             )
+        else:
+            errors += self.vocab._validate_helper(variable_path + ".vocab")
 
         if not isinstance(self.words, BooleanOption):
             errors.append(
                 "{}.words must be a BooleanOption " "object.".format(variable_path)
             )
+        else:
+            errors += self.words._validate_helper(variable_path + ".words")
 
         return errors
 
-- 
2.43.0


From 5746feb3d00057dd2475572495c7d89009e23e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:04 +0000
Subject: [PATCH 84/93] fix: correlation of batches in which a column has a
 single value

---
 dataprofiler/profilers/profile_builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 8c8e70b..e613658 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2507,8 +2507,9 @@ class StructuredProfiler(BaseProfiler):
                     n = history["match_count"]
                     # Since we impute values, we want the total rows (including nulls)
                     dependent_properties["mean"][id] = history["mean"]
+                    # (a single value does not vary, the nulls imputed take its value)
                     dependent_properties["std"][id] = np.sqrt(
-                        np.float64(history["biased_variance"]) * n / (n - 1)
+                        np.float64(history["biased_variance"]) * n / max(n - 1, 1)
                     )
                     dependent_properties["count"][id] = n
 
-- 
2.43.0


From cd9911ab18659418b474050455678b063c0e149f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:57 +0000
Subject: [PATCH 85/93] fix: plot single missing values that follow a run of
 missing values

---
 dataprofiler/reports/graphs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataprofiler/reports/graphs.py b/dataprofiler/reports/graphs.py
index 1f0b430..58f02d8 100644
--- a/dataprofiler/reports/graphs.py
+++ b/dataprofiler/reports/graphs.py
@@ -320,6 +320,7 @@ def plot_col_missing_values(
                         )
                     )
                     y_start = next_value
+                    y_end = next_value
                 null_ind += 1
             y_end = null_indexes[-1]
             # plot the patch of the last null value
-- 
2.43.0


From e9b87192627729e95dba7d4978adc8988b466377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:58 +0000
Subject: [PATCH 86/93] fix: plot histograms in the order of the columns of the
 profile

---
 dataprofiler/reports/graphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/reports/graphs.py b/dataprofiler/reports/graphs.py
index 58f02d8..6b3b164 100644
--- a/dataprofiler/reports/graphs.py
+++ b/dataprofiler/reports/graphs.py
@@ -83,7 +83,7 @@ def plot_histograms(
             inds_to_graph.extend(profiler._col_name_to_idx[col])
 
     # sort the column indexes to be in the same order as the original profiler.
-    sorted(inds_to_graph)
+    inds_to_graph = sorted(inds_to_graph)
 
     # get all columns which are of type [int, float]
     def is_index_graphable_column(ind_to_graph: int) -> bool:
-- 
2.43.0


From edef50ec964332a1ef827e802fd3f924d628b7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:55 +0000
Subject: [PATCH 87/93] fix: detect the delimiter of a long CSV text
 independently of random draws

---
 dataprofiler/data_readers/csv_data.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/dataprofiler/data_readers/csv_data.py b/dataprofiler/data_readers/csv_data.py
index 21d2404..f812a36 100644
--- a/dataprofiler/data_readers/csv_data.py
+++ b/dataprofiler/data_readers/csv_data.py
@@ -1,6 +1,5 @@
 """Contains class that saves and loads spreadsheet data."""
 import csv
-import random
 import re
 from collections import Counter
 from io import StringIO
@@ -251,13 +250,8 @@ class CSVData(SpreadSheetDataMixin, BaseData):
 
             proposed_delim_type = data_utils.detect_cell_type(proposed_delim)
 
-            # If large dataset, select first 25 rows then random sampling
-            proposed_dataset = data_as_str.split("\n")
-            if len(proposed_dataset) > 25:
-                sample_count = min(int(0.1 * (len(proposed_dataset) - 25)), 1000)
-                proposed_dataset = proposed_dataset[:25] + random.choices(
-                    proposed_dataset[:25], k=sample_count
-                )
+            # If large dataset, select first 25 rows
+            proposed_dataset = data_as_str.split("\n")[:25]
 
             # Reverse to start at bottom where likely the most columns
             # Fewer columns are okay, as long as earlier in file
-- 
2.43.0


From b4b2f93e290bc9de1daa153387e6d416177ce7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:29 +0000
Subject: [PATCH 88/93] fix: read CSV rows that end with a delimiter under
 their own columns

---
 dataprofiler/data_readers/data_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataprofiler/data_readers/data_utils.py b/dataprofiler/data_readers/data_utils.py
index d4004b6..068cac4 100644
--- a/dataprofiler/data_readers/data_utils.py
+++ b/dataprofiler/data_readers/data_utils.py
@@ -402,6 +402,8 @@ def read_csv_df(
         "dtype": "object",
         "keep_default_na": False,
         "encoding": encoding,
+        # rows that end with a delimiter must not turn the first column to an index
+        "index_col": False,
     }
 
     if quotechar:
-- 
2.43.0


From 6e1697c24c35becb53262c4ab4794833c9e654d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:32 +0000
Subject: [PATCH 89/93] fix: read signed node numbers of a graph file as
 integers

---
 dataprofiler/data_readers/graph_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/data_readers/graph_data.py b/dataprofiler/data_readers/graph_data.py
index 6bfe8b1..3c1a24f 100644
--- a/dataprofiler/data_readers/graph_data.py
+++ b/dataprofiler/data_readers/graph_data.py
@@ -298,9 +298,9 @@ class GraphData(BaseData):
     def check_integer(self, string: str) -> Union[int, str]:
         """Check whether string is integer and output integer."""
         stringVal = string
-        if string[0] == ("-", "+"):
+        if string[0] in ("-", "+"):
             stringVal = string[1:]
-        if stringVal.isdigit():
+        if stringVal.isdecimal():
             return int(string)
         else:
             return string
-- 
2.43.0


From 485f6f765e3b26468594146c074d659dc2c1ba69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:32 +0000
Subject: [PATCH 90/93] fix: read graph files with empty attribute cells

---
 dataprofiler/data_readers/graph_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/data_readers/graph_data.py b/dataprofiler/data_readers/graph_data.py
index 3c1a24f..c439f71 100644
--- a/dataprofiler/data_readers/graph_data.py
+++ b/dataprofiler/data_readers/graph_data.py
@@ -267,7 +267,7 @@ class GraphData(BaseData):
             # fetch attributes in columns
             attributes = dict()
             for column in range(0, len(csv_as_list[0])):
-                if csv_as_list[line_index][column] is None:
+                if csv_as_list[line_index][column] in (None, ""):
                     continue
                 is_node = column in (self._source_node, self._destination_node)
                 if not is_node and self._column_names is not None:
-- 
2.43.0


From de9b0b8a7507f190a4e974dff866b6311629775d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:32 +0000
Subject: [PATCH 91/93] fix: read quoted cells of graph files with the quote
 character of the file

---
 dataprofiler/data_readers/graph_data.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/dataprofiler/data_readers/graph_data.py b/dataprofiler/data_readers/graph_data.py
index c439f71..3560018 100644
--- a/dataprofiler/data_readers/graph_data.py
+++ b/dataprofiler/data_readers/graph_data.py
@@ -116,6 +116,7 @@ class GraphData(BaseData):
         header: Optional[int],
         delimiter: Optional[str],
         encoding: str = "utf-8",
+        quotechar: Optional[str] = None,
     ) -> List[str]:
         """Fetch a list of column names from the csv file."""
         column_names: List[str] = []
@@ -125,7 +126,9 @@ class GraphData(BaseData):
             return column_names
 
         with FileOrBufferHandler(file_path, encoding=encoding) as csv_file:
-            csv_reader = csv.reader(csv_file, delimiter=delimiter)
+            csv_reader = csv.reader(
+                csv_file, delimiter=delimiter, quotechar=quotechar or '"'
+            )
 
             # fetch only column names
             row_count = 0
@@ -157,8 +160,9 @@ class GraphData(BaseData):
         header: int = options.get("header", 0)
         delimiter: str = options.get("delimiter", ",")
         encoding: str = options.get("encoding", "utf-8")
+        quotechar: Optional[str] = options.get("quotechar", None)
         column_names: List[str] = cls.csv_column_names(
-            file_path, header, delimiter, encoding
+            file_path, header, delimiter, encoding, quotechar
         )
         source_keywords: List[str] = options.get(
             "source_keywords", ["source", "src", "origin"]
@@ -240,7 +244,11 @@ class GraphData(BaseData):
             and self.file_encoding is not None
         ):
             self._column_names = self.csv_column_names(
-                self.input_file_path, self._header, self._delimiter, self.file_encoding
+                self.input_file_path,
+                self._header,
+                self._delimiter,
+                self.file_encoding,
+                self._quotechar,
             )
         if self._source_node is None and self._column_names is not None:
             self._source_node = self._find_target_string_in_column(
@@ -258,6 +266,7 @@ class GraphData(BaseData):
             selected_columns=[],
             read_in_string=True,
             encoding=self.file_encoding,
+            quotechar=self._quotechar,
         )
         data_as_pd = data_as_pd.apply(lambda x: x.str.strip())
         csv_as_list = data_as_pd.values.tolist()
-- 
2.43.0


From bb66e600c2b3de509d36e43c2c54674cc92f034a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:54 +0000
Subject: [PATCH 92/93] fix: keep CSV records with line boundary characters in
 their values whole

---
 dataprofiler/data_readers/csv_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/data_readers/csv_data.py b/dataprofiler/data_readers/csv_data.py
index f812a36..4b85e8c 100644
--- a/dataprofiler/data_readers/csv_data.py
+++ b/dataprofiler/data_readers/csv_data.py
@@ -617,7 +617,8 @@ class CSVData(SpreadSheetDataMixin, BaseData):
         sep = self.delimiter if self.delimiter else self._default_delimiter
         quote = self.quotechar if self.quotechar else self._default_quotechar
         data = data.to_csv(sep=sep, quotechar=quote, index=False)
-        data = data.splitlines()
+        # only the line feeds end lines, values may have other line boundaries
+        data = data.split("\n")[:-1]
         return super()._get_data_as_records(data)
 
     @classmethod
-- 
2.43.0


From 743bdf144ebd2c5559c033a72cf35db6e19f9218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:54 +0000
Subject: [PATCH 93/93] fix: keep JSON lines with line boundary characters in
 their values whole

---
 dataprofiler/data_readers/json_data.py    | 4 +++-
 dataprofiler/data_readers/parquet_data.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/data_readers/json_data.py b/dataprofiler/data_readers/json_data.py
index 93e5d7e..aca1972 100644
--- a/dataprofiler/data_readers/json_data.py
+++ b/dataprofiler/data_readers/json_data.py
@@ -249,7 +249,9 @@ class JSONData(SpreadSheetDataMixin, BaseData):
         try:
             data = json.loads(data_as_str)
         except json.JSONDecodeError:
-            data_generator = data_utils.data_generator(data_as_str.splitlines())
+            data_generator = data_utils.data_generator(
+                StringIO(data_as_str, newline=None)
+            )
             data = data_utils.read_json(
                 data_generator=data_generator,
                 selected_columns=self.selected_keys,
diff --git a/dataprofiler/data_readers/parquet_data.py b/dataprofiler/data_readers/parquet_data.py
index 4fa567b..2306f93 100644
--- a/dataprofiler/data_readers/parquet_data.py
+++ b/dataprofiler/data_readers/parquet_data.py
@@ -96,7 +96,9 @@ class ParquetData(SpreadSheetDataMixin, BaseData):
 
     def _load_data_from_str(self, data_as_str: str) -> pd.DataFrame:
         """Return data from string."""
-        data_generator = data_utils.data_generator(data_as_str.splitlines())
+        data_generator = data_utils.data_generator(
+            StringIO(data_as_str, newline=None)
+        )
         data, original_df_dtypes = data_utils.read_json_df(
             data_generator=data_generator, read_in_string=True
         )
-- 
2.43.0

