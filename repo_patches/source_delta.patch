From b885a88b29b2720c7c691d4fa08df040ab6190a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 01/25] fix: join sets with equal tags whatever the declared
 size and value form of the tags

With untagged channels, or a plain dict of scalar indices, SignalSet(tags, set)
took the reordering path and raised KeyError or TypeError.
---
 src/razorback/signalset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index 399c45b..1a39c23 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -337,7 +337,8 @@ class SignalSet(object):
         with reordered data.
 
         """
-        if self.tags == tags:
+        tags = Tags(**tags)
+        if dict(tags) == dict(self.tags):
             return self
 
         msg = 'incompatible tags: %s and %s' % (tags, self.tags)
-- 
2.43.0


From 9e2e43e1d89881e380695e6df11f1eeb958d090e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:45 +0000
Subject: [PATCH 02/25] fix: an empty signal set keeps its declared number of
 channels

Without runs the number of channels was guessed from the highest tagged index,
so extracting an empty interval then merging or selecting used wrong channels.
---
 src/razorback/signalset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index 1a39c23..eb11307 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -410,6 +410,8 @@ class SignalSet(object):
         if n and vidx is not None and not set(vidx).issubset(range(n)):
             msg = "incompatible tags"
             raise ValueError(msg)
+        if not n and vidx is not None:
+            n = len(vidx)
         self._tags = Tags(n or None, **value)
 
     def select_channels(self, channels):
-- 
2.43.0


From 5ba1cc3bce5cfdd9f7386503d4731997deb87422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:45 +0000
Subject: [PATCH 03/25] fix: acceptance of touching runs does not depend on
 their order

A one-sample run starting with another run was refused or accepted depending
on the order of the operands.
---
 src/razorback/signalset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index eb11307..a8a1f77 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -242,10 +242,11 @@ class SignalSet(object):
         lengths = set(len(s.data) for s in signals)
         assert len(lengths) <= 1, "all signals must have the same length"
 
-        l = sorted((s.interval for s in signals), key=lambda e: e[0])
+        signals = sorted(signals, key=lambda s: s.interval)
+        l = [s.interval for s in signals]
         assert all(l[i][1]<=l[i+1][0] for i in range(len(l)-1)), "signals must not overlap"
 
-        self._signals = tuple(sorted(signals, key=lambda s: s.start))
+        self._signals = tuple(signals)
         self._tags = None
         self.tags = tags
 
-- 
2.43.0


From 280459874b404c0b5955c9ca234a0b8f02422b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:45 +0000
Subject: [PATCH 04/25] fix: extract_t(exclude=True) accepts a signal set
 without runs

---
 src/razorback/signalset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index a8a1f77..73e3e2d 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -551,8 +551,8 @@ class SignalSet(object):
 
         """
         if exclude:
-            left = self.extract_t(self.starts.min(), start)
-            right = self.extract_t(stop, self.stops.max())
+            left = self.extract_t(-np.inf, start)
+            right = self.extract_t(stop, np.inf)
             return left.join(right)
 
         signals = [s.extract_t(start, stop) for s in self.signals]
-- 
2.43.0


From 0223f06bb6d2cfcb9e8f368f8f4c45d2e96784e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:12 +0000
Subject: [PATCH 05/25] fix: times are compared up to rounding errors, in units
 of the sampling period

Sample times such as start + i / rate are rounded: at POSIX epochs with rates
like 15 or 2400 Hz extract_t dropped boundary samples (even extract_t(*interval)),
merge refused aligned runs or cut them, consecutive runs were not fused and
touching runs were refused.
---
 src/razorback/signalset.py | 42 +++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index 73e3e2d..4e4fbf0 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -242,9 +242,9 @@ class SignalSet(object):
         lengths = set(len(s.data) for s in signals)
         assert len(lengths) <= 1, "all signals must have the same length"
 
-        signals = sorted(signals, key=lambda s: s.interval)
-        l = [s.interval for s in signals]
-        assert all(l[i][1]<=l[i+1][0] for i in range(len(l)-1)), "signals must not overlap"
+        signals = sorted(signals, key=lambda s: sum(s.interval))
+        assert all(a.stop <= b.start + a._time_tolerance(b.start)
+                   for a, b in zip(signals, signals[1:])), "signals must not overlap"
 
         self._signals = tuple(signals)
         self._tags = None
@@ -529,7 +529,7 @@ class SignalSet(object):
             if len(sr) != 1:
                 continue
             # assert len(sr) == 1, "incompatible sampling rates"
-            assert all(s.start == start for s in ss), (
+            assert all(abs(s.start - start) <= s._time_tolerance(start) for s in ss), (
                 'same sampling and time overlap but clock not synchronized')
             sampling_rate = sr.pop()
             signals.append(SyncSignal(
@@ -618,9 +618,11 @@ class SignalSet(object):
         res = SignalSet(self.tags)
         added = np.zeros(self.nb_runs, dtype=bool)
         for sampling in np.unique(self.sampling_rates):
-            mask = self.sampling_rates == sampling
-            start, stop = np.where(mask[:, None], self.intervals, np.nan).T
-            is_consecutive = np.isclose(1/sampling, start[1:] - stop[:-1])
+            is_consecutive = np.array([
+                a.sampling_rate == sampling and b.sampling_rate == sampling
+                and abs(b.start - a.stop - 1/sampling) <= a._time_tolerance(b.start)
+                for a, b in zip(self.signals, self.signals[1:])
+            ], dtype=bool)
             for start, stop in _group_indices(is_consecutive):
                 group = self.select_runs(slice(start, stop))
                 data = [
@@ -785,8 +787,20 @@ class SyncSignal(object):
         assert round_to in ('left', 'right')
         round_ = dict(left=np.floor, right=np.ceil)[round_to]
         index = (time - self.start) * self.sampling_rate
+        nearest = np.rint(index)
+        if abs(index - nearest) <= self._time_tolerance(time) * self.sampling_rate:
+            return int(nearest)
         return int(round_(index))
 
+    def _time_tolerance(self, time):
+        """ difference from time that is no more than a rounding error
+
+        It is always a small part of the sampling period.
+        """
+        rounding = 8 * np.finfo(float).eps * max(abs(self.start), abs(time))
+        period = 1 / self.sampling_rate
+        return min(max(1e-5 * period, 1e-8, rounding), .1 * period)
+
     def _index_to_time(self, index):
         " convert sample index to time "
         if index < 0:
@@ -820,13 +834,13 @@ class SyncSignal(object):
         interval or an error is raised.
         """
         if strict:
-            assert self.start <= start <= self.stop
-            assert self.start <= stop <= self.stop
-        else:
-            start = max(self.start, start)
-            stop = max(self.start, stop)
-            start = min(self.stop, start)
-            stop = min(self.stop, stop)
+            for time in (start, stop):
+                tol = self._time_tolerance(time)
+                assert self.start - tol <= time <= self.stop + tol
+        start = max(self.start, start)
+        stop = max(self.start, stop)
+        start = min(self.stop, start)
+        stop = min(self.stop, stop)
         i_start = self._time_to_index(start, round_to="right")
         i_stop = self._time_to_index(stop, round_to="left")
         return self.extract_i(i_start, i_stop, strict, include_last=True)
-- 
2.43.0


From 9032676de2f3fbf4bcdf8172abbb07f523239b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:35 +0000
Subject: [PATCH 06/25] fix: merge accepts empty operands and overlaps shorter
 than two samples

An operand without runs raised ValueError; an overlap too short to hold two
samples, as between runs of different sampling rates, raised AssertionError.
---
 src/razorback/signalset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index 4e4fbf0..54ccb62 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -516,12 +516,13 @@ class SignalSet(object):
                 for res in rec(max(d, dh), min(f, fh), seq[1:]): yield res
         
         seq_intervals = [s.intervals for s in seqs]
-        start, stop = min(map(np.min, seq_intervals)), max(map(np.max, seq_intervals))
-        intervals = list(rec(start, stop, seq_intervals))
+        intervals = list(rec(-np.inf, np.inf, seq_intervals))
 
         signals = []
         for start, stop in intervals:
             ss = [s.extract_t(start, stop) for s in seqs]
+            if not all(s.signals for s in ss):
+                continue  # no more than one sample
             assert all(len(s.signals) == 1 for s in ss)
             ss = [s.signals[0] for s in ss]
             sr = {s.sampling_rate for s in ss}
-- 
2.43.0


From be34b44feca7c4e98e51f2018b2c8c8f98c12527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:35 +0000
Subject: [PATCH 07/25] fix: prefilter_values_mass_proc does not edit the tags
 of its argument

---
 src/razorback/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/razorback/utils.py b/src/razorback/utils.py
index f5e22ae..1f7ac4e 100644
--- a/src/razorback/utils.py
+++ b/src/razorback/utils.py
@@ -338,6 +338,8 @@ def prefilter_values_mass_proc(
     """
     """
 
+    data = data[:]  # tags are edited below
+
     E = data.tags.E
     B = data.tags.B
 
-- 
2.43.0


From 989db830d38739191921e0ae57955198e2fab693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:57 +0000
Subject: [PATCH 08/25] fix: tags called like attributes of Tags do not corrupt
 the table

---
 src/razorback/signalset.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index 54ccb62..dc8aaa1 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -43,7 +43,7 @@ class TagsBase(MutableMapping):
 
     def __eq__(self, other):
         return (self._tags == getattr(other, '_tags', None)
-                and self.indices == getattr(other, 'indices', None))
+                and self._indices == getattr(other, '_indices', None))
 
     __req__ = __eq__
 
@@ -64,9 +64,9 @@ class TagsBase(MutableMapping):
         assert key[:1].isalpha()
         value = _tupleit(value)
         assert value, "at least one index must be given"
-        if not all(v in self.indices for v in value):
+        if not all(v in self._indices for v in value):
             msg = "values %s should be in indices %s"
-            raise ValueError(msg % (value, self.indices))
+            raise ValueError(msg % (value, self._indices))
         self._tags[key] = value
 
     def __getattribute__(self, name):
@@ -130,7 +130,7 @@ class Tags(TagsBase):
     def __repr__(self):
         items = sorted(self.items(), key=lambda x: (len(x[1]), x[0]))
         tags = ', '.join('%s=%s' % e for e in items)
-        return '%s(%s, %s)' % (type(self).__name__, len(self.indices), tags)
+        return '%s(%s, %s)' % (type(self).__name__, len(self._indices), tags)
 
     def __str__(self):
         return str(self._tags)
@@ -140,7 +140,8 @@ class Tags(TagsBase):
         return tuple(set().union(*(fnmatch.filter(self, p) for p in patterns)))
 
     def filter_get(self, *patterns):
-        return tuple(sorted(set().union(*(map(self.get, self.filter(*patterns))))))
+        names = Tags.filter(self, *patterns)
+        return tuple(sorted(set().union(*(self[k] for k in names))))
 
 
 class SignalSet(object):
@@ -303,7 +304,7 @@ class SignalSet(object):
         if not self.signals:
             if self.tags is None:
                 return 0
-            return len(self.tags.indices)
+            return len(self.tags._indices)
         return len(self.signals[0].data)
 
     @property
@@ -407,7 +408,7 @@ class SignalSet(object):
     @tags.setter
     def tags(self, value):
         n = self.nb_channels
-        vidx = getattr(value, 'indices', None)
+        vidx = getattr(value, '_indices', None)
         if n and vidx is not None and not set(vidx).issubset(range(n)):
             msg = "incompatible tags"
             raise ValueError(msg)
@@ -440,7 +441,7 @@ class SignalSet(object):
             if cid in tagkeys:
                 indices.extend(self.tags[cid])
             else:
-                if cid not in self.tags.indices:
+                if cid not in self.tags._indices:
                     raise ValueError(msg % cid)
                 indices.append(cid)
 
-- 
2.43.0


From 3c188966afd46ced18d174dc121c31dffc1d7d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:32 +0000
Subject: [PATCH 09/25] fix: fields of tags_from_path patterns must be whole
 identifiers

---
 src/razorback/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/razorback/utils.py b/src/razorback/utils.py
index 1f7ac4e..aa3c6ec 100644
--- a/src/razorback/utils.py
+++ b/src/razorback/utils.py
@@ -542,6 +542,6 @@ def _get_fields(pattern):
             continue
         if not field_name:
             raise ValueError("no empty field please")
-        if not re.match('[_a-zA-Z][_a-zA-Z0-9]*', field_name):
+        if not re.match(r'[_a-zA-Z][_a-zA-Z0-9]*\Z', field_name):
             raise ValueError("'{%s}' is not valid" % field_name)
         yield field_name
-- 
2.43.0


From a4bacd5d496c2c79d1068311d0b68de842ac39b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:50 +0000
Subject: [PATCH 10/25] fix: empty slices and negative steps read lazily loaded
 binary files

---
 src/razorback/io/binary_file_array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/razorback/io/binary_file_array.py b/src/razorback/io/binary_file_array.py
index b6b5ada..9b75efb 100644
--- a/src/razorback/io/binary_file_array.py
+++ b/src/razorback/io/binary_file_array.py
@@ -84,7 +84,7 @@ class BaseArrayProxy(object):
                 return slice(*index.indices(dim)), slice(None)
             else:
                 # TODO optimize  negative step
-                return slice(None), index
+                return slice(0, dim, 1), index
         # case: int
         elif int(index) == index:
             index = int(index)
@@ -147,7 +147,7 @@ class BinaryFileArray_1D(FileArrayProxy):
 
         with open(filename, 'rb') as f:
             f.seek(offset + self.dtype.itemsize * idx.start)
-            length = idx.stop - idx.start
+            length = max(idx.stop - idx.start, 0)
             arr = np.fromfile(f, dtype=self.dtype, count=length)
             if len(arr) != length:
                 # warnings.warn(f"while reading file {str(self.source)!r} : get {len(arr)} values but header indicates {length}")
-- 
2.43.0


From 661e2a589ea935ea1813167081319b405754e18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:52 +0000
Subject: [PATCH 11/25] fix: arrays of distinct ATS files are never taken for
 one another

---
 src/razorback/io/ats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/razorback/io/ats.py b/src/razorback/io/ats.py
index c3b4370..c149c55 100644
--- a/src/razorback/io/ats.py
+++ b/src/razorback/io/ats.py
@@ -64,7 +64,7 @@ def read_ats_sample(filename):
         size=sample_length,
         dtype=np.int32,
     )
-    arr = to_dask_array(bf_arr, name=filename)
+    arr = to_dask_array(bf_arr)
     arr = lsbval * arr
     arr = arr.rechunk()
 
-- 
2.43.0


From 7b634e09a3e90d52d9334ccd6594c1244e8d7f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:52 +0000
Subject: [PATCH 12/25] fix: load_ats_from accepts directories whose name looks
 like a pattern

---
 src/razorback/io/ats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/razorback/io/ats.py b/src/razorback/io/ats.py
index c149c55..901cfc7 100644
--- a/src/razorback/io/ats.py
+++ b/src/razorback/io/ats.py
@@ -19,7 +19,7 @@ def load_ats_from(path, calibrations=None):
     """ return a SyncSignal from ats directory
     """
     path = os.path.abspath(path)
-    filenames = glob.glob(os.path.join(path, '*.ats'))
+    filenames = glob.glob(os.path.join(glob.escape(path), '*.ats'))
     return load_ats(filenames, calibrations)
 
 
-- 
2.43.0


From 0bfba684bdb27d8fc6b5ca8498a3ad01511707a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:51 +0000
Subject: [PATCH 13/25] fix: invalid indices shared by all outputs may be given
 as an array

---
 src/razorback/mestimator.py | 2 +-
 src/razorback/utils.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/razorback/mestimator.py b/src/razorback/mestimator.py
index 9a07223..9473cff 100644
--- a/src/razorback/mestimator.py
+++ b/src/razorback/mestimator.py
@@ -90,7 +90,7 @@ def transfer_function(
 
     if invalid_idx is None or not len(invalid_idx):
         invalid_idx = [()] * len(outputs)
-    if not hasattr(invalid_idx[0], '__getitem__'):
+    if np.ndim(invalid_idx[0]) == 0:
         invalid_idx = [invalid_idx] * len(outputs)
 
     inputs = np.array(inputs, copy=False)
diff --git a/src/razorback/utils.py b/src/razorback/utils.py
index aa3c6ec..0db0d38 100644
--- a/src/razorback/utils.py
+++ b/src/razorback/utils.py
@@ -382,7 +382,7 @@ def apply_prefilter(outputs, inputs, prefilter, invalid_idx):
     """
     if invalid_idx is None or not len(invalid_idx):
         invalid_idx = [np.empty(0, dtype=int)] * len(outputs)
-    if not hasattr(invalid_idx[0], '__getitem__'):
+    if np.ndim(invalid_idx[0]) == 0:
         invalid_idx = [invalid_idx] * len(outputs)
     assert len(invalid_idx) == len(outputs)
 
-- 
2.43.0


From 2187248cb427227e978de373a33b20cff622ad92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:51 +0000
Subject: [PATCH 14/25] fix: an exact fit is not a failure to converge

---
 src/razorback/mestimator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/razorback/mestimator.py b/src/razorback/mestimator.py
index 9473cff..a797de0 100644
--- a/src/razorback/mestimator.py
+++ b/src/razorback/mestimator.py
@@ -236,6 +236,8 @@ def m_estimate(
         wresid = H(residual).dot(dotdiag(weight, residual))
         wresid = np.max(abs(wresid))
         if wresid_prev is not None:
+            if wresid == wresid_prev == 0:  # exact fit
+                break
             change = abs((wresid - wresid_prev) / wresid_prev)
             if change < tol:
                 break
-- 
2.43.0


From 6976a58670d1c5d4820cf2f07d7c8df2aba7be17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:51 +0000
Subject: [PATCH 15/25] fix: rejected observations stay out when a weight
 function returns None

---
 src/razorback/mestimator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/razorback/mestimator.py b/src/razorback/mestimator.py
index a797de0..5276e12 100644
--- a/src/razorback/mestimator.py
+++ b/src/razorback/mestimator.py
@@ -250,6 +250,8 @@ def m_estimate(
 def _eval_weight(it, residual, e, b, invalid_idx, weight_func, eps):
     residual[invalid_idx] = np.nan
     weight = weight_func(it, residual, e, b, invalid_idx)
+    if weight is None and len(invalid_idx):
+        weight = np.ones(len(e))
     if weight is not None:
         assert weight.ndim == 1
         weight[invalid_idx] = 0.
-- 
2.43.0


From 96c120b871ca5b04cd952892e1cfb44755f3aced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:00 +0000
Subject: [PATCH 16/25] fix: incoherent blocks have a coherence of zero instead
 of NaN

---
 src/razorback/prefilters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/razorback/prefilters.py b/src/razorback/prefilters.py
index 364de36..a0052d7 100644
--- a/src/razorback/prefilters.py
+++ b/src/razorback/prefilters.py
@@ -43,7 +43,7 @@ class CoefficientOfDeterminationFilter(object):
         z = np.linalg.solve(A, b)
         residual = np.einsum("ijk,ik->ij", y, z) - x
         norm2 = lambda arr: np.sum(np.abs(arr) ** 2, axis=1)
-        res = np.sqrt(1 - norm2(residual) / norm2(x))
+        res = np.sqrt(np.maximum(0, 1 - norm2(residual) / norm2(x)))
         return res
 
 
-- 
2.43.0


From 05b9c875ff28f856070f105accdc8b01b29cb819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 17/25] fix: impedance entries have the same shape when
 windowing fails

---
 src/razorback/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/razorback/utils.py b/src/razorback/utils.py
index 0db0d38..f1b4cd1 100644
--- a/src/razorback/utils.py
+++ b/src/razorback/utils.py
@@ -214,9 +214,9 @@ def _impedance(
     Nb = len(data.tags[tag_mag])
     Nr = len(data.tags[remote_name]) if remote else 0
     empty = ImpedanceResult(
-        np.tile(np.nan,(Nb, Ne)),
+        np.tile(np.nan,(Ne, Nb)),
         (),
-        np.tile(np.nan,(Nb, Ne)),
+        np.tile(np.nan,(Ne, Nb)),
         np.tile(np.nan,(Nb, Nr)),
     )
 
-- 
2.43.0


From 7ee10006608c6e8299ab90d6646cac40f8a26ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 18/25] fix: a failing prefilter only loses its own frequency

---
 src/razorback/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/razorback/utils.py b/src/razorback/utils.py
index f1b4cd1..56325f8 100644
--- a/src/razorback/utils.py
+++ b/src/razorback/utils.py
@@ -231,8 +231,8 @@ def _impedance(
     ## First stage
     if remote:
         br = [coeffs[i] for i in data.tags[remote_name]]
-        remote_ivid = apply_prefilter(b, br, remote_prefilter, None)
         try:
+            remote_ivid = apply_prefilter(b, br, remote_prefilter, None)
             T, ivT = _transfer_function(b, br, remote_weights,
                                         invalid_idx=remote_ivid, **mest_opts)
         # TODO: catch only NonConvergence and (pas assez de poids ???)
@@ -255,8 +255,8 @@ def _impedance(
     if fail_at_first_stage:
         fail_at_second_stage = True
     else:
-        ivid_2 = apply_prefilter(e, be, prefilter, ivid_1)
         try:
+            ivid_2 = apply_prefilter(e, be, prefilter, ivid_1)
             z, ivid = _transfer_function(e, be, weights,
                                          invalid_idx=ivid_2, **mest_opts)
         # TODO: catch only NonConvergence and (pas assez de poids ???)
-- 
2.43.0


From 5cd7fbaa4a85258a81251aef9f3ff0eded69c87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 19/25] fix: real_pb option of impedance takes weights and
 rejected windows

---
 src/razorback/utils.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/razorback/utils.py b/src/razorback/utils.py
index 56325f8..ea3b4ba 100644
--- a/src/razorback/utils.py
+++ b/src/razorback/utils.py
@@ -394,9 +394,21 @@ def apply_prefilter(outputs, inputs, prefilter, invalid_idx):
     return [np.array(e, dtype=int, copy=False) for e in res]
 
 
-def transfer_function_real_prob(outputs, inputs, **kwargs):
+def transfer_function_real_prob(outputs, inputs, weights=(None,), invalid_idx=None, **kwargs):
+    """ same as transfer_function() but solving the real problem
+
+    The real and imaginary parts of the observation i
+    are the observations 2*i and 2*i+1 of the real problem.
+    """
     q, n = np.shape(inputs)
 
+    if invalid_idx is not None and len(invalid_idx):
+        if np.ndim(invalid_idx[0]) == 0:
+            invalid_idx = [invalid_idx] * len(outputs)
+        invalid_idx = [
+            (2 * np.array(ii, dtype=int)[:, None] + (0, 1)).ravel() for ii in invalid_idx
+        ]
+
     new_in = np.empty((2*q, 2*n))
     r_in, i_in = np.real(inputs), np.imag(inputs)
     new_in[0::2, 0::2] = r_in
@@ -412,9 +424,11 @@ def transfer_function_real_prob(outputs, inputs, **kwargs):
         new_line[1::2] = i_out
         new_out.append(new_line)
 
-    new_z, ivid = transfer_function(new_out, new_in, **kwargs)
+    new_z, ivid = transfer_function(
+        new_out, new_in, weights, invalid_idx=invalid_idx, **kwargs)
 
     z = new_z[..., 0::2] + 1j * new_z[..., 1::2]
+    ivid = [np.unique(ii // 2) for ii in ivid]
 
     return z, ivid
 
-- 
2.43.0


From c388497cf36e2524283f4cc4cd522b8cdc8acfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 20/25] fix: a failing error estimate only loses its own
 frequency

---
 src/razorback/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/razorback/utils.py b/src/razorback/utils.py
index ea3b4ba..9d85334 100644
--- a/src/razorback/utils.py
+++ b/src/razorback/utils.py
@@ -259,6 +259,7 @@ def _impedance(
             ivid_2 = apply_prefilter(e, be, prefilter, ivid_1)
             z, ivid = _transfer_function(e, be, weights,
                                          invalid_idx=ivid_2, **mest_opts)
+            err = transfer_error(e, be, z, ivid)
         # TODO: catch only NonConvergence and (pas assez de poids ???)
         except Exception as ex:
             print(ex)
@@ -290,8 +291,6 @@ def _impedance(
     ## error estimate
     if fail_at_second_stage:
         err = np.nan * z
-    else:
-        err = transfer_error(e, be, z, ivid)
 
     return ImpedanceResult(z, ivt, err, T)
 
-- 
2.43.0


From 8bc2b1932e78e2683c5fb79b7329f7d64d666297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:40 +0000
Subject: [PATCH 21/25] fix: null residuals have a weight of one when the
 residual scale is null

---
 src/razorback/weights.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/razorback/weights.py b/src/razorback/weights.py
index fa415bf..485f3aa 100644
--- a/src/razorback/weights.py
+++ b/src/razorback/weights.py
@@ -52,8 +52,10 @@ class Huber(object):
     def __call__(self, it, residual, e, b, invalid_idx):
         x = vnorm(residual)
         scale = mad_scale(x, is_absolute=True)
-        with ignore_invalid:
-            result = np.minimum(1, (self._alpha * scale) / x)
+        limit = self._alpha * scale
+        with ignore_invalid, ignore_divide:
+            result = np.minimum(1, limit / x)
+        result[x == 0] = 1  # whatever the scale
         return result
 
 
@@ -78,7 +80,8 @@ class Thomson(object):
             scale = self._data['scale'] = mad_scale(x, is_absolute=True)
         else:
             scale = self._data['scale']
-        x /= scale
+        with ignore_invalid, ignore_divide:
+            x = np.where(x == 0, 0, x / scale)  # 0 whatever the scale
         return expexp(x, xi)
 
 
-- 
2.43.0


From b014000266a35307ed1c667eded3a64f18f28ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:40 +0000
Subject: [PATCH 22/25] fix: bounded influence weights never exceed the
 residual weights

---
 src/razorback/weights.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/razorback/weights.py b/src/razorback/weights.py
index 485f3aa..7d1e645 100644
--- a/src/razorback/weights.py
+++ b/src/razorback/weights.py
@@ -121,6 +121,7 @@ class BoundedInfluenceStep(object):
         y = _prev['trace_bi_weight'] * h / p
         with ignore_divide:
             hat_weight = _prev['hat_weight'] * expexp(y, self._khi) * expexp(np.log(y), np.log(self._lower))
+            hat_weight = np.minimum(1, hat_weight)
 
         bi_weight = weight * hat_weight
 
-- 
2.43.0


From cb8c0a9506a69da3cf94d79c19ff5bfe18b25c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:30 +0000
Subject: [PATCH 23/25] fix: signal sets can be copied

---
 src/razorback/signalset.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index dc8aaa1..4d28c1f 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -292,7 +292,12 @@ class SignalSet(object):
         res = res % ', '.join(map(repr, self.signals))
         return res
 
+    def __copy__(self):
+        return type(self)(self.tags, *self.signals)
+
     def __getattr__(self, name):
+        if name.startswith('_'):  # never a tag, maybe missing while copying
+            return super(SignalSet, self).__getattribute__(name)
         try:
             return self.select_channels(name)
         except ValueError:
-- 
2.43.0


From 625cc9457ecf9b538e1ac8f5821ce127f8fe1eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:03 +0000
Subject: [PATCH 24/25] fix: select_channels accepts arrays

---
 src/razorback/signalset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index 4d28c1f..a81bb6a 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -432,7 +432,7 @@ class SignalSet(object):
         tagkeys = list(self.tags)  # a list to protect vs unhashable type
         msg = "unknown channel identifier: %r"
 
-        if channels in tagkeys:
+        if isinstance(channels, basestring) and channels in tagkeys:
             channels = tuple(self.tags[channels])
         elif isinstance(channels, slice):
             channels = tuple(range(self.nb_channels)[channels])
-- 
2.43.0


From c1ddd9e28aa339b5ce0c1ec8e39ede231ca3cf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:03 +0000
Subject: [PATCH 25/25] fix: extract_groups takes tag names, not patterns

---
 src/razorback/signalset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index a81bb6a..686e10f 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -1035,7 +1035,7 @@ class Inventory(object):
         """
         new_inv = type(self)()
         for new_tag, old_tags in group_tags:
-            sig = self.filter(*old_tags).pack()
+            sig = self.select_channels(*old_tags).pack()
             sig.tags[new_tag] = sum((sig.tags[t] for t in old_tags), ())
             new_inv.append(sig)
         return new_inv
-- 
2.43.0

