From 2106be1bb3459e46e7b476db719e6f3168793333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:52 +0000
Subject: [PATCH 01/55] fix: get_next_index no longer clamps the caller's array
 in place

---
 dascore/core/coords.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 5e494e6..89d26b7 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -937,6 +937,8 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
                 return indices if input_array_like else indices[0]
 
         # Clamp values to bounds for backward compatibility when not out of bounds
+        # The array can be a view of the input value, which must not be changed.
+        array = array.copy()
         array[is_gt] = max_val
         array[is_lt] = min_val
         # samples should already have the answer, just return
-- 
2.43.0


From a7b901a51df71c1f941adc615fc1652fb37f66d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:52 +0000
Subject: [PATCH 02/55] fix: patches_to_df no longer adds a column to the
 caller's dataframe

---
 dascore/utils/patch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/utils/patch.py b/dascore/utils/patch.py
index b1abfd7..33b36ca 100644
--- a/dascore/utils/patch.py
+++ b/dascore/utils/patch.py
@@ -345,7 +345,7 @@ def patches_to_df(
     if "history" not in df.columns:
         df = df.assign(history="")
     if "patch" not in df.columns:
-        df["patch"] = None
+        df = df.assign(patch=None)
     return df
 
 
-- 
2.43.0


From 494169abdbd2a89aa22ba752beccab27ef1136da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:52 +0000
Subject: [PATCH 03/55] fix: combine_patch_attrs no longer edits the coords of
 the caller's dicts

---
 dascore/utils/attrs.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dascore/utils/attrs.py b/dascore/utils/attrs.py
index dfc1fb9..646a56e 100644
--- a/dascore/utils/attrs.py
+++ b/dascore/utils/attrs.py
@@ -126,7 +126,12 @@ def combine_patch_attrs(
         if not coord_name:
             return model_dicts
         # drop models which don't have required coords
-        model_dicts = [x for x in model_dicts if coord_name in x.get("coords", {})]
+        # and copy the others, their coords are changed below.
+        model_dicts = [
+            {**x, "coords": dict(x["coords"])}
+            for x in model_dicts
+            if coord_name in x.get("coords", {})
+        ]
         # coordinate can be determined from existing coords.
         if coord is None:
             new_coord = _get_new_coord(model_dicts)
-- 
2.43.0


From c0413f07e7e61ab12870365cad30c7b25729cca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:29 +0000
Subject: [PATCH 04/55] fix: values of a length-one CoordRange are read-only
 like all others

---
 dascore/core/coords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 89d26b7..01f9821 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -1361,7 +1361,7 @@ class CoordRange(BaseCoord):
     def values(self) -> ArrayLike:
         """Return the values of the coordinate as an array."""
         if len(self) == 1:
-            return np.asarray([self.start])
+            return array([self.start])
         # note: linspace works better for floats that might have slightly
         # uneven spacing. It ensures the length of the output array is robust
         # to small deviations in spacing. However, this doesnt work for datetimes.
-- 
2.43.0


From e3fbfc2d04a81619098d9106b18eea20134810d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:44 +0000
Subject: [PATCH 05/55] fix: kurtosis and fbe keep the history and attributes
 of their input

---
 dascore/transform/fbe.py      | 9 ++++-----
 dascore/transform/kurtosis.py | 2 +-
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/dascore/transform/fbe.py b/dascore/transform/fbe.py
index 48ffaf9..ef956b7 100644
--- a/dascore/transform/fbe.py
+++ b/dascore/transform/fbe.py
@@ -88,13 +88,12 @@ def fbe(
 
     patch = patch.pass_filter(**kwargs)
 
-    fbe = ((patch**2).rolling(**{dim: window, "step": step}).mean() ** 0.5).update(
-        attrs={"data_type": "frequency_band_energy"}
-    )
+    fbe = (patch**2).rolling(**{dim: window, "step": step}).mean() ** 0.5
+    fbe = fbe.update_attrs(data_type="frequency_band_energy")
 
     if db:
-        fbe = (20 * fbe.log10()).update(
-            attrs={"data_type": "frequency_band_energy", "data_units": "dB"}
+        fbe = (20 * fbe.log10()).update_attrs(
+            data_type="frequency_band_energy", data_units="dB"
         )
 
     return fbe
diff --git a/dascore/transform/kurtosis.py b/dascore/transform/kurtosis.py
index 8ee822b..94ddabf 100644
--- a/dascore/transform/kurtosis.py
+++ b/dascore/transform/kurtosis.py
@@ -240,5 +240,5 @@ def kurtosis(
     return (
         patch_t.new(data=out)
         .transpose(*orig_dims)
-        .update(attrs={"data_type": "kurtosis", "data_units": ""})
+        .update_attrs(data_type="kurtosis", data_units="")
     )
-- 
2.43.0


From 38c87504317532c9425f32ba17e3d587fc81fb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:18 +0000
Subject: [PATCH 06/55] fix: line_mute pairs values with the requested
 dimension, not the first ones

---
 dascore/proc/mute.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dascore/proc/mute.py b/dascore/proc/mute.py
index 6aaf8fa..e0c89fc 100644
--- a/dascore/proc/mute.py
+++ b/dascore/proc/mute.py
@@ -248,7 +248,6 @@ class _MuteGeometry2D(_MuteGeometry):
         ifill_index = -1
 
         for ind, (coord, row) in enumerate(zip(coords, value_list, strict=True)):
-            coord = patch.get_coord(patch.dims[ind])
             # We iterate each pair because it might be an implicit value.
             for pair_ind, pair in enumerate(row):
                 is_sized = isinstance(pair, Sized)
-- 
2.43.0


From 83135b868647923a14c439884e48d04e4807eee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:18 +0000
Subject: [PATCH 07/55] fix: indefinite integrals over uneven dimensions use
 the right axis

---
 dascore/transform/integrate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dascore/transform/integrate.py b/dascore/transform/integrate.py
index 30cab68..b4c7569 100644
--- a/dascore/transform/integrate.py
+++ b/dascore/transform/integrate.py
@@ -69,6 +69,10 @@ def _get_indefinite_integral(patch, dxs_or_vals, axes):
         # if coordinate values are provided need to get diffs.
         if is_array(dx_or_val):
             dx_or_val = dx_or_val[1:] - dx_or_val[:-1]
+            # the spacings must line up with the integration axis.
+            shape = [1] * array.ndim
+            shape[ax] = -1
+            dx_or_val = dx_or_val.reshape(shape)
         ndim = len(out.shape)
         # get diffs along dimension
         stop_indexer = broadcast_for_index(ndim, ax, slice(1, None), fill=slice(None))
-- 
2.43.0


From d1aa93b981aac9c3824432d0859deea03ec9ab44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:18 +0000
Subject: [PATCH 08/55] fix: tau_p transforms the data it arranged as distance
 by time

---
 dascore/transform/taup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/transform/taup.py b/dascore/transform/taup.py
index 12a7d13..207b8cd 100644
--- a/dascore/transform/taup.py
+++ b/dascore/transform/taup.py
@@ -143,7 +143,7 @@ def tau_p(
         func = _jit_taup_general
         dist_val = dist.values
 
-    slowness, tau_p_data = func(patch.data, dist_val, dt, 1.0 / velocities)
+    slowness, tau_p_data = func(patch_cop.data, dist_val, dt, 1.0 / velocities)
 
     attrs = patch.attrs.update(category="taup")
     coords = dict(slowness=slowness, time=time)
-- 
2.43.0


From 2a04a87f93a46c7f955609138a929e4b41513ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:08 +0000
Subject: [PATCH 09/55] fix: leave handles passed to the io functions open

---
 dascore/utils/io.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dascore/utils/io.py b/dascore/utils/io.py
index 543e1b6..b96e6fd 100644
--- a/dascore/utils/io.py
+++ b/dascore/utils/io.py
@@ -148,7 +148,11 @@ class IOResourceManager:
 
     def close_all(self):
         """Close any open file handles."""
+        # Handles which were passed in belong to the caller and stay open.
+        source = self.source
         for handle in self._cache.values():
+            if handle is source:
+                continue
             getattr(handle, "close", lambda: None)()
 
     def __enter__(self):
-- 
2.43.0


From 04b8e85d3365a262dbb1d639788ea63862d8d134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:09 +0000
Subject: [PATCH 10/55] fix: do not create directories when opening files for
 reading

---
 dascore/utils/hdf5.py | 4 +++-
 dascore/utils/io.py   | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/dascore/utils/hdf5.py b/dascore/utils/hdf5.py
index 5c6930f..82d479e 100644
--- a/dascore/utils/hdf5.py
+++ b/dascore/utils/hdf5.py
@@ -430,7 +430,9 @@ class PyTablesReader(PyTablesFile):
         if isinstance(resource, cls | PyTablesFile):
             return resource
         try:
-            _maybe_make_parent_directory(resource)
+            # Only writing may create new directories.
+            if cls.mode[0] != "r":
+                _maybe_make_parent_directory(resource)
             return cls.constructor(resource, mode=cls.mode)
         except TypeError:
             msg = f"Couldn't get handle from {resource} using {cls}"
diff --git a/dascore/utils/io.py b/dascore/utils/io.py
index b96e6fd..6b0e330 100644
--- a/dascore/utils/io.py
+++ b/dascore/utils/io.py
@@ -44,7 +44,9 @@ class BinaryReader(io.BytesIO):
                 resource.seek(0)  # reset byte offset
             return resource
         try:
-            _maybe_make_parent_directory(resource)
+            # Only writing may create new directories.
+            if cls.mode[0] != "r":
+                _maybe_make_parent_directory(resource)
             return open(resource, mode=cls.mode)
         except TypeError:
             msg = f"Couldn't get handle from {resource} using {cls}"
@@ -71,7 +73,9 @@ class TextReader(BinaryReader):
                 resource.seek(0)
             return resource
         try:
-            _maybe_make_parent_directory(resource)
+            # Only writing may create new directories.
+            if cls.mode[0] != "r":
+                _maybe_make_parent_directory(resource)
             return open(resource, mode=cls.mode, encoding="utf-8")
         except TypeError:
             msg = f"Couldn't get handle from {resource} using {cls}"
-- 
2.43.0


From e7d2fd61d6e5ee49ac0b084a262db7326d7ca919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:09 +0000
Subject: [PATCH 11/55] fix: savgol_filter along several dimensions builds on
 the previous one

---
 dascore/proc/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/proc/filter.py b/dascore/proc/filter.py
index 51c9508..fd732e5 100644
--- a/dascore/proc/filter.py
+++ b/dascore/proc/filter.py
@@ -391,7 +391,7 @@ def savgol_filter(
     size, axes = _create_size_and_axes(patch, kwargs, samples)
     for ax in axes:
         data = np_savgol_filter(
-            x=patch.data,
+            x=data,
             window_length=size[ax],
             polyorder=polyorder,
             mode=mode,
-- 
2.43.0


From a4dd71c3ee8e0959dc23583679455562ce52570f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:09 +0000
Subject: [PATCH 12/55] fix: open xml binary data files read only

---
 dascore/io/xml_binary/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/io/xml_binary/utils.py b/dascore/io/xml_binary/utils.py
index a9dc9b5..bc8bd3c 100644
--- a/dascore/io/xml_binary/utils.py
+++ b/dascore/io/xml_binary/utils.py
@@ -161,7 +161,7 @@ def _read_single_file(path, metadata, time, distance):
         {"time": time_coord, "distance": distance_coord},
         dims=attr.dim_tuple,
     )
-    memmap = np.memmap(path, dtype=metadata.data_type)
+    memmap = np.memmap(path, dtype=metadata.data_type, mode="r")
     size = np.prod(cm.shape)
     assert memmap.size == size, f"wrong data shape for {path}"
     data = memmap.reshape(cm.shape)
-- 
2.43.0


From 01fb607a84efefd8f074b7ccdf3ba14b33dba229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:09 +0000
Subject: [PATCH 13/55] fix: do not cache xml binary metadata by path only

---
 dascore/io/xml_binary/utils.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/dascore/io/xml_binary/utils.py b/dascore/io/xml_binary/utils.py
index bc8bd3c..bb04f8e 100644
--- a/dascore/io/xml_binary/utils.py
+++ b/dascore/io/xml_binary/utils.py
@@ -3,7 +3,6 @@
 from __future__ import annotations
 
 from collections.abc import Sequence
-from functools import lru_cache
 from pathlib import Path
 
 import numpy as np
@@ -64,7 +63,6 @@ class XMLBinaryInfo(_XMLModel):
     transposed_data: bool
 
 
-@lru_cache
 def _read_xml_metadata(path):
     """A function to read metadata from the xml file."""
     contents = xml_to_dict(path.read_bytes())
-- 
2.43.0


From b86d8e666e324e27baca327e1d16796d79117531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:09 +0000
Subject: [PATCH 14/55] fix: look up cached index contents by the query they
 were stored for

---
 dascore/io/indexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/io/indexer.py b/dascore/io/indexer.py
index c4157dc..85682e0 100644
--- a/dascore/io/indexer.py
+++ b/dascore/io/indexer.py
@@ -185,7 +185,7 @@ class DirectoryIndexer(AbstractIndexer):
         # find out if the query falls within one cached times
         con1 = self.cache.t1 <= time_min
         con2 = self.cache.t2 >= time_max
-        con3 = self.cache.kwargs == self._kwargs_to_str(kwargs)
+        con3 = self.cache.kwargs == self._kwargs_to_str(hdf5_kwargs)
         cached_index = self.cache[con1 & con2 & con3]
         if not len(cached_index):  # query is not cached get it from hdf5 file
             index = self._index_table.get_index(
-- 
2.43.0


From 75485cf5101c507db4b1603c290c6f616ec90b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:09 +0000
Subject: [PATCH 15/55] fix: do not cache febus block time across changes of
 the file

---
 dascore/io/febus/a1utils.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/dascore/io/febus/a1utils.py b/dascore/io/febus/a1utils.py
index 5788db0..6c85cb4 100644
--- a/dascore/io/febus/a1utils.py
+++ b/dascore/io/febus/a1utils.py
@@ -3,7 +3,6 @@
 from __future__ import annotations
 
 from collections import namedtuple
-from functools import cache
 
 import numpy as np
 
@@ -115,7 +114,6 @@ def _get_zone_time(feb):
     return _FebusTime(block_time, dt, idx_start, idx_stop)
 
 
-@cache
 def _get_block_time(feb):
     """Get the block time (time in seconds between each block)."""
     # Some files have this set. We haven't yet seen any files where this
-- 
2.43.0


From a123fde6290f06b5d738ade26cb02bca64427bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:09 +0000
Subject: [PATCH 16/55] fix: close files opened by FiberIO methods when they
 raise

---
 dascore/io/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dascore/io/core.py b/dascore/io/core.py
index c80b96d..22f7fe6 100644
--- a/dascore/io/core.py
+++ b/dascore/io/core.py
@@ -420,7 +420,7 @@ def _type_caster(func, sig, required_type, arg_name):
             return func(*args, **kwargs)
         bound = sig.bind(*args, **kwargs)
         new_kw = bound.arguments
-        resource = new_kw.pop(arg_name)
+        resource = new_resource = new_kw.pop(arg_name)
         try:
             new_resource = get_handle_from_resource(resource, required_type)
             new_kw[arg_name] = new_resource
@@ -432,7 +432,7 @@ def _type_caster(func, sig, required_type, arg_name):
                 out = False
             else:
                 raise e
-        else:
+        finally:
             # if a new file handle was created we need to close it now. But it
             # shouldn't close any passed in, that should happen up the stack.
             if new_resource is not resource and hasattr(new_resource, "close"):
-- 
2.43.0


From 09c1b725c872029c0de146ce89ccfaa7395f9452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:09 +0000
Subject: [PATCH 17/55] fix: skip files whose plugin raises while scanning

---
 dascore/io/core.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/dascore/io/core.py b/dascore/io/core.py
index 22f7fe6..6652ba4 100644
--- a/dascore/io/core.py
+++ b/dascore/io/core.py
@@ -32,7 +32,6 @@ from dascore.constants import (
 from dascore.core.attrs import str_validator
 from dascore.core.spool import DataFrameSpool
 from dascore.exceptions import (
-    InvalidFiberFileError,
     InvalidFiberIOError,
     MissingOptionalDependencyError,
     UnknownFiberFormatError,
@@ -892,21 +891,21 @@ def scan(
                         continue
                     # Directory FiberIO may need to know the time after which
                     # contents should be returned.
-                    source = fiber_io.scan(
-                        resource, timestamp=timestamp, _pre_cast=True
-                    )
+                    scan_kwargs = {"timestamp": timestamp}
                 else:
-                    try:
-                        source = fiber_io.scan(resource, _pre_cast=True)
-                    # This happens if the file is corrupt see #346.
-                    except (OSError, InvalidFiberFileError, ValueError, TypeError):
-                        warnings.warn(f"Failed to scan {resource}", UserWarning)
-                        continue
-                    except MissingOptionalDependencyError as ex:
-                        missing_optional_deps[ex.msg.split(" ")[0]] += 1
-                        continue
-                for attr in source:
-                    out.append(dc.PatchAttrs.from_dict(attr))
+                    scan_kwargs = {}
+                try:
+                    source = fiber_io.scan(resource, _pre_cast=True, **scan_kwargs)
+                    attrs = [dc.PatchAttrs.from_dict(attr) for attr in source]
+                except MissingOptionalDependencyError as ex:
+                    missing_optional_deps[ex.msg.split(" ")[0]] += 1
+                    continue
+                # This happens if the file is corrupt see #346. The error type
+                # depends on the (maybe third party) plugin so catch them all.
+                except Exception:
+                    warnings.warn(f"Failed to scan {resource}", UserWarning)
+                    continue
+                out.extend(attrs)
     # Ensure ctl + c exists scan.
     except KeyboardInterrupt:
         getattr(progress, "stop", lambda: None)()
-- 
2.43.0


From 6b57ba21a476315b292b09a3e4f6a03609a46647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:09 +0000
Subject: [PATCH 18/55] fix: try file formats in a deterministic order

---
 dascore/io/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/io/core.py b/dascore/io/core.py
index 6652ba4..1ff6bc3 100644
--- a/dascore/io/core.py
+++ b/dascore/io/core.py
@@ -154,7 +154,7 @@ class _FiberIOManager:
         self.load_plugins()
         priority_fiber_ios = []
         second_class_fiber_ios = []
-        for format_name in self.known_formats:
+        for format_name in sorted(self.known_formats):
             unsorted = self._format_version[format_name]
             keys = sorted(unsorted, reverse=True)
             # formats whose plugins failed to load have no fiber_ios.
-- 
2.43.0


From d9315162badc3da19794352e59b9073615441c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:09 +0000
Subject: [PATCH 19/55] fix: forget derived plugin lists when a FiberIO is
 registered

---
 dascore/io/core.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dascore/io/core.py b/dascore/io/core.py
index 1ff6bc3..131ca08 100644
--- a/dascore/io/core.py
+++ b/dascore/io/core.py
@@ -10,7 +10,7 @@ import os.path
 import warnings
 from collections import defaultdict
 from collections.abc import Generator
-from functools import cache, cached_property, wraps
+from functools import cached_property, wraps
 from pathlib import Path
 from typing import Annotated, Literal, get_type_hints
 
@@ -124,7 +124,8 @@ class _FiberIOManager:
         """
         return pd.Series(get_entry_point_loaders("dascore.fiber_io"))
 
-    @cached_property
+    @property
+    @cached_method
     def known_formats(self):
         """Return names of known formats."""
         formats = [name.split("__", maxsplit=1)[0] for name in self._eps.index]
@@ -147,7 +148,7 @@ class _FiberIOManager:
             out = self._fiber_io_by_input_type[input_type]
         return out
 
-    @cache
+    @cached_method
     def _get_prioritized_list(self, input_type="file"):
         """Yield a prioritized list of fiber_ios."""
         # must load all plugins before getting list
@@ -211,6 +212,8 @@ class _FiberIOManager:
         self._format_version[forma][ver] = fiberio
         self._fiber_io_by_input_type[fiberio.input_type].add(fiberio)
         self._fiber_io_name_ver.add(id_tuple)
+        # Anything derived from the registered fiber_ios is now out of date.
+        getattr(self, "_cache", {}).clear()
 
     @cached_method
     def get_fiberio(
-- 
2.43.0


From 23499a21115e617b2c43ccec097cbfe635b06ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:09 +0000
Subject: [PATCH 20/55] fix: flip multidimensional coordinates along all
 requested dimensions

---
 dascore/core/coordmanager.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/dascore/core/coordmanager.py b/dascore/core/coordmanager.py
index 87dabbf..3868318 100644
--- a/dascore/core/coordmanager.py
+++ b/dascore/core/coordmanager.py
@@ -1170,13 +1170,14 @@ class CoordManager(DascoreBaseModel):
             out[name] = (dim_map[name], _flip_coord(coord, 0))
             # If this is a dimensional coord, flip coords that depend on it.
             for associated in dim_to_coord_map.get(name, ()):
-                # Don't flip dimensional coords twice!
-                if associated == name:
+                # Don't flip dimensional or other requested coords twice!
+                if associated in dims:
                     continue
-                associated_coord = self.get_coord(associated)
-                dims = dim_map[associated]
-                axis = dims.index(name)
-                out[associated] = (dims, _flip_coord(associated_coord, axis))
+                # The coord may already have been flipped along another dimension.
+                coord_dims = dim_map[associated]
+                _, current = out.get(associated, (None, self.get_coord(associated)))
+                axis = coord_dims.index(name)
+                out[associated] = (coord_dims, _flip_coord(current, axis))
 
         return self.update(**out)
 
-- 
2.43.0


From 15ee48cc69e04c0087339bd8aeb101f58b9f5542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:09 +0000
Subject: [PATCH 21/55] fix: cached coordinate shapes cannot be modified by
 callers

---
 dascore/core/coordmanager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dascore/core/coordmanager.py b/dascore/core/coordmanager.py
index 3868318..df3e5f2 100644
--- a/dascore/core/coordmanager.py
+++ b/dascore/core/coordmanager.py
@@ -1016,9 +1016,9 @@ class CoordManager(DascoreBaseModel):
 
     @property
     @cached_method
-    def coord_shapes(self) -> dict[str, tuple[int, ...]]:
+    def coord_shapes(self) -> FrozenDict[str, tuple[int, ...]]:
         """Get a dict of {coord_name: shape}."""
-        return {i: v.shape for i, v in self.coord_map.items()}
+        return FrozenDict({i: v.shape for i, v in self.coord_map.items()})
 
     @property
     @cached_method
-- 
2.43.0


From 7e95b00bca9dc1f26c24514b67d9e04258476ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:44 +0000
Subject: [PATCH 22/55] fix: scanning an indexed dasdae file reports the path
 of the file

---
 dascore/io/dasdae/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/io/dasdae/core.py b/dascore/io/dasdae/core.py
index 475da97..42e4af4 100644
--- a/dascore/io/dasdae/core.py
+++ b/dascore/io/dasdae/core.py
@@ -152,7 +152,7 @@ class DASDAEV1(FiberIO):
         if indexer.has_index:
             # We need to change the path back to the file rather than internal
             # HDF5 path so it works with FileSpool and such.
-            records = indexer.get_index().assign(path=str(resource)).to_dict("records")
+            records = indexer.get_index().assign(path=resource.filename).to_dict("records")
             return [dc.PatchAttrs(**x) for x in records]
         else:
             file_format = self.name
-- 
2.43.0


From a33bc99dfd850c30291ff802b59fb43cff439bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:02 +0000
Subject: [PATCH 23/55] fix: the default scan of a plugin without its own scan
 omitted the file version

---
 dascore/io/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dascore/io/core.py b/dascore/io/core.py
index 131ca08..95b81bd 100644
--- a/dascore/io/core.py
+++ b/dascore/io/core.py
@@ -512,6 +512,7 @@ class FiberIO:
         for pa in spool:
             new = pa.attrs.update(
                 file_format=self.name,
+                file_version=self.version,
                 path=str(resource),
             )
             out.append(new)
-- 
2.43.0


From 292cf7f0cd3d1809a8c7e88e189c3d90c0eb7c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:25 +0000
Subject: [PATCH 24/55] fix: a file that cannot be opened for detection aborted
 the scan of all files

---
 dascore/io/core.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dascore/io/core.py b/dascore/io/core.py
index 95b81bd..83aa840 100644
--- a/dascore/io/core.py
+++ b/dascore/io/core.py
@@ -882,6 +882,16 @@ def scan(
                     )
                 except UnknownFiberFormatError:  # skip bad entities
                     continue
+                except Exception as ex:
+                    # A requested path which doesn't exist is an error, as
+                    # opposed to a file which was removed after it was found.
+                    is_requested = any(patch_source is x for x in iterate(path))
+                    if isinstance(ex, FileNotFoundError) and is_requested:
+                        raise
+                    # Only warn about files, not directories containing them.
+                    if not os.path.isdir(man.source):
+                        warnings.warn(f"Failed to scan {man.source}", UserWarning)
+                    continue
                 # Cache this fiber io to given preferential treatment next
                 # iteration. This speeds up the common case of many files
                 # with the same format.
-- 
2.43.0


From 3a118bcaf36585501b95680d0b0366fb803163bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:47 +0000
Subject: [PATCH 25/55] fix: wiggle changed the ticks of the current axes
 instead of those it was given

---
 dascore/viz/wiggle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/viz/wiggle.py b/dascore/viz/wiggle.py
index 37e966b..2814192 100644
--- a/dascore/viz/wiggle.py
+++ b/dascore/viz/wiggle.py
@@ -47,7 +47,7 @@ def _format_y_axis_ticks(ax, offsets, other_axis_ticks, max_ticks=10):
     # set the offset
     ax.set_yticks(offsets, other_axis_ticks)
     min_bins = min(len(other_axis_ticks), max_ticks)
-    plt.locator_params(axis="y", nbins=min_bins)
+    ax.locator_params(axis="y", nbins=min_bins)
 
 
 @patch_function()
-- 
2.43.0


From 9bb3af3858bf0cab6f60ee6f4e4399d8a1cd4617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:50 +0000
Subject: [PATCH 26/55] fix: range queries named and reported columns in hash
 order

---
 dascore/utils/pd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dascore/utils/pd.py b/dascore/utils/pd.py
index 07238f4..72c1f75 100644
--- a/dascore/utils/pd.py
+++ b/dascore/utils/pd.py
@@ -75,7 +75,7 @@ def split_df_query(kwargs, df, ignore_bad_kwargs=False):
     which have a range in specified time.
     """
     col_set = set(df)
-    unknown_cols = set(kwargs) - col_set
+    unknown_cols = [x for x in kwargs if x not in col_set]
     unsupported = {}
     range_query = {}
     out = dict(kwargs)
@@ -277,11 +277,11 @@ def yield_range_tuple_from_kwargs(df, kwargs) -> tuple[str, slice]:
 
     # find keys which correspond to column ranges
     col_set = set(df.columns)
-    valid_minmax_kwargs = {
+    valid_minmax_kwargs = [
         x
         for x in kwargs
         if {f"{x}_min", f"{x}_max"}.issubset(col_set) and x not in col_set
-    }
+    ]
     # ensure exactly one column is found
     for name in valid_minmax_kwargs:
         range_tuple = sanitize_range_param(kwargs[name])
-- 
2.43.0


From 04c17abed1aa82e246b2552a2061b4432cb526af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:50 +0000
Subject: [PATCH 27/55] fix: the columns of the directory index were ordered by
 hash

---
 dascore/utils/hdf5.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dascore/utils/hdf5.py b/dascore/utils/hdf5.py
index 82d479e..753a1e2 100644
--- a/dascore/utils/hdf5.py
+++ b/dascore/utils/hdf5.py
@@ -199,8 +199,8 @@ class HDFPatchIndexManager:
     @property
     def index_columns(self):
         """Get the columns used for indexing."""
-        out = set(self._base_model.model_fields) - set(self._skip_fields)
-        return tuple(out)
+        fields = self._base_model.model_fields
+        return tuple(x for x in fields if x not in self._skip_fields)
 
     # columns which should be indexed for fast querying
     @property
-- 
2.43.0


From 3d94f6577af5534b947ef0eb3803a53e97bc201e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:50 +0000
Subject: [PATCH 28/55] fix: merged attributes were ordered by the hash of
 their names

---
 dascore/utils/attrs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/utils/attrs.py b/dascore/utils/attrs.py
index 646a56e..23bf0e7 100644
--- a/dascore/utils/attrs.py
+++ b/dascore/utils/attrs.py
@@ -157,7 +157,7 @@ def combine_patch_attrs(
     def _keep_eq(d1, d2):
         """Keep only the values that are equal between d1/d2."""
         out = {}
-        for i in set(d1) & set(d2):
+        for i in (x for x in d1 if x in d2):
             if not d1[i] == d2[i]:
                 continue
             out[i] = d1[i]
-- 
2.43.0


From 4858db7897de20e53abc325dc9137c655cdaea0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:50 +0000
Subject: [PATCH 29/55] fix: name of an external directory index derived from a
 salted hash

---
 dascore/io/indexer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dascore/io/indexer.py b/dascore/io/indexer.py
index 85682e0..6e706ca 100644
--- a/dascore/io/indexer.py
+++ b/dascore/io/indexer.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import abc
+import hashlib
 import json
 import os
 import time
@@ -153,7 +154,8 @@ class DirectoryIndexer(AbstractIndexer):
         # if not, set the path to either the data path, if writable,
         # else the dascore cache
         if not _directory_writable(data_path):
-            new_path = "_dascore_index_" + str(abs(hash(data_path))) + ".h5"
+            path_hash = hashlib.sha256(str(data_path).encode()).hexdigest()[:16]
+            new_path = f"_dascore_index_{path_hash}.h5"
             index_path = self.index_map_path.parent / new_path
             update = {str(data_path): str(index_path.absolute())}
             _update_index_map(update, cache_path=str(self.index_map_path))
-- 
2.43.0


From 0c44a6684af14bf5110f9648c4ee8c4820c0dbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:50 +0000
Subject: [PATCH 30/55] fix: h5simple coordinate order depended on hashes,
 files with a format attribute were not detected

---
 dascore/io/h5simple/utils.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/dascore/io/h5simple/utils.py b/dascore/io/h5simple/utils.py
index 177c5d9..d7a3552 100644
--- a/dascore/io/h5simple/utils.py
+++ b/dascore/io/h5simple/utils.py
@@ -6,6 +6,7 @@ import numpy as np
 
 import dascore as dc
 from dascore.core import get_coord
+from dascore.utils.misc import unbyte
 
 # --- Getting format/version
 
@@ -26,7 +27,7 @@ def _maybe_trim_data(cm, data, kwargs):
 def _get_attrs_coords_and_data(h5, snap, fiber_io):
     """Return attrs, coordinate manager, and data node."""
     attrs = h5.root._v_attrs
-    attr_names = set(attrs._v_attrnames) - DEFAULT_ATTRS
+    attr_names = [x for x in attrs._v_attrnames if x not in DEFAULT_ATTRS]
     attr_dict = {x: getattr(attrs, x) for x in attr_names}
     attr_dict["file_version"] = fiber_io.version
     attr_dict["file_format"] = fiber_io.name
@@ -94,10 +95,11 @@ def _get_coords_and_dims(data_node, time_node, other_nodes, snap=True, dims=None
 
 def _get_cm_and_data(h5, snap=False, dims=None):
     """Extract coordinate manager and data node."""
-    array_names = {x.name for x in h5.list_nodes("/") if hasattr(x, "shape")}
-    data_node_name = array_names & DATA_ARRAY_NAMES
-    time_node_name = array_names & TIME_ARRAY_NAMES
-    other_node_names = array_names - data_node_name - time_node_name
+    array_names = [x.name for x in h5.list_nodes("/") if hasattr(x, "shape")]
+    data_node_name = DATA_ARRAY_NAMES.intersection(array_names)
+    time_node_name = TIME_ARRAY_NAMES.intersection(array_names)
+    known_names = data_node_name | time_node_name
+    other_node_names = [x for x in array_names if x not in known_names]
 
     assert len(data_node_name) == 1, f"{h5} doesn't have exactly one data node."
     assert len(time_node_name) == 1, f"{h5} doesn't have exactly one time node"
@@ -130,9 +132,5 @@ def _has_required_arrays(h5):
 def _no_format_or_simple_specified(h5):
     """Ensure no other format is specified, or that simpleH5 is."""
     attrs = h5.attrs
-    attr_names = set(attrs)
-    file_format = attr_names & FILE_FORMAT_ATTR_NAMES
-    format = getattr(attrs, next(iter(file_format))) if file_format else "h5simple"
-    if format == "h5simple":
-        return True
-    return False
+    formats = [attrs[x] for x in FILE_FORMAT_ATTR_NAMES if x in attrs]
+    return all(unbyte(x) == "h5simple" for x in formats)
-- 
2.43.0


From b9b6bacc29b96c5d0ab9e30f95425ea7886e6482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:50 +0000
Subject: [PATCH 31/55] fix: coordinates added by merging, updating or from
 dataframes were ordered by the hash of their names

---
 dascore/core/coordmanager.py  | 10 +++++-----
 dascore/proc/coords.py        |  2 +-
 dascore/utils/coordmanager.py |  4 +++-
 dascore/utils/patch.py        |  4 ++--
 4 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/dascore/core/coordmanager.py b/dascore/core/coordmanager.py
index df3e5f2..a696aac 100644
--- a/dascore/core/coordmanager.py
+++ b/dascore/core/coordmanager.py
@@ -289,7 +289,7 @@ class CoordManager(DascoreBaseModel):
             suffix = ("step", "min", "max")
             coord_updates = {
                 x: kwargs.pop(x)
-                for x in set(kwargs)
+                for x in list(kwargs)
                 if _matches_prefix_suffix(x, prefixes=prefix, suffixes=suffix)
             }
             coords_to_drop = [i for i, v in kwargs.items() if v is None]
@@ -347,7 +347,7 @@ class CoordManager(DascoreBaseModel):
         coords = self.new(coord_map=out)
         # anything not used in coord_info should be put back.
         # for example, data_units might get put in its own coord called data.
-        for unused_dim in set(coord_info) - set(coords.dims):
+        for unused_dim in (x for x in coord_info if x not in coords.dims):
             for key, val in coord_info[unused_dim].items():
                 attr_info[f"{unused_dim}_{key}"] = val
         attr_info["coords"] = coords.to_summary_dict()
@@ -1259,13 +1259,13 @@ def get_coord_manager(
     coords = {} if coords is None else coords
     coord_map, dim_map, dims = _get_coord_dim_map(coords, dims)
     # Add missing dims to coord map so they get set as non_coords.
-    if shape and (missing_dims := (set(dims) - set(coord_map))):
-        for name in missing_dims:
+    if shape:
+        for name in [x for x in dims if x not in coord_map]:
             coord_map[name] = get_coord(shape=shape[dims.index(name)])
             dim_map[name] = (name,)
     if attrs:
         coord_updates, _ = separate_coord_info(attrs, dims)
-        updateable_coords = set(coord_updates) - set(coord_map)
+        updateable_coords = [x for x in coord_updates if x not in coord_map]
         for name in updateable_coords:
             coord_map[name] = get_coord(**coord_updates[name])
             dim_map[name] = (name,)
diff --git a/dascore/proc/coords.py b/dascore/proc/coords.py
index e64748c..5ab912c 100644
--- a/dascore/proc/coords.py
+++ b/dascore/proc/coords.py
@@ -406,7 +406,7 @@ def coords_from_df(
     # coordinate array is an interpolation to match existing coords being updated
     new_coords = {}
 
-    for coord in set(dataframe.columns) - {anchor_dim}:
+    for coord in (x for x in dataframe.columns if x != anchor_dim):
         if extrapolate:
             f = interp1d(
                 pd.to_numeric(dataframe[anchor_dim]),
diff --git a/dascore/utils/coordmanager.py b/dascore/utils/coordmanager.py
index 4e6ef04..51706b9 100644
--- a/dascore/utils/coordmanager.py
+++ b/dascore/utils/coordmanager.py
@@ -133,7 +133,9 @@ def merge_coord_managers(
         """Merge relevant coordinates together."""
         # build up merged coords.
         coords_to_merge = managers[0].dim_to_coord_map[dim]
-        coords_not_to_merge = set(managers[0].coord_map) - set(coords_to_merge)
+        coords_not_to_merge = [
+            x for x in managers[0].coord_map if x not in coords_to_merge
+        ]
         # non-merging coordinates should be identical.
         coords_dict = _get_non_merge_coords(managers, coords_not_to_merge)
         # merge coordinates
diff --git a/dascore/utils/patch.py b/dascore/utils/patch.py
index 33b36ca..4605841 100644
--- a/dascore/utils/patch.py
+++ b/dascore/utils/patch.py
@@ -1089,7 +1089,7 @@ def _merge_aligned_coords(cm1, cm2):
     """Merge aligned coordinates removing non coords."""
     assert cm1.dims == cm2.dims, "dimensions are not aligned"
     out = {}
-    for name in set(cm1.coord_map) & set(cm2.coord_map):
+    for name in (x for x in cm1.coord_map if x in cm2.coord_map):
         coord1 = cm1.coord_map[name]
         coord2 = cm2.coord_map[name]
         dim1, dim2 = cm1.dim_map.get(name), cm2.dim_map.get(name)
@@ -1180,7 +1180,7 @@ def merge_compatible_coords_attrs(
         if coord_names == set(cmap2):
             return coords2
         # otherwise just squish coords from both managers together.
-        for name in coord_names:
+        for name in {**cmap1, **cmap2}:
             coord = coords1 if name in coords1.coord_map else coords2
             dims = coord.dim_map[name]
             out[name] = (dims, coord.coord_map[name])
-- 
2.43.0


From 271380a568fb3e25f97ef7aeafdb1a2fcfc89bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:04 +0000
Subject: [PATCH 32/55] fix: pathnames below a directory spool lost every
 repetition of its base path in the index

---
 dascore/utils/pd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/utils/pd.py b/dascore/utils/pd.py
index 72c1f75..b277382 100644
--- a/dascore/utils/pd.py
+++ b/dascore/utils/pd.py
@@ -34,7 +34,7 @@ def _remove_base_path(series: pd.Series, base="") -> pd.Series:
     assert not series.empty, "Series must be non-empty"
     unix_paths = series.str.replace(os.sep, "/")
     unix_base_path = (str(base) + "/").replace(os.sep, "/")
-    out = unix_paths.str.replace(unix_base_path, "", regex=False)
+    out = unix_paths.str.removeprefix(unix_base_path)
     return out
 
 
-- 
2.43.0


From 3053270d335db885293eaa707ef0d0e461e54cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:04 +0000
Subject: [PATCH 33/55] fix: dasdae files with names containing _coord_,
 _cdims_ or _attrs_ could not be read back

---
 dascore/io/dasdae/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dascore/io/dasdae/utils.py b/dascore/io/dasdae/utils.py
index 1cde1e1..2955af9 100644
--- a/dascore/io/dasdae/utils.py
+++ b/dascore/io/dasdae/utils.py
@@ -103,7 +103,7 @@ def _get_attrs(patch_group):
     out = {}
     attrs = [x for x in patch_group._v_attrs._f_list() if x.startswith("_attrs_")]
     for attr_name in attrs:
-        key = attr_name.replace("_attrs_", "")
+        key = attr_name.removeprefix("_attrs_")
         val = patch_group._v_attrs[attr_name]
         # need to unpack one value arrays
         if isinstance(val, np.ndarray) and not val.shape:
@@ -128,7 +128,7 @@ def _get_coords(patch_group, dims, attrs2):
     coord_dict = {}  # just store coordinates here
     coord_dim_dict = {}  # stores {coord_name: ((dims, ...), coord)}
     for coord in [x for x in patch_group if x.name.startswith("_coord_")]:
-        name = coord.name.replace("_coord_", "")
+        name = coord.name.removeprefix("_coord_")
         array = _read_array(coord)
         coord = get_coord(
             data=array,
@@ -139,7 +139,7 @@ def _get_coords(patch_group, dims, attrs2):
     # associates coordinates with dimensions
     c_dims = [x for x in patch_group._v_attrs._f_list() if x.startswith("_cdims")]
     for coord_name in c_dims:
-        name = coord_name.replace("_cdims_", "")
+        name = coord_name.removeprefix("_cdims_")
         value = patch_group._v_attrs[coord_name]
         assert name in coord_dict, "Should already have loaded coordinate array"
         coord_dim_dict[name] = (tuple(value.split(",")), coord_dict[name])
@@ -230,7 +230,7 @@ def _get_patch_content_from_group(group):
     out = {}
     for key in attrs._f_list():
         value = getattr(attrs, key)
-        new_key = key.replace("_attrs_", "")
+        new_key = key.removeprefix("_attrs_")
         # need to unpack 0 dim arrays.
         if isinstance(value, np.ndarray) and not value.shape:
             value = np.atleast_1d(value)[0]
-- 
2.43.0


From 02faa26cf797e82afb4c1464091a0836791c81ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:04 +0000
Subject: [PATCH 34/55] fix: range suffixes were stripped anywhere in a column
 name

---
 dascore/utils/pd.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dascore/utils/pd.py b/dascore/utils/pd.py
index b277382..ea92d85 100644
--- a/dascore/utils/pd.py
+++ b/dascore/utils/pd.py
@@ -51,10 +51,10 @@ def _get_min_max_query(kwargs, df):
     for key, val in kwargs.items():
         val = None if val is ... else val  # handle ...
         if key.endswith("_max") and key not in col_set:
-            out[key.replace("_max", "")][1] = val
+            out[key.removesuffix("_max")][1] = val
             to_kill.append(key)
         elif key.endswith("_min") and key not in col_set:
-            out[key.replace("_min", "")][0] = val
+            out[key.removesuffix("_min")][0] = val
             to_kill.append(key)
     # remove keys with min/max suffix
     for key in to_kill:
@@ -213,7 +213,7 @@ def _convert_times(df, some_dict):
         return some_dict
     # convert queries related to datetime into datetime64
     datetime_cols = set(df.select_dtypes(include=np.datetime64).columns)
-    non_min_max_cols = {x.replace("_min", "") for x in datetime_cols}
+    non_min_max_cols = {x.removesuffix("_min") for x in datetime_cols}
     datetime_keys = (datetime_cols & set(some_dict)) | (
         non_min_max_cols & set(some_dict)
     )
@@ -384,7 +384,7 @@ def _convert_min_max_in_kwargs(kwargs, df):
             val = out.pop(key)
             if key in datetime_cols:
                 val = to_datetime64(val)
-            minmax[key.replace(suffix, "")][ind] = val
+            minmax[key.removesuffix(suffix)][ind] = val
     out.update(minmax)
     return out
 
@@ -397,7 +397,7 @@ def get_dim_names_from_columns(df: pd.DataFrame) -> list[str]:
     """
     cols = set(df.columns)
     possible_dims = {
-        x.replace("_min", "").replace("_max", "").replace("_step", "") for x in cols
+        x.removesuffix(suffix) for x in cols for suffix in ("_min", "_max", "_step")
     }
     out = {
         x for x in possible_dims if {f"{x}_min", f"{x}_max", f"{x}_step"}.issubset(cols)
-- 
2.43.0


From b7d722943efb01adf19781c8ff566cb793c36340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:45 +0000
Subject: [PATCH 35/55] fix: idft kept the padding of dimensions inverted
 separately from others

---
 dascore/transform/fourier.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dascore/transform/fourier.py b/dascore/transform/fourier.py
index 164d891..fc86721 100644
--- a/dascore/transform/fourier.py
+++ b/dascore/transform/fourier.py
@@ -351,7 +351,6 @@ def _get_idft_dims_steps_axis(patch, dim):
 def _get_idft_coords_and_sizes(patch, dims, new_dims, axes, real):
     """Get the new coords for the idft and expected sizes to pass to numpy."""
     shapes = patch.shape
-    padded = patch.attrs.get("_dft_padded", False)
     coord_map = patch.coords.disassociate_coord(*dims).get_coord_tuple_map()
     sizes = []
     padding = {}
@@ -368,9 +367,11 @@ def _get_idft_coords_and_sizes(patch, dims, new_dims, axes, real):
         if (len(potential_coord) == ax_len) or (real and old_dim == dims[-1]):
             sizes.append(len(potential_coord))
         coord_map[new_dim] = (new_dim, potential_coord)
-        if not padded:  # No padding, go to next dim.
+        # Only dimensions which were padded by dft stored their old coordinate.
+        unpadded = coord_map.pop(f"_{new_dim}_unpadded", None)
+        if unpadded is None:  # No padding, go to next dim.
             continue
-        old_len = len(coord_map.pop(f"_{new_dim}_unpadded")[1])
+        old_len = len(unpadded[1])
         diff = old_len - len(coord_map[new_dim][1])
         if diff < 0:
             padding[new_dim] = (0, diff)
-- 
2.43.0


From 298d88bbffa7666e3e65888ac9cabeb983c8d978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:45 +0000
Subject: [PATCH 36/55] fix: the data type before dft was lost when dimensions
 were transformed or inverted one by one

---
 dascore/transform/fourier.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dascore/transform/fourier.py b/dascore/transform/fourier.py
index fc86721..38f1514 100644
--- a/dascore/transform/fourier.py
+++ b/dascore/transform/fourier.py
@@ -128,7 +128,8 @@ def _get_dft_attrs(patch, dims, new_coords, pad=False, output="FFT"):
     new = dict(patch.attrs)
     new["dims"] = new_coords.dims
     new["data_units"] = _get_dft_data_units(patch, dims)
-    new["_pre_dft_data_type"] = new.get("data_type")
+    # A patch which already has transformed dimensions keeps its first data type.
+    new.setdefault("_pre_dft_data_type", new.get("data_type"))
     new["data_type"] = "fourier_transform"
     new["_dft_output"] = output
     new["_dft_padded"] = pad
@@ -389,6 +390,9 @@ def _get_idft_attrs(patch, dims, new_coords):
     new.pop("coords", None)
     new["dims"] = new_coords.dims
     new["data_units"] = _get_data_units_from_dims(patch, dims, mul)
+    # Other dimensions are still transformed, keep the info to invert them.
+    if any(x.startswith("ft_") for x in new_coords.dims):
+        return PatchAttrs(**new)
     # Restore the pre-dft datatype.
     if "_pre_dft_data_type" in new:
         new["data_type"] = new.pop("_pre_dft_data_type", None)
-- 
2.43.0


From 1b46a04b0af7fbe296d49dde1247be81320cec81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:45 +0000
Subject: [PATCH 37/55] fix: istft failed for patches with non-dimensional
 coordinates

---
 dascore/transform/fourier.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dascore/transform/fourier.py b/dascore/transform/fourier.py
index 38f1514..e6cb41b 100644
--- a/dascore/transform/fourier.py
+++ b/dascore/transform/fourier.py
@@ -641,11 +641,11 @@ def _get_istft_coord(coords, frequency_axis, time_axis):
     """
     dims = coords.dims
     # Create new time coordinate.
-    coord_map = dict(coords.coord_map)
+    coord_map = coords.get_coord_tuple_map()
     coord_map.pop("_stft_window")
-    time = coord_map.pop("_stft_old_coord")
+    time = coord_map.pop("_stft_old_coord")[1]
     coord_map.pop(coords.dims[frequency_axis])
-    coord_map[dims[time_axis]] = time
+    coord_map[dims[time_axis]] = (dims[time_axis], time)
     # Get new dimensions
     new_dims = list(dims)
     new_dims[frequency_axis] = dims[time_axis]
-- 
2.43.0


From 90fa841c2bcdf7b5d8c8ab5ecabe8a8da81338a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:07 +0000
Subject: [PATCH 38/55] fix: directory formats whose files were modified in
 place were not re-indexed

---
 dascore/io/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dascore/io/core.py b/dascore/io/core.py
index 83aa840..ae13c3e 100644
--- a/dascore/io/core.py
+++ b/dascore/io/core.py
@@ -578,7 +578,10 @@ class FiberIO:
         """Determine if the resource was updated after specified mtime."""
         if not timestamp:
             return True
-        return Path(resource).stat().st_mtime > timestamp
+        path = Path(resource)
+        # A directory's own mtime doesn't change when its files are modified.
+        contents = [x for x in path.rglob("*") if x.exists()] if path.is_dir() else []
+        return any(x.stat().st_mtime > timestamp for x in [path, *contents])
 
     def __hash__(self):
         """FiberIO instances should be uniquely defined by (format, version)."""
-- 
2.43.0


From d2bba92fd731c99d38ce5fd631a11a98253f285a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:07 +0000
Subject: [PATCH 39/55] fix: an update which found nothing new kept serving
 cached index contents

---
 dascore/io/indexer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dascore/io/indexer.py b/dascore/io/indexer.py
index 6e706ca..949ce7d 100644
--- a/dascore/io/indexer.py
+++ b/dascore/io/indexer.py
@@ -343,6 +343,6 @@ class DirectoryIndexer(AbstractIndexer):
             # ensure the base path is not in the path column
             assert "path" in set(df.columns), f"{df} has no path column"
             self._index_table.write_update(df, update_time, base_path=self.path)
-            # clear cache out when new traces are added
-            self.clear_cache()
+        # clear cache out; traces may also have been added by another indexer.
+        self.clear_cache()
         return self
-- 
2.43.0


From 1a474d65c1d356bd99480353a6e6931b3b763a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:00 +0000
Subject: [PATCH 40/55] fix: an updated directory spool forgot its merge
 options

---
 dascore/clients/dirspool.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dascore/clients/dirspool.py b/dascore/clients/dirspool.py
index a4ba73e..6e576b2 100644
--- a/dascore/clients/dirspool.py
+++ b/dascore/clients/dirspool.py
@@ -109,6 +109,7 @@ class DirectorySpool(DataFrameSpool):
             base_path=self.indexer.update(progress=progress),
             preferred_format=self._preferred_format,
             select_kwargs=self._select_kwargs,
+            merge_kwargs=self._merge_kwargs,
         )
         return out
 
-- 
2.43.0


From 8dc82c6c7d9a59ef0aad873655b94c532c388c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:00 +0000
Subject: [PATCH 41/55] fix: spools selected with an array kept the sources of
 dropped patches

---
 dascore/core/spool.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dascore/core/spool.py b/dascore/core/spool.py
index 406c426..99f6c49 100644
--- a/dascore/core/spool.py
+++ b/dascore/core/spool.py
@@ -445,8 +445,10 @@ class DataFrameSpool(BaseSpool):
         else:
             msg = "Only bool or int dtypes are supported for spool array selection."
             raise ValueError(msg)
-        source = self._source_df
-        inst = self._instruction_df
+        inst, source = self._instruction_df, self._source_df
+        # Drop rows that are no longer needed.
+        inst = inst[inst["current_index"].isin(df.index)]
+        source = source[source.index.isin(inst.index)]
         select_kwargs, merge_kwargs = self._select_kwargs, self._merge_kwargs
         new = self.new_from_df(
             df,
-- 
2.43.0


From d3c5c39f99d64114492d9b26c2df730decc1510d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:05 +0000
Subject: [PATCH 42/55] fix: the index map lost entries made by other processes

---
 dascore/io/indexer.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dascore/io/indexer.py b/dascore/io/indexer.py
index 949ce7d..0116117 100644
--- a/dascore/io/indexer.py
+++ b/dascore/io/indexer.py
@@ -9,7 +9,6 @@ import os
 import time
 import warnings
 from contextlib import suppress
-from functools import cache
 from pathlib import Path
 
 import pandas as pd
@@ -30,12 +29,11 @@ READ_HDF5_KWARGS = frozenset(
 )
 
 
-@cache
 def _get_index_map(cache_path) -> dict:
     """
     Get a dict of index locations.
 
-    Note: this is purposefully mutable; handle with care.
+    Note: other processes can also update the map so it is always read anew.
     """
     path = Path(cache_path)
     out = {}
-- 
2.43.0


From 49f2234e829e80c884592cb841382aacd9a976e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:14 +0000
Subject: [PATCH 43/55] fix: get_unit returned the unit of an earlier, equal
 quantity

---
 dascore/units.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dascore/units.py b/dascore/units.py
index 8ce1e35..6f8c497 100644
--- a/dascore/units.py
+++ b/dascore/units.py
@@ -56,6 +56,11 @@ def get_registry():
 
 
 @cache
+def _get_unit(value) -> Unit:
+    """Get a unit from a string or unit; cache output."""
+    return get_registry().Unit(value)
+
+
 def get_unit(value) -> Unit:
     """
     Convert a value to a pint unit.
@@ -79,8 +84,10 @@ def get_unit(value) -> Unit:
     """
     if isinstance(value, Quantity):
         assert value.magnitude == 1.0
+        # Equal quantities can have different units (e.g. 1/s and Hz) so
+        # quantities can't be used as cache keys.
         value = value.units
-    return get_registry().Unit(value)
+    return _get_unit(value)
 
 
 @cache
-- 
2.43.0


From c3514a553b7fd1f05ef48abe58d912cbffe82933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:14 +0000
Subject: [PATCH 44/55] fix: unit conversions reused the factors of equal
 quantities

---
 dascore/units.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dascore/units.py b/dascore/units.py
index 6f8c497..4f60c6c 100644
--- a/dascore/units.py
+++ b/dascore/units.py
@@ -140,8 +140,14 @@ def get_factor_and_unit(
 
 
 @cache
-def _get_conversion_factors(from_quant, to_quant) -> tuple[float, float, float]:
+def _get_conversion_factors(
+    from_mag, from_unit, to_mag, to_unit
+) -> tuple[float, float, float]:
     """Get multiplicative and additive conversion factors."""
+    # Equal quantities can have different units (e.g. 1 degC and 274.15 K) so
+    # quantities can't be used as cache keys.
+    quantity = get_registry().Quantity
+    from_quant, to_quant = quantity(from_mag, from_unit), quantity(to_mag, to_unit)
     add_mag = (0 * from_quant).to(0 * to_quant).magnitude
     # need to convert from and to units to deltas for proper conversion.
     from_delta = (1 * from_quant.units) - (from_quant.units * 0)
@@ -182,7 +188,9 @@ def convert_units(
         msg = "Cannot convert units to_units are not specified"
         raise UnitError(msg)
     try:
-        mult1, add, mult2 = _get_conversion_factors(from_units, to_units)
+        mult1, add, mult2 = _get_conversion_factors(
+            from_units.magnitude, from_units.units, to_units.magnitude, to_units.units
+        )
     except DimensionalityError as e:
         raise UnitError(str(e))
     return (data * mult1 + add) * mult2
-- 
2.43.0


From 5bd4a981b7053b7a7eaa3f7f0fbd7652029e0bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:14 +0000
Subject: [PATCH 45/55] fix: namespaces of derived spools acted on the spool
 they came from

---
 dascore/utils/namespace.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dascore/utils/namespace.py b/dascore/utils/namespace.py
index 7df2d1b..ad35b12 100644
--- a/dascore/utils/namespace.py
+++ b/dascore/utils/namespace.py
@@ -109,9 +109,12 @@ class NamespaceOwner:
         # Once loaded the registry should be populated.
         registry = _MethodNameSpace._registry.get(self._namespace_entry_point_group, {})
         if item in registry:
-            instance = registry[item](self)
-            self.__dict__[item] = instance
-            return instance
+            # Derived objects can copy __dict__, so ensure a stored namespace is
+            # bound to this object rather than the one it was copied from.
+            stored = self.__dict__.setdefault("_namespaces", {})
+            if item not in stored or stored[item]._obj is not self:
+                stored[item] = registry[item](self)
+            return stored[item]
 
         # If that fails, see if there is anything specific for this name to raise.
         if item in self._namespace_attr_errors:
-- 
2.43.0


From 0b584ac663bf129aa8f0555957677a33353dc2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:07 +0000
Subject: [PATCH 46/55] fix: columns of chunked spools were ordered by the hash
 of their names

---
 dascore/utils/chunk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/utils/chunk.py b/dascore/utils/chunk.py
index 25ad36f..acd03b1 100644
--- a/dascore/utils/chunk.py
+++ b/dascore/utils/chunk.py
@@ -292,7 +292,7 @@ class ChunkManager:
         # dfs don't have dims though, so it should still work without dims col.
         dims = set(df.iloc[0].get("dims", "").split(","))
         # We exclude private columns for considering if merge can happen.
-        for col in set(x for x in merger.columns if not x.startswith("_")):
+        for col in dict.fromkeys(x for x in merger.columns if not x.startswith("_")):
             prefix = col.split("_")[0]
             # If we have specified to ignore or remove conflicting attrs
             # we don't need to check them here, but we do still check dims.
-- 
2.43.0


From 28b831e1f015125c58b416d75a970087d143c4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:11 +0000
Subject: [PATCH 47/55] fix: roll the coordinates associated with a rolled
 dimension

---
 dascore/core/coordmanager.py | 17 +++++++++++++++++
 dascore/proc/basic.py        |  4 +++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/dascore/core/coordmanager.py b/dascore/core/coordmanager.py
index a696aac..b0b9780 100644
--- a/dascore/core/coordmanager.py
+++ b/dascore/core/coordmanager.py
@@ -1058,6 +1058,23 @@ class CoordManager(DascoreBaseModel):
         out[ind] = value
         return tuple(out)
 
+    def _update_reindexed_dims(self, **kwargs) -> Self:
+        """
+        Replace dimensional coordinates whose samples have been re-indexed.
+
+        Parameters
+        ----------
+        **kwargs
+            A mapping of {dim: (new_coord, index)}. The index is applied to the
+            other coordinates associated with the dimension, unless its length
+            changes; then they are dropped, as they are in an update.
+        """
+        cm = self.update(**{dim: coord for dim, (coord, _) in kwargs.items()})
+        new_coords = cm._get_dim_array_dict(keep_coord=True)
+        for dim, (_, index) in kwargs.items():
+            _indirect_coord_updates(cm, dim, dim, index, new_coords)
+        return cm.update(**new_coords)
+
     def keys(self):
         """Return the keys (coordinates) in the coord manager."""
         return self.coord_map.keys()
diff --git a/dascore/proc/basic.py b/dascore/proc/basic.py
index d41888d..f66f8ed 100644
--- a/dascore/proc/basic.py
+++ b/dascore/proc/basic.py
@@ -704,7 +704,9 @@ def roll(patch, samples=False, update_coord=False, **kwargs):
     if update_coord:
         roll_coord_arr = np.roll(coord.values, value)
         new_coord = coord.update(values=roll_coord_arr)
-        patch = patch.update_coords(**{dim: new_coord})
+        index = np.roll(np.arange(len(coord)), value)
+        cm = patch.coords._update_reindexed_dims(**{dim: (new_coord, index)})
+        patch = patch.new(coords=cm)
 
     return patch.new(data=roll_arr)
 
-- 
2.43.0


From 30bec076dd9edf1a6cbc741336c72bc23eb2b7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:11 +0000
Subject: [PATCH 48/55] fix: re-index associated coordinates when aligning
 patches

---
 dascore/utils/patch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dascore/utils/patch.py b/dascore/utils/patch.py
index 4605841..6b5f3fd 100644
--- a/dascore/utils/patch.py
+++ b/dascore/utils/patch.py
@@ -975,14 +975,14 @@ def align_patch_coords(
         dim_ind = dim_dict[dim]
         # We actually need to do some alignment here.
         ncoord1, ncoord2, sli1, sli2 = coord1.align_to(coord2)
-        new_coords_1[dim], new_coords_2[dim] = ncoord1, ncoord2
+        new_coords_1[dim], new_coords_2[dim] = (ncoord1, sli1), (ncoord2, sli2)
         align_1[dim_ind], align_2[dim_ind] = sli1, sli2
     # No alignment needed, just skip.
     if not (new_coords_1 or new_coords_2):
         return patch1, patch2
     # Update coordinate managers and reshape arrays, return new patches.
-    coord1 = patch1.coords.update(**new_coords_1)
-    coord2 = patch2.coords.update(**new_coords_2)
+    coord1 = patch1.coords._update_reindexed_dims(**new_coords_1)
+    coord2 = patch2.coords._update_reindexed_dims(**new_coords_2)
     array1 = _apply_union_indexers(tuple(align_1), patch1.data)
     array2 = _apply_union_indexers(tuple(align_2), patch2.data)
     out1 = patch1.new(data=array1, coords=coord1)
-- 
2.43.0


From 07bd1439cd9ce1e5225cf29ea618ecce3b7e7076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:11 +0000
Subject: [PATCH 49/55] fix: shift coordinates associated with a
 correlation-shifted dimension

---
 dascore/proc/correlate.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dascore/proc/correlate.py b/dascore/proc/correlate.py
index 0d63fec..0a68ef7 100644
--- a/dascore/proc/correlate.py
+++ b/dascore/proc/correlate.py
@@ -81,8 +81,9 @@ def correlate_shift(
     )
     new_coord = _new_coord.change_length(len(coord))
     assert len(new_coord) == len(coord)
-    cm = patch.coords
-    new_cm = cm.update(**{dim: new_coord}).rename_coord(**{dim: f"lag_{dim}"})
+    index = np.fft.fftshift(np.arange(len(coord)))
+    new_cm = patch.coords._update_reindexed_dims(**{dim: (new_coord, index)})
+    new_cm = new_cm.rename_coord(**{dim: f"lag_{dim}"})
     out = patch.update(data=data, coords=new_cm)
     return out
 
-- 
2.43.0


From a867737dbded9e929ef9b22f147654483b1e50db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:23 +0000
Subject: [PATCH 50/55] fix: patches whose dimensions differ were stacked
 although reported as incompatible

---
 dascore/utils/patch.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dascore/utils/patch.py b/dascore/utils/patch.py
index 6b5f3fd..29c8cb5 100644
--- a/dascore/utils/patch.py
+++ b/dascore/utils/patch.py
@@ -1014,7 +1014,6 @@ def check_dims(
         to be equal.
     """
     dims1, dims2 = patch1.dims, patch2.dims
-    dims_ok = True
     if not intersection and patch1.dims == patch2.dims:
         return True
     dset1, dset2 = set(dims1), set(dims2)
@@ -1025,7 +1024,7 @@ def check_dims(
         f" Patch1 dims: {dims1}, Patch2 dims: {dims2}"
     )
     warn_or_raise(msg, exception=IncompatiblePatchError, behavior=check_behavior)
-    return dims_ok
+    return False
 
 
 def check_coords(
-- 
2.43.0


From 7e73e2c5c9f9919bf2b229e842cb6b536b806c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:57 +0000
Subject: [PATCH 51/55] fix: merge associated coordinates from their own values
 and dimensions

---
 dascore/utils/coordmanager.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dascore/utils/coordmanager.py b/dascore/utils/coordmanager.py
index 51706b9..57e887f 100644
--- a/dascore/utils/coordmanager.py
+++ b/dascore/utils/coordmanager.py
@@ -112,7 +112,7 @@ def merge_coord_managers(
         """Get the merged coordinates."""
         out = {}
         for coord_name in coords_to_merge:
-            merge_coords = [x.coord_map[dim] for x in managers]
+            merge_coords = [x.coord_map[coord_name] for x in managers]
             axis = managers[0].dim_map[coord_name].index(dim)
             if len(units := {x.units for x in merge_coords}) != 1:
                 # TODO: we might try to convert all the units to a common
@@ -122,9 +122,11 @@ def merge_coord_managers(
                     f"share the same units. Units found are: {set(units)}"
                 )
                 raise CoordMergeError(msg)
-            snap_coords = _snap_coords(merge_coords)
-            data = [x.data for x in snap_coords]
-            dims = managers[0].dim_map[dim]
+            # Only the merge dimension itself can be snapped.
+            if coord_name == dim:
+                merge_coords = _snap_coords(merge_coords)
+            data = [x.data for x in merge_coords]
+            dims = managers[0].dim_map[coord_name]
             new_data = np.concatenate(data, axis=axis)
             out[coord_name] = (dims, new_data)
         return out
-- 
2.43.0


From 7dfc97041b97650f22d22b9893289921eb8c4d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:57 +0000
Subject: [PATCH 52/55] fix: renaming coordinates or setting dimensions can
 exchange and shift names

---
 dascore/core/coordmanager.py | 38 ++++++++++++------------------------
 1 file changed, 13 insertions(+), 25 deletions(-)

diff --git a/dascore/core/coordmanager.py b/dascore/core/coordmanager.py
index b0b9780..71d198e 100644
--- a/dascore/core/coordmanager.py
+++ b/dascore/core/coordmanager.py
@@ -572,7 +572,7 @@ class CoordManager(DascoreBaseModel):
         coord_map = dict(self.coord_map)
         dim_map = dict(self.dim_map)
         for old_dim, new_dim in kwargs.items():
-            if new_dim not in coord_map or old_dim not in dims:
+            if new_dim not in coord_map or old_dim not in self.dims:
                 msg = (
                     f"{old_dim} is not a dimension or {new_dim} is not a "
                     f"coordinate."
@@ -588,7 +588,7 @@ class CoordManager(DascoreBaseModel):
                 raise CoordError(msg)
 
             # swap out old dims
-            dims[dims.index(old_dim)] = new_dim
+            dims[self.dims.index(old_dim)] = new_dim
         # now loop over dim_maps and swap out old dims with new
         old_to_new = {i: v for i, v in zip(self.dims, dims, strict=True)}
         for coord_name, coord_dims in dim_map.items():
@@ -927,29 +927,17 @@ class CoordManager(DascoreBaseModel):
         **kwargs
             Used to rename coord {old_coord_name: new_coord_name}
         """
-
-        def _adjust_dim_map_to_new_dim(dim_map, old_name, new_name):
-            """Get the updated dim map."""
-            out = dim_map
-            # replace all mentions of
-            for key, value in out.items():
-                if old_name not in value:
-                    continue
-                new_value = tuple(x if x != old_name else new_name for x in value)
-                out[key] = new_value
-
-            return out
-
-        dims, coord_map = list(self.dims), dict(self.coord_map)
-        dim_map = dict(self.dim_map)
-        for old_name, new_name in kwargs.items():
-            if old_name == new_name:
-                continue
-            if old_name in dims:  # only
-                dims[dims.index(old_name)] = new_name
-                dim_map = _adjust_dim_map_to_new_dim(dim_map, old_name, new_name)
-            coord_map[new_name] = coord_map.pop(old_name)
-            dim_map[new_name] = dim_map.pop(old_name)
+        renames = {old: new for old, new in kwargs.items() if old != new}
+        coord_map = {i: v for i, v in self.coord_map.items() if i not in renames}
+        dim_map = {i: v for i, v in self.dim_map.items() if i not in renames}
+        # Old names refer to self so the renames can exchange or shift names.
+        for old_name, new_name in renames.items():
+            coord_map[new_name] = self.coord_map[old_name]
+            dim_map[new_name] = self.dim_map[old_name]
+        # Then replace the renamed dimensions.
+        dims = [renames.get(x, x) for x in self.dims]
+        for coord_name, coord_dims in dim_map.items():
+            dim_map[coord_name] = tuple(renames.get(x, x) for x in coord_dims)
 
         out = dict(dims=dims, coord_map=coord_map, dim_map=dim_map)
         return self.__class__(**out)
-- 
2.43.0


From f417222b26af23923ecb0770c2f4353f80058f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:57 +0000
Subject: [PATCH 53/55] fix: rename_dimension keeps order and chained names

---
 dascore/core/attrs.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/dascore/core/attrs.py b/dascore/core/attrs.py
index 815fdc4..0359ce0 100644
--- a/dascore/core/attrs.py
+++ b/dascore/core/attrs.py
@@ -220,15 +220,14 @@ class PatchAttrs(DascoreBaseModel):
 
     def rename_dimension(self, **kwargs):
         """Rename one or more dimensions if in kwargs. Return new PatchAttrs."""
-        if not (dims := set(kwargs) & set(self.dim_tuple)):
+        renames = {x: v for x, v in kwargs.items() if x in self.dim_tuple}
+        if not renames:
             return self
         new = self.model_dump(exclude_defaults=True)
         coords = new.get("coords", {})
-        new_dims = list(self.dim_tuple)
-        for old_name, new_name in {x: kwargs[x] for x in dims}.items():
-            new_dims[new_dims.index(old_name)] = new_name
-            coords[new_name] = coords.pop(old_name, None)
-        new["dims"] = tuple(new_dims)
+        # Take the old entries out first so names can be exchanged or shifted.
+        coords.update({v: coords.pop(x, None) for x, v in renames.items()})
+        new["dims"] = tuple(renames.get(x, x) for x in self.dim_tuple)
         return self.__class__(**new)
 
     def update(self, **kwargs) -> Self:
-- 
2.43.0


From fd7082d3388eb8485e097e562fd18d3e41637a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:57 +0000
Subject: [PATCH 54/55] fix: to_obspy rejects patches which are not 2d with the
 documented error

---
 dascore/utils/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/utils/io.py b/dascore/utils/io.py
index 6b0e330..d984fff 100644
--- a/dascore/utils/io.py
+++ b/dascore/utils/io.py
@@ -217,7 +217,7 @@ def patch_to_obspy(patch: PatchType):
         """Ensure the patch can be converted to a stream else raise."""
         is_2d = len(patch.dims) == 2
         has_time = "time" in patch.dims
-        if not has_time and is_2d:
+        if not (has_time and is_2d):
             msg = "Can only convert 2d patches with a time dimension to stream."
             raise PatchConversionError(msg)
 
-- 
2.43.0


From 9081ad4361bb1c18bc397d1cd21b43a0490a648e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:57 +0000
Subject: [PATCH 55/55] fix: dispersion_phase_shift requires an evenly sampled
 time coordinate

---
 dascore/transform/dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/transform/dispersion.py b/dascore/transform/dispersion.py
index 80e2c15..17e0711 100644
--- a/dascore/transform/dispersion.py
+++ b/dascore/transform/dispersion.py
@@ -86,7 +86,7 @@ def dispersion_phase_shift(
     """
     patch_cop = patch.convert_units(distance="m").transpose("distance", "time")
     dist = patch_cop.coords.get_array("distance")
-    time = patch_cop.coords.get_array("time")
+    time = patch_cop.get_array("time", require_evenly_sampled=True)
 
     dt = (time[1] - time[0]) / np.timedelta64(1, "s")
 
-- 
2.43.0

